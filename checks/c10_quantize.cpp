// C10: colour reduction against a reference median cut over plain lists of colours.
#include "trace.hpp"
#include <algorithm>
#include <array>

typedef std::array<int, 3> Col; // cell indices or samples
struct Box {
  std::vector<std::pair<Col, long>> c; // cells (samples halved) with the number of pixels
  Col lo, hi;
  void bounds() {
    lo = {999, 999, 999};
    hi = {-1, -1, -1};
    for (auto &p : c)
      for (int k = 0; k < 3; k++)
        lo[k] = std::min(lo[k], p.first[k]), hi[k] = std::max(hi[k], p.first[k]);
  }
  long volume() const {
    long v = 0;
    for (int k = 0; k < 3; k++)
      v += (long)(hi[k] - lo[k]) * (hi[k] - lo[k]);
    return v;
  }
};

static std::vector<Col> palette(const std::vector<Col> &px, unsigned count, const Col *bg) {
  std::map<Col, long> hist;
  for (auto &p : px)
    if (!bg || p != *bg)
      hist[{p[0] / 2, p[1] / 2, p[2] / 2}]++;
  std::vector<Box> bx(1);
  for (auto &h : hist)
    bx[0].c.push_back(h);
  std::vector<Col> pal;
  if (hist.empty())
    return pal;
  bx[0].bounds();
  while (bx.size() < count) {
    size_t w = 0;
    for (size_t i = 1; i < bx.size(); i++)
      if (bx[i].volume() > bx[w].volume())
        w = i;
    if (bx[w].volume() == 0)
      break;
    int r = bx[w].hi[0] - bx[w].lo[0], g = bx[w].hi[1] - bx[w].lo[1], b = bx[w].hi[2] - bx[w].lo[2];
    int ax = 1, mx = g;
    if (r > mx)
      ax = 0, mx = r;
    if (b > mx)
      ax = 2;
    int mid = (bx[w].hi[ax] + bx[w].lo[ax]) / 2;
    Box l, h;
    for (auto &p : bx[w].c)
      (p.first[ax] <= mid ? l : h).c.push_back(p);
    l.bounds();
    h.bounds();
    bx[w] = l;
    bx.push_back(h);
  }
  for (auto &b : bx) {
    long n = 0, s[3] = {0, 0, 0};
    for (auto &p : b.c) {
      n += p.second;
      for (int k = 0; k < 3; k++)
        s[k] += (p.first[k] * 2 + 1) * p.second;
    }
    pal.push_back({(int)((s[0] + n / 2) / n), (int)((s[1] + n / 2) / n), (int)((s[2] + n / 2) / n)});
  }
  return pal;
}
static Col nearest(const std::vector<Col> &pal, Col p) {
  long best = 1l << 60;
  Col r = p;
  static const int SC[3] = {2, 3, 1};
  for (auto &q : pal) {
    long d = 0;
    for (int k = 0; k < 3; k++) {
      long e = ((p[k] & ~1) + 1 - q[k]) * SC[k];
      d += e * e;
    }
    if (d < best)
      best = d, r = q;
  }
  return r;
}

static void one(Ctx &c, unsigned w, unsigned h, const std::vector<Col> &px, unsigned np, unsigned count, const Col *bg, const std::string &cls) {
  Img im;
  im.w = w;
  im.h = h;
  im.np = np;
  for (auto &p : px)
    for (unsigned k = 0; k < np; k++)
      im.px += (char)p[k];
  std::string desc = fmt("%s count=%u bg=%s", im.str().c_str(), count, bg ? fmt("%02x%02x%02x", (*bg)[0], (*bg)[1], (*bg)[2]).c_str() : "-");
  c.note("%s", desc.c_str());
  Opts o;
  o->color_count = count;
  if (bg)
    o.bg((*bg)[0], (*bg)[1], (*bg)[2]);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  at_splines_type *s = at_splines_new(b, o.o, Msgs::cb, &m);
  bool null = !s;
  std::set<int> shape_cols;
  for (auto &l : grab(s).shapes)
    shape_cols.insert(l.color.r << 16 | l.color.g << 8 | l.color.b);
  if (s)
    at_splines_free(s);
  Img got = via_get_color(b);
  unsigned gnp = at_bitmap_get_planes(b);
  at_bitmap_free(b);
  c.step(px.size());
  c.trace();
  if (null || m.fatal || gnp != np) {
    c.fail("error:" + cls, "%s: %s", desc.c_str(), m.last.c_str());
    return;
  }
  std::vector<Col> pal = palette(px, std::min(count, 256u), bg);
  Col bgnear{-1, -1, -1};
  if (bg)
    bgnear = pal.empty() ? *bg : nearest(pal, *bg);
  std::set<Col> out;
  for (size_t k = 0; k < px.size(); k++) {
    Col e = pal.empty() ? *bg : nearest(pal, px[k]);
    if (bg && e == bgnear)
      e = *bg;
    Col g{(unsigned char)got.px[k * 3], (unsigned char)got.px[k * 3 + 1], (unsigned char)got.px[k * 3 + 2]};
    out.insert(g);
    if (g != e) {
      c.fail("color:" + cls, "%s: pixel %zu became %02x%02x%02x, expected %02x%02x%02x", desc.c_str(), k, g[0], g[1], g[2], e[0], e[1], e[2]);
      break;
    }
  }
  if (out.size() > count)
    c.fail("count:" + cls, "%s: %zu colours", desc.c_str(), out.size());
  for (int v : shape_cols)
    if (!out.count({v >> 16, v >> 8 & 255, v & 255}))
      c.fail("shape:" + cls, "%s: traced shape has colour %06x", desc.c_str(), v);
  u64 hs = mc::hash_str(got.px, count);
  c.state(hs);
  if (out.size() > 1)
    c.nontrivial(hs);
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C10";
  k.bounds = fmt("every selection of %u colours out of 7, counts 1..5, background absent/used/unused; gray ramps of 1..256 levels and RGB cubes to 512 colours with counts 1..1000; all pixels between two frequent colours of 17 levels on each axis, all triples of frequent colours of a 3x3x2 grid with single pixels on a 5x5x5 grid; a colour at 27 places in a block of cells, one beyond each corner of it along each axis at 10 distances and a pixel at the corner", th ? 6 : 5);
  static const Col AL[7] = {{0, 0, 0}, {255, 255, 255}, {128, 0, 0}, {0, 128, 1}, {3, 0, 131}, {127, 129, 126}, {254, 254, 253}};
  unsigned np = th ? 6 : 5;
  u64 n = 1;
  for (unsigned q = 0; q < np; q++)
    n *= 7;
  k.spaces.push_back({"sets", n * 5 * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned count = 1 + p(5), b = p(3);
                        std::vector<Col> px;
                        unsigned last = 0;
                        for (unsigned q = 0; q < np; q++) {
                          unsigned v = p(7);
                          if (v < last)
                            return; // the order of the pixels is explored in its own space
                          last = v;
                          px.push_back(AL[v]);
                        }
                        static const Col unused{10, 200, 30};
                        one(c, np, 1, px, 3, count, b == 0 ? nullptr : b == 1 ? &AL[1] : &unused, "sets");
                      },
                      60});
  // the order of the pixels makes no difference
  k.spaces.push_back({"order", 24 * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned perm = p(24), count = 1 + p(3);
                        std::vector<int> o{0, 1, 2, 3};
                        for (unsigned q = 0; q < perm; q++)
                          std::next_permutation(o.begin(), o.end());
                        std::vector<Col> px;
                        for (int q : o)
                          px.push_back(AL[q + 2]);
                        one(c, 1, 4, px, 3, count, nullptr, "order");
                      },
                      60});
  static const unsigned CNT[] = {1, 2, 3, 4, 7, 16, 64, 127, 128, 129, 255, 256, 257, 300, 1000};
  static const unsigned LV[] = {1, 2, 3, 5, 9, 17, 128, 256};
  k.spaces.push_back({"gray", 15ull * 8 * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned count = CNT[p(15)], lv = LV[p(8)], b = p(3), np = p(2) ? 3 : 1;
                        std::vector<Col> px;
                        for (unsigned q = 0; q < lv; q++) {
                          int v = lv == 1 ? 77 : (int)(q * 255 / (lv - 1));
                          for (unsigned r = 0; r <= q % 3; r++)
                            px.push_back({v, v, v});
                        }
                        static const Col B[2] = {{255, 255, 255}, {77, 77, 77}};
                        one(c, px.size(), 1, px, np, count, b ? &B[b - 1] : nullptr, np == 1 ? "gray" : "gray-rgb");
                      },
                      60});
  k.spaces.push_back({"cube", 15ull * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned count = CNT[p(15)], e = p(3) == 0 ? 3 : i % 2 ? 6 : 8, b = p(2);
                        std::vector<Col> px;
                        for (unsigned q = 0; q < e * e * e; q++)
                          px.push_back({(int)(q % e * 255 / (e - 1)), (int)(q / e % e * 254 / (e - 1)), (int)(q / e / e * 253 / (e - 1))});
                        one(c, e * e, e, px, 3, count, b ? &AL[0] : nullptr, "cube");
                      },
                      60});
  // two frequent colours that differ in one sample, and single pixels everywhere between
  static const int V[17] = {0, 1, 30, 31, 32, 33, 47, 49, 61, 63, 64, 66, 81, 95, 97, 160, 255};
  k.spaces.push_back({"line", 17ull * 16 / 2 * 3 * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned ax = p(3);
                        int other = (int[]){49, 33, 0, 255}[p(4)];
                        unsigned pair = p(136), a = 0;
                        while (pair >= 16 - a)
                          pair -= 16 - a++;
                        unsigned b = a + 1 + pair;
                        std::vector<Col> px;
                        auto add = [&](int v, unsigned n) {
                          Col q{other, other, other};
                          q[ax] = v;
                          px.insert(px.end(), n, q);
                        };
                        add(V[a], 300);
                        add(V[b], 300);
                        for (unsigned q = a + 1; q < b; q++)
                          add(V[q], 1);
                        one(c, px.size(), 1, px, 3, 2, nullptr, "line");
                      },
                      60});
  // three frequent colours from a grid, single pixels on another one
  k.spaces.push_back({"grid", 18ull * 17 * 16 / 6, [=](u64 i, Ctx &c) {
                        u64 n = i;
                        unsigned a = 0, b, d;
                        for (a = 0;; a++) {
                          u64 m = (17 - a) * (16 - a) / 2;
                          if (n < m)
                            break;
                          n -= m;
                        }
                        for (b = a + 1; n >= 17 - b; b++)
                          n -= 17 - b;
                        d = b + 1 + n;
                        static const int G[3] = {33, 62, 97}, F[5] = {25, 41, 57, 69, 85};
                        std::vector<Col> px;
                        for (unsigned q : {a, b, d})
                          px.insert(px.end(), 500, Col{G[q % 3], G[q / 3 % 3], G[q / 9 * 2]});
                        for (unsigned q = 0; q < 125; q++)
                          px.push_back({F[q % 5], F[q / 5 % 5], F[q / 25]});
                        one(c, 25, px.size() / 25, px, 3, 3, nullptr, "grid");
                      },
                      60});
  // one colour inside a block of 32 levels, one beyond a corner of it along an axis, and a pixel at that corner
  k.spaces.push_back({"corner", 27ull * 8 * 3 * 10, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const int IN[3] = {64, 79, 95};
                        static const int SC[3] = {2, 3, 1};
                        Col in{IN[p(3)], IN[p(3)], IN[p(3)]}, at;
                        for (int q = 0; q < 3; q++)
                          at[q] = p(2) ? 95 : 64;
                        unsigned ax = p(3);
                        int d = (20 + 12 * (int)p(10)) / SC[ax];
                        Col far = at;
                        far[ax] += at[ax] == 95 ? d : -d;
                        if (far[ax] < 0 || far[ax] > 255)
                          return;
                        std::vector<Col> px(200, in);
                        px.insert(px.end(), 200, far);
                        px.push_back(at);
                        one(c, px.size(), 1, px, 3, 2, nullptr, "corner");
                      },
                      60});
  // only background
  k.spaces.push_back({"all-background", 15ull * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned count = CNT[p(15)], np = p(2) ? 3 : 1;
                        std::vector<Col> px(6, AL[1]);
                        one(c, 3, 2, px, np, count, &AL[1], "all-background");
                      },
                      60});
  // the result of one picture does not depend on an earlier one
  k.spaces.push_back({"history", 7 * 7, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned a = p(7), b = p(7);
                        one(c, 2, 1, {AL[a], AL[(a + 1) % 7]}, 3, 1, nullptr, "history");
                        one(c, 2, 1, {AL[b], AL[(b + 2) % 7]}, 3, 2, nullptr, "history");
                      },
                      60});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
