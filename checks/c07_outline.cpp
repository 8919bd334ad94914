// C07: outlines of every small picture, painted again, give the picture.
#include "trace.hpp"

static const unsigned COL[6] = {0xffffff, 0x0a141e, 0x0a141f, 0x0b141e, 0x0a151e, 0x000000};

static void one(Ctx &c, unsigned w, unsigned h, unsigned np, const std::vector<unsigned> &px, int bg, const std::string &cls) {
  Img im;
  im.w = w;
  im.h = h;
  im.np = np;
  for (unsigned p : px) {
    if (np == 3) {
      im.px += (char)(p >> 16);
      im.px += (char)(p >> 8);
    }
    im.px += (char)p;
  }
  std::string desc = fmt("%s bg=%06x", im.str().c_str(), bg);
  c.note("%s", desc.c_str());
  Opts o;
  exact(o);
  if (bg >= 0)
    o.bg(bg >> 16 & 255, bg >> 8 & 255, bg & 255);
  Msgs m;
  Traced t = trace_img(im, o, m);
  c.step(px.size());
  c.trace();
  if (t.null || m.fatal) {
    c.fail("error:" + cls, "%s: %s", desc.c_str(), m.last.c_str());
    return;
  }
  if (t.w != w || t.h != h)
    c.fail("size:" + cls, "%s: traced size %ux%u", desc.c_str(), t.w, t.h);
  for (auto &s : t.shapes) {
    if (s.open || s.s.empty()) {
      c.fail("open:" + cls, "%s: outline is open or empty", desc.c_str());
      return;
    }
    double a = area(flatten(s));
    if ((a > 0) == s.clockwise)
      c.fail("orientation:" + cls, "%s: area %g, clockwise %d", desc.c_str(), a, s.clockwise);
    for (size_t k = 0; k < s.s.size(); k++) {
      const Sp &p = s.s[k], &q = s.s[(k + 1) % s.s.size()];
      if (p.v[3].x != q.v[0].x || p.v[3].y != q.v[0].y) {
        c.fail("gap:" + cls, "%s: segment %zu ends at %g,%g, next starts at %g,%g", desc.c_str(), k, p.v[3].x, p.v[3].y, q.v[0].x, q.v[0].y);
        break;
      }
      if (p.v[3].x < 0 || p.v[3].y < 0 || p.v[3].x > w || p.v[3].y > h)
        c.fail("outside:" + cls, "%s: point %g,%g outside the picture", desc.c_str(), p.v[3].x, p.v[3].y);
    }
  }
  c.note("%s", t.text().c_str());
  std::vector<int> cv = paint(t);
  for (size_t k = 0; k < px.size(); k++) {
    int want = px[k];
    if (np == 1)
      want = want * 0x10101;
    if (want == bg)
      want = -1;
    if (cv[k] != want) {
      c.fail((want == -1 ? cv[k] == -1 ? "?" : "background-painted:" : cv[k] == -1 ? "unpainted:" : "wrong-color:") + cls, "%s: pixel %zu painted %06x, expected %06x", desc.c_str(), k, cv[k], want);
      break;
    }
  }
  u64 hs = w * 77 + h;
  for (auto &s : t.shapes)
    for (auto &p : s.s)
      hs = mc::mix(hs, (u64)p.v[3].x << 20 | (u64)p.v[3].y);
  c.state(hs);
  if (t.shapes.size() > 1)
    c.nontrivial(hs);
  c.counter("shapes", t.shapes.size());
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C07";
  unsigned n2 = th ? 20 : 16, n3 = th ? 12 : 9;
  k.bounds = fmt("every two-colour picture of at most %u pixels (all widths and heights), every three-colour picture of at most %u and four-colour picture of at most %u pixels, gray and RGB, background absent/used/unused; nested rings to 9x9; 12 patterns to 71x67; figures across the 8, 9, 10, 12 and 15 bit boundaries of either axis; strips to 65535 pixels", n2, n3, th ? 10 : 7);
  auto small = [&](unsigned nc, unsigned lim, unsigned most, unsigned minpx) {
    for (unsigned w = 1; w <= lim; w++)
      for (unsigned h = 1; w * h <= lim; h++) {
        if (w * h > most && (w * h < minpx || w > 5 || h > 5))
          continue; // beyond `most` pixels only the squarish shapes
        u64 n = 1;
        for (unsigned q = 0; q < w * h; q++)
          n *= nc;
        // background: absent, colour 0, colour 1, not in the picture; last digit: gray or RGB
        bool full = th || w * h <= (nc == 2 ? 12 : 8);
        k.spaces.push_back({fmt("c%u-%ux%u", nc, w, h), full ? n * 4 * (nc == 2 ? 2 : 1) : n * 2, [=](u64 i, Ctx &c) {
                              Pick p(i);
                              int bg[4] = {-1, (int)COL[0], (int)COL[1], 0x123456};
                              unsigned b = p(full ? 4 : 2), np = full && nc == 2 ? (p(2) ? 1 : 3) : 3;
                              std::vector<unsigned> px;
                              for (unsigned q = 0; q < w * h; q++) {
                                unsigned v = COL[p(nc)];
                                px.push_back(np == 1 ? v & 255 : v);
                              }
                              int g = bg[b];
                              if (np == 1 && g >= 0)
                                g = (g & 255) * 0x10101;
                              one(c, w, h, np, px, g, fmt("c%u", nc));
                            }});
      }
  };
  small(2, n2, th ? n2 : 12, 15);
  small(3, n3, n3, 0);
  small(4, th ? 10 : 7, 12, 0);
  // nested rings: ring r has any of 3 colours, background the first one or absent
  for (unsigned sz = 5; sz <= 9; sz += 2)
    k.spaces.push_back({fmt("rings%u", sz), (u64)pow(3, (sz + 1) / 2) * 2, [=](u64 i, Ctx &c) {
                          Pick p(i);
                          int bg = p(2) ? COL[0] : -1;
                          unsigned rc[5];
                          for (unsigned r = 0; r < (sz + 1) / 2; r++)
                            rc[r] = COL[p(3)];
                          std::vector<unsigned> px;
                          for (unsigned y = 0; y < sz; y++)
                            for (unsigned x = 0; x < sz; x++)
                              px.push_back(rc[std::min(std::min(x, y), std::min(sz - 1 - x, sz - 1 - y))]);
                          one(c, sz, sz, 3, px, bg, "rings");
                        }});
  // a block with every 3x3 core, framed by one or two colours
  k.spaces.push_back({"framed", 512ull * 9 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned core = p(512), f1 = p(3), f2 = p(3);
                        int bg = p(2) ? COL[0] : -1;
                        std::vector<unsigned> px;
                        for (unsigned y = 0; y < 7; y++)
                          for (unsigned x = 0; x < 7; x++) {
                            unsigned d = std::min(std::min(x, y), std::min(6 - x, 6 - y));
                            px.push_back(d == 0 ? COL[f1] : d == 1 ? COL[f2] : COL[core >> ((y - 2) * 3 + x - 2) & 1]);
                          }
                        one(c, 7, 7, 3, px, bg, "framed");
                      }});
  // many shapes, many holes, many colours, long outlines
  static const unsigned PS[] = {5, 8, 13, 17, 24, 33, 48};
  k.spaces.push_back({"patterns", 12ull * (7 * 7 * 3 + 1), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned kind = p(12), r = p(7 * 7 * 3 + 1), big = r == 7 * 7 * 3, w = big ? 71 : PS[r % 7], h = big ? 67 : PS[r / 7 % 7], b = big ? 1 : r / 49;
                        std::vector<unsigned> px;
                        for (unsigned y = 0; y < h; y++)
                          for (unsigned x = 0; x < w; x++) {
                            unsigned d = std::min(std::min(x, y), std::min(w - 1 - x, h - 1 - y)), v = 0;
                            switch (kind) {
                            case 0: // checkerboard
                              v = (x + y) % 2;
                              break;
                            case 1: // dots
                              v = x % 2 && y % 2;
                              break;
                            case 2: // net
                              v = x % 3 == 0 || y % 3 == 0;
                              break;
                            case 3: // combs
                              v = y == 0 || x % 2 == 0;
                              break;
                            case 4: // a winding line
                              v = y % 2 == 0 || x == (y / 2 % 2 ? 0 : w - 1);
                              break;
                            case 5: // rings
                              v = d % 2;
                              break;
                            case 6: // rings of three colours
                              v = d % 3;
                              break;
                            case 7: // diagonals
                              v = (x + y) % 3 == 0;
                              break;
                            case 8: // diagonals of four colours
                              v = (x + 3 * h - y) % 4;
                              break;
                            case 9: // a different colour for every pixel
                              v = 100 + y * w + x;
                              break;
                            case 10: // blocks with a hole with a dot
                              v = x % 6 == 5 || y % 6 == 5 ? 0 : x % 6 == 2 && y % 6 == 2 ? 1 : x % 6 % 4 && y % 6 % 4 ? 2 : 1;
                              break;
                            case 11: // holes that touch at corners
                              v = !(d > 0 && (x + y) % 2);
                              break;
                            }
                            px.push_back(v < 6 ? COL[v] : v * 0x10341 & 0xffffff);
                          }
                        one(c, w, h, 3, px, b ? (int)COL[b - 1] : -1, "patterns");
                      },
                      60});
  // figures with holes and touching corners lying across every 8, 9, 10, 12 and 15 bit boundary
  static const unsigned AT[] = {256, 512, 1024, 4096, 32768};
  k.spaces.push_back({"places", 5ull * 12 * 2 * 4, [=](u64 i, Ctx &c) {
                        static const char *FIG[4][7] = {{"1111111", "1000001", "1022201", "1020201", "1022201", "1000001", "1111111"},
                                                        {"0100010", "1110111", "0101010", "0011100", "1100011", "1010101", "0100010"},
                                                        {"1111111", "1211121", "1000001", "1101011", "1000001", "1212121", "1111111"},
                                                        {"1111111", "1111111", "1101111", "1111111", "1110111", "1111111", "1111111"}};
                        Pick p(i);
                        unsigned at = AT[p(5)] - 10 + p(12), dir = p(2), f = p(4);
                        unsigned w = dir ? at + 9 : 9, h = dir ? 9 : at + 9;
                        std::vector<unsigned> px((size_t)w * h, COL[0]);
                        for (unsigned y = 0; y < 7; y++)
                          for (unsigned x = 0; x < 7; x++)
                            px[(size_t)(y + (dir ? 1 : at)) * w + x + (dir ? at : 1)] = COL[FIG[f][y][x] - '0'];
                        one(c, w, h, 3, px, COL[0], "places");
                      },
                      60});
  // long strips: sizes around every 8, 15 and 16 bit boundary; with ordinary settings the traced
  // block must lie where the block is, up to the fitting tolerance
  static const unsigned LEN[] = {127, 128, 129, 255, 256, 257, 511, 4096, 32766, 32767, 32768, 32769, 40000, 65534, 65535};
  k.spaces.push_back({"strips", 15ull * 2 * 2 * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned L = LEN[p(15)], dir = p(2), thick = 1 + 4 * p(2), pat = p(4);
                        if (pat == 2 && L > (th ? 40000 : 600))
                          return; // quadratic in the number of outline points
                        Img im;
                        im.w = dir ? L : thick;
                        im.h = dir ? thick : L;
                        im.np = 1;
                        im.px = std::string((size_t)L * thick, (char)255);
                        double from = pat == 0 ? L - 20 : pat == 1 ? L / 2 : pat == 2 ? 1 : 0, to = pat == 0 ? L : pat == 1 ? L / 2 + 30 : pat == 2 ? L - 1 : 40;
                        for (unsigned a = from; a < to; a++)
                          for (unsigned b = 0; b < thick; b++)
                            im.px[dir ? b * im.w + a : a * im.w + b] = 0;
                        std::string desc = fmt("%ux%u, block %g..%g", im.w, im.h, from, to);
                        c.note("%s", desc.c_str());
                        Opts o;
                        o.bg(255, 255, 255);
                        Msgs m;
                        Traced t = trace_img(im, o, m);
                        c.step(L);
                        c.trace();
                        double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
                        for (auto &s : t.shapes)
                          for (auto &q : flatten(s)) {
                            x0 = std::min(x0, q.x);
                            x1 = std::max(x1, q.x);
                            y0 = std::min(y0, q.y);
                            y1 = std::max(y1, q.y);
                          }
                        double ex0 = dir ? from : 0, ex1 = dir ? to : thick, ey0 = dir ? 0 : L - to, ey1 = dir ? thick : L - from;
                        c.state(mc::mix(mc::mix((u64)x1, (u64)y1), (u64)x0 + (u64)y0));
                        if (t.shapes.size() != 1)
                          c.fail("strip-count", "%s: %zu outlines", desc.c_str(), t.shapes.size());
                        else if (fabs(x0 - ex0) > 2 || fabs(x1 - ex1) > 2 || fabs(y0 - ey0) > 2 || fabs(y1 - ey1) > 2)
                          c.fail("strip-place", "%s: traced to x %g..%g, y %g..%g", desc.c_str(), x0, x1, y0, y1);
                      },
                      60});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
