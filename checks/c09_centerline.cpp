// C09: thinning and centerline tracing of every small picture.
#include "shapes.hpp"

// 8-connected components of the set, and 4-connected components of the complement (frame included)
static int comps(const std::vector<char> &in, int w, int h, bool eight, std::vector<int> *lab = nullptr) {
  std::vector<int> l((size_t)w * h, -1), st;
  int n = 0;
  for (int i = 0; i < w * h; i++) {
    if (!in[i] || l[i] >= 0)
      continue;
    st.assign(1, i);
    l[i] = n;
    while (!st.empty()) {
      int a = st.back(), x = a % w, y = a / w;
      st.pop_back();
      for (int dy = -1; dy <= 1; dy++)
        for (int dx = -1; dx <= 1; dx++) {
          if (!eight && dx && dy)
            continue;
          int xx = x + dx, yy = y + dy, b = yy * w + xx;
          if (xx < 0 || yy < 0 || xx >= w || yy >= h || !in[b] || l[b] >= 0)
            continue;
          l[b] = n;
          st.push_back(b);
        }
    }
    n++;
  }
  if (lab)
    *lab = l;
  return n;
}
static int holes(const std::vector<char> &in, int w, int h) {
  std::vector<char> o((size_t)(w + 2) * (h + 2), 1);
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++)
      o[(size_t)(y + 1) * (w + 2) + x + 1] = !in[(size_t)y * w + x];
  return comps(o, w + 2, h + 2, false) - 1;
}
static int nbrs(const std::vector<char> &in, int w, int h, int i) {
  int n = 0, x = i % w, y = i / w;
  for (int dy = -1; dy <= 1; dy++)
    for (int dx = -1; dx <= 1; dx++)
      if ((dx || dy) && x + dx >= 0 && y + dy >= 0 && x + dx < w && y + dy < h && in[(size_t)(y + dy) * w + x + dx])
        n++;
  return n;
}
// may this pixel be removed without changing the topology, and is it not an end of a line?
static bool removable(const std::vector<char> &in, int w, int h, int i) {
  int n = nbrs(in, w, h, i);
  if (n < 2 || n == 8)
    return false;
  bool v[8];
  static const int DX[8] = {0, 1, 1, 1, 0, -1, -1, -1}, DY[8] = {-1, -1, 0, 1, 1, 1, 0, -1};
  int x = i % w, y = i / w;
  for (int k = 0; k < 8; k++) {
    int xx = x + DX[k], yy = y + DY[k];
    v[k] = xx >= 0 && yy >= 0 && xx < w && yy < h && in[(size_t)yy * w + xx];
  }
  if (v[0] && v[2] && v[4] && v[6])
    return false; // not on a border
  int c = 0; // number of 8-components of the neighbours (Yokoi)
  for (int k = 0; k < 8; k += 2)
    c += !v[k] && (v[k + 1] || v[(k + 2) % 8]);
  return c == 1;
}

struct Run {
  Traced t;
  Img thin; // RGB
  int fatal;
  std::string msg;
};
static Run run(const Img &im, int bg, bool width = false, float factor = 6) {
  Opts o;
  exact(o);
  o->centerline = true;
  o->preserve_width = width;
  o->width_weight_factor = factor;
  if (bg >= 0)
    o.bg(bg >> 16 & 255, bg >> 8 & 255, bg & 255);
  at_bitmap *b = to_bitmap(im);
  Msgs m;
  Run r;
  at_splines_type *s = at_splines_new(b, o.o, Msgs::cb, &m);
  r.t = grab(s);
  if (s)
    at_splines_free(s);
  r.thin = via_get_color(b);
  at_bitmap_free(b);
  r.fatal = m.fatal;
  r.msg = m.last;
  return r;
}
static int rgb(const Img &i, int k) { return (unsigned char)i.px[k * 3] << 16 | (unsigned char)i.px[k * 3 + 1] << 8 | (unsigned char)i.px[k * 3 + 2]; }

static void one(Ctx &c, const Img &im, int bg, const std::string &cls) {
  std::string desc = fmt("%s bg=%06x", im.str().c_str(), bg);
  c.note("%s", desc.c_str());
  Run R = run(im, bg);
  Traced &t = R.t;
  Img &th = R.thin, or3 = as_rgb(im);
  int w = im.w, h = im.h, n = w * h;
  int B = bg < 0 ? 0xffffff : bg;
  if (im.np == 1 && !((B >> 16) == (B >> 8 & 255) && (B & 255) == (B >> 16))) // a gray bitmap sees the gray of a colour
    B = (int)((B >> 16) * .30 + (B >> 8 & 255) * .59 + (B & 255) * .11 + .5) * 0x10101;
  c.step(n);
  c.trace();
  if (t.null || R.fatal) {
    c.fail("error:" + cls, "%s: %s", desc.c_str(), R.msg.c_str());
    return;
  }
  if (t.w != im.w || t.h != im.h || !t.centerline)
    c.fail("size:" + cls, "%s: %s", desc.c_str(), t.text().c_str());
  std::set<int> cols;
  for (int k = 0; k < n; k++) {
    cols.insert(rgb(or3, k));
    if (rgb(th, k) != rgb(or3, k) && rgb(th, k) != B)
      c.fail("recolored:" + cls, "%s: pixel %d is %06x after thinning", desc.c_str(), k, rgb(th, k));
  }
  for (int col : cols) {
    if (col == B)
      continue;
    std::vector<char> A(n), T(n);
    for (int k = 0; k < n; k++)
      A[k] = rgb(or3, k) == col, T[k] = rgb(th, k) == col;
    int ca = comps(A, w, h, true), ct = comps(T, w, h, true);
    if (ca != ct)
      c.fail("components:" + cls, "%s: %d parts of colour %06x, %d after thinning %s", desc.c_str(), ca, col, ct, th.str().c_str());
    if (holes(A, w, h) != holes(T, w, h))
      c.fail("holes:" + cls, "%s: holes changed by thinning %s", desc.c_str(), th.str().c_str());
    for (int k = 0; k < n; k++) {
      int x = k % w, y = k / w;
      // colour bitmaps keep removable pixels on the border of the picture
      if (T[k] && (im.np == 1 || (x && y && x < w - 1 && y < h - 1)) && removable(T, w, h, k))
        c.fail("thick:" + cls, "%s: pixel %d still removable %s", desc.c_str(), k, th.str().c_str());
      if (A[k] && !T[k] && nbrs(A, w, h, k) <= 1)
        c.fail("end:" + cls, "%s: line end %d removed", desc.c_str(), k);
    }
  }
  // traced lines are walks over the thinned pixels of their colour
  std::vector<int> seen(n, 0), owner(n, -1);
  bool ok = true;
  for (size_t li = 0; li < t.shapes.size() && ok; li++) {
    auto &l = t.shapes[li];
    std::vector<Pt> f = flatten(l);
    int lc = l.color.r << 16 | l.color.g << 8 | l.color.b;
    if (f.size() < 2) {
      c.fail("empty:" + cls, "%s: %s", desc.c_str(), t.text().c_str());
      return;
    }
    if (!l.open && (f[0].x != f.back().x || f[0].y != f.back().y))
      c.fail("not-closed:" + cls, "%s: %s", desc.c_str(), t.text().c_str());
    for (size_t k = 0; k < f.size(); k++) {
      int x = (int)lround(f[k].x), row = h - 1 - (int)lround(f[k].y);
      if (f[k].x != x || f[k].y != h - 1 - row || x < 0 || row < 0 || x >= w || row >= h || rgb(th, row * w + x) != lc || lc == B) {
        c.fail("offline:" + cls, "%s: point %g,%g is no pixel of colour %06x: %s", desc.c_str(), f[k].x, f[k].y, lc, t.text().c_str());
        ok = false;
        break;
      }
      seen[row * w + x]++;
      owner[row * w + x] = li;
      if (k && (fabs(f[k].x - f[k - 1].x) > 1 || fabs(f[k].y - f[k - 1].y) > 1)) {
        // the last corner of a line is dropped when it is next to the one before it
        int found = -1;
        if (k + 1 == f.size())
          for (int q = 0; q < n; q++)
            if (rgb(th, q) == lc && fabs(q % w - f[k].x) <= 1 && fabs(h - 1 - q / w - f[k].y) <= 1 && fabs(q % w - f[k - 1].x) <= 1 && fabs(h - 1 - q / w - f[k - 1].y) <= 1 && !seen[q])
              found = q;
        if (found < 0) {
          c.fail("jump:" + cls, "%s: %s", desc.c_str(), t.text().c_str());
          ok = false;
          break;
        }
        seen[found]++;
        owner[found] = li;
      }
    }
  }
  // every connected part of two pixels or more has a line; a part without junctions is one line through all of its pixels
  for (int col : cols) {
    if (col == B || !ok)
      continue;
    std::vector<char> T(n);
    for (int k = 0; k < n; k++)
      T[k] = rgb(th, k) == col;
    std::vector<int> lab;
    int ct = comps(T, w, h, true, &lab);
    for (int q = 0; q < ct; q++) {
      int sz = 0, miss = 0, mx = 0;
      std::set<int> own;
      for (int k = 0; k < n; k++)
        if (lab[k] == q) {
          sz++;
          miss += !seen[k];
          own.insert(owner[k]);
          mx = std::max(mx, nbrs(T, w, h, k));
        }
      if (sz > 1 && miss && (mx <= 2 || miss == sz))
        c.fail("missing:" + cls, "%s: thinned %s: %d of %d pixels not on a line: %s", desc.c_str(), th.str().c_str(), miss, sz, t.text().c_str());
      if (sz > 1 && mx <= 2 && own.size() != 1)
        c.fail("split:" + cls, "%s: thinned %s: line traced in %zu parts: %s", desc.c_str(), th.str().c_str(), own.size(), t.text().c_str());
      if (sz == 1 && own.count(-1) == 0)
        c.fail("dot:" + cls, "%s: lone pixel has a line %s", desc.c_str(), t.text().c_str());
      if (sz > 1 && mx <= 2 && own.size() == 1 && *own.begin() >= 0) {
        int ends = 0;
        for (int k = 0; k < n; k++)
          ends += lab[k] == q && nbrs(T, w, h, k) == 1;
        if (t.shapes[*own.begin()].open != (ends > 0))
          c.fail("openness:" + cls, "%s: %s", desc.c_str(), t.text().c_str());
      }
    }
  }
  u64 hs = mc::mix(th.hash(), mc::hash_str(t.text(), bg));
  c.state(hs);
  if (!(th == or3) && !t.shapes.empty())
    c.nontrivial(hs);
  c.counter("lines", t.shapes.size());
}

static Img framed(unsigned w, unsigned h, unsigned np, u64 bits, unsigned l, unsigned tp, unsigned r, unsigned b) {
  Img im;
  im.w = w + l + r;
  im.h = h + tp + b;
  im.np = np;
  im.px = std::string((size_t)im.w * im.h * np, (char)255);
  for (unsigned q = 0; q < w * h; q++)
    if (bits >> q & 1)
      for (unsigned z = 0; z < np; z++)
        im.px[(((size_t)(q / w + tp) * im.w) + q % w + l) * np + z] = 0;
  return im;
}
static std::string moved(const Traced &t, double dx, double dy) {
  Traced u = t;
  for (auto &s : u.shapes)
    for (auto &p : s.s)
      for (int k = 0; k < 4; k++)
        if (p.degree == 3 || k == 0 || k == 3)
          p.v[k].x += dx, p.v[k].y += dy;
  u.w = u.h = 0;
  return u.text();
}
// distance to the nearest white pixel, steps of 1 and sqrt 2, through the pixel itself
static std::vector<double> chamfer(const Img &im) {
  int w = im.w, h = im.h;
  std::vector<double> d((size_t)w * h);
  for (int k = 0; k < w * h; k++) {
    int x = k % w, y = k / w;
    double best = 1e9;
    for (int q = 0; q < w * h; q++)
      if ((unsigned char)im.px[(size_t)q * im.np] == 255) {
        int dx = abs(q % w - x), dy = abs(q / w - y), mn = std::min(dx, dy), mx = std::max(dx, dy);
        best = std::min(best, mx - mn + mn * M_SQRT2);
      }
    d[k] = best;
  }
  return d;
}

// the widths of the traced lines of a picture with one ink
static void widths(Ctx &c, const Img &im, float fac, const std::string &desc) {
  c.note("%s", desc.c_str());
  Run a = run(im, -1), b = run(im, -1, true, fac);
  std::vector<double> d = chamfer(im);
  double weight = 1;
  for (size_t q = 0; q < im.px.size(); q += im.np) {
    auto v = [&](unsigned z) { return (unsigned char)im.px[q + (im.np == 3 ? z : 0)]; };
    int g = im.np == 3 ? (int)(v(0) * .30 + v(1) * .59 + v(2) * .11 + .5) : v(0);
    if (v(0) != 255 || v(1) != 255 || v(2) != 255)
      weight = g == 255 ? 0 : 1 - g / 255.;
  }
  if (a.t.shapes.size() != b.t.shapes.size()) {
    c.fail("width:shapes", "%s: %s / %s", desc.c_str(), a.t.text().c_str(), b.t.text().c_str());
    return;
  }
  for (auto &s : b.t.shapes)
    for (auto &p : s.s)
      for (int e = 0; e < 4; e += 3) {
        int x = (int)p.v[e].x, y = (int)im.h - 1 - (int)p.v[e].y;
        double mx = 0;
        for (int dy = -1; dy <= 1; dy++)
          for (int dx = -1; dx <= 1; dx++)
            if (x + dx >= 0 && y + dy >= 0 && x + dx < (int)im.w && y + dy < (int)im.h)
              mx = std::max(mx, d[(size_t)(y + dy) * im.w + x + dx]);
        if (fabs(p.v[e].z - mx * fac * weight) > 1e-3) {
          c.fail("width:value", "%s: width %g at %g,%g, expected %g", desc.c_str(), p.v[e].z, p.v[e].x, p.v[e].y, mx * fac * weight);
          return;
        }
      }
  c.trace();
  c.state(mc::hash_str(b.t.text()));
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C09";
  unsigned lim = th ? 20 : 16, lim3 = th ? 12 : 9;
  k.bounds = fmt("every two-colour picture of at most %u pixels, gray and RGB; every three-colour picture of at most %u; every framed core of 16 pixels for width, position and gray/RGB agreement; bars to 9x24; every 3x3 picture of cells of 3, 4 and 7 pixels, 36 ellipses in 4 thicknesses, 8 patterns to 41x41; widths for every gray, 343 colours and lines to 520 pixels from the border; background histories of length 2", lim, lim3);
  static const unsigned C3[3] = {0xffffff, 0x000000, 0x0a141e};
  auto pics = [&](unsigned nc, unsigned lim, unsigned np) {
    for (unsigned w = 1; w <= lim; w++)
      for (unsigned h = 1; w * h <= lim; h++) {
        u64 n = 1;
        for (unsigned q = 0; q < w * h; q++)
          n *= nc;
        // background absent; for the smaller ones also the second colour, or one that is not there
        unsigned nb = w * h <= (nc == 2 ? 12 : 8) || th ? 3 : 1;
        k.spaces.push_back({fmt("c%u-p%u-%ux%u", nc, np, w, h), n * nb, [=](u64 i, Ctx &c) {
                              Pick p(i);
                              unsigned b = p(nb);
                              Img im;
                              im.w = w;
                              im.h = h;
                              im.np = np;
                              for (unsigned q = 0; q < w * h; q++) {
                                unsigned v = C3[p(nc)];
                                if (np == 3)
                                  im.px += {(char)(v >> 16), (char)(v >> 8)};
                                im.px += (char)v;
                              }
                              one(c, im, b == 0 ? -1 : b == 1 ? 0 : 0x777777, fmt("c%u-p%u", nc, np));
                            }});
      }
  };
  pics(2, lim, 1);
  pics(2, lim, 3);
  pics(3, lim3, 1);
  pics(3, lim3, 3);
  // with a free margin the type of the bitmap and the position make no difference
  for (unsigned cw = 4; cw <= (th ? 5 : 4); cw++)
    k.spaces.push_back({fmt("moved-%ux4", cw), 1ull << (cw * 4), [=](u64 i, Ctx &c) {
                          Run a = run(framed(cw, 4, 1, i, 1, 1, 1, 1), -1);
                          std::string want = moved(a.t, 0, 0);
                          c.note("core %llx", i);
                          for (unsigned v = 0; v < 4; v++) {
                            unsigned l = 1 + (v == 1) * 2 + (v == 3) * 3, tp = 1 + (v >= 2), r = 1 + (v == 2) * 2, b = 1 + (v == 1);
                            Run x = run(framed(cw, 4, v % 2 ? 1 : 3, i, l, tp, r, b), -1);
                            if (moved(x.t, 1.0 - l, 1.0 - b) != want)
                              c.fail(fmt("moved:v%u", v), "core %llx: %s instead of %s", i, moved(x.t, 1.0 - l, 1.0 - b).c_str(), want.c_str());
                            c.trace();
                          }
                          c.state(mc::hash_str(want));
                        }});
  // line widths: largest distance to white around the point, times the weight factor
  k.spaces.push_back({"width-4x4", 65536, [=](u64 i, Ctx &c) { widths(c, framed(4, 4, i % 3 ? 1 : 3, i, 1, 1, 1, 1), i % 2 ? 6.f : 1.f, fmt("core %llx", i)); }});
  // lighter ink counts less, by its brightness
  static const unsigned char LV[7] = {0, 1, 40, 85, 128, 200, 254};
  static const u64 CORE[6] = {0xffff, 0x0ff0, 0x8421, 0x4e4e, 0xf99f, 0x137f};
  k.spaces.push_back({"width-gray", 255ull * 2 * 6, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned g = p(255), np = p(2) ? 3 : 1;
                        Img im = framed(4, 4, np, CORE[p(6)], 1, 1, 1, 1);
                        for (auto &v : im.px)
                          if (v == 0)
                            v = (char)g;
                        widths(c, im, 6, fmt("gray %u, %u planes, %s", g, np, im.str().c_str()));
                      }});
  k.spaces.push_back({"width-colour", 343ull * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned char col[3] = {LV[p(7)], LV[p(7)], LV[p(7)]};
                        Img im = framed(4, 4, 3, CORE[p(3)], 1, 1, 1, 1);
                        for (size_t q = 0; q < im.px.size(); q += 3)
                          if (im.px[q] == 0)
                            for (unsigned z = 0; z < 3; z++)
                              im.px[q + z] = (char)col[z];
                        widths(c, im, 3, fmt("colour %u %u %u, %s", col[0], col[1], col[2], im.str().c_str()));
                      }});
  static const unsigned WP[6] = {100, 124, 252, 254, 300, 520};
  k.spaces.push_back({"width-places", 6ull * 2 * 2 * 2 * 6, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned at = WP[p(6)], dir = p(2), far = p(2), np = p(2) ? 3 : 1, l = far ? at : 1, r = far ? 1 : at;
                        u64 core = CORE[p(6)];
                        widths(c, dir ? framed(4, 4, np, core, l, 1, r, 1) : framed(4, 4, np, core, 1, l, 1, r), 6, fmt("core %llx at %u of %u, direction %u", core, l, l + r, dir));
                      },
                      60});
  // bars: the line runs along the middle
  k.spaces.push_back({"bars", 9ull * 24 * 2 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned tk = 1 + p(9), len = 1 + p(24), dir = p(2), np = p(2) ? 3 : 1;
                        if (len <= tk)
                          return;
                        unsigned w = dir ? len : tk, h = dir ? tk : len;
                        Img im = framed(w, h, np, 0, 2, 2, 2, 2);
                        for (unsigned y = 0; y < h; y++)
                          for (unsigned x = 0; x < w; x++)
                            for (unsigned z = 0; z < np; z++)
                              im.px[((size_t)(y + 2) * im.w + x + 2) * np + z] = 0;
                        one(c, im, -1, "bars");
                        Run r = run(im, -1);
                        int along = 0;
                        for (auto &s : r.t.shapes)
                          for (auto &q : flatten(s)) {
                            double a = (dir ? q.x : q.y) - 2, ac = (dir ? q.y : q.x) - 2 - (tk - 1) / 2.;
                            if (fabs(ac) <= .5)
                              along++;
                            else if (a >= tk / 2. && a <= len - 1 - tk / 2.)
                              c.fail("bars:off-center", "%ux%u bar: point %g,%g", w, h, q.x, q.y);
                          }
                        if (len > 2 * tk && along < (int)len - (int)tk - 1)
                          c.fail("bars:short", "%ux%u bar: only %d points: %s", w, h, along, r.t.text().c_str());
                      }});
  // thick drawings: every 3x3 picture of cells of several sizes, discs, rings and patterns, in a frame
  auto framed_img = [](const Img &g, unsigned np, unsigned dark) {
    Img im = framed(g.w, g.h, np, 0, 2, 2, 2, 2);
    for (unsigned q = 0; q < g.w * g.h; q++)
      if ((unsigned char)g.px[q] != 255)
        for (unsigned z = 0; z < np; z++)
          im.px[((size_t)(q / g.w + 2) * im.w + q % g.w + 2) * np + z] = (char)(np == 1 ? (unsigned char)g.px[q] : dark >> (16 - 8 * z));
    return im;
  };
  k.spaces.push_back({"cells", 512ull * 3 * 2 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned sc = (unsigned[]){3, 4, 7}[p(3)], np = p(2) ? 3 : 1;
                        int bg = p(2) ? 0xffffff : -1;
                        one(c, framed_img(scaled(3, 3, p(512), sc), np, 0x10fe80), bg, "cells");
                      }});
  k.spaces.push_back({"rings", 36ull * 4 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const double R[6] = {1.6, 2.5, 4, 6.3, 9, 13};
                        double rx = R[p(6)], ry = R[p(6)], in = (double[]){0, .3, .6, .8}[p(4)];
                        unsigned np = p(2) ? 3 : 1;
                        Img x = disc(28, 28, 14, 14, rx, ry), y = disc(28, 28, 14, 14, rx * in + 1e-6, ry * in + 1e-6);
                        for (size_t n = 0; n < x.px.size(); n++)
                          if (!y.px[n])
                            x.px[n] = (char)255;
                        one(c, framed_img(x, np, 0x0000ff), -1, "rings");
                      }});
  k.spaces.push_back({"patterns", 8ull * 5 * 5 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const unsigned S[5] = {6, 9, 17, 26, 41};
                        unsigned kind = p(8), w = S[p(5)], h = S[p(5)], np = p(2) ? 3 : 1;
                        Img g = disc(w, h, -9, -9, 1, 1);
                        for (unsigned y = 0; y < h; y++)
                          for (unsigned x = 0; x < w; x++) {
                            unsigned d = std::min(std::min(x, y), std::min(w - 1 - x, h - 1 - y));
                            bool v = false;
                            switch (kind) {
                            case 0: // lone pixels
                              v = x % 2 == 0 && y % 2 == 0;
                              break;
                            case 1: // nested loops
                              v = d % 2 == 0;
                              break;
                            case 2: // nested thick loops
                              v = d % 5 < 3;
                              break;
                            case 3: // a winding line
                              v = y % 2 == 0 || x == (y / 2 % 2 ? 0 : w - 1);
                              break;
                            case 4: // a thick winding line
                              v = y % 5 < 3 || (y / 5 % 2 ? x < 3 : x + 3 >= w);
                              break;
                            case 5: // diagonals
                              v = (x + y) % 4 == 0;
                              break;
                            case 6: // thick diagonals
                              v = (x + h - y) % 7 < 3;
                              break;
                            case 7: // bars
                              v = x % 4 < 2;
                              break;
                            }
                            if (v)
                              g.px[y * w + x] = 0;
                          }
                        one(c, framed_img(g, np, 0), -1, "patterns");
                      }});
  // long thin pictures, a short line at either end or in the middle
  k.spaces.push_back({"strips", 6ull * 2 * 3 * 2, [=](u64 i, Ctx &c) {
                        static const unsigned LEN[6] = {255, 257, 32767, 32768, 32769, 65535};
                        Pick p(i);
                        unsigned L = LEN[p(6)], dir = p(2), pos = p(3), np = p(2) ? 3 : 1;
                        Img im;
                        im.w = dir ? L : 3;
                        im.h = dir ? 3 : L;
                        im.np = np;
                        im.px = std::string((size_t)3 * L * np, (char)255);
                        unsigned from = pos == 0 ? 0 : pos == 1 ? L / 2 - 3 : L - 7;
                        for (unsigned a = from; a < from + 7; a++)
                          for (unsigned z = 0; z < np; z++)
                            im.px[((size_t)(dir ? 1 : a) * im.w + (dir ? a : 1)) * np + z] = 0;
                        Run r = run(im, -1);
                        c.trace();
                        c.state(i);
                        double lo = 1e9, hi = -1e9, ac = 0;
                        for (auto &s : r.t.shapes)
                          for (auto &q : flatten(s)) {
                            double a = dir ? q.x : im.h - 1 - q.y;
                            lo = std::min(lo, a);
                            hi = std::max(hi, a);
                            ac = std::max(ac, fabs((dir ? q.y : q.x) - 1));
                          }
                        if (r.t.shapes.size() != 1 || lo != from || hi != from + 6 || ac != 0)
                          c.fail("strips", "%ux%u, line at %u: %zu lines from %g to %g", im.w, im.h, from, r.t.shapes.size(), lo, hi);
                      }});
  // the background of an earlier call has no influence
  k.spaces.push_back({"history", 4ull * 4 * 2 * 2 * 256, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int BG[4] = {-1, 0, 0x777777, 0x0a141e};
                        unsigned b1 = p(4), b2 = p(4), n1 = p(2) ? 3 : 1, n2 = p(2) ? 3 : 1, bits = p(256);
                        run(framed(3, 2, n1, 0x2b, 0, 0, 0, 0), BG[b1]);
                        one(c, framed(4, 2, n2, bits, 0, 0, 0, 0), BG[b2], "history");
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
