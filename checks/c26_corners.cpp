// C26: corners stay where they are, everything else is joined smoothly; straight edges stay straight.
#include "shapes.hpp"

struct Set {
  float always, corner;
  unsigned surround, filter;
  float error, line, reversion;
  bool adjacent;
};
static std::string str(const Set &s) { return fmt("always %g corner %g surround %u filter %u error %g line %g reversion %g%s", s.always, s.corner, s.surround, s.filter, s.error, s.line, s.reversion, s.adjacent ? " adjacent" : ""); }
static void apply(Opts &o, const Set &s) {
  o->corner_always_threshold = s.always;
  o->corner_threshold = s.corner;
  o->corner_surround = s.surround;
  o->filter_iterations = s.filter;
  o->error_threshold = s.error;
  o->line_threshold = s.line;
  o->line_reversion_threshold = s.reversion;
  o->remove_adjacent_corners = s.adjacent;
}
// the angle at point i of a closed outline: between the sums of the differences to the neighbours
static double angle(const std::vector<Pt> &p, size_t i, unsigned s) {
  double ax = 0, ay = 0, bx = 0, by = 0;
  size_t n = p.size();
  for (unsigned k = 1; k <= s; k++) {
    const Pt &a = p[(i + n * 8 - k) % n], &b = p[(i + k) % n];
    ax += a.x - p[i].x;
    ay += a.y - p[i].y;
    bx += b.x - p[i].x;
    by += b.y - p[i].y;
  }
  double la = hypot(ax, ay), lb = hypot(bx, by);
  if (la == 0 || lb == 0)
    return -1;
  double d = (ax * bx + ay * by) / (la * lb);
  return acos(d < -1 ? -1 : d > 1 ? 1 : d) * 180 / M_PI;
}
static std::vector<Pt> outline(const Shape &s) {
  std::vector<Pt> p;
  for (auto &q : s.s)
    p.push_back({q.v[0].x, q.v[0].y});
  return p;
}
static bool same(const at_real_coord &a, const Pt &b) { return a.x == b.x && a.y == b.y; }

static void judge(Ctx &c, const Img &im, const Set &s, const std::string &cls) {
  std::string desc = im.str() + " with " + str(s);
  c.note("%s", desc.c_str());
  Opts o, e;
  apply(o, s);
  exact(e);
  Msgs m, me;
  static Img last; // the settings vary fastest
  static Traced x;
  static std::string lack;
  if (!(im == last)) {
    x = trace_img(im, e, me);
    last = im;
    c.step();
    lack = not_exact(x, im, -1);
  }
  Traced t = trace_img(im, o, m);
  c.step();
  c.trace();
  if (!lack.empty()) {
    c.fail("outlines:" + cls, "%s: %s", im.str().c_str(), lack.c_str());
    return;
  }
  if (t.null || x.null || t.shapes.size() != x.shapes.size()) {
    c.fail("shapes:" + cls, "%s: %zu shapes, %zu outlines", desc.c_str(), t.shapes.size(), x.shapes.size());
    return;
  }
  u64 hs = 0;
  for (size_t n = 0; n < t.shapes.size(); n++) {
    std::vector<Pt> p = outline(x.shapes[n]);
    const auto &sp = t.shapes[n].s;
    bool sure = p.size() > 2 * s.surround + 2; // the surround fits on both sides
    if (!sure)
      continue;
    std::vector<double> an(p.size());
    for (size_t i = 0; i < p.size(); i++)
      an[i] = angle(p, i, s.surround);
    for (auto &q : sp)
      hs = mc::mix(hs, mc::mix((u64)(int)(q.v[3].x * 64) << 32, (u64)(int)(q.v[3].y * 64)) + q.degree);
    // sharp points are ends of curves
    if (!s.adjacent)
      for (size_t i = 0; i < p.size(); i++)
        if (an[i] >= 0 && an[i] < s.always - .01 && an[i] < s.corner - .01) {
          bool found = false;
          for (auto &q : sp)
            found = found || same(q.v[0], p[i]);
          c.counter("sharp_points");
          if (!found)
            c.fail("corner:" + cls, "%s: shape %zu: %g,%g has an angle of %g, but no curve ends there", desc.c_str(), n, p[i].x, p[i].y, an[i]);
        }
    for (size_t q = 0; q < sp.size(); q++) {
      const Sp &a = sp[q], &b = sp[(q + 1) % sp.size()];
      Pt j = {a.v[3].x, a.v[3].y};
      bool can = false, point = false;
      for (size_t i = 0; i < p.size(); i++)
        if (p[i].x == j.x && p[i].y == j.y) {
          point = true;
          can = can || an[i] <= std::max(s.corner, s.always) + .01;
        }
      if (s.filter == 0 && !point)
        c.fail("joint:" + cls, "%s: shape %zu: curves meet at %g,%g, which is no point of the outline", desc.c_str(), n, j.x, j.y);
      if (a.degree == 3 && b.degree == 3 && !can) {
        double ux = a.v[3].x - a.v[2].x, uy = a.v[3].y - a.v[2].y, vx = b.v[1].x - b.v[0].x, vy = b.v[1].y - b.v[0].y;
        double l = hypot(ux, uy) * hypot(vx, vy);
        c.counter("smooth_joints");
        if (l > 1e-3 && fabs(ux * vy - uy * vx) / l > 2e-2)
          c.fail("bend:" + cls, "%s: shape %zu: curves meet at %g,%g, which is no corner, with different directions %g,%g and %g,%g", desc.c_str(), n, j.x, j.y, ux, uy, vx, vy);
      }
    }
  }
  c.state(hs);
}
// with the default settings a picture whose edges are at least as long as the corner surround is
// traced into exactly these edges
static void edges(Ctx &c, const Img &im, bool bg, const char *cls) {
  c.note("%s", im.str().c_str());
  Opts o, e;
  exact(e);
  if (bg) {
    o.bg(255, 255, 255);
    e.bg(255, 255, 255);
  }
  Msgs m, me;
  Traced t = trace_img(im, o, m), x = trace_img(im, e, me);
  c.step(2);
  c.trace();
  std::string lack = not_exact(x, im, bg ? 0xffffff : -1);
  if (!lack.empty()) {
    c.fail(fmt("%s:outlines", cls), "%s: %s", im.str().c_str(), lack.c_str());
    return;
  }
  if (t.null || x.null || t.shapes.size() != x.shapes.size()) {
    c.fail(fmt("%s:shapes", cls), "%s: %zu shapes, %zu outlines", im.str().c_str(), t.shapes.size(), x.shapes.size());
    return;
  }
  u64 hs = 0;
  for (size_t n = 0; n < t.shapes.size(); n++) {
    std::vector<Pt> p = outline(x.shapes[n]), v;
    for (size_t i = 0; i < p.size(); i++) {
      Pt a = p[(i + p.size() - 1) % p.size()], b = p[i], d = p[(i + 1) % p.size()];
      if ((b.x - a.x) * (d.y - b.y) != (b.y - a.y) * (d.x - b.x))
        v.push_back(b);
    }
    const auto &s = t.shapes[n].s;
    bool ok = v.size() == s.size();
    for (size_t i = 0; ok && i < v.size(); i++) {
      ok = s[i].degree == 1 && same(s[i].v[0], v[i]) && same(s[i].v[3], v[(i + 1) % v.size()]);
      hs = mc::mix(hs, (u64)v[i].x << 20 | (u64)v[i].y);
    }
    if (!ok) {
      std::string got;
      for (auto &q : s)
        got += fmt(" %g,%g%s", q.v[0].x, q.v[0].y, q.degree == 1 ? "" : " curve");
      c.fail(fmt("%s:edges", cls), "%s: shape %zu with %zu edges is traced as%s", im.str().c_str(), n, v.size(), got.c_str());
    }
    c.nontrivial(hs);
  }
  c.state(hs);
}
static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C26";
  static std::vector<Set> S, T;
  for (float al : {0.f, 60.f, 95.f, 180.f})
    for (float co : {0.f, 60.f, 100.f, 140.f})
      for (unsigned su : {1u, 2u, 3u, 4u, 6u})
        for (unsigned fi : {0u, 1u, 4u})
          for (float er : {.1f, 2.f})
            for (float li : {0.f, 1.f}) {
              Set s = {al, co, su, fi, er, li, li / 100, false};
              if (th || (li == 0 && er < 1 && su != 2 && su != 6 && fi != 1) || (fi == 1 && su == 3 && li != 0))
                S.push_back(s);
              if (su != 1 && co != 60 && al != 95 && fi != 1 && (th || ((li == 0) == (er < 1) && su != 6)))
                T.push_back(s);
            }
  k.bounds = fmt("%zu settings of the corner thresholds, surround, smoothing and tolerances x every 3x3 two-colour picture enlarged 1, 2, 3, 5 times; %zu settings x every triangle with vertices on a 4x4 grid of 7 pixels x ellipses with 6x6 radii at 9 places; default settings x every two-colour picture of 3x3 cells with 3x3 sets of column widths and row heights, of 4x4 cells of 3%s pixels, every three-colour picture of 3x3 cells, every rectangle to 64x64", S.size(), T.size(), th ? ", 4 and 5" : "");
  for (unsigned sc : {1u, 2u, 3u, 5u})
    k.spaces.push_back({fmt("s%u", sc), 512ull * S.size(), [=](u64 i, Ctx &c) {
                          Pick p(i);
                          const Set &s = S[p(S.size())];
                          judge(c, scaled(3, 3, p(512), sc), s, fmt("s%u", sc));
                        }});
  static std::vector<std::vector<Pt>> TRI;
  for (unsigned a = 0; a < 16; a++)
    for (unsigned b = a + 1; b < 16; b++)
      for (unsigned d = b + 1; d < 16; d++) {
        std::vector<Pt> v;
        for (unsigned q : {a, b, d})
          v.push_back({1. + 7 * (q % 4), 1. + 7 * (q / 4)});
        if (area(v) != 0)
          TRI.push_back(v);
      }
  k.spaces.push_back({"triangles", TRI.size() * T.size(), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        const Set &s = T[p(T.size())];
                        judge(c, poly(23, 23, TRI[p(TRI.size())]), s, "triangle");
                      }});
  k.spaces.push_back({"ellipses", 36 * 9 * T.size(), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const double R[6] = {1.6, 2.5, 4, 6.3, 9, 13}, O[3] = {0, .25, .5};
                        const Set &s = T[p(T.size())];
                        double rx = R[p(6)], ry = R[p(6)], ox = O[p(3)], oy = O[p(3)];
                        judge(c, disc(28, 28, 14 + ox, 14 + oy, rx, ry), s, "ellipse");
                      }});
  k.spaces.push_back({"cells", 512ull * 27 * 27 / (th ? 1 : 9), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const unsigned W[3] = {3, 4, 7}, H[3] = {3, 5, 8};
                        u64 b = p(512);
                        unsigned cw[3], rh[3];
                        for (int q = 0; q < 3; q++)
                          cw[q] = W[p(3)];
                        for (int q = 0; q < 3; q++)
                          rh[q] = th || q == 1 ? H[p(3)] : 4;
                        edges(c, grid(3, 3, b, 2, cw, rh), false, "cells");
                      }});
  for (unsigned sc : {3u, 4u, 5u})
    if (th || sc == 3)
      k.spaces.push_back({fmt("cells4-%u", sc), 65536, [=](u64 i, Ctx &c) { edges(c, scaled(4, 4, i, sc), false, "cells4"); }});
  k.spaces.push_back({"colours", 19683 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        bool bg = p(2);
                        edges(c, scaled(3, 3, p(19683), 3, 3), bg, "colours");
                      }});
  k.spaces.push_back({"boxes", 64 * 64, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned w = 1 + p(64), h = 1 + p(64);
                        if (w * h < 3)
                          return; // too small for four corners
                        unsigned cw[3] = {2, w, 2}, rh[3] = {2, h, 2};
                        Img im = grid(3, 3, 16, 2, cw, rh);
                        edges(c, im, true, "boxes");
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
