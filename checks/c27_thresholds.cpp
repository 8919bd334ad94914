// C27: the tolerances of curve fitting act as described: a larger one never gives more.
#include "shapes.hpp"

struct Set {
  float corner;
  unsigned filter, tangent;
};
static std::string str(const Set &s) { return fmt("corner %g filter %u tangent %u", s.corner, s.filter, s.tangent); }
static void apply(Opts &o, const Set &s) {
  o->corner_threshold = s.corner;
  o->corner_always_threshold = s.corner < 60 ? s.corner : 60;
  o->filter_iterations = s.filter;
  o->tangent_surround = s.tangent;
}
static bool eq(const at_real_coord &a, const at_real_coord &b) { return a.x == b.x && a.y == b.y; }
// mean distance of the curve from the straight line between its ends
static double bow(const Sp &p) {
  double s = 0, dx = p.v[3].x - p.v[0].x, dy = p.v[3].y - p.v[0].y, l = hypot(dx, dy);
  if (l == 0)
    return 1e9;
  for (int k = 0; k <= 64; k++) {
    double t = k / 64., u = 1 - t, x = 0, y = 0, w[4] = {u * u * u, 3 * t * u * u, 3 * t * t * u, t * t * t};
    for (int q = 0; q < 4; q++) {
      x += w[q] * (p.v[q].x - p.v[0].x);
      y += w[q] * (p.v[q].y - p.v[0].y);
    }
    s += fabs(x * dy - y * dx) / l;
  }
  return s / 65;
}

static void judge(Ctx &c, const Img &im, const Set &s, const std::string &cls) {
  std::string desc = im.str() + " with " + str(s);
  c.note("%s", desc.c_str());
  auto run = [&](float error, float line, float reversion, Traced &t) {
    Opts o;
    apply(o, s);
    o->error_threshold = error;
    o->line_threshold = line;
    o->line_reversion_threshold = reversion;
    Msgs m;
    t = trace_img(im, o, m);
    c.step();
    if (t.null || m.fatal)
      c.fail("error:" + cls, "%s: %s", desc.c_str(), m.last.c_str());
    return !t.null;
  };
  c.trace();
  // a larger error threshold only leaves out points where curves meet
  static const float E[6] = {.05f, .3f, .8f, 2, 5, 20};
  Traced t[6], r;
  for (int i = 0; i < 6; i++)
    if (!run(E[i], 1, .01f, t[i]))
      return;
  u64 h = 0;
  for (int i = 0; i + 1 < 6; i++) {
    if (t[i].shapes.size() != t[i + 1].shapes.size()) {
      c.fail("shapes:" + cls, "%s: %zu shapes with error threshold %g, %zu with %g", desc.c_str(), t[i].shapes.size(), E[i], t[i + 1].shapes.size(), E[i + 1]);
      return;
    }
    for (size_t n = 0; n < t[i].shapes.size(); n++) {
      auto &a = t[i].shapes[n].s, &b = t[i + 1].shapes[n].s;
      size_t at = 0;
      for (auto &q : b) {
        while (at < a.size() && !eq(a[at].v[0], q.v[0]))
          at++;
        h = mc::mix(h, (u64)(int)(q.v[0].x * 64) << 32 | (unsigned)(int)(q.v[0].y * 64));
        if (at == a.size()) {
          c.fail("joints:" + cls, "%s: shape %zu: curves meet at %g,%g with an error threshold of %g, but not with %g", desc.c_str(), n, q.v[0].x, q.v[0].y, E[i + 1], E[i]);
          break;
        }
        at++;
      }
      if (a.size() > b.size())
        c.nontrivial(h);
    }
  }
  // a larger line threshold makes curves straight, and nothing else
  static const float L[2][7] = {{0, .1f, .3f, .6f, 1, 3, 100}, {0, 1, 100}};
  static const int NL[2] = {7, 3};
  Traced at1;
  auto alike = [&](const Traced &a, const Traced &b, const char *what, double va, double vb) {
    if (a.shapes.size() != b.shapes.size()) {
      c.fail("shapes:" + cls, "%s: number of shapes depends on %s", desc.c_str(), what);
      return false;
    }
    for (size_t n = 0; n < a.shapes.size(); n++) {
      auto &p = a.shapes[n].s, &q = b.shapes[n].s;
      if (p.size() != q.size()) {
        c.fail("pieces:" + cls, "%s: %zu curves with %s %g, %zu with %g", desc.c_str(), p.size(), what, va, q.size(), vb);
        return false;
      }
      for (size_t k = 0; k < p.size(); k++) {
        bool same = eq(p[k].v[0], q[k].v[0]) && eq(p[k].v[3], q[k].v[3]);
        if (p[k].degree == 3 && q[k].degree == 3)
          same = same && eq(p[k].v[1], q[k].v[1]) && eq(p[k].v[2], q[k].v[2]);
        if (!same)
          c.fail("moved:" + cls, "%s: curve %zu is not the same with %s %g and %g", desc.c_str(), k, what, va, vb);
        if (p[k].degree == 1 && q[k].degree == 3)
          c.fail("curved:" + cls, "%s: %g,%g to %g,%g is straight with %s %g, but not with %g", desc.c_str(), p[k].v[0].x, p[k].v[0].y, p[k].v[3].x, p[k].v[3].y, what, va, vb);
      }
    }
    return true;
  };
  for (int e = 0; e < 2; e++) {
    Traced t[7];
    for (int i = 0; i < NL[e]; i++)
      if (!run(e ? 100 : .8f, L[e][i], 1e9f, t[i]))
        return;
    for (int i = 0; i + 1 < NL[e]; i++)
      if (!alike(t[i], t[i + 1], "line threshold", L[e][i], L[e][i + 1]))
        return;
    for (size_t n = 0; n < t[0].shapes.size(); n++)
      for (size_t k = 0; k < t[0].shapes[n].s.size(); k++) {
        const Sp &p = t[0].shapes[n].s[k];
        if (p.degree != 3)
          continue;
        double d = bow(p), dx = p.v[3].x - p.v[0].x, dy = p.v[3].y - p.v[0].y;
        for (int i = 1; i < NL[e]; i++) {
          double limit = std::min<double>(L[e][i], (dx * dx + dy * dy) / 2);
          bool line = t[i].shapes[n].s[k].degree == 1;
          c.counter("pieces_compared");
          if (line && d > limit * 1.4 + .05)
            c.fail("line:" + cls, "%s: curve with a mean distance of %g from its chord of length %g became a line with threshold %g", desc.c_str(), d, hypot(dx, dy), L[e][i]);
          if (!line && d < limit / 1.4 - .04)
            c.fail("noline:" + cls, "%s: curve with a mean distance of %g from its chord of length %g remained a curve with threshold %g", desc.c_str(), d, hypot(dx, dy), L[e][i]);
        }
      }
    if (!e)
      at1 = t[4];
  }
  // a larger reversion threshold keeps more lines, at most all of them
  static const float R[4] = {0, .01f, .2f, 2};
  Traced u[5];
  for (int i = 0; i < 4; i++)
    if (!run(.8f, 1, R[i], u[i]))
      return;
  u[4] = at1;
  for (int i = 0; i < 4; i++)
    if (!alike(u[i], u[i + 1], "line reversion threshold", R[i], i < 3 ? R[i + 1] : 1e9))
      return;
  c.state(h);
}
static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C27";
  static std::vector<Set> S;
  for (float co : {0.f, 100.f})
    for (unsigned fi : {0u, 2u, 4u})
      for (unsigned ta : {1u, 3u, 6u})
        if (th || (fi != 4 && ta != 6) || (fi == 4 && ta == 6))
          S.push_back({co, fi, ta});
  k.bounds = fmt("%zu settings of corners, smoothing and tangents x 6 error, 7 line and 4 reversion thresholds x every 3x3 two-colour picture enlarged 1, 2, 3, 5, 7 times, triangles with vertices on a 4x4 grid of 7 pixels, ellipses with 6x6 radii at 9 places%s", S.size(), th ? ", every 4x4 picture enlarged twice" : "");
  for (unsigned sc : {1u, 2u, 3u, 5u, 7u})
    k.spaces.push_back({fmt("s%u", sc), 512ull * S.size(), [=](u64 i, Ctx &c) {
                          Pick p(i);
                          const Set &s = S[p(S.size())];
                          judge(c, scaled(3, 3, p(512), sc), s, fmt("s%u", sc));
                        }});
  if (th)
    k.spaces.push_back({"cells4", 65536, [=](u64 i, Ctx &c) { judge(c, scaled(4, 4, i, 2), S[7], "cells4"); }});
  static std::vector<std::vector<Pt>> TRI;
  for (unsigned a = 0; a < 16; a++)
    for (unsigned b = a + 1; b < 16; b++)
      for (unsigned d = b + 1; d < 16; d++) {
        std::vector<Pt> v;
        for (unsigned q : {a, b, d})
          v.push_back({1. + 7 * (q % 4), 1. + 7 * (q / 4)});
        if (area(v) != 0)
          TRI.push_back(v);
      }
  k.spaces.push_back({"triangles", TRI.size() * S.size(), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        const Set &s = S[p(S.size())];
                        judge(c, poly(23, 23, TRI[p(TRI.size())]), s, "triangle");
                      }});
  k.spaces.push_back({"ellipses", 36 * 9 * S.size(), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const double R[6] = {1.6, 2.5, 4, 6.3, 9, 13}, O[3] = {0, .25, .5};
                        const Set &s = S[p(S.size())];
                        double rx = R[p(6)], ry = R[p(6)], ox = O[p(3)], oy = O[p(3)];
                        judge(c, disc(28, 28, 14 + ox, 14 + oy, rx, ry), s, "ellipse");
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
