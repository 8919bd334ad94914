// C29: where a shape lies in the picture makes no difference to how it is traced.
#include "shapes.hpp"

// place a picture on a larger one filled with the background
static Img place(const Img &a, unsigned W, unsigned H, unsigned dx, unsigned dy, unsigned char bg) {
  Img i;
  i.w = W;
  i.h = H;
  i.np = a.np;
  i.px = Bytes((size_t)W * H * a.np, (char)bg);
  for (unsigned y = 0; y < a.h; y++)
    i.px.replace(((size_t)(y + dy) * W + dx) * a.np, (size_t)a.w * a.np, a.px, (size_t)y * a.w * a.np, (size_t)a.w * a.np);
  return i;
}
static double away(const std::vector<Pt> &f, const std::vector<Pt> &g) {
  double worst = 0;
  for (auto &p : f) {
    double d = 1e9;
    for (size_t q = 0; q + 1 < g.size(); q++)
      d = std::min(d, dist_seg(p, g[q], g[q + 1]));
    worst = std::max(worst, d);
  }
  return worst;
}
struct Mode {
  const char *name;
  void (*set)(Opts &);
  double tol;
};
static const Mode MODE[] = {
    {"exact", [](Opts &o) { exact(o); }, 0},
    {"default", [](Opts &) {}, .5},
    {"centerline", [](Opts &o) { o->centerline = true; }, 2},
    {"centerline exact", [](Opts &o) { o->centerline = true; exact(o); }, 0},
    {"width", [](Opts &o) { o->centerline = true; o->preserve_width = true; }, 2},
};
static void judge(Ctx &c, const Img &a, unsigned m, unsigned W, unsigned H, unsigned dx, unsigned dy, unsigned ex, unsigned ey, const char *cls) {
  const Mode &md = MODE[m];
  std::string d = fmt("%s %s at %u,%u in %ux%u instead of %u,%u", a.str().c_str(), md.name, ex, ey, W, H, dx, dy);
  c.note("%s", d.c_str());
  Opts o;
  md.set(o);
  o.bg(255, 255, 255);
  Msgs mm;
  Img one = place(a, a.w + 2 * dx, a.h + 2 * dy, dx, dy, 255), two = place(a, W, H, ex, ey, 255);
  Traced s = trace_img(one, o, mm), t = trace_img(two, o, mm);
  c.step(2);
  c.trace();
  double mx = (double)ex - dx, my = ((double)H - ey) - ((double)one.h - dy);
  u64 h = 0;
  bool ok = s.shapes.size() == t.shapes.size();
  std::string why = ok ? "" : fmt("%zu shapes instead of %zu", t.shapes.size(), s.shapes.size());
  for (size_t n = 0; ok && n < s.shapes.size(); n++) {
    auto &p = s.shapes[n], &q = t.shapes[n];
    if (md.tol > 0) { // rounding differs, so only the run of the curves is compared
      ok = p.clockwise == q.clockwise && p.open == q.open && !memcmp(&p.color, &q.color, sizeof p.color);
      std::vector<Pt> f = flatten(p, 24), g = flatten(q, 24);
      for (auto &v : f) {
        v.x += mx;
        v.y += my;
      }
      double far = std::max(away(f, g), away(g, f));
      for (auto &v : f)
        h = mc::mix(h, (u64)(int)(v.x * 8) << 32 | (unsigned)(int)(v.y * 8));
      if (ok && far > md.tol) {
        ok = false;
        why = fmt("shape %zu runs up to %g away from its place", n, far);
      }
      continue;
    }
    ok = p.s.size() == q.s.size() && p.clockwise == q.clockwise && p.open == q.open && !memcmp(&p.color, &q.color, sizeof p.color);
    if (!ok)
      why = fmt("shape %zu has %zu curves instead of %zu", n, q.s.size(), p.s.size());
    for (size_t k = 0; ok && k < p.s.size(); k++) {
      ok = p.s[k].degree == q.s[k].degree;
      if (!ok)
        why = fmt("shape %zu curve %zu is of degree %d", n, k, q.s[k].degree);
      for (int v = 0; ok && v < 4; v++) {
        ok = fabs(p.s[k].v[v].x + mx - q.s[k].v[v].x) <= md.tol && fabs(p.s[k].v[v].y + my - q.s[k].v[v].y) <= md.tol && fabs(p.s[k].v[v].z - q.s[k].v[v].z) <= md.tol;
        h = mc::mix(h, (u64)(int)(p.s[k].v[v].x * 64) << 32 | (unsigned)(int)(p.s[k].v[v].y * 64));
        if (!ok)
          why = fmt("shape %zu curve %zu point %d is %g,%g,%g instead of %g,%g,%g", n, k, v, q.s[k].v[v].x, q.s[k].v[v].y, q.s[k].v[v].z, p.s[k].v[v].x + mx, p.s[k].v[v].y + my, p.s[k].v[v].z);
      }
    }
  }
  if (!ok)
    c.fail(fmt("%s:%s", cls, md.name), "%s: %s", d.c_str(), why.c_str());
  c.state(h);
}
static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C29";
  static const unsigned NM = sizeof MODE / sizeof *MODE;
  struct At {
    unsigned W, H, x, y;
  };
  static const At AT[] = {{60, 50, 3, 3}, {60, 50, 40, 3}, {60, 50, 3, 30}, {60, 50, 21, 17}, {300, 40, 263, 5}, {300, 40, 250, 5}, {40, 300, 5, 262}, {40, 300, 5, 36}}, FAR[] = {{3000, 24, 2976, 4}, {24, 3000, 4, 2975}, {40000, 24, 39980, 4}, {24, 40000, 4, 39979}, {32800, 24, 32760, 4}, {24, 32800, 4, 24}, {65535, 24, 65517, 4}, {24, 65535, 4, 3}};
  static const unsigned NA = sizeof AT / sizeof *AT;
  k.bounds = fmt("every 3x3 two-colour picture enlarged 1, 3, 5 times and ellipses with 6x6 radii at 9 places, in 5 modes of tracing, in the middle of a picture of its size and at %u places in others; every 3x2 picture enlarged 5 times and 18 ellipses at 8 places up to 65517 pixels away, on both sides of and across 32768%s", NA, th ? "; every 4x4 picture enlarged twice" : "");
  for (unsigned sc : {1u, 3u, 5u})
    k.spaces.push_back({fmt("s%u", sc), 512ull * NM * NA, [=](u64 i, Ctx &c) {
                          Pick p(i);
                          const At &a = AT[p(NA)];
                          unsigned m = p(NM);
                          judge(c, scaled(3, 3, p(512), sc), m, a.W, a.H, 3, 3, a.x, a.y, fmt("s%u", sc).c_str());
                        }});
  k.spaces.push_back({"ellipses", 36 * 9ull * NM * NA, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        const At &a = AT[p(NA)];
                        unsigned m = p(NM);
                        static const double R[6] = {1.6, 2.5, 4, 5.3, 6.4, 7.4}, O[3] = {0, .25, .5};
                        double rx = R[p(6)], ry = R[p(6)], ox = O[p(3)], oy = O[p(3)];
                        judge(c, disc(16, 16, 8 + ox, 8 + oy, rx, ry), m, a.W, a.H, 3, 3, a.x, a.y, "ellipse");
                      }});
  k.spaces.push_back({"far", 64ull * 2 * 8, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        const At &a = FAR[p(8)];
                        unsigned m = p(2);
                        judge(c, scaled(3, 2, p(64), 5), m, a.W, a.H, 3, 3, a.x, a.y, "far");
                      }});
  k.spaces.push_back({"far-ellipses", 9 * 2ull * 2 * 8, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        const At &a = FAR[p(8)];
                        unsigned m = 1 + p(2);
                        static const double R[3] = {2.5, 5.3, 7.4};
                        double rx = R[p(3)], ry = R[p(3)], o = p(2) * .5;
                        judge(c, disc(15, 15, 7.5 + o, 7.5, rx, ry), m, a.W, a.H, 3, 3, a.x, a.y, "far-ellipse");
                      }});
  if (th)
    k.spaces.push_back({"cells4", 65536ull * 2 * NM, [=](u64 i, Ctx &c) {
                          Pick p(i);
                          const At &a = AT[1 + p(2)];
                          unsigned m = p(NM);
                          judge(c, scaled(4, 4, p(65536), 2), m, a.W, a.H, 3, 3, a.x, a.y, "cells4");
                        }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
