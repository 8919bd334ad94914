// Tracing helpers: run the tracer on a reference image, flatten shapes, winding numbers, painting.
#pragma once
#include "at.hpp"
#include <memory>
#include <set>
#include <map>
using namespace at;
using mc::Ctx;
using mc::Pick;

inline Traced trace_img(const Img &i, Opts &o, Msgs &m) {
  at_bitmap *b = to_bitmap(i);
  at_splines_type *s = at_splines_new(b, o.o, Msgs::cb, &m);
  Traced t = grab(s);
  if (s)
    at_splines_free(s);
  at_bitmap_free(b);
  return t;
}

// every boundary lattice point becomes a corner: the traced shapes are exact lattice polygons
inline void exact(Opts &o) {
  o->corner_threshold = 181;
  o->corner_always_threshold = 181;
  o->corner_surround = 0;
  o->filter_iterations = 0;
}

struct Pt {
  double x, y;
};
inline std::vector<Pt> flatten(const Shape &s, int steps = 16) {
  std::vector<Pt> v;
  for (auto &p : s.s) {
    if (v.empty())
      v.push_back({p.v[0].x, p.v[0].y});
    if (p.degree == 1)
      v.push_back({p.v[3].x, p.v[3].y});
    else
      for (int k = 1; k <= steps; k++) {
        double t = (double)k / steps, u = 1 - t;
        double a = u * u * u, b = 3 * t * u * u, c = 3 * t * t * u, d = t * t * t;
        v.push_back({a * p.v[0].x + b * p.v[1].x + c * p.v[2].x + d * p.v[3].x, a * p.v[0].y + b * p.v[1].y + c * p.v[2].y + d * p.v[3].y});
      }
  }
  return v;
}
inline int winding(const std::vector<Pt> &v, double x, double y) {
  int n = 0;
  for (size_t i = 0; i < v.size(); i++) {
    const Pt &a = v[i], &b = v[(i + 1) % v.size()];
    if ((a.y <= y) != (b.y <= y)) {
      double xx = a.x + (y - a.y) / (b.y - a.y) * (b.x - a.x);
      if (xx > x)
        n += b.y > a.y ? 1 : -1;
    }
  }
  return n;
}
inline double area(const std::vector<Pt> &v) { // positive: counterclockwise with y up
  double s = 0;
  for (size_t i = 0; i < v.size(); i++) {
    const Pt &a = v[i], &b = v[(i + 1) % v.size()];
    s += a.x * b.y - b.x * a.y;
  }
  return s / 2;
}
inline double dist_seg(Pt p, Pt a, Pt b) {
  double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy, t = l > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l : 0;
  t = t < 0 ? 0 : t > 1 ? 1 : t;
  return hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}

// Paint the shapes in order at the pixel centres: consecutive shapes of one colour form one path,
// filled by the nonzero rule.  -1: nothing painted, otherwise 0xrrggbb.
inline std::vector<int> paint(const Traced &t) {
  int W = t.w, H = t.h;
  std::vector<int> cv((size_t)W * H, -1), d((size_t)(W + 1) * H, 0);
  auto rgb = [](const at_color &c) { return c.r << 16 | c.g << 8 | c.b; };
  for (size_t i = 0; i < t.shapes.size();) {
    int col = rgb(t.shapes[i].color), r0 = H, r1 = -1;
    for (; i < t.shapes.size() && rgb(t.shapes[i].color) == col; i++) {
      std::vector<Pt> f = flatten(t.shapes[i]);
      for (size_t k = 0; k < f.size(); k++) {
        const Pt &a = f[k], &b = f[(k + 1) % f.size()];
        double lo = std::min(a.y, b.y), hi = std::max(a.y, b.y);
        if (!(lo < hi) || hi < 0 || lo > H)
          continue;
        for (int r = std::max(0, (int)floor(H - hi) - 1); r < H && r <= H - lo + 1; r++) {
          double y = H - r - .5;
          if ((a.y <= y) == (b.y <= y))
            continue;
          double xx = a.x + (y - a.y) / (b.y - a.y) * (b.x - a.x);
          // the pixels with their centre to the left of the crossing
          int e = !(xx > .5) ? 0 : xx > W ? W : (int)ceil(xx - .5);
          int s = b.y > a.y ? 1 : -1;
          d[(size_t)r * (W + 1)] += s;
          d[(size_t)r * (W + 1) + e] -= s;
          r0 = std::min(r0, r);
          r1 = std::max(r1, r);
        }
      }
    }
    for (int r = r0; r <= r1; r++) {
      int n = 0, *q = &d[(size_t)r * (W + 1)];
      for (int c = 0; c < W; c++) {
        n += q[c];
        q[c] = 0;
        if (n)
          cv[(size_t)r * W + c] = col;
      }
      q[W] = 0;
    }
  }
  return cv;
}

// What an exact outline trace of the picture lacks: painted, it gives the picture (bg: background
// colour or -1), and it goes along the pixel edges one by one.  Empty: nothing.
inline std::string not_exact(const Traced &x, const Img &im, int bg) {
  if (x.null || x.w != im.w || x.h != im.h)
    return "no outlines of the picture";
  for (auto &s : x.shapes)
    for (auto &p : s.s)
      if (fabs(p.v[3].x - p.v[0].x) + fabs(p.v[3].y - p.v[0].y) != 1)
        return fmt("an outline goes from %g,%g to %g,%g", p.v[0].x, p.v[0].y, p.v[3].x, p.v[3].y);
  std::vector<int> cv = paint(x);
  for (size_t k = 0; k < cv.size(); k++) {
    auto b = [&](unsigned q) { return (int)(unsigned char)im.px[k * im.np + (im.np == 3 ? q : 0)]; };
    int want = b(0) << 16 | b(1) << 8 | b(2);
    if (want == bg)
      want = -1;
    if (cv[k] != want)
      return fmt("the outlines paint pixel %zu %06x instead of %06x", k, cv[k], want);
  }
  return "";
}
