// C08: fitted curves are finite, connected, closed and near the outline, for all option settings.
#include "shapes.hpp"

// option settings that differ from the defaults in at most two places
struct Dev {
  const char *name;
  void (*set)(Opts &);
  int group;
};
#define D(g, n, code)                                                                                                                                          \
  {                                                                                                                                                            \
    n, [](Opts & o) { code; }, g                                                                                                                               \
  }
static const Dev DEV[] = {
    D(0, "default", ),
    D(1, "corner-always 0", o->corner_always_threshold = 0),
    D(1, "corner-always 120", o->corner_always_threshold = 120),
    D(1, "corner-always 180", o->corner_always_threshold = 180),
    D(2, "surround 1", o->corner_surround = 1),
    D(2, "surround 2", o->corner_surround = 2),
    D(2, "surround 4", o->corner_surround = 4),
    D(2, "surround 7", o->corner_surround = 7),
    D(3, "corner 0", o->corner_threshold = 0),
    D(3, "corner 60", o->corner_threshold = 60),
    D(3, "corner 180", o->corner_threshold = 180),
    D(4, "error 0", o->error_threshold = 0),
    D(4, "error .1", o->error_threshold = .1f),
    D(4, "error .8", o->error_threshold = .8f),
    D(4, "error 30", o->error_threshold = 30),
    D(5, "filter 0", o->filter_iterations = 0),
    D(5, "filter 1", o->filter_iterations = 1),
    D(5, "filter 4", o->filter_iterations = 4),
    D(5, "filter 50", o->filter_iterations = 50),
    D(6, "line 0", o->line_threshold = 0),
    D(6, "line .3", o->line_threshold = .3f),
    D(6, "line 50", o->line_threshold = 50),
    D(7, "reversion 0", o->line_reversion_threshold = 0),
    D(7, "reversion .5", o->line_reversion_threshold = .5f),
    D(7, "reversion 9", o->line_reversion_threshold = 9),
    D(8, "adjacent", o->remove_adjacent_corners = true),
    D(9, "tangent 0", o->tangent_surround = 0),
    D(9, "tangent 1", o->tangent_surround = 1),
    D(9, "tangent 2", o->tangent_surround = 2),
    D(9, "tangent 9", o->tangent_surround = 9),
    D(10, "background", o.bg(255, 255, 255)),
};
static const unsigned ND = sizeof DEV / sizeof *DEV;

static void judge(Ctx &c, const Img &im, unsigned a, unsigned b, const std::string &cls) {
  std::string opt = fmt("%s, %s", DEV[a].name, DEV[b].name), desc = im.str() + " with " + opt;
  c.note("%s", desc.c_str());
  Opts o, e;
  DEV[a].set(o);
  DEV[b].set(o);
  exact(e);
  if (o->background_color)
    e.bg(255, 255, 255);
  Msgs m, me;
  Traced t = trace_img(im, o, m), x = trace_img(im, e, me);
  c.step(t.shapes.size());
  std::string lack = not_exact(x, im, o->background_color ? 0xffffff : -1);
  if (!lack.empty()) {
    c.fail("outlines:" + cls, "%s: %s", desc.c_str(), lack.c_str());
    return;
  }
  c.trace();
  std::string k2 = cls;
  if (t.null || m.fatal) {
    c.fail("error:" + k2, "%s: %s", desc.c_str(), m.last.c_str());
    return;
  }
  if (t.shapes.size() != x.shapes.size() || t.w != im.w || t.h != im.h) {
    c.fail("shapes:" + k2, "%s: %zu shapes, %zu outlines", desc.c_str(), t.shapes.size(), x.shapes.size());
    return;
  }
  u64 hs = 0;
  for (size_t n = 0; n < t.shapes.size(); n++) {
    const Shape &s = t.shapes[n], &r = x.shapes[n];
    if (memcmp(&s.color, &r.color, sizeof s.color) || s.clockwise != r.clockwise || s.open != r.open) {
      c.fail("attributes:" + k2, "%s: shape %zu has another colour or orientation", desc.c_str(), n);
      return;
    }
    if (s.s.empty()) {
      c.fail("empty:" + k2, "%s: shape %zu has no curves", desc.c_str(), n);
      continue;
    }
    for (size_t q = 0; q < s.s.size(); q++) {
      const Sp &p = s.s[q], &nx = s.s[(q + 1) % s.s.size()];
      if (p.degree != 1 && p.degree != 3)
        c.fail("degree:" + k2, "%s: degree %d", desc.c_str(), p.degree);
      for (int v = 0; v < 4; v++)
        if (!std::isfinite(p.v[v].x) || !std::isfinite(p.v[v].y)) {
          c.fail("finite:" + k2, "%s: coordinate %g,%g", desc.c_str(), p.v[v].x, p.v[v].y);
          return;
        }
      if (p.v[3].x != nx.v[0].x || p.v[3].y != nx.v[0].y) {
        c.fail("gap:" + k2, "%s: curve %zu of %zu ends at %g,%g, next starts at %g,%g", desc.c_str(), q, s.s.size(), p.v[3].x, p.v[3].y, nx.v[0].x, nx.v[0].y);
        break;
      }
      hs = mc::mix(hs, mc::mix((u64)(int)(p.v[3].x * 64) << 32, (u64)(int)(p.v[3].y * 64)) + p.degree);
    }
    // distance of the outline from the curve
    std::vector<Pt> f = flatten(s, 24), l = flatten(r);
    double worst = 0, stray = 0;
    for (auto &p : l) {
      double d = 1e9;
      for (size_t q = 0; q + 1 < f.size(); q++)
        d = std::min(d, dist_seg(p, f[q], f[q + 1]));
      worst = std::max(worst, d);
    }
    for (auto &p : f) {
      double d = 1e9;
      for (size_t q = 0; q < l.size(); q++)
        d = std::min(d, dist_seg(p, l[q], l[(q + 1) % l.size()]));
      stray = std::max(stray, d);
    }
    // without smoothing and line reversion each outline point is fitted to within the error
    // threshold, except for dropped right-angle points, which are one pixel from the next one
    if (o->filter_iterations == 0 && o->line_threshold == 0 && worst > std::max(.71f, o->error_threshold) + 1.001)
      c.fail("far:" + k2, "%s: outline point %g from the curve", desc.c_str(), worst);
    // ordinary tolerances: smoothing and dropped points add less than two pixels to the error
    if (o->error_threshold <= 2 && o->filter_iterations <= 4 && o->line_threshold <= 1 && o->line_reversion_threshold < 1) {
      if (worst > 4)
        c.fail("far:" + k2, "%s: outline point %g from the curve", desc.c_str(), worst);
      if (stray > 2.5)
        c.fail("stray:" + k2, "%s: curve point %g from the outline", desc.c_str(), stray);
    }
  }
  c.state(hs);
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C08";
  static std::vector<std::pair<unsigned, unsigned>> PR;
  for (unsigned a = 0; a < ND; a++)
    for (unsigned b = a; b < ND; b++)
      if (DEV[a].group != DEV[b].group || a == b)
        PR.push_back({a, b});
  k.bounds = fmt("%zu option settings (at most two of %u deviations from the defaults) x every 3x3 two-colour picture at scale 1, 2%s; single deviations x the same at scale 4 and 7 every 4x4 picture at scale 1, ellipses to 700 pixels, up to 400 shapes, rings and triangles; every three-colour 3x3 picture at scale 2 and 4", PR.size(), ND, th ? ", 4 and 7" : "");
  for (unsigned sc : {1u, 2u, 4u, 7u}) {
    bool pairs = th || sc <= 2;
    k.spaces.push_back({fmt("s%u", sc), 512ull * (pairs ? PR.size() : ND), [=](u64 i, Ctx &c) {
                          Pick p(i);
                          unsigned bits = p(512);
                          auto q = pairs ? PR[p(PR.size())] : std::make_pair(p(ND), 0u);
                          judge(c, scaled(3, 3, bits, sc), q.first, q.second, fmt("s%u", sc));
                        }});
  }
  k.spaces.push_back({"q4", 65536ull * (th ? ND : 2), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned bits = p(65536), a = p(th ? ND : 2);
                        judge(c, scaled(4, 4, bits, 1), th ? a : a ? ND - 1 : 0, 0, "q4");
                      }});
  // round shapes, also with a round hole; large ones; triangles; three colours
  k.spaces.push_back({"ellipses", 36 * 9 * ND, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const double R[6] = {1.6, 2.5, 4, 6.3, 9, 13}, O[3] = {0, .25, .5};
                        unsigned a = p(ND);
                        double rx = R[p(6)], ry = R[p(6)], ox = O[p(3)], oy = O[p(3)];
                        judge(c, disc(28, 28, 14 + ox, 14 + oy, rx, ry), a, 0, "ellipse");
                      }});
  k.spaces.push_back({"rings", 15 * 4 * ND, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const double R[5] = {3.2, 6.5, 9, 12, 15};
                        unsigned a = p(ND), q = p(15), u = 1;
                        while (q >= u)
                          q -= u++;
                        double f = p(2) ? .7 : 1, in = p(2) ? .9 : .6;
                        Img x = disc(32, 32, 16, 16, R[u - 1], R[u - 1] * f), y = disc(32, 32, 16, 16, R[q] * in, R[q] * in * f);
                        for (size_t n = 0; n < x.px.size(); n++)
                          if (!y.px[n])
                            x.px[n] = (char)255;
                        judge(c, x, a, 0, "ring");
                      }});
  k.spaces.push_back({"large", 16 * ND, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const double R[4] = {3, 17, 36, 70};
                        unsigned a = p(ND);
                        double rx = R[p(4)], ry = R[p(4)];
                        judge(c, disc(146, 146, 73, 73, rx, ry), a, 0, "large");
                      },
                      60});
  // outlines of thousands of points without a corner
  k.spaces.push_back({"huge", 5 * 6, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        static const double R[5][2] = {{100, 100}, {150, 40}, {60, 160}, {200, 200}, {350, 350}};
                        static const unsigned S[6][2] = {{0, 0}, {15, 19}, {13, 13}, {30, 30}, {6, 6}, {13, 15}};
                        unsigned s = p(6), z = p(5);
                        judge(c, disc(R[z][0] * 2 + 6, R[z][1] * 2 + 6, R[z][0] + 3, R[z][1] + 3, R[z][0], R[z][1]), S[s][0], S[s][1], "huge");
                      },
                      120});
  // hundreds of shapes of many colours
  k.spaces.push_back({"many", 3 * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned n = 8 + 6 * p(3), q = p(4), s = q % 2 ? 4 : 3;
                        Img im;
                        im.w = im.h = n * (s + 1) + 1;
                        im.np = 3;
                        for (unsigned y = 0; y < im.h; y++)
                          for (unsigned x = 0; x < im.w; x++) {
                            unsigned k = y / (s + 1) * n + x / (s + 1);
                            bool ink = x % (s + 1) && y % (s + 1);
                            im.px += ink ? std::string({(char)(k % 251), (char)(k / 7), (char)(k % 2 * 255)}) : std::string(3, (char)255);
                          }
                        judge(c, im, q / 2 ? ND - 1 : 0, 0, "many");
                      },
                      60});
  static std::vector<std::vector<Pt>> TRI;
  for (unsigned a = 0; a < 16; a++)
    for (unsigned b = a + 1; b < 16; b++)
      for (unsigned d = b + 1; d < 16; d++) {
        std::vector<Pt> v;
        for (unsigned q : {a, b, d})
          v.push_back({1. + 7 * (q % 4), 1. + 7 * (q / 4)});
        if (area(v) != 0)
          TRI.push_back(v);
      }
  k.spaces.push_back({"triangles", TRI.size() * ND, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned a = p(ND);
                        judge(c, poly(23, 23, TRI[p(TRI.size())]), a, 0, "triangle");
                      }});
  k.spaces.push_back({"colours", 19683 * 4, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned q = p(4);
                        judge(c, scaled(3, 3, p(19683), q % 2 ? 4 : 2, 3), q / 2 ? ND - 1 : 0, 0, "colours");
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
