// Output formats: spline arrays made by hand, documents read back from what a writer wrote, comparison.
#pragma once
#include "trace.hpp"
#include <functional>
#include <map>
#include <sstream>

struct Seg {
  int deg;
  Pt p[4];
};
struct Sub {
  Pt start{0, 0};
  std::vector<Seg> segs;
  bool closed = false; // closed explicitly
  Pt end() const { return segs.empty() ? start : segs.back().p[3]; }
};
struct Path {
  int rgb = -1;
  bool stroke = false;
  std::vector<Sub> subs;
};
struct Doc {
  std::string err; // not well-formed
  double w = -1, h = -1;
  std::vector<Path> paths;
  bool bad(const std::string &e) {
    if (err.empty())
      err = e;
    return false;
  }
};
inline int rgb_of(const at_color &c) { return c.r << 16 | c.g << 8 | c.b; }
inline int rgb_of(double r, double g, double b) { return (int)lround(r * 255) << 16 | (int)lround(g * 255) << 8 | (int)lround(b * 255); }

// leaves a known byte in the stack area that the next call will use
__attribute__((noinline)) inline void stack_fill(int byte) {
  volatile char a[32768];
  for (size_t i = 0; i < sizeof a; i++)
    a[i] = (char)byte;
}

// ---- spline arrays made by hand ----
struct Arr {
  std::vector<std::vector<at_spline_type>> d;
  std::vector<at_spline_list_type> l;
  at_color bg;
  at_splines_type s;
  Arr(unsigned w, unsigned h) {
    memset(&s, 0, sizeof s);
    s.width = w;
    s.height = h;
    s.width_weight_factor = 6;
  }
  void background(int rgb) {
    bg = {(unsigned char)(rgb >> 16), (unsigned char)(rgb >> 8), (unsigned char)rgb};
    s.background_color = &bg;
  }
  void add(const std::vector<at_spline_type> &v, int rgb, bool cw, bool open) {
    d.push_back(v);
    at_spline_list_type x;
    memset(&x, 0, sizeof x);
    x.length = v.size();
    x.clockwise = cw;
    x.open = open;
    x.color = {(unsigned char)(rgb >> 16), (unsigned char)(rgb >> 8), (unsigned char)rgb};
    l.push_back(x);
  }
  at_splines_type *get() {
    for (size_t i = 0; i < d.size(); i++)
      l[i].data = d[i].data();
    s.data = l.empty() ? nullptr : l.data();
    s.length = l.size();
    return &s;
  }
};
inline at_spline_type line(double x0, double y0, double x1, double y1, double z0 = 1, double z1 = 1) {
  at_spline_type s;
  memset(&s, 0, sizeof s);
  s.degree = AT_LINEARTYPE;
  s.v[0] = s.v[1] = {(float)x0, (float)y0, (float)z0};
  s.v[3] = s.v[2] = {(float)x1, (float)y1, (float)z1};
  return s;
}
inline at_spline_type cubic(double x0, double y0, double x1, double y1, double x2, double y2, double x3, double y3, double z = 1) {
  at_spline_type s;
  memset(&s, 0, sizeof s);
  s.degree = AT_CUBICTYPE;
  s.v[0] = {(float)x0, (float)y0, (float)z};
  s.v[1] = {(float)x1, (float)y1, (float)(z + .5)};
  s.v[2] = {(float)x2, (float)y2, (float)(z + .75)};
  s.v[3] = {(float)x3, (float)y3, (float)(z + 1)};
  return s;
}
// geometry alphabet: closed 0..6, open 7..10; all inside -2..12 (times f)
enum { NCLOSED = 7, NOPEN = 4 };
inline std::vector<at_spline_type> geo(unsigned g, double f = 1) {
  std::vector<at_spline_type> v;
  switch (g) {
  case 0:
    v = {line(1, 1, 6, 1), line(6, 1, 3, 5), line(3, 5, 1, 1)};
    break;
  case 1:
    v = {cubic(2, 2, 4, 0.5, 7, 1, 8, 3), cubic(8, 3, 6.5, 6, 3, 6.25, 2, 2)};
    break;
  case 2:
    v = {line(0, 7, 0, 0), cubic(0, 0, 3.3333333, .1, 6.125, 2, 9, 0), line(9, 0, 9, 7), line(9, 7, 0, 7)};
    break;
  case 3:
    v = {cubic(5, 5, 9, 9, 1, 9, 5, 5)};
    break;
  case 4:
    v = {cubic(0.125, 6.875, -1.5, 4.0625, -1.25, 2.3, .001, .0004), line(.001, .0004, 9.9996, .5), cubic(9.9996, .5, 11.75, 4, 10.5, 7.9, 0.125, 6.875)};
    break;
  case 5:
    v = {line(4, 1, 5, 1), cubic(5, 1, 5.05, 1.02, 5.08, 1.05, 5.1, 1.1), line(5.1, 1.1, 4.5, 3), line(4.5, 3, 4, 1)};
    break;
  case 6: { // a curve that became a line keeps its control points
    at_spline_type k = cubic(3, 3, 4, 6, 6, 6, 7, 3);
    k.degree = AT_LINEARTYPE;
    v = {k, line(7, 3, 3, 3)};
    break;
  }
  case 7:
    v = {line(1, 1, 8, 6, 2, 3)};
    break;
  case 8:
    v = {cubic(1, 6, 2, 2.5, 5, 1, 8, 2, 2), line(8, 2, 9, 6, 3, 1.5)};
    break;
  case 9: {
    at_spline_type k = cubic(6, 3, 7, 6, 8, 6, 9, 4, 1);
    k.degree = AT_LINEARTYPE;
    v = {line(2, 2, 6, 3), k};
    break;
  }
  case 10:
    v = {line(0, 0, 2, 1.5), line(2, 1.5, 2, 6), cubic(2, 6, 2, 7, 6, 7, 6, 4), cubic(6, 4, 6, 1, 8.5, 1, 8.5, 4)};
    break;
  }
  for (auto &s : v)
    for (auto &p : s.v) {
      p.x *= f;
      p.y *= f;
    }
  return v;
}

// ---- expectation and comparison ----
enum Group { BY_COLOR, EACH, EACH_BG }; // neighbours of one colour form one path | one path per list | holes in the background colour
inline std::vector<Path> expected(const Traced &t, const at_splines_type *s, Group g) {
  std::vector<Path> r;
  for (auto &sh : t.shapes) {
    bool stroke = t.centerline || sh.open;
    int rgb = rgb_of(sh.color);
    if (g == EACH_BG && sh.clockwise && s->background_color)
      rgb = rgb_of(*s->background_color);
    Sub b;
    b.start = {sh.s[0].v[0].x, sh.s[0].v[0].y};
    for (auto &p : sh.s) {
      Seg q;
      q.deg = p.degree;
      for (int k = 0; k < 4; k++)
        q.p[k] = {p.v[k].x, p.v[k].y};
      if (q.deg == 1) {
        q.p[1] = q.p[0];
        q.p[2] = q.p[3];
      }
      b.segs.push_back(q);
    }
    b.closed = !stroke;
    if (r.empty() || g != BY_COLOR || r.back().rgb != rgb || stroke) {
      Path p;
      p.rgb = rgb;
      p.stroke = stroke;
      r.push_back(p);
    }
    r.back().subs.push_back(b);
  }
  return r;
}
inline bool near(Pt a, Pt b, double tol, double rel) { return fabs(a.x - b.x) <= tol + rel * fabs(b.x) && fabs(a.y - b.y) <= tol + rel * fabs(b.y); }
// empty string: equal
inline std::string differs(const Doc &d, const std::vector<Path> &e, double tol, double rel) {
  if (!d.err.empty())
    return "malformed: " + d.err;
  std::vector<Path> a;
  for (auto &p : d.paths) {
    if (!p.stroke) {
      a.push_back(p);
      continue;
    }
    for (auto &s : p.subs) { // stroked lines are independent of each other
      Path q;
      q.rgb = p.rgb;
      q.stroke = true;
      q.subs = {s};
      a.push_back(q);
    }
  }
  if (a.size() != e.size())
    return fmt("%zu paths painted instead of %zu", a.size(), e.size());
  for (size_t i = 0; i < a.size(); i++) {
    if (a[i].stroke != e[i].stroke)
      return fmt("path %zu is %s", i, a[i].stroke ? "stroked" : "filled");
    if (a[i].rgb != e[i].rgb)
      return fmt("path %zu has colour %06x instead of %06x", i, a[i].rgb, e[i].rgb);
    if (a[i].subs.size() != e[i].subs.size())
      return fmt("path %zu has %zu parts instead of %zu", i, a[i].subs.size(), e[i].subs.size());
    for (size_t k = 0; k < a[i].subs.size(); k++) {
      const Sub &x = a[i].subs[k], &y = e[i].subs[k];
      if (!near(x.start, y.start, tol, rel))
        return fmt("path %zu part %zu starts at %g,%g instead of %g,%g", i, k, x.start.x, x.start.y, y.start.x, y.start.y);
      if (x.segs.size() != y.segs.size())
        return fmt("path %zu part %zu has %zu segments instead of %zu", i, k, x.segs.size(), y.segs.size());
      for (size_t j = 0; j < x.segs.size(); j++) {
        if (x.segs[j].deg != y.segs[j].deg)
          return fmt("path %zu part %zu segment %zu has degree %d", i, k, j, x.segs[j].deg);
        for (int q = 0; q < 4; q++)
          if ((x.segs[j].deg == 3 || q == 0 || q == 3) && !near(x.segs[j].p[q], y.segs[j].p[q], tol, rel))
            return fmt("path %zu part %zu segment %zu point %d is %g,%g instead of %g,%g", i, k, j, q, x.segs[j].p[q].x, x.segs[j].p[q].y, y.segs[j].p[q].x, y.segs[j].p[q].y);
      }
      // a filled part is closed by filling; a stroked one may be closed explicitly only where it ends where it began
      if (x.closed && e[i].stroke && !near(x.end(), x.start, 2 * tol, rel))
        return fmt("path %zu part %zu is closed", i, k);
    }
  }
  return "";
}

// builder used by the readers
struct Pen {
  std::vector<Sub> cur;
  bool move(double x, double y) {
    Sub s;
    s.start = {x, y};
    cur.push_back(s);
    return true;
  }
  Pt at() const { return cur.back().segs.empty() || cur.back().closed ? cur.back().start : cur.back().end(); }
  bool line(double x, double y) {
    if (cur.empty())
      return false;
    Pt a = at();
    cur.back().segs.push_back({1, {a, a, {x, y}, {x, y}}});
    return true;
  }
  bool curve(double x1, double y1, double x2, double y2, double x, double y) {
    if (cur.empty())
      return false;
    cur.back().segs.push_back({3, {at(), {x1, y1}, {x2, y2}, {x, y}}});
    return true;
  }
  void close() {
    if (!cur.empty())
      cur.back().closed = true;
  }
  void paint(Doc &d, int rgb, bool stroke) {
    Path p;
    p.rgb = rgb;
    p.stroke = stroke;
    for (auto &s : cur)
      if (!s.segs.empty())
        p.subs.push_back(s);
    if (!p.subs.empty())
      d.paths.push_back(p);
    cur.clear();
  }
};

inline void flip(Doc &d, double h) {
  for (auto &p : d.paths)
    for (auto &s : p.subs) {
      s.start.y = h - s.start.y;
      for (auto &g : s.segs)
        for (auto &q : g.p)
          q.y = h - q.y;
    }
}

inline std::vector<std::string> lines_of(const Bytes &t) {
  std::vector<std::string> r;
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == Bytes::npos)
      e = t.size();
    r.push_back(t.substr(i, e - i));
    i = e + 1;
  }
  return r;
}
inline bool number(const std::string &t, double &v) {
  if (t.empty() || !(isdigit((unsigned char)t[0]) || t[0] == '-' || t[0] == '.'))
    return false;
  for (char c : t)
    if (!(isdigit((unsigned char)c) || c == '-' || c == '.' || c == 'e' || c == '+'))
      return false;
  char *e;
  v = strtod(t.c_str(), &e);
  return *e == 0;
}
inline bool begins(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

// ---- what a case explores ----
typedef std::function<void(Ctx &, at_splines_type *, const std::string &)> Judge;
static const int COLS[] = {0x000000, 0xff0000, 0x123456, 0xffffff, 0x00ffff};

// Arrays of up to three lists over the geometry alphabet, with colours, holes, backgrounds, sizes.
inline void array_spaces(mc::Check &k, Judge judge, bool th, double f = 1) {
  static const unsigned SZ[][2] = {{10, 7}, {7, 10}, {300, 200}, {1, 1}, {30000, 12}};
  // no list, every size, every background, both modes
  k.spaces.push_back({"empty", 5 * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned z = p(5), b = p(3);
                        Arr a(SZ[z][0], SZ[z][1]);
                        a.s.centerline = p(2);
                        if (b)
                          a.background(b == 1 ? 0xffffff : 0x0000ff);
                        judge(c, a.get(), fmt("empty %ux%u", SZ[z][0], SZ[z][1]));
                      }});
  k.spaces.push_back({"closed1", NCLOSED * 5 * 2 * 3 * 5, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned g = p(NCLOSED), col = p(5), cw = p(2), b = p(3), z = p(5);
                        Arr a(SZ[z][0], SZ[z][1]);
                        if (b)
                          a.background(b == 1 ? 0xffffff : 0x0000ff);
                        a.add(geo(g, f), COLS[col], cw, false);
                        judge(c, a.get(), fmt("g%u col%u cw%u bg%u %ux%u", g, col, cw, b, SZ[z][0], SZ[z][1]));
                      }});
  unsigned n2 = NCLOSED * 3 * 2;
  k.spaces.push_back({"closed2", (u64)n2 * n2 * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned b = p(3);
                        Arr a(10, 7);
                        if (b)
                          a.background(b == 1 ? 0xffffff : 0x0000ff);
                        std::string what = fmt("bg%u", b);
                        for (int q = 0; q < 2; q++) {
                          unsigned g = p(NCLOSED), col = p(3), cw = p(2);
                          a.add(geo(g, f), COLS[col], cw, false);
                          what += fmt(" g%u col%u cw%u", g, col, cw);
                        }
                        judge(c, a.get(), what);
                      }});
  // three or four lists: every colour pattern, every pattern of holes
  unsigned n3 = 3 * 2 * (th ? 3 : 2);
  unsigned nl = th ? 4 : 3;
  u64 cnt = 2;
  for (unsigned q = 0; q < nl; q++)
    cnt *= n3;
  k.spaces.push_back({"closed3", cnt, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned b = p(2);
                        Arr a(10, 7);
                        if (b)
                          a.background(0x0000ff);
                        std::string what = fmt("bg%u", b);
                        for (unsigned q = 0; q < nl; q++) {
                          unsigned g = p(th ? 3 : 2), col = p(3), cw = p(2);
                          a.add(geo(g, f), COLS[col], cw, false);
                          what += fmt(" g%u col%u cw%u", g, col, cw);
                        }
                        judge(c, a.get(), what);
                      }});
  // centerlines, open and closed ones mixed
  unsigned no = (NOPEN + 2) * 3;
  k.spaces.push_back({"center", (u64)no * no * (th ? no : 1) * 2 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned w = p(2), b = p(2);
                        Arr a(10, 7);
                        a.s.centerline = true;
                        a.s.preserve_width = w;
                        if (b)
                          a.background(0xffffff);
                        std::string what = fmt("center width%u bg%u", w, b);
                        for (int q = 0; q < (th ? 3 : 2); q++) {
                          unsigned g = p(NOPEN + 2), col = p(3);
                          bool open = g < NOPEN;
                          a.add(geo(open ? NCLOSED + g : g - NOPEN, f), COLS[col], false, open);
                          what += fmt(" g%u col%u", open ? NCLOSED + g : g - NOPEN, col);
                        }
                        judge(c, a.get(), what);
                      }});
  k.spaces.push_back({"center1", (u64)(NOPEN + NCLOSED) * 5 * 5 * 5, [=](u64 i, Ctx &c) {
                        static const double FACTOR[] = {6, 6, 0.5, 1, 20};
                        Pick p(i);
                        unsigned g = p(NOPEN + NCLOSED), col = p(5), w = p(5), z = p(5);
                        Arr a(SZ[z][0], SZ[z][1]);
                        a.s.centerline = true;
                        a.s.preserve_width = w > 0;
                        a.s.width_weight_factor = FACTOR[w];
                        a.add(geo(g, f), COLS[col], false, g >= NCLOSED);
                        judge(c, a.get(), fmt("center g%u col%u width%u %ux%u", g, col, w, SZ[z][0], SZ[z][1]));
                      }});
  // pictures traced by the real tracer: what it makes of every 3x3 picture, enlarged
  k.spaces.push_back({"traced", 512 * 6, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned mode = p(6), bits = p(512);
                        Img im;
                        im.w = im.h = 3 * 4 + 2;
                        im.np = 3;
                        for (unsigned y = 0; y < im.h; y++)
                          for (unsigned x = 0; x < im.w; x++) {
                            bool in = x > 0 && y > 0 && x < 13 && y < 13 && (bits >> ((y - 1) / 4 * 3 + (x - 1) / 4) & 1);
                            im.px += in ? std::string((x + y) % 24 < 12 || mode < 4 ? "\x00\x40\xff" : "\xff\x00\x00", 3) : std::string("\xff\xff\xff", 3);
                          }
                        Opts o;
                        if (mode % 2)
                          o.bg(255, 255, 255);
                        o->centerline = mode / 2 == 1;
                        o->preserve_width = mode == 3;
                        at_bitmap *bm = to_bitmap(im);
                        at_splines_type *s = at_splines_new(bm, o.o, nullptr, nullptr);
                        if (s) {
                          judge(c, s, fmt("traced %03x mode%u", bits, mode));
                          at_splines_free(s);
                        } else
                          c.fail("trace", "no splines");
                        at_bitmap_free(bm);
                      }});
  // every shape enlarged
  static const double SC[] = {.25, 20, 400, 3000};
  k.spaces.push_back({"scaled", (NCLOSED + NOPEN) * 4 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned g = p(NCLOSED + NOPEN), q = p(4), t = p(2);
                        Arr a(t ? 32767 : std::max(1., SC[q] * 10), t ? 32000 : std::max(1., SC[q] * 9));
                        a.s.centerline = g >= NCLOSED;
                        a.add(geo(g, SC[q] * f), COLS[2], false, g >= NCLOSED);
                        judge(c, a.get(), fmt("g%u times %g", g, SC[q]));
                      },
                      60});
  // every pair of coordinates over values at the edges of number formatting
  static const double NV[] = {-1.5, -.9996, -.0004, 0, .0004, .000051, .5, .9994, .9996, 1, 1.0009765625, 3.25, 9.9994, 9.9996, 10, 99.9995, 100.125, 255.996, 999.5, 1000.25, 4095.9375, 9999.5, 10000, 16384, 30000.5};
  enum { NN = 25 };
  k.spaces.push_back({"numbers", NN * NN * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        double x = NV[p(NN)], y = NV[p(NN)];
                        unsigned q = p(2);
                        Arr a(32000, 31000);
                        if (q)
                          a.add({cubic(3, 2, x, y, y, x, 4, 5), line(4, 5, 3, 2)}, COLS[1], false, false);
                        else
                          a.add({line(3, 2, x, y), line(x, y, 4, 5), line(4, 5, 3, 2)}, COLS[1], false, false);
                        judge(c, a.get(), fmt("%s through %.9g,%.9g", q ? "curve" : "line", x, y));
                      },
                      60});
  k.spaces.push_back({"colours", 17 * 17 * 17 + 768, [=](u64 i, Ctx &c) {
                        int rgb;
                        if (i < 768)
                          rgb = (int)(i % 256) << (i / 256 * 8);
                        else {
                          Pick p(i - 768);
                          int r = p(17) * 15, g = p(17) * 15, b = p(17) * 15;
                          rgb = r << 16 | g << 8 | b;
                        }
                        Arr a(10, 7);
                        a.add(geo(0, f), rgb, false, false);
                        judge(c, a.get(), fmt("colour %06x", rgb));
                      }});
  // two shapes whose colours differ in one bit, in both modes
  k.spaces.push_back({"near", 24 * 2 * 2 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int bit = 1 << p(24);
                        unsigned cl = p(2), cw = p(2), b = p(2);
                        Arr a(10, 7);
                        a.s.centerline = cl;
                        if (b)
                          a.background(0x5a96c3);
                        a.add(geo(cl ? NCLOSED : 1, f), 0x5a96c3 ^ bit, false, cl);
                        a.add(geo(cl ? NCLOSED + 1 : 0, f), 0x5a96c3, !cl && cw, cl);
                        a.add(geo(cl ? NCLOSED + 2 : 2, f), 0x5a96c3 ^ bit, !cl && cw, cl);
                        judge(c, a.get(), fmt("colours differing in %06x cl%u cw%u bg%u", bit, cl, cw, b));
                      }});
  // shapes of many pieces
  static const unsigned PIECES[] = {50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 511, 512, 513, 1000, 1024, 1025, 3000};
  k.spaces.push_back({"pieces", 60 * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned n = 1 + p(60), q = p(3), open = p(2);
                        if (n > 40)
                          n = PIECES[n - 41];
                        std::vector<at_spline_type> v;
                        for (unsigned k = 0; k < n; k++) {
                          double x = k * 2, y = k % 7, x2 = k + 1 == n && !open ? 0 : x + 2, y2 = k + 1 == n && !open ? 0 : (k + 1) % 7;
                          if (q == 0 || (q == 2 && k % 3))
                            v.push_back(line(x * f, y * f, x2 * f, y2 * f));
                          else
                            v.push_back(cubic(x * f, y * f, (x + 1) * f, (y + 2) * f, x2 * f, (y2 + 1) * f, x2 * f, y2 * f));
                        }
                        Arr a(6100, 10);
                        a.s.centerline = open;
                        a.add(geo(0, f), COLS[2], false, false);
                        a.add(v, COLS[1], false, open);
                        a.add(geo(1, f), COLS[1], false, false);
                        judge(c, a.get(), fmt("%u pieces kind %u%s", n, q, open ? " open" : ""));
                      },
                      60});
  // very many lists and colours
  static const unsigned MANY[] = {200, 255, 256, 257, 300, 511, 512, 513, 600, 980, 1100, 2200};
  k.spaces.push_back({"many", 12 * 2 * 3 * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned n = MANY[p(12)], kind = p(2), mode = p(3), cols = p(3);
                        Arr a(10, 7);
                        a.s.centerline = mode == 1;
                        if (mode == 2)
                          a.background(0x5a96c3);
                        for (unsigned q = 0; q < n; q++) {
                          unsigned v = cols == 0 ? q : cols == 1 ? 5 : q % 2;
                          a.add(geo(mode == 1 ? NCLOSED + (kind ? q % NOPEN : 0) : kind ? q % NCLOSED : 0, f), (v * 37 % 256) << 16 | (v / 256 * 25) << 8 | (v * 11 & 255), mode == 2 && q % 3 == 2, mode == 1);
                        }
                        judge(c, a.get(), fmt("%u lists kind%u mode%u cols%u", n, kind, mode, cols));
                      },
                      60});
}
