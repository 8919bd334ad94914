// C25: a font character written as glyph source keeps its code, size, measures and place.
#include "gf.hpp"
#include "trace.hpp"

typedef std::vector<std::vector<int>> Grid;
struct Glyph { // what the file says
  bool ok = false;
  unsigned long code = 0;
  long design = 0, advance = 0, left = 0, right = 0, ascend = 0, descend = 0;
  std::vector<std::vector<std::pair<bool, std::pair<int, int>>>> paths;
  std::string bad;
};
static Glyph parse(const Bytes &t) {
  Glyph g;
  size_t at = 0;
  auto line = [&]() {
    size_t e = t.find('\n', at);
    std::string l = e == Bytes::npos ? Bytes(t, at) : Bytes(t, at, e - at);
    at = e == Bytes::npos ? t.size() : e + 1;
    return l;
  };
  auto num = [&](const std::string &l, const char *f, auto *v) {
    int n = 0;
    return sscanf(l.c_str(), (std::string(f) + "%n").c_str(), v, &n) == 1 && n == (int)l.size();
  };
  std::string l = line();
  int n = 0;
  if (sscanf(l.c_str(), "symbol %li design-size %ld%n", (long *)&g.code, &g.design, &n) != 2 || n != (int)l.size())
    return g.bad = l, g;
  if (l = line(), !num(l, "\tadvance-width %ld", &g.advance))
    return g.bad = l, g;
  if (l = line(), l != "\tcontour")
    return g.bad = l, g;
  while (l = line(), l == "\t\tpath") {
    g.paths.emplace_back();
    while (l = line(), l != "\t\tend path") {
      int x, y;
      n = 0;
      bool on = l.compare(0, 10, "\t\t\tdot-on ") == 0;
      if (sscanf(l.c_str(), on ? "\t\t\tdot-on %d %d%n" : "\t\t\tdot-off %d %d%n", &x, &y, &n) != 2 || n != (int)l.size())
        return g.bad = l, g;
      g.paths.back().push_back({on, {x, y}});
    }
  }
  if (l != "\tend contour")
    return g.bad = l, g;
  if ((l = line(), !num(l, "\tleft-bearing %ld", &g.left)) || (l = line(), !num(l, "\tright-bearing %ld", &g.right)) || (l = line(), !num(l, "\tascend %ld", &g.ascend)) || (l = line(), !num(l, "\tdescend %ld", &g.descend)))
    return g.bad = l, g;
  if (l = line(), l != "end symbol")
    return g.bad = l, g;
  g.ok = true;
  return g;
}

// reads the character, traces it and writes it
static Glyph convert(Ctx &c, const Bytes &file, unsigned charcode, bool exactly, Traced &tr, std::string &err) {
  MemFile f(file);
  Msgs m;
  at_input_opts_type *io = at_input_opts_new();
  io->charcode = charcode;
  at_bitmap *b = read_raw("gf", f.path, m, io);
  at_input_opts_free(io);
  Glyph g;
  if (!b || m.fatal) {
    err = "not read: " + m.last;
    if (b)
      at_bitmap_free(b);
    return g;
  }
  Opts o;
  o.bg(0, 0, 0);
  if (exactly)
    exact(o);
  at_splines_type *s = at_splines_new(b, o.o, Msgs::cb, &m);
  tr = grab(s);
  Bytes t = write_splines("ugs", s, m);
  at_splines_free(s);
  at_bitmap_free(b);
  c.step(3);
  g = parse(t);
  if (m.fatal)
    err = "error: " + m.last;
  else if (!g.ok)
    err = "malformed: " + g.bad;
  return g;
}

// the box of the character is min_col..max_col, min_row..max_row as in the file, the ink is trimmed
static void judge(Ctx &c, const char *cls, const Gf &f, size_t which, unsigned charcode, const Grid &ink, bool exactly) {
  const GfChar &ch = f.chars[which];
  std::string what = fmt("character %u box %d..%d %d..%d advance %g design %g pixels per point %g", ch.code, ch.min_col, ch.max_col, ch.min_row, ch.max_row, ch.advance / 65536., f.design / 1048576., f.vppp / 65536.);
  c.note("%s %s", cls, what.c_str());
  Traced tr;
  std::string err;
  Glyph g = convert(c, f.file(), charcode, exactly, tr, err);
  c.trace();
  if (!err.empty()) {
    c.fail(fmt("%s:error", cls), "%s: %s", what.c_str(), err.c_str());
    return;
  }
  int h = ink.size(), w = h ? ink[0].size() : 0, t = h, b = -1, l = w, r = -1;
  for (int y = 0; y < h; y++)
    for (int x = 0; x < w; x++)
      if (ink[y][x])
        t = std::min(t, y), b = std::max(b, y), l = std::min(l, x), r = std::max(r, x);
  long x0 = 0, x1 = 0, y0 = 0, y1 = 0; // of the ink; the right edge is exclusive, the rows are inclusive
  if (b >= 0) {
    x0 = ch.min_col + l;
    x1 = ch.min_col + r + 1;
    y1 = ch.max_row - t;
    y0 = ch.max_row - b;
  }
  long design = (long)floor(f.design / 1048576. * (f.vppp / 65536.) + .5);
  long advance = f.long_loc ? (long)(ch.advance / 65536. + .5) : (ch.advance >> 16) & 255;
  if (g.code != ch.code || g.design != design || g.advance != advance)
    c.fail(fmt("%s:header", cls), "%s: code %lu design size %ld advance %ld instead of %u %ld %ld", what.c_str(), g.code, g.design, g.advance, ch.code, design, advance);
  long lox = x0, loy = y0, hix = x1, hiy = y1;
  for (auto &p : g.paths)
    for (auto &d : p) {
      lox = std::min<long>(lox, d.second.first);
      hix = std::max<long>(hix, d.second.first);
      loy = std::min<long>(loy, d.second.second);
      hiy = std::max<long>(hiy, d.second.second);
    }
  if (g.left != lox || g.right != advance - hix - 1 || g.ascend != hiy + 1 || g.descend != loy)
    c.fail(fmt("%s:measures", cls), "%s: left %ld right %ld ascend %ld descend %ld instead of %ld %ld %ld %ld", what.c_str(), g.left, g.right, g.ascend, g.descend, lox, advance - hix - 1, hiy + 1, loy);
  if (g.paths.size() != tr.shapes.size()) {
    c.fail(fmt("%s:paths", cls), "%s: %zu paths for %zu shapes", what.c_str(), g.paths.size(), tr.shapes.size());
    return;
  }
  c.state(mc::hash_str(fmt("%ld %ld %ld %ld %zu", g.left, g.right, g.ascend, g.descend, g.paths.size())));
  c.nontrivial(mc::hash_str(what));
  if (exactly) // all points are grid points: the dots are known
    for (size_t n = 0; n < g.paths.size(); n++) {
      std::vector<std::pair<int, int>> want;
      for (auto &s : tr.shapes[n].s) {
        auto at = [&](int k) { return std::pair<int, int>(lround(s.v[k].x) + x0, lround(s.v[k].y) + y0); };
        if (want.empty())
          want.push_back(at(0));
        if (want.back() != at(3))
          want.push_back(at(3));
      }
      bool same = want.size() == g.paths[n].size();
      for (size_t k = 0; same && k < want.size(); k++)
        same = g.paths[n][k].first && g.paths[n][k].second == want[k];
      if (!same)
        c.fail(fmt("%s:dots", cls), "%s: path %zu is not at its place", what.c_str(), n);
    }
  else { // curves: as the same character at the origin, moved
    Gf z = f;
    GfChar &q = z.chars[which];
    q.max_col -= q.min_col + l;
    q.min_col = -l;
    q.max_row -= y0;
    q.min_row -= y0;
    Traced t0;
    Glyph o = convert(c, z.file(), charcode, false, t0, err);
    bool same = err.empty() && o.paths.size() == g.paths.size();
    for (size_t n = 0; same && n < g.paths.size(); n++) {
      same = o.paths[n].size() == g.paths[n].size();
      for (size_t k = 0; same && k < g.paths[n].size(); k++)
        same = o.paths[n][k].first == g.paths[n][k].first && labs(g.paths[n][k].second.first - o.paths[n][k].second.first - x0) <= 1 && labs(g.paths[n][k].second.second - o.paths[n][k].second.second - y0) <= 1;
    }
    if (!same)
      c.fail(fmt("%s:moved", cls), "%s: the curves are not those of the character at the origin, moved by %ld,%ld", what.c_str(), x0, y0);
  }
}

static Grid bits(unsigned w, unsigned h, u64 v, unsigned scale = 1) {
  Grid g(h * scale, std::vector<int>(w * scale, 0));
  for (unsigned y = 0; y < h * scale; y++)
    for (unsigned x = 0; x < w * scale; x++)
      g[y][x] = v >> (y / scale * w + x / scale) & 1;
  return g;
}
static const int ORG[] = {-20, -7, -1, 0, 1, 2, 9, 40};
static const int ADV[] = {0, 1, 2, 3, 5, 7, 20, 60, 255};

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C25";
  k.bounds = "every 3x2 glyph (thorough: 3x3) in 8x8 places with 9 advance widths; fractions of the advance width and of the design size; all codes; every 3x3 glyph enlarged 4 times with curves in 8x8 places; all pairs of characters of one font";
  unsigned cells = th ? 9 : 6, hh = th ? 3 : 2;
  k.spaces.push_back({"places", (1ull << cells) * 8 * 8 * 9, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Gf f;
                        GfChar ch;
                        ch.min_col = ORG[p(8)];
                        ch.min_row = ORG[p(8)];
                        ch.advance = ADV[p(9)] << 16;
                        Grid g = bits(3, hh, p.v);
                        if (!p.v)
                          return; // nothing to trace
                        ch.max_col = ch.min_col + 3;
                        ch.max_row = ch.min_row + hh - 1;
                        ch.body = gf_paint(g, 0);
                        f.long_loc = i & 1;
                        f.chars.push_back(ch);
                        judge(c, "places", f, 0, i & 2 ? 65 : 0, g, true);
                      }});
  k.spaces.push_back({"curves", 512ull * 8 * (th ? 8 : 1), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Gf f;
                        GfChar ch;
                        Grid g = bits(3, 3, p(512), 4);
                        if (i % 512 == 0)
                          return;
                        unsigned a = p(8), b = th ? p(8) : (a + 3) % 8;
                        ch.min_col = ORG[a];
                        ch.min_row = ORG[b];
                        ch.max_col = ch.min_col + 12;
                        ch.max_row = ch.min_row + 11;
                        ch.advance = ADV[i % 9] << 16;
                        ch.body = gf_paint(g, 0);
                        f.chars.push_back(ch);
                        judge(c, "curves", f, 0, 65, g, false);
                      }});
  k.spaces.push_back({"numbers", 256ull * 12 + 4096 + 24ull * 24, [=](u64 i, Ctx &c) {
                        Gf f;
                        GfChar ch;
                        Grid g = bits(3, 2, 0x1b);
                        ch.max_col = 3;
                        ch.max_row = 1;
                        ch.body = gf_paint(g, 0);
                        f.long_loc = true;
                        unsigned sel = 0;
                        if (i < 256 * 12) { // codes and advance widths
                          ch.code = i % 256;
                          sel = ch.code;
                          ch.advance = (int[]){0, 1, 32767, 32768, 32769, 65535, 65536, 98303, 98304, 1000 << 16, 30000 << 16, (30000 << 16) + 40000}[i / 256];
                        } else if (i < 256 * 12 + 4096)
                          ch.advance = (i - 256 * 12) * 1031;
                        else {
                          static const unsigned D[] = {1, 1 << 18, 1 << 19, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 19, 5 << 20, 10 << 20, (10 << 20) + 12345, 12 << 20, 100 << 20};
                          static const unsigned R[] = {1, 1 << 14, 1 << 15, 65535, 65536, 65537, 3 << 15, 54579, 181931, 272046, 545790, 1091581};
                          unsigned n = i - 256 * 12 - 4096;
                          f.design = D[n % 12];
                          f.vppp = R[n / 24 % 12];
                          f.hppp = n & 1 ? 7 << 16 : f.vppp;
                          if (n / 24 >= 12)
                            f.design += 777;
                        }
                        f.chars.push_back(ch);
                        judge(c, "numbers", f, 0, sel, g, true);
                      }});
  k.spaces.push_back({"fonts", 64ull * 64 * 3 * 2, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Gf f;
                        Grid g[2];
                        for (int n = 0; n < 2; n++) {
                          unsigned v = p(64);
                          if (!v)
                            return;
                          GfChar ch;
                          ch.code = n ? 200 : 3;
                          g[n] = bits(3, 2, v);
                          ch.min_col = n ? -4 : 6;
                          ch.min_row = n ? 3 : -2;
                          ch.max_col = ch.min_col + 3;
                          ch.max_row = ch.min_row + 1;
                          ch.advance = (n ? 9 : 31) << 16;
                          ch.body = gf_paint(g[n], n);
                          f.chars.push_back(ch);
                        }
                        unsigned sel = p(3);
                        f.long_loc = p(2);
                        judge(c, "fonts", f, sel == 2, sel == 0 ? 0 : sel == 1 ? 3 : 200, g[sel == 2], true);
                      }});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
