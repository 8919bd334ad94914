// C17: binary containers: structure, sizes and counts are right and the file paints what the array says.
#include "write.hpp"

struct Rd { // little or big endian reader that never leaves the file
  const Bytes &b;
  bool be;
  size_t i = 0;
  bool ok = true;
  Rd(const Bytes &b_, bool be_) : b(b_), be(be_) {}
  unsigned u8() {
    if (i >= b.size()) {
      ok = false;
      return 0;
    }
    return (unsigned char)b[i++];
  }
  unsigned u16() {
    unsigned x = u8(), y = u8();
    return be ? x << 8 | y : y << 8 | x;
  }
  unsigned u32() {
    unsigned x = u16(), y = u16();
    return be ? x << 16 | y : y << 16 | x;
  }
  int s16() { return (int16_t)u16(); }
  int s32() { return (int32_t)u32(); }
};

// ---- EMF ----
static Doc read_emf(const Bytes &t, const std::string &name) {
  Doc d;
  if (t.size() % 4)
    d.bad("length not a multiple of 4");
  Rd r(t, false);
  unsigned nrec = 0, want_rec = 0, handles = 0;
  std::map<unsigned, std::pair<char, int>> obj; // handle -> kind, colour
  int pen = -2, brush = -1;                      // -2: no pen
  bool path = false, ready = false, eof = false;
  Pen p;
  while (d.err.empty() && r.i < t.size()) {
    if (eof) {
      d.bad("records after the end");
      break;
    }
    size_t at = r.i;
    unsigned type = r.u32(), size = r.u32();
    if (!r.ok || size < 8 || size % 4 || at + size > t.size()) {
      d.bad(fmt("record %u has size %u", type, size));
      break;
    }
    if ((nrec == 0) != (type == 1)) {
      d.bad("header misplaced");
      break;
    }
    nrec++;
    auto need = [&](unsigned n) { return size == n ? true : d.bad(fmt("record %u has size %u", type, size)); };
    switch (type) {
    case 1: {
      int l = r.s32(), tp = r.s32();
      d.w = r.s32();
      d.h = r.s32();
      int fl = r.s32(), ft = r.s32();
      double fw = r.s32(), fh = r.s32();
      unsigned sig = r.u32(), ver = r.u32(), bytes = r.u32();
      want_rec = r.u32();
      handles = r.u16();
      unsigned res = r.u16(), nd = r.u32(), od = r.u32(), npal = r.u32();
      double dw = r.u32(), dh = r.u32(), mw = r.u32(), mh = r.u32();
      unsigned cb = r.u32(), of = r.u32(), gl = r.u32();
      if (l || tp || fl || ft || sig != 0x464d4520 || ver != 0x10000 || res || npal || cb || of || gl)
        d.bad("header fields");
      if (bytes != t.size())
        d.bad(fmt("header says %u bytes of %zu", bytes, t.size()));
      if (fabs(fw - d.w * mw / dw * 100) > 1 || fabs(fh - d.h * mh / dh * 100) > 1)
        d.bad("frame does not match bounds");
      std::string want = at_version(true);
      want += '\0' + name + '\0' + '\0';
      if (od != 100 || nd != want.size() || od + nd * 2 > size || size - (od + nd * 2) > 3)
        d.bad(fmt("description of %u characters at %u in a header of %u bytes", nd, od, size));
      else
        for (unsigned k = 0; k < nd; k++)
          if (r.u16() != (unsigned char)want[k]) {
            d.bad("description text");
            break;
          }
      break;
    }
    case 14: { // end
      if (!need(20))
        break;
      unsigned a = r.u32(), b = r.u32(), c = r.u32();
      if (a != 0 || b != 16 || c != 20)
        d.bad("end record");
      eof = true;
      break;
    }
    case 19: // polygon fill mode: alternate or winding
      if (need(12)) {
        unsigned m = r.u32();
        if (m != 1 && m != 2)
          d.bad("fill mode");
      }
      break;
    case 38:
    case 39: {
      if (!need(type == 38 ? 28 : 24))
        break;
      unsigned h = r.u32(), style = r.u32();
      if (type == 38) {
        r.u32();
        r.u32();
      }
      unsigned col = r.u32();
      if (h < 1 || h >= handles || obj.count(h) || style || col >> 24)
        d.bad(fmt("object %u created", h));
      obj[h] = {type == 38 ? 'p' : 'b', (int)((col & 255) << 16 | (col & 0xff00) | col >> 16)};
      break;
    }
    case 37: {
      if (!need(12))
        break;
      unsigned h = r.u32();
      if (h == 0x80000008)
        pen = -2;
      else if (!obj.count(h))
        d.bad(fmt("object %u selected", h));
      else if (obj[h].first == 'p')
        pen = obj[h].second;
      else
        brush = obj[h].second;
      break;
    }
    case 40: {
      if (!need(12))
        break;
      unsigned h = r.u32();
      if (!obj.erase(h))
        d.bad(fmt("object %u deleted", h));
      break;
    }
    case 59:
      if (need(8) && (path || ready))
        d.bad("path begun twice");
      path = true;
      break;
    case 60:
      if (need(8) && !path)
        d.bad("path ended twice");
      path = false;
      ready = true;
      break;
    case 27: {
      if (!need(16) || (!path && d.bad("move outside a path")))
        break;
      int x = r.s32(), y = r.s32();
      p.move(x, y);
      break;
    }
    case 54: {
      if (!need(16) || (!path && d.bad("line outside a path")))
        break;
      int x = r.s32(), y = r.s32();
      if (!p.line(x, y))
        d.bad("line without point");
      break;
    }
    case 88: {
      for (int k = 0; k < 4; k++)
        r.u32();
      unsigned n = r.u32();
      if (n == 0 || n % 3 || size != 28 + 4ull * n || !path) {
        d.bad(fmt("curve of %u points in %u bytes", n, size));
        break;
      }
      for (unsigned k = 0; k < n / 3; k++) {
        int v[6];
        for (int &x : v)
          x = r.s16();
        if (!p.curve(v[0], v[1], v[2], v[3], v[4], v[5]))
          d.bad("curve without point");
      }
      break;
    }
    case 62:
    case 64:
      if (!need(24))
        break;
      if (!ready) {
        d.bad("no path to paint");
        break;
      }
      ready = false;
      if (type == 62) {
        if (pen != -2)
          d.bad("filled with a pen selected");
        p.paint(d, brush, false);
      } else
        p.paint(d, pen, true);
      break;
    default:
      d.bad(fmt("record type %u", type));
    }
    if (d.err.empty() && (!r.ok || r.i > at + size))
      d.bad(fmt("record %u too short", type));
    r.i = at + size;
  }
  if (d.err.empty()) {
    if (!eof)
      d.bad("no end record");
    else if (nrec != want_rec)
      d.bad(fmt("header says %u records of %u", want_rec, nrec));
    else if (path || ready)
      d.bad("path left over");
    else if (!obj.empty())
      d.bad("objects left over");
  }
  return d;
}

// ---- CGM ----
static Doc read_cgm(const Bytes &t, const std::string &name) {
  Doc d;
  Rd r(t, true);
  int state = 0; // 0 nothing 1 metafile 2 picture 3 body 4 after the picture 5 end
  int fill = -1, line = -1;
  bool fig = false, comp = false, direct = false;
  int interior = 0;
  int W = -1, x0 = 0, y0 = 0, x1 = 0, y1 = 0;
  (void)W;
  Pen p;
  Pt last{0, 0};
  bool have = false;
  while (d.err.empty() && r.i < t.size()) {
    unsigned h = r.u16(), cls = h >> 12, id = h >> 5 & 127;
    size_t len = h & 31;
    if (len == 31) {
      len = r.u16();
      if (len & 0x8000)
        d.bad("partitioned element");
    }
    size_t at = r.i;
    if (!r.ok || at + len > t.size()) {
      d.bad("element leaves the file");
      break;
    }
    auto need = [&](size_t n) { return len == n ? true : d.bad(fmt("element %u.%u has %zu bytes", cls, id, len)); };
    auto str = [&]() {
      size_t n = r.u8();
      if (n == 255)
        n = r.u16();
      std::string s;
      if (r.i + n != at + len) {
        d.bad(fmt("element %u.%u holds a string of %zu in %zu bytes", cls, id, n, len));
        return s;
      }
      s = t.substr(r.i, n);
      r.i += n;
      return s;
    };
    auto go = [&](int from, int to) { state == from ? (void)(state = to) : (void)d.bad(fmt("element %u.%u misplaced", cls, id)); };
    unsigned key = cls << 8 | id;
    switch (key) {
    case 0x001:
      go(0, 1);
      if (str() != name)
        d.bad("metafile name");
      break;
    case 0x101:
      if (need(2)) {
        unsigned v = r.u16();
        if (v < 2 || v > 4) // curves and compound lines came with version 2 and 3
          d.bad("version");
      }
      break;
    case 0x102:
      if (str().empty())
        d.bad("description");
      break;
    case 0x10b: {
      unsigned n = r.u16();
      if (len != 2 + 4 * n)
        d.bad("element list");
      r.i = at + len;
      break;
    }
    case 0x003:
      go(1, 2);
      str();
      break;
    case 0x202:
      if (need(2))
        direct = r.u16() == 1;
      break;
    case 0x206:
      if (need(8)) {
        x0 = r.s16();
        y0 = r.s16();
        x1 = r.s16();
        y1 = r.s16();
      }
      break;
    case 0x004:
      go(2, 3);
      break;
    case 0x005:
      go(3, 4);
      break;
    case 0x002:
      go(4, 5);
      break;
    case 0x504:
    case 0x517:
      if (need(3)) {
        int v = r.u8() << 16;
        v |= r.u8() << 8;
        v |= r.u8();
        (key == 0x504 ? line : fill) = v;
      }
      break;
    case 0x516:
      if (need(2))
        interior = r.u16();
      break;
    case 0x51e:
      need(2);
      r.u16();
      break;
    case 0x008:
      if (fig || comp || state != 3)
        d.bad("figure misplaced");
      fig = true;
      have = false;
      break;
    case 0x009:
      if (!fig)
        d.bad("figure end misplaced");
      if (interior != 1)
        d.bad("figure without solid interior");
      fig = false;
      p.paint(d, fill, false);
      break;
    case 0x00f:
      if (fig || comp || state != 3)
        d.bad("compound line misplaced");
      comp = true;
      have = false;
      break;
    case 0x010:
      if (!comp)
        d.bad("compound line end misplaced");
      comp = false;
      p.paint(d, line, true);
      break;
    case 0x401:
    case 0x41a: {
      bool curve = key == 0x41a;
      if (!fig && !comp) {
        d.bad("line outside a figure");
        break;
      }
      if (curve && r.u16() != 2)
        d.bad("curve kind");
      size_t n = (at + len - r.i) / 4;
      if ((at + len - r.i) % 4 || (curve ? n < 4 || n % 3 != 1 : n < 2)) {
        d.bad(fmt("%s of %zu bytes", curve ? "curve" : "line", len));
        break;
      }
      std::vector<Pt> v(n);
      for (auto &q : v) {
        q.x = r.s16();
        q.y = r.s16();
      }
      if (!have || last.x != v[0].x || last.y != v[0].y)
        p.move(v[0].x, v[0].y);
      for (size_t k = 1; k < n; k += curve ? 3 : 1)
        curve ? p.curve(v[k].x, v[k].y, v[k + 1].x, v[k + 1].y, v[k + 2].x, v[k + 2].y) : p.line(v[k].x, v[k].y);
      last = v.back();
      have = true;
      break;
    }
    default:
      d.bad(fmt("element %u.%u", cls, id));
    }
    if (d.err.empty() && r.i != at + len) {
      if (r.i == at && len == 0)
        continue;
      d.bad(fmt("element %u.%u has %zu bytes", cls, id, len));
    }
    if (len % 2 && d.err.empty() && r.u8() != 0)
      d.bad("padding");
  }
  if (d.err.empty()) {
    if (state != 5)
      d.bad("no end");
    else if (!direct)
      d.bad("colours not direct");
    else if (x0 != 0 || y1 != 0) // lower left corner first; y grows downwards in what is drawn
      d.bad(fmt("extent %d,%d to %d,%d", x0, y0, x1, y1));
    d.w = x1;
    d.h = y0;
  }
  return d;
}

// ---- DR2D ----
static double ieee(unsigned u) {
  float f;
  memcpy(&f, &u, 4);
  return f;
}
static Doc read_dr2d(const Bytes &t, const at_splines_type *s, double dpi, double &unit) {
  Doc d;
  Rd r(t, true);
  if (t.compare(0, 4, "FORM") || t.size() < 12 || t.compare(8, 4, "DR2D")) {
    d.bad("no DR2D form");
    return d;
  }
  r.i = 4;
  if (r.u32() != t.size() - 8)
    d.bad("form size");
  r.i = 12;
  std::string order;
  std::vector<int> cmap;
  double box[4] = {0}, attr_thick = 0;
  int have_box = 0, have_attr = 0, fill = 0, fv = 0, ev = 0;
  double sx = 0;
  Pen p;
  while (d.err.empty() && r.i < t.size()) {
    std::string id = t.substr(r.i, 4);
    r.i += 4;
    size_t n = r.u32(), at = r.i;
    if (!r.ok || at + n + n % 2 > t.size()) {
      d.bad("chunk leaves the form");
      break;
    }
    auto need = [&](size_t k) { return n == k ? true : d.bad(fmt("%s has %zu bytes", id.c_str(), n)); };
    if (id == "DRHD") {
      if (!need(16))
        break;
      double v[4];
      for (double &x : v)
        x = ieee(r.u32());
      if (v[0] != 0 || v[1] != 0 || !(v[2] > 0) || !(v[3] > 0))
        d.bad("drawing size");
      // inches per pixel, from the longer side
      sx = s->width > s->height ? v[2] / s->width : v[3] / s->height;
      unit = 2.1 / 1024 / sx;
      d.w = v[2] / sx;
      d.h = v[3] / sx;
      if (fabs(d.w - s->width) > unit || fabs(d.h - s->height) > unit)
        d.bad("drawing proportions");
      order += 'D';
    } else if (id == "PPRF") {
      if (t.compare(at, n, std::string("Units=Inch\0Portrait=", 20) + (s->width < s->height ? "True" : "False") + std::string("\0PageType=A4\0GridSize=1.000000\0", 31)))
        d.bad("page preferences");
      order += 'P';
    } else if (id == "LAYR") {
      if (need(20) && (r.u16() != 0 || (t[at + 18] & 3) != 3))
        d.bad("layer");
      order += 'L';
    } else if (id == "DASH") {
      if (need(4) && (r.u16() != 1 || r.u16() != 0))
        d.bad("dash");
      order += 'A';
    } else if (id == "CMAP") {
      if (n % 3)
        d.bad("colour map size");
      for (size_t k = 0; k + 2 < n; k += 3) {
        int v = r.u8() << 16;
        v |= r.u8() << 8;
        v |= r.u8();
        cmap.push_back(v);
      }
      order += 'C';
    } else if (id == "BBOX") {
      if (!need(16) || (have_box++ && d.bad("two boxes")))
        break;
      for (double &x : box)
        x = ieee(r.u32()) / sx;
    } else if (id == "ATTR") {
      if (!need(14) || (have_attr++ && d.bad("two attributes")))
        break;
      fill = r.u8();
      r.u8();
      r.u8();
      r.u8();
      fv = r.u16();
      ev = r.u16();
      if (r.u16() != 0)
        d.bad("layer of a shape");
      attr_thick = ieee(r.u32());
      if (fabs(attr_thick - 1 / dpi) > 1. / 1024)
        d.bad(fmt("edge of %g inches at %g dpi", attr_thick, dpi));
      if (fv >= (int)cmap.size() || ev >= (int)cmap.size())
        d.bad("colour outside of the map");
    } else if (id == "OPLY" || id == "CPLY") {
      bool stroke = id == "OPLY";
      if (!have_box || !have_attr || order != "DPLAC") {
        d.bad("shape before its attributes");
        break;
      }
      if (fill != (stroke ? 0 : 1))
        d.bad("fill type");
      unsigned cnt = r.u16();
      if (n != 2 + 8ull * cnt) {
        d.bad(fmt("%u points in %zu bytes", cnt, n));
        break;
      }
      bool first = true;
      double b[4] = {1e30, 1e30, -1e30, -1e30};
      auto ext = [&](double x, double y) {
        b[0] = std::min(b[0], x);
        b[1] = std::min(b[1], y);
        b[2] = std::max(b[2], x);
        b[3] = std::max(b[3], y);
      };
      for (unsigned k = 0; k < cnt && d.err.empty(); k++) {
        unsigned x = r.u32(), y = r.u32();
        if (x == 0xffffffff) {
          if (y != 1 || k + 4 >= cnt) {
            d.bad("indicator");
            break;
          }
          double v[8];
          for (double &q : v)
            q = ieee(r.u32()) / sx;
          k += 4;
          if (first)
            p.move(v[0], v[1]);
          else if (!near({v[0], v[1]}, p.at(), 1e-9, 1e-9))
            d.bad("curve starts elsewhere");
          p.curve(v[2], v[3], v[4], v[5], v[6], v[7]);
          ext(v[0], v[1]);
          ext(v[6], v[7]);
        } else {
          double px = ieee(x) / sx, py = ieee(y) / sx;
          if (first)
            p.move(px, py);
          else
            p.line(px, py);
          ext(px, py);
        }
        first = false;
      }
      for (int k = 0; k < 4 && d.err.empty(); k++)
        if (fabs(b[k] - box[k]) > 1e-6 * (1 + fabs(b[k])))
          d.bad(fmt("box %g,%g to %g,%g of a shape from %g,%g to %g,%g", box[0], box[1], box[2], box[3], b[0], b[1], b[2], b[3]));
      if (d.err.empty())
        p.paint(d, stroke ? cmap[ev] : cmap[fv], stroke);
      have_box = have_attr = 0;
    } else
      d.bad("chunk " + id);
    r.i = at + n;
    if (n % 2 && r.u8() != 0)
      d.bad("padding");
  }
  if (d.err.empty() && order != "DPLAC")
    d.bad("chunks " + order);
  if (d.err.empty() && (have_box || have_attr))
    d.bad("shape missing");
  if (d.err.empty() && std::set<int>(cmap.begin(), cmap.end()).size() != cmap.size())
    d.bad("colour twice in the map");
  return d;
}

static int sampled;
static void report(Ctx &c, const char *f, const std::string &what, const std::string &x, const Bytes &o) {
  if (x.empty()) {
    c.trace(1);
    c.nontrivial(mc::hash_str(o));
    if (!sampled++)
      c.sample(fmt("%s as %s: %zu bytes", what.c_str(), f, o.size()));
    return;
  }
  std::string k;
  for (char ch : x)
    if (!isdigit((unsigned char)ch) && k.size() < 30)
      k += ch;
  c.fail(fmt("%s:%s", f, k.c_str()), "%s as %s: %s", what.c_str(), f, x.c_str());
}
// largest absolute coordinate that is written
static double reach(const Traced &t) {
  double r = 0;
  for (auto &h : t.shapes)
    for (auto &p : h.s)
      for (auto &v : p.v)
        r = std::max({r, fabs((double)v.x), fabs(t.h - (double)v.y)});
  return r;
}
static void judge_named(Ctx &c, at_splines_type *s, const std::string &what, const std::string &name, int dpi) {
  Traced t = grab(s);
  c.state(mc::hash_str(t.text() + name));
  at_output_opts_type *oo = at_output_opts_new();
  oo->dpi = dpi;
  const double below1 = 1 - 1e-12; // written as integers: less than one unit off
  bool fits = reach(t) < 32767 && t.w <= 32767 && t.h <= 32767;
  size_t points = 0; // of the longest polygon, as counted by DR2D
  for (auto &h : t.shapes) {
    size_t n = h.s[0].degree == 1;
    for (auto &p : h.s)
      n += p.degree == 1 ? 1 : 5;
    points = std::max(points, n);
  }
  for (int fill : {0, 255}) {
    if (fits) {
      Msgs m;
      stack_fill(fill);
      Bytes o = write_splines("emf", s, m, oo, name.c_str());
      c.step(1);
      Doc d = read_emf(o, name);
      flip(d, t.h);
      std::string x = differs(d, expected(t, s, EACH_BG), below1, 0);
      if (x.empty() && (d.w != t.w || d.h != t.h))
        x = "size";
      report(c, "emf", what, x, o);
    }
    if (fits) {
      Msgs m;
      stack_fill(fill);
      Bytes o = write_splines("cgm", s, m, oo, name.c_str());
      c.step(1);
      Doc d = read_cgm(o, name);
      flip(d, t.h);
      std::string x = differs(d, expected(t, s, EACH_BG), below1, 0);
      if (x.empty() && (d.w != t.w || d.h != t.h))
        x = "size";
      report(c, "cgm", what, x, o);
    }
    {
      Msgs m;
      stack_fill(fill);
      Bytes o = write_splines("dr2d", s, m, oo, name.c_str());
      c.step(1);
      if (points > 65535) {
        if (!m.fatal)
          c.fail("dr2d:points", "%s as dr2d: %zu points without an error", what.c_str(), points);
        continue;
      }
      double unit = 0;
      Doc d = read_dr2d(o, s, dpi, unit);
      flip(d, t.h);
      report(c, "dr2d", what, differs(d, expected(t, s, EACH_BG), unit, 3e-4), o);
    }
  }
  at_output_opts_free(oo);
}
static void judge(Ctx &c, at_splines_type *s, const std::string &what) { judge_named(c, s, what, "some name", 72); }

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C17";
  k.bounds = "every array of up to three shapes over 7 closed and 4 open geometries, 3-5 colours, both orientations, 3 backgrounds, 5 picture sizes, plus the traces of every 3x3 picture enlarged 4 times in 6 modes, 5681 colours, up to 2200 shapes, shapes of up to 22500 pieces, names of 0 to 4095 characters, 11 resolutions; 3 formats";
  array_spaces(k, judge, th);
  k.spaces.push_back({"names", 330 * 4, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned n = p(330), q = p(4);
                        static const unsigned MORE[] = {510, 511, 512, 513, 1000, 1023, 1024, 2047, 4094, 4095};
                        if (n >= 320)
                          n = MORE[n - 320];
                        std::string name;
                        for (unsigned k = 0; k < n; k++)
                          name += q < 3 ? "ax~"[q] : 33 + k % 94;
                        Arr a(10, 7);
                        if (n % 2)
                          a.add(geo(n % NCLOSED), COLS[2], false, false);
                        judge_named(c, a.get(), fmt("name of %u", n), name, 72);
                      }});
  static const int DPI[] = {1, 2, 36, 72, 96, 100, 144, 300, 600, 1000, 1200};
  k.spaces.push_back({"dpi", 11 * (NCLOSED + NOPEN), [](u64 i, Ctx &c) {
                        Pick p(i);
                        int dpi = DPI[p(11)];
                        unsigned g = p(NCLOSED + NOPEN);
                        Arr a(10, 7);
                        a.s.centerline = g >= NCLOSED;
                        a.add(geo(g), COLS[g % 5], false, g >= NCLOSED);
                        judge_named(c, a.get(), fmt("g%u at %d dpi", g, dpi), "n", dpi);
                      }});
  // long shapes
  static const unsigned LEN[] = {100, 1000, 5000, 13000, 22500};
  k.spaces.push_back({"long", 5 * 3, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned n = LEN[p(5)], q = p(3);
                        std::vector<at_spline_type> v;
                        for (unsigned k = 0; k < n; k++) {
                          double x = k * 2 % 29000, y = k % 7, x2 = k + 1 == n ? 0 : (k + 1) * 2 % 29000, y2 = k + 1 == n ? 0 : (k + 1) % 7;
                          if (q == 0 || (q == 2 && k % 3))
                            v.push_back(line(x, y, x2, y2));
                          else
                            v.push_back(cubic(x, y, x + 1, y + 2, x2, y2 + 1, x2, y2));
                        }
                        Arr a(30000, 10);
                        a.add(v, COLS[1], false, false);
                        judge(c, a.get(), fmt("%u pieces", n));
                      },
                      60});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
