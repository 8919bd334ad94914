// C16: formats that flatten curves or know no filling: what the file draws is what the array says.
#include "write.hpp"
#include "aci.inc"
#include <fcntl.h>

struct Poly {
  int rgb = -1, depth = 0;
  bool stroke = false, degenerate = false;
  std::vector<Pt> p;
  std::vector<double> w; // extra value per point
};
struct Polys {
  std::string err;
  double w = -1, h = -1;
  std::vector<Poly> v;
  bool bad(const std::string &e) {
    if (err.empty())
      err = e;
    return false;
  }
};
static double bez(double t, double a, double b, double c, double d) {
  double u = 1 - t;
  return u * u * u * a + 3 * t * u * u * b + 3 * t * t * u * c + t * t * t * d;
}
static Pt at_t(const Sp &s, double t) { return {bez(t, s.v[0].x, s.v[1].x, s.v[2].x, s.v[3].x), bez(t, s.v[0].y, s.v[1].y, s.v[2].y, s.v[3].y)}; }
static Pt P(const at_real_coord &c) { return {c.x, c.y}; }
static int colour_of(const at_splines_type *s, const Shape &h, bool bg) { return bg && h.clockwise && s->background_color ? rgb_of(*s->background_color) : rgb_of(h.color); }
static std::string diff_points(const std::vector<Pt> &a, const std::vector<Pt> &e, double tol) {
  if (a.size() != e.size())
    return fmt("has %zu points instead of %zu", a.size(), e.size());
  for (size_t i = 0; i < a.size(); i++)
    if (!(fabs(a[i].x - e[i].x) <= tol && fabs(a[i].y - e[i].y) <= tol))
      return fmt("point %zu is %g,%g instead of %g,%g", i, a[i].x, a[i].y, e[i].x, e[i].y);
  return "";
}

// ---- FIG ----
static std::string check_fig(const Bytes &t, const at_splines_type *s, const Traced &tr, Msgs &m) {
  std::set<int> colours;
  for (auto &h : tr.shapes)
    colours.insert(colour_of(s, h, true));
  for (int k : {0, 0xff, 0xff00, 0xffff, 0xff0000, 0xff00ff, 0xffff00, 0xffffff})
    colours.erase(k);
  if (m.fatal)
    return colours.size() >= 512 ? "" : "error reported";
  static const char *HEAD = "#FIG 3.2\nLandscape\nCenter\nInches\nLetter\n100.00\nSingle\n-2\n1200 2\n";
  if (!begins(t, HEAD))
    return "malformed: header";
  std::stringstream in(t.substr(strlen(HEAD)));
  std::map<int, int> pal = {{0, 0}, {1, 0xff}, {2, 0xff00}, {3, 0xffff}, {4, 0xff0000}, {5, 0xff00ff}, {6, 0xffff00}, {7, 0xffffff}};
  std::string w;
  size_t n = 0;
  bool objects = false;
  struct Box {
    double x0, x1, y0, y1;
    int depth;
  };
  std::vector<Box> boxes;
  while (in >> w) {
    if (w == "0") {
      int i;
      std::string c;
      if (!(in >> i >> c) || c.size() != 7 || c[0] != '#' || i < 32 || i > 543 || pal.count(i) || objects)
        return "malformed: colour definition";
      pal[i] = strtol(c.c_str() + 1, 0, 16);
      continue;
    }
    objects = true;
    if (w != "2" && w != "3")
      return "malformed: object " + w;
    int sub, style, thick, pen, fill, depth, pstyle, area, join, cap, radius, fwd, back, cnt;
    double sval;
    in >> sub >> style >> thick >> pen >> fill >> depth >> pstyle >> area >> sval;
    if (w == "2")
      in >> join >> cap >> radius >> fwd >> back >> cnt;
    else
      in >> cap >> fwd >> back >> cnt;
    if (!in || cnt < 1 || cnt > 1000000)
      return "malformed: object line";
    std::vector<Pt> p;
    for (int i = 0; i < cnt; i++) {
      int x, y;
      if (!(in >> x >> y))
        return "malformed: points";
      p.push_back({(double)x, (double)y});
    }
    std::vector<double> wt;
    if (w == "3")
      for (int i = 0; i < cnt; i++) {
        double v;
        if (!(in >> v))
          return "malformed: weights";
        wt.push_back(v);
      }
    if (n >= tr.shapes.size())
      return "too many objects";
    const Shape &h = tr.shapes[n];
    std::vector<Pt> e;
    std::vector<double> ew;
    auto put = [&](Pt q, double k) {
      e.push_back({q.x * 15 + 300, (tr.h - q.y) * 15 + 300});
      ew.push_back(k);
    };
    put(P(h.s[0].v[0]), 0);
    bool curved = false;
    for (auto &q : h.s) {
      if (q.degree == 3) {
        curved = true;
        for (int k = 1; k < 5; k++)
          put(at_t(q, k / 5.), -1);
      }
      put(P(q.v[3]), 0);
    }
    bool closes = fabs(e[0].x - e.back().x) < 1e-3 && fabs(e[0].y - e.back().y) < 1e-3;
    if (curved != (w == "3"))
      return fmt("object %zu is of type %s", n, w.c_str());
    bool line = false;
    if (!curved) {
      // lines and points come as open lines without the way back
      std::set<std::pair<long, long>> distinct;
      for (auto &q : p)
        distinct.insert({lround(q.x), lround(q.y)});
      line = distinct.size() <= 2 && sub == 1;
      if (line) {
        if (e.size() > 3 || (e.size() == 3 && !closes && distinct.size() > 1 && cnt != 3))
          return fmt("object %zu reduced to a line", n);
        e.resize(p.size() < e.size() ? p.size() : e.size());
      } else if (sub == 3 && p.size() == e.size() + 1)
        e.push_back(e[0]);
    }
    std::string d = diff_points(p, e, 1.02);
    if (!d.empty())
      return fmt("object %zu ", n) + d;
    if (curved)
      for (size_t i = 0; i < wt.size(); i++)
        if (wt[i] != ew[i])
          return fmt("object %zu weight %zu is %g", n, i, wt[i]);
    if (!pal.count(pen) || !pal.count(fill))
      return fmt("object %zu uses an undefined colour", n);
    int rgb = colour_of(s, h, true);
    if (pal[pen] != rgb || pal[fill] != rgb)
      return fmt("object %zu has colour %06x instead of %06x", n, pal[fill], rgb);
    if (!line) {
      if ((area == -1) != tr.centerline)
        return fmt("object %zu filled %d", n, area);
      if (curved ? sub != (tr.centerline ? 4 : 5) : tr.centerline ? (sub != 1 && sub != 3) : sub != 3)
        return fmt("object %zu subtype %d", n, sub);
      if (tr.centerline && sub == 3 && !closes)
        return fmt("object %zu open line closed", n);
    }
    Box b = {1e9, -1e9, 1e9, -1e9, depth};
    for (auto &q : p) {
      b.x0 = std::min(b.x0, q.x);
      b.x1 = std::max(b.x1, q.x);
      b.y0 = std::min(b.y0, q.y);
      b.y1 = std::max(b.y1, q.y);
    }
    if (depth < 0 || depth > 999)
      return "depth out of range";
    for (size_t i = 0; i < boxes.size() && boxes.size() < 40; i++)
      if (b.x0 < boxes[i].x1 && b.x1 > boxes[i].x0 && b.y0 < boxes[i].y1 && b.y1 > boxes[i].y0 && depth >= boxes[i].depth && depth)
        return fmt("object %zu is not above object %zu, which it overlaps", n, i);
    if (!boxes.empty() && depth > boxes.back().depth)
      return fmt("object %zu is below its predecessor", n);
    boxes.push_back(b);
    n++;
  }
  if (n != tr.shapes.size())
    return fmt("%zu objects instead of %zu", n, tr.shapes.size());
  return "";
}

// ---- MIF ----
static std::string check_mif_dpi(const Bytes &t, const at_splines_type *s, const Traced &tr, double dpi) {
  auto L = lines_of(t);
  size_t i = 0;
  auto at = [&](const char *p) { return i < L.size() && begins(L[i], p); };
  if (!at("<MIFFile 4.00>"))
    return "malformed: header";
  i++;
  if (!at("<Units Upt>"))
    return "malformed: units";
  i++;
  if (!at("<ColorCatalog"))
    return "malformed: catalog";
  i++;
  std::map<std::string, int> cat;
  while (at(" <Color ")) {
    char tag[64];
    int c, m, y, k, used = 0;
    if (sscanf(L[i].c_str(), " <Color <ColorTag %63[^>]><ColorCyan %d><ColorMagenta %d><ColorYellow %d><ColorBlack %d>>%n", tag, &c, &m, &y, &k, &used) != 5 || used != (int)L[i].size())
      return "malformed: colour";
    if (cat.count(tag))
      return "malformed: colour defined twice";
    for (int v : {c, m, y, k})
      if (v < 0 || v > 100)
        return "malformed: share of an ink";
    auto f = [&](int v) { return 1 - std::min(1., (v + k) / 100.); };
    cat[tag] = rgb_of(f(c), f(m), f(y));
    i++;
  }
  if (!(i < L.size() && L[i] == ">"))
    return "malformed: end of catalog";
  i++;
  if (!at("<Frame"))
    return "malformed: frame";
  i++;
  bool rect = false;
  while (i < L.size() && (at(" <Pen") || at(" <Fill") || at(" <Separation") || at(" <BRect"))) {
    double w, h;
    if (at(" <BRect")) {
      if (sscanf(L[i].c_str(), " <BRect 0.0 pt 0.0 pt %lf pt %lf pt>", &w, &h) != 2)
        return "malformed: frame size";
      if (fabs(w - tr.w * 72 / dpi) > .051 || fabs(h - tr.h * 72 / dpi) > .051)
        return fmt("frame of %gx%g", w, h);
      rect = true;
    }
    i++;
  }
  if (!rect)
    return "malformed: no frame size";
  std::map<std::string, int> used_for;
  for (size_t n = 0; n < tr.shapes.size(); n++) {
    const Shape &h = tr.shapes[n];
    bool stroke = tr.centerline || h.open;
    if (!at(stroke ? " <PolyLine <Fill 15><Pen 0>" : " <Polygon <Fill 0><Pen 15>"))
      return fmt("object %zu missing or of the wrong kind", n);
    i++;
    char tag[64];
    if (i >= L.size() || sscanf(L[i].c_str(), "  <ObColor `%63[^']'>", tag) != 1 || !cat.count(tag))
      return fmt("object %zu without a defined colour", n);
    i++;
    int want = colour_of(s, h, true), got = cat[tag];
    // whole percentages: exact for colours of empty and full channels, else within the two roundings
    bool pure = true;
    for (int k = 0; k < 24; k += 8)
      pure = pure && ((want >> k & 255) == 0 || (want >> k & 255) == 255);
    for (int k = 0; k < 24; k += 8)
      if (abs((want >> k & 255) - (got >> k & 255)) > (pure ? 0 : 6))
        return fmt("object %zu has colour %06x instead of %06x", n, got, want);
    if (used_for.count(tag) && used_for[tag] != want)
      return fmt("object %zu shares its colour with another one", n);
    used_for[tag] = want;
    std::vector<Pt> p;
    while (at("  <Point")) {
      double x, y;
      if (sscanf(L[i].c_str(), "  <Point %lf %lf>", &x, &y) != 2)
        return "malformed: point";
      p.push_back({x, y});
      i++;
    }
    if (!at("  <Smoothed No>"))
      return "malformed: smoothing";
    i++;
    if (!at(" >"))
      return "malformed: object end";
    i++;
    double k = 72 / dpi, tol = .0052 + 1e-5 * k + 1e-6 * k * (tr.w + tr.h);
    auto close_to = [&](Pt a, Pt b) { return fabs(a.x - b.x * k) <= tol && fabs(a.y - (tr.h - b.y) * k) <= tol; };
    size_t j = 0;
    auto expect = [&](Pt q, bool opt = false) {
      if (j < p.size() && close_to(p[j], q)) {
        j++;
        return true;
      }
      return opt;
    };
    std::string bad = fmt("object %zu point ", n);
    if (!expect(P(h.s[0].v[0])))
      return bad + fmt("%zu", j);
    for (auto &q : h.s) {
      if (q.degree == 3) {
        for (int r = 1; r < 6; r++)
          if (!expect(at_t(q, r / 7.)))
            return bad + fmt("%zu is %g,%g", j, j < p.size() ? p[j].x : -1, j < p.size() ? p[j].y : -1);
        // the sample at 6/7 is optional, the end point is not
        size_t keep = j;
        if (!(expect(at_t(q, 6 / 7.)) && expect(P(q.v[3])))) {
          j = keep;
          if (!expect(P(q.v[3])))
            return bad + fmt("%zu is not the end of the curve", j);
        }
      } else if (!expect(P(q.v[3])))
        return bad + fmt("%zu is %g,%g", j, j < p.size() ? p[j].x : -1, j < p.size() ? p[j].y : -1);
    }
    if (j != p.size())
      return bad + fmt("%zu is too much", j);
  }
  if (i + 1 != L.size() || L[i] != ">")
    return "malformed: end";
  return "";
}
static std::string check_mif(const Bytes &t, const at_splines_type *s, const Traced &tr, Msgs &m) { return m.fatal ? "error reported" : check_mif_dpi(t, s, tr, 72); }

// ---- DXF: the drawn segments, in order, with the layers' colours ----
static int aci_dist(int rgb, int i) {
  int r = (rgb >> 16) - ACI[i][0], g = (rgb >> 8 & 255) - ACI[i][1], b = (rgb & 255) - ACI[i][2];
  return r * r + g * g + b * b;
}
struct LineSeg {
  Pt a, b;
  int col;
};
static std::string check_dxf(const Bytes &t, const at_splines_type *s, const Traced &tr, Msgs &m) {
  if (m.fatal)
    return "error reported";
  auto L = lines_of(t);
  if (L.size() % 2)
    return "malformed: odd number of lines";
  std::vector<std::pair<int, std::string>> g;
  for (size_t i = 0; i < L.size(); i += 2) {
    char *e;
    long code = strtol(L[i].c_str(), &e, 10);
    if (*e || e == L[i].c_str())
      return "malformed: group code " + L[i];
    size_t b = L[i + 1].find_first_not_of(' ');
    g.push_back({(int)code, b == std::string::npos ? "" : L[i + 1].substr(b)});
  }
  if (g.empty() || g.back() != std::make_pair(0, std::string("EOF")))
    return "malformed: no EOF";
  std::map<std::string, int> layer;
  std::string section, table;
  std::vector<LineSeg> out;
  bool ext = false, sect = false, poly = false;
  std::vector<Pt> run;
  std::string run_layer;
  for (size_t i = 0; i < g.size();) {
    if (g[i].first != 0)
      return "malformed: group without entity";
    std::string name = g[i].second;
    std::vector<std::pair<int, std::string>> a;
    size_t k = i + 1;
    while (k < g.size() && g[k].first != 0)
      a.push_back(g[k++]);
    auto val = [&](int code) {
      for (auto &x : a)
        if (x.first == code)
          return x.second;
      return std::string();
    };
    i = k;
    if (name == "SECTION") {
      if (sect)
        return "malformed: nested section";
      sect = true;
      section = val(2);
      if (section == "HEADER") {
        double x = -1, y = -1;
        std::string var;
        for (auto &v : a) {
          if (v.first == 9)
            var = v.second;
          if (var == "$EXTMAX" && v.first == 10)
            number(v.second, x);
          if (var == "$EXTMAX" && v.first == 20)
            number(v.second, y);
        }
        ext = x == tr.w && y == tr.h;
      }
    } else if (name == "ENDSEC") {
      if (!sect || poly)
        return "malformed: section end";
      sect = false;
    } else if (name == "TABLE" || name == "ENDTAB")
      ;
    else if (name == "LAYER") {
      if (layer.count(val(2)))
        return "malformed: layer twice";
      layer[val(2)] = atoi(val(62).c_str());
    } else if (name == "POLYLINE") {
      if (poly || section != "ENTITIES" || val(66) != "1")
        return "malformed: polyline";
      poly = true;
      run.clear();
      run_layer = val(8);
      if (!layer.count(run_layer))
        return "malformed: undefined layer " + run_layer;
    } else if (name == "VERTEX") {
      double x, y;
      if (!poly || !number(val(10), x) || !number(val(20), y))
        return "malformed: vertex";
      if (val(8) != run_layer)
        return "vertex on another layer than its polyline";
      if (!run.empty())
        out.push_back({run.back(), {x, y}, layer[run_layer]});
      run.push_back({x, y});
    } else if (name == "SEQEND") {
      if (!poly)
        return "malformed: end of a polyline that never began";
      if (run.size() < 2)
        return "malformed: polyline of one vertex";
      poly = false;
    } else if (name == "EOF") {
      if (i != g.size() || sect)
        return "malformed: EOF";
    } else
      return "malformed: entity " + name;
  }
  if (!ext)
    return "drawing limits";
  std::vector<LineSeg> e;
  for (auto &h : tr.shapes) {
    int c = colour_of(s, h, true);
    Pt at = P(h.s[0].v[0]);
    for (auto &q : h.s) {
      if (q.degree == 3) {
        double len = 0;
        for (int k = 0; k < 3; k++)
          len += hypot(q.v[k + 1].x - q.v[k].x, q.v[k + 1].y - q.v[k].y);
        long n = std::max(1l, lround(len));
        if (fabs(len - (floor(len) + .5)) < .001)
          return ""; // the number of pieces is decided by rounding
        for (long k = 1; k <= n; k++) {
          Pt b = k == n ? P(q.v[3]) : at_t(q, (double)k / n);
          e.push_back({at, b, c});
          at = b;
        }
      } else {
        e.push_back({at, P(q.v[3]), c});
        at = P(q.v[3]);
      }
    }
  }
  if (out.size() != e.size())
    return fmt("%zu lines drawn instead of %zu", out.size(), e.size());
  int best_rgb = -1, best = 0;
  for (size_t i = 0; i < e.size(); i++) {
    if (!near(out[i].a, e[i].a, 2e-4, 1e-6) || !near(out[i].b, e[i].b, 2e-4, 1e-6))
      return fmt("line %zu goes %g,%g-%g,%g instead of %g,%g-%g,%g", i, out[i].a.x, out[i].a.y, out[i].b.x, out[i].b.y, e[i].a.x, e[i].a.y, e[i].b.x, e[i].b.y);
    if (e[i].col != best_rgb) {
      best_rgb = e[i].col;
      best = 1 << 30;
      for (int k = 0; k < 255; k++)
        best = std::min(best, aci_dist(best_rgb, k));
    }
    if (out[i].col < 1 || out[i].col > 255 || aci_dist(best_rgb, out[i].col - 1) != best)
      return fmt("line %zu has colour number %d, not the closest to %06x", i, out[i].col, best_rgb);
  }
  return "";
}

// ---- HPGL ----
static std::string check_plt(const Bytes &t, const at_splines_type *, const Traced &tr, Msgs &m) {
  if (m.fatal)
    return "error reported";
  static const int PEN[] = {0x000000, 0xff0000, 0x00ff00, 0xffff00, 0x0000ff, 0xb80080, 0x00ffff, 0xff8400};
  std::stringstream in(t);
  std::string c;
  std::vector<std::string> cmd;
  while (std::getline(in, c, ';'))
    cmd.push_back(c);
  if (t.empty() || t.back() != ';')
    return "malformed: end";
  size_t i = 0;
  int a, b, x, y;
  if (cmd.size() < 4 || cmd[0] != "IN" || sscanf(cmd[1].c_str(), "IP %d %d %d %d", &a, &b, &x, &y) != 4)
    return "malformed: header";
  double sc = 1016. / 120;
  if (a || b || abs(x - (int)(tr.w * sc)) > 1 || abs(y - (int)(tr.h * sc)) > 1)
    return "plot limits";
  if (sscanf(cmd[2].c_str(), "SC %d %d %d %d", &a, &x, &b, &y) != 4 || a || b || x != (int)tr.w || y != (int)tr.h)
    return "scale";
  i = 3;
  int pen = 0;
  auto near1 = [](double got, double want) { return fabs(got - want) < 1.001; };
  for (size_t n = 0; n < tr.shapes.size(); n++) {
    const Shape &h = tr.shapes[n];
    while (i < cmd.size() && sscanf(cmd[i].c_str(), "SP%d", &a) == 1) {
      pen = a;
      i++;
    }
    int rgb = rgb_of(h.color), best = 1 << 30;
    auto dist = [&](int k) {
      int r = (rgb >> 16) - (PEN[k] >> 16), g = (rgb >> 8 & 255) - (PEN[k] >> 8 & 255), u = (rgb & 255) - (PEN[k] & 255);
      return r * r + g * g + u * u;
    };
    for (int k = 0; k < 8; k++)
      best = std::min(best, dist(k));
    if (pen < 1 || pen > 8 || dist(pen - 1) != best)
      return fmt("shape %zu with pen %d, not the closest to %06x", n, pen, rgb);
    std::vector<Pt> e = {P(h.s[0].v[0])};
    for (auto &q : h.s)
      for (int k = 1; k <= (q.degree == 3 ? 7 : 1); k++)
        e.push_back(k == 7 || q.degree == 1 ? P(q.v[3]) : at_t(q, k / 7.));
    for (size_t k = 0; k < e.size(); k++, i++) {
      if (i >= cmd.size() || sscanf(cmd[i].c_str(), k ? "PD%d %d" : "PU%d %d", &x, &y) != 2)
        return fmt("shape %zu point %zu missing", n, k);
      if (!near1(x, e[k].x) || !near1(y, e[k].y))
        return fmt("shape %zu point %zu is %d,%d instead of %g,%g", n, k, x, y, e[k].x, e[k].y);
    }
  }
  // the pen is up at the end
  if (i + 1 != cmd.size() || sscanf(cmd[i].c_str(), "PU%d %d", &x, &y) != 2)
    return "something drawn after the last shape";
  return "";
}

// ---- ILDA: lit segments ----
static std::string check_ild(const Bytes &t, const at_splines_type *, const Traced &tr, Msgs &m) {
  size_t i = 0;
  auto b = [&](size_t o) { return (unsigned)(unsigned char)t[o]; };
  auto need = [&](size_t n) { return i + n <= t.size(); };
  // expected lit segments
  struct S {
    long x, y;
  };
  std::vector<std::pair<S, int>> lit; // end points of the lit pieces; rgb < 0: a start
  double sc = 65535. / std::max(tr.w, tr.h);
  u64 samples = 0;
  auto put = [&](Pt q, int rgb) {
    auto cl = [](double v) { return lrint(std::max(-32768., std::min(32767., v))); };
    lit.push_back({{cl((q.x - tr.w / 2.) * sc), cl((q.y - tr.h / 2.) * sc)}, rgb});
    samples++;
  };
  for (auto &h : tr.shapes)
    for (auto &q : h.s)
      for (auto &v : q.v)
        if (v.x < -.5 * tr.w - 1 || v.y < -.5 * tr.h - 1 || v.x > 1.5 * tr.w + 1 || v.y > 1.5 * tr.h + 1)
          return ""; // far outside the picture: cut off
  for (auto &h : tr.shapes) {
    int rgb = rgb_of(h.color);
    for (auto &q : h.s) {
      double len = 0, raw = 0;
      if (q.degree == 1)
        raw = hypot(q.v[3].x - q.v[0].x, q.v[3].y - q.v[0].y) * sc, len = rint(raw);
      else
        for (int k = 0; k < 3; k++) {
          raw = hypot(q.v[k + 1].x - q.v[k].x, q.v[k + 1].y - q.v[k].y) * sc;
          len += rint(raw);
        }
      if (fmod(len + 2, 800) <= 4 && len > 700)
        return m.fatal ? "error reported" : ""; // the number of pieces is decided by rounding
      long n = len < 800 ? 1 : (long)(len / 800);
      put(P(q.v[0]), -1);
      for (long k = 1; k <= n; k++) {
        double u = (double)k / n;
        put(q.degree == 1 ? Pt{(1 - u) * q.v[0].x + u * q.v[3].x, (1 - u) * q.v[0].y + u * q.v[3].y} : at_t(q, u), rgb);
      }
    }
  }
  if (m.fatal)
    return samples > 20000 ? "" : "error reported";
  // true colour block
  if (!need(16) || t.compare(0, 4, "ILDA") || b(7) != 3 || b(4) || b(5) || b(6))
    return "malformed: colour header";
  auto be = [&](size_t o, int n) {
    unsigned v = 0;
    for (int k = 0; k < n; k++)
      v = v << 8 | b(o + k);
    return v;
  };
  unsigned len = be(8, 4), cnt = be(12, 4);
  if (len != cnt * 3 + 4)
    return "malformed: colour block length";
  i = 16;
  if (!need((size_t)cnt * 3))
    return "malformed: colours missing";
  size_t col = i;
  i += (size_t)cnt * 3;
  if (!need(32) || t.compare(i, 4, "ILDA") || be(i + 4, 4) != 1)
    return "malformed: frame header";
  if (be(i + 24, 2) != cnt)
    return fmt("frame announces %u points, %u have colours", be(i + 24, 2), cnt);
  if (be(i + 26, 2) != 0 || be(i + 28, 2) != 1)
    return "malformed: frame number";
  i += 32;
  if (!need((size_t)cnt * 6))
    return "malformed: points missing";
  size_t pts = i;
  i += (size_t)cnt * 6;
  if (!need(32) || t.compare(i, 4, "ILDA") || be(i + 4, 4) != 1 || be(i + 24, 2) != 0 || i + 32 != t.size())
    return "malformed: end";
  if (!cnt)
    return "malformed: empty frame";
  size_t e = 0;
  long px = 0, py = 0, lx = 0, ly = 0; // beam; last expected position
  for (unsigned k = 0; k < cnt; k++) {
    long x = (short)be(pts + k * 6, 2), y = (short)be(pts + k * 6 + 2, 2);
    unsigned st = b(pts + k * 6 + 4);
    int rgb = be(col + k * 3, 3);
    if (((st & 0x80) != 0) != (k + 1 == cnt))
      return "malformed: last point flag";
    bool on = !(st & 0x40);
    if (on && (labs(x - px) > 0 || labs(y - py) > 0)) {
      // the next expected lit piece
      while (e < lit.size() && (lit[e].second < 0 || lit[e].second == 0 || (labs(lit[e].first.x - lx) <= 1 && labs(lit[e].first.y - ly) <= 1))) {
        lx = lit[e].first.x;
        ly = lit[e].first.y;
        e++;
      }
      if (labs(px - lx) <= 1 && labs(py - ly) <= 1 && labs(x - lx) <= 1 && labs(y - ly) <= 1)
        ; // a jitter of one unit
      else {
        if (e >= lit.size())
          return fmt("lit line to %ld,%ld after the picture is complete", x, y);
        if (labs(px - lx) > 1 || labs(py - ly) > 1 || labs(x - lit[e].first.x) > 1 || labs(y - lit[e].first.y) > 1)
          return fmt("lit line %ld,%ld-%ld,%ld instead of %ld,%ld-%ld,%ld", px, py, x, y, lx, ly, lit[e].first.x, lit[e].first.y);
        if (rgb != lit[e].second)
          return fmt("lit line with colour %06x instead of %06x", rgb, lit[e].second);
        lx = lit[e].first.x;
        ly = lit[e].first.y;
        e++;
      }
    }
    px = x;
    py = y;
  }
  for (; e < lit.size(); e++) {
    if (lit[e].second > 0 && (labs(lit[e].first.x - lx) > 1 || labs(lit[e].first.y - ly) > 1))
      return "lines missing at the end";
    lx = lit[e].first.x;
    ly = lit[e].first.y;
  }
  if (px || py)
    return "beam does not return to the centre";
  return "";
}

// ---- Elastic Reality ----
static std::string check_er(const Bytes &t, const at_splines_type *s, const Traced &tr, Msgs &m) {
  if (m.fatal)
    return "error reported";
  auto L = lines_of(t);
  size_t i = 0;
  auto next = [&]() -> std::string {
    while (i < L.size()) {
      std::string l = L[i++];
      size_t b = l.find_first_not_of("\t ");
      if (b == std::string::npos || l[b] == '#')
        continue;
      return l.substr(b);
    }
    return "";
  };
  if (!begins(t, "#Elastic Reality Shape File\n"))
    return "malformed: header";
  int w, h;
  if (next() != "ImageSize = {" || sscanf(next().c_str(), "Width = %d", &w) != 1 || sscanf(next().c_str(), "Height = %d", &h) != 1 || next() != "}")
    return "malformed: size";
  if (w != (int)tr.w || h != (int)tr.h)
    return fmt("size %dx%d", w, h);
  for (size_t n = 0; n < tr.shapes.size(); n++) {
    const Shape &sh = tr.shapes[n];
    if (next() != "Shape = {")
      return fmt("shape %zu missing", n);
    std::map<std::string, std::string> kv;
    std::map<std::string, std::vector<double>> key;
    for (;;) {
      std::string l = next();
      if (l == "}")
        break;
      if (l.empty())
        return "malformed: shape not closed";
      size_t q = l.find(" = ");
      if (q == std::string::npos)
        return "malformed: " + l;
      std::string k = l.substr(0, q), v = l.substr(q + 3);
      if (v != "{") {
        kv[k] = v;
        continue;
      }
      if (next() != "Frame = 1" || next() != "PointList = {")
        return "malformed: key " + k;
      for (;;) {
        l = next();
        if (l == "}")
          break;
        if (l.empty())
          return "malformed: point list";
        for (char &c : l)
          if (c == '(' || c == ')' || c == ',')
            c = ' ';
        std::stringstream ss(l);
        std::string x;
        double d;
        while (ss >> x) {
          if (!number(x, d))
            return "malformed: number " + x;
          key[k].push_back(d);
        }
      }
      if (next() != "}")
        return "malformed: key not closed";
    }
    // rational cubic pieces through the announced points
    bool single = sh.open || sh.s.size() == 1;
    size_t pts = sh.s.size() + (single ? 1 : 0);
    if (kv["Closed"] != (sh.open ? "False" : "True"))
      return fmt("shape %zu closed %s", n, kv["Closed"].c_str());
    if (kv["BPoints"] != fmt("%zu", pts) || key["FormKey"].size() != pts * 6)
      return fmt("shape %zu announces %s points and has %zu numbers", n, kv["BPoints"].c_str(), key["FormKey"].size());
    std::vector<at_real_coord> e; // in, point, out
    for (size_t k = 0; k < pts; k++) {
      const Sp *cur = k < sh.s.size() ? &sh.s[k] : nullptr;
      const Sp *prev = k ? &sh.s[k - 1] : single ? nullptr : &sh.s.back();
      at_real_coord p = cur ? cur->v[0] : prev->v[3];
      e.push_back(prev && prev->degree == 3 ? prev->v[2] : p);
      e.push_back(p);
      e.push_back(cur && cur->degree == 3 ? cur->v[1] : p);
    }
    for (size_t k = 0; k < e.size(); k++) {
      double x = key["FormKey"][2 * k] * tr.w, y = key["FormKey"][2 * k + 1] * tr.h;
      if (fabs(x - e[k].x) > .6e-6 * tr.w + 1e-6 * fabs(e[k].x) || fabs(y - e[k].y) > .6e-6 * tr.h + 1e-6 * fabs(e[k].y))
        return fmt("shape %zu point %zu is %g,%g instead of %g,%g", n, k, x, y, e[k].x, e[k].y);
    }
    if (tr.centerline && s->preserve_width) {
      if (key["WeightKey"].size() != e.size())
        return fmt("shape %zu has %zu widths", n, key["WeightKey"].size());
      for (size_t k = 0; k < e.size(); k++)
        if (fabs(key["WeightKey"][k] - e[k].z / s->width_weight_factor) > 1e-5 * (1 + fabs(e[k].z)))
          return fmt("shape %zu width %zu is %g instead of %g", n, k, key["WeightKey"][k], e[k].z / s->width_weight_factor);
    } else if (key.count("WeightKey"))
      return "widths not asked for";
    auto &c = key["CorrKey"];
    if (kv["CPoints"] != fmt("%zu", c.size()))
      return "correspondence count";
    for (size_t k = 0; k < c.size(); k++)
      if (c[k] < 0 || c[k] > pts || (k && c[k] < c[k - 1]))
        return "correspondence points";
  }
  if (!next().empty())
    return "something after the last shape";
  return "";
}

// A cubic as two quadratics: they meet on the curve at its twist, or halfway, and share the tangents there and at the ends.
struct Quad {
  Pt f, e, g;
  bool unsure = false;
};
static Quad quadratics(Pt a, Pt b, Pt c, Pt d) {
  Quad q;
  double t = .5;
  auto twist = [&](double a, double b, double c, double d, double &t) {
    double n = -a + 2 * b - c, m = -a + 3 * b - 3 * c + d;
    if (m < 0)
      n = -n, m = -m;
    if (fabs(n - .001) < 1e-7 || fabs(n - m) < 1e-9 || fabs(m) < 1e-9)
      q.unsure = q.unsure || (n > .0009 && n < m + 1e-8);
    if (n > .001 && n < m) {
      t = n / m;
      return true;
    }
    return false;
  };
  if (!twist(a.x, b.x, c.x, d.x, t))
    twist(a.y, b.y, c.y, d.y, t);
  q.e = {bez(t, a.x, b.x, c.x, d.x), bez(t, a.y, b.y, c.y, d.y)};
  double u = 1 - t;
  auto der = [&](double a, double b, double c, double d) { return 3 * (-a * u * u + b * u * (1 - 3 * t) + c * t * (2 - 3 * t) + d * t * t); };
  Pt tan = {der(a.x, b.x, c.x, d.x), der(a.y, b.y, c.y, d.y)};
  auto meet = [&](Pt p, Pt r) { // where the ray from p through r meets the tangent
    double x = r.x - p.x, y = r.y - p.y, len = (x * x + y * y) * (tan.x * tan.x + tan.y * tan.y), det = x * tan.y - y * tan.x;
    if (fabs(len - 1) < 1e-6 || fabs(det * det * 4e6 - len) < 1e-4 * len)
      q.unsure = true;
    if (len < 1 || det * det * 4e6 < len)
      return q.e;
    double s = std::max(0., ((q.e.x - p.x) * tan.y - (q.e.y - p.y) * tan.x) / det);
    return Pt{p.x + s * x, p.y + s * y};
  };
  q.f = meet(a, b);
  q.g = meet(d, c);
  for (double v : {q.e.x, q.e.y, q.f.x, q.f.y, q.g.x, q.g.y})
    if (fabs(v - floor(v) - .5) < 1e-6 * (1 + fabs(v)) || fabs(v) > 1e9)
      q.unsure = true;
  return q;
}

// ---- UGS: quadratic glyph outlines on the integer grid ----
static std::string check_ugs(const Bytes &t, const at_splines_type *, const Traced &tr, Msgs &m) {
  if (m.fatal)
    return "error reported";
  auto L = lines_of(t);
  size_t i = 0;
  if (L.size() < 9 || !begins(L[0], "symbol ") || !begins(L[1], "\tadvance-width ") || L[2] != "\tcontour")
    return "malformed: header";
  i = 3;
  long lox = 0, loy = 0, hix = 0, hiy = 0;
  for (size_t n = 0; n < tr.shapes.size(); n++) {
    const Shape &sh = tr.shapes[n];
    if (i >= L.size() || L[i++] != "\t\tpath")
      return fmt("path %zu missing", n);
    struct D {
      bool on;
      Pt p;
    };
    std::vector<D> d;
    while (i < L.size() && L[i] != "\t\tend path") {
      int x, y, used = 0;
      bool on = begins(L[i], "\t\t\tdot-on ");
      if (sscanf(L[i].c_str(), on ? "\t\t\tdot-on %d %d%n" : "\t\t\tdot-off %d %d%n", &x, &y, &used) != 2 || used != (int)L[i].size())
        return "malformed: " + L[i];
      d.push_back({on, {(double)x, (double)y}});
      lox = std::min(lox, (long)x);
      loy = std::min(loy, (long)y);
      hix = std::max(hix, (long)x);
      hiy = std::max(hiy, (long)y);
      i++;
    }
    i++;
    if (d.empty() || !d[0].on)
      return "malformed: path start";
    size_t k = 0;
    auto grid = [](Pt q) { return Pt{(double)lround(q.x), (double)lround(q.y)}; };
    auto same = [](Pt a, Pt b) { return a.x == b.x && a.y == b.y; };
    auto dot = [&](Pt q, bool on) { return k < d.size() && d[k].on == on && fabs(d[k].p.x - q.x) <= .5001 + 1e-6 * fabs(q.x) && fabs(d[k].p.y - q.y) <= .5001 + 1e-6 * fabs(q.y) ? (k++, true) : false; };
    std::string where = fmt("path %zu ", n);
    Pt at = P(sh.s[0].v[0]);
    if (!dot(at, true))
      return where + "start";
    for (auto &q : sh.s) {
      Pt end = P(q.v[3]);
      if (q.degree == 1) {
        if (!same(grid(at), grid(end)) && !dot(end, true))
          return where + fmt("line to %g,%g missing at point %zu", end.x, end.y, k);
        at = end;
        continue;
      }
      Quad z = quadratics(at, P(q.v[1]), P(q.v[2]), end);
      if (z.unsure)
        return "";
      if (!same(grid(z.f), grid(at)) && !same(grid(z.f), grid(z.e)) && !dot(z.f, false))
        return where + fmt("control point %g,%g missing at point %zu", z.f.x, z.f.y, k);
      if (!dot(z.e, true))
        return where + fmt("point %zu is not %g,%g in the middle of the curve", k, z.e.x, z.e.y);
      if (!same(grid(z.g), grid(z.e)) && !same(grid(z.g), grid(end)) && !dot(z.g, false))
        return where + fmt("control point %g,%g missing at point %zu", z.g.x, z.g.y, k);
      if (!dot(end, true))
        return where + fmt("point %zu is not the end %g,%g of the curve", k, end.x, end.y);
      at = end;
    }
    if (k != d.size())
      return where + "has points too many";
  }
  if (i >= L.size() || L[i++] != "\tend contour")
    return "malformed: end of contour";
  long lb, rb, as, de;
  if (i + 5 > L.size() || sscanf(L[i].c_str(), "\tleft-bearing %ld", &lb) != 1 || sscanf(L[i + 1].c_str(), "\tright-bearing %ld", &rb) != 1 || sscanf(L[i + 2].c_str(), "\tascend %ld", &as) != 1 || sscanf(L[i + 3].c_str(), "\tdescend %ld", &de) != 1 || L[i + 4] != "end symbol")
    return "malformed: metrics";
  if (lb != lox || de != loy || rb != -hix - 1 || as != hiy + 1)
    return fmt("metrics %ld %ld %ld %ld instead of %ld %ld %ld %ld", lb, rb, as, de, lox, -hix - 1, hiy + 1, loy);
  return "";
}

struct Fmt {
  const char *name;
  std::string (*check)(const Bytes &, const at_splines_type *, const Traced &, Msgs &);
};
static const Fmt FMTS[] = {{"fig", check_fig}, {"mif", check_mif}, {"dxf", check_dxf}, {"plt", check_plt}, {"ild", check_ild}, {"er", check_er}, {"ugs", check_ugs}};

static void quiet() { // one writer talks to the standard output
  static bool done;
  if (!done) {
    fflush(stdout);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
    done = true;
  }
}
static int c_sampled;
static void report(Ctx &c, const char *f, const std::string &what, const std::string &x, size_t size) {
  if (!x.empty()) {
    std::string k; // numbers left out
    for (char ch : x)
      if (!isdigit((unsigned char)ch) && k.size() < 30)
        k += ch;
    c.fail(fmt("%s:%s", f, k.c_str()), "%s as %s: %s", what.c_str(), f, x.c_str());
  } else {
    c.trace(1);
    if (!c_sampled++)
      c.sample(fmt("%s as %s: %zu bytes", what.c_str(), f, size));
  }
}
static void judge(Ctx &c, at_splines_type *s, const std::string &what) {
  quiet();
  Traced t = grab(s);
  c.state(mc::hash_str(t.text()));
  for (auto &f : FMTS) {
    Msgs m;
    stack_fill(0);
    Bytes o = write_splines(f.name, s, m);
    c.step(1);
    std::string x = f.check(o, s, t, m);
    report(c, f.name, what, x, o.size());
    if (x.empty())
      c.nontrivial(mc::hash_str(o));
  }
}
static const unsigned NHIST = 9;
static void fill_hist(Arr &a, unsigned n) {
  switch (n) {
  case 0: // nothing
    break;
  case 1:
  case 2:
    a.add(geo(n), COLS[n], false, false);
    break;
  case 3:
    a.add({line(0, 0, 300, 0), line(300, 0, 300, 200), line(300, 200, 0, 0)}, COLS[3], false, false);
    a.add(geo(2), COLS[1], false, false);
    break;
  case 4: // a hole
    a.background(0x5a96c3);
    a.add(geo(0), COLS[1], false, false);
    a.add(geo(1), COLS[1], true, false);
    break;
  case 5:
  case 6:
    a.s.centerline = true;
    a.s.preserve_width = n == 6;
    a.add(geo(NCLOSED + n - 5), COLS[4], false, true);
    a.add(geo(NCLOSED + 2), COLS[2], false, true);
    break;
  default: // many colours, and more than some formats have
    for (unsigned q = 0; q < (n == 7 ? 40u : 600u); q++)
      a.add(geo(q % NCLOSED), q * 2654435761u >> 8, false, false);
  }
}
static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C16";
  k.bounds = "every array of up to three shapes over 7 closed and 4 open geometries, 3-5 colours, both orientations, 3 backgrounds, 5 picture sizes, plus the traces of every 3x3 picture enlarged 4 times in 6 modes, a grid of 5681 colours and up to 2200 shapes, every pair of nine arrays one after the other; 7 formats";
  array_spaces(k, judge, th);
  // resolutions
  static const int DPI[] = {1, 36, 71, 72, 73, 96, 144, 300, 600, 1200, 2540};
  k.spaces.push_back({"dpi", 11 * (NCLOSED + NOPEN) * 2, [](u64 i, Ctx &c) {
                        Pick p(i);
                        int dpi = DPI[p(11)];
                        unsigned g = p(NCLOSED + NOPEN), z = p(2);
                        Arr a(z ? 300 : 10, z ? 200 : 7);
                        a.s.centerline = g >= NCLOSED;
                        a.add(geo(g), COLS[g % 5], false, g >= NCLOSED);
                        at_output_opts_type *o = at_output_opts_new();
                        o->dpi = dpi;
                        Msgs m;
                        Bytes b = write_splines("mif", a.get(), m, o);
                        at_output_opts_free(o);
                        c.step(1);
                        c.state(mc::hash_str(b));
                        report(c, "mif", fmt("g%u at %d dpi", g, dpi), check_mif_dpi(b, a.get(), grab(a.get()), dpi), b.size());
                      }});
  // the bytes after one array and after another one, be it one that a format cannot hold
  k.spaces.push_back({"history", 7 * NHIST * NHIST, [](u64 i, Ctx &c) {
                        Pick p(i);
                        static const char *F[7] = {"fig", "mif", "dxf", "plt", "ild", "er", "ugs"};
                        const char *f = F[p(7)];
                        unsigned x = p(NHIST), y = p(NHIST);
                        auto wr = [&](unsigned n) {
                          Arr a(n == 3 ? 300 : 10, n == 3 ? 200 : 7);
                          fill_hist(a, n);
                          Msgs m;
                          c.step(1);
                          return write_splines(f, a.get(), m);
                        };
                        wr(1);
                        Bytes want = wr(y);
                        wr(x);
                        Bytes got = wr(y);
                        c.trace(1);
                        c.state(mc::hash_str(got));
                        if (want != got)
                          c.fail(fmt("%s:history", f), "%s: array %u after array %u is written otherwise than after array 1", f, y, x);
                        else if (x != y)
                          c.nontrivial(mc::hash_str(got, x));
                      },
                      60});
  return k;
}
int main(int argc, char **argv) {
  setenv("AT_DATE_ZERO", "yes", 1);
  return mc::run_main(argc, argv, build);
}
