// C15: formats that keep the curves: what the file paints is what the array says.
#include "write.hpp"

// ---- SVG ----
static bool path_data(const std::string &d, Pen &pen, std::string &err) {
  size_t i = 0;
  auto num = [&](double &v) {
    while (i < d.size() && (d[i] == ' ' || d[i] == ',' || d[i] == '\n'))
      i++;
    size_t b = i;
    if (i < d.size() && (d[i] == '-' || d[i] == '+'))
      i++;
    while (i < d.size() && (isdigit((unsigned char)d[i]) || d[i] == '.'))
      i++;
    if (i < d.size() && i > b && d[i] == 'e') {
      i++;
      if (i < d.size() && (d[i] == '-' || d[i] == '+'))
        i++;
      while (i < d.size() && isdigit((unsigned char)d[i]))
        i++;
    }
    return number(d.substr(b, i - b), v);
  };
  while (i < d.size()) {
    char c = d[i++];
    double a[6];
    int n = c == 'M' || c == 'L' ? 2 : c == 'C' ? 6 : 0;
    for (int k = 0; k < n; k++)
      if (!num(a[k])) {
        err = fmt("bad number after %c", c);
        return false;
      }
    bool ok = true;
    if (c == 'M')
      pen.move(a[0], a[1]);
    else if (c == 'L')
      ok = pen.line(a[0], a[1]);
    else if (c == 'C')
      ok = pen.curve(a[0], a[1], a[2], a[3], a[4], a[5]);
    else if (c == 'z' || c == 'Z')
      pen.close();
    else if (!isspace((unsigned char)c)) {
      err = fmt("path command %c", c);
      return false;
    }
    if (!ok) {
      err = "segment without a start";
      return false;
    }
  }
  return true;
}
static Doc read_svg(const Bytes &t) {
  Doc d;
  size_t i = 0;
  int depth = 0;
  bool root = false;
  while (i < t.size()) {
    if (t[i] != '<') {
      if (!isspace((unsigned char)t[i])) {
        d.bad(fmt("text '%c' outside an element", t[i]));
        return d;
      }
      i++;
      continue;
    }
    size_t e = t.find('>', i);
    if (e == Bytes::npos) {
      d.bad("unterminated tag");
      return d;
    }
    std::string tag = t.substr(i + 1, e - i - 1);
    i = e + 1;
    if (tag[0] == '?') {
      if (tag.back() != '?')
        d.bad("declaration");
      continue;
    }
    if (tag == "/svg") {
      if (depth != 1)
        d.bad("nesting");
      depth--;
      continue;
    }
    bool self = tag.back() == '/';
    if (self)
      tag.pop_back();
    size_t q = tag.find_first_of(" \n\t");
    std::string name = tag.substr(0, q);
    std::map<std::string, std::string> at;
    while (q != std::string::npos && q < tag.size()) {
      while (q < tag.size() && isspace((unsigned char)tag[q]))
        q++;
      if (q >= tag.size())
        break;
      size_t eq = tag.find('=', q);
      if (eq == std::string::npos || eq + 1 >= tag.size() || tag[eq + 1] != '"') {
        d.bad("attribute syntax");
        return d;
      }
      size_t en = tag.find('"', eq + 2);
      if (en == std::string::npos) {
        d.bad("attribute not closed");
        return d;
      }
      std::string an = tag.substr(q, eq - q);
      if (at.count(an))
        d.bad("attribute twice");
      at[an] = tag.substr(eq + 2, en - eq - 2);
      q = en + 1;
    }
    if (name == "svg") {
      if (root || self)
        d.bad("root element");
      root = true;
      depth++;
      if (!number(at["width"], d.w) || !number(at["height"], d.h) || at["xmlns"] != "http://www.w3.org/2000/svg")
        d.bad("root attributes");
    } else if (name == "path") {
      if (!self || depth != 1)
        d.bad("path element");
      std::map<std::string, std::string> st;
      std::stringstream ss(at["style"]);
      std::string p;
      while (std::getline(ss, p, ';')) {
        p.erase(std::remove(p.begin(), p.end(), ' '), p.end());
        size_t k = p.find(':');
        if (k != std::string::npos)
          st[p.substr(0, k)] = p.substr(k + 1);
        else if (!p.empty())
          d.bad("style");
      }
      auto col = [](const std::string &s) { return s.size() == 7 && s[0] == '#' && s.find_first_not_of("0123456789abcdefABCDEF", 1) == std::string::npos ? (int)strtol(s.c_str() + 1, 0, 16) : -1; };
      bool stroke = st["fill"] == "none";
      if (!stroke && st["stroke"] != "none")
        d.bad("path is neither only filled nor only stroked");
      int rgb = col(st[stroke ? "stroke" : "fill"]);
      if (rgb < 0)
        d.bad("colour " + at["style"]);
      Pen pen;
      std::string err;
      if (!path_data(at["d"], pen, err))
        d.bad(err);
      pen.paint(d, rgb, stroke);
    } else
      d.bad("element " + name);
  }
  if (!root || depth)
    d.bad("no complete root element");
  flip(d, d.h);
  return d;
}

// ---- PostScript: a small interpreter ----
struct Obj {
  enum K { NUM, BOOL, NAME, LIT, PROC, MARK } k = NUM;
  double n = 0;
  std::string s;
  std::vector<Obj> p;
};
struct PS {
  Doc d;
  std::vector<std::string> tok;
  std::vector<Obj> st;
  std::map<std::string, Obj> dict;
  Pen pen;
  int rgb = 0;
  bool has_bbox = false;
  int depth = 0;
  void scan(const Bytes &t, bool dsc) {
    for (size_t i = 0; i < t.size();) {
      unsigned char c = t[i];
      if (c == '%') {
        size_t e = t.find('\n', i);
        if (e == Bytes::npos)
          e = t.size();
        std::string l = t.substr(i, e - i);
        int a, b, w, h, used = 0;
        if ((dsc && sscanf(l.c_str(), "%%%%BoundingBox: %d %d %d %d%n", &a, &b, &w, &h, &used) == 4) || (!dsc && sscanf(l.c_str(), "%%BBox(%d,%d,%d,%d)%n", &a, &b, &w, &h, &used) == 4)) {
          if (a || b || (size_t)used != l.size())
            d.bad("bounding box " + l);
          d.w = w;
          d.h = h;
          has_bbox = true;
        }
        i = e;
      } else if (isspace(c))
        i++;
      else if (strchr("{}[]", c)) {
        tok.push_back(std::string(1, c));
        i++;
      } else {
        size_t b = i++;
        while (i < t.size() && !isspace((unsigned char)t[i]) && !strchr("{}[]%/", t[i]))
          i++;
        tok.push_back(t.substr(b, i - b));
      }
    }
  }
  size_t q = 0;
  bool parse(Obj &o) {
    std::string w = tok[q++];
    if (w == "{") {
      o.k = Obj::PROC;
      while (q < tok.size() && tok[q] != "}") {
        Obj x;
        if (!parse(x))
          return false;
        o.p.push_back(x);
      }
      if (q >= tok.size())
        return d.bad("procedure not closed");
      q++;
      return true;
    }
    if (number(w, o.n)) {
      o.k = Obj::NUM;
      return true;
    }
    o.k = w[0] == '/' ? Obj::LIT : Obj::NAME;
    o.s = w[0] == '/' ? w.substr(1) : w;
    return true;
  }
  bool num(int n, double *a) {
    if ((int)st.size() < n)
      return d.bad("stack underflow");
    for (int k = n - 1; k >= 0; k--) {
      if (st.back().k != Obj::NUM)
        return d.bad("type check");
      a[k] = st.back().n;
      st.pop_back();
    }
    return true;
  }
  bool run(const Obj &o) { // execute a procedure body
    if (++depth > 50)
      return d.bad("recursion");
    for (auto &x : o.p)
      if (!exec(x))
        return false;
    depth--;
    return true;
  }
  bool exec(const Obj &o) {
    if (o.k != Obj::NAME) {
      st.push_back(o);
      return true;
    }
    const std::string &w = o.s;
    double a[6];
    auto it = dict.find(w);
    if (it != dict.end()) {
      if (it->second.k == Obj::PROC)
        return run(it->second);
      st.push_back(it->second);
      return true;
    }
    if (w == "def") {
      if (st.size() < 2 || st[st.size() - 2].k != Obj::LIT)
        return d.bad("def");
      dict[st[st.size() - 2].s] = st.back();
      st.resize(st.size() - 2);
      return true;
    }
    if (w == "bind")
      return !st.empty() && st.back().k == Obj::PROC ? true : d.bad("bind");
    if (w == "true" || w == "false") {
      Obj x;
      x.k = Obj::BOOL;
      x.n = w == "true";
      st.push_back(x);
      return true;
    }
    if (w == "not") {
      if (st.empty() || st.back().k != Obj::BOOL)
        return d.bad("not");
      st.back().n = !st.back().n;
      return true;
    }
    if (w == "if") {
      if (st.size() < 2 || st.back().k != Obj::PROC || st[st.size() - 2].k != Obj::BOOL)
        return d.bad("if");
      Obj p = st.back();
      bool c = st[st.size() - 2].n;
      st.resize(st.size() - 2);
      return c ? run(p) : true;
    }
    if (w == "[" || w == "]") {
      if (w == "]") {
        while (!st.empty() && st.back().k != Obj::MARK)
          st.pop_back();
        if (st.empty())
          return d.bad("]");
        return true; // the mark stands for the array
      }
      Obj x;
      x.k = Obj::MARK;
      st.push_back(x);
      return true;
    }
    if (w == "pop") {
      if (st.empty())
        return d.bad("pop");
      st.pop_back();
      return true;
    }
    if (w == "setdash") {
      if (!num(1, a) || st.empty() || st.back().k != Obj::MARK)
        return d.bad("setdash");
      st.pop_back();
      return true;
    }
    if (w == "string") {
      if (!num(1, a))
        return false;
      Obj x;
      x.k = Obj::MARK;
      st.push_back(x);
      return true;
    }
    if (w == "setlinecap" || w == "setlinejoin" || w == "setlinewidth" || w == "setmiterlimit")
      return num(1, a);
    if (w == "moveto")
      return num(2, a) && pen.move(a[0], a[1]);
    if (w == "lineto")
      return num(2, a) && (pen.line(a[0], a[1]) || d.bad("no current point"));
    if (w == "curveto")
      return num(6, a) && (pen.curve(a[0], a[1], a[2], a[3], a[4], a[5]) || d.bad("no current point"));
    if (w == "closepath") {
      pen.close();
      return true;
    }
    if (w == "newpath") {
      pen.cur.clear();
      return true;
    }
    if (w == "fill" || w == "stroke") {
      pen.paint(d, rgb, w == "stroke");
      return true;
    }
    if (w == "setcmykcolor") {
      if (!num(4, a))
        return false;
      for (int k = 0; k < 4; k++)
        if (a[k] < 0 || a[k] > 1)
          return d.bad("colour component");
      auto f = [&](double v) { return 1 - std::min(1., v + a[3]); };
      rgb = rgb_of(f(a[0]), f(a[1]), f(a[2]));
      return true;
    }
    if (w == "setrgbcolor") {
      if (!num(3, a))
        return false;
      rgb = rgb_of(a[0], a[1], a[2]);
      return true;
    }
    if (w == "showpage")
      return true;
    return d.bad("undefined " + w);
  }
};
static Doc read_ps(const Bytes &t) {
  PS p;
  if (!begins(t, "%!PS-Adobe-3.0"))
    p.d.bad("header");
  p.scan(t, true);
  while (p.q < p.tok.size()) {
    Obj o;
    if (!p.parse(o) || !p.exec(o))
      break;
  }
  if (!p.st.empty())
    p.d.bad("operands left over");
  for (auto &s : p.pen.cur)
    if (!s.segs.empty())
      p.d.bad("path never painted");
  if (!p.has_bbox)
    p.d.bad("no bounding box");
  if (t.size() < 6 || t.substr(t.size() - 6) != "%%EOF\n")
    p.d.bad("no end");
  return p.d;
}

// ---- PDF content, EPD ----
static void content(Doc &d, const std::string &s) {
  std::stringstream ss(s);
  std::string w;
  std::vector<double> st;
  Pen pen;
  int fill = 0, stroke = 0;
  while (ss >> w) {
    double v;
    if (number(w, v)) {
      st.push_back(v);
      continue;
    }
    size_t want = w == "m" || w == "l" ? 2 : w == "c" ? 6 : w == "RG" || w == "rg" ? 3 : w == "f" || w == "S" || w == "h" ? 0 : 99;
    if (want == 99)
      d.bad("operator " + w);
    if (st.size() != want) {
      d.bad("operands of " + w);
      return;
    }
    if (want == 3)
      for (double x : st)
        if (x < 0 || x > 1)
          d.bad("colour component");
    bool ok = true;
    if (w == "m")
      pen.move(st[0], st[1]);
    else if (w == "l")
      ok = pen.line(st[0], st[1]);
    else if (w == "c")
      ok = pen.curve(st[0], st[1], st[2], st[3], st[4], st[5]);
    else if (w == "RG" || w == "rg") {
      (w == "RG" ? stroke : fill) = rgb_of(st[0], st[1], st[2]);
      if (!pen.cur.empty())
        d.bad("colour operator inside a path");
    } else if (w == "f")
      pen.paint(d, fill, false);
    else if (w == "S")
      pen.paint(d, stroke, true);
    else if (w == "h")
      pen.close();
    if (!ok)
      d.bad("segment without a start");
    st.clear();
  }
  if (!st.empty())
    d.bad("operands left over");
  if (!pen.cur.empty())
    d.bad("path never painted");
}
static Doc read_epd(const Bytes &t) {
  Doc d;
  if (!begins(t, "%EPD-1.0\n"))
    d.bad("header");
  std::string body;
  bool box = false;
  for (auto &l : lines_of(t)) {
    int a, b, w, h;
    if (l[0] != '%')
      body += l + "\n";
    else if (sscanf(l.c_str(), "%%BBox(%d,%d,%d,%d)", &a, &b, &w, &h) == 4) {
      box = true;
      if (a || b)
        d.bad("bounding box");
      d.w = w;
      d.h = h;
    }
  }
  if (!box)
    d.bad("no bounding box");
  content(d, body);
  return d;
}
// object n through the cross-reference table
static std::string pdf_obj(Doc &d, const Bytes &t, const std::vector<size_t> &off, unsigned n) {
  if (n >= off.size() || !n) {
    d.bad("reference to a missing object");
    return "";
  }
  std::string head = fmt("%u 0 obj", n);
  if (off[n] > t.size() || t.compare(off[n], head.size(), head)) {
    d.bad(fmt("cross-reference of object %u is wrong", n));
    return "";
  }
  size_t e = t.find("endobj", off[n]);
  if (e == Bytes::npos) {
    d.bad("object not closed");
    return "";
  }
  return t.substr(off[n] + head.size(), e - off[n] - head.size());
}
static unsigned pdf_ref(Doc &d, const std::string &o, const char *key) {
  size_t k = o.find(key);
  unsigned n = 0;
  if (k == std::string::npos || sscanf(o.c_str() + k + strlen(key), " %*[[]%u 0 R", &n) != 1) {
    if (k == std::string::npos || sscanf(o.c_str() + k + strlen(key), " %u 0 R", &n) != 1)
      d.bad(std::string("no ") + key);
  }
  return n;
}
static Doc read_pdf(const Bytes &t) {
  Doc d;
  if (!begins(t, "%PDF-1."))
    d.bad("header");
  size_t sx = t.rfind("startxref\n");
  if (sx == Bytes::npos || t.size() < 6 || t.substr(t.size() - 6) != "%%EOF\n") {
    d.bad("trailer");
    return d;
  }
  size_t x = strtoul(t.c_str() + sx + 10, 0, 10);
  unsigned first, n;
  if (x >= t.size() || sscanf(t.c_str() + x, "xref\n%u %u\n", &first, &n) != 2 || t.compare(x, 5, "xref\n") || first || n > 100) {
    d.bad("startxref does not point at the table");
    return d;
  }
  size_t p = t.find('\n', x + 5) + 1;
  std::vector<size_t> off;
  for (unsigned i = 0; i < n; i++) {
    if (p + 20 > t.size() || t[p + 10] != ' ' || t[p + 16] != ' ' || t[p + 17] != (i ? 'n' : 'f')) {
      d.bad("cross-reference entry");
      return d;
    }
    off.push_back(strtoul(t.substr(p, 10).c_str(), 0, 10));
    p += 20;
  }
  std::string tr = t.substr(p, sx - p);
  unsigned size = 0;
  size_t k = tr.find("/Size");
  if (k == std::string::npos || sscanf(tr.c_str() + k, "/Size %u", &size) != 1 || size != n)
    d.bad("trailer size");
  std::string cat = pdf_obj(d, t, off, pdf_ref(d, tr, "/Root"));
  pdf_obj(d, t, off, pdf_ref(d, cat, "/Outlines"));
  std::string pages = pdf_obj(d, t, off, pdf_ref(d, cat, "/Pages"));
  if (pages.find("/Count 1") == std::string::npos)
    d.bad("page count");
  std::string page = pdf_obj(d, t, off, pdf_ref(d, pages, "/Kids"));
  int a, b, w, h;
  k = page.find("/MediaBox");
  if (k == std::string::npos || sscanf(page.c_str() + k, "/MediaBox [%d %d %d %d]", &a, &b, &w, &h) != 4 || a || b)
    d.bad("media box");
  else
    d.w = w, d.h = h;
  pdf_obj(d, t, off, pdf_ref(d, page, "/ProcSet"));
  unsigned cn = pdf_ref(d, page, "/Contents");
  pdf_obj(d, t, off, cn);
  if (!d.err.empty())
    return d;
  size_t o = off[cn], len;
  k = t.find("/Length", o);
  if (k == Bytes::npos || sscanf(t.c_str() + k, "/Length %zu", &len) != 1) {
    d.bad("length");
    return d;
  }
  k = t.find("stream\n", o) + 7;
  if (k + len > t.size() || t.compare(k + len, 9, "endstream")) {
    if (k + len >= t.size() || t[k + len] != '\n' || t.compare(k + len + 1, 9, "endstream")) {
      d.bad("stream length is wrong");
      return d;
    }
  }
  content(d, t.substr(k, len));
  return d;
}

// ---- Sketch ----
static Doc read_sk(const Bytes &t) {
  Doc d;
  auto ls = lines_of(t);
  if (ls.size() < 4 || ls[0] != "##Sketch 1 0" || ls[1] != "document()" || ls[2].compare(0, 6, "layer(")) {
    d.bad("header");
    return d;
  }
  Pen pen;
  bool object = false, fresh = false;
  int fp = -1, lp = 0; // a new object has a black line and no filling
  auto finish = [&] {
    if (object) {
      if ((fp >= 0) == (lp >= 0))
        d.bad("object is neither only filled nor only stroked");
      if (fp >= 0)
        for (auto &s : pen.cur)
          if (!s.closed)
            d.bad("filled path not closed");
      pen.paint(d, fp >= 0 ? fp : lp, fp < 0);
      fp = -1;
      lp = 0;
    }
    object = false;
  };
  for (size_t i = 3; i < ls.size(); i++) {
    const std::string &l = ls[i];
    double a[6];
    double r, g, b;
    int used = 0;
    if (l == "guess_cont()")
      ;
    else if (sscanf(l.c_str(), "fp((%lf,%lf,%lf))%n", &r, &g, &b, &used) == 3 && used == (int)l.size()) {
      finish();
      fp = rgb_of(r, g, b);
    } else if (sscanf(l.c_str(), "lp((%lf,%lf,%lf))%n", &r, &g, &b, &used) == 3 && used == (int)l.size()) {
      finish();
      lp = rgb_of(r, g, b);
    } else if (l == "fe()") {
      finish();
      fp = -1;
    } else if (l == "le()") {
      finish();
      lp = -1;
    } else if (l == "b()") {
      finish();
      object = fresh = true;
    } else if (l == "bn()" && object)
      fresh = true;
    else if (l == "bC()" && object && !fresh)
      pen.close();
    else if (sscanf(l.c_str(), "bs(%lf,%lf,0)%n", a, a + 1, &used) == 2 && used == (int)l.size() && object) {
      if (fresh)
        pen.move(a[0], a[1]);
      else
        pen.line(a[0], a[1]);
      fresh = false;
    } else if (sscanf(l.c_str(), "bc(%lf,%lf,%lf,%lf,%lf,%lf,0)%n", a, a + 1, a + 2, a + 3, a + 4, a + 5, &used) == 6 && used == (int)l.size() && object && !fresh)
      pen.curve(a[0], a[1], a[2], a[3], a[4], a[5]);
    else
      d.bad("line " + l);
  }
  finish();
  return d;
}

// ---- POV-Ray: prisms of closed cubic pieces ----
static Doc read_pov(const Bytes &t) {
  Doc d;
  std::string s;
  for (char c : t)
    s += strchr("<>{},", c) ? std::string(" ") + c + " " : std::string(1, c);
  std::stringstream ss(s);
  std::vector<std::string> w;
  std::string x;
  while (ss >> x)
    w.push_back(x);
  size_t i = 0;
  auto eat = [&](const char *e) { return i < w.size() && w[i] == e ? (i++, true) : d.bad(std::string("expected ") + e); };
  auto num = [&](double &v) { return i < w.size() && number(w[i], v) ? (i++, true) : d.bad("expected a number"); };
  while (i < w.size() && d.err.empty()) {
    double h0, h1, n;
    if (!eat("prism") || !eat("{") || !eat("bezier_spline") || !num(h0) || !num(h1) || !num(n))
      break;
    std::vector<Pt> p;
    while (i < w.size() && w[i] == "<") {
      Pt q;
      if (!eat("<") || !num(q.x) || !eat(",") || !num(q.y) || !eat(">"))
        break;
      p.push_back(q);
      if (i < w.size() && w[i] == ",") {
        i++;
        if (i >= w.size() || w[i] != "<")
          d.bad("comma without a point");
      } else
        break;
    }
    if (p.size() != n)
      d.bad(fmt("%g points announced, %zu written", n, p.size()));
    double r, g, b, z;
    if (!eat("pigment") || !eat("{") || !eat("rgb") || !eat("<") || !num(r) || !eat(",") || !num(g) || !eat(",") || !num(b) || !eat(">") || !eat("}"))
      break;
    if (!eat("translate") || !eat("<") || !num(z) || !eat(",") || !num(z) || !eat(",") || !num(z) || !eat(">") || !eat("}"))
      break;
    if (p.size() % 4) {
      d.bad("points");
      break;
    }
    Path path;
    path.rgb = rgb_of(r, g, b);
    Sub sub;
    if (!p.empty())
      sub.start = p[0];
    for (size_t k = 0; k < p.size(); k += 4)
      sub.segs.push_back({3, {p[k], p[k + 1], p[k + 2], p[k + 3]}});
    path.subs.push_back(sub);
    d.paths.push_back(path);
  }
  return d;
}
// all parts in one sequence of cubics
static std::vector<Path> as_prisms(std::vector<Path> v) {
  for (auto &p : v) {
    Sub s = p.subs[0];
    s.segs.clear();
    for (auto &q : p.subs)
      for (auto g : q.segs) {
        g.deg = 3;
        s.segs.push_back(g);
      }
    p.subs = {s};
  }
  return v;
}

struct Fmt {
  const char *name;
  Doc (*read)(const Bytes &);
  double tol, rel;
  bool size;
};
static const Fmt FMTS[] = {
    {"svg", read_svg, .0006, 6e-6, true}, {"eps", read_ps, .00052, 1e-7, true},    {"ai", read_ps, .00052, 1e-7, true},      {"p2e", read_ps, .00052, 1e-7, true},
    {"pdf", read_pdf, .00052, 1e-7, true}, {"epd", read_epd, .00052, 1e-7, true}, {"sk", read_sk, .0001, 6e-6, false}, {"pov", read_pov, .00052, 1e-7, false},
};

static int c_sampled;
static void judge(Ctx &c, at_splines_type *s, const std::string &what) {
  Traced t = grab(s);
  std::vector<Path> e = expected(t, s, BY_COLOR);
  c.state(mc::hash_str(t.text()));
  for (auto &f : FMTS) {
    Msgs m;
    stack_fill(0);
    Bytes o = write_splines(f.name, s, m);
    c.step(1);
    bool pov = !strcmp(f.name, "pov");
    if (pov && t.centerline) {
      if (!m.fatal)
        c.fail("pov:unsupported", "%s: centerlines are not supported, no error was reported", what.c_str());
      else if (!o.empty())
        c.fail("pov:partial", "%s: an error was reported after writing", what.c_str());
      continue;
    }
    if (m.fatal || m.warning)
      c.fail(fmt("%s:message", f.name), "%s: %s", what.c_str(), m.last.c_str());
    Doc d = f.read(o);
    std::string x = differs(d, pov ? as_prisms(e) : e, f.tol + (strcmp(f.name, "svg") ? 0 : 6e-6 * t.h), f.rel);
    if (x.empty() && f.size && (d.w != t.w || d.h != t.h))
      x = fmt("page of %gx%g for a picture of %ux%u", d.w, d.h, t.w, t.h);
    if (!x.empty())
      c.fail(fmt("%s:%s", f.name, x.substr(0, x.find_first_of("0123456789")).c_str()), "%s as %s: %s", what.c_str(), f.name, x.c_str());
    else {
      c.trace(1);
      c.nontrivial(mc::hash_str(o));
      if (!c_sampled++)
        c.sample(fmt("%s as %s: %zu bytes, %zu paths", what.c_str(), f.name, o.size(), d.paths.size()));
    }
  }
}
static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C15";
  k.bounds = "every array of up to three shapes over 7 closed and 4 open geometries, 3-5 colours, both orientations, 3 backgrounds, 5 picture sizes, plus the traces of every 3x3 picture enlarged 4 times in 6 modes up to 2200 shapes and shapes of up to 17000 pieces; 8 formats";
  array_spaces(k, judge, th);
  // long shapes, neighbours of one colour too
  static const unsigned LEN[] = {5000, 9000, 17000};
  k.spaces.push_back({"long", 3 * 3 * 2, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned n = LEN[p(3)], q = p(3), two = p(2);
                        Arr a(30000, 10);
                        for (unsigned l = 0; l <= two; l++) {
                          std::vector<at_spline_type> v;
                          for (unsigned k = 0; k < n; k++) {
                            double x = k * 2 % 29000, y = k % 7, x2 = k + 1 == n ? 0 : (k + 1) * 2 % 29000, y2 = k + 1 == n ? 0 : (k + 1) % 7;
                            if (q == 0 || (q == 2 && k % 3))
                              v.push_back(line(x, y, x2, y2));
                            else
                              v.push_back(cubic(x, y, x + 1, y + 2, x2, y2 + 1, x2, y2));
                          }
                          a.add(v, COLS[1], false, false);
                        }
                        judge(c, a.get(), fmt("%u pieces kind %u%s", n, q, two ? " twice" : ""));
                      },
                      60});
  return k;
}
int main(int argc, char **argv) {
  setenv("AT_DATE_ZERO", "yes", 1);
  return mc::run_main(argc, argv, build);
}
