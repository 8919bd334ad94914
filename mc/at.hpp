// Helpers shared by the explorers: files in memory, message capture, bitmaps, options, splines.
#pragma once
#include "mc.hpp"
#include <cmath>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
#include "autotrace.h"

namespace at {
using mc::fmt;
using mc::u64;
typedef std::string Bytes;

struct Msgs {
  int fatal = 0, warning = 0;
  std::string last;
  static void cb(const char *m, at_msg_type t, void *d) {
    Msgs *s = (Msgs *)d;
    if (t == AT_MSG_FATAL)
      s->fatal++;
    else
      s->warning++;
    s->last = m ? m : "";
  }
};

// A readable file whose content is exactly `data`, addressed by a path.
struct MemFile {
  int fd;
  std::string path;
  explicit MemFile(const Bytes &data) {
    fd = memfd_create("in", 0);
    if (fd < 0) {
      perror("memfd_create");
      _exit(97);
    }
    size_t o = 0;
    while (o < data.size()) {
      ssize_t n = write(fd, data.data() + o, data.size() - o);
      if (n <= 0)
        _exit(97);
      o += n;
    }
    path = fmt("/proc/self/fd/%d", fd);
  }
  ~MemFile() { close(fd); }
  MemFile(const MemFile &) = delete;
};

struct Img { // reference image: np samples per pixel, row-major from the top left
  unsigned w = 0, h = 0, np = 0;
  Bytes px;
  bool operator==(const Img &o) const { return w == o.w && h == o.h && np == o.np && px == o.px; }
  u64 hash() const { return mc::hash_str(px, mc::mix(mc::mix(w, h), np)); }
  std::string str() const {
    std::string s = fmt("%ux%ux%u[", w, h, np);
    for (size_t i = 0; i < px.size() && i < 60; i++)
      s += fmt("%s%02x", (i && np && i % (np * (w ? w : 1)) == 0) ? "/" : "", (unsigned char)px[i]);
    return s + (px.size() > 60 ? "...]" : "]");
  }
};

inline Img from_bitmap(const at_bitmap *b) {
  Img i;
  if (!b)
    return i;
  i.w = at_bitmap_get_width(b);
  i.h = at_bitmap_get_height(b);
  i.np = at_bitmap_get_planes(b);
  size_t n = (size_t)i.w * i.h * i.np;
  if (n)
    i.px.assign((const char *)b->bitmap, n); // under ASan this also proves the storage is that large
  return i;
}

inline at_bitmap *to_bitmap(const Img &i) {
  at_bitmap *b = at_bitmap_new(i.w, i.h, i.np);
  if (i.px.size())
    memcpy(b->bitmap, i.px.data(), i.px.size());
  return b;
}

// the image seen through the public colour accessor (gray expands to r=g=b)
inline Img via_get_color(const at_bitmap *b) {
  Img i;
  i.w = at_bitmap_get_width(b);
  i.h = at_bitmap_get_height(b);
  i.np = 3;
  for (unsigned r = 0; r < i.h; r++)
    for (unsigned c = 0; c < i.w; c++) {
      at_color k;
      at_bitmap_get_color(b, r, c, &k);
      i.px += (char)k.r;
      i.px += (char)k.g;
      i.px += (char)k.b;
    }
  return i;
}
inline Img as_rgb(const Img &g) {
  if (g.np == 3)
    return g;
  Img i = g;
  i.np = 3;
  i.px.clear();
  for (size_t k = 0; k < g.px.size(); k++)
    i.px += std::string(3, g.px[k]);
  return i;
}

struct Decoded {
  bool null = true;
  Img img;
  int fatal = 0, warning = 0;
  std::string msg;
};

inline at_bitmap *read_raw(const char *suffix, const std::string &path, Msgs &m, at_input_opts_type *opts = nullptr) {
  at_bitmap_reader *r = at_input_get_handler_by_suffix((char *)suffix);
  if (!r)
    return nullptr;
  return at_bitmap_read(r, (char *)path.c_str(), opts, Msgs::cb, &m);
}

inline Decoded decode(const char *suffix, const Bytes &file, at_input_opts_type *opts = nullptr) {
  MemFile f(file);
  Msgs m;
  Decoded d;
  at_bitmap *b = read_raw(suffix, f.path, m, opts);
  d.fatal = m.fatal;
  d.warning = m.warning;
  d.msg = m.last;
  if (b) {
    d.null = false;
    d.img = from_bitmap(b);
    at_bitmap_free(b);
  }
  return d;
}

inline std::string hex(const Bytes &b, size_t max = 96) {
  std::string s;
  for (size_t i = 0; i < b.size() && i < max; i++)
    s += fmt("%02x", (unsigned char)b[i]);
  return b.size() > max ? s + "..." : s;
}

inline void le16(Bytes &b, unsigned v) {
  b += (char)v;
  b += (char)(v >> 8);
}
inline void le32(Bytes &b, unsigned v) {
  le16(b, v & 0xffff);
  le16(b, v >> 16);
}
inline void be32(Bytes &b, unsigned v) {
  b += (char)(v >> 24);
  b += (char)(v >> 16);
  b += (char)(v >> 8);
  b += (char)v;
}

// ---- tracing ----
struct Opts { // owns a fitting options object
  at_fitting_opts_type *o;
  Opts() { o = at_fitting_opts_new(); }
  ~Opts() { at_fitting_opts_free(o); }
  at_fitting_opts_type *operator->() { return o; }
  Opts(const Opts &) = delete;
  void bg(unsigned r, unsigned g, unsigned b) {
    if (o->background_color)
      at_color_free(o->background_color);
    o->background_color = at_color_new(r, g, b);
  }
};

struct Sp {
  int degree;
  at_real_coord v[4];
};
struct Shape {
  std::vector<Sp> s;
  bool clockwise, open;
  at_color color;
};
struct Traced {
  bool null = true;
  unsigned w = 0, h = 0;
  bool centerline = false;
  std::vector<Shape> shapes;
  std::string text() const {
    std::string t = fmt("%ux%u c%d\n", w, h, centerline);
    for (auto &l : shapes) {
      t += fmt("#%02x%02x%02x %s%s", l.color.r, l.color.g, l.color.b, l.clockwise ? "cw" : "ccw", l.open ? " open" : "");
      for (auto &s : l.s) {
        t += fmt(" %d", s.degree);
        for (int k = 0; k < 4; k++)
          if (s.degree == 3 || k == 0 || k == 3)
            t += fmt("(%.9g,%.9g,%.9g)", s.v[k].x, s.v[k].y, s.v[k].z);
      }
      t += "\n";
    }
    return t;
  }
};
inline Traced grab(const at_splines_type *s) {
  Traced t;
  if (!s)
    return t;
  t.null = false;
  t.w = s->width;
  t.h = s->height;
  t.centerline = s->centerline;
  for (unsigned i = 0; i < s->length; i++) {
    const at_spline_list_type &l = s->data[i];
    Shape sh;
    sh.clockwise = l.clockwise;
    sh.open = l.open;
    sh.color = l.color;
    for (unsigned k = 0; k < l.length; k++) {
      Sp p;
      p.degree = l.data[k].degree;
      memcpy(p.v, l.data[k].v, sizeof p.v);
      sh.s.push_back(p);
    }
    t.shapes.push_back(sh);
  }
  return t;
}

// text written by a writer for a spline array
inline Bytes write_splines(const char *suffix, at_splines_type *s, Msgs &m, at_output_opts_type *oo = nullptr, const char *name = "") {
  char *buf = nullptr;
  size_t n = 0;
  FILE *f = open_memstream(&buf, &n);
  at_spline_writer *w = at_output_get_handler_by_suffix((char *)suffix);
  at_splines_write(w, f, (char *)name, oo, s, Msgs::cb, &m);
  fclose(f);
  Bytes r(buf, n);
  free(buf);
  return r;
}

} // namespace at
