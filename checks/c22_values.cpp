// C22: options, bitmaps and colours are values: copies are equal and independent, freeing one frees just that one.
#include "trace.hpp"
#include <memory>
extern "C" {
#include "color.h"
}

struct Rgb {
  bool there;
  unsigned char r, g, b;
};
static bool same(const at_color *c, const Rgb &m) { return m.there ? c && c->r == m.r && c->g == m.g && c->b == m.b : !c; }

// ---- each kind of value: what it is, and what the model of it is ----
struct Fitting {
  typedef at_fitting_opts_type T;
  struct M {
    at_fitting_opts_type v;
    Rgb bg;
  };
  static T *make(unsigned, M &m) {
    T *t = at_fitting_opts_new();
    m.v = *t;
    m.bg = {false, 0, 0, 0};
    return t;
  }
  static T *copy(T *t) { return at_fitting_opts_copy(t); }
  static void free(T *t) { at_fitting_opts_free(t); }
  static void set(T *t, M &m, unsigned how, unsigned n) {
    if (how < 2) {
      at_color_free(t->background_color);
      m.bg = {how == 1, (unsigned char)(n * 7 + 1), (unsigned char)(n * 11), (unsigned char)(255 - n)};
      t->background_color = how ? at_color_new(m.bg.r, m.bg.g, m.bg.b) : nullptr;
    } else if (how == 2) {
      if (t->background_color) { // in place
        at_color_set(t->background_color, n, n + 1, n + 2);
        m.bg = {true, (unsigned char)n, (unsigned char)(n + 1), (unsigned char)(n + 2)};
      }
    } else {
      float f = n;
      T &v = *t;
      v.charcode = 1000 + n, v.color_count = 1001 + n, v.corner_always_threshold = f + .25f, v.corner_surround = 1002 + n, v.corner_threshold = f + .5f, v.error_threshold = f + .75f;
      v.filter_iterations = 1003 + n, v.line_reversion_threshold = f + 10, v.line_threshold = f + 20, v.remove_adjacent_corners = n & 1, v.remove_knees = n & 2, v.tangent_surround = 1004 + n;
      v.despeckle_level = 1005 + n, v.despeckle_tightness = f + 30, v.noise_removal = f + 40, v.centerline = n & 4, v.preserve_width = !(n & 1), v.width_weight_factor = f + 50;
      m.v = v;
    }
  }
  static bool eq(const T *t, const M &m) {
    const T &a = *t, &b = m.v;
    return same(a.background_color, m.bg) && a.charcode == b.charcode && a.color_count == b.color_count && a.corner_always_threshold == b.corner_always_threshold && a.corner_surround == b.corner_surround && a.corner_threshold == b.corner_threshold && a.error_threshold == b.error_threshold && a.filter_iterations == b.filter_iterations && a.line_reversion_threshold == b.line_reversion_threshold && a.line_threshold == b.line_threshold && a.remove_adjacent_corners == b.remove_adjacent_corners && a.remove_knees == b.remove_knees && a.tangent_surround == b.tangent_surround && a.despeckle_level == b.despeckle_level && a.despeckle_tightness == b.despeckle_tightness && a.noise_removal == b.noise_removal && a.centerline == b.centerline && a.preserve_width == b.preserve_width && a.width_weight_factor == b.width_weight_factor;
  }
  static const unsigned MAKES = 1, SETS = 4;
  static const char *name() { return "fitting"; }
};
struct Input {
  typedef at_input_opts_type T;
  struct M {
    unsigned code;
    Rgb bg;
  };
  static T *make(unsigned, M &m) {
    m = {0, {false, 0, 0, 0}};
    return at_input_opts_new();
  }
  static T *copy(T *t) { return at_input_opts_copy(t); }
  static void free(T *t) { at_input_opts_free(t); }
  static void set(T *t, M &m, unsigned how, unsigned n) {
    if (how == 3)
      t->charcode = m.code = 0x10000 + n;
    else if (how < 2) {
      at_color_free(t->background_color);
      m.bg = {how == 1, (unsigned char)n, (unsigned char)(n * 3), (unsigned char)(255 - n)};
      t->background_color = how ? at_color_new(m.bg.r, m.bg.g, m.bg.b) : nullptr;
    } else if (t->background_color) {
      at_color_set(t->background_color, n, n + 1, n + 2);
      m.bg = {true, (unsigned char)n, (unsigned char)(n + 1), (unsigned char)(n + 2)};
    }
  }
  static bool eq(const T *t, const M &m) { return t->charcode == m.code && same(t->background_color, m.bg); }
  static const unsigned MAKES = 1, SETS = 4;
  static const char *name() { return "input"; }
};
struct Output {
  typedef at_output_opts_type T;
  typedef int M;
  static T *make(unsigned, M &m) {
    m = 72;
    return at_output_opts_new();
  }
  static T *copy(T *t) { return at_output_opts_copy(t); }
  static void free(T *t) { at_output_opts_free(t); }
  static void set(T *t, M &m, unsigned, unsigned n) { t->dpi = m = 5 + (int)n * 100000; }
  static bool eq(const T *t, const M &m) { return t->dpi == m; }
  static const unsigned MAKES = 1, SETS = 1;
  static const char *name() { return "output"; }
};
struct Bitmap {
  typedef at_bitmap T;
  struct M {
    unsigned w, h, np;
    unsigned char px[400];
  };
  static T *make(unsigned q, M &m) {
    static const unsigned W[] = {1, 3, 2, 5, 0, 4}, H[] = {1, 2, 5, 1, 3, 0}, N[] = {1, 3, 1, 3, 3, 1};
    m.w = W[q], m.h = H[q], m.np = N[q];
    memset(m.px, 0, sizeof m.px);
    return at_bitmap_new(W[q], H[q], N[q]);
  }
  static T *copy(T *t) { return at_bitmap_copy(t); }
  static void free(T *t) { at_bitmap_free(t); }
  static void set(T *t, M &m, unsigned how, unsigned n) {
    unsigned len = m.w * m.h * m.np;
    for (unsigned i = 0; i < len; i++)
      if (!how || i == (n * 13) % len) // all of it or one sample
        t->bitmap[i] = m.px[i] = (unsigned char)(n * 37 + i * 5 + 1);
  }
  static bool eq(const T *t, const M &m) {
    if (at_bitmap_get_width(t) != m.w || at_bitmap_get_height(t) != m.h || at_bitmap_get_planes(t) != m.np)
      return false;
    for (unsigned y = 0; y < m.h; y++)
      for (unsigned x = 0; x < m.w; x++) {
        const unsigned char *p = m.px + (y * m.w + x) * m.np;
        at_color c = {9, 9, 9}, d = {p[0], p[m.np / 2], p[m.np - 1]}, e = d;
        at_bitmap_get_color(t, y, x, &c);
        e.r ^= 1;
        if (c.r != d.r || c.g != d.g || c.b != d.b || !at_bitmap_equal_color(t, y, x, &d) || at_bitmap_equal_color(t, y, x, &e))
          return false;
        e = d, e.g ^= 128;
        if (at_bitmap_equal_color(t, y, x, &e))
          return false;
        e = d, e.b ^= 16;
        if (at_bitmap_equal_color(t, y, x, &e))
          return false;
      }
    return true;
  }
  static const unsigned MAKES = 6, SETS = 2;
  static const char *name() { return "bitmap"; }
};
struct Color {
  typedef at_color T;
  typedef Rgb M;
  static T *make(unsigned q, M &m) {
    m = {true, (unsigned char)(q ? 200 : 0), (unsigned char)(q * 3), (unsigned char)(q ? 255 : 128)};
    return at_color_new(m.r, m.g, m.b);
  }
  static T *copy(T *t) { return at_color_copy(t); }
  static void free(T *t) { at_color_free(t); }
  static void set(T *t, M &m, unsigned, unsigned n) {
    m = {true, (unsigned char)(n * 50), (unsigned char)(255 - n), (unsigned char)(n * n)};
    at_color_set(t, m.r, m.g, m.b);
  }
  static bool eq(const T *t, const M &m) { return same(t, m); }
  static const unsigned MAKES = 2, SETS = 1;
  static const char *name() { return "color"; }
};
// every sequence of operations on three variables
template <class K> static void add(mc::Check &k, unsigned depth) {
  static const unsigned S = 3, OPS = S * K::MAKES + S * (S - 1) + S * K::SETS + S;
  u64 n = 1;
  for (unsigned d = 0; d < depth; d++)
    n *= OPS;
  k.spaces.push_back({K::name(), n, [=](u64 i, Ctx &c) {
                        // the depth-th operation varies fastest; all prefixes are checked on the way
                        typename K::T *v[S] = {nullptr, nullptr, nullptr};
                        typename K::M m[S];
                        unsigned op[16];
                        for (unsigned d = depth; d--; i /= OPS)
                          op[d] = i % OPS;
                        std::string h;
                        h.reserve(200);
                        long before = mc::heap_live();
                        const char *bad = nullptr;
                        for (unsigned d = 0; d < depth && !bad; d++) {
                          unsigned o = op[d];
                          if (o < S * K::MAKES) {
                            unsigned s = o % S;
                            if (v[s])
                              K::free(v[s]);
                            v[s] = K::make(o / S, m[s]);
                            if (!K::eq(v[s], m[s]))
                              bad = "a new value is not the default";
                          } else if ((o -= S * K::MAKES) < S * (S - 1)) {
                            unsigned s = o % S, t = (s + 1 + o / S) % S;
                            if (!v[s])
                              continue;
                            typename K::T *x = K::copy(v[s]);
                            if (v[t])
                              K::free(v[t]);
                            v[t] = x;
                            m[t] = m[s];
                            if (x == v[s])
                              bad = "a copy is the original";
                          } else if ((o -= S * (S - 1)) < S * K::SETS) {
                            unsigned s = o % S;
                            if (v[s])
                              K::set(v[s], m[s], o / S, d + 1);
                          } else {
                            unsigned s = o - S * K::SETS;
                            if (v[s])
                              K::free(v[s]);
                            v[s] = nullptr;
                          }
                          for (unsigned s = 0; s < S && !bad; s++)
                            if (v[s] && !K::eq(v[s], m[s]))
                              bad = "a value differs from what was put into it";
                        }
                        for (unsigned s = 0; s < S; s++)
                          if (v[s])
                            K::free(v[s]);
                        long left = mc::heap_live() - before;
                        for (unsigned d = 0; d < depth; d++)
                          h += fmt("%u ", op[d]);
                        c.note("%s", h.c_str());
                        if (bad)
                          c.fail(fmt("%s:value", K::name()), "operations %s: %s", h.c_str(), bad);
                        if (left)
                          c.fail(fmt("%s:heap", K::name()), "operations %s: %ld blocks are left over", h.c_str(), left);
                        c.state(mc::hash_str(h));
                        c.step(depth);
                        c.trace(1);
                        if (op[0] < S * K::MAKES)
                          c.nontrivial(mc::hash_str(h));
                      }});
}
static int hexval(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static void parse(Ctx &c, const char *key, const std::string &s) {
  std::string b = s.c_str();
  bool ok = b.size() == 6;
  unsigned v[6] = {0};
  for (unsigned i = 0; i < 6 && ok; i++) {
    int h = hexval(b[i]);
    ok = h >= 0;
    v[i] = h;
  }
  at_color *x = at_color_parse(s.c_str(), nullptr);
  Rgb m = {ok, (unsigned char)(v[0] * 16 + v[1]), (unsigned char)(v[2] * 16 + v[3]), (unsigned char)(v[4] * 16 + v[5])};
  c.step(1);
  if (!same(x, m))
    c.fail(fmt("%s:parse", key), "colour '%s' (%s): %s", b.c_str(), hex(b).c_str(), x ? fmt("%u,%u,%u", x->r, x->g, x->b).c_str() : "none");
  at_color_free(x);
}
struct Quiet { // messages of the library about wrong colours
  FILE *keep;
  Quiet() : keep(stderr) { stderr = fopen("/dev/null", "w"); }
  ~Quiet() {
    fclose(stderr);
    stderr = keep;
  }
};
static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C22";
  unsigned d = th ? 5 : 4;
  k.bounds = fmt("every sequence of %u operations (new, copy, set, change in place, free) on three variables of each kind; colour names: %s, all pairs of bytes at all pairs of places, all lengths to 40; all 16777216 colours for brightness; bitmaps of up to 4 GB", d, th ? "all strings of 6 hexadecimal digits" : "all strings of 6 lower case hexadecimal digits");
  add<Fitting>(k, d);
  add<Input>(k, d);
  add<Output>(k, d + 1);
  add<Bitmap>(k, d - 1);
  add<Color>(k, d + 1);
  static const char HX[] = "0123456789abcdefABCDEF";
  unsigned nd = th ? 22 : 16;
  k.spaces.push_back({"digits", (u64)nd * nd * nd, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        std::string s(6, '0');
                        for (int j = 0; j < 3; j++)
                          s[j] = HX[p(nd)];
                        c.note("colours %s", s.c_str());
                        for (unsigned a = 0; a < nd; a++)
                          for (unsigned b = 0; b < nd; b++)
                            for (unsigned e = 0; e < nd; e++) {
                              s[3] = HX[a], s[4] = HX[b], s[5] = HX[e];
                              parse(c, "digits", s);
                            }
                        c.state(mc::hash_str(s));
                        c.trace(1);
                        c.nontrivial(mc::hash_str(s));
                      }});
  k.spaces.push_back({"bytes", 15 * 256, [](u64 i, Ctx &c) {
                        Quiet q;
                        Pick p(i);
                        unsigned pr = p(15), a = 0, b;
                        int x = p(256);
                        unsigned r = pr; // counts the pairs (0,1)..(0,5),(1,2)..
                        while (r >= 5 - a) {
                          r -= 5 - a;
                          a++;
                        }
                        b = a + 1 + r;
                        std::string s = "0aF9b7";
                        s[a] = (char)x;
                        c.note("places %u and %u, byte %d", a, b, x);
                        for (int y = 0; y < 256; y++) {
                          s[b] = (char)y;
                          parse(c, "bytes", s);
                        }
                        c.state(i);
                        c.trace(1);
                      }});
  k.spaces.push_back({"lengths", 41, [](u64 i, Ctx &c) {
                        Quiet q;
                        for (const char *x : {"0", "f", "A", "x", " ", "#"})
                          for (const char *y : {"", "0", "x", "\n", " "}) {
                            std::string s;
                            while (s.size() < i)
                              s += x;
                            parse(c, "lengths", s + y);
                            parse(c, "lengths", y + s);
                          }
                        if (at_color_parse(nullptr, nullptr))
                          c.fail("lengths:null", "no string gives a colour");
                        c.state(i);
                        c.trace(1);
                      }});
  k.spaces.push_back({"brightness", 4096, [](u64 i, Ctx &c) {
                        for (unsigned j = 0; j < 4096; j++) {
                          unsigned v = i * 4096 + j;
                          at_color x = {(unsigned char)(v >> 16), (unsigned char)(v >> 8), (unsigned char)v}, y = x;
                          int l = at_color_luminance(&x), s = 30 * x.r + 59 * x.g + 11 * x.b;
                          if (abs(100 * l - s) > 50)
                            c.fail("brightness:value", "colour %06x: brightness %d", v, l);
                          bool ok = at_color_equal(&x, &y);
                          for (int b = 0; b < 24; b++) {
                            unsigned w = v ^ 1u << b;
                            at_color z = {(unsigned char)(w >> 16), (unsigned char)(w >> 8), (unsigned char)w};
                            ok &= !at_color_equal(&x, &z);
                          }
                          if (!ok)
                            c.fail("brightness:equal", "colour %06x: wrong comparison", v);
                        }
                        c.step(4096 * 26);
                        c.state(i);
                        c.trace(1);
                        c.nontrivial(i + 1);
                      }});
  // bitmaps of more than 2 GB, one after the other
  k.spaces.push_back({"large", 1, [](u64, Ctx &c) {
                        static const unsigned W[] = {65535, 65535, 27000, 46341}, H[] = {40000, 65535, 27000, 46341}, N[] = {1, 1, 3, 1};
                        for (int q = 0; q < 4; q++) {
                          size_t n = (size_t)W[q] * H[q] * N[q];
                          void *probe = malloc(2 * n);
                          if (!probe) {
                            c.counter("too_large_here", 1);
                            continue;
                          }
                          free(probe);
                          c.note("%ux%ux%u", W[q], H[q], N[q]);
                          at_bitmap *b = at_bitmap_new(W[q], H[q], N[q]);
                          if (b->bitmap[0] || b->bitmap[n - 1] || b->bitmap[n / 2])
                            c.fail("large:zero", "%ux%ux%u: not zero", W[q], H[q], N[q]);
                          b->bitmap[0] = 1;
                          b->bitmap[n - 1] = 5;
                          if (q >= 2) {
                            c.still_alive();
                            at_bitmap *x = at_bitmap_copy(b);
                            if (x->bitmap[0] != 1 || x->bitmap[n - 1] != 5 || x->bitmap[n / 2] || at_bitmap_get_width(x) != W[q] || at_bitmap_get_height(x) != H[q])
                              c.fail("large:copy", "%ux%ux%u: other copy", W[q], H[q], N[q]);
                            at_bitmap_free(x);
                          }
                          at_bitmap_free(b);
                          c.step(4);
                          c.still_alive();
                        }
                        c.state(1);
                        c.trace(1);
                      },
                      120});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
