// C12: cancelling at every poll.
#include "trace.hpp"

struct Poll {
  unsigned long n = 0, at = 0; // cancel at the at-th call, counting from 1
  bool once = false;
  static bool cb(void *d) {
    Poll *p = (Poll *)d;
    p->n++;
    return p->at && (p->once ? p->n == p->at : p->n >= p->at);
  }
};
struct Cfg {
  const char *name;
  bool center, width, bg;
  unsigned despeckle, colors;
};
static const Cfg CF[] = {
    {"outline", false, false, false, 0, 0}, {"outline-bg", false, false, true, 0, 0}, {"center", true, false, false, 0, 0}, {"width", true, true, true, 0, 0}, {"despeckle", false, false, false, 2, 0}, {"colors", false, false, true, 0, 2},
};
static void set(Opts &o, const Cfg &f) {
  o->centerline = f.center;
  o->preserve_width = f.width;
  if (f.bg)
    o.bg(255, 255, 255);
  o->despeckle_level = f.despeckle;
  o->color_count = f.colors;
}
static std::string optstr(at_fitting_opts_type *o) {
  return fmt("%u %u %u %g %g %u %g %g %d %u %u %g %g %d %d %g", o->charcode, o->color_count, o->corner_surround, o->corner_always_threshold, o->corner_threshold, o->filter_iterations, o->error_threshold, o->line_threshold, o->remove_adjacent_corners, o->tangent_surround, o->despeckle_level, o->despeckle_tightness, o->noise_removal, o->centerline, o->preserve_width, o->width_weight_factor);
}

static void one(Ctx &c, const Img &im, const Cfg &f, unsigned stride) {
  Opts o;
  set(o, f);
  std::string before = optstr(o.o);
  std::string plain;
  Poll all;
  {
    at_bitmap *b = to_bitmap(im);
    at_splines_type *s = at_splines_new(b, o.o, nullptr, nullptr);
    plain = grab(s).text();
    if (s)
      at_splines_free(s);
    at_bitmap_free(b);
    b = to_bitmap(im);
    s = at_splines_new_full(b, o.o, nullptr, nullptr, nullptr, nullptr, Poll::cb, &all);
    if (!s || grab(s).text() != plain)
      c.fail(fmt("differs:%s", f.name), "%s: the result differs when a cancel function is given", im.str().c_str());
    if (s)
      at_splines_free(s);
    at_bitmap_free(b);
  }
  if (all.n == 0)
    c.fail(fmt("never-polled:%s", f.name), "%s: the cancel function is never called", im.str().c_str());
  for (int once = 0; once < 2; once++)
    for (unsigned long k = 1; k <= all.n; k += (k + stride < all.n && k > 40 ? stride : 1)) {
      c.note("%s %s: cancel at poll %lu of %lu, %s", im.str().c_str(), f.name, k, all.n, once ? "once" : "for good");
      Poll p;
      p.at = k;
      p.once = once;
      size_t live = mc::heap_live();
      at_bitmap *b = to_bitmap(im);
      at_splines_type *s = at_splines_new_full(b, o.o, nullptr, nullptr, nullptr, nullptr, Poll::cb, &p);
      bool null = !s;
      if (s)
        at_splines_free(s);
      unsigned w = at_bitmap_get_width(b), h = at_bitmap_get_height(b);
      at_bitmap_free(b);
      size_t now = mc::heap_live();
      c.step();
      c.trace();
      if (!null)
        c.fail(fmt("not-null:%s:%s", f.name, once ? "once" : "sticky"), "%s: cancelled at poll %lu of %lu (%s), yet a result came back", im.str().c_str(), k, all.n, once ? "once" : "for good");
      if (p.n > k + 2)
        c.fail(fmt("goes-on:%s", f.name), "%s: %lu more polls after cancelling at poll %lu of %lu", im.str().c_str(), p.n - k, k, all.n);
      if (w != im.w || h != im.h)
        c.fail("bitmap", "%s: bitmap damaged", im.str().c_str());
      if (now != live)
        c.fail(fmt("leak:%s", f.name), "%s: %ld bytes kept after cancelling at poll %lu of %lu (%s)", im.str().c_str(), (long)(now - live), k, all.n, once ? "once" : "for good");
      c.state(mc::mix(mc::mix(im.hash(), k), once * 8 + (&f - CF)));
      if (k > im.w * im.h)
        c.nontrivial(mc::mix(im.hash(), k));
    }
  if (optstr(o.o) != before)
    c.fail("options", "%s: the options changed", im.str().c_str());
  // a cancelled run leaves nothing behind that influences the next one
  at_bitmap *b = to_bitmap(im);
  at_splines_type *s = at_splines_new(b, o.o, nullptr, nullptr);
  if (grab(s).text() != plain)
    c.fail(fmt("after:%s", f.name), "%s: the result differs after cancelled runs", im.str().c_str());
  if (s)
    at_splines_free(s);
  at_bitmap_free(b);
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C12";
  k.bounds = fmt("every poll of every trace of all two-colour 3x%u pictures in five configurations, and of larger pictures with many shapes; cancelling once and for good", th ? 4 : 3);
  for (unsigned f = 0; f < 5; f++)
    k.spaces.push_back({fmt("3x3-%s", CF[f].name), 1ull << (th ? 12 : 9), [=](u64 i, Ctx &c) {
                          Img im;
                          im.w = 3;
                          im.h = th ? 4 : 3;
                          im.np = i % 2 ? 3 : 1;
                          for (unsigned q = 0; q < im.w * im.h; q++)
                            im.px += std::string(im.np, (i >> q & 1) ? 0 : (char)255);
                          one(c, im, CF[f], 1);
                        }});
  // many shapes, curves and holes
  k.spaces.push_back({"large", 6ull * 3, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned f = p(6), kind = p(3);
                        Img im;
                        im.w = f == 5 ? 6 : 24;
                        im.h = f == 5 ? 3 : 20;
                        im.np = kind == 2 ? 3 : 1;
                        for (unsigned y = 0; y < im.h; y++)
                          for (unsigned x = 0; x < im.w; x++) {
                            double d = hypot(x - 11.5, y - 9.5);
                            int v = kind == 0 ? (x % 4 < 2 && y % 4 < 2 ? 0 : 255) : kind == 1 ? (d < 4 ? 255 : d < 8 ? 40 : 255) : (int)d * 20;
                            im.px += std::string(im.np, (char)v);
                          }
                        one(c, im, CF[f], th ? 1 : 7);
                      },
                      200});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
