// C13: progress reports.
#include "trace.hpp"

struct Prog {
  std::vector<float> v;
  static void cb(float f, void *d) { ((Prog *)d)->v.push_back(f); }
};
struct Cfg {
  const char *name;
  bool center, bg;
  unsigned despeckle, colors;
};
static const Cfg CF[] = {{"outline", false, false, 0, 0}, {"outline-bg", false, true, 0, 0}, {"center", true, false, 0, 0}, {"despeckle", false, false, 2, 0}, {"colors", false, true, 0, 2}};

static void one(Ctx &c, const Img &im, const Cfg &f) {
  Opts o;
  o->centerline = f.center;
  if (f.bg)
    o.bg(255, 255, 255);
  o->despeckle_level = f.despeckle;
  o->color_count = f.colors;
  at_bitmap *b = to_bitmap(im);
  at_splines_type *s = at_splines_new(b, o.o, nullptr, nullptr);
  std::string plain = grab(s).text();
  if (s)
    at_splines_free(s);
  at_bitmap_free(b);
  std::string what = im.w * im.h < 100 ? im.str() : fmt("%ux%u", im.w, im.h);
  Prog p;
  b = to_bitmap(im);
  s = at_splines_new_full(b, o.o, nullptr, nullptr, Prog::cb, &p, nullptr, nullptr);
  if (!s || grab(s).text() != plain)
    c.fail(fmt("differs:%s", f.name), "%s: the result differs when progress is reported", what.c_str());
  unsigned n = s ? s->length : 0;
  if (s)
    at_splines_free(s);
  at_bitmap_free(b);
  u64 h = im.hash();
  for (float v : p.v)
    h = mc::mix(h, (u64)(v * 1e6));
  c.step(p.v.size());
  c.trace();
  c.state(h);
  if (n > 1)
    c.nontrivial(h);
  const std::vector<float> &v = p.v;
  if (v.empty() || v.back() != 1.0f) {
    c.fail(fmt("end:%s", f.name), "%s: progress ends at %g", what.c_str(), v.empty() ? -1 : v.back());
    return;
  }
  if (v[0] > 0.001)
    c.fail(fmt("begin:%s", f.name), "%s: progress begins at %g", what.c_str(), v[0]);
  double most = n ? std::max(1.0 / (3.0 * im.h), 1.0 / (3.0 * n)) + 0.004 : 1;
  for (size_t i = 0; i < v.size(); i++) {
    if (!(v[i] >= 0 && v[i] <= 1))
      c.fail(fmt("range:%s", f.name), "%s: progress %g", what.c_str(), v[i]);
    if (i && v[i] < v[i - 1])
      c.fail(fmt("back:%s", f.name), "%s: progress goes back from %.8f to %.8f (%u shapes)", what.c_str(), v[i - 1], v[i], n);
    if (i && v[i] - v[i - 1] > most)
      c.fail(fmt("jump:%s", f.name), "%s: progress jumps from %g to %g (%u shapes)", what.c_str(), v[i - 1], v[i], n);
  }
  // a cancelled run never reports completion, and goes no further
  static const double when[] = {0, 0.1, 0.2, 0.3, 0.34, 0.5, 0.6};
  for (double at : when) {
    struct Both {
      double at;
      std::vector<float> v;
      size_t after = 0;
      bool said = false;
    } q;
    q.at = at;
    b = to_bitmap(im);
    s = at_splines_new_full(
        b, o.o, nullptr, nullptr, [](float f, void *d) { ((Both *)d)->v.push_back(f); }, &q,
        [](void *d) {
          Both *q = (Both *)d;
          if (q->v.size() && q->v.back() >= q->at) {
            if (!q->said)
              q->after = q->v.size();
            q->said = true;
          }
          return q->said;
        },
        &q);
    at_bitmap_free(b);
    c.step();
    if (!q.said) {
      if (!s)
        c.fail(fmt("null:%s", f.name), "%s: no result without cancelling", what.c_str());
    } else {
      if (s)
        c.fail(fmt("not-null:%s", f.name), "%s: cancelled at progress %g, yet a result came back", what.c_str(), at);
      if (q.v.back() == 1.0f)
        c.fail(fmt("done:%s", f.name), "%s: cancelled at progress %g, yet completion was reported", what.c_str(), at);
      double lim = q.v[q.after - 1] < 0.333 ? 0.333 : 0.666;
      size_t more = 0;
      for (size_t i = q.after; i < q.v.size(); i++)
        if (q.v[i] < lim || (lim < 0.5 && q.v[i] > 0.334))
          more++;
      if (more)
        c.fail(fmt("goes-on:%s", f.name), "%s: cancelled at progress %g, yet work was done until %g", what.c_str(), q.v[q.after - 1], q.v.back());
    }
    if (s)
      at_splines_free(s);
  }
}

static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C13";
  k.bounds = fmt("all two-colour 3x%u pictures in five configurations; patterned pictures of all sizes out of ten widths and heights up to %u in eight patterns", th ? 4 : 3, th ? 1000 : 300);
  for (unsigned f = 0; f < 5; f++)
    k.spaces.push_back({fmt("3x3-%s", CF[f].name), 1ull << (th ? 12 : 9), [=](u64 i, Ctx &c) {
                          Img im;
                          im.w = 3;
                          im.h = th ? 4 : 3;
                          im.np = i % 2 ? 3 : 1;
                          for (unsigned q = 0; q < im.w * im.h; q++)
                            im.px += std::string(im.np, (i >> q & 1) ? 0 : (char)255);
                          one(c, im, CF[f]);
                        }});
  static std::vector<unsigned> Z = {1, 2, 3, 7, 10, 31, 33, 100, 300};
  if (th)
    Z.push_back(1000);
  k.spaces.push_back({"sizes", Z.size() * Z.size() * 8, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        Img im;
                        im.w = Z[p(Z.size())];
                        im.h = Z[p(Z.size())];
                        unsigned kind = p(8);
                        im.np = 1;
                        if (im.w * im.h > 100000 && kind % 4 == 2)
                          return;
                        for (unsigned y = 0; y < im.h; y++)
                          for (unsigned x = 0; x < im.w; x++)
                            im.px += (char)(kind % 4 == 0 ? 0 : kind % 4 == 1 ? (x % 20 < 10) != (y % 20 < 10) ? 0 : 255 : kind % 4 == 2 ? (x % 4 && y % 4 ? 0 : 255) : y % 8 < 3 ? 0 : 255);
                        one(c, im, CF[kind < 4 ? 0 : kind < 6 ? 1 : 2]);
                      },
                      100});
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
