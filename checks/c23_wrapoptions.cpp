// C23: the option classes of the C++ wrapper: builders, JSON in and out, copies and assignments.
// USES: wrapper
#include "trace.hpp"
#include <memory>
#include "FittingOptionsBuidler.h"
#include "InputOptionsBuilder.h"
#include "OutputOptionsBuilder.h"
using json11::Json;

typedef _at_fitting_opts_type FO;
struct Field {
  const char *key;
  unsigned FO::*u;
  float FO::*f;
  bool FO::*b;
  std::function<void(FittingOptionsBuilder &, double)> set;
};
#define U(k, m, s) {k, &FO::m, nullptr, nullptr, [](FittingOptionsBuilder &x, double v) { x.s((unsigned)v); }}
#define FL(k, m, s) {k, nullptr, &FO::m, nullptr, [](FittingOptionsBuilder &x, double v) { x.s((float)v); }}
#define B(k, m, s) {k, nullptr, nullptr, &FO::m, [](FittingOptionsBuilder &x, double v) { x.s(v != 0); }}
static const std::vector<Field> FS = {
    U("charcode", charcode, setCharCode), U("color_count", color_count, setColorCount), U("corner_surround", corner_surround, setCornerSurround), U("filter_iterations", filter_iterations, setFilterIterations), U("tangent_surround", tangent_surround, setTangentSurround), U("despeckle_level", despeckle_level, setDespeckleLevel),
    FL("corner_threshold", corner_threshold, setCornerThreshold), FL("error_threshold", error_threshold, setErrorThreshold), FL("corner_always_threshold", corner_always_threshold, setCornerAlwaysThreshold), FL("line_reversion_threshold", line_reversion_threshold, setLineReversionThreshold), FL("line_threshold", line_threshold, setLineThreshold), FL("despeckle_tightness", despeckle_tightness, setDespeckleTightness), FL("noise_removal", noise_removal, setNoiseRemoval), FL("width_weight_factor", width_weight_factor, setWidthWeightFactor),
    B("remove_adjacent_corners", remove_adjacent_corners, setRemoveAdjacentCorners), B("centerline", centerline, setCenterline), B("preserve_width", preserve_width, setPreserveWidth)};
struct Model { // the 17 fields and the background colour
  double v[17];
  unsigned char r, g, b;
};
static const Model DEF = {{0, 0, 4, 4, 3, 0, 100, 2, 60, .01f, 1, 2, .99f, 6, 0, 0, 0}, 0, 0, 0};
static std::string diff(const FittingOptions &o, const Model &m) {
  for (size_t i = 0; i < FS.size(); i++) {
    double have = FS[i].u ? o.*FS[i].u : FS[i].f ? (double)(o.*FS[i].f) : o.*FS[i].b;
    double want = FS[i].f ? (double)(float)m.v[i] : m.v[i];
    if (have != want)
      return fmt("%s is %.9g instead of %.9g", FS[i].key, have, want);
  }
  if (!o.background_color)
    return "no background colour";
  if (o.background_color->r != m.r || o.background_color->g != m.g || o.background_color->b != m.b)
    return fmt("background colour %u,%u,%u instead of %u,%u,%u", o.background_color->r, o.background_color->g, o.background_color->b, m.r, m.g, m.b);
  return "";
}
static Json parse(const std::string &s) {
  std::string e;
  return Json::parse(s, e, json11::STANDARD);
}
static const double NUM[] = {0, 1, 2, 7, 255, 256, 65535, 65536, 1000000, 2147483647};
static const double DEC[] = {0, 1, .5, 2.25, .01, .99, 1e-6, 3.6, 2.2, 123456.789, 16777217, 1e30, 1e-40, 100, 179.99, .1};
static unsigned nvals(const Field &f) { return f.b ? 2 : f.u ? sizeof NUM / sizeof *NUM : sizeof DEC / sizeof *DEC; }
static double val(const Field &f, unsigned i) { return f.b ? i : f.u ? NUM[i] : DEC[i]; }
static std::string text(const Field &f, double v) { return f.b ? (v ? "true" : "false") : fmt("%.17g", v); }
struct Use {
  unsigned field;
  double v;
};
static std::vector<Use> USES;
static void judge(Ctx &c, const char *key, const std::string &what, const FittingOptions &o, const Model &m) {
  std::string d = diff(o, m);
  c.step(1);
  if (!d.empty())
    c.fail(fmt("%s:value", key), "%s: %s", what.c_str(), d.c_str());
  else
    c.nontrivial(mc::hash_str(what));
}
// the part values that a colour in JSON can have: text and what it means (-1: not a colour part)
static const struct {
  const char *text;
  int v;
} PARTS[] = {{"0", 0}, {"1", 1}, {"127", 127}, {"254", 254}, {"255", 255}, {"2.5", 2}, {"254.5", 254}, {"-1", -1}, {"256", -1}, {"300", -1}, {"-256", -1}, {"512", -1}, {"\"5\"", -1}, {"true", -1}, {"null", -1}, {"[7]", -1}, {nullptr, -1}};
static const unsigned NP = sizeof PARTS / sizeof *PARTS;

// ---- histories of three variables ----
template <class T> struct Kind;
template <> struct Kind<FittingOptions> {
  typedef Model M;
  static M def() { return DEF; }
  static void change(FittingOptions &o, M &m, unsigned n) {
    for (size_t i = 0; i < FS.size(); i++) {
      m.v[i] = FS[i].b ? (n + i) & 1 : n * 20 + i;
      if (FS[i].u)
        o.*FS[i].u = (unsigned)m.v[i];
      else if (FS[i].f)
        o.*FS[i].f = (float)m.v[i];
      else
        o.*FS[i].b = m.v[i] != 0;
    }
    *o.background_color = {m.r = (unsigned char)(n * 9), m.g = (unsigned char)(255 - n), m.b = (unsigned char)(n + 1)};
  }
  static FittingOptions built(M &m, unsigned n) {
    FittingOptionsBuilder b = FittingOptionsBuilder::builder();
    m = DEF;
    b.setBackgroudColor({m.r = (unsigned char)n, m.g = 255, m.b = (unsigned char)(n * 2)});
    b.setBackgroudColor({m.r = (unsigned char)(n + 1), m.g = 254, m.b = (unsigned char)(n * 3)});
    m.v[0] = n;
    FittingOptionsBuilder b2 = b.setCharCode(n); // builders are values, too
    FittingOptions r = b2.build();
    b2.setBackgroudColor({9, 9, 9}).setCharCode(99);
    b.setBackgroudColor({8, 8, 8});
    return r;
  }
  static std::string diff(const FittingOptions &o, const M &m) { return ::diff(o, m); }
  static const char *name() { return "fitting-history"; }
};
template <> struct Kind<InputOptions> {
  struct M {
    unsigned code;
    unsigned char r, g, b;
  };
  static M def() { return {0, 0, 0, 0}; }
  static void change(InputOptions &o, M &m, unsigned n) {
    o.charcode = m.code = n * 1000;
    *o.background_color = {m.r = (unsigned char)(n * 9), m.g = (unsigned char)(255 - n), m.b = (unsigned char)(n + 1)};
  }
  static InputOptions built(M &m, unsigned n) {
    InputOptionsBuilder b = InputOptionsBuilder::builder();
    b.setBackgroudColor({1, 2, 3});
    b.setBackgroudColor({m.r = (unsigned char)(n + 1), m.g = 254, m.b = (unsigned char)(n * 3)});
    m.code = n;
    InputOptionsBuilder b2 = b.setCharCode(n);
    InputOptions r = b2.build();
    b2.setBackgroudColor({9, 9, 9}).setCharCode(99);
    b.setBackgroudColor({8, 8, 8});
    return r;
  }
  static std::string diff(const InputOptions &o, const M &m) {
    if (o.charcode != m.code)
      return fmt("charcode %u instead of %u", o.charcode, m.code);
    if (!o.background_color || o.background_color->r != m.r || o.background_color->g != m.g || o.background_color->b != m.b)
      return "other background colour";
    return "";
  }
  static const char *name() { return "input-history"; }
};
template <> struct Kind<OutputOptions> {
  typedef int M;
  static M def() { return 72; }
  static void change(OutputOptions &o, M &m, unsigned n) { o.dpi = m = (int)n * 1000 - 3000; }
  static OutputOptions built(M &m, unsigned n) {
    OutputOptionsBuilder b = OutputOptionsBuilder::builder();
    m = 5 + n;
    OutputOptions r = b.setDpi(1).setDpi(m).build();
    b.setDpi(7);
    return r;
  }
  static std::string diff(const OutputOptions &o, const M &m) { return o.dpi == m ? "" : fmt("dpi %d instead of %d", o.dpi, m); }
  static const char *name() { return "output-history"; }
};
template <class T> static void assign(T &a, const T &b) { a = b; }
template <> void assign(OutputOptions &a, const OutputOptions &b) { a.dpi = b.dpi; } // has no assignment
template <class T> static void add(mc::Check &k, unsigned depth) {
  static const unsigned S = 3, OPS = S * 5 + S * S + S * (S - 1);
  u64 n = 1;
  for (unsigned d = 0; d < depth; d++)
    n *= OPS;
  k.spaces.push_back({Kind<T>::name(), n, [=](u64 i, Ctx &c) {
                        unsigned op[8];
                        for (unsigned d = depth; d--; i /= OPS)
                          op[d] = i % OPS;
                        char bad[200] = "";
                        long before = mc::heap_live();
                        {
                          std::unique_ptr<T> v[S];
                          typename Kind<T>::M m[S];
                          for (unsigned d = 0; d < depth && !*bad; d++) {
                            unsigned o = op[d], s = o % S;
                            if (o < S) {
                              v[s].reset(new T());
                              m[s] = Kind<T>::def();
                            } else if (o < 2 * S) {
                              if (v[s])
                                Kind<T>::change(*v[s], m[s], d + 1);
                            } else if (o < 3 * S) {
                              if (v[s]) // to JSON and back
                                v[s].reset(new T(Json(v[s]->toJson())));
                            } else if (o < 4 * S) {
                              v[s].reset(new T(Kind<T>::built(m[s], d + 1)));
                            } else if (o < 5 * S) {
                              v[s].reset();
                            } else if ((o -= 5 * S) < S * S) { // assignment, to itself too
                              unsigned t = o / S;
                              if (v[s] && v[t]) {
                                assign(*v[t], *v[s]);
                                m[t] = m[s];
                              }
                            } else {
                              o -= S * S;
                              unsigned t = (s + 1 + o / S) % S;
                              if (v[s]) {
                                v[t].reset(new T(*v[s]));
                                m[t] = m[s];
                              }
                            }
                            for (unsigned q = 0; q < S && !*bad; q++)
                              if (v[q])
                                snprintf(bad, sizeof bad, "%s", Kind<T>::diff(*v[q], m[q]).c_str());
                          }
                        }
                        long left = mc::heap_live() - before;
                        std::string h;
                        for (unsigned d = 0; d < depth; d++)
                          h += fmt("%u ", op[d]);
                        c.note("%s", h.c_str());
                        if (*bad)
                          c.fail(fmt("%s:value", Kind<T>::name()), "operations %s: %s", h.c_str(), bad);
                        if (left)
                          c.fail(fmt("%s:heap", Kind<T>::name()), "operations %s: %ld blocks are left over", h.c_str(), left);
                        c.state(mc::hash_str(h));
                        c.step(depth);
                        c.trace(1);
                        c.nontrivial(mc::hash_str(h));
                      }});
}
static mc::Check build(bool th) {
  mc::Check k;
  k.property = "C23";
  Json(FittingOptions().toJson()).dump(); // what json11 keeps for ever
  for (unsigned f = 0; f < FS.size(); f++)
    for (unsigned i = 0; i < nvals(FS[f]); i++)
      USES.push_back({f, val(FS[f], i)});
  k.bounds = fmt("17 fields with all pairs of %zu values by builder and by JSON, 25 values of JSON per key, %u^3 colours, texts that are no object, every sequence of %u operations on three variables", USES.size(), NP, th ? 4 : 3);
  k.spaces.push_back({"pairs", USES.size() * USES.size(), [](u64 i, Ctx &c) {
                        Pick p(i);
                        Use a = USES[p(USES.size())], b = USES[p(USES.size())];
                        Model m = DEF;
                        m.v[a.field] = a.v;
                        m.v[b.field] = b.v;
                        std::string what = fmt("%s %.9g then %s %.9g", FS[a.field].key, a.v, FS[b.field].key, b.v);
                        c.note("%s", what.c_str());
                        c.state(mc::hash_str(what));
                        c.trace(1);
                        FittingOptionsBuilder x = FittingOptionsBuilder::builder();
                        FS[a.field].set(x, a.v);
                        FS[b.field].set(x, b.v);
                        FittingOptions o = x.build();
                        judge(c, "builder", what, o, m);
                        std::string js = a.field == b.field ? fmt("{\"%s\": %s}", FS[b.field].key, text(FS[b.field], b.v).c_str()) : fmt("{\"%s\": %s, \"%s\": %s}", FS[a.field].key, text(FS[a.field], a.v).c_str(), FS[b.field].key, text(FS[b.field], b.v).c_str());
                        judge(c, "json", js, FittingOptions(parse(js)), m);
                        std::string out = Json(o.toJson()).dump();
                        judge(c, "roundtrip", out, FittingOptions(parse(out)), m);
                      }});
  static const char *VAL[] = {"true", "false", "null", "\"5\"", "\"true\"", "\"\"", "[]", "[5]", "{}", "{\"red\": 5}", "5", "5.75", "0", "1"};
  k.spaces.push_back({"types", FS.size() * 14, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned f = p(FS.size());
                        std::string v = VAL[p(14)];
                        Model m = DEF;
                        bool num = isdigit(v[0]), bo = v == "true" || v == "false";
                        if (FS[f].b ? bo : num)
                          m.v[f] = bo ? v == "true" : FS[f].u ? floor(atof(v.c_str())) : atof(v.c_str());
                        std::string js = fmt("{\"x\": 1, \"%s\": %s, \"y\": {}}", FS[f].key, v.c_str());
                        c.note("%s", js.c_str());
                        c.state(mc::hash_str(js));
                        c.trace(1);
                        judge(c, "types", js, FittingOptions(parse(js)), m);
                        if (!f) {
                          InputOptions in(parse(js));
                          if (in.charcode != (unsigned)m.v[0] || !in.background_color || in.background_color->r || in.background_color->g || in.background_color->b)
                            c.fail("types:input", "%s: charcode %u", js.c_str(), in.charcode);
                          js = "{\"dpi\": " + v + "}";
                          OutputOptions out(parse(js));
                          if (out.dpi != (num ? atoi(v.c_str()) : 72))
                            c.fail("types:output", "%s: dpi %d", js.c_str(), out.dpi);
                        }
                      }});
  k.spaces.push_back({"colours", NP * NP * NP, [](u64 i, Ctx &c) {
                        Pick p(i);
                        int v[3];
                        std::string js = "{\"background_color\": {";
                        static const char *N[] = {"red", "green", "blue"};
                        bool ok = true, first = true;
                        for (int q = 0; q < 3; q++) {
                          auto x = PARTS[p(NP)];
                          v[q] = x.v;
                          ok &= x.v >= 0;
                          if (x.text) {
                            js += fmt("%s\"%s\": %s", first ? "" : ", ", N[q], x.text);
                            first = false;
                          }
                        }
                        js += "}}";
                        Model m = DEF;
                        if (ok)
                          m.r = v[0], m.g = v[1], m.b = v[2];
                        c.note("%s", js.c_str());
                        c.state(mc::hash_str(js));
                        c.trace(1);
                        judge(c, "colours", js, FittingOptions(parse(js)), m);
                        InputOptions in(parse(js));
                        if (in.charcode || !in.background_color || in.background_color->r != m.r || in.background_color->g != m.g || in.background_color->b != m.b)
                          c.fail("colours:input", "%s: %u,%u,%u", js.c_str(), in.background_color->r, in.background_color->g, in.background_color->b);
                      }});
  // every colour of a grid by builder, out to JSON and back
  k.spaces.push_back({"grid", th ? 86 * 86 * 86 : 18 * 18 * 18, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned n = th ? 86 : 18, s = th ? 3 : 15;
                        at_color x = {(unsigned char)(p(n) * s), (unsigned char)(p(n) * s), (unsigned char)(p(n) * s)};
                        Model m = DEF;
                        m.r = x.r, m.g = x.g, m.b = x.b;
                        std::string what = fmt("colour %u,%u,%u", x.r, x.g, x.b);
                        c.note("%s", what.c_str());
                        c.state(mc::hash_str(what));
                        c.trace(1);
                        FittingOptions o = FittingOptionsBuilder::builder().setBackgroudColor(x).build();
                        judge(c, "grid", what, o, m);
                        judge(c, "grid-json", what, FittingOptions(parse(Json(o.toJson()).dump())), m);
                        InputOptions in = InputOptionsBuilder::builder().setBackgroudColor(x).setCharCode(5).build(), in2(parse(Json(in.toJson()).dump()));
                        for (auto *q : {&in, &in2})
                          if (q->charcode != 5 || q->background_color->r != x.r || q->background_color->g != x.g || q->background_color->b != x.b)
                            c.fail("grid:input", "%s: %u,%u,%u", what.c_str(), q->background_color->r, q->background_color->g, q->background_color->b);
                      }});
  k.spaces.push_back({"notobject", 3 * 12, [](u64 i, Ctx &c) {
                        Pick p(i);
                        static const char *T[] = {"", "5", "null", "true", "\"x\"", "[]", "[{}]", "{", "{\"a\"}", "\"{}\"", "-", "{}"};
                        unsigned kind = p(3);
                        std::string t = T[p(12)];
                        bool object = t == "{}", threw = false;
                        c.note("%u %s", kind, t.c_str());
                        c.state(i);
                        c.trace(1);
                        c.step(1);
                        long before = mc::heap_live();
                        {
                          Json j = parse(t);
                          try {
                            if (kind == 0)
                              FittingOptions o(j);
                            else if (kind == 1)
                              InputOptions o(j);
                            else
                              OutputOptions o(j);
                          } catch (const std::runtime_error &) {
                            threw = true;
                          }
                        }
                        long left = mc::heap_live() - before;
                        if (threw == object)
                          c.fail("notobject:error", "'%s': %s", t.c_str(), threw ? "refused" : "accepted");
                        if (left)
                          c.fail("notobject:heap", "'%s': %ld blocks are left over", t.c_str(), left);
                        c.nontrivial(i);
                      }});
  add<FittingOptions>(k, th ? 4 : 3);
  add<InputOptions>(k, th ? 4 : 3);
  add<OutputOptions>(k, th ? 4 : 3);
  return k;
}
int main(int argc, char **argv) { return mc::run_main(argc, argv, build); }
