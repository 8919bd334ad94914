// C19: every option of the command line has the effect of the library option of that name, in every spelling.
// USES: cli
#include "cli.hpp"
#include "files.hpp"

typedef at_fitting_opts_type FO;
typedef at_input_opts_type IO;
typedef at_output_opts_type OO;
struct Opt {
  const char *name;
  std::vector<std::string> values; // empty: a flag
  std::function<void(const std::string &, FO *, IO *, OO *)> set;
  bool shows; // some value makes a difference to the output of at least one picture
};
static float F(const std::string &v) { return (float)atof(v.c_str()); }
static unsigned U(const std::string &v) { return (unsigned)atoi(v.c_str()); }
static std::vector<Opt> OPTS = {
    {"background-color", {"FFFFFF", "ffffff", "102030", "00aBcD", "F04102"}, [](const std::string &v, FO *f, IO *i, OO *) {
       unsigned x = strtoul(v.c_str(), 0, 16);
       at_color_free(f->background_color);
       f->background_color = at_color_new(x >> 16, x >> 8, x);
       at_color_free(i->background_color);
       i->background_color = at_color_copy(f->background_color);
     }, true},
    {"centerline", {}, [](const std::string &, FO *f, IO *, OO *) { f->centerline = true; }, true},
    {"charcode", {"0", "61", "0x3d", "075"}, [](const std::string &v, FO *f, IO *i, OO *) { f->charcode = i->charcode = strtoul(v.c_str(), 0, 0); }, false},
    {"color-count", {"0", "1", "2", "3", "5", "256", "08", "+6"}, [](const std::string &v, FO *f, IO *, OO *) { f->color_count = U(v); }, true},
    {"corner-always-threshold", {"10", "60", "120.5", "179", "6e1", "+7.5e+1"}, [](const std::string &v, FO *f, IO *, OO *) { f->corner_always_threshold = F(v); }, true},
    {"corner-surround", {"0", "1", "2", "4", "7", "010"}, [](const std::string &v, FO *f, IO *, OO *) { f->corner_surround = U(v); }, true},
    {"corner-threshold", {"30", "100", "150", "175.25", "1e2", "0120.", "0x50"}, [](const std::string &v, FO *f, IO *, OO *) { f->corner_threshold = F(v); }, true},
    {"despeckle-level", {"0", "1", "3", "5", "20", "012"}, [](const std::string &v, FO *f, IO *, OO *) { f->despeckle_level = U(v); }, true},
    {"despeckle-tightness", {"0", ".5", "2.0", "8", "5e-1"}, [](const std::string &v, FO *f, IO *, OO *) { f->despeckle_tightness = F(v); }, false},
    {"dpi", {"72", "100", "300", "0144"}, [](const std::string &v, FO *, IO *, OO *o) { o->dpi = U(v); }, false},
    {"error-threshold", {"0.1", ".5", "2", "10", "1e-1", "5.e-1", "012", "0x1p-1"}, [](const std::string &v, FO *f, IO *, OO *) { f->error_threshold = F(v); }, true},
    {"filter-iterations", {"0", "1", "2", "4", "10", "03", "011"}, [](const std::string &v, FO *f, IO *, OO *) { f->filter_iterations = U(v); }, true},
    {"line-reversion-threshold", {"0.0001", "0.01", "0.5", "4", "1e-4"}, [](const std::string &v, FO *f, IO *, OO *) { f->line_reversion_threshold = F(v); }, true},
    {"line-threshold", {"0.01", ".3", "1", "3.5", "35e-1"}, [](const std::string &v, FO *f, IO *, OO *) { f->line_threshold = F(v); }, true},
    {"noise-removal", {"0", "0.5", ".99", "1", "+.5"}, [](const std::string &v, FO *f, IO *, OO *) { f->noise_removal = F(v); }, false},
    {"preserve-width", {}, [](const std::string &, FO *f, IO *, OO *) { f->preserve_width = true; }, false},
    {"remove-adjacent-corners", {}, [](const std::string &, FO *f, IO *, OO *) { f->remove_adjacent_corners = true; }, true},
    {"remove-knees", {}, [](const std::string &, FO *f, IO *, OO *) { f->remove_knees = true; }, false},
    {"tangent-surround", {"1", "2", "3", "6", "010"}, [](const std::string &v, FO *f, IO *, OO *) { f->tangent_surround = U(v); }, true},
    {"width-weight-factor", {"0.5", "1", "6", "20", "6e0"}, [](const std::string &v, FO *f, IO *, OO *) { f->width_weight_factor = F(v); }, false},
    {"align-threshold", {"1"}, [](const std::string &, FO *, IO *, OO *) {}, false},
    {"range", {"1"}, [](const std::string &, FO *, IO *, OO *) {}, false},
    {"report-progress", {}, [](const std::string &, FO *, IO *, OO *) {}, false},
};
// flags and names that also take part when looking for unambiguous abbreviations
static const char *OTHERS[] = {"debug-arch", "debug-bitmap", "help", "input-format", "list-output-formats", "list-input-formats", "log", "output-file", "output-format", "version"};

struct Set { // one use of an option
  unsigned opt, val;
};
static std::vector<Set> SETS; // every option with every value
static void apply(const Set &s, FO *f, IO *i, OO *o) { OPTS[s.opt].set(OPTS[s.opt].values.empty() ? "" : OPTS[s.opt].values[s.val], f, i, o); }
static std::string spelled(const Set &s) { return std::string(OPTS[s.opt].name) + (OPTS[s.opt].values.empty() ? "" : "=" + OPTS[s.opt].values[s.val]); }

// pictures that make the options visible
static Bytes picture(unsigned q) {
  unsigned w = 44, h = 36;
  Bytes r = fmt("P6\n%u %u\n255\n", w, h);
  for (int y = 0; y < (int)h; y++)
    for (int x = 0; x < (int)w; x++) {
      unsigned c = 0xffffff;
      double d = (x - 13) * (x - 13) + (y - 14) * (y - 14) * 1.6;
      if (q == 0) {
        if (d < 120)
          c = d < 20 ? 0xf04102 : 0x102030;
        if (x > 26 && x < 40 && y > 5 && y < 5 + (x - 24) / 2 + 3)
          c = 0x00abcd;
        if (y > 24 && y < 33 && x > 4 && x < 40 && (y - 25) * 3 < x + 3 * ((x / 5) % 2))
          c = x > 20 ? 0x182838 : 0x884410;
        if ((x * 7 + y * 13) % 41 == 0)
          c = 0x181818 + 0x101010 * (x % 5);
      } else {
        if (y / 2 == 3 || (y > 10 && abs(x - y) < 2) || (y > 8 && y < 30 && abs(x - 36) < 1 + y / 8) || (d > 60 && d < 110))
          c = 0x000000;
      }
      r += (char)(c >> 16);
      r += (char)(c >> 8);
      r += (char)c;
    }
  return r;
}
static std::string shorten(const std::string &s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }
static void check_run(Ctx &c, const char *key, const std::vector<std::string> &args, const Job &j, const std::string &out_file) {
  Scratch &s = Scratch::get();
  s.clear();
  put(s.path("in." + j.in_suffix), j.file);
  Done d = by_library(j);
  c.note("%s", joined(args).c_str());
  Ran r = run_cli(args);
  c.step(2);
  c.trace(1);
  c.state(mc::hash_str(d.out));
  if (r.signal || r.asan || r.exit > 1) {
    c.fail(fmt("%s:died", key), "autotrace %s: %s: %s", joined(args).c_str(), r.how().c_str(), shorten(r.err).c_str());
    return;
  }
  if (d.fatal != (r.exit != 0)) {
    c.fail(fmt("%s:status", key), "autotrace %s: %s, library: %s", joined(args).c_str(), r.how().c_str(), d.fatal ? d.msg.c_str() : "no error");
    return;
  }
  if (d.fatal)
    return;
  Bytes got;
  if (out_file.empty())
    got = r.out;
  else {
    if (!slurp(s.path(out_file), got))
      c.fail(fmt("%s:missing", key), "autotrace %s: no output file", joined(args).c_str());
    if (r.out.size() && j.out_suffix != "ild")
      c.fail(fmt("%s:stdout", key), "autotrace %s: %zu bytes on standard output", joined(args).c_str(), r.out.size());
  }
  if (got != d.out)
    c.fail(fmt("%s:output", key), "autotrace %s: %zu bytes differ from the %zu bytes of the library", joined(args).c_str(), got.size(), d.out.size());
  else
    c.nontrivial(mc::hash_str(joined(args)));
  static int n;
  if (!n++)
    c.sample("autotrace " + joined(args));
}
static const char *FM[] = {"svg", "eps", "ai", "p2e", "pdf", "epd", "sk", "pov", "fig", "mif", "dxf", "plt", "ild", "er", "ugs", "emf", "cgm", "dr2d"};

static mc::Check build(bool th) {
  mc::Check k;
  autotrace_init();
  for (unsigned o = 0; o < OPTS.size(); o++)
    for (unsigned v = 0; v < std::max<size_t>(1, OPTS[o].values.size()); v++)
      SETS.push_back({o, v});
  // every spelling of every option
  struct Sp2 {
    unsigned set;
    std::string name;
  };
  static std::vector<Sp2> names;
  std::vector<std::string> all;
  for (auto &o : OPTS)
    all.push_back(o.name);
  for (auto n : OTHERS)
    all.push_back(n);
  std::set<unsigned> first;
  for (unsigned s = 0; s < SETS.size(); s++) {
    std::string n = OPTS[SETS[s].opt].name;
    bool one = first.insert(SETS[s].opt).second; // abbreviations with one value only
    for (size_t l = one ? 1 : n.size(); l <= n.size(); l++) {
      unsigned m = 0;
      for (auto &a : all)
        m += a.compare(0, l, n, 0, l) == 0;
      if (m == 1 || l == n.size())
        names.push_back({s, n.substr(0, l)});
    }
  }
  k.property = "C19";
  k.bounds = fmt("%zu uses of %zu options in 4 spellings and all unambiguous abbreviations, on two pictures, alone and %s of two; 18 output formats to files and standard output; %s input files by name and by option", SETS.size(), OPTS.size(), th ? "all pairs" : "pairs", "all");
  k.spaces.push_back({"spelling", names.size() * 4, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned q = p(4);
                        auto n = names[p(names.size())];
                        Set s = SETS[n.set];
                        std::vector<std::string> a;
                        std::string nm = (q % 2 ? "--" : "-") + n.name;
                        bool flag = OPTS[s.opt].values.empty();
                        if (flag)
                          a = {nm};
                        else if (q / 2)
                          a = {nm + "=" + OPTS[s.opt].values[s.val]};
                        else
                          a = {nm, OPTS[s.opt].values[s.val]};
                        if (flag && q / 2) // the option behind the file name
                          a = {"-output-format", "mif", "in.ppm", nm};
                        else {
                          a.push_back("-output-format");
                          a.push_back("mif");
                          a.push_back("in.ppm");
                        }
                        check_run(c, OPTS[s.opt].name, a, {"ppm", "mif", "", picture(n.set % 2), [=](FO *f, IO *i, OO *o) { apply(s, f, i, o); }}, "");
                      },
                      60});
  // every use on both pictures in four settings around it
  k.spaces.push_back({"single", SETS.size() * 2 * 4, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned q = p(2), m = p(4);
                        Set s = SETS[p(SETS.size())];
                        std::vector<std::string> a = {"--output-format=svg"};
                        if (m == 1)
                          a.insert(a.end(), {"-centerline", "-background-color", "FFFFFF"});
                        if (m == 2)
                          a.insert(a.end(), {"-despeckle-level", "6", "-color-count", "4"});
                        if (m == 3)
                          a.insert(a.end(), {"-centerline", "-preserve-width", "-output-format", "pdf"});
                        a.push_back("-" + spelled(s));
                        a.push_back("-output-file");
                        a.push_back("o.u.t");
                        a.push_back("in.ppm");
                        check_run(c, OPTS[s.opt].name, a, {"ppm", m == 3 ? "pdf" : "svg", "o.u.t", picture(q), [=](FO *f, IO *i, OO *o) {
                                                             if (m == 1) {
                                                               f->centerline = true;
                                                               f->background_color = at_color_new(255, 255, 255);
                                                             }
                                                             if (m == 2) {
                                                               f->despeckle_level = 6;
                                                               f->color_count = 4;
                                                             }
                                                             if (m == 3)
                                                               f->centerline = f->preserve_width = true;
                                                             apply(s, f, i, o);
                                                           }},
                                  "o.u.t");
                      },
                      60});
  // pairs, in both orders
  static std::vector<unsigned> pick;
  std::map<unsigned, unsigned> seen;
  for (unsigned s = 0; s < SETS.size(); s++)
    if (th ? true : SETS[s].val == 1 || OPTS[SETS[s].opt].values.size() < 2)
      pick.push_back(s);
  k.spaces.push_back({"pairs", (u64)pick.size() * pick.size(), [](u64 i, Ctx &c) {
                        Pick p(i);
                        Set a = SETS[pick[p(pick.size())]], b = SETS[pick[p(pick.size())]];
                        check_run(c, OPTS[b.opt].name, {"-" + spelled(a), "--" + spelled(b), "-output-fi=o.mif", "in.ppm"}, {"ppm", "mif", "o.mif", picture(a.opt % 2), [=](FO *f, IO *i, OO *o) {
                                                                                                                                 apply(a, f, i, o);
                                                                                                                                 apply(b, f, i, o);
                                                                                                                               }},
                                  "o.mif");
                      },
                      60});
  // options that only count together, in every order
  k.spaces.push_back({"together", 6 * 6 * 2, [](u64 i, Ctx &c) {
                        static const char *V[] = {"0.5", "1", "3", "6", "20", "0.25"};
                        Pick p(i);
                        unsigned order = p(6), v = p(6), q = p(2);
                        std::vector<std::string> a = {"-centerline", "-preserve-width", std::string("-width-weight-factor=") + V[v]};
                        std::rotate(a.begin(), a.begin() + order % 3, a.end());
                        if (order >= 3)
                          std::swap(a[0], a[1]);
                        a.insert(a.end(), {"-output-file", "o.er", "in.ppm"});
                        check_run(c, "width-weight-factor", a, {"ppm", "er", "o.er", picture(q), [=](FO *f, IO *, OO *) {
                                                                  f->centerline = f->preserve_width = true;
                                                                  f->width_weight_factor = F(V[v]);
                                                                }},
                                  "o.er");
                      },
                      60});
  // formats and destinations
  k.spaces.push_back({"formats", 18 * 6 * 2, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned q = p(6), cl = p(2);
                        std::string f = FM[p(18)], F2;
                        for (char ch : f)
                          F2 += toupper(ch);
                        std::vector<std::string> a;
                        std::string file;
                        switch (q) {
                        case 0:
                          file = "o." + f;
                          a = {"-output-file", file};
                          break;
                        case 1:
                          file = "a.b." + F2;
                          a = {"-output-file", file};
                          break;
                        case 2: // the option wins over the name
                          file = "o.svg";
                          a = {"-output-file", file, "-output-format", f};
                          break;
                        case 3:
                          file = "o";
                          a = {"-output-file", file, "-output-format", F2};
                          break;
                        case 4:
                          a = {"-output-format", f};
                          break;
                        case 5: // the last one counts
                          a = {"-output-format", "svg", "-output-format=" + f};
                          break;
                        }
                        if (cl)
                          a.insert(a.begin(), "-centerline");
                        a.push_back("in.ppm");
                        check_run(c, ("format-" + f).c_str(), a, {"ppm", f, file, picture(1), [=](FO *o, IO *, OO *) { o->centerline = cl; }}, file);
                      },
                      60});
  // no format at all: EPS; unknown ending: EPS
  k.spaces.push_back({"default", 6, [](u64 i, Ctx &c) {
                        static const char *N[] = {"", "noending", "odd.xyz", "dir.svg.x", "trailing.", ".eps"};
                        std::string file = N[i];
                        std::vector<std::string> a = {"in.ppm"};
                        if (i)
                          a = {"in.ppm", "-output-file", file};
                        check_run(c, "default", a, {"ppm", "eps", file, picture(0), nullptr}, file);
                      },
                      60});
  // input files
  static std::vector<Base> bs = bases();
  k.spaces.push_back({"inputs", bs.size() * 3 * 2, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned q = p(3), cc = p(2);
                        Base b = bs[p(bs.size())];
                        Scratch &s = Scratch::get();
                        std::string up;
                        for (char ch : b.suffix)
                          up += toupper(ch);
                        // the file is found as in.<suffix>; other names are links to it
                        std::string in = "in." + b.suffix;
                        std::vector<std::string> a = {"-output-format", "svg"};
                        if (q == 1)
                          a.insert(a.end(), {"-input-format", up});
                        if (q == 2) // the option wins over the ending
                          a.insert(a.end(), {"-input-format=" + b.suffix});
                        if (b.suffix == "gf")
                          a.insert(a.end(), {"-charcode", cc ? "61" : "60"});
                        a.push_back(s.path(in));
                        check_run(c, ("input-" + b.suffix).c_str(), a, {b.suffix, "svg", "", b.file, [=](FO *f, IO *i, OO *) {
                                                                          if (b.suffix == "gf")
                                                                            f->charcode = i->charcode = cc ? 61 : 60;
                                                                        }},
                                  "");
                      },
                      60});
  // a font with every character, asked for in every notation
  static Bytes font;
  {
    Gf f;
    for (unsigned n = 0; n < 256; n++) {
      GfChar c;
      c.code = n;
      c.max_col = 9;
      std::vector<int> row = {1};
      for (int b = 7; b >= 0; b--)
        row.push_back(n >> b & 1);
      c.max_row = 1;
      c.body = gf_paint({row, std::vector<int>(9, 1)}, 1);
      f.chars.push_back(c);
    }
    font = f.file();
  }
  k.spaces.push_back({"charcodes", 260 * 4, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned n = p(260), q = p(4);
                        static const char *N[] = {"%u", "0x%x", "0X%X", "0%o"};
                        std::string v = fmt(N[q], n);
                        check_run(c, "charcodes", {"-output-format", n % 2 ? "ugs" : "svg", "-charcode", v, "in.gf"}, {"gf", n % 2 ? "ugs" : "svg", "", font, [=](FO *f, IO *i, OO *) { f->charcode = i->charcode = n; }}, "");
                      },
                      60});
  return k;
}
int main(int argc, char **argv) { return with_scratch(argc, argv, build); }
