// C24: the Autotrace class and the buffer functions of the C++ wrapper give what the library gives.
// USES: wrapper flaky wrap=fopen
#include "cli.hpp"
#include "files.hpp"
#include <memory>
#include <stdexcept>
#include "FittingOptionsBuidler.h"
#include "InputOptionsBuilder.h"
#include "OutputOptionsBuilder.h"
#include "Autotrace.h"
#define ASSET_PATH "" // the folder it is in
#define main wrapper_main
#include "autotraceMain.cpp"
#undef main
#undef ASSET_PATH

static const char *FM[] = {"svg", "eps", "ai", "p2e", "pdf", "epd", "sk", "pov", "fig", "mif", "dxf", "plt", "ild", "er", "ugs", "emf", "cgm", "dr2d"};
static const char *PIC = "P2\n9 8\n255\n255 255 255 255 255 255 255 255 255 255 0 0 0 0 255 255 255 255 255 0 0 0 0 0 0 255 255 255 0 0 90 90 0 0 255 255 255 0 0 90 90 0 0 255 255 255 0 0 0 0 0 255 255 255 255 255 0 0 0 255 255 0 255 255 255 255 255 255 255 255 255 255\n";
static Bytes picture() { // coloured, with specks
  Bytes r = "P6\n24 20\n255\n";
  for (int y = 0; y < 20; y++)
    for (int x = 0; x < 24; x++) {
      unsigned c = 0xffffff;
      double d = (x - 9) * (x - 9) + (y - 9) * (y - 9) * 1.6;
      if (d < 60)
        c = d < 12 ? 0xf04102 : 0x102030;
      if (x > 15 && y > 3 && y < 3 + (x - 14))
        c = 0x00abcd;
      if ((x * 7 + y * 13) % 41 == 0)
        c = 0x181818 + 0x101010 * (x % 5);
      r += (char)(c >> 16);
      r += (char)(c >> 8);
      r += (char)c;
    }
  return r;
}
struct Set {
  FittingOptions f;
  InputOptions i;
  OutputOptions o;
};
// what the library does with the same settings
static Done reference(const Bytes &file, const std::string &in, const std::string &out, const std::string &name, const Set &s) {
  return by_library({in, out, name, file, [&](at_fitting_opts_type *f, at_input_opts_type *i, at_output_opts_type *o) {
                       *f = s.f;
                       f->background_color = at_color_copy(s.f.background_color);
                       i->charcode = s.i.charcode;
                       i->background_color = at_color_copy(s.i.background_color);
                       o->dpi = s.o.dpi;
                     }});
}
struct Got {
  bool ok = false;
  std::string error;
  long left = 0;
};
static Got produce(const std::string &in, const std::string &out, const Set &s, int times = 1) {
  Got g;
  g.error.reserve(2000);
  long before = mc::heap_live();
  {
    Options o(s.f, s.i, s.o);
    Autotrace a(in, out, o);
    for (int t = 0; t < times; t++) {
      auto r = a.produceOutput();
      g.ok = r.has_value();
      if (!g.ok)
        g.error.assign(r.error().substr(0, 1900).c_str());
    }
  }
  g.left = mc::heap_live() - before;
  return g;
}
static void compare(Ctx &c, const char *key, const std::string &what, const Bytes &file, const std::string &in, const std::string &out, const Set &s, int times = 1) {
  Scratch &sc = Scratch::get();
  sc.clear();
  std::string ip = sc.path("in." + in), op = sc.path("o." + out);
  put(ip, file);
  put(op, "OLD");
  c.note("%s", what.c_str());
  Done d = reference(file, in, out, op, s);
  c.state(mc::mix(mc::hash_str(d.out), d.fatal));
  c.trace(1);
  c.step(2);
  Got g = produce(ip, op, s, times);
  Bytes got;
  bool there = slurp(op, got);
  if (g.ok == d.fatal)
    c.fail(fmt("%s:result", key), "%s: %s, library: %s", what.c_str(), g.ok ? "success" : g.error.c_str(), d.fatal ? d.msg.c_str() : "no error");
  else if (g.ok && got != d.out)
    c.fail(fmt("%s:output", key), "%s: output differs from that of the library", what.c_str());
  else if (d.fatal && d.bitmap.px.empty() && (!there || got != "OLD"))
    c.fail(fmt("%s:lost", key), "%s: the earlier output file is lost", what.c_str());
  else if (d.fatal && g.error.empty())
    c.fail(fmt("%s:silent", key), "%s: no message", what.c_str());
  else
    c.nontrivial(mc::hash_str(what));
  if (g.left)
    c.fail(fmt("%s:heap", key), "%s: %ld blocks are left over", what.c_str(), g.left);
  Bytes in2;
  slurp(ip, in2);
  if (in2 != file)
    c.fail(fmt("%s:input", key), "%s: the input file was changed", what.c_str());
}
struct Use {
  const char *name;
  std::function<void(Set &)> set;
};
extern "C" int flaky_at; // flaky.c
static std::vector<Use> USES = {
    {"default", [](Set &) {}},
    {"white background", [](Set &s) { s.f = FittingOptionsBuilder::builder().setBackgroudColor({255, 255, 255}).build(); }},
    {"other background", [](Set &s) { s.f = FittingOptionsBuilder::builder().setBackgroudColor({16, 32, 48}).build(); }},
    {"input background", [](Set &s) { s.i = InputOptionsBuilder::builder().setBackgroudColor({200, 100, 50}).build(); }},
    {"charcode", [](Set &s) { s.i = InputOptionsBuilder::builder().setCharCode(60).build(); }},
    {"charcode 61", [](Set &s) { s.i = InputOptionsBuilder::builder().setCharCode(61).build(); }},
    {"color count 2", [](Set &s) { s.f = FittingOptionsBuilder::builder().setColorCount(2).build(); }},
    {"color count 1000", [](Set &s) { s.f = FittingOptionsBuilder::builder().setColorCount(1000).build(); }},
    {"corner always", [](Set &s) { s.f = FittingOptionsBuilder::builder().setCornerAlwaysThreshold(130).build(); }},
    {"corner surround", [](Set &s) { s.f = FittingOptionsBuilder::builder().setCornerSurround(1).build(); }},
    {"corner threshold", [](Set &s) { s.f = FittingOptionsBuilder::builder().setCornerThreshold(150).build(); }},
    {"error threshold", [](Set &s) { s.f = FittingOptionsBuilder::builder().setErrorThreshold(.2f).build(); }},
    {"filter iterations", [](Set &s) { s.f = FittingOptionsBuilder::builder().setFilterIterations(0).build(); }},
    {"line reversion", [](Set &s) { s.f = FittingOptionsBuilder::builder().setLineReversionThreshold(2).build(); }},
    {"line threshold", [](Set &s) { s.f = FittingOptionsBuilder::builder().setLineThreshold(.1f).build(); }},
    {"adjacent corners", [](Set &s) { s.f = FittingOptionsBuilder::builder().setRemoveAdjacentCorners(true).build(); }},
    {"tangent surround", [](Set &s) { s.f = FittingOptionsBuilder::builder().setTangentSurround(1).build(); }},
    {"despeckle", [](Set &s) { s.f = FittingOptionsBuilder::builder().setDespeckleLevel(4).setDespeckleTightness(1).setNoiseRemoval(.5f).build(); }},
    {"despeckle 30", [](Set &s) { s.f = FittingOptionsBuilder::builder().setDespeckleLevel(30).build(); }},
    {"despeckle tight 20", [](Set &s) { s.f = FittingOptionsBuilder::builder().setDespeckleLevel(3).setDespeckleTightness(20).build(); }},
    {"centerline", [](Set &s) { s.f = FittingOptionsBuilder::builder().setBackgroudColor({255, 255, 255}).setCenterline(true).build(); }},
    {"preserve width", [](Set &s) { s.f = FittingOptionsBuilder::builder().setBackgroudColor({255, 255, 255}).setCenterline(true).setPreserveWidth(true).setWidthWeightFactor(3).build(); }},
    {"dpi", [](Set &s) { s.o.dpi = 300; }},
};
static const char *JS[] = {"{}", "{\"background_color\": {\"red\": 255, \"green\": 255, \"blue\": 255}}", "{\"centerline\": true, \"background_color\": {\"red\": 255, \"green\": 255, \"blue\": 255}}", "{\"color_count\": 2, \"despeckle_level\": 3}", "{\"corner_surround\": 2, \"error_threshold\": 0.5, \"filter_iterations\": 1}", "{\"charcode\": 60}", "{\"line_threshold\": 0.25, \"x\": []}"};
static const char *BAD[] = {"", "{", "{]", "{\"a\":}", "nul", "{}x", "'x'"};

static mc::Check build(bool th) {
  mc::Check k;
  autotrace_init();
  k.property = "C24";
  k.bounds = fmt("%zu settings, 45 input files and 2 pictures in %s of 18 output formats, once and twice; every truncation of every input file; missing, unreadable and unknown files; outputs that are full after %s number of bytes; outputs where one of the first %s writes is refused; buffers with 7 times 2 times 2 option texts and wrong ones", USES.size(), "all", th ? "every" : "a selected", th ? "60" : "16");
  k.spaces.push_back({"settings", USES.size() * 18 * 2, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned u = p(USES.size());
                        std::string f = FM[p(18)];
                        int q = p(2);
                        Set s;
                        USES[u].set(s);
                        compare(c, "settings", fmt("%s to %s", USES[u].name, f.c_str()), q ? picture() : Bytes(PIC), q ? "ppm" : "pgm", f, s, 1 + q);
                      }});
  static std::vector<Base> bs = bases();
  k.spaces.push_back({"inputs", bs.size() * 18, [](u64 i, Ctx &c) {
                        Pick p(i);
                        Base b = bs[p(bs.size())];
                        std::string f = FM[p(18)];
                        if (b.suffix == "gf" && f == "ugs")
                          return; // depends on the font read before, by design
                        Set s;
                        s.i.charcode = 60;
                        if (b.suffix == "gf") { // the reader leaves marks in this process
                          Scratch &sc = Scratch::get();
                          sc.clear();
                          std::string ip = sc.path("in.gf"), op = sc.path("o." + f);
                          pid_t pid = fork();
                          if (pid) {
                            int st;
                            waitpid(pid, &st, 0);
                            c.step(1);
                            if (st)
                              c.fail("inputs:gf", "%s to %s: differs or died", b.name.c_str(), f.c_str());
                            return;
                          }
                          put(ip, b.file);
                          Done d = reference(b.file, "gf", f, op, s);
                          Got g = produce(ip, op, s);
                          Bytes got;
                          slurp(op, got);
                          _exit(g.ok == !d.fatal && got == d.out && !g.left ? 0 : 1);
                        }
                        compare(c, "inputs", b.name + " to " + f, b.file, b.suffix, f, s);
                      }});
  static std::vector<std::pair<unsigned, unsigned>> cuts;
  for (unsigned b = 0; b < bs.size(); b++)
    for (unsigned n = 0; n < bs[b].file.size() && bs[b].suffix != "gf"; n++)
      cuts.push_back({b, n});
  k.spaces.push_back({"truncated", cuts.size(), [](u64 i, Ctx &c) {
                        Base b = bs[cuts[i].first];
                        compare(c, "truncated", fmt("%s cut to %u", b.name.c_str(), cuts[i].second), b.file.substr(0, cuts[i].second), b.suffix, "svg", Set());
                      }});
  k.spaces.push_back({"errors", 9, [](u64 i, Ctx &c) {
                        Scratch &sc = Scratch::get();
                        sc.clear();
                        put(sc.path("in.pgm"), PIC);
                        put(sc.path("in"), PIC);
                        put(sc.path("in.xyz"), PIC);
                        mkdir(sc.path("dir.pgm").c_str(), 0755);
                        mkdir(sc.path("dir.svg").c_str(), 0755);
                        static const char *P[][2] = {{"in", "o.svg"}, {"in.xyz", "o.svg"}, {"in.pgm", "o"}, {"in.pgm", "o.xyz"}, {"missing.pgm", "o.svg"}, {"dir.pgm", "o.svg"}, {"in.pgm", "dir.svg"}, {"in.pgm", "nowhere/o.svg"}, {"", ""}};
                        put(sc.path("o.svg"), "OLD");
                        c.note("%s to %s", P[i][0], P[i][1]);
                        c.state(i);
                        c.step(1);
                        c.trace(1);
                        Got g = produce(*P[i][0] ? sc.path(P[i][0]) : "", *P[i][1] ? sc.path(P[i][1]) : "", Set());
                        Bytes o;
                        slurp(sc.path("o.svg"), o);
                        if (g.ok || g.error.empty())
                          c.fail("errors:result", "%s to %s: %s", P[i][0], P[i][1], g.ok ? "success" : "no message");
                        else if (o != "OLD")
                          c.fail("errors:lost", "%s to %s: the earlier output is lost", P[i][0], P[i][1]);
                        else
                          c.nontrivial(i);
                        if (g.left)
                          c.fail("errors:heap", "%s to %s: %ld blocks are left over", P[i][0], P[i][1], g.left);
                      }});
  unsigned lims = th ? 1500 : 20;
  k.spaces.push_back({"full", 18ull * lims, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        long q = p(lims);
                        std::string f = FM[p(18)];
                        Scratch &sc = Scratch::get();
                        sc.clear();
                        std::string ip = sc.path("in.pgm"), op = sc.path("o." + f);
                        put(ip, PIC);
                        Set s;
                        s.f = FittingOptionsBuilder::builder().setBackgroudColor({255, 255, 255}).build();
                        Done d = reference(PIC, "pgm", f, op, s);
                        long n = d.out.size(), lim = th ? q : q < 4 ? q : q < 10 ? n - 8 + q : n * (q - 9) / 12;
                        if (lim < 0 || lim > n + 1)
                          return;
                        c.note("%s limit %ld of %ld", f.c_str(), lim, n);
                        c.state(mc::mix(mc::hash_str(f), lim));
                        c.step(1);
                        c.trace(1);
                        fflush(nullptr);
                        pid_t pid = fork();
                        if (!pid) {
                          signal(SIGXFSZ, SIG_IGN);
                          int nul = open("/dev/null", O_WRONLY); // the remark of the ILD writer
                          dup2(nul, 1);
                          struct rlimit rl = {(rlim_t)lim, (rlim_t)lim};
                          setrlimit(RLIMIT_FSIZE, &rl);
                          Got g = produce(ip, op, s);
                          _exit(g.ok ? 0 : g.left ? 3 : g.error.empty() ? 4 : 2);
                        }
                        int st = 0;
                        waitpid(pid, &st, 0);
                        int want = lim >= n ? 0 : 2;
                        if (!WIFEXITED(st))
                          c.fail("full:died", "%s limit %ld: died", f.c_str(), lim);
                        else if (WEXITSTATUS(st) != want)
                          c.fail("full:result", "%s: %ld of %ld bytes could be written: %s", f.c_str(), std::min(lim, n), n, WEXITSTATUS(st) == 0 ? "success" : WEXITSTATUS(st) == 2 ? "error" : WEXITSTATUS(st) == 3 ? "memory left over" : "no message");
                        else
                          c.nontrivial(mc::mix(i, 5));
                      }});
  // one write is refused, all others are taken: success only with the complete bytes
  k.spaces.push_back({"refused", 18ull * (th ? 60 : 16), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        int q = p(th ? 60 : 16);
                        std::string f = FM[p(18)];
                        Scratch &sc = Scratch::get();
                        sc.clear();
                        std::string ip = sc.path("in.pgm"), op = sc.path("o." + f);
                        put(ip, PIC);
                        Set s;
                        s.f = FittingOptionsBuilder::builder().setBackgroudColor({255, 255, 255}).build();
                        Done d = reference(PIC, "pgm", f, op, s);
                        c.note("%s write %d refused", f.c_str(), q);
                        c.state(mc::mix(mc::hash_str(f), q));
                        c.step(1);
                        c.trace(1);
                        fflush(nullptr);
                        pid_t pid = fork();
                        if (!pid) {
                          int nul = open("/dev/null", O_WRONLY);
                          dup2(nul, 1);
                          flaky_at = q;
                          Got g = produce(ip, op, s);
                          _exit(g.ok ? 0 : g.left ? 3 : g.error.empty() ? 4 : 2);
                        }
                        int st = 0;
                        waitpid(pid, &st, 0);
                        Bytes o;
                        slurp(op, o);
                        if (!WIFEXITED(st))
                          c.fail("refused:died", "%s write %d: died", f.c_str(), q);
                        else if (WEXITSTATUS(st) == 0 ? o != d.out : WEXITSTATUS(st) != 2)
                          c.fail("refused:result", "%s: write %d was refused: %s", f.c_str(), q, WEXITSTATUS(st) == 0 ? "success with other bytes" : WEXITSTATUS(st) == 3 ? "memory left over" : "no message");
                        else
                          c.nontrivial(mc::mix(i, 6));
                      }});
  // the functions for buffers: one PNG in, one SVG out
  static Bytes png;
  for (auto &b : bs)
    if (b.suffix == "png" && (png.empty() || b.name.find("t2-d8") != std::string::npos))
      png = b.file;
  k.spaces.push_back({"buffers", 7 * 2 * 2 * 4, [](u64 i, Ctx &c) {
                        Pick p(i);
                        std::string fj = JS[p(7)], ij = JS[p(2)], oj = p(2) ? "{\"dpi\": 300}" : "{}";
                        int q = p(4); // 3: a damaged picture
                        Scratch &sc = Scratch::get();
                        sc.clear();
                        if (chdir(sc.dir.c_str()))
                          _exit(97);
                        Bytes file = q == 3 ? png.substr(0, png.size() / 2) : png;
                        std::string e;
                        Set s{FittingOptions(Json::parse(fj, e)), InputOptions(Json::parse(ij, e)), OutputOptions(Json::parse(oj, e))};
                        Done d = reference(file, "png", "svg", outputPath, s);
                        c.note("%s %s %s", fj.c_str(), ij.c_str(), oj.c_str());
                        c.state(mc::mix(mc::hash_str(d.out), q));
                        c.trace(1);
                        c.step(3);
                        std::string what = fj + " " + ij + " " + oj;
                        std::unique_ptr<char[]> exact(new char[file.size()]); // a copy that ends where it ends
                        memcpy(exact.get(), file.data(), file.size());
                        if (q == 1) { // a wrong text in one of the three places
                          for (int place = 0; place < 3; place++)
                            for (const char *b : BAD) {
                              Result r = autotraceRun((uintptr_t)exact.get(), file.size(), place == 0 ? b : fj, place == 1 ? b : ij, place == 2 ? b : oj);
                              Bytes x;
                              if (r.success || r.error.empty() || slurp(outputPath, x))
                                c.fail("buffers:bad", "text '%s' in place %d: accepted", b, place);
                            }
                          return;
                        }
                        Result r = autotraceRun((uintptr_t)exact.get(), file.size(), fj, ij, oj);
                        if (r.success == d.fatal || r.error.empty() != r.success) {
                          c.fail("buffers:result", "%s: %s", what.c_str(), r.success ? "success" : r.error.c_str());
                          return;
                        }
                        if (d.fatal)
                          return;
                        auto sz = outputFileSize();
                        if (!sz.success || sz.value != d.out.size()) {
                          c.fail("buffers:size", "%s: %lu bytes instead of %zu", what.c_str(), sz.value, d.out.size());
                          return;
                        }
                        for (size_t n : {sz.value, sz.value + 1, sz.value - 1, sz.value + 5000, (unsigned long)0}) {
                          std::unique_ptr<char[]> buf(new char[n + 1]);
                          memset(buf.get(), '#', n + 1);
                          Result g = getOutputFile((uintptr_t)buf.get(), n);
                          bool fits = n >= sz.value;
                          if (g.success != fits || g.error.empty() != fits)
                            c.fail("buffers:fits", "%s: a buffer of %zu bytes: %s", what.c_str(), n, g.success ? "success" : "error");
                          else if (fits && (memcmp(buf.get(), d.out.data(), d.out.size()) || buf[n] != '#'))
                            c.fail("buffers:output", "%s: other bytes than the library writes", what.c_str());
                          else if (!fits && (buf[0] != '#' || buf[n] != '#'))
                            c.fail("buffers:touched", "%s: a buffer that is too small is written to", what.c_str());
                          else
                            c.nontrivial(mc::mix(i, n));
                        }
                      }});
  return k;
}
int main(int argc, char **argv) { return with_scratch(argc, argv, build); }
