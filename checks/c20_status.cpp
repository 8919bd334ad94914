// C20: the command line program ends with status 0 exactly when the whole output was written, and says why otherwise.
// USES: cli flaky
#include "cli.hpp"
#include "files.hpp"
#include "write.hpp"

static const char *FM[] = {"svg", "eps", "ai", "p2e", "pdf", "epd", "sk", "pov", "fig", "mif", "dxf", "plt", "ild", "er", "ugs", "emf", "cgm", "dr2d"};
static const char *PIC = "P2\n9 8\n255\n255 255 255 255 255 255 255 255 255 255 0 0 0 0 255 255 255 255 255 0 0 0 0 0 0 255 255 255 0 0 90 90 0 0 255 255 255 0 0 90 90 0 0 255 255 255 0 0 0 0 0 255 255 255 255 255 0 0 0 255 255 0 255 255 255 255 255 255 255 255 255 255\n";
static std::string shorten(const std::string &s) { return s.size() > 200 ? s.substr(0, 200) + "..." : s; }
static bool sane(Ctx &c, const char *key, const std::vector<std::string> &a, const Ran &r) {
  c.step(1);
  c.trace(1);
  if (!r.signal && !r.asan && r.exit != 95 && r.exit != 96)
    return true;
  c.fail(fmt("%s:died", key), "autotrace %s: %s: %s", joined(a).c_str(), r.how().c_str(), shorten(r.err).c_str());
  return false;
}
struct Use {
  std::vector<std::string> args;
  int ok;           // 1: status 0, 0: other status, with a message
  const char *says; // has to occur in what is printed (standard output or error)
};
static std::vector<Use> uses() {
  std::vector<Use> v = {
      {{}, 0, "Usage"},
      {{""}, 0, "Usage"},
      {{"in.pgm", "in.pgm"}, 0, "Usage"},
      {{"in.pgm", ""}, 0, "Usage"},
      {{"-output-format", "svg"}, 0, "Usage"},
      {{"missing.pgm"}, 0, ""},
      {{"missing.png"}, 0, ""},
      {{"missing.bmp"}, 0, ""},
      {{"missing.tga"}, 0, ""},
      {{"missing.gf"}, 0, ""},
      {{"-input-format", "pnm", "nowhere/in"}, 0, ""},
      {{"in"}, 0, ""},
      {{"in.xyz"}, 0, ""},
      {{"dir.pgm"}, 0, ""},
      {{"dir.png"}, 0, ""},
      {{"dir.gf"}, 0, ""},
      {{"empty.pgm"}, 0, ""},
      {{"empty.png"}, 0, ""},
      {{"empty.bmp"}, 0, ""},
      {{"empty.tga"}, 0, ""},
      {{"empty.gf"}, 0, ""},
      {{"-input-format", "xyz", "in.pgm"}, 0, "xyz"},
      {{"-input-format", "", "in.pgm"}, 0, ""},
      {{"-output-format", "xyz", "in.pgm"}, 0, "xyz"},
      {{"-output-format", "", "in.pgm"}, 0, ""},
      {{"-output-file", "nowhere/o.svg", "in.pgm"}, 0, "nowhere"},
      {{"-output-file", "dir.pgm", "in.pgm"}, 0, "dir.pgm"},
      {{"-output-file", "in.pgm", "in.pgm"}, 0, ""},
      {{"-output-file", "IN.PGM", "in.pgm"}, 0, ""},
      {{"-output-file", "./in.pgm", "in.pgm"}, 0, ""},
      {{"-output-file", "in.pgm", ".//in.pgm"}, 0, ""},
      {{"-output-file", "dir.pgm/../in.pgm", "in.pgm"}, 0, ""},
      {{"-output-file", "soft.svg", "in.pgm"}, 0, ""},
      {{"-output-file", "hard.svg", "in.pgm"}, 0, ""},
      {{"-output-file", "in.pgm", "soft.pgm"}, 0, ""},
      {{"-output-file", "hard.svg", "soft.pgm"}, 0, ""},
      {{"-output-file", "other.svg", "in.pgm"}, 1, ""},
      {{"-output-file", "dangling.svg", "soft.pgm"}, 1, ""},
      {{"-output-file", "/dev/full", "-output-format", "svg", "in.pgm"}, 0, ""},
      {{"-no-such-option", "in.pgm"}, 0, "no-such-option"},
      {{"--no-such-option=1", "in.pgm"}, 0, "no-such-option"},
      {{"-c", "in.pgm"}, 0, ""},
      {{"-output", "o.svg", "in.pgm"}, 0, "output"},
      {{"-line", "1", "in.pgm"}, 0, "line"},
      {{"-centerline=1", "in.pgm"}, 0, "centerline"},
      {{"in.pgm", "-color-count"}, 0, "color-count"},
      {{"in.pgm", "-output-file"}, 0, "output-file"},
      {{"-centerline", "-output-format", "pov", "in.pgm"}, 0, ""},
      {{"-version"}, 1, "AutoTrace version"},
      {{"--version"}, 1, "AutoTrace version"},
      {{"-help"}, 1, "background-color"},
      {{"--help", "in.pgm"}, 1, "background-color"},
      {{"-list-input-formats"}, 1, "pgm"},
      {{"-list-output-formats"}, 1, "svg"},
      {{"-debug-arch"}, 1, "endian"},
      {{"-output-format", "svg", "in.pgm"}, 1, "<svg"},
      {{"-output-format", "svg", "--", "in.pgm"}, 1, "<svg"},
      {{"-log", "-report-progress", "-output-file", "o.svg", "in.pgm"}, 1, "||"},
      {{"-report-progress", "-log", "-output-file", "o.svg", "in.pgm"}, 1, "||"},
      {{"-report-progress", "-debug-bitmap", "-output-file", "o.svg", "in.pgm"}, 1, "||"},
      {{"-report-progress", "-version", "-output-file", "o.svg", "in.pgm"}, 1, "||"},
      {{"-version", "-debug-bitmap"}, 1, "AutoTrace version"},
      {{"-version", "-report-progress"}, 1, "AutoTrace version"},
      {{"-debug-bitmap", "-version"}, 1, "AutoTrace version"},
  };
  for (const char *o : {"color-count", "corner-surround", "despeckle-level", "dpi", "filter-iterations", "tangent-surround"})
    for (const char *n : {"-1", "-5", "-100000"})
      v.push_back({{std::string("-") + o, n, "in.pgm"}, 0, "positive"});
  return v;
}
static mc::Check build(bool th) {
  mc::Check k;
  autotrace_init();
  k.property = "C20";
  k.bounds = fmt("82 uses, right and wrong, among them output to other names of the input; input and output under every name of up to 3 of 5 characters and long ones, at 3 places; every truncation of %s input files; files and standard output full after %s number of bytes in 18 formats, and each of the first %s writes refused alone", "all", th ? "every" : "a selected", th ? "60" : "16");
  static std::vector<Use> us = uses();
  k.spaces.push_back({"uses", us.size() * 2, [](u64 i, Ctx &c) {
                        Pick p(i);
                        Use u = us[p(us.size())];
                        bool old = p(2); // an output file from before
                        Scratch &s = Scratch::get();
                        s.clear();
                        put(s.path("in.pgm"), PIC);
                        put(s.path("in"), PIC);
                        put(s.path("in.xyz"), PIC);
                        for (const char *e : {"pgm", "png", "bmp", "tga", "gf"})
                          put(s.path(std::string("empty.") + e), "");
                        mkdir(s.path("dir.pgm").c_str(), 0755);
                        mkdir(s.path("dir.png").c_str(), 0755);
                        mkdir(s.path("dir.gf").c_str(), 0755);
                        // other names of the input, and of another file
                        (void)!symlink("in.pgm", s.path("soft.svg").c_str());
                        (void)!symlink("in.pgm", s.path("soft.pgm").c_str());
                        (void)!link(s.path("in.pgm").c_str(), s.path("hard.svg").c_str());
                        (void)!symlink("in", s.path("other.svg").c_str());
                        (void)!symlink("new.svg", s.path("dangling.svg").c_str());
                        if (old)
                          put(s.path("o.svg"), "OLD");
                        c.note("%s", joined(u.args).c_str());
                        c.state(mc::hash_str(joined(u.args)));
                        Ran r = run_cli(u.args);
                        if (!sane(c, "uses", u.args, r))
                          return;
                        std::string key = "uses:" + joined(u.args);
                        if ((r.exit == 0) != u.ok)
                          c.fail(key + ":status", "autotrace %s: %s", joined(u.args).c_str(), r.how().c_str());
                        else if ((r.out + r.err).find(u.says) == Bytes::npos)
                          c.fail(key + ":says", "autotrace %s: does not say '%s': %s", joined(u.args).c_str(), u.says, shorten(r.err).c_str());
                        else if (!u.ok && r.err.empty())
                          c.fail(key + ":silent", "autotrace %s: fails without a message", joined(u.args).c_str());
                        else
                          c.nontrivial(mc::hash_str(joined(u.args)));
                        Bytes b;
                        if (!slurp(s.path("in.pgm"), b) || b != PIC)
                          c.fail(key + ":input", "autotrace %s: the input file was changed", joined(u.args).c_str());
                        static int n;
                        if (!n++)
                          c.sample(joined(u.args) + ": " + r.how());
                      },
                      60});
  // input and output under every name of up to three characters and under long ones
  static std::vector<std::string> stems = {std::string(100, 'n'), std::string(200, 'l') + ".x", std::string(250, 'm')};
  for (std::vector<std::string> last = {""}; last[0].size() < 3;) {
    std::vector<std::string> next;
    for (const std::string &s : last)
      for (char x : {'a', 'B', '.', ' ', '%'})
        next.push_back(s + x);
    stems.insert(stems.end(), next.begin(), next.end());
    last = next;
  }
  k.spaces.push_back({"names", stems.size() * 3 * 3, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned where = p(3), use = p(3);
                        std::string stem = (where == 0 ? "" : where == 1 ? "./" : "dir.pgm/../") + stems[p(stems.size())];
                        Scratch &s = Scratch::get();
                        s.clear();
                        mkdir(s.path("dir.pgm").c_str(), 0755);
                        std::string in = use == 1 ? "in.pgm" : stem + ".pgm", out = use == 0 ? "" : use == 1 ? stem + ".svg" : stem + ".pgm.svg";
                        if (out.size() > 255 || !put(s.path(in), PIC)) // longer than the file system's names
                          return;
                        std::vector<std::string> a = {"-output-format", "svg", in};
                        if (use)
                          a.insert(a.begin(), {"-output-file", out});
                        c.note("%s", joined(a).c_str());
                        c.state(mc::hash_str(joined(a)));
                        Ran r = run_cli(a);
                        if (!sane(c, "names", a, r))
                          return;
                        Bytes got = r.out, in_now;
                        if (r.exit != 0)
                          c.fail("names:status", "autotrace %s: %s: %s", joined(a).c_str(), r.how().c_str(), shorten(r.err).c_str());
                        else if (use && !slurp(s.path(out), got))
                          c.fail("names:missing", "autotrace %s: no such output file", joined(a).c_str());
                        else if (got.compare(0, 5, "<?xml") || got.find("</svg>") == Bytes::npos)
                          c.fail("names:bytes", "autotrace %s: not a complete SVG file", joined(a).c_str());
                        else
                          c.nontrivial(mc::hash_str(joined(a)));
                        if (!slurp(s.path(in), in_now) || in_now != PIC)
                          c.fail("names:input", "autotrace %s: the input file was changed", joined(a).c_str());
                      },
                      60});
  // input that cannot be read completely: fails like the library, and keeps the file that would be overwritten
  static std::vector<Base> bs = bases();
  static std::vector<std::pair<unsigned, unsigned>> cuts;
  for (unsigned b = 0; b < bs.size(); b++)
    for (unsigned n = 0; n <= bs[b].file.size(); n++)
      cuts.push_back({b, n});
  k.spaces.push_back({"truncated", cuts.size(), [](u64 i, Ctx &c) {
                        Base b = bs[cuts[i].first];
                        Bytes f = b.file.substr(0, cuts[i].second);
                        Scratch &s = Scratch::get();
                        s.clear();
                        put(s.path("in." + b.suffix), f);
                        put(s.path("o.eps"), "OLD");
                        std::vector<std::string> a = {"-output-file", "o.eps", "in." + b.suffix};
                        if (b.suffix == "gf")
                          a.insert(a.begin(), {"-charcode", "60"});
                        Done d = by_library({b.suffix, "eps", "o.eps", f, [&](at_fitting_opts_type *fo, at_input_opts_type *io, at_output_opts_type *) {
                                               if (b.suffix == "gf")
                                                 fo->charcode = io->charcode = 60;
                                             }});
                        c.note("%s cut to %zu", b.name.c_str(), f.size());
                        c.state(mc::mix(mc::hash_str(d.out), mc::hash_str(f)));
                        Ran r = run_cli(a);
                        if (!sane(c, "truncated", a, r))
                          return;
                        Bytes o;
                        bool there = slurp(s.path("o.eps"), o);
                        if ((r.exit == 0) == d.fatal)
                          c.fail("truncated:status", "%s cut to %zu bytes: %s, library: %s", b.name.c_str(), f.size(), r.how().c_str(), d.fatal ? d.msg.c_str() : "no error");
                        else if (d.fatal && (!there || o != "OLD"))
                          c.fail("truncated:lost", "%s cut to %zu bytes: the earlier output file is lost", b.name.c_str(), f.size());
                        else if (d.fatal && r.err.empty())
                          c.fail("truncated:silent", "%s cut to %zu bytes: fails without a message", b.name.c_str(), f.size());
                        else if (!d.fatal && o != d.out)
                          c.fail("truncated:output", "%s cut to %zu bytes: output differs from the library", b.name.c_str(), f.size());
                        else
                          c.nontrivial(mc::mix(i, 1));
                      },
                      60});
  // the output takes no more bytes
  k.spaces.push_back({"full", 18ull * 2 * (th ? 2400 : 24), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned q = p(th ? 2400 : 24);
                        std::string f = FM[p(18)];
                        bool std_out = p(2);
                        std::string name = std_out ? "" : "o." + f;
                        Done d = by_library({"pgm", f, name, PIC, nullptr});
                        long n = d.out.size(), lim;
                        if (th) {
                          lim = q;
                          if (lim > n + 1)
                            return;
                        } else if (q < 3)
                          lim = q;
                        else if (q < 9)
                          lim = n - 5 + (long)q - 2; // n-4 .. n+1
                        else
                          lim = n * (long)(q - 8) / 16;
                        if (lim < 0)
                          return;
                        Scratch &s = Scratch::get();
                        s.clear();
                        put(s.path("in.pgm"), PIC);
                        std::vector<std::string> a = {"-output-format", f, "in.pgm"};
                        if (!std_out)
                          a.insert(a.end(), {"-output-file", name});
                        RunOpts ro;
                        ro.fsize = lim;
                        if (std_out)
                          ro.out_to = "stdout.bin";
                        c.note("%s limit %ld", joined(a).c_str(), lim);
                        c.state(mc::mix(mc::hash_str(joined(a)), lim));
                        Ran r = run_cli(a, ro);
                        if (!sane(c, "full", a, r))
                          return;
                        Bytes o;
                        slurp(s.path(std_out ? "stdout.bin" : name), o);
                        if (f == "ild" && !std_out && lim < n + 200)
                          ; // its closing remark on standard output meets the same limit
                        else if ((r.exit == 0) != (lim >= n))
                          c.fail(fmt("full:%s:status", std_out ? "stdout" : "file"), "autotrace %s: %s though %ld of %ld bytes could be written", joined(a).c_str(), r.how().c_str(), std::min(lim, n), n);
                        if (o != d.out.substr(0, std::min(lim, n)) && r.exit == 0)
                          c.fail(fmt("full:%s:bytes", std_out ? "stdout" : "file"), "autotrace %s: other bytes than the library writes", joined(a).c_str());
                        c.nontrivial(mc::mix(i, 2));
                      },
                      60});
  // one write is refused, all others are taken: success only with the complete bytes
  k.spaces.push_back({"refused", 18ull * 2 * (th ? 60 : 16), [=](u64 i, Ctx &c) {
                        Pick p(i);
                        RunOpts ro;
                        ro.flaky = p(th ? 60 : 16);
                        std::string f = FM[p(18)];
                        ro.flaky_stdout = p(2);
                        std::string name = ro.flaky_stdout ? "" : "o." + f;
                        Done d = by_library({"pgm", f, name, PIC, nullptr});
                        Scratch &s = Scratch::get();
                        s.clear();
                        put(s.path("in.pgm"), PIC);
                        std::vector<std::string> a = {"-output-format", f, "in.pgm"};
                        if (name.size())
                          a.insert(a.end(), {"-output-file", name});
                        c.note("%s write %d refused", joined(a).c_str(), ro.flaky);
                        c.state(mc::mix(mc::hash_str(joined(a)), ro.flaky));
                        Ran r = run_cli(a, ro);
                        if (!sane(c, "refused", a, r))
                          return;
                        Bytes o = r.out;
                        if (name.size())
                          slurp(s.path(name), o);
                        if (o != d.out && r.exit == 0)
                          c.fail(fmt("refused:%s", name.empty() ? "stdout" : "file"), "autotrace %s: success though write %d was refused: %zu instead of %zu bytes", joined(a).c_str(), ro.flaky, o.size(), d.out.size());
                        else if (r.exit != 0 && r.err.empty())
                          c.fail("refused:silent", "autotrace %s: fails without a message when write %d is refused", joined(a).c_str(), ro.flaky);
                        else
                          c.nontrivial(mc::mix(i, 3));
                      },
                      60});
  return k;
}
int main(int argc, char **argv) { return with_scratch(argc, argv, build); }
