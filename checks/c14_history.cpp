// C14: every operation gives in every history what it gives in a fresh process.
#include "files.hpp"
#include "write.hpp"
#include <fcntl.h>
#include <sys/wait.h>

struct Op {
  std::string name;
  std::function<std::string()> run; // everything the caller can see of the operation
  bool gf = false, ugs = false;
};
static std::vector<Op> ops;
static std::vector<unsigned> shortlist; // for histories of three
static std::vector<std::vector<unsigned>> families; // for histories within one output format
static u64 nbasic;

static std::string show(const Img &i) { return i.str() + fmt("%zu", i.px.size()) + i.px; }
static Img picture(unsigned q, unsigned np) {
  Img im;
  im.np = np;
  im.w = q ? 11 : 14;
  im.h = q ? 17 : 12;
  for (unsigned y = 0; y < im.h; y++)
    for (unsigned x = 0; x < im.w; x++) {
      int v;
      if (q == 0)
        v = (x - 6.) * (x - 6.) + (y - 5.) * (y - 5.) < 20 ? ((x - 6.) * (x - 6.) + (y - 5.) * (y - 5.) < 4 ? 2 : 1) : (x == 12 && y == 9 ? 1 : 0);
      else
        v = x == y / 2 + 2 || y == 3 ? 1 : (y > 9 && x > 7 ? 2 : 0);
      static const unsigned char G[] = {255, 0, 120};
      static const char *C[] = {"\xff\xff\xff", "\x10\x20\x30", "\xf0\x41\x02"};
      if (np == 1)
        im.px += (char)G[v];
      else
        im.px += std::string(C[v], 3);
    }
  return im;
}
static int polls;
static bool cancel_at(void *d) { return ++polls == *(int *)d; }

static void make_ops(bool th) {
  auto bs = bases();
  std::map<std::string, int> seen;
  for (auto &b : bs)
    for (int cut = 0; cut < 2; cut++) {
      if (cut && !th && ++seen[b.suffix] > 2)
        continue;
      Bytes f = cut ? b.file.substr(0, b.need / 2 + b.header / 3) : b.file;
      std::string suf = b.suffix;
      Op o;
      o.name = "read " + b.name + (cut ? " cut short" : "");
      o.gf = suf == "gf";
      o.run = [=]() {
        at_input_opts_type *io = at_input_opts_new();
        io->charcode = 60;
        Decoded d = decode(suf.c_str(), f, io);
        at_input_opts_free(io);
        return fmt("%d %d %d %s ", d.null, d.fatal, d.warning, d.msg.c_str()) + show(d.img);
      };
      bool s = b.name == "P3" || b.name == "bmprle8" || b.name == "tga9" || b.name == "png-t3-d1" || b.name == "gf1";
      if (s)
        shortlist.push_back(ops.size());
      ops.push_back(o);
    }
  struct Mode {
    const char *n;
    std::function<void(Opts &)> set;
    int cancel;
  };
  std::vector<Mode> modes = {
      {"outline", [](Opts &) {}, 0},
      {"outline bg", [](Opts &o) { o.bg(255, 255, 255); }, 0},
      {"outline dark bg", [](Opts &o) { o.bg(0x10, 0x20, 0x30); }, 0},
      {"centerline", [](Opts &o) { o->centerline = true; }, 0},
      {"centerline width", [](Opts &o) { o->centerline = o->preserve_width = true; o->width_weight_factor = 2; o.bg(255, 255, 255); }, 0},
      {"centerline dark", [](Opts &o) { o->centerline = true; o.bg(0, 0, 0); }, 0},
      {"colours 2", [](Opts &o) { o->color_count = 2; }, 0},
      {"colours 3 bg", [](Opts &o) { o->color_count = 3; o.bg(255, 255, 255); }, 0},
      {"despeckle", [](Opts &o) { o->despeckle_level = 5; }, 0},
      {"despeckle tight", [](Opts &o) { o->despeckle_level = 9; o->despeckle_tightness = 0.5; o->noise_removal = .5; }, 0},
      {"corners", [](Opts &o) { exact(o); }, 0},
      {"adjacent knees", [](Opts &o) { o->remove_adjacent_corners = o->remove_knees = true; o->corner_threshold = 160; o->error_threshold = .3; o->line_threshold = .1; o->filter_iterations = 0; }, 0},
      {"cancelled at once", [](Opts &) {}, 1},
      {"cancelled late", [](Opts &o) { o->color_count = 2; }, 40},
      {"centerline cancelled", [](Opts &o) { o->centerline = true; o.bg(255, 255, 255); }, 2},
  };
  for (unsigned q = 0; q < 2; q++)
    for (unsigned np : {1u, 3u})
      for (auto &md : modes) {
        Op o;
        o.name = fmt("trace %u/%u %s", q, np, md.n);
        o.run = [=]() {
          at_bitmap *b = to_bitmap(picture(q, np));
          Opts op;
          md.set(op);
          Msgs m;
          polls = 0;
          int at = md.cancel;
          at_splines_type *s = at_splines_new_full(b, op.o, Msgs::cb, &m, nullptr, nullptr, at ? cancel_at : nullptr, &at);
          std::string r = fmt("%d %d %s ", m.fatal, m.warning, m.last.c_str()) + grab(s).text() + show(from_bitmap(b));
          if (s)
            at_splines_free(s);
          at_bitmap_free(b);
          return r;
        };
        std::string n = md.n;
        if (q == 0 && (np == 3 ? n == "outline bg" || n == "colours 3 bg" || n == "centerline cancelled" || n == "cancelled late" : n == "centerline width" || n == "despeckle"))
          shortlist.push_back(ops.size());
        ops.push_back(o);
      }
  static const char *FM[] = {"svg", "eps", "ai", "p2e", "pdf", "epd", "sk", "pov", "fig", "mif", "dxf", "plt", "ild", "er", "ugs", "emf", "cgm", "dr2d"};
  for (const char *f : FM)
    for (unsigned q = 0; q < 4; q++) {
      Op o;
      static const char *Q[] = {"outline", "centerline", "empty", "small"};
      o.name = fmt("write %s %s", f, Q[q]);
      o.ugs = !strcmp(f, "ugs");
      o.run = [=]() {
        Arr a(q == 3 ? 5 : 40, q == 3 ? 90 : 30);
        if (q == 0) {
          a.background(0xfefdfc);
          a.add(geo(1, 3), 0x123456, false, false);
          a.add(geo(0, 2), 0x123456, true, false);
          a.add(geo(4, 2), 0x990011, false, false);
        } else if (q == 1) {
          a.s.centerline = true;
          a.add(geo(8, 3), 0x00ff00, false, true);
          a.add(geo(10), 0x654321, false, true);
        } else if (q == 3)
          a.add(geo(3, .5), 0xabcdef, false, false);
        Msgs m;
        at_output_opts_type *oo = at_output_opts_new();
        if (q == 3)
          oo->dpi = 300;
        Bytes b = write_splines(f, a.get(), m, oo, q ? "n" : "some/long name.x");
        at_output_opts_free(oo);
        return fmt("%d %d %s ", m.fatal, m.warning, m.last.c_str()) + b;
      };
      if (q < 2)
        shortlist.push_back(ops.size());
      if (q == 0)
        families.push_back({});
      families.back().push_back(ops.size());
      ops.push_back(o);
    }
  nbasic = ops.size();
  // arrays of many colours, long shapes and long names
  static const unsigned N[] = {1, 2, 30, 400, 400, 513, 1500};
  for (size_t f = 0; f < families.size(); f++)
    for (unsigned q = 0; q < 7; q++) {
      Op o;
      o.name = fmt("write %s %u colours %u", FM[f], N[q], q);
      o.ugs = !strcmp(FM[f], "ugs");
      o.run = [=]() {
        Arr a(60 + q, 50 + 3 * q);
        for (unsigned k = 0; k < N[q]; k++) {
          static const unsigned long STEP[] = {1, 257, 65793, 7919, 8191, 7919, 4099}, FROM[] = {0xff00ff, 1, 12, 0, 77, 1000, 5};
          a.add(geo(k % NCLOSED, 1 + k % 3), (int)((FROM[q] + k) * STEP[q] & 0xffffff), k % 4 == 3, false);
        }
        Msgs m;
        Bytes b = write_splines(FM[f], a.get(), m, nullptr, std::string(1 + 37 * q, 'n').c_str());
        return fmt("%d %d %s ", m.fatal, m.warning, m.last.c_str()) + b;
      };
      families[f].push_back(ops.size());
      ops.push_back(o);
    }
}

struct Result {
  int status = -1;
  u64 hash = 0, size = 0;
  bool operator==(const Result &o) const { return status == o.status && hash == o.hash && size == o.size; }
};
// runs the operations in a process of their own; the result is that of the last one
static Result in_child(const std::vector<unsigned> &seq, int fill) {
  int p[2];
  Result r;
  if (pipe(p))
    return r;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    alarm(60);
    mc::heap_fill(fill);
    std::string s;
    for (unsigned o : seq) {
      stack_fill(fill);
      s = ops[o].run();
    }
    u64 v[2] = {mc::hash_str(s), s.size()};
    if (write(p[1], v, sizeof v) != sizeof v)
      _exit(98);
    _exit(0);
  }
  close(p[1]);
  u64 v[2] = {0, 0};
  size_t got = 0;
  ssize_t n;
  while (got < sizeof v && (n = read(p[0], (char *)v + got, sizeof v - got)) > 0)
    got += n;
  close(p[0]);
  int st;
  waitpid(pid, &st, 0);
  r.status = st;
  r.hash = v[0];
  r.size = v[1];
  return r;
}
static void history(Ctx &c, const std::vector<unsigned> &seq) {
  for (size_t i = 0; i + 1 < seq.size(); i++)
    if (ops[seq[i]].gf && ops[seq.back()].ugs)
      return; // glyph source takes the metrics of the character read before, by design
  std::string what;
  for (unsigned o : seq)
    what += (what.empty() ? "" : "; ") + ops[o].name;
  c.note("%s", what.c_str());
  static std::map<unsigned, Result> fresh;
  unsigned last = seq.back();
  if (!fresh.count(last)) {
    fresh[last] = in_child({last}, 0);
    c.step(1);
    if (fresh[last].status)
      c.fail("died:" + ops[last].name, "%s: process ended with status %x", ops[last].name.c_str(), fresh[last].status);
  }
  Result r = in_child(seq, 0xff);
  c.step(seq.size());
  c.trace(1);
  c.state(mc::mix(r.hash, last));
  u64 h = 7;
  for (unsigned o : seq)
    h = mc::mix(h, o);
  c.nontrivial(h);
  if (r.status)
    c.fail(fmt("died:%s", ops[last].name.c_str()), "%s: process ended with status %x", what.c_str(), r.status);
  else if (!(r == fresh[last]))
    c.fail(fmt("differs:%s", ops[last].name.c_str()), "%s: the last operation gives %llu bytes of other content than in a fresh process (%llu)", what.c_str(), (unsigned long long)r.size, (unsigned long long)fresh[last].size);
  static int s;
  if (!s++)
    c.sample(what);
}

static mc::Check build(bool th) {
  mc::Check k;
  autotrace_init();
  make_ops(th);
  k.property = "C14";
  k.bounds = fmt("%zu operations (complete and cut short files of every input format, traces in 15 configurations of 4 pictures, 4 arrays of shapes in 18 output formats): every one alone, every history of two, every history of two within one output format over these and 7 arrays of up to 1500 colours%s", (size_t)nbasic, th ? fmt(", every history of three over %zu of them", shortlist.size()).c_str() : "");
  u64 n = nbasic;
  k.spaces.push_back({"one", ops.size(), [](u64 i, Ctx &c) { history(c, {(unsigned)i}); }, 60});
  k.spaces.push_back({"two", n * n, [](u64 i, Ctx &c) {
                        Pick p(i);
                        unsigned a = p(nbasic), b = p(nbasic);
                        history(c, {a, b});
                      },
                      60});
  u64 m = families[0].size();
  k.spaces.push_back({"colours", families.size() * m * m, [=](u64 i, Ctx &c) {
                        Pick p(i);
                        auto &f = families[p(families.size())];
                        unsigned a = f[p(m)], b = f[p(m)];
                        history(c, {a, b});
                      },
                      60});
  if (th) {
    u64 s = shortlist.size();
    k.spaces.push_back({"three", s * s * s, [](u64 i, Ctx &c) {
                          Pick p(i);
                          unsigned a = shortlist[p(shortlist.size())], b = shortlist[p(shortlist.size())], d = shortlist[p(shortlist.size())];
                          history(c, {a, b, d});
                        },
                        60});
  }
  return k;
}
int main(int argc, char **argv) {
  setenv("AT_DATE_ZERO", "yes", 1);
  return mc::run_main(argc, argv, build);
}
