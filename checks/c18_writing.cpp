// C18: writing has no effect but the bytes: same bytes whatever memory, locale or stream; nothing changed, leaked or ended.
#include "write.hpp"
#include <fcntl.h>
#include <locale.h>
#include <sys/stat.h>
#include <sys/wait.h>

static const char *FMTS[] = {"svg", "eps", "ai", "p2e", "pdf", "epd", "sk", "pov", "fig", "mif", "dxf", "plt", "ild", "er", "ugs", "emf", "cgm", "dr2d"};
enum { NF = sizeof FMTS / sizeof *FMTS };
static bool comma; // a locale with a decimal comma is at hand

// a stream that cannot seek, hands over `chunk` bytes at a time and refuses to go beyond `limit`
struct Sink {
  Bytes b;
  size_t limit = (size_t)-1;
};
static ssize_t sink_write(void *p, const char *d, size_t n) {
  Sink *s = (Sink *)p;
  if (s->b.size() >= s->limit) {
    errno = ENOSPC;
    return 0;
  }
  n = std::min(n, s->limit - s->b.size());
  s->b.append(d, n);
  return n;
}
static FILE *open_sink(Sink &s, size_t chunk) {
  cookie_io_functions_t io = {nullptr, sink_write, nullptr, nullptr};
  FILE *f = fopencookie(&s, "w", io);
  static char buf[8192];
  setvbuf(f, chunk ? buf : nullptr, chunk ? _IOFBF : _IONBF, chunk);
  return f;
}
static std::string image_of(const at_splines_type *s) { // every byte the caller can see
  std::string r((const char *)s, sizeof *s);
  if (s->background_color)
    r.append((const char *)s->background_color, sizeof *s->background_color);
  for (unsigned i = 0; i < s->length; i++) {
    r.append((const char *)&s->data[i], sizeof s->data[i]);
    r.append((const char *)s->data[i].data, sizeof(at_spline_type) * s->data[i].length);
  }
  return r;
}
static void quiet() {
  static bool done;
  if (!done) {
    fflush(stdout);
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
    done = true;
  }
}
static int sampled;
static void judge_fmt(Ctx &c, at_splines_type *s, const std::string &what, const char *f) {
  at_spline_writer *w = at_output_get_handler_by_suffix((char *)f);
  std::string before = image_of(s);
  at_output_opts_type *oo = at_output_opts_new();
  at_output_opts_type o2 = *oo;
  Msgs m0;
  mc::heap_fill(0);
  stack_fill(0);
  Bytes a = write_splines(f, s, m0, oo);
  c.step(1);
  // other contents of fresh memory, no options, no name, other locale
  Msgs m1;
  mc::heap_fill(0xff);
  stack_fill(0xff);
  const char *loc = comma ? "xx_XX" : "C.UTF-8";
  if (!setlocale(LC_ALL, "C.UTF-8") || !setlocale(LC_NUMERIC, loc))
    c.fail("harness:locale", "no locale %s", loc);
  std::string all = setlocale(LC_ALL, nullptr);
  Bytes b;
  {
    char *buf = nullptr;
    size_t n = 0;
    FILE *fp = open_memstream(&buf, &n);
    at_splines_write(w, fp, nullptr, nullptr, s, Msgs::cb, &m1);
    if (all != setlocale(LC_ALL, nullptr))
      c.fail(fmt("%s:locale", f), "%s as %s: locale %s left instead of %s", what.c_str(), f, setlocale(LC_ALL, nullptr), all.c_str());
    setlocale(LC_ALL, "C");
    fclose(fp);
    b.assign(buf, n);
    free(buf);
  }
  mc::heap_fill(0xa5);
  c.step(1);
  if (a != b)
    c.fail(fmt("%s:differs", f), "%s as %s: %zu and %zu bytes, different with other memory contents or locale", what.c_str(), f, a.size(), b.size());
  if (m0.fatal != m1.fatal || m0.warning != m1.warning)
    c.fail(fmt("%s:messages", f), "%s as %s: %d/%d and %d/%d messages", what.c_str(), f, m0.fatal, m0.warning, m1.fatal, m1.warning);
  // a stream without positions, unbuffered or nearly so; heap balance of the bare call
  Sink k;
  k.b.reserve(a.size() + 64);
  FILE *fp = open_sink(k, 0);
  Msgs m2;
  stack_fill(0x5a);
  size_t h0 = mc::heap_live();
  at_splines_write(w, fp, (char *)"", oo, s, nullptr, nullptr);
  size_t h1 = mc::heap_live();
  fclose(fp);
  c.step(1);
  if (k.b != a)
    c.fail(fmt("%s:stream", f), "%s as %s: different bytes to a stream without positions", what.c_str(), f);
  if (h1 != h0)
    c.fail(fmt("%s:leak", f), "%s as %s: %ld blocks left", what.c_str(), f, (long)(h1 - h0));
  if (memcmp(&o2, oo, sizeof o2))
    c.fail(fmt("%s:opts", f), "%s as %s: options changed", what.c_str(), f);
  if (image_of(s) != before)
    c.fail(fmt("%s:splines", f), "%s as %s: the shapes were changed", what.c_str(), f);
  at_output_opts_free(oo);
  c.trace(1);
  c.nontrivial(mc::hash_str(a));
  if (!sampled++)
    c.sample(fmt("%s as %s: %zu bytes three times", what.c_str(), f, a.size()));
}
static void judge(Ctx &c, at_splines_type *s, const std::string &what) {
  quiet();
  c.state(mc::hash_str(grab(s).text()));
  for (const char *f : FMTS)
    judge_fmt(c, s, what, f);
}

// arrays for the fault space
static void sample_array(Arr &a, unsigned q) {
  switch (q) {
  case 0:
    break;
  case 1:
    a.add(geo(1), COLS[1], false, false);
    a.add(geo(0), COLS[2], true, false);
    a.background(0xffffff);
    break;
  case 2:
    a.s.centerline = true;
    a.add(geo(8), COLS[0], false, true);
    a.add(geo(10), COLS[1], false, true);
    break;
  }
}
enum { NQ = 3 };

static mc::Check build(bool th) {
  autotrace_init();
  mc::Check k;
  k.property = "C18";
  k.bounds = "18 formats; every array of up to three shapes over 7 closed and 4 open geometries, 3-5 colours, both orientations, 3 backgrounds, 5 picture sizes, the traces of every 3x3 picture enlarged 4 times in 6 modes; three contents of fresh memory, two number locales, three streams; a stream refusing to go beyond every length";
  array_spaces(k, judge, th);
  // the stream refuses to take more after every number of bytes
  size_t step = th ? 1 : 1;
  k.spaces.push_back({"full", (u64)NF * NQ * 2000 / step, [=](u64 i, Ctx &c) {
                        quiet();
                        Pick p(i);
                        size_t lim = p(2000 / step) * step;
                        const char *f = FMTS[p(NF)];
                        Arr a(10, 7);
                        unsigned q = p(NQ);
                        sample_array(a, q);
                        static std::map<std::string, Bytes> whole;
                        std::string key = fmt("%s%u", f, q);
                        Msgs m;
                        if (!whole.count(key))
                          whole[key] = write_splines(f, a.get(), m);
                        const Bytes &w = whole[key];
                        if (lim > w.size())
                          return;
                        Sink s;
                        s.limit = lim;
                        s.b.reserve(w.size() + 1);
                        at_spline_writer *h = at_output_get_handler_by_suffix((char *)f);
                        at_splines_type *sp = a.get();
                        FILE *fp = open_sink(s, lim % 2 ? 64 : 0);
                        size_t h0 = mc::heap_live();
                        at_splines_write(h, fp, (char *)"", nullptr, sp, nullptr, nullptr);
                        size_t h1 = mc::heap_live();
                        bool err = fflush(fp) != 0 || ferror(fp);
                        fclose(fp);
                        c.step(1);
                        c.state(mc::mix(mc::hash_str(key), lim));
                        if (h1 != h0)
                          c.fail(fmt("full:%s:leak", f), "%s array %u full after %zu bytes: %ld blocks left", f, q, lim, (long)(h1 - h0));
                        if (err != (lim < w.size()))
                          c.fail(fmt("full:%s:error", f), "%s array %u full after %zu of %zu bytes: stream error %d", f, q, lim, w.size(), err);
                        if (s.b != w.substr(0, lim))
                          c.fail(fmt("full:%s:bytes", f), "%s array %u full after %zu bytes: other bytes before", f, q, lim);
                        c.trace(1);
                      }});
  return k;
}
static void rm(const std::string &d) {
  if (d.size() > 8 && fork() == 0) {
    execlp("rm", "rm", "-rf", d.c_str(), (char *)0);
    _exit(0);
  }
  wait(nullptr);
}
int main(int argc, char **argv) {
  setenv("AT_DATE_ZERO", "yes", 1);
  // a locale with a decimal comma, compiled into a scratch folder
  char dir[] = "/tmp/mc-locale-XXXXXX";
  if (mkdtemp(dir)) {
    std::string d = dir;
    if (system(("printf 'comment_char %%\\nescape_char /\\nLC_NUMERIC\\ndecimal_point \",\"\\nthousands_sep \"\"\\ngrouping -1\\nEND LC_NUMERIC\\n' > " + d + "/n; "
                "for c in CTYPE COLLATE TIME MONETARY MESSAGES PAPER NAME ADDRESS TELEPHONE MEASUREMENT IDENTIFICATION; do printf 'LC_%s\\ncopy \"POSIX\"\\nEND LC_%s\\n' $c $c >> " +
                d + "/n; done; localedef -c -i " + d + "/n -f ANSI_X3.4-1968 " + d + "/xx_XX >/dev/null 2>&1; true")
                   .c_str()) == 0) {
      setenv("LOCPATH", dir, 1);
      comma = setlocale(LC_NUMERIC, "xx_XX") && !strcmp(localeconv()->decimal_point, ",");
      setlocale(LC_NUMERIC, "C");
    }
  }
  if (!comma)
    fprintf(stderr, "note: no locale with a decimal comma could be made\n");
  int r = mc::run_main(argc, argv, build);
  rm(dir);
  return r;
}
