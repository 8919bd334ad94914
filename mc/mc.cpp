#include "mc.hpp"
extern "C" void autotrace_init(void);
#include <cerrno>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
extern "C" const char *__asan_default_options() {
  return "detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=165:exitcode=99:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:symbolize=1:print_legend=0:handle_abort=0:handle_segv=1:quarantine_size_mb=16:"
         "hard_rss_limit_mb=3000:malloc_context_size=8";
}
#endif

namespace mc {

static const u64 MAX_UNLISTED = getenv("MC_MAXVIOL") ? strtoull(getenv("MC_MAXVIOL"), nullptr, 10) : 2000;
static const int MAXW = 64, MAXV = 400, TBL = 1 << 22, NSAMP = 8, NCTR = 48;

struct Slot {
  volatile u64 space, index, end, first;
  volatile double t0;
  volatile int running;
  char note[400];
};
struct Viol {
  u64 space, index, first;
  char key[160];
  char msg[900];
};
struct CtrEnt {
  std::atomic<int> used;
  char name[48];
  std::atomic<u64> n;
};
struct Shared {
  std::atomic<u64> next; // position in the global case order
  std::atomic<u64> cases, steps, traces, nstates, nnontriv;
  std::atomic<u64> nviol, nunlisted, nrec;
  std::atomic<int> nsamp;
  std::atomic<int> tbl_full;
  Slot slot[MAXW];
  Viol viol[MAXV];
  char samp[NSAMP][600];
  CtrEnt ctr[NCTR];
  std::atomic<u64> tbl[2][TBL];
};

static Shared *S;
static int W = 0; // worker index
static Check C;
static std::vector<u64> base; // global offset of each space
static u64 total;
static std::string scratch;

std::string fmt(const char *f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

static double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec * 1e-9;
}

static bool insert(int which, u64 h) {
  if (h == 0)
    h = 1;
  u64 i = (h * 0x9E3779B97F4A7C15ull) >> 42;
  for (int probe = 0; probe < 4096; probe++, i = (i + 1) & (TBL - 1)) {
    u64 cur = S->tbl[which][i].load(std::memory_order_relaxed);
    if (cur == h)
      return false;
    if (cur == 0) {
      u64 z = 0;
      if (S->tbl[which][i].compare_exchange_strong(z, h))
        return true;
      if (z == h)
        return false;
    }
  }
  S->tbl_full = 1; // count stays a lower bound
  return false;
}

static std::vector<std::string> known; // keys of listed findings; a trailing * matches any suffix
static bool is_known(const std::string &k) {
  for (auto &e : known)
    if (!e.empty() && e.back() == '*' ? k.compare(0, e.size() - 1, e, 0, e.size() - 1) == 0 : k == e)
      return true;
  return false;
}

static void add_viol(u64 space, u64 index, u64 first, const std::string &key, const std::string &msg) {
  S->nviol++;
  bool listed = is_known(key);
  if (!listed)
    S->nunlisted++;
  int same = 0;
  u64 have = S->nrec.load() < (u64)MAXV ? S->nrec.load() : MAXV;
  for (u64 i = 0; i < have; i++)
    same += !strncmp(S->viol[i].key, key.c_str(), sizeof S->viol[i].key - 1);
  if (same >= 8)
    return;
  u64 n = S->nrec++;
  if (n >= MAXV)
    return;
  Viol &v = S->viol[n];
  v.space = space;
  v.index = index;
  v.first = first;
  snprintf(v.key, sizeof v.key, "%s", key.c_str());
  snprintf(v.msg, sizeof v.msg, "%s", msg.c_str());
}

void Ctx::fail(const std::string &key, const char *f, ...) {
  char buf[900];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  failed = true;
  if (verbose)
    fprintf(stderr, "FAIL %s:%llu [%s] %s\n", C.spaces[space].name.c_str(), (unsigned long long)index, key.c_str(), buf);
  add_viol(space, index, S->slot[W].first, key, buf);
}
void Ctx::state(u64 h) {
  if (insert(0, h))
    S->nstates++;
}
void Ctx::nontrivial(u64 h) {
  if (insert(1, h))
    S->nnontriv++;
}
void Ctx::step(u64 n) { S->steps += n; }
void Ctx::trace(u64 n) { S->traces += n; }
void Ctx::sample(const std::string &s) {
  if (S->nsamp.load() >= NSAMP)
    return;
  int i = S->nsamp++;
  if (i < NSAMP)
    snprintf(S->samp[i], sizeof S->samp[i], "%s", s.c_str());
  else
    S->nsamp = NSAMP;
}
void Ctx::counter(const char *name, u64 n) {
  u64 h = hash_bytes(name, strlen(name));
  for (int k = 0; k < NCTR; k++) {
    CtrEnt &e = S->ctr[(h + k) % NCTR];
    int u = e.used.load();
    if (u == 0) {
      int z = 0;
      if (e.used.compare_exchange_strong(z, 1)) {
        snprintf(e.name, sizeof e.name, "%s", name);
        e.used = 2;
      }
    }
    while (e.used.load() == 1)
      ;
    if (!strcmp(e.name, name)) {
      e.n += n;
      return;
    }
  }
}
void Ctx::note(const char *f, ...) {
  va_list ap;
  va_start(ap, f);
  vsnprintf(S->slot[W].note, sizeof S->slot[W].note, f, ap);
  va_end(ap);
  if (verbose)
    fprintf(stderr, "note: %s\n", S->slot[W].note);
}
void Ctx::still_alive() { S->slot[W].t0 = now(); }

static long live;
#if defined(__SANITIZE_ADDRESS__)
static int fill = -1;
static void on_malloc(const volatile void *p, size_t n) {
  live++;
  if (fill >= 0 && n <= (100u << 10)) // runs before calloc clears and realloc copies
    memset((void *)p, fill, n);
}
static void on_free(const volatile void *p) {
  if (p)
    live--;
}
#endif
long heap_live() { return live; }
void heap_fill(int byte) {
#if defined(__SANITIZE_ADDRESS__)
  fill = byte;
#endif
}

static void run_one(u64 space, u64 idx, bool verbose) {
  Ctx c;
  c.space = space;
  c.index = idx;
  c.verbose = verbose;
  Slot &s = S->slot[W];
  s.note[0] = 0;
  s.space = space;
  s.index = idx;
  s.t0 = now();
  C.spaces[space].run(idx, c);
  S->cases++;
}

static void locate(u64 g, u64 &space, u64 &idx) {
  size_t lo = 0, hi = base.size() - 1;
  while (lo + 1 < hi) {
    size_t m = (lo + hi) / 2;
    if (base[m] <= g)
      lo = m;
    else
      hi = m;
  }
  space = lo;
  idx = g - base[lo];
}

static std::string err_path(int w) { return scratch + "/err." + std::to_string(w); }

static void child_io(int w) {
  int fd = open(err_path(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600);
  dup2(fd, 2);
  int nul = open("/dev/null", O_RDWR);
  dup2(nul, 1);
  dup2(nul, 0);
}

// worker w processes [pos,end) (remainder of an interrupted chunk) and then chunks from the counter
static pid_t spawn(int w, u64 pos, u64 end, u64 chunk) {
  pid_t p = fork();
  if (p)
    return p;
  W = w;
  child_io(w);
  Slot &s = S->slot[w];
  s.first = pos < end ? pos : ~0ull;
  for (;;) {
    if (pos >= end) {
      if (S->nunlisted.load() >= MAX_UNLISTED)
        break;
      pos = S->next.fetch_add(chunk);
      if (pos >= total)
        break;
      end = pos + chunk < total ? pos + chunk : total;
      if (s.first == ~0ull)
        s.first = pos;
    }
    s.end = end;
    s.running = 1;
    for (; pos < end; pos++) {
      u64 sp, ix;
      locate(pos, sp, ix);
      run_one(sp, ix, false);
    }
    s.running = 0;
  }
  s.running = 0;
  fflush(nullptr);
  _exit(0);
}

static std::string slurp(const std::string &p, size_t max = 1 << 20) {
  std::string r;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f)
    return r;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, f)) > 0 && r.size() < max)
    r.append(b, n);
  fclose(f);
  return r;
}

// what killed a worker: a short stable key and a message
static void describe_death(int w, int st, std::string &key, std::string &msg) {
  std::string e = slurp(err_path(w));
  std::string how;
  if (WIFSIGNALED(st))
    how = std::string("signal:") + strsignal(WTERMSIG(st));
  else
    how = fmt("exit(%d)", WEXITSTATUS(st));
  size_t a = e.rfind("ERROR: AddressSanitizer: ");
  size_t b = e.rfind("SUMMARY: AddressSanitizer: ");
  size_t r = e.rfind("runtime error: ");
  if (a != std::string::npos) {
    size_t t = a + 25;
    std::string type = e.substr(t, e.find_first_of(" \n", t) - t);
    std::string fn = "?";
    // first frame that is in the repository's sources
    size_t p = a;
    while ((p = e.find("\n    #", p)) != std::string::npos) {
      size_t eol = e.find('\n', p + 1);
      std::string line = e.substr(p, eol == std::string::npos ? std::string::npos : eol - p);
      size_t in = line.find(" in ");
      if (in != std::string::npos && line.find("/repo/") != std::string::npos) {
        fn = line.substr(in + 4, line.find(' ', in + 4) - in - 4);
        break;
      }
      p++;
    }
    how = "asan:" + type + ":" + fn;
    msg = b != std::string::npos ? e.substr(b, e.find('\n', b) - b) : e.substr(a, 300);
  } else if (r != std::string::npos) {
    how = "ubsan";
    size_t bol = e.rfind('\n', r);
    msg = e.substr(bol == std::string::npos ? 0 : bol + 1, 300);
  } else {
    size_t as = e.rfind("Assertion `");
    if (as != std::string::npos) {
      size_t bol = e.rfind('\n', as);
      msg = e.substr(bol == std::string::npos ? 0 : bol + 1, e.find('\n', as) - bol - 1);
      how = "assert";
      size_t q = e.find('\'', as + 11);
      how += ":" + e.substr(as + 11, q - as - 11);
    } else
      msg = e.size() > 300 ? e.substr(e.size() - 300) : e;
  }
  key = "died:" + how;
}

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32 || c > 126)
      o += fmt("\\u%04x", c);
    else
      o += c;
  }
  return o;
}

int run_main(int argc, char **argv, std::function<Check(bool)> build) {
  bool thorough = false;
  int jobs = (int)sysconf(_SC_NPROCESSORS_ONLN);
  std::string out, one, only;
  double budget = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--thorough")
      thorough = true;
    else if (a == "--jobs")
      jobs = atoi(argv[++i]);
    else if (a == "--out")
      out = argv[++i];
    else if (a == "--case")
      one = argv[++i];
    else if (a == "--only")
      only = argv[++i];
    else if (a == "--known")
      known.push_back(argv[++i]);
    else if (a == "--budget")
      budget = atof(argv[++i]);
  }
  if (jobs > MAXW)
    jobs = MAXW;
  if (jobs < 1)
    jobs = 1;
  setenv("AT_DATE_ZERO", "yes", 1);
  setenv("TZ", "UTC", 1);
  S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
  autotrace_init();
  C = build(thorough);
  if (!only.empty()) {
    std::vector<Space> k;
    for (auto &s : C.spaces)
      if (s.name.find(only) != std::string::npos)
        k.push_back(s);
    C.spaces = k;
  }
  total = 0;
  for (auto &s : C.spaces) {
    base.push_back(total);
    total += s.count;
  }
  base.push_back(total);

  if (!one.empty()) { // replay one case, or a range  name:lo-hi  in one process
    size_t c = one.rfind(':');
    std::string nm = one.substr(0, c);
    u64 lo = strtoull(one.c_str() + c + 1, nullptr, 10), hi = lo;
    size_t d = one.find('-', c);
    if (d != std::string::npos)
      hi = strtoull(one.c_str() + d + 1, nullptr, 10);
    for (size_t s = 0; s < C.spaces.size(); s++)
      if (C.spaces[s].name == nm) {
        for (u64 i = lo; i <= hi && i < C.spaces[s].count; i++)
          run_one(s, i, i == hi);
        printf("replayed %s: %llu violation(s)\n", one.c_str(), (unsigned long long)S->nviol.load());
        return S->nviol.load() ? 1 : 0;
      }
    fprintf(stderr, "no space named %s\n", nm.c_str());
    return 2;
  }

  char tmpl[] = "/dev/shm/mcXXXXXX", tmpl2[] = "/tmp/mcXXXXXX";
  char *d = mkdtemp(tmpl);
  if (!d)
    d = mkdtemp(tmpl2);
  if (!d) {
    perror("mkdtemp");
    return 2;
  }
  scratch = d;
  setenv("MC_SCRATCH", d, 1);
  double t_start = now();
  u64 chunk = total / ((u64)jobs * 50);
  if (chunk < 1)
    chunk = 1;
  if (chunk > 2048)
    chunk = 2048;
  std::vector<pid_t> pid(jobs + 1, 0);
  int deaths = 0;
  bool capped = false;
  for (int w = 0; w < jobs; w++)
    pid[w] = spawn(w, 0, 0, chunk);
  int alive = jobs;
  auto rerun_alone = [&](u64 sp, u64 ix, double limit, int &st, bool &timeout) {
    // run the single case in a process of its own; its results count
    int w = jobs; // spare slot
    pid_t p = fork();
    if (!p) {
      W = w;
      child_io(w);
      S->slot[w].first = base[sp] + ix;
      run_one(sp, ix, false);
      fflush(nullptr);
      _exit(0);
    }
    double t0 = now();
    timeout = false;
    for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p)
        return;
      if (now() - t0 > limit) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        timeout = true;
        return;
      }
      usleep(2000);
    }
  };
  while (alive > 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(2000);
      double t = now();
      if (((budget > 0 && t - t_start > budget) || (S->nunlisted.load() && t - t_start > 90)) && S->next.load() < total) {
        S->next = total;
        capped = true;
      }
      for (int w = 0; w < jobs; w++) {
        Slot &s = S->slot[w];
        if (pid[w] && s.running && t - s.t0 > C.spaces[s.space].limit_s) {
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &st, 0);
          u64 sp = s.space, ix = s.index, end = s.end;
          std::string note = s.note;
          int st2;
          bool to;
          rerun_alone(sp, ix, C.spaces[sp].limit_s * 4, st2, to);
          if (to) {
            add_viol(sp, ix, base[sp] + ix, "hang", fmt("did not finish in %.0f s (confirmed alone); %s", C.spaces[sp].limit_s * 4, note.c_str()));
            deaths += 150;
          } else if (!WIFEXITED(st2) || WEXITSTATUS(st2) != 0) {
            std::string k, m;
            describe_death(jobs, st2, k, m);
            add_viol(sp, ix, base[sp] + ix, k, m + " | " + note);
            deaths++;
          }
          s.running = 0;
          u64 g = base[sp] + ix + 1;
          if (deaths > 400) {
            S->next = total;
            capped = true;
            end = 0;
          }
          pid[w] = spawn(w, g, end, chunk);
        }
      }
      continue;
    }
    int w = -1;
    for (int i = 0; i < jobs; i++)
      if (pid[i] == p)
        w = i;
    if (w < 0)
      continue;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !S->slot[w].running) {
      pid[w] = 0;
      alive--;
      continue;
    }
    // the code under test ended the process
    Slot &s = S->slot[w];
    std::string k, m;
    describe_death(w, st, k, m);
    u64 sp = s.space, ix = s.index;
    std::string note = s.note;
    add_viol(sp, ix, s.first, k, m + " | " + note);
    deaths++;
    u64 g = base[sp] + ix + 1, end = s.end;
    s.running = 0;
    if (deaths > 400) {
      S->next = total;
      capped = true;
      end = 0;
    }
    pid[w] = spawn(w, g, end, chunk);
  }
  double wall = now() - t_start;

  // replay before report: first case of each key, alone, in a fresh process
  u64 nv = S->nrec.load() < (u64)MAXV ? S->nrec.load() : MAXV;
  u64 all_viol = S->nviol.load();
  if (S->nunlisted.load() >= MAX_UNLISTED)
    capped = true;
  u64 cases = S->cases.load(), steps = S->steps.load(), traces = S->traces.load();
  std::vector<Viol> vs(S->viol, S->viol + nv);
  std::map<std::string, int> confirmed; // key -> 1 alone, 2 not alone
  for (auto &v : vs) {
    if (confirmed.count(v.key) || confirmed.size() > 40)
      continue;
    if (!strcmp(v.key, "hang")) {
      confirmed[v.key] = 1;
      continue;
    }
    u64 before = S->nviol.load();
    int st;
    bool to;
    rerun_alone(v.space, v.index, C.spaces[v.space].limit_s * 4, st, to);
    bool bad = to || !WIFEXITED(st) || WEXITSTATUS(st) != 0 || S->nviol.load() > before;
    confirmed[v.key] = bad ? 1 : 2;
  }
  FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
  if (!f) {
    perror("out");
    return 2;
  }
  fprintf(f, "{\"property\":\"%s\",\"thorough\":%s,\"cases\":%llu,\"total\":%llu,\"steps\":%llu,\"traces\":%llu,\"states\":%llu,\"nontrivial\":%llu,\"violations\":%llu,\"capped\":%s,\"table_full\":%s,\"wall\":%.2f,\n",
          C.property.c_str(), thorough ? "true" : "false", (unsigned long long)cases, (unsigned long long)total, (unsigned long long)steps,
          (unsigned long long)traces, (unsigned long long)S->nstates.load(), (unsigned long long)S->nnontriv.load(), (unsigned long long)all_viol,
          capped ? "true" : "false", S->tbl_full.load() ? "true" : "false", wall);
  fprintf(f, "\"bounds\":\"%s\",\n\"spaces\":[", jesc(C.bounds).c_str());
  for (size_t i = 0; i < C.spaces.size(); i++)
    fprintf(f, "%s[\"%s\",%llu]", i ? "," : "", jesc(C.spaces[i].name).c_str(), (unsigned long long)C.spaces[i].count);
  fprintf(f, "],\n\"counters\":{");
  bool first = true;
  for (int i = 0; i < NCTR; i++)
    if (S->ctr[i].used.load() == 2) {
      fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(S->ctr[i].name).c_str(), (unsigned long long)S->ctr[i].n.load());
      first = false;
    }
  fprintf(f, "},\n\"samples\":[");
  int ns = S->nsamp.load();
  if (ns > NSAMP)
    ns = NSAMP;
  for (int i = 0; i < ns; i++)
    fprintf(f, "%s\"%s\"", i ? "," : "", jesc(S->samp[i]).c_str());
  fprintf(f, "],\n\"viol\":[");
  for (size_t i = 0; i < vs.size(); i++)
    fprintf(f, "%s\n{\"space\":\"%s\",\"index\":%llu,\"first\":%llu,\"key\":\"%s\",\"msg\":\"%s\",\"alone\":%d}", i ? "," : "",
            jesc(C.spaces[vs[i].space].name).c_str(), (unsigned long long)vs[i].index, (unsigned long long)vs[i].first, jesc(vs[i].key).c_str(),
            jesc(vs[i].msg).c_str(), confirmed.count(vs[i].key) ? confirmed[vs[i].key] : 0);
  fprintf(f, "]}\n");
  if (f != stdout)
    fclose(f);
  for (int i = 0; i <= jobs; i++)
    unlink(err_path(i).c_str());
  rmdir(scratch.c_str());
  return all_viol ? 1 : 0;
}

} // namespace mc
