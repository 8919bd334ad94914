// Runs the command line program in a scratch folder and collects everything it leaves behind.
#pragma once
#include "trace.hpp"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>

struct Scratch { // one folder per worker process inside the folder that with_scratch makes and removes
  std::string dir;
  pid_t owner = 0;
  static Scratch &get() {
    static Scratch s;
    if (s.owner != getpid()) { // first use in this worker
      const char *root = getenv("MC_SCRATCH");
      s.dir = fmt("%s/%d", root ? root : "/nonexistent", (int)getpid());
      if (mkdir(s.dir.c_str(), 0755) && errno != EEXIST) // a number may come again
        _exit(97);
      s.owner = getpid();
    }
    return s;
  }
  void clear() {
    if (DIR *d = opendir(dir.c_str())) {
      while (dirent *e = readdir(d))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
          std::string p = dir + "/" + e->d_name;
          if (unlink(p.c_str()))
            rmdir(p.c_str());
        }
      closedir(d);
    }
  }
  std::string path(const std::string &n) const { return dir + "/" + n; }
};
inline int with_scratch(int argc, char **argv, mc::Check (*build)(bool)) {
  char t[] = "/tmp/mc-cli-XXXXXX";
  if (!mkdtemp(t)) {
    perror("mkdtemp");
    return 2;
  }
  setenv("MC_SCRATCH", t, 1);
  int r = mc::run_main(argc, argv, build);
  pid_t p = fork();
  if (p == 0) {
    execlp("rm", "rm", "-rf", t, (char *)0);
    _exit(0);
  }
  waitpid(p, nullptr, 0);
  return r;
}
inline bool put(const std::string &path, const Bytes &b) {
  FILE *f = fopen(path.c_str(), "wb");
  if (!f)
    return false;
  bool ok = fwrite(b.data(), 1, b.size(), f) == b.size();
  return fclose(f) == 0 && ok;
}
inline bool slurp(const std::string &path, Bytes &b) {
  b.clear();
  int f = open(path.c_str(), O_RDONLY);
  if (f < 0)
    return false;
  char buf[65536];
  ssize_t n;
  while ((n = read(f, buf, sizeof buf)) > 0)
    b.append(buf, n);
  close(f);
  return n == 0;
}

struct Ran {
  int exit = -1;   // exit status, or -1
  int signal = 0;  // signal that ended it
  bool asan = false;
  Bytes out, err;
  std::string how() const { return signal ? fmt("signal %d", signal) : fmt("exit status %d", exit); }
};
struct RunOpts {
  long fsize = -1;          // limit for the size of written files
  std::string out_to;       // standard output goes to this path instead
  bool closed_stdout = false;
  int flaky = -1;           // number of the write that is refused, see flaky.c
  bool flaky_stdout = false;
};
// runs in the scratch folder
inline Ran run_cli(const std::vector<std::string> &args, const RunOpts &ro = RunOpts()) {
  Ran r;
  static const std::string cli = getenv("MC_CLI") ? getenv("MC_CLI") : "";
  std::string dir = Scratch::get().dir;
  int so = memfd_create("out", MFD_CLOEXEC), se = memfd_create("err", MFD_CLOEXEC);
  std::vector<char *> av;
  av.push_back((char *)"autotrace");
  for (auto &a : args)
    av.push_back((char *)a.c_str());
  av.push_back(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    if (chdir(dir.c_str()))
      _exit(96);
    int n = open("/dev/null", O_RDONLY);
    dup2(n, 0);
    if (ro.closed_stdout)
      close(1);
    else if (ro.out_to.size()) {
      int o = open(ro.out_to.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (o < 0)
        _exit(96);
      dup2(o, 1);
    } else
      dup2(so, 1);
    dup2(se, 2);
    if (ro.fsize >= 0) {
      signal(SIGXFSZ, SIG_IGN);
      rlimit l = {(rlim_t)ro.fsize, (rlim_t)ro.fsize};
      setrlimit(RLIMIT_FSIZE, &l);
    }
    setenv("ASAN_OPTIONS", "detect_leaks=0:exitcode=99:abort_on_error=0", 1);
    setenv("AT_DATE_ZERO", "yes", 1);
    alarm(60);
    if (ro.flaky >= 0) {
      setenv("MC_FLAKY", fmt("%d", ro.flaky).c_str(), 1);
      if (ro.flaky_stdout)
        setenv("MC_FLAKY_STDOUT", "1", 1);
      execv(getenv("MC_CLI_FLAKY"), av.data());
    }
    execv(cli.c_str(), av.data());
    _exit(95);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st))
    r.exit = WEXITSTATUS(st);
  else
    r.signal = WTERMSIG(st);
  auto all = [](int fd) {
    Bytes b;
    lseek(fd, 0, SEEK_SET);
    char buf[65536];
    ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0)
      b.append(buf, n);
    close(fd);
    return b;
  };
  r.out = all(so);
  r.err = all(se);
  r.asan = r.err.find("AddressSanitizer") != Bytes::npos;
  return r;
}
inline std::string joined(const std::vector<std::string> &a) {
  std::string s;
  for (auto &x : a)
    s += (s.empty() ? "" : " ") + (x.empty() ? std::string("''") : x);
  return s;
}
// what the library makes of the same job
struct Job {
  std::string in_suffix, out_suffix, out_name;
  Bytes file;
  std::function<void(at_fitting_opts_type *, at_input_opts_type *, at_output_opts_type *)> set;
};
struct Done {
  bool fatal = false; // an error was reported
  Bytes out;
  Img bitmap; // after tracing
  std::string msg;
};
inline Done by_library_here(const Job &j) {
  Done d;
  at_fitting_opts_type *f = at_fitting_opts_new();
  at_input_opts_type *i = at_input_opts_new();
  at_output_opts_type *o = at_output_opts_new();
  if (j.set)
    j.set(f, i, o);
  MemFile mf(j.file);
  Msgs m;
  at_bitmap *b = read_raw(j.in_suffix.c_str(), mf.path, m, i);
  if (!m.fatal) {
    at_splines_type *s = at_splines_new(b, f, Msgs::cb, &m);
    d.bitmap = from_bitmap(b);
    if (!m.fatal && s)
      d.out = write_splines(j.out_suffix.c_str(), s, m, o, j.out_name.c_str());
    if (s)
      at_splines_free(s);
  }
  if (b)
    at_bitmap_free(b);
  d.fatal = m.fatal;
  d.msg = m.last;
  at_fitting_opts_free(f);
  at_input_opts_free(i);
  at_output_opts_free(o);
  return d;
}
// The GF reader leaves font measures for the UGS writer: keep them out of this process.
inline Done by_library(const Job &j) {
  if (j.in_suffix != "gf")
    return by_library_here(j);
  Done d;
  int fd = memfd_create("done", 0);
  pid_t pid = fork();
  if (pid == 0) {
    Done x = by_library_here(j);
    FILE *f = fdopen(fd, "wb");
    fprintf(f, "%d %zu %zu %d %d %d %zu\n", x.fatal, x.out.size(), x.msg.size(), x.bitmap.w, x.bitmap.h, x.bitmap.np, x.bitmap.px.size());
    fwrite(x.out.data(), 1, x.out.size(), f);
    fwrite(x.msg.data(), 1, x.msg.size(), f);
    fwrite(x.bitmap.px.data(), 1, x.bitmap.px.size(), f);
    fclose(f);
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  lseek(fd, 0, SEEK_SET);
  FILE *f = fdopen(fd, "rb");
  int fatal, w, h, np;
  size_t no, nm, npx;
  d.fatal = true;
  d.msg = "the library call died";
  if (st == 0 && fscanf(f, "%d %zu %zu %d %d %d %zu", &fatal, &no, &nm, &w, &h, &np, &npx) == 7 && fgetc(f) == '\n') {
    d.fatal = fatal;
    d.out.resize(no);
    d.msg.resize(nm);
    d.bitmap.px.resize(npx);
    d.bitmap.w = w;
    d.bitmap.h = h;
    d.bitmap.np = np;
    if (fread(&d.out[0], 1, no, f) != no || fread(&d.msg[0], 1, nm, f) != nm || fread(d.bitmap.px.data(), 1, npx, f) != npx)
      d.fatal = true;
  }
  fclose(f);
  return d;
}
