// Bounded exhaustive exploration engine.
//
// A check declares a list of finite spaces; the engine runs EVERY index of every space on the real
// code, in forked workers (so that a crash, exit() or hang of the code under test is one failed case
// and not the end of the run), counts distinct observed states, and records violations by case index.
// Any case can be replayed alone with  --case <space>:<index>.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace mc {

typedef uint64_t u64;

inline u64 hash_bytes(const void *p, size_t n, u64 h = 1469598103934665603ull) {
  const unsigned char *b = (const unsigned char *)p;
  for (size_t i = 0; i < n; i++) {
    h ^= b[i];
    h *= 1099511628211ull;
  }
  h ^= h >> 29;
  return h * 0x9E3779B97F4A7C15ull;
}
inline u64 hash_str(const std::string &s, u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }
inline u64 mix(u64 a, u64 b) { return hash_bytes(&b, sizeof b, a ^ 0x51ed270b); }

std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// Splits a case index into independent choices: pick(n) is in 0..n-1.
struct Pick {
  u64 v;
  explicit Pick(u64 idx) : v(idx) {}
  unsigned operator()(u64 n) {
    unsigned r = (unsigned)(v % n);
    v /= n;
    return r;
  }
};

struct Ctx {
  bool verbose = false;
  // the property does not hold in this case; key identifies the kind of failure
  void fail(const std::string &key, const char *f, ...) __attribute__((format(printf, 3, 4)));
  void state(u64 h);          // an observed state (distinct ones are counted)
  void step(u64 n = 1);       // operations executed on the code under test
  void trace(u64 n = 1);      // complete executions compared with the reference model
  void nontrivial(u64 h);     // distinct non-trivial cases by the check's own rule
  void sample(const std::string &s);
  void counter(const char *name, u64 n = 1); // named measured counter
  void note(const char *f, ...) __attribute__((format(printf, 2, 3))); // what is running (for crash reports)
  void still_alive();         // restart the hang clock (long cases made of many executions)
  bool failed = false;
  u64 space = 0, index = 0;
};

struct Space {
  std::string name;
  u64 count;
  std::function<void(u64, Ctx &)> run;
  double limit_s = 10; // hang limit of one case (a hit is re-run alone with 4x)
};

struct Check {
  std::string property;
  std::vector<Space> spaces;
  std::string bounds;   // human-readable bound statement
};

// build(tier) fills the spaces.  Returns the process exit status.
int run_main(int argc, char **argv, std::function<Check(bool thorough)> build);

// net heap allocations (malloc hooks of the sanitizer runtime); used to detect leaks per operation
long heap_live();
// fresh heap blocks start filled with this byte (-1: sanitizer default); two runs with different
// fills that differ in their result have used uninitialised memory
void heap_fill(int byte);

} // namespace mc
