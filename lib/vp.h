// Choice explorer: bounded exhaustive enumeration of executions of a harness body.
// A body asks choose(n) for every degree of freedom. All paths are run (depth first).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp {

struct Violation { std::string sig, detail; };
struct Skip {};           // path belongs to another shard / pruned

struct Choice { uint16_t v, n; };

static const int MAXC = 60000;
static const int MAXSIG = 4096;

// State shared between worker and monitor (survives a crash of the worker).
struct Shared {
  volatile uint64_t execs, steps, skips, beat;
  volatile int nChoices;            // choices made so far in the current execution
  volatile int curScenario;
  volatile int active;              // an execution is running
  volatile int done;
  Choice trace[MAXC];
  volatile uint64_t sig[MAXSIG];    // violation signatures already written out
  volatile uint64_t sigCount[MAXSIG];
  char where[512];                  // context label for crash signatures
};
extern Shared *g_sh;

class Ctx {
public:
  // ---- degrees of freedom
  int choose(int n);                                   // 0..n-1
  bool flag() { return choose(2) == 1; }
  int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[choose((int)v.size())]; }
  // ---- reporting
  [[noreturn]] void fail(const std::string &sig, const std::string &detail = std::string()) { throw Violation{sig, detail}; }
  [[noreturn]] void fail2(const std::string &sig, const std::string &detail = "") { throw Violation{sig, detail}; }
  // Non-fatal: records and continues (used so one known finding does not mask others on the same path).
  void report(const std::string &sig, const std::string &detail);
  void check(bool ok, const std::string &sig, const std::string &detail = "") { if (!ok) fail(sig, detail); }
  // Label attached to a crash/hang signature.
  void where(const std::string &w);
  void step() { g_sh->steps++; }                       // one operation applied to the implementation
  void state(uint64_t h);                              // a distinct (canonical) state was reached
  void outcome(const std::string &o);                  // a distinct observed outcome
  void log(const std::string &s) { if (verbose) trace.push_back(s); }
  void prune() { throw Skip(); }
  bool verbose = false;
  bool thorough = false;
  uint64_t seed = 1;
  std::string tmpDir;                                  // private scratch directory
  std::vector<std::string> trace;
};

typedef std::function<void(Ctx &)> Body;
struct Options {
  bool isolate = false;     // fork one process per execution
  int shardDepth = 3;       // distribute paths over shards by their first choices
  int timeoutMs = 20000;    // per execution
  bool thoroughOnly = false;
  std::function<void(Ctx &)> prepare;   // run once per process before the scenario
  std::function<void()> finish;         // and after it
  bool whole = false;       // run by one shard only
  int recycle = 0;          // executions per worker process (0: unlimited)
};
void scenario(const std::string &name, const Body &b, const Options &o = Options());
Options opt(bool isolate, int shardDepth, int timeoutMs = 20000, int recycle = 0);
// Defined by the harness: registers scenarios.
void registerScenarios(bool thorough);

inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h;
}
inline uint64_t hashBytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return mix(h, n);
}
inline uint64_t hashStr(const std::string &s) { return hashBytes(s.data(), s.size()); }

struct Str {
  std::ostringstream o;
  template <class T> Str &operator<<(const T &t) { o << t; return *this; }
  operator std::string() const { return o.str(); }
};
#define VS() (::vp::Str())

// Lazily evaluated check
#define VPCHECK(c, cond, ...) do { if (!(cond)) (c).fail2(__VA_ARGS__); } while (0)

void noteExtra(const std::string &key, double v);   // summed over shards into the evidence
int runMain(int argc, char **argv);

// Hooks used by the schedule explorer.
extern std::function<void()> g_beforeExec;
}
