#include "vp.h"
#include <algorithm>
#include <csignal>
#include <fcntl.h>
#include <map>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <errno.h>

namespace vp {

Shared *g_sh = nullptr;
std::function<void()> g_beforeExec;

struct Scenario { std::string name; Body body; Options o; };
static std::vector<Scenario> &scenarios() { static std::vector<Scenario> s; return s; }
void scenario(const std::string &name, const Body &b, const Options &o) { scenarios().push_back(Scenario{name, b, o}); }
Options opt(bool isolate, int shardDepth, int timeoutMs, int recycle) { Options o; o.isolate = isolate; o.shardDepth = shardDepth; o.timeoutMs = timeoutMs; o.recycle = recycle; return o; }

static int g_shard = 0, g_nshards = 1;
static bool g_thorough = false;
static uint64_t g_seed = 1;
static std::string g_tmp, g_out;
static std::vector<Choice> g_prefix;     // choices to replay
static bool g_replayOnly = false;
static bool g_diverged = false;

// results accumulated in the worker, flushed to files so that they survive crashes
static std::set<uint64_t> g_states;
static FILE *g_vioFile = nullptr;
static std::set<std::string> g_outcomes;
static FILE *g_outcomeFile = nullptr, *g_stateFile = nullptr, *g_sampleFile = nullptr;
static int g_samples = 0;

static void esc(FILE *f, const std::string &s) {
  fputc('"', f);
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
    else if (c == '\n') fputs("\\n", f);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}
static std::string vecStr(const Choice *t, int n) {
  std::string s;
  for (int i = 0; i < n; ++i) { if (i) s += '.'; s += std::to_string(t[i].v); }
  return s;
}
static void writeVio(const std::string &sig, const std::string &detail) {
  if (g_replayOnly) { printf("VIO %s :: %s\n", sig.c_str(), detail.c_str()); fflush(stdout); }
  if (!g_vioFile) return;
  uint64_t h = mix(hashStr(sig), g_sh->curScenario) | 1;
  for (int i = 0; i < MAXSIG; ++i) {
    if (g_sh->sig[i] == h) { g_sh->sigCount[i]++; return; }
    if (!g_sh->sig[i]) { g_sh->sig[i] = h; g_sh->sigCount[i] = 1; break; }
  }
  fprintf(g_vioFile, "{\"sig\":"); esc(g_vioFile, sig);
  fprintf(g_vioFile, ",\"detail\":"); esc(g_vioFile, detail.substr(0, 4000));
  fprintf(g_vioFile, ",\"scenario\":"); esc(g_vioFile, scenarios()[g_sh->curScenario].name);
  fprintf(g_vioFile, ",\"choices\":"); esc(g_vioFile, vecStr(g_sh->trace, g_sh->nChoices));
  fprintf(g_vioFile, "}\n"); fflush(g_vioFile);
}

static std::map<std::string, double> g_extra;
void noteExtra(const std::string &k, double v) { g_extra[k] += v; }
static uint64_t prefixHash(int depth) {
  uint64_t h = mix(0x1234567, g_sh->curScenario);
  for (int i = 0; i < depth; ++i) h = mix(h, g_sh->trace[i].v);
  return h;
}

int Ctx::choose(int n) {
  int i = g_sh->nChoices;
  if (n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
  if (i >= MAXC) { fprintf(stderr, "too many choices\n"); abort(); }
  int v = 0;
  if (i < (int)g_prefix.size()) {
    v = g_prefix[i].v;
    if (v >= n || (g_prefix[i].n && g_prefix[i].n != n)) {
      fprintf(stderr, "HARNESS: divergence at choice %d: %d/%d was /%d in %s\n", i, v, n, g_prefix[i].n, scenarios()[g_sh->curScenario].name.c_str());
      g_diverged = true; _exit(77);
    }
  }
  g_sh->trace[i].v = v; g_sh->trace[i].n = n;
  g_sh->nChoices = i + 1;
  int sd = scenarios()[g_sh->curScenario].o.shardDepth;
  if (!g_replayOnly && g_nshards > 1 && i + 1 == sd) {
    if ((int)(prefixHash(sd) % g_nshards) != g_shard) throw Skip();
  }
  return v;
}
void Ctx::report(const std::string &sig, const std::string &detail) { writeVio(sig, detail); }
void Ctx::where(const std::string &w) { strncpy(g_sh->where, w.c_str(), sizeof(g_sh->where) - 1); }
void Ctx::state(uint64_t h) { if (g_states.insert(h).second && g_stateFile) { fwrite(&h, 8, 1, g_stateFile); } }
void Ctx::outcome(const std::string &o) {
  if (g_outcomes.size() < 100000 && g_outcomes.insert(o).second && g_outcomeFile) { fputs(o.substr(0, 300).c_str(), g_outcomeFile); fputc('\n', g_outcomeFile); fflush(g_outcomeFile); }
}

static void rmTree(const std::string &d) {
  DIR *dir = opendir(d.c_str()); if (!dir) return;
  while (dirent *e = readdir(dir)) {
    std::string n = e->d_name; if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmTree(p); else unlink(p.c_str());
  }
  closedir(dir); rmdir(d.c_str());
}

// Runs one execution. Returns 0 normal, 1 violation, 2 skipped.
static int runOne(const Scenario &s, Ctx &c) {
  g_sh->nChoices = 0; g_sh->where[0] = 0; g_sh->beat++; g_sh->active = 1;
  int r = 0;
  try {
    if (g_beforeExec) g_beforeExec();
    s.body(c);
    if (!g_replayOnly && g_nshards > 1 && g_sh->nChoices < s.o.shardDepth &&
        (int)(prefixHash(g_sh->nChoices) % g_nshards) != g_shard) r = 2;
  } catch (Skip &) { r = 2; }
  catch (Violation &v) { writeVio(v.sig, v.detail); r = 1; }
  catch (std::exception &e) {
    writeVio(std::string("exception: ") + g_sh->where, std::string("uncaught ") + e.what()); r = 1;
  } catch (...) {
    writeVio(std::string("exception: ") + g_sh->where, "uncaught non-std exception"); r = 1;
  }
  g_sh->active = 0;
  if (r == 2) g_sh->skips++; else g_sh->execs++;
  return r;
}

// next prefix in DFS order from the trace of the last execution; false if exhausted
static bool advance() {
  int n = g_sh->nChoices;
  while (n > 0 && g_sh->trace[n - 1].v + 1 >= g_sh->trace[n - 1].n) --n;
  if (n == 0) return false;
  std::vector<Choice> p(g_sh->trace, g_sh->trace + n);
  p[n - 1].v++;
  g_prefix.swap(p);
  return true;
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void maybeSample(Ctx &c, const Scenario &s) {
  // write out the first two and a sparse selection of executions as samples
  static std::map<std::string, int> cnt;
  int &k = cnt[s.name]; ++k;
  if (!g_sampleFile || !(k == 1 || k == 5 || k == 50)) return;
  if (g_samples++ > 60) return;
  fprintf(g_sampleFile, "{\"scenario\":"); esc(g_sampleFile, s.name);
  fprintf(g_sampleFile, ",\"choices\":"); esc(g_sampleFile, vecStr(g_sh->trace, std::min<int>((int)g_sh->nChoices, 400)));
  fprintf(g_sampleFile, ",\"trace\":[");
  for (size_t i = 0; i < c.trace.size() && i < 60; ++i) { if (i) fputc(',', g_sampleFile); esc(g_sampleFile, c.trace[i]); }
  fprintf(g_sampleFile, "]}\n"); fflush(g_sampleFile);
}

struct Limits { double deadline; };
static volatile bool g_stopped = false;

// Worker: enumerates the scenario from g_prefix until done. Exits 0 when exhausted, 3 on deadline.
static void worker(int si, double deadline) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  const Scenario &s = scenarios()[si];
  g_sh->curScenario = si;
  Ctx c; c.thorough = g_thorough; c.seed = g_seed; c.tmpDir = g_tmp;
  int k = 0, ran = 0;
  while (true) {
    c.trace.clear();
    c.verbose = (k < 60);
    if (s.o.isolate) {
      fflush(nullptr);
      pid_t p = fork();
      if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int r = runOne(s, c);
        if (k < 60 && r == 0) maybeSample(c, s);
        if (g_stateFile) fflush(g_stateFile);
        if (g_sampleFile) fflush(g_sampleFile);
        _exit(r == 1 ? 1 : 0);
      }
      int st = 0; waitpid(p, &st, 0);
      if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); raise(WTERMSIG(st)); _exit(99); }
      if (WEXITSTATUS(st) > 1) _exit(WEXITSTATUS(st));
    } else {
      int r = runOne(s, c); if (r != 2) ++ran;
      if (k < 60 && r == 0) maybeSample(c, s);
    }
    ++k;
    if (!advance()) break;
    if (deadline && (k & 15) == 0 && now() > deadline) { if (g_stateFile) fflush(g_stateFile); _exit(3); }
    if (s.o.recycle && ran >= s.o.recycle) { if (g_stateFile) fflush(g_stateFile); if (g_sampleFile) fflush(g_sampleFile); _exit(4); }
    if (s.o.isolate && deadline && now() > deadline) { if (g_stateFile) fflush(g_stateFile); _exit(3); }
  }
  if (g_stateFile) fflush(g_stateFile);
  g_sh->done = 1;
  _exit(0);
}

static std::string tail(const std::string &f, size_t n) {
  FILE *fp = fopen(f.c_str(), "rb"); if (!fp) return "";
  fseek(fp, 0, SEEK_END); long sz = ftell(fp); long off = sz > (long)n ? sz - (long)n : 0;
  fseek(fp, off, SEEK_SET); std::string s(sz - off, 0); size_t got = fread(&s[0], 1, s.size(), fp); s.resize(got); fclose(fp); return s;
}
static std::string crashSig(int st, const std::string &err) {
  std::string kind;
  size_t p;
  if ((p = err.rfind("SUMMARY: ")) != std::string::npos) {
    // "SUMMARY: AddressSanitizer: heap-use-after-free /path/file.h:123 in fn"
    std::istringstream is(err.substr(p)); std::string a, b, k; is >> a >> b >> k; kind = k;
  } else if ((p = err.rfind("Assertion `")) != std::string::npos) {
    size_t q = err.find("' failed", p); kind = "assertion " + err.substr(p + 11, std::min<size_t>(q - p - 11, 80));
  } else if (err.find("terminate called") != std::string::npos) kind = "terminate";
  else if ((p = err.rfind("SCHED: ")) != std::string::npos) { size_t q = err.find('\n', p); kind = err.substr(p + 7, q - p - 7); }
  else if (WIFSIGNALED(st)) kind = std::string("signal ") + strsignal(WTERMSIG(st));
  else kind = "exit " + std::to_string(WEXITSTATUS(st));
  return "crash[" + kind + "]: " + g_sh->where;
}

static int mergeStates(int argc, char **argv) {
  std::vector<uint64_t> v;
  for (int i = 2; i < argc; ++i) {
    FILE *f = fopen(argv[i], "rb"); if (!f) continue;
    uint64_t buf[4096]; size_t n;
    while ((n = fread(buf, 8, 4096, f)) > 0) v.insert(v.end(), buf, buf + n);
    fclose(f);
  }
  std::sort(v.begin(), v.end());
  printf("%zu\n", (size_t)(std::unique(v.begin(), v.end()) - v.begin()));
  return 0;
}

int runMain(int argc, char **argv) {
  if (argc > 1 && std::string(argv[1]) == "--merge-states") return mergeStates(argc, argv);
  std::string replay, only;
  double budget = 0;
  g_out = ""; 
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--shard") sscanf(argv[++i], "%d/%d", &g_shard, &g_nshards);
    else if (a == "--tier") g_thorough = next() == "thorough";
    else if (a == "--seed") g_seed = strtoull(argv[++i], 0, 10);
    else if (a == "--out") g_out = next();
    else if (a == "--tmp") g_tmp = next();
    else if (a == "--replay") replay = next();
    else if (a == "--scenario") only = next();
    else if (a == "--budget") budget = atof(argv[++i]);
    else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
  }
  if (g_tmp.empty()) { fprintf(stderr, "--tmp needed\n"); return 2; }
  mkdir(g_tmp.c_str(), 0755);
  g_sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  registerScenarios(g_thorough);
  if (!replay.empty()) {
    size_t p = replay.find('@');
    std::string sn = replay.substr(0, p), vec = replay.substr(p + 1);
    int si = -1;
    for (size_t i = 0; i < scenarios().size(); ++i) if (scenarios()[i].name == sn) si = (int)i;
    if (si < 0) { fprintf(stderr, "no scenario %s\n", sn.c_str()); return 2; }
    std::istringstream is(vec); std::string t; g_prefix.clear();
    while (std::getline(is, t, '.')) if (!t.empty()) g_prefix.push_back(Choice{(uint16_t)atoi(t.c_str()), 0});
    g_replayOnly = true; g_nshards = 1;
    g_sh->curScenario = si;
    if (scenarios()[si].o.prepare) { g_sh->curScenario = si; Ctx pc; pc.thorough = g_thorough; pc.seed = g_seed; pc.tmpDir = g_tmp; scenarios()[si].o.prepare(pc); g_sh->nChoices = 0; }
    fflush(nullptr);
    pid_t p2 = fork();
    if (p2 == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      int fd = open((g_tmp + "/../replay.err").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
      if (fd >= 0) { dup2(fd, 2); close(fd); }
      Ctx c; c.verbose = true; c.thorough = g_thorough; c.seed = g_seed; c.tmpDir = g_tmp;
      int r = runOne(scenarios()[si], c);
      for (auto &l : c.trace) printf("  %s\n", l.c_str());
      printf("RESULT %s\n", r == 1 ? "violation" : r == 0 ? "ok" : "skip"); fflush(stdout);
      _exit(r == 1 ? 1 : 0);
    }
    std::string rerr = g_tmp + "/../replay.err";
    double t0 = now(); int st = 0;
    double lim = scenarios()[si].o.timeoutMs * 3e-3;
    while (true) {
      pid_t w = waitpid(p2, &st, WNOHANG);
      if (w == p2) break;
      if (now() - t0 > lim) { kill(p2, SIGKILL); waitpid(p2, &st, 0); printf("VIO hang: %s :: no progress\nRESULT violation\n", g_sh->where); rmTree(g_tmp); return 1; }
      usleep(2000);
    }
    rmTree(g_tmp);
    if (WIFEXITED(st) && WEXITSTATUS(st) <= 1) return WEXITSTATUS(st);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { printf("RESULT diverged\n"); return 2; }
    {
      std::string err = tail(rerr, 12000);
      fputs(err.c_str(), stderr);
      printf("choices %s\nVIO %s :: status %d\nRESULT violation\n", vecStr(g_sh->trace, g_sh->nChoices).c_str(), crashSig(st, err).c_str(), st);
    }
    return 1;
  }
  g_vioFile = fopen((g_out + ".vio").c_str(), "w");
  g_outcomeFile = fopen((g_out + ".outcomes").c_str(), "w");
  g_stateFile = fopen((g_out + ".states").c_str(), "wb");
  g_sampleFile = fopen((g_out + ".samples").c_str(), "w");
  std::string errf = g_out + ".stderr";
  double start = now();
  double deadline = budget > 0 ? start + budget : 0;
  FILE *res = fopen((g_out + ".json").c_str(), "w");
  fprintf(res, "{\"scenarios\":[");
  bool first = true; int truncated = 0, crashes = 0; bool harnessError = false;
  for (size_t si = 0; si < scenarios().size(); ++si) {
    const Scenario &s = scenarios()[si];
    if (!only.empty() && s.name != only) continue;
    if (s.o.whole && g_nshards > 1 && (int)(si % g_nshards) != g_shard) continue;
    g_sh->execs = g_sh->steps = g_sh->skips = 0; g_sh->done = 0; g_sh->nChoices = 0; g_sh->active = 0; g_sh->curScenario = (int)si;
    g_prefix.clear(); g_states.clear();
    double t0 = now(); bool trunc = false; int scrashes = 0;
    if (s.o.prepare) { Ctx pc; pc.thorough = g_thorough; pc.seed = g_seed; pc.tmpDir = g_tmp; s.o.prepare(pc); g_sh->nChoices = 0; g_sh->steps = 0; g_sh->skips = 0; }
    while (true) {
      fflush(nullptr);
      pid_t p = fork();
      if (p == 0) {
        int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
        dup2(fd, 1); dup2(fd, 2); close(fd);
        worker((int)si, deadline);
      }
      int st = 0; uint64_t beat = g_sh->beat; double tb = now(); bool hang = false; double tr = now();
      while (true) {
        pid_t w = waitpid(p, &st, WNOHANG);
        if (w == p) break;
        if (g_sh->beat != beat) { beat = g_sh->beat; tb = now(); }
        else if (now() - tb > s.o.timeoutMs * 1e-3 && g_sh->active) {
          kill(p, SIGKILL); waitpid(p, &st, 0); hang = true; break;
        }
        if (now() - tr > 5) { // keep the captured output small
          tr = now(); struct stat sb; if (stat(errf.c_str(), &sb) == 0 && sb.st_size > (8 << 20)) { if (truncate(errf.c_str(), 0)) {} }
        }
        usleep(1000);
      }
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0 && g_sh->done) break;
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 3) { trunc = true; break; }
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 4) { if (!advance()) break; continue; }
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 77) { harnessError = true; fprintf(stderr, "%s", tail(errf, 2000).c_str()); break; }
      // crash or hang of the current execution
      std::string err = tail(errf, 12000);
      std::string sig = hang ? std::string("hang: ") + g_sh->where : crashSig(st, err);
      g_sh->execs++;
      writeVio(sig, err.size() > 3500 ? err.substr(0, 3500) : err);
      ++crashes; ++scrashes;
      if (scrashes > 400) { trunc = true; break; }
      if (deadline && now() > deadline) { trunc = true; break; }
      if (!advance()) break;
    }
    if (trunc) truncated++;
    if (s.o.finish) s.o.finish();
    fprintf(res, "%s{\"name\":", first ? "" : ","); esc(res, s.name); first = false;
    fprintf(res, ",\"execs\":%llu,\"steps\":%llu,\"skips\":%llu,\"truncated\":%s,\"crashes\":%d,\"wall\":%.2f}",
            (unsigned long long)g_sh->execs, (unsigned long long)g_sh->steps, (unsigned long long)g_sh->skips, trunc ? "true" : "false", scrashes, now() - t0);
    rmTree(g_tmp); mkdir(g_tmp.c_str(), 0755);
  }
  unsigned long long tv = 0; for (int i = 0; i < MAXSIG && g_sh->sig[i]; ++i) tv += g_sh->sigCount[i];
  fprintf(res, "],\"violating\":%llu", tv);
  fprintf(res, ",\"extra\":{"); { bool ef = true; for (auto &e : g_extra) { fprintf(res, "%s\"%s\":%g", ef ? "" : ",", e.first.c_str(), e.second); ef = false; } } fprintf(res, "}");
  fprintf(res, ",\"truncated\":%d,\"harness_error\":%s,\"wall\":%.2f}\n", truncated, harnessError ? "true" : "false", now() - start);
  fclose(res);
  rmTree(g_tmp);
  return harnessError ? 2 : 0;
}
}

extern "C" __attribute__((weak, visibility("default"))) const char *__asan_default_options() {
  return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:quarantine_size_mb=24:malloc_context_size=6:detect_stack_use_after_return=0:max_allocation_size_mb=3000:allocator_release_to_os_interval_ms=-1";
}
__attribute__((weak)) int main(int argc, char **argv) { return vp::runMain(argc, argv); }
