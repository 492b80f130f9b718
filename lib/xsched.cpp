#include "xsched.h"
#include <atomic>
#include <cerrno>
#include <algorithm>
#include <cstdarg>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vp { struct Scenario; }
typedef uintptr_t up;
#define HID __attribute__((visibility("hidden")))

// ================================================================ memory: an arena that is not reused while schedules run
static const up ARENA = 0x200000000000ull, ARENA_SZ = 6ull << 30, SHADOW = 0x240000000000ull;
static volatile bool g_on = false;                     // an execution under the scheduler is running
static std::atomic_flag g_mlock = ATOMIC_FLAG_INIT;
static up g_top = 0, g_priv[24]; static bool g_mixed = false; static void *g_freeList[64];
// every thread allocates from a part of its own, so that addresses depend little on the schedule
static const up TPART = 96ull << 20; static up g_ttop[24]; static __thread int t_id = -1;
enum { SH_NONE = 0, SH_LIVE = 1, SH_FREED = 2, SH_RED = 3 };
static inline unsigned char *shadow(up a) { return (unsigned char *)(SHADOW + ((a - ARENA) >> 4)); }
static inline bool inArena(up a) { return a - ARENA < ARENA_SZ; }
static void arenaInit() {
  if (g_top) return;
  void *p = mmap((void *)ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void *q = mmap((void *)SHADOW, ARENA_SZ >> 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA || q != (void *)SHADOW) { static const char m[] = "no arena\n"; if (write(2, m, sizeof m)) {} _exit(77); }
  madvise(p, ARENA_SZ - 24 * TPART, MADV_HUGEPAGE); g_top = ARENA + 4096;
}
struct MLock { MLock() { while (g_mlock.test_and_set(std::memory_order_acquire)) ; } ~MLock() { g_mlock.clear(std::memory_order_release); } };
static inline int cls(size_t n) { size_t g = (n + 15) / 16; if (g <= 32) return (int)g; int c = 33; size_t s = 48; while (s < g && c < 62) { s = s * 3 / 2; ++c; } return s >= g ? c : -1; }
static inline size_t clsSize(int c) { if (c <= 32) return (size_t)c * 16; size_t s = 48; for (int i = 33; i < c; ++i) s = s * 3 / 2; return s * 16; }
// Memory a thread allocated since it last could have made a pointer known to others - by a racing write to memory that is
// not such memory itself, by giving up a lock, by an atomic write, by starting a thread - is private: accesses to it are no scheduling points.
static inline bool isPriv(up a) { if (t_id == 0) return a >= g_priv[0] && a < g_top && !g_mixed; return a >= g_priv[t_id] && a < g_ttop[t_id]; }
static inline void leak() { g_priv[t_id] = t_id == 0 ? g_top : g_ttop[t_id]; }
static void *arenaAlloc(size_t n, size_t al) {
  MLock l; arenaInit(); if (!n) n = 1; int c = al <= 16 ? cls(n) : -1; size_t cap = c >= 0 ? clsSize(c) : (n + 15) / 16 * 16; up p;
  if (n > (3ull << 30)) return 0;
  if (!g_on && c >= 0 && g_freeList[c]) { p = (up)g_freeList[c]; g_freeList[c] = *(void **)p; }
  else {
    up *top = &g_top, end = ARENA + ARENA_SZ - 24 * TPART; if (g_on && t_id > 0) { up e = end + (up)(t_id + 1) * TPART; if (!g_ttop[t_id]) g_ttop[t_id] = g_priv[t_id] = e - TPART; if (g_ttop[t_id] + cap + al + 64 < e) { top = &g_ttop[t_id]; end = e; } else g_mixed = true; }
    p = (*top + 16 + al - 1) / al * al; if (p + cap + 32 > end) return 0; *top = p + cap; *shadow(p - 16) = SH_RED; }
  size_t *h = (size_t *)(p - 16); h[0] = n; h[1] = (size_t)(c + 1) | (cap << 8);
  memset(shadow(p), SH_LIVE, (n + 15) / 16); size_t used = (n + 15) / 16, all = cap / 16; if (all > used) memset(shadow(p + used * 16), SH_RED, all - used);
  return (void *)p;
}
static void arenaFree(void *v) {
  if (!v) return; up p = (up)v; if (!inArena(p)) return; MLock l; size_t *h = (size_t *)(p - 16); int c = (int)(h[1] & 255) - 1; size_t n = h[0];
  if (*shadow(p) == SH_FREED) { static const char m[] = "SCHED: double free\n"; if (write(2, m, sizeof m - 1)) {} _exit(98); }
  memset(shadow(p), SH_FREED, (n + 15) / 16);
  if (!g_on && c >= 0) { *(void **)p = g_freeList[c]; g_freeList[c] = v; }
}
// giving memory back is a write to it
static void freedRange(up p, size_t n, up pc);
static void freeAt(void *p, up pc) { if (p && g_on && inArena((up)p) && *shadow((up)p) == SH_LIVE) freedRange((up)p, ((size_t *)p)[-2], pc); arenaFree(p); }
extern "C" {
void *malloc(size_t n) { void *p = arenaAlloc(n, 16); if (!p) errno = ENOMEM; return p; }
void free(void *p) { freeAt(p, (up)__builtin_return_address(0)); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return 0; void *p = malloc(n); if (p) memset(p, 0, n); return p; }
void *realloc(void *o, size_t n) { if (!o) return malloc(n); size_t m = ((size_t *)o)[-2]; void *p = malloc(n); if (p) { memcpy(p, o, m < n ? m : n); free(o); } return p; }
void *memalign(size_t al, size_t n) { return arenaAlloc(n, al < 16 ? 16 : al); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **r, size_t al, size_t n) { *r = memalign(al, n); return *r ? 0 : ENOMEM; }
void *valloc(size_t n) { return memalign(4096, n); }
void *pvalloc(size_t n) { return memalign(4096, (n + 4095) / 4096 * 4096); }
size_t malloc_usable_size(void *p) { return p ? ((size_t *)p)[-2] : 0; }
}
void operator delete(void *p) noexcept { freeAt(p, (up)__builtin_return_address(0)); }
void operator delete[](void *p) noexcept { freeAt(p, (up)__builtin_return_address(0)); }
void operator delete(void *p, size_t) noexcept { freeAt(p, (up)__builtin_return_address(0)); }
void operator delete[](void *p, size_t) noexcept { freeAt(p, (up)__builtin_return_address(0)); }
bool sched::isFreed(const void *p) { return inArena((up)p) && *shadow((up)p) == SH_FREED; }

// ================================================================ real functions
template <class F> static F real(const char *n) { F f = (F)dlsym(RTLD_NEXT, n); if (!f) { fprintf(stderr, "no %s\n", n); _exit(77); } return f; }
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__) = 0; if (!real_##name) real_##name = real<ret (*)(__VA_ARGS__)>(#name)

// ================================================================ scheduler state (private to the process of one execution)
static const int MAXT = 24;
struct VC { uint32_t c[MAXT]; };
static inline void join(VC &a, const VC &b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
enum { B_NONE, B_MUTEX, B_COND, B_JOIN, B_GUARD, B_YIELD, B_TIMED };
struct Th {
  int id; volatile int go; bool alive, finished, detached; int block; up obj; bool signalled; up reacquire; pthread_t pt;
  void *(*fn)(void *); void *arg; VC vc; VC exitVC; VC fj, exitFj; uint64_t yieldStamp, lastRun; void *stack; up held[16]; int nheld;      // fj: clock of thread creation and join alone; held: mutexes
};
static Th g_t[MAXT]; static int g_nt = 0, g_alive = 0; static int g_cur = -1;
static int g_bound = 0, g_preempt = 0, g_bucket = 0; static uint64_t g_points = 0, g_opStamp = 0; static vp::Ctx *g_ctx = 0;
static const int NB = 64; static uint64_t g_idx = 0, g_runStamp = 0; static bool g_noBucket = false;
static bool g_calib = false; static int64_t g_forcePos = -1; static int g_forceAlt = 0;
static pthread_key_t g_exitKey;

// scheduling points found so far, shared by all processes of a shard
struct Pts { volatile uint32_t npc, nobj, frozen, late; volatile uint64_t pc[4096], obj[16384], lateId[64]; volatile uint64_t calibPoints; volatile int calibAlts; };
static Pts *g_pts = 0;
static uint64_t g_pcSet[8192], g_objSet[32768]; static uint32_t g_pcN = 0, g_objN = 0;
static bool setHas(uint64_t *s, uint32_t cap, uint64_t v) { uint32_t i = (uint32_t)(v * 0x9e3779b97f4a7c15ull >> 40) & (cap - 1); while (s[i]) { if (s[i] == v) return true; i = (i + 1) & (cap - 1); } return false; }
static void setAdd(uint64_t *s, uint32_t cap, uint64_t v) { uint32_t i = (uint32_t)(v * 0x9e3779b97f4a7c15ull >> 40) & (cap - 1); while (s[i]) { if (s[i] == v) return; i = (i + 1) & (cap - 1); } s[i] = v; }
static void syncPts() { for (; g_pcN < g_pts->npc && g_pcN < 4000; ++g_pcN) setAdd(g_pcSet, 8192, g_pts->pc[g_pcN]); for (; g_objN < g_pts->nobj && g_objN < 16000; ++g_objN) setAdd(g_objSet, 32768, g_pts->obj[g_objN]); }
static void lateAdd(uint64_t v) { for (uint32_t i = 0; i < g_pts->late && i < 64; ++i) if (g_pts->lateId[i] == v) return; uint32_t n = g_pts->late; if (n < 64) { g_pts->lateId[n] = v; g_pts->late = n + 1; } }
static void foundPc(uint64_t pc) { if (setHas(g_pcSet, 8192, pc)) return; if (g_pts->frozen) { lateAdd(pc); return; } for (uint32_t i = 0; i < g_pts->npc; ++i) if (g_pts->pc[i] == pc) return; if (g_pts->npc < 4000) { g_pts->pc[g_pts->npc] = pc; g_pts->npc = g_pts->npc + 1; } }
static void foundObj(uint64_t o) { if (setHas(g_objSet, 32768, o)) return; if (g_pts->frozen) { lateAdd(o); return; } for (uint32_t i = 0; i < g_pts->nobj; ++i) if (g_pts->obj[i] == o) return; if (g_pts->nobj < 16000) { g_pts->obj[g_pts->nobj] = o; g_pts->nobj = g_pts->nobj + 1; } }

static void die(const char *fmt, ...) {
  char b[1024]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b - 2, fmt, a); va_end(a); b[n++] = '\n'; g_on = false; if (write(2, "SCHED: ", 7)) {} if (write(2, b, n)) {}
  _exit(98);
}
static void fwait(volatile int *p) { while (*p == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); *p = 0; }
static void fwake(volatile int *p) { __atomic_store_n((int *)p, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

// open-addressing tables keyed by address
struct LS { uint32_t n, l[3]; };           // mutexes held at every operation of a thread (n: 0 never used, k + 1 for k of them)
struct Obj { up a; int owner, count, kinds; VC vc, op, wr; LS ls[MAXT]; };      // op, wr: clock of each thread's last operation / modification
static const int NOBJ = 1 << 16; static Obj *g_obj;
struct OGrp { up a; uint32_t i; }; static OGrp *g_oidx; static uint32_t g_nObj;
static Obj &obj(up a) {
  uint32_t i = (uint32_t)(a * 0x9e3779b97f4a7c15ull >> 40) & (NOBJ - 1); while (g_oidx[i].a && g_oidx[i].a != a) i = (i + 1) & (NOBJ - 1);
  if (!g_oidx[i].a) { if (g_nObj >= (uint32_t)NOBJ / 2) die("too many synchronisation objects"); g_oidx[i].a = a; g_oidx[i].i = g_nObj; Obj &o = g_obj[g_nObj++]; o.a = a; o.owner = -1; }
  return g_obj[g_oidx[i].i];
}
struct Acc { uint32_t clk; uint32_t pc; uint8_t tid, mask, fl, used; };     // fl: 1 write, 2 atomic
struct Cell { Acc x[6]; };                       // one 8-byte word
static const int NCELL = 1 << 21, NGRP = 1 << 18; static Cell *g_cell; static uint32_t g_nCell;
struct Grp { up a; uint32_t first; }; static Grp *g_grp;            // 8 neighbouring words: their cells, allocated densely
static inline Cell &cell(up base) {
  up g = base >> 6 << 6 | 1; uint32_t i = (uint32_t)((base >> 6) + (base >> 23) * 40503) & (NGRP / 2 - 1); if (inArena(base)) i += NGRP / 2;
  while (g_grp[i].a && g_grp[i].a != g) i = (i + 1) & (NGRP - 1);
  if (!g_grp[i].a) { if (g_nCell + 8 > (uint32_t)NCELL) die("too many memory cells"); g_grp[i].a = g; g_grp[i].first = g_nCell; g_nCell += 8; }
  return g_cell[g_grp[i].first + (base >> 3 & 7)];
}

static inline bool active() { return g_on && t_id >= 0; }
static bool enabled(const Th &t) {
  if (!t.alive || t.finished) return false;
  switch (t.block) {
  case B_NONE: return true;
  case B_MUTEX: return obj(t.obj).owner < 0;
  case B_COND: return t.signalled && obj(t.reacquire).owner < 0;
  case B_TIMED: return obj(t.reacquire).owner < 0;
  case B_JOIN: return g_t[t.obj].finished;
  case B_GUARD: return obj(t.obj).owner < 0;
  case B_YIELD: return g_opStamp != t.yieldStamp;
  }
  return false;
}
static bool g_trace = getenv("SCHED_TRACE");
static int choose(int n) {
  if (n <= 1) return 0;
  if (g_calib) return 0;
  if (g_trace) fprintf(stderr, "T%d choose %d idx %ld pre %d\n", t_id, n, (long)g_idx, g_preempt);
  try { return g_ctx->choose(n); } catch (vp::Skip &) { vp::g_sh->skips = vp::g_sh->skips + 1; vp::g_sh->active = 0; _exit(0); }
}
static void handTo(int id) {
  Th &me = g_t[t_id]; if (id == me.id) return; g_cur = id; g_t[id].lastRun = ++g_runStamp; int self = t_id; fwake(&g_t[id].go); fwait(&g_t[self].go);
}
static const char *bname(int b) { static const char *n[] = {"running", "mutex", "condition variable", "join", "static initialiser", "yield", "timed wait"}; return n[b]; }
static int pickNext(bool exiting) {      // the current thread cannot continue
  int e[MAXT], n = 0; for (int i = 0; i < g_nt; ++i) if ((!exiting || i != t_id) && enabled(g_t[i])) e[n++] = i;
  if (!n) { for (int i = 0; i < g_nt; ++i) if (g_t[i].alive && !g_t[i].finished && g_t[i].block == B_YIELD) e[n++] = i; }   // only spinning threads left
  if (!n) { std::string s; for (int i = 0; i < g_nt; ++i) if (g_t[i].alive && !g_t[i].finished) { if (!s.empty()) s += ", "; s += bname(g_t[i].block); } die("deadlock (waiting for %s)", s.c_str()); }
  if (!exiting && (g_t[t_id].block == B_YIELD || g_t[t_id].block == B_TIMED)) {      // fair: the thread that waited longest; another one counts as a preemption
    std::sort(e, e + n, [](int a, int b) { return g_t[a].lastRun != g_t[b].lastRun ? g_t[a].lastRun < g_t[b].lastRun : a < b; });
    if (n < 2 || g_calib || g_preempt >= g_bound) return e[0];
    uint64_t k = g_idx++; if (g_preempt == 0 && !g_noBucket && (int)(k % NB) != g_bucket) return e[0];
    int c = choose(n); if (c) ++g_preempt; return e[c];
  }
  return e[choose(n)];
}
static up g_lastPc = 0;
static void countPoint() { if (++g_points > 400000) die("livelock: no end after 400000 scheduling points"); }
// the current thread can continue; offer the others a turn
static void point() {
  if (!active()) return; countPoint(); ++g_opStamp; Th &me = g_t[t_id]; if (g_alive < 2) return;
  int e[MAXT], n = 0; for (int i = 0; i < g_nt; ++i) if (i != me.id && enabled(g_t[i])) e[n++] = i;
  if (!n) return; vp::g_sh->steps = vp::g_sh->steps + 1; if (g_trace && !g_calib) { Dl_info di; memset(&di, 0, sizeof di); dladdr(__builtin_return_address(0), &di); Dl_info dj; memset(&dj, 0, sizeof dj); dladdr((void *)g_lastPc, &dj); fprintf(stderr, "T%d point at %s %s\n", me.id, di.dli_sname ? di.dli_sname : "?", dj.dli_sname ? dj.dli_sname : "?"); g_lastPc = 0; }
  if (g_calib) { if (g_pts->calibAlts < n) g_pts->calibAlts = n; int64_t k = g_pts->calibPoints; g_pts->calibPoints = k + 1; if (k == g_forcePos && g_forceAlt < n) handTo(e[g_forceAlt]); return; }
  if (g_preempt >= g_bound) return;
  uint64_t k = g_idx++;
  if (g_preempt == 0 && !g_noBucket && (int)(k % NB) != g_bucket) return;
  int c = choose(n + 1); if (!c) return; ++g_preempt; handTo(e[c - 1]);
}
static void blockOn(int kind, up o) {
  Th &me = g_t[t_id]; me.block = kind; me.obj = o; countPoint(); ++g_opStamp;
  int n = pickNext(false); if (n != me.id) handTo(n); me.block = B_NONE;
}
static void tick() { g_t[t_id].vc.c[t_id]++; }
static void acquire(Obj &o) { join(g_t[t_id].vc, o.vc); }
static void release(Obj &o) { join(o.vc, g_t[t_id].vc); tick(); if (!isPriv(o.a & ~7ull)) leak(); }
// operations of two threads on the object which nothing else orders make it a scheduling point
static bool isPoint(Obj &o, bool w = true) {     // atomic variables
  Th &me = g_t[t_id]; if (g_alive > 1) for (int t = 0; t < g_nt; ++t) if (t != me.id && ((w ? o.op : o.wr).c[t] > me.vc.c[t])) { foundObj(o.a); break; }
  o.op.c[me.id] = me.vc.c[me.id]; if (w) o.wr.c[me.id] = me.vc.c[me.id];
  return setHas(g_objSet, 32768, o.a) && !isPriv(o.a);
}

// mutexes and the like: a point if two threads use it, not ordered by creation and join, and not both under a common mutex.
// (An order made by other mutexes in this schedule may be the other way round in another.)
static bool isLockPoint(Obj &o) {
  Th &me = g_t[t_id]; LS &m = o.ls[me.id];
  if (g_alive > 1) for (int t = 0; t < g_nt; ++t) if (t != me.id && o.ls[t].n && o.op.c[t] > me.fj.c[t]) { bool common = false; for (uint32_t i = 0; i + 1 < o.ls[t].n; ++i) for (int k = 0; k < me.nheld; ++k) if (o.ls[t].l[i] == (uint32_t)me.held[k]) common = true; if (!common) { foundObj(o.a); break; } }
  if (!m.n || o.op.c[me.id] != me.fj.c[me.id]) { m.n = 1; for (int k = 0; k < me.nheld && m.n < 4; ++k) m.l[m.n++ - 1] = (uint32_t)me.held[k]; }
  else for (uint32_t i = 0; i + 1 < m.n;) { bool in = false; for (int k = 0; k < me.nheld; ++k) if (m.l[i] == (uint32_t)me.held[k]) in = true; if (in) ++i; else m.l[i] = m.l[--m.n - 1]; }
  o.op.c[me.id] = me.fj.c[me.id]; return setHas(g_objSet, 32768, o.a) && !isPriv(o.a);
}
static void hold(up a) { Th &me = g_t[t_id]; if (me.nheld >= 16) die("too many mutexes held"); me.held[me.nheld++] = a; }
static void drop(up a) { Th &me = g_t[t_id]; for (int i = me.nheld; i-- > 0;) if (me.held[i] == a) { me.held[i] = me.held[--me.nheld]; return; } }

// ---------------------------------------------------------------- memory accesses
static void badAccess(up a, int size, int st, up pc, bool w) {
  g_on = false; Dl_info di; std::string fn; (void)pc; if (dladdr((void *)pc, &di) && di.dli_sname) { int s; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &s); fn = d ? d : di.dli_sname; size_t p = fn.find('('); if (p != std::string::npos) fn = fn.substr(0, p); }
  die("%s %s memory in %s", w ? "write to" : "read of", st == SH_FREED ? "freed" : "unallocated", fn.substr(0, 120).c_str());
}
static uint64_t g_nacc = 0; static bool g_noPoint = false;      // the rest of a block that is given back
static inline void access(up a, int size, bool w, bool at, up pc, bool unchecked) {
  if (!g_on || t_id < 0) return;
  if (!unchecked && inArena(a)) { unsigned char s = *shadow(a); if (s == SH_LIVE && ((a + size - 1) ^ a) & ~15ull) s = *shadow(a + size - 1); if (s != SH_LIVE) badAccess(a, size, s, pc, w); }
  ++g_nacc; if (g_alive < 2) return;
  if (!at && g_pcN && setHas(g_pcSet, 8192, pc) && !g_noPoint && !isPriv(a)) { g_lastPc = pc; point(); if (w) leak(); }
  Th &me = g_t[t_id]; int left = size; up p = a;
  while (left > 0) {
    up base = p & ~7ull; int off = (int)(p - base), n = std::min(left, 8 - off); uint8_t mask = (uint8_t)(((1u << n) - 1) << off);
    Cell &c = cell(base);
    int slot = -1, freeSlot = -1, old = 0; bool race = false;
    for (int k = 0; k < 6; ++k) { Acc &x = c.x[k]; if (!x.used) { if (freeSlot < 0) freeSlot = k; continue; }
      if (x.tid == me.id) { if ((x.fl & 1) == (int)w && ((x.fl >> 1) & 1) == (int)at && (x.mask | mask) == mask) slot = k; }
      else if ((x.mask & mask) && (w || (x.fl & 1)) && !(at && (x.fl & 2)) && x.clk > me.vc.c[x.tid]) { foundPc(x.pc); if (!at) { foundPc(pc); race = true; } else foundObj(a); if (x.fl & 2) foundObj(base); }
      if (x.clk < c.x[old].clk) old = k; }
    (void)race; if (slot < 0) slot = freeSlot >= 0 ? freeSlot : old;
    Acc &x = c.x[slot]; x.clk = me.vc.c[me.id]; x.pc = (uint32_t)pc; x.tid = (uint8_t)me.id; x.mask = mask; x.fl = (w ? 1 : 0) | (at ? 2 : 0); x.used = 1;
    p += n; left -= n;
  }
}
#define PC ((up)__builtin_return_address(0))
static void freedRange(up p, size_t n, up pc) { if (t_id < 0 || g_alive < 2) return; n = std::min<size_t>((n + 7) & ~7ull, 512); for (size_t i = 0; i < n; i += 8) { g_noPoint = i > 0; access(p + i, 8, true, false, pc, true); } g_noPoint = false; }
static inline void access(up a, int size, bool w, bool at, up pc) { access(a, size, w, at, pc, false); }
static void range(up a, size_t n, bool w, up pc) { if (!g_on || t_id < 0) return; while (n) { size_t k = std::min<size_t>(n, 8 - (a & 7)); access(a, (int)k, w, false, pc); a += k; n -= k; } }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void *p) { access((up)p, n, false, false, PC); } void __tsan_write##n(void *p) { access((up)p, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void *p) { access((up)p, n, false, false, PC); } void __tsan_unaligned_write##n(void *p) { access((up)p, n, true, false, PC); } \
  void __tsan_volatile_read##n(void *p) { access((up)p, n, false, false, PC); } void __tsan_volatile_write##n(void *p) { access((up)p, n, true, false, PC); } \
  void __tsan_unaligned_volatile_read##n(void *p) { access((up)p, n, false, false, PC); } void __tsan_unaligned_volatile_write##n(void *p) { access((up)p, n, true, false, PC); } \
  void __tsan_read_write##n(void *p) { access((up)p, n, true, false, PC); } void __tsan_unaligned_read_write##n(void *p) { access((up)p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { range((up)p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { range((up)p, n, true, PC); }
void __tsan_vptr_read(void **p) { access((up)p, 8, false, false, PC); }
void __tsan_vptr_update(void **p, void *) { access((up)p, 8, true, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { range((up)s, n, false, PC); range((up)d, n, true, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { range((up)s, n, false, PC); range((up)d, n, true, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { range((up)d, n, true, PC); return memset(d, v, n); }
}
static void atomicPre(up a, int size, bool w, up pc) {
  if (!active()) return; Obj &o = obj(a & ~7ull); o.kinds |= 4; if (isPoint(o, w)) point(); access(a, size, w, true, pc); Obj &q = obj(a & ~7ull); acquire(q); if (w) release(q);
}
// A reference counter (changed by +1 and -1 only) well above what the threads could take it to is no scheduling point:
// the changes commute, only reaching zero matters.
static void atomicAdd(up a, int size, long delta, long old, up pc) {
  if (!active()) return; Obj &o = obj(a & ~7ull); o.kinds |= delta == 1 ? 1 : delta == -1 ? 2 : 4; bool p = isPoint(o, true); if (g_trace && p && g_alive > 1) fprintf(stderr, "atomic %lx kinds %d old %ld delta %ld\n", (long)a, o.kinds, old, delta); if (p && !(o.kinds == 3 && old > g_alive + 1)) point();
  access(a, size, true, true, pc); Obj &q = obj(a & ~7ull); acquire(q); release(q);
}
#define SX(bits, v) ((long)((int64_t)((uint64_t)(v) << (64 - bits)) >> (64 - bits)))
#define ATOMIC(bits, T) extern "C" { \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { atomicPre((up)a, bits / 8, false, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { atomicPre((up)a, bits / 8, true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { atomicPre((up)a, bits / 8, true, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { atomicAdd((up)a, bits / 8, SX(bits, v), SX(bits, *a), PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { atomicAdd((up)a, bits / 8, -SX(bits, v), SX(bits, *a), PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { atomicPre((up)a, bits / 8, true, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { atomicPre((up)a, bits / 8, true, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { atomicPre((up)a, bits / 8, true, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { atomicPre((up)a, bits / 8, true, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { atomicPre((up)a, bits / 8, true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { atomicPre((up)a, bits / 8, true, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { atomicPre((up)a, bits / 8, true, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; } }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned int) ATOMIC(64, unsigned long)
extern "C" void __tsan_atomic_thread_fence(int) {} extern "C" void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- mutexes, condition variables
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
static void chkLive(void *p, const char *what) { if (inArena((up)p) && *shadow((up)p) != SH_LIVE) die("%s of a destroyed object", what); }
static void lockIt(up a) { while (obj(a).owner >= 0) blockOn(B_MUTEX, a); Obj &o = obj(a); o.owner = t_id; o.count = 1; acquire(o); hold(a); }
extern "C" {
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *at) { REAL(int, pthread_mutex_init, pthread_mutex_t *, const pthread_mutexattr_t *); if (active()) { Obj &o = obj((up)m); o.owner = -1; o.count = 0; } return real_pthread_mutex_init(m, at); }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (active()) { Obj &o = obj((up)m); if (o.owner >= 0) die("destruction of a locked mutex"); } return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!active()) return 0; chkLive(m, "lock"); { Obj &o = obj((up)m); if (o.owner == t_id) { if (recursive(m)) { o.count++; return 0; } die("deadlock (a thread locks a mutex it holds)"); } if (isLockPoint(o)) point(); }
  lockIt((up)m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!active()) return 0; chkLive(m, "lock"); { Obj &o = obj((up)m); if (isLockPoint(o)) point(); } Obj &o = obj((up)m); if (o.owner >= 0) { if (o.owner == t_id && recursive(m)) { o.count++; return 0; } return EBUSY; } o.owner = t_id; o.count = 1; acquire(o); hold((up)m); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!active()) return 0; chkLive(m, "unlock"); Obj &o = obj((up)m); if (o.owner < 0) return 0; if (o.owner != t_id) die("a thread unlocks a mutex held by another"); if (--o.count > 0) return 0; o.owner = -1; drop((up)m); release(o); ++g_opStamp; return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_cond_signal(pthread_cond_t *c) {
  if (!active()) return 0; Obj &o = obj((up)c); if (isLockPoint(o)) point(); release(obj((up)c)); int w[MAXT], n = 0; for (int i = 0; i < g_nt; ++i) if (g_t[i].alive && (g_t[i].block == B_COND || g_t[i].block == B_TIMED) && g_t[i].obj == (up)c && !g_t[i].signalled) w[n++] = i;
  if (n) g_t[w[choose(n)]].signalled = true; ++g_opStamp; return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!active()) return 0; Obj &o = obj((up)c); if (isLockPoint(o)) point(); release(obj((up)c)); for (int i = 0; i < g_nt; ++i) if (g_t[i].alive && (g_t[i].block == B_COND || g_t[i].block == B_TIMED) && g_t[i].obj == (up)c) g_t[i].signalled = true; ++g_opStamp; return 0; }
static int condWait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  if (!active()) return timed ? ETIMEDOUT : 0; Th &me = g_t[t_id]; { Obj &o = obj((up)c); isLockPoint(o); }
  me.signalled = false; me.reacquire = (up)m; int cnt; { Obj &o = obj((up)m); cnt = o.count; o.owner = -1; drop((up)m); release(o); }
  blockOn(timed ? B_TIMED : B_COND, (up)c); while (obj((up)m).owner >= 0) blockOn(B_MUTEX, (up)m);
  Obj &o = obj((up)m); o.owner = t_id; o.count = cnt; acquire(o); hold((up)m); acquire(obj((up)c)); bool s = me.signalled; me.signalled = false; return timed && !s ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return condWait(c, m, false); }
static void passUntil(const struct timespec *t);
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { int r = condWait(c, m, true); if (active() && r == ETIMEDOUT) passUntil(t); return r; }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { int r = condWait(c, m, true); if (active() && r == ETIMEDOUT) passUntil(t); return r; }
// yielding
static void yieldIt() { if (!active()) return; if (g_alive < 2) return; Th &me = g_t[t_id]; me.yieldStamp = ++g_opStamp; blockOn(B_YIELD, 0); }
int sched_yield() { if (active()) { yieldIt(); return 0; } return (int)syscall(SYS_sched_yield); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (active()) { yieldIt(); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t k, int f, const struct timespec *a, struct timespec *b) { if (active()) { yieldIt(); return 0; } long r = syscall(SYS_clock_nanosleep, k, f, a, b); return r < 0 ? errno : 0; }
int usleep(useconds_t u) { timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000}; return nanosleep(&t, 0); }
// ---------------------------------------------------------------- time: 1 microsecond passes per query, waiting takes as long as it may
static int64_t g_vt = 1800000000000000000ll;
int clock_gettime(clockid_t k, struct timespec *t) throw() { if (g_on && t_id >= 0 && k != CLOCK_PROCESS_CPUTIME_ID && k != CLOCK_THREAD_CPUTIME_ID) { g_vt += 1000; t->tv_sec = g_vt / 1000000000; t->tv_nsec = g_vt % 1000000000; return 0; } return (int)syscall(SYS_clock_gettime, k, t); }
int gettimeofday(struct timeval *t, void *) throw() { timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t *p) throw() { timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
static void passUntil(const struct timespec *t) { int64_t d = (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; if (d > g_vt) g_vt = d; }
// ---------------------------------------------------------------- static initialisers
int __cxa_guard_acquire(__cxxabiv1::__guard *g) {
  unsigned char *b = (unsigned char *)g; if (!active()) { if (*b) return 0; b[1] = 1; return 1; }
  Obj &o = obj((up)g ^ 1); if (isLockPoint(o)) point();
  while (true) { if (*b) { acquire(obj((up)g ^ 1)); return 0; } Obj &q = obj((up)g ^ 1); if (q.owner < 0) { q.owner = t_id; acquire(q); return 1; } if (q.owner == t_id) die("recursive static initialisation"); blockOn(B_GUARD, (up)g ^ 1); } }
void __cxa_guard_release(__cxxabiv1::__guard *g) throw() { unsigned char *b = (unsigned char *)g; *b = 1; b[1] = 0; if (active()) { Obj &q = obj((up)g ^ 1); q.owner = -1; release(q); Obj &a = obj((up)g & ~7ull); join(a.vc, g_t[t_id].vc); tick(); ++g_opStamp; } }
void __cxa_guard_abort(__cxxabiv1::__guard *g) throw() { ((unsigned char *)g)[1] = 0; if (active()) { Obj &q = obj((up)g ^ 1); q.owner = -1; release(q); ++g_opStamp; } }
// ---------------------------------------------------------------- threads
static void finish() {       // the current thread ends: hand on and never come back
  Th &me = g_t[t_id]; me.exitVC = me.vc; me.exitFj = me.fj; me.finished = true; g_alive--; ++g_opStamp;
  bool any = false; for (int i = 0; i < g_nt; ++i) if (g_t[i].alive && !g_t[i].finished) any = true; if (!any) return;
  int n = pickNext(true); t_id = -1; g_cur = n; g_t[n].lastRun = ++g_runStamp; fwake(&g_t[n].go);
}
static void exitDtor(void *v) { long k = (long)v; if (k < 3) pthread_setspecific(g_exitKey, (void *)(k + 1)); else if (t_id >= 0) finish(); }
static void *tramp(void *v) { Th &me = *(Th *)v; t_id = me.id; fwait(&me.go); pthread_setspecific(g_exitKey, (void *)1); return me.fn(me.arg); }
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!active()) return real_pthread_create(t, 0, fn, arg);
  if (g_nt >= MAXT) die("too many threads");
  leak();
  Th &n = g_t[g_nt]; memset((void *)&n, 0, sizeof n); n.id = g_nt; n.alive = true; n.fn = fn; n.arg = arg; n.vc = g_t[t_id].vc; n.vc.c[n.id] = 1; n.fj = g_t[t_id].fj; n.fj.c[n.id] = 1; g_t[t_id].fj.c[t_id]++; ++g_nt; ++g_alive; tick();
  pthread_attr_t at; pthread_attr_init(&at); size_t sz = 1 << 20; n.stack = mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); pthread_attr_setstack(&at, n.stack, sz);
  int r = real_pthread_create(&n.pt, &at, tramp, &n); pthread_attr_destroy(&at); if (r) die("pthread_create fails: %d", r); *t = n.pt; point(); return 0; }
int pthread_join(pthread_t t, void **ret) {
  REAL(int, pthread_join, pthread_t, void **); if (!active()) return real_pthread_join(t, ret);
  int k = -1; for (int i = 0; i < g_nt; ++i) if (g_t[i].alive && pthread_equal(g_t[i].pt, t) && i) k = i; if (k < 0) return ESRCH;
  while (!g_t[k].finished) blockOn(B_JOIN, k); join(g_t[t_id].vc, g_t[k].exitVC); join(g_t[t_id].fj, g_t[k].exitFj); return real_pthread_join(t, ret); }
int pthread_once(pthread_once_t *o, void (*f)(void)) { int g = *o; if (g == 2) { if (active()) acquire(obj((up)o)); return 0; } if (active()) { Obj &q = obj((up)o); if (isLockPoint(q)) point(); while (obj((up)o).owner >= 0) blockOn(B_GUARD, (up)o); if (*o == 2) { acquire(obj((up)o)); return 0; } obj((up)o).owner = t_id; } f(); *o = 2; if (active()) { Obj &q = obj((up)o); q.owner = -1; release(q); } return 0; }
// ---------------------------------------------------------------- file descriptors shared by threads
// the position of a descriptor is a variable: unordered uses of two threads become scheduling points
static unsigned g_fdGen[256];
static void fdPoint(int fd) { if (!active() || fd < 3 || fd > 255 || g_alive < 2) return; up a = 0x100000 + (up)fd * 8; access(0x100000 + ((up)g_fdGen[fd] * 256 + fd) * 8, 8, true, false, a); }
static int opened(int fd) { if (active() && fd >= 0 && fd < 256) ++g_fdGen[fd]; return fd; }      // a new position
int open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return opened((int)syscall(SYS_openat, AT_FDCWD, p, fl, m)); }
int open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return opened((int)syscall(SYS_openat, AT_FDCWD, p, fl, m)); }
FILE *fopen(const char *p, const char *m) { REAL(FILE *, fopen, const char *, const char *); FILE *f = real_fopen(p, m); if (f) opened(fileno(f)); return f; }
FILE *fopen64(const char *p, const char *m) { REAL(FILE *, fopen64, const char *, const char *); FILE *f = real_fopen64(p, m); if (f) opened(fileno(f)); return f; }
int close(int fd) { if (active() && fd >= 0 && fd < 256) ++g_fdGen[fd]; return (int)syscall(SYS_close, fd); }
ssize_t read(int fd, void *b, size_t n) { fdPoint(fd); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { fdPoint(fd); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int n) { fdPoint(fd); return syscall(SYS_writev, fd, v, n); }
off_t lseek(int fd, off_t o, int w) { fdPoint(fd); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { fdPoint(fd); return syscall(SYS_lseek, fd, o, w); }
}
// ---------------------------------------------------------------- HDF5: calls of two threads must be ordered by a lock
static VC g_h5vc; static int g_h5tid = -1; static uint32_t g_h5clk = 0;
static void h5(const char *name) {
  if (!active() || g_alive < 2) return; Th &me = g_t[t_id];
  if (g_h5tid >= 0 && g_h5tid != me.id && g_h5clk > me.vc.c[g_h5tid]) die("HDF5 called by two threads without a common lock (%s)", name);
  g_h5tid = me.id; g_h5clk = me.vc.c[me.id];
}
#define H5W(name) extern "C" long name(long a, long b, long c, long d, long e, long f, long g, long h) { static long (*r)(long, long, long, long, long, long, long, long) = 0; if (!r) r = real<long (*)(long, long, long, long, long, long, long, long)>(#name); h5(#name); return r(a, b, c, d, e, f, g, h); }
H5W(H5Dread) H5W(H5Dwrite) H5W(H5Dopen2) H5W(H5Dclose) H5W(H5Dget_space) H5W(H5Dget_type) H5W(H5Dcreate2) H5W(H5Gopen2) H5W(H5Gclose) H5W(H5Gcreate2) H5W(H5Aopen) H5W(H5Aopen_name) H5W(H5Aread) H5W(H5Awrite) H5W(H5Aclose) H5W(H5Acreate2) H5W(H5Aget_space) H5W(H5Aget_type)
H5W(H5Sclose) H5W(H5Screate) H5W(H5Screate_simple) H5W(H5Sselect_hyperslab) H5W(H5Sget_simple_extent_dims) H5W(H5Tclose) H5W(H5Tcopy) H5W(H5Fopen) H5W(H5Fclose) H5W(H5Fcreate) H5W(H5Iget_type) H5W(H5Lexists) H5W(H5Pcreate) H5W(H5Pclose)

// ================================================================ harness interface
namespace sched {
struct Thread::Rec { std::function<void()> f; pthread_t t; bool vio = false, joined = false; vp::Violation v; std::string ex; bool hasEx = false; };
static void *recMain(void *p) {
  Thread::Rec &r = *(Thread::Rec *)p;
  try { r.f(); } catch (vp::Violation &v) { r.vio = true; r.v = v; } catch (vp::Skip &) { vp::g_sh->skips = vp::g_sh->skips + 1; vp::g_sh->active = 0; _exit(0); } catch (std::exception &e) { r.hasEx = true; r.ex = e.what(); }
  return 0; }
Thread::Thread(const std::function<void()> &f) : r(new Rec) { r->f = f; pthread_create(&r->t, 0, recMain, r.get()); }
void Thread::join() { pthread_join(r->t, 0); if (r->vio) throw r->v; if (r->hasEx) throw std::runtime_error("exception in a thread: " + r->ex); }

struct Top { const std::function<void(vp::Ctx &)> *b; vp::Ctx *c; bool vio = false; vp::Violation v; bool hasEx = false; std::string ex; };
static void *topMain(void *p) { Top &t = *(Top *)p; try { (*t.b)(*t.c); } catch (vp::Violation &v) { t.vio = true; t.v = v; } catch (std::exception &e) { t.hasEx = true; t.ex = e.what(); } return 0; }
static up g_base = 0;      // the first address of this execution, whatever was allocated to start it
static void *topTramp(void *v) { Th &me = *(Th *)v; g_top = g_base + 0x10000; g_priv[0] = g_top; t_id = me.id; g_on = true; me.fn(me.arg); g_on = false; t_id = -1; return 0; }
static void *table(size_t n, bool huge) { const size_t H = 2u << 20; char *p = (char *)mmap(0, n + H, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); p = (char *)(((up)p + H - 1) / H * H); if (huge) madvise(p, (n + H - 1) / H * H, MADV_HUGEPAGE); return p; }
// one execution
static void execute(vp::Ctx &c, int bound, const std::function<void(vp::Ctx &)> &body) {
  if (!g_obj) { g_obj = (Obj *)table(sizeof(Obj) * NOBJ / 2, true); g_oidx = (OGrp *)table(sizeof(OGrp) * NOBJ, false); g_cell = (Cell *)table(sizeof(Cell) * NCELL, true); g_grp = (Grp *)table(sizeof(Grp) * NGRP, false); g_top = (g_top + (2u << 20) - 1) >> 21 << 21; pthread_key_create(&g_exitKey, exitDtor); }
  REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); REAL(int, pthread_join, pthread_t, void **);
  g_base = g_top; syncPts(); g_ctx = &c; g_bound = bound; g_preempt = 0; g_points = 0; g_bucket = 0;
  if (!g_calib && bound > 0 && !g_noBucket) g_bucket = c.choose(NB);
  Th &m = g_t[0]; memset((void *)&m, 0, sizeof m); m.alive = true; m.vc.c[0] = 1; m.fj.c[0] = 1; g_nt = 1; g_alive = 1; g_cur = 0; Top top; top.b = &body; top.c = &c; m.fn = topMain; m.arg = &top;
  pthread_attr_t at; pthread_attr_init(&at); size_t sz = 4 << 20; pthread_attr_setstack(&at, mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0), sz); pthread_t t; if (real_pthread_create(&t, &at, topTramp, &m)) { fprintf(stderr, "no thread\n"); _exit(77); } real_pthread_join(t, 0);
  if (getenv("SCHED_ACC")) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); fprintf(stderr, "faults %ld utime %ld stime %ld us\n", ru.ru_minflt, ru.ru_utime.tv_usec, ru.ru_stime.tv_usec); } if (getenv("SCHED_ACC")) fprintf(stderr, "accesses %lu cells %u objs %u\n", g_nacc, g_nCell, g_nObj);
  if (g_alive > 1) { fprintf(stderr, "SCHED: threads still running at the end\n"); _exit(98); }
  if (top.vio) throw top.v; if (top.hasEx) throw vp::Violation{std::string("exception: ") + vp::g_sh->where, top.ex};
  if (!g_calib && g_bucket && !g_preempt) { vp::g_sh->skips = vp::g_sh->skips + 1; vp::g_sh->execs = vp::g_sh->execs - 1; }   // the schedule without preemption counts once
}
// finds the scheduling points: runs with one forced preemption, positions spread evenly, until nothing new appears
static void calibrate(vp::Ctx &c, const std::function<void(vp::Ctx &)> &body) {
  if (!g_pts) g_pts = (Pts *)mmap(0, sizeof(Pts), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_pts->npc = g_pts->nobj = g_pts->frozen = g_pts->late = 0; memset(g_pcSet, 0, sizeof g_pcSet); memset(g_objSet, 0, sizeof g_objSet); g_pcN = g_objN = 0; g_calib = true;
  for (int round = 0; round < 8; ++round) {
    uint32_t a = g_pts->npc, b = g_pts->nobj; uint64_t total = 0; int alts = 0; const int MAXPOS = round == 0 ? 20 : 60; int per = 0;
    for (int k = -1; k < per; ++k) for (int alt = 0; alt < (k < 0 ? 1 : alts); ++alt) {
      g_pts->calibPoints = 0; g_pts->calibAlts = 0; g_forcePos = k < 0 ? -1 : (int64_t)(total <= (uint64_t)MAXPOS ? (uint64_t)k : (uint64_t)k * total / MAXPOS); g_forceAlt = alt;
      fflush(0); pid_t p = fork(); if (!p) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); alarm(10); try { execute(c, 0, body); } catch (...) {} _exit(0); }
      int st; waitpid(p, &st, 0); if (k < 0) { total = g_pts->calibPoints; alts = std::min<int>((int)g_pts->calibAlts, 2); per = (int)std::min<uint64_t>(total, MAXPOS); }
    }
    syncPts(); if (g_pts->npc == a && g_pts->nobj == b && round) break;
  }
  g_pts->frozen = 1; g_calib = false; if (getenv("SCHED_VERBOSE")) { fprintf(stderr, "points: %u racing instructions, %u objects\n", g_pts->npc, g_pts->nobj); for (uint32_t i = 0; i < g_pts->npc; ++i) { Dl_info di; dladdr((void *)g_pts->pc[i], &di); fprintf(stderr, "  pc %lx %s\n", (long)g_pts->pc[i], di.dli_sname ? di.dli_sname : "?"); } for (uint32_t i = 0; i < g_pts->nobj; ++i) { Dl_info di; memset(&di, 0, sizeof di); dladdr((void *)g_pts->obj[i], &di); fprintf(stderr, "  obj %lx %s\n", (long)g_pts->obj[i], di.dli_sname ? di.dli_sname : ""); } }
}
void scenario(const std::string &name, int bound, const std::function<void(vp::Ctx &)> &setup, const std::function<void(vp::Ctx &)> &body, int timeoutMs, bool small) {
  vp::Options o = vp::opt(true, small ? 0 : 1, timeoutMs); o.whole = small;
  o.prepare = [=](vp::Ctx &c) { if (setup) setup(c); calibrate(c, body); };
  o.finish = [=]() { if (g_pts && g_pts->late) vp::noteExtra("scheduling_points_found_late", g_pts->late); if (g_pts) { vp::noteExtra("racing_instructions", g_pts->npc); vp::noteExtra("shared_sync_objects", g_pts->nobj); } };
  vp::scenario(name, [=](vp::Ctx &c) { g_noBucket = small; execute(c, bound, body); }, o);
}
}
