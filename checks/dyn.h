// Demand-loaded sparse fields under every history of operations up to a depth. Each slot holds a demand-loaded field
// and its fully loaded twin. VALUES: the twins must agree (D01). Otherwise: cache accounting and limits (D02).
#pragma once
#include "fileio.h"
#include "Field3D/SparseFile.h"
#include "Field3D/FieldInterp.h"
#include "Field3D/FieldCache.h"
#include <dirent.h>

namespace dyn {
inline SparseFileManager &mgr() { return SparseFileManager::singleton(); }
template <class T> struct Live { typename SparseField<T>::const_iterator it, end, tw; bool deref; const T *addr; };
template <class T> struct Slot {
  typename SparseField<T>::Ptr f, twin;
  std::vector<std::unique_ptr<Live<T> > > live;
  std::vector<int> loads;      // loads per block since it was read or the statistics were reset
  std::vector<char> was;       // loaded before the operation
  bool managed() const { return f && f->isDynamicLoad(); }
  int nb() const { V3i r = f->blockRes(); return r.x * r.y * r.z; }
  void at(int b, int &i, int &j, int &k) const { V3i r = f->blockRes(); i = b % r.x; j = b / r.x % r.y; k = b / (r.x * r.y); }
  bool alloc(int b) const { int i, j, k; at(b, i, j, k); return f->blockIsAllocated(i, j, k); }
  bool loaded(int b) const { int i, j, k; at(b, i, j, k); return f->blockIsAllocated(i, j, k) && f->blockData(i, j, k); }
  int64_t bytes() const { int64_t s = f->blockSize(); return s * s * s * (int64_t)sizeof(T); }
  Box3i blockBox(int b) const { int i, j, k; at(b, i, j, k); int s = f->blockSize(); Box3i d = f->dataWindow(), r(d.min + V3i(i, j, k) * s, d.min + V3i(i + 1, j + 1, k + 1) * s - V3i(1)); for (int a = 0; a < 3; ++a) r.max[a] = std::min(r.max[a], d.max[a]); return r; }
  int blockAt(int x, int y, int z) const { V3i d = f->dataWindow().min; int s = f->blockSize(); V3i r = f->blockRes(); return (x - d.x) / s + (y - d.y) / s * r.x + (z - d.z) / s * r.x * r.y; }
  void adopt() { loads.clear(); if (managed()) loads.assign(nb(), 0); }
};
// the three layers
template <class T> typename SparseField<T>::Ptr makeA() {
  typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(2); f->setSize(box(-3, 0, 0, 9, 7, 5), box(-1, 2, 0, 7, 5, 3)); f->clear(Mk<T>::of(3));
  FOR_BOX(f->dataWindow(), x, y, z) if ((x + 1) / 4 != 1) f->lvalue(x, y, z) = Mk<T>::of(voxelCode(x, y, z, 1)); f->setBlockEmptyValue(1, 0, 0, Mk<T>::of(5)); f->setMapping(makeMapping(MK_MAT)); f->name = "p"; f->attribute = "a"; return f; }
template <class T> typename SparseField<T>::Ptr makeB() {
  typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(2); f->setSize(box(0, 0, 0, 7, 7, 3)); f->clear(Mk<T>::of(1));
  FOR_BOX(f->dataWindow(), x, y, z) f->lvalue(x, y, z) = Mk<T>::of(voxelCode(x, y, z, 2)); f->setMapping(makeMapping(MK_MAT2)); f->name = "p"; f->attribute = "b"; return f; }
template <class T> typename SparseField<T>::Ptr makeC() {
  typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(2); f->setSize(box(3, 0, 0, 10, 3, 3)); f->clear(Mk<T>::of(1));
  FOR_BOX(f->dataWindow(), x, y, z) f->lvalue(x, y, z) = Mk<T>::of(voxelCode(x, y, z, 3)); f->name = "p"; f->attribute = "c"; return f; }

struct World {
  Ctx &c; bool values, ogawa; std::string file[2], fileC; Slot<float> s[2]; Slot<V3h> v; bool limited; int64_t limit; std::string op, hist;
  World(Ctx &cc, bool val, bool og) : c(cc), values(val), ogawa(og), limited(true), limit(0) {}
  template <class T> typename SparseField<T>::Ptr read(const std::string &f, const char *layer) {
    Field3DInputFile in; VPCHECK(c, in.open(f), "a file of sparse layers does not open");
    FList l = readAny(in, TyOf<T>::v, 0, layer); VPCHECK(c, l.size() == 1, "a sparse layer cannot be read for demand loading");
    typename SparseField<T>::Ptr r = field_dynamic_cast<SparseField<T> >(l[0]); VPCHECK(c, r && r->isDynamicLoad(), "the field read is not demand-loaded"); return r; }
  template <class T> int64_t used(Slot<T> &s, int64_t &n, int64_t &pin, int64_t &tl, int64_t &tb) {
    if (!s.managed()) return 0; int64_t r = 0;
    for (int b = 0; b < s.nb(); ++b) if (s.alloc(b)) { bool ld = s.loaded(b); if (ld) { r += s.bytes(); ++n; } bool p = false; for (auto &l : s.live) p |= blockOf(s, *l) == b; if (ld && p) pin += s.bytes(); tl += s.loads[b]; tb += s.loads[b] || ld; }
    return r; }
  template <class T> int blockOf(Slot<T> &s, Live<T> &l) { if (!(l.it != l.end)) return -1; return s.blockAt(l.it.x, l.it.y, l.it.z); }
  template <class T> void snap(Slot<T> &s) { s.was.clear(); if (s.managed()) for (int b = 0; b < s.nb(); ++b) s.was.push_back(s.loaded(b)); }
  int64_t before = 0, pinned = 0;
  void begin() { int64_t n = 0, tl = 0, tb = 0; pinned = 0; before = used(s[0], n, pinned, tl, tb) + used(s[1], n, pinned, tl, tb) + used(v, n, pinned, tl, tb); snap(s[0]); snap(s[1]); snap(v); }
  // after a read of exactly one voxel of block b (-1: not an allocated block)
  template <class T> void readOne(Slot<T> &sl, int b) {
    if (values) return; if (!sl.managed() || b < 0 || !sl.alloc(b)) { settle("a read outside the cache"); return; }
    int64_t size = sl.bytes(), n = 0, p = 0, tl = 0, tb = 0; bool absent = !sl.was[b];
    VPCHECK(c, sl.loaded(b), "the block read is not in memory afterwards", hist);
    if (absent) sl.loads[b]++;
    int64_t now = used(s[0], n, p, tl, tb) + used(s[1], n, p, tl, tb) + used(v, n, p, tl, tb);
    int64_t expectNoEvict = before + (absent ? size : 0);
    if (!absent || !limited || before + size <= limit) VPCHECK(c, now == expectNoEvict, "blocks evicted without need", VS() << hist << ": " << now << " bytes after, " << before << " before, block of " << size << ", limit " << limit);
    if (absent && limited) VPCHECK(c, now <= std::max(limit, pinned + size), "memory limit exceeded", VS() << hist << ": " << now << " bytes, limit " << limit << ", in use " << pinned << " + " << size);
    pins(); settle("a read"); }
  template <class T> void pinsOf(Slot<T> &sl) { for (auto &l : sl.live) { if (!(l->it != l->end) || !l->deref || !sl.managed()) continue; int b = blockOf(sl, *l); if (!sl.alloc(b)) continue; VPCHECK(c, sl.loaded(b), "a block in use by an iterator was evicted", hist); } }
  void pins() { pinsOf(s[0]); pinsOf(s[1]); pinsOf(v); }
  // counters against the true state
  void settle(const std::string &what) {
    int64_t n = 0, p = 0, tl = 0, tb = 0; used(s[0], n, p, tl, tb); used(s[1], n, p, tl, tb); used(v, n, p, tl, tb);
    SparseFileManager &m = mgr();
    VPCHECK(c, m.numLoadedBlocks() == n, "numLoadedBlocks is not the number of loaded blocks", VS() << hist << ": " << m.numLoadedBlocks() << ", true " << n);
    if (values) return;
    VPCHECK(c, m.totalLoads() == tl, "totalLoads is not the number of loads", VS() << hist << ": " << m.totalLoads() << ", true " << tl);
    VPCHECK(c, m.totalLoadedBlocks() == tb, "totalLoadedBlocks is not the number of blocks loaded so far", VS() << hist << ": " << m.totalLoadedBlocks() << ", true " << tb);
    double dn = n, dl = tl, db = tb;
    VPCHECK(c, m.cacheFractionLoaded() == (float)(dn / std::max(1.0, db)), "cacheFractionLoaded", hist);
    VPCHECK(c, m.cacheLoadsPerBlock() == (float)(dl / std::max(1.0, db)), "cacheLoadsPerBlock", hist);
    VPCHECK(c, m.cacheEfficiency() == (float)(db / std::max(1.0, dl)), "cacheEfficiency", hist); }
  template <class T> void memOf(Slot<T> &sl) { if (!sl.managed() || values) return; int64_t n = 0; for (int b = 0; b < sl.nb(); ++b) n += sl.loaded(b) * sl.bytes(); SparseField<T> e; e.setBlockOrder(sl.f->blockOrder()); e.setSize(sl.f->extents(), sl.f->dataWindow()); VPCHECK(c, sl.f->memSize() - e.memSize() == n, "memSize does not count the loaded blocks", hist); }
  template <class T> void cmp(Slot<T> &sl, int x, int y, int z, const char *how) { T g = sl.f->value(x, y, z), w = sl.twin->value(x, y, z); VPCHECK(c, same(g, w), VS() << "wrong value: " << how, VS() << hist << ": " << pos(x, y, z) << " is " << str(g) << " expected " << str(w)); }
  template <class T> void readBlock(Slot<T> &sl, int b, int corner) { Box3i r = sl.blockBox(b); V3i p = corner ? r.max : r.min; begin(); bool fast = corner; if (fast) { T g = sl.f->fastValue(p.x, p.y, p.z), w = sl.twin->fastValue(p.x, p.y, p.z); VPCHECK(c, same(g, w), "wrong value: fastValue", hist + " " + str(p)); } else cmp(sl, p.x, p.y, p.z, "value"); readOne(sl, b); }
  template <class T> void derefs(Slot<T> &sl, Live<T> &l, const char *how) { if (!(l.it != l.end)) return; begin(); int b = blockOf(sl, l); bool had = l.deref; T g = had && 0 ? *l.addr : *l.it; l.deref = true; T w = *l.tw; VPCHECK(c, l.it.x == l.tw.x && l.it.y == l.tw.y && l.it.z == l.tw.z, "iterator position", hist); VPCHECK(c, same(g, w), VS() << "wrong value: " << how, VS() << hist << ": " << pos(l.it.x, l.it.y, l.it.z) << " is " << str(g) << " expected " << str(w)); readOne(sl, b); }
  template <class T> void adv(Slot<T> &sl, Live<T> &l, int n) { while (n-- && l.it != l.end) { int b = blockOf(sl, l); ++l.it; ++l.tw; if (blockOf(sl, l) != b) l.deref = false; } }
  template <class T> void start(Slot<T> &sl, const Box3i &w) { Live<T> *l = new Live<T>{sl.f->cbegin(w), sl.f->cend(w), sl.twin->cbegin(w), false, 0}; sl.live.emplace_back(l); }
  template <class T> void whole(Slot<T> &sl) { Box3i w = sl.f->dataWindow(); start(sl, w); Live<T> &l = *sl.live.back(); int last = -2; while (l.it != l.end) { int b = blockOf(sl, l); if (b != last) { derefs(sl, l, "iterator"); last = b; } else { T g = *l.it, t = *l.tw; VPCHECK(c, same(g, t), "wrong value: iterator", hist + " " + pos(l.it.x, l.it.y, l.it.z)); } ++l.it; ++l.tw; l.deref = false; if (blockOf(sl, l) == b) l.deref = true; } sl.live.pop_back(); }
  template <class T> void full(Slot<T> &sl) { if (!sl.f) return; VPCHECK(c, sl.f->extents() == sl.twin->extents() && sl.f->dataWindow() == sl.twin->dataWindow(), "extents or data window", hist); std::string d = diffMapping(sl.f->mapping().get(), sl.twin->mapping().get()); VPCHECK(c, d.empty(), "mapping", hist + " " + d); d = diffSparse(*sl.f, *sl.twin); VPCHECK(c, d.empty(), "wrong contents: " + kindVox(d), hist + ": " + d); }
  template <class T> void interp(Slot<T> &sl, int kind) {
    typedef FieldInterp<T> FI; Box3i d = sl.f->dataWindow(); LinearFieldInterp<T> lin; CubicFieldInterp<T> cub; typename SparseField<T>::LinearInterp sp;
    for (int z = 0; z < 3; ++z) for (int y = 0; y < 3; ++y) for (int x = 0; x < 5; ++x) { V3d p(d.min.x + (d.max.x - d.min.x + 1) * (x * 0.25 - 0.02), d.min.y + (d.max.y - d.min.y + 1) * (y * 0.5 + 0.01), d.min.z + (d.max.z - d.min.z + 1) * (z * 0.5 - 0.03));
      T g, w; if (kind == 0) { g = lin.sample(*sl.f, p); w = lin.sample(*sl.twin, p); } else if (kind == 1) { g = sp.sample(*sl.f, p); w = sp.sample(*sl.twin, p); } else { g = cub.sample(*sl.f, p); w = cub.sample(*sl.twin, p); }
      VPCHECK(c, same(g, w), VS() << "wrong value: " << (kind == 0 ? "linear" : kind == 1 ? "sparse linear" : "cubic") << " interpolation", VS() << hist << " at " << str(p)); } }
  template <class T> void block(Slot<T> &sl) { std::string d; V3i r = sl.f->blockRes(); VPCHECK(c, r == sl.twin->blockRes() && sl.f->blockOrder() == sl.twin->blockOrder(), "block resolution", hist);
    for (int b = 0; b < sl.nb(); ++b) { int i, j, k; sl.at(b, i, j, k); VPCHECK(c, sl.f->blockIsAllocated(i, j, k) == sl.twin->blockIsAllocated(i, j, k), "blockIsAllocated", hist); VPCHECK(c, same(sl.f->getBlockEmptyValue(i, j, k), sl.twin->getBlockEmptyValue(i, j, k)) || sl.f->blockIsAllocated(i, j, k), "getBlockEmptyValue", hist); }
    VPCHECK(c, sl.f->voxelCount() == sl.twin->voxelCount(), "voxelCount", hist); }
  template <class T> void rewrite(Slot<T> &sl, bool og) { TmpFile t(c, "rw"); { Format fm(og); Field3DOutputFile out; VPCHECK(c, out.create(t.p), "create"); VPCHECK(c, writeAny(out, TyOf<T>::v, "q", "l", sl.f), "a demand-loaded field cannot be written", hist); }
    bool was = mgr().doLimitMemUse(); mgr().setLimitMemUse(false); { Field3DInputFile in; VPCHECK(c, in.open(t.p), "open", hist); FList l = readAny(in, TyOf<T>::v, 0, "l"); VPCHECK(c, l.size() == 1, "read back", hist); std::string d = diffAny(TyOf<T>::v, sl.twin.get(), l[0].get()); VPCHECK(c, d.empty(), "wrong contents of a file written from a demand-loaded field: " + kindVox(d), hist + ": " + d); } mgr().setLimitMemUse(was); }
  template <class T> void drop(Slot<T> &sl) { sl.live.clear(); sl.f.reset(); sl.loads.clear(); sl.twin.reset(); }
  void setLimit(int64_t b) { limit = b; mgr().setMaxMemUse(b / 1048576.f); }
};

inline int openFiles(const std::string &dir) { int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (dirent *e = readdir(d)) { char b[4096]; std::string p = std::string("/proc/self/fd/") + e->d_name; ssize_t k = readlink(p.c_str(), b, sizeof b - 1); if (k > 0) { b[k] = 0; if (strncmp(b, dir.c_str(), dir.size()) == 0) ++n; } } closedir(d); return n; }

static const int64_t LIM[] = {100, 256, 600, 1 << 20};
// the operations possible in a state (which slots are filled, how many iterators live), so that no path is wasted
struct Abs { int a = 1, b = 1, la = 0, lb = 0, lim = 1;
  bool can(int op, bool values) const {
    switch (op) { case 0: case 1: case 2: case 3: case 10: case 12: case 13: case 20: case 25: case 29: case 30: return a; case 4: case 5: case 6: case 7: case 11: case 14: case 21: case 24: case 26: case 31: return b;
    case 15: case 16: case 17: case 19: case 39: return la + lb > 0; case 18: return la >= 2 || lb >= 2; case 22: case 23: return a && b; case 27: case 28: return lim; }
    return op < 40 || (values && (a || b)); }
  void apply(int op) {
    switch (op) { case 12: case 13: ++la; break; case 14: ++lb; break; case 19: if (la) --la; else --lb; break; case 20: b = 1; lb = 0; break; case 21: case 24: a = 1; la = 0; break; case 22: lb = 0; break; case 23: la = 0; break;
    case 25: a = la = 0; break; case 26: b = lb = 0; break; case 27: a = 1; la = 0; break; case 28: b = 1; lb = 0; break; case 29: case 30: la = 0; break; case 31: lb = 0; break; case 37: lim = !lim; break; } }
};
inline void body(Ctx &c, bool values, bool ogawa, int depth) {
  std::vector<int> ops; { Abs st; for (int i = 0; i < depth; ++i) { std::vector<int> v; for (int o = 0; o < (values ? 46 : 40); ++o) if (st.can(o, values)) v.push_back(o); ops.push_back(c.pick(v)); st.apply(ops.back()); } }
  // per worker: the files and the fully loaded twins
  static std::string dir; static SparseField<float>::Ptr pa, pb, plain; static SparseField<V3h>::Ptr pc; static std::string fn[3];
  quietInit();
  if (!pa) { dir = c.tmpDir; pa = makeA<float>(); pb = makeB<float>(); pc = makeC<V3h>(); plain = new SparseField<float>; plain->setBlockOrder(1); plain->setSize(box(0, 0, 0, 2, 1, 0)); plain->clear(2); plain->lvalue(2, 1, 0) = 8; }
  const char *names[] = {"a", "b", "c"};
  for (int i = 0; i < 3; ++i) { std::string p = VS() << c.tmpDir << "/" << names[i] << (ogawa ? "o" : "h") << getpid() << ".f3d"; fn[i] = p;
    if (!::fileExists(p)) { Format fm(ogawa); Field3DOutputFile out; out.create(p); FieldRes::Ptr f = i == 0 ? FieldRes::Ptr(pa) : i == 1 ? FieldRes::Ptr(pb) : FieldRes::Ptr(pc); if (!writeAny(out, i == 2 ? TY_V3H : TY_FLOAT, "p", names[i], f)) c.fail("writing the test layers fails", p); } }
  mgr().setLimitMemUse(true); World w(c, values, ogawa); w.setLimit(1 << 20);
  static SparseField<float>::Ptr proto[2]; static SparseField<V3h>::Ptr protoC;      // read once per process, never accessed
  if (!proto[0]) { for (int i = 0; i < 2; ++i) { proto[i] = w.read<float>(fn[i], names[i]); std::string q = fn[i] + ".reload"; spit(q, slurp(fn[i])); } protoC = w.read<V3h>(fn[2], "c"); }
  auto twin = [&](int i) { w.s[i].twin = new SparseField<float>(i ? *pb : *pa); w.s[i].adopt(); };
  auto load0 = [&](int i) { w.s[i].f = w.read<float>(fn[i] + ".reload", names[i]); twin(i); };
  auto copy0 = [&](int i) { w.s[i].f = new SparseField<float>(*proto[i]); twin(i); };
  copy0(0); copy0(1); w.v.f = new SparseField<V3h>(*protoC); w.v.twin = pc; w.v.adopt();
  uint64_t h = ogawa; const char *L = "slot";
  for (int step = 0; step < depth; ++step) {
    int op = ops[step]; h = vp::mix(h, op);
    Slot<float> &A = w.s[0], &B = w.s[1];
    auto need = [&](bool ok) { if (!ok) c.prune(); };
    auto rd = [&](Slot<float> &sl, int b, int corner) { need((bool)sl.f); w.readBlock(sl, b % sl.nb(), corner); };
    auto mod = [&](Slot<float> &sl) { sl.live.clear(); };
    static const char *opn[] = {"read A0", "read A1", "read A2", "read A2 again", "read B0", "read B1", "read B2", "read B3", "read C0", "read C1",
      "iterate A", "iterate B", "iterator on A", "iterator on part of A", "iterator on B", "dereference", "next block and dereference", "copy iterator", "assign iterator", "drop iterator",
      "B = copy of A", "A = copy of B", "B = A", "A = B", "clone", "drop A", "drop B", "reload A", "reload B", "A = plain field", "clear A", "resize B",
      "limit 100", "limit 256", "limit 600", "limit 1M", "flush", "toggle limiting", "reset statistics", "step iterator", "linear interpolation", "sparse interpolation", "cubic interpolation", "convert to dense", "write to file", "block queries"};
    w.op = opn[op]; w.hist += (w.hist.empty() ? "" : ", ") + w.op; c.log(w.op); c.where(w.op); c.step();
    w.begin();
    switch (op) {
    case 0: case 1: case 2: rd(A, op, op & 1); break; case 3: rd(A, 2, 1); break;
    case 4: case 5: case 6: case 7: rd(B, op - 4, op & 1); break;
    case 8: case 9: need((bool)w.v.f); w.readBlock(w.v, op - 8, op & 1); break;
    case 10: need((bool)A.f); w.whole(A); break; case 11: need((bool)B.f); w.whole(B); break;
    case 12: need((bool)A.f); w.start(A, A.f->dataWindow()); w.derefs(A, *A.live.back(), "iterator"); break;
    case 13: { need((bool)A.f); Box3i d = A.f->dataWindow(); d.min += V3i((d.max.x - d.min.x) / 2, 1, 0); w.start(A, d); break; }
    case 14: need((bool)B.f); w.start(B, B.f->dataWindow()); w.derefs(B, *B.live.back(), "iterator"); break;
    case 15: { bool any = false; for (auto &l : A.live) w.derefs(A, *l, "live iterator"), any = true; for (auto &l : B.live) w.derefs(B, *l, "live iterator"), any = true; need(any); break; }
    case 16: { need(!A.live.empty() || !B.live.empty()); Slot<float> &q = B.live.empty() ? A : B; Live<float> &l = *q.live.back(); w.adv(q, l, 4); w.derefs(q, l, "advanced iterator"); break; }
    case 39: { need(!A.live.empty() || !B.live.empty()); Slot<float> &q = A.live.empty() ? B : A; Live<float> &l = *q.live.back(); w.adv(q, l, 1); w.derefs(q, l, "stepped iterator"); break; }
    case 17: { need(!A.live.empty() || !B.live.empty()); Slot<float> &q = A.live.empty() ? B : A; Live<float> *l = new Live<float>(*q.live.back()); w.adv(q, *q.live.back(), 4); q.live.erase(q.live.end() - 1); q.live.emplace_back(l); w.derefs(q, *l, "copied iterator"); break; }
    case 18: { need(A.live.size() + B.live.size() >= 2); Slot<float> &q = A.live.size() >= 2 ? A : B; need(q.live.size() >= 2); q.live[0]->it = q.live[1]->it; q.live[0]->end = q.live[1]->end; q.live[0]->tw = q.live[1]->tw; q.live[0]->deref = q.live[1]->deref; w.derefs(q, *q.live[0], "assigned iterator"); break; }
    case 19: { need(!A.live.empty() || !B.live.empty()); if (!A.live.empty()) A.live.erase(A.live.begin()); else B.live.erase(B.live.begin()); break; }
    case 20: need((bool)A.f); mod(B); B.f = new SparseField<float>(*A.f); B.twin = new SparseField<float>(*A.twin); B.adopt(); break;
    case 21: need((bool)B.f); mod(A); A.f = new SparseField<float>(*B.f); A.twin = new SparseField<float>(*B.twin); A.adopt(); break;
    case 22: need(A.f && B.f); mod(B); *B.f = *A.f; *B.twin = *A.twin; B.adopt(); break;
    case 23: need(A.f && B.f); mod(A); *A.f = *B.f; *A.twin = *B.twin; A.adopt(); break;
    case 24: { need((bool)B.f); mod(A); FieldBase::Ptr k = B.f->clone(); A.f = field_dynamic_cast<SparseField<float> >(k); need((bool)A.f); A.twin = new SparseField<float>(*B.twin); A.adopt(); break; }
    case 25: need((bool)A.f); w.drop(A); break; case 26: need((bool)B.f); w.drop(B); break;
    case 27: w.drop(A); load0(0); break; case 28: w.drop(B); load0(1); break;
    case 29: need((bool)A.f); mod(A); *A.f = *plain; *A.twin = *plain; A.adopt(); break;
    case 30: need((bool)A.f); mod(A); A.f->clear(4.5f); A.twin->clear(4.5f); A.adopt(); break;
    case 31: need((bool)B.f); mod(B); B.f->setSize(box(0, 0, 0, 5, 0, 0)); B.f->clear(1); B.twin->setSize(box(0, 0, 0, 5, 0, 0)); B.twin->clear(1); B.adopt(); break;
    case 32: case 33: case 34: case 35: w.setLimit(LIM[op - 32]); break;
    case 36: { mgr().flushCache(); if (!values) { int64_t n = 0, p = 0, a = 0, b = 0, u = w.used(A, n, p, a, b) + w.used(B, n, p, a, b) + w.used(w.v, n, p, a, b); VPCHECK(c, u == p, "flushCache keeps blocks that are not in use", w.hist); } break; }
    case 37: w.limited = !w.limited; mgr().setLimitMemUse(w.limited); break;
    case 38: mgr().resetCacheStatistics(); for (auto *q : {&A, &B}) std::fill(q->loads.begin(), q->loads.end(), 0); std::fill(w.v.loads.begin(), w.v.loads.end(), 0); break;
    case 40: case 41: case 42: { bool any = false; for (auto *q : {&A, &B}) if (q->f) { any = true; w.interp(*q, op - 40); } need(any); break; }
    case 43: { bool any = false; for (auto *q : {&A, &B}) if (q->f) { any = true; DenseField<float> d; d.copyFrom(q->f); FOR_BOX(q->f->dataWindow(), x, y, z) VPCHECK(c, same(d.value(x, y, z), q->twin->value(x, y, z)), "wrong value: conversion to dense", w.hist); } need(any); break; }
    case 44: { bool any = false; for (auto *q : {&A, &B}) if (q->f) { any = true; w.rewrite(*q, step & 1 ? ogawa : !ogawa); } need(any); break; }
    case 45: { bool any = false; for (auto *q : {&A, &B}) if (q->f) { any = true; w.block(*q); } need(any); break; }
    }
    w.pins(); w.settle(w.op); w.memOf(A); w.memOf(B); w.memOf(w.v);
    { int64_t n = 0, p = 0, a = 0, b = 0; h = vp::mix(h, w.used(A, n, p, a, b)); h = vp::mix(h, w.used(B, n, p, a, b)); h = vp::mix(h, w.used(w.v, n, p, a, b)); c.state(h); }
  }
  c.where("final comparison"); w.hist += ", final comparison";
  for (int i = 0; i < 2; ++i) { for (auto &l : w.s[i].live) w.derefs(w.s[i], *l, "live iterator"); if (values) w.full(w.s[i]); }
  if (values) w.full(w.v);
  c.where("end"); w.drop(w.s[0]); w.drop(w.s[1]); w.drop(w.v);
  if (!values) {
    VPCHECK(c, mgr().numLoadedBlocks() == 0 && mgr().totalLoads() == 0 && mgr().totalLoadedBlocks() == 0, "the counts do not return to zero when the fields are gone", w.hist);
    int o = openFiles(fn[0].substr(0, fn[0].rfind('/'))); VPCHECK(c, o <= 0 || openFiles(fn[0]) + openFiles(fn[1]) + openFiles(fn[2]) == 0, "files of destroyed demand-loaded fields stay open", w.hist);
    // nothing left over in the memory account: exactly two blocks fit twice 256 bytes
    mgr().setLimitMemUse(true); w.limited = true; w.hist = w.op = "after " + w.hist; copy0(1); w.setLimit(512);
    for (int b : {0, 1, 2, 3, 1}) w.readBlock(w.s[1], b, 0);
    w.drop(w.s[1]);
  }
  w.setLimit(1 << 20); mgr().setLimitMemUse(false);
}
}
