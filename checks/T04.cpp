// T04: levels of multi-resolution fields that are loaded on first use, touched first by several threads, in every schedule.
#include "mips.h"
#include "xsched.h"

__attribute__((no_sanitize("thread"), noinline)) static int inc(int &n) { return ++n; }
typedef DenseField<float> DF; typedef MIPField<DF> MF;
static int g_loads[3], g_fail[3];
struct Act : public LazyLoadAction<DF> { int l; Act(int a) : l(a) {}
  virtual DF::Ptr load() const { int n = inc(g_loads[l]); if (n <= g_fail[l]) return DF::Ptr(); return mkLevels<DF>(l + 1, 0)[l]; } };
static MF::Ptr mkLazy(int n, int map) {
  MF::Ptr m(new MF); EmptyField<float>::Vec px; LazyLoadAction<DF>::Vec ac; std::vector<DF::Ptr> lv = mkLevels<DF>(n, 0);
  for (int l = 0; l < n; ++l) { EmptyField<float>::Ptr p(new EmptyField<float>); p->setSize(lv[l]->extents(), lv[l]->dataWindow()); px.push_back(p); ac.push_back(LazyLoadAction<DF>::Ptr(new Act(l))); }
  m->setupLazyLoad(px, ac); decorate(*m, map); return m;
}
// few accesses, so that there are few schedules: one voxel, one position, one entry of metadata
template <class F> static std::string quick(const MIPField<F> &ref, const F *p, int l) {
  if (!p) return "is missing"; if (p->dataWindow().max != ref.rawMipLevel(l)->dataWindow().max) return "data window"; if (!same(p->fastValue(0, 0, 0), ref.rawMipLevel(l)->fastValue(0, 0, 0))) return "voxel";
  V3d a, b; const FieldMapping *m = p->mapping().get(); if (!m) return "mapping"; m->voxelToWorld(V3d(0, 0, 1), a, 0.5f); ref.rawMipLevel(l)->mapping()->voxelToWorld(V3d(0, 0, 1), b, 0.5f); if (a != b) return "mapping";
  if (p->attribute != "a") return "attribute"; if (p->name != "n") return "name"; if (p->metadata().intMetadata("i", 0) != 7) return "metadata"; return "";
}
// v: a voxel; V: through the base class; m: level object, everything about it; c: concrete level; r: raw level; s: interpolation between levels l and l + 1; k: copy the field, everything about its levels; q: memory and voxel counts, levelLoaded
template <class F> static void op(Ctx &c, const MIPField<F> &m, const MIPField<F> &ref, char o, int l) {
  std::string d; const char *how = "";
  switch (o) {
  case 'v': { how = "fastMipValue"; if (!same(m.fastMipValue(l, 1, 0, 0), ref.fastMipValue(l, 1, 0, 0))) d = "voxel"; break; }
  case 'V': { how = "mipValue"; const MIPBase<typename F::value_type> &b = m; if (!same(b.mipValue(l, 0, 0, 0), ref.fastMipValue(l, 0, 0, 0))) d = "voxel"; break; }
  case 'm': { how = "mipLevel"; typename Field<typename F::value_type>::Ptr p = m.mipLevel(l); d = quick(ref, static_cast<F *>(p.get()), l); break; }
  case 'M': { how = "mipLevel"; d = diffLevel(ref, m, m.rawMipLevel(l), l); break; }
  case 'c': { how = "concreteMipLevel"; typename F::Ptr p = m.concreteMipLevel(l); d = quick(ref, p.get(), l); break; }
  case 'r': { how = "rawMipLevel"; d = quick(ref, m.rawMipLevel(l), l); break; }
  case 's': { how = "interpolation"; MIPLinearInterp<MIPField<F> > a(m), b(ref); V3f vs = ref.mapping()->wsVoxelSize(0, 0, 0); float s = std::min(std::min(vs.x, vs.y), vs.z) * (1 << l) * 1.5f; V3d p(1.2, 0.7, 0.5); if (a.sample(p, s) != b.sample(p, s)) d = "value"; break; }
  case 'k': { how = "a copy"; typename MIPField<F>::Ptr q(new MIPField<F>(m)); for (size_t i = 0; i < q->numLevels() && d.empty(); ++i) d = quick(ref, q->rawMipLevel(i), i); break; }
  case 'q': { how = "statistics"; size_t n = 0; bool all = true; for (size_t i = 0; i < m.numLevels(); ++i) all = m.levelLoaded(i) && all; n = m.voxelCount(); if (all && n != ref.voxelCount()) d = "voxel count"; if (m.memSize() < 0) d = "memory"; break; }
  }
  if (!d.empty()) c.fail(std::string("a level seen through ") + how + " differs: " + kindOf(d), VS() << "level " << l << ": " << d);
}
template <class F> static void runProg(Ctx &c, const MIPField<F> &m, const MIPField<F> &ref, const std::string &p, bool mayFail) {
  std::istringstream is(p); std::string t; while (is >> t) { for (int n = 0;; ++n) { try { op(c, m, ref, t[0], t.size() > 1 ? t[1] - '0' : 0); break; } catch (Exc::MIPFieldException &) { if (!mayFail || n > 3) c.fail("a level cannot be loaded"); } } }
}
static void mscen(int nl, int map, std::vector<std::string> p, int bound, int fail = -1, bool big = false) {
  std::string n = VS() << nl << " levels, " << mapName(map) << (fail >= 0 ? std::string(VS() << ", loading level " << fail << " fails first") : ""); for (auto &q : p) n += " | " + q;
  sched::scenario(n, bound, nullptr, [=](Ctx &c) {
    c.where("levels"); for (int l = 0; l < 3; ++l) g_loads[l] = g_fail[l] = 0; if (fail >= 0) g_fail[fail] = 1; MF::Ptr ref = mkEager<DF>(nl, 0, map), m = mkLazy(nl, map); bool copy = false; for (auto &q : p) copy |= q.find('k') != std::string::npos;
    std::vector<std::function<void()> > fs; for (auto &q : p) fs.push_back([&, q] { runProg<DF>(c, *m, *ref, q, fail >= 0); });
    sched::run(fs); for (int l = 0; l < nl; ++l) op<DF>(c, *m, *ref, 'M', l);
    if (!copy) for (int l = 0; l < nl; ++l) if (g_loads[l] != 1 + (l == fail)) c.fail("a level is loaded more than once", VS() << "level " << l << ": " << g_loads[l] << " times");
    c.step(); c.state(std::hash<std::string>()(n) + g_loads[0] * 3 + g_loads[1]);
  }, 20000, !big);
}
// from a file: programs address field 0 or 1 (two reads of one file) by a leading digit; x: read the other layer of the file
template <class F> static void fscen(bool ogawa, bool dynamic, std::vector<std::string> p, int bound, bool big = false) {
  typedef MIPField<F> M;
  std::string n = VS() << fmtName(ogawa) << " " << F::staticClassName() << (dynamic ? " demand-loaded" : ""); for (auto &q : p) n += " | " + q;
  sched::scenario(n, bound, [=](Ctx &c) { initIO(); Format fm(ogawa); Field3DOutputFile o; if (!o.create(c.tmpDir + "/m.f3d")) c.fail("cannot create"); typename M::Ptr m = mkEager<F>(2, 0, MK_MAT); if (!writeAny(o, TY_FLOAT, "n", "a", m)) c.fail("cannot write"); Spec s; s.st = ST_DENSE; s.e = s.d = box(0, 0, 0, 1, 1, 1); s.map = MK_MAT; if (!writeAny(o, TY_FLOAT, "n", "x", mkField(s))) c.fail("cannot write");},
    [=](Ctx &c) {
      c.where("levels in a file"); SparseFileManager &fm = SparseFileManager::singleton(); if (dynamic) { fm.setLimitMemUse(true); fm.setMaxMemUse(1e-4f); } typename M::Ptr ref = mkEager<F>(2, 0, MK_MAT), m[2];
      { Field3DInputFile in; if (!in.open(c.tmpDir + "/m.f3d")) c.fail("cannot open"); Field<float>::Vec v = in.readScalarLayers<float>("n", "a"); if (v.size() == 1) m[0] = field_dynamic_cast<M>(v[0]); if (!m[0]) c.fail("cannot read"); }
      m[1] = typename M::Ptr(new M(*m[0]));
      std::vector<std::function<void()> > fs;
      for (auto &q : p) fs.push_back([&, q] { std::istringstream is(q); std::string t; while (is >> t) {
        if (t[0] == 'x') { Field3DInputFile in; if (!in.open(c.tmpDir + "/m.f3d")) c.fail("the file cannot be opened while levels are loaded"); Field<float>::Vec v = in.readScalarLayers<float>("n", "x"); Spec s; s.st = ST_DENSE; s.e = s.d = box(0, 0, 0, 1, 1, 1); s.map = MK_MAT; if (v.size() != 1 || !diffAny(TY_FLOAT, mkField(s).get(), v[0].get()).empty()) c.fail("a layer read while levels are loaded is wrong"); continue; }
        op<F>(c, *m[t.find(",1") != std::string::npos], *ref, t[0], t[1] - '0'); } });
      sched::run(fs); for (int l = 0; l < 2; ++l) op<F>(c, *m[0], *ref, 'M', l); fm.setLimitMemUse(false); c.step(); c.state(std::hash<std::string>()(n));
    }, 20000, !big);
}
void vp::registerScenarios(bool th) {
  static const char *A[] = {"v0", "v1", "m0", "m1", "r1", "c1", "V1", "s0", "k", "q", "m1 m0", "v0 v1"};
  int n = 12, B = th ? 3 : 2;
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { std::string a = A[i], b = A[j]; bool simple = th ? a.size() == 2 && b.size() == 2 && a[0] != 's' && b[0] != 's' : (a == "v1" || a == "m1") && (b == "m1" || b == "v1") && !(a == b && a == "v1") || (a == "v0" && b == a); mscen(2, MK_MAT, {a, b}, simple ? B : th ? 2 : 1, -1, th || simple); }
  static const char *T[][3] = {{"m1", "m1", "m1"}, {"m0", "m1", "m0"}, {"k", "m1", "v1"}, {"q", "m1", "c1"}, {"v1", "r1", "V1"}, {"s0", "v0", "v1"}};
  for (auto &t : T) mscen(2, MK_MAT, {t[0], t[1], t[2]}, th ? 2 : 1, -1, th);
  mscen(3, MK_MAT_TV, {"m2 m1 m0", "m0 m1 m2"}, th ? 2 : 1, -1, th); mscen(3, MK_MAT_TV, {"m2", "m1", "m0"}, th ? 2 : 1); mscen(3, MK_FRUST, {"m2 m0", "m1 m2"}, th ? 2 : 1, -1, th); mscen(2, MK_NULL, {"m1", "m1"}, B, -1, true);
  mscen(2, MK_MAT, {"m1", "m1"}, B, 1, true); mscen(2, MK_MAT, {"v1", "v0 m1"}, th ? 2 : 1, 1); mscen(2, MK_MAT, {"v0", "v0", "m0"}, th ? 2 : 1, 0);
  for (int og = 1; og >= 0; --og) { int b = th ? 2 : 1;
    fscen<DF>(og, false, {"m1", "m1"}, b); fscen<DF>(og, false, {"m1", "m0"}, b); fscen<DF>(og, false, {"v1", "x"}, b); fscen<DF>(og, false, {"m1", "m1,1"}, b); fscen<DF>(og, false, {"m1", "k1"}, b);
    fscen<SparseField<float> >(og, false, {"m1", "m1"}, b); fscen<SparseField<float> >(og, false, {"m1", "m0,1"}, b); fscen<SparseField<float> >(og, false, {"v1", "x"}, b); fscen<SparseField<float> >(og, true, {"v1", "v0"}, b); fscen<SparseField<float> >(og, true, {"m1", "m1,1"}, b);
    if (th) { fscen<DF>(og, false, {"m1", "m0", "m1"}, 1); fscen<SparseField<float> >(og, true, {"v1", "v0", "v1,1"}, 1); } }
}
