// T05: multi-resolution and min/max representations built by several threads, in every schedule, equal those built by one.
#include "mips.h"
#include "xsched.h"
#include "Field3D/MinMaxUtil.h"

enum { P_FULL, P_SPOT, P_HALF, P_EMPTYVAL };
template <class T> static typename SparseField<T>::Ptr mkBase(SparseField<T> *, int order, V3i res, int pat) { typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(order); f->setSize(res); f->clear(Mk<T>::of(pat == P_EMPTYVAL ? 5 : 0)); FOR_BOX(f->dataWindow(), x, y, z) if (pat == P_FULL || (pat == P_SPOT && x == res.x - 1) || (pat == P_HALF && x < res.x / 2) || (pat == P_EMPTYVAL && x == 0)) f->lvalue(x, y, z) = Mk<T>::of((int)voxelCode(x, y, z, 3) % 251 - 100); return f; }
template <class T> static typename DenseField<T>::Ptr mkBase(DenseField<T> *, int, V3i res, int pat) { typename DenseField<T>::Ptr f(new DenseField<T>); f->setSize(res); f->clear(Mk<T>::of(pat == P_EMPTYVAL ? 5 : 0)); FOR_BOX(f->dataWindow(), x, y, z) if (pat == P_FULL || (pat == P_SPOT && x == res.x - 1) || (pat == P_HALF && x < res.x / 2) || (pat == P_EMPTYVAL && x == 0)) f->lvalue(x, y, z) = Mk<T>::of((int)voxelCode(x, y, z, 3) % 251 - 100); return f; }
template <class M> static std::string diffMip(const M &a, const M &b) {
  typedef typename M::NestedType F; if (a.numLevels() != b.numLevels()) return "number of levels"; if (a.mipOffset() != b.mipOffset()) return "offset";
  for (size_t l = 0; l < a.numLevels(); ++l) { std::string d = diffTyped<typename F::value_type>(a.rawMipLevel(l), b.rawMipLevel(l)); if (!d.empty()) return VS() << "level " << l << " " << d; d = diffMapping(a.rawMipLevel(l)->mapping().get(), b.rawMipLevel(l)->mapping().get()); if (!d.empty()) return VS() << "level " << l << " mapping: " << d; }
  return "";
}
template <class F> static const char *fname() { return F::staticClassName(); }
static std::string resName(V3i r) { return VS() << r.x << "x" << r.y << "x" << r.z; }
static std::string noNum(std::string s) { std::string o; for (char ch : kindOf(s)) if (!isdigit(ch)) o += ch; return o.substr(0, o.find('(')); }
template <class F, class Filter> static void mip(const char *fn, int order, V3i res, int pat, V3i off, int threads, int bound, bool big = false) {
  typedef typename F::value_type T; typedef MIPField<F> M;
  std::string n = VS() << "makeMIP " << fname<F>() << "<" << tyName(TyOf<T>::v) << "> " << fn << " order " << order << " " << resName(res) << " pattern " << pat << (off == V3i(0) ? "" : " offset") << ", " << threads << " threads";
  auto base = std::make_shared<typename F::Ptr>(); auto want = std::make_shared<typename M::Ptr>();
  sched::scenario(n, bound, [=](Ctx &c) { typename F::Ptr f = mkBase<T>((F *)0, order, res, pat); f->setMapping(makeMapping(MK_MAT)); f->name = "n"; f->attribute = "a"; *base = f; *want = makeMIP<M, Filter>(*f, 2, off, 1); }, [=](Ctx &c) {
    c.where(fname<F>()); typename M::Ptr got = makeMIP<M, Filter>(**base, 2, off, threads);
    if (!got) c.fail("nothing is built"); std::string d = diffMip(**want, *got); if (!d.empty()) c.fail("built by several threads, differs from built by one: " + noNum(d), d);
    c.step(); c.state(std::hash<std::string>()(n));
  }, 20000, !big);
}
template <class F> static void minmax(int order, V3i res, int pat, float mult, int threads, int bound, bool big = false) {
  typedef typename F::value_type T; typedef MIPField<F> M;
  std::string n = VS() << "makeMinMax " << fname<F>() << "<" << tyName(TyOf<T>::v) << "> order " << order << " " << resName(res) << " pattern " << pat << " by " << mult << ", " << threads << " threads";
  typedef std::pair<typename M::Ptr, typename M::Ptr> R; auto base = std::make_shared<typename F::Ptr>(); auto want = std::make_shared<R>();
  sched::scenario(n, bound, [=](Ctx &c) { *base = mkBase<T>((F *)0, order, res, pat); *want = makeMinMax<M>(**base, mult, 1); }, [=](Ctx &c) {
    c.where("min/max"); R got = makeMinMax<M>(**base, mult, threads);
    std::string d = diffMip(*want->first, *got.first); if (d.empty()) d = diffMip(*want->second, *got.second); if (!d.empty()) c.fail("min/max built by several threads, differs from built by one: " + noNum(d), d);
    c.step(); c.state(std::hash<std::string>()(n));
  }, 20000, !big);
}
// two callers at once, each with a field and threads of its own, or with the field shared
template <class F> static void two(int order, V3i res, bool shared, int bound, bool big = false) {
  typedef typename F::value_type T; typedef MIPField<F> M;
  std::string n = VS() << "two callers, " << fname<F>() << "<" << tyName(TyOf<T>::v) << "> order " << order << " " << resName(res) << (shared ? " shared" : "");
  sched::scenario(n, bound, nullptr, [=](Ctx &c) {
    c.where("two callers"); typename F::Ptr f = mkBase<T>((F *)0, order, res, P_FULL), g = shared ? f : mkBase<T>((F *)0, order, res, P_SPOT); typename M::Ptr wf = makeMIP<M, BoxFilter>(*f, 2, 1), wg = makeMIP<M, TriangleFilter>(*g, 2, 1), a, b;
    sched::run({[&] { a = makeMIP<M, BoxFilter>(*f, 2, 1); }, [&] { b = makeMIP<M, TriangleFilter>(*g, 2, 1); }});
    std::string d = diffMip(*wf, *a); if (d.empty()) d = diffMip(*wg, *b); if (!d.empty()) c.fail("built at the same time as another, differs: " + noNum(d), d); c.step(); c.state(std::hash<std::string>()(n));
  }, 20000, !big);
}
void vp::registerScenarios(bool th) {
  typedef SparseField<float> SF; typedef DenseField<float> DF; V3i z(0); int B = th ? 3 : 2, C = th ? 2 : 1;
  int T = th ? 1 : 0; // three threads
  mip<SF, BoxFilter>("box", 2, V3i(5, 4, 3), P_FULL, z, 2, B, true); mip<SF, BoxFilter>("box", 2, V3i(35, 3, 3), P_FULL, z, 2, C + (th ? 1 : 0), true); mip<DF, BoxFilter>("box", 0, V3i(35, 3, 3), P_FULL, z, 2, B, true);
  for (int o = 1; o <= 5; ++o) { if (o != 2 || th) mip<SF, BoxFilter>("box", o, V3i(35, 3, 3), P_FULL, z, 2, C); mip<SF, BoxFilter>("box", o, V3i(5, 4, 3), P_SPOT, z, 2, C); }
  mip<SF, BoxFilter>("box", 2, V3i(35, 3, 3), P_HALF, z, 3, T); mip<SF, BoxFilter>("box", 4, V3i(35, 3, 3), P_SPOT, z, 2, C);
  mip<SF, TriangleFilter>("triangle", 3, V3i(3, 35, 3), P_EMPTYVAL, z, 2, C); mip<SF, MinFilter>("min", 2, V3i(3, 3, 35), P_FULL, V3i(1, 1, 1), 2, T); mip<SF, MaxFilter>("max", 3, V3i(20, 20, 3), P_SPOT, z, 3, T);
  mip<SparseField<V3f>, BoxFilter>("box", 2, V3i(5, 4, 3), P_FULL, z, 3, T); mip<SparseField<half>, BoxFilter>("box", 3, V3i(35, 3, 3), P_HALF, V3i(1, 0, -1), 2, C); mip<SparseField<double>, GaussianFilter>("gaussian", 4, V3i(35, 3, 3), P_SPOT, z, 2, C);
  mip<DF, BoxFilter>("box", 0, V3i(5, 4, 3), P_FULL, z, 2, C); mip<DF, BoxFilter>("box", 0, V3i(35, 3, 3), P_HALF, z, 3, T); mip<DenseField<V3h>, TriangleFilter>("triangle", 0, V3i(3, 35, 3), P_FULL, V3i(1, 0, 0), 2, C); mip<DF, MinFilter>("min", 0, V3i(3, 3, 35), P_SPOT, z, 3, T); mip<DenseField<V3d>, MaxFilter>("max", 0, V3i(20, 20, 3), P_FULL, z, 3, T);
  for (int o = 2; o <= 4; ++o) minmax<SF>(o, V3i(7, 5, 4), P_SPOT, 0.7f, 2, C); minmax<SF>(2, V3i(36, 4, 4), P_FULL, 1.0f, 2, T); minmax<DF>(0, V3i(36, 4, 4), P_FULL, 1.0f, 2, T); minmax<SparseField<V3f> >(3, V3i(3, 3, 3), P_FULL, 1.0f, 2, T);
  two<SF>(2, V3i(3, 3, 3), true, T, true); two<SF>(3, V3i(5, 4, 3), false, T); two<DF>(0, V3i(3, 3, 3), true, T); if (th) two<SparseField<V3f> >(2, V3i(5, 4, 3), true, T);
  if (th) for (int t = 4; t <= 8; t += 2) { mip<SF, BoxFilter>("box", 2, V3i(35, 20, 3), P_FULL, z, t, 1); mip<DF, BoxFilter>("box", 0, V3i(35, 20, 3), P_FULL, z, t, 1); }
}
