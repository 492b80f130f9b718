// S04: copies are independent. Every copy operation x every later mutation of either side.
#include "common.h"
#include "Field3D/EmptyField.h"
#include "Field3D/ProceduralField.h"

// ---- uniform access to the different structures
template <class F> struct Ops {
  typedef typename F::value_type T;
  static typename F::Ptr make(int which) {
    typename F::Ptr f(new F); if (which == 0) f->setSize(box(0, 0, 0, 2, 1, 1), box(-1, 0, 0, 2, 2, 1)); else f->setSize(V3i(3, 1, 2));
    fill(*f, which); return f; }
  static void fill(F &f, int salt) { Box3i d = f.dataWindow(); f.clear(Mk<T>::of(3)); FOR_BOX(d, x, y, z) if ((x + y + z + salt) & 1) f.lvalue(x, y, z) = Mk<T>::of(voxelCode(x, y, z, salt)); }
  static void write(F &f) { Box3i d = f.dataWindow(); f.lvalue(d.max.x, d.max.y, d.max.z) = Mk<T>::of(777); f.lvalue(d.min.x, d.min.y, d.min.z) = Mk<T>::of(778); }
  static void writeIter(F &f) { int q = 0; for (typename F::iterator i = f.begin(), e = f.end(); i != e; ++i) *i = Mk<T>::of(++q + 900); }
  static void clear(F &f) { f.clear(Mk<T>::of(55)); }
  static void resize(F &f) { f.setSize(box(1, 1, 1, 2, 2, 4)); f.clear(Mk<T>::of(56)); }
};
template <class T> struct OrderTag {};
template <class F> static void sparseTweak(F &, int) {}
template <class T> static void sparseTweak(SparseField<T> &f, int k) { if (k == 0) { f.setBlockOrder(1); Ops<SparseField<T> >::fill(f, 3); } else if (k == 1) f.setBlockEmptyValue(0, 0, 0, Mk<T>::of(31)); else f.releaseBlocks(Sparse::CheckAllEqual<T>()); }

struct Snap { std::vector<std::string> v; std::string cls; };
template <class F> static Snap snap(const typename F::Ptr &f) {
  Snap s; s.cls = f->className(); auto add = [&](const std::string &a) { s.v.push_back(a); };
  add("extents " + str(f->extents())); add("data window " + str(f->dataWindow())); add("name '" + f->name + "'"); add("attribute '" + f->attribute + "'");
  FOR_BOX(f->dataWindow(), x, y, z) add("voxel " + pos(x, y, z) + "=" + str(f->value(x, y, z)));
  FieldMetadata &md = f->metadata();
  for (auto &p : md.strMetadata()) add("str " + p.first + "=" + p.second);
  for (auto &p : md.intMetadata()) add("int " + p.first + "=" + str(p.second));
  for (auto &p : md.floatMetadata()) add("float " + p.first + "=" + str(p.second));
  for (auto &p : md.vecIntMetadata()) add("vi " + p.first + "=" + str(p.second));
  for (auto &p : md.vecFloatMetadata()) add("vf " + p.first + "=" + str(p.second));
  FieldRes::Ptr r = f; FieldMapping::Ptr m = r->mapping();
  if (!m) add("no mapping"); else {
    add("mapping " + m->className());
    for (float t : {0.0f, 0.5f, 1.0f}) for (int k = 0; k < 2; ++k) { V3d o; V3d p(k ? 0.25 : 0.5, k ? 0.75 : 0.5, 0.5); m->localToWorld(p, o, t); add(VS() << "mapping: local to world " << str(o)); m->voxelToWorld(V3d(1, 2, 0.5), o, t); add(VS() << "mapping: voxel to world " << str(o)); m->worldToVoxel(V3d(1, 2, 3), o, t); add(VS() << "mapping: world to voxel " << str(o)); }
    V3d q; m->localToVoxel(V3d(1, 1, 1), q); add("mapping: local (1,1,1) is voxel " + str(q));
  }
  return s;
}
static std::string diffSnap(const Snap &a, const Snap &b) {
  for (size_t i = 0; i < std::min(a.v.size(), b.v.size()); ++i) if (a.v[i] != b.v[i]) return a.v[i] + " became " + b.v[i];
  if (a.v.size() != b.v.size()) return VS() << "number of entries changed " << a.v.size() << " -> " << b.v.size();
  return "";
}
static std::string what(const std::string &d) { size_t p = d.find_first_of(" "); std::string w = d.substr(0, p); return w == "data" ? "data window" : w; }

static void decorate(FieldRes &f, int k, int mapKind) {
  f.name = k ? "other" : "density"; f.attribute = k ? "otherAttr" : "attr";
  f.metadata().setStrMetadata("s", k ? "x" : "hello"); f.metadata().setIntMetadata("i", k + 4); f.metadata().setFloatMetadata("f", 1.5f + k);
  f.metadata().setVecIntMetadata("vi", V3i(1, 2, k)); f.metadata().setVecFloatMetadata("vf", V3f(1, 2, k + 0.5f));
  f.setMapping(makeMapping(mapKind));
}

enum { M_WRITE, M_ITER, M_CLEAR, M_RESIZE, M_SETMAP, M_MUTMAP, M_META, M_NAME, M_SPARSE, M_MATCH, M_ASSIGN, M_DESTROY, M_COUNT };
static const char *mutName[] = {"voxel write", "iterator write", "clear", "resize", "setMapping", "change of its mapping object", "metadata change", "rename", "block change", "matchDefinition", "assignment", "destruction"};
template <class F> static void mutate(Ctx &c, typename F::Ptr &f, int m) {
  typedef typename F::value_type T;
  switch (m) {
  case M_WRITE: Ops<F>::write(*f); break;
  case M_ITER: Ops<F>::writeIter(*f); break;
  case M_CLEAR: Ops<F>::clear(*f); break;
  case M_RESIZE: Ops<F>::resize(*f); break;
  case M_SETMAP: f->setMapping(makeMapping(MK_MAT2)); break;
  case M_MUTMAP: { FieldRes::Ptr r = f; FieldMapping::Ptr p = r->mapping();
    if (MatrixFieldMapping::Ptr mm = field_dynamic_cast<MatrixFieldMapping>(p)) { if (c.flag()) mm->setLocalToWorld(mat(9, 8, 7, 6, 5, 4)); else mm->setLocalToWorld(2.0f, mat(9, 8, 7, 6, 5, 4)); }
    else if (FrustumFieldMapping::Ptr fm = field_dynamic_cast<FrustumFieldMapping>(p)) { M44d ss, cs; camAt(2, 30, 5, ss, cs); if (c.flag()) fm->setTransforms(ss, cs); else fm->setTransforms(0.5f, ss, cs); }
    if (p) p->setExtents(box(0, 0, 0, 40, 50, 60)); break; }
  case M_META: f->metadata().setStrMetadata("s", "changed"); f->metadata().setIntMetadata("new", 1); f->metadata().setVecFloatMetadata("vf", V3f(9)); f->metadata().setFloatMetadata("f", -1); f->metadata().setVecIntMetadata("zz", V3i(3)); break;
  case M_NAME: f->name = "renamed"; f->attribute = "reattributed"; break;
  case M_SPARSE: sparseTweak(*f, c.choose(3)); break;
  case M_MATCH: { FieldRes::Ptr o(Ops<F>::make(1)); decorate(*o, 1, MK_MAT2); f->matchDefinition(o); Ops<F>::clear(*f); break; }
  case M_ASSIGN: { typename F::Ptr o = Ops<F>::make(1); decorate(*o, 1, MK_FRUST); *f = *o; break; }
  case M_DESTROY: f = 0; break;
  }
}

// identical observable state right after the copy, then one or two mutations of one side
template <class F> static void sameType(Ctx &c, const std::string &tn, int nMut) {
  typedef typename F::value_type T;
  int mk = c.pick(std::vector<int>{MK_DEFAULT, MK_MAT_TV, MK_FRUST_TV, MK_NULL});
  typename F::Ptr a = Ops<F>::make(0); sparseTweak(*a, 0); decorate(*a, 0, mk);
  typename F::Ptr b; int how = c.choose(4); static const char *hn[] = {"copy construction", "assignment to a fresh field", "assignment over another field", "clone"};
  switch (how) {
  case 0: b = new F(*a); break;
  case 1: b = new F; *b = *a; break;
  case 2: b = Ops<F>::make(1); decorate(*b, 1, MK_MAT2); *b = *a; break;
  case 3: { FieldBase::Ptr x = a->clone(); b = field_dynamic_cast<F>(x); if (!b) c.fail("clone changes the type of " + tn, x->classType()); break; }
  }
  c.log(VS() << tn << ": " << hn[how] << ", mapping " << mapName(mk)); c.step();
  Snap s0 = snap<F>(a), s1 = snap<F>(b);
  std::string d = diffSnap(s0, s1); if (!d.empty()) c.fail(VS() << tn << ": " << hn[how] << " differs from the original (" << what(d) << ")", d);
  int n = c.range(1, nMut);
  typename F::Ptr *m = c.flag() ? &a : &b, *o = m == &a ? &b : &a;
  uint64_t h = vp::hashStr(tn); h = vp::mix(h, how * 100 + mk);
  for (int k = 0; k < n; ++k) {
    int mu = c.choose(M_COUNT); if (!*m) c.prune();
    c.where(std::string(tn) + " " + hn[how] + " then " + mutName[mu]); c.log(VS() << (m == &a ? "original: " : "copy: ") << mutName[mu]); c.step();
    mutate<F>(c, *m, mu);
    Snap s2 = snap<F>(*o); d = diffSnap(s0, s2);
    if (!d.empty()) c.fail(VS() << tn << ": " << hn[how] << ": " << mutName[mu] << " on the " << (m == &a ? "original" : "copy") << " shows through (" << what(d) << ")", d);
    h = vp::mix(h, mu * 2 + (m == &a));
  }
  c.state(h);
}
// conversion between structures
template <class A, class B> static void convert(Ctx &c, const std::string &tn) {
  typedef typename A::value_type T; typedef typename B::value_type U;
  int mk = c.pick(std::vector<int>{MK_MAT_TV, MK_FRUST_TV});
  typename A::Ptr a = Ops<A>::make(0); decorate(*a, 0, mk); typename B::Ptr b(new B); if (c.flag()) { b = Ops<B>::make(1); decorate(*b, 1, MK_MAT2); }
  typename Field<T>::Ptr fa = a; b->template copyFrom<T>(fa); c.step();
  c.check(b->extents() == a->extents() && b->dataWindow() == a->dataWindow(), tn + ": copyFrom extents");
  FOR_BOX(a->dataWindow(), x, y, z) { U e = a->value(x, y, z); if (!same(b->value(x, y, z), e)) c.fail(tn + ": copyFrom value", pos(x, y, z)); }
  FieldRes::Ptr ra = a, rb = b; std::string d = diffMapping(ra->mapping().get(), rb->mapping().get()); c.check(d.empty(), tn + ": copyFrom mapping", d);
  Snap sa = snap<A>(a), sb = snap<B>(b); int mu = c.choose(M_COUNT); c.where(tn + " then " + mutName[mu]); c.log(tn + " then " + mutName[mu]);
  if (c.flag()) { mutate<A>(c, a, mu); d = diffSnap(sb, snap<B>(b)); } else { mutate<B>(c, b, mu); d = diffSnap(sa, snap<A>(a)); }
  c.check(d.empty(), VS() << tn << ": copyFrom: " << mutName[mu] << " shows through", d);
  c.state(vp::mix(vp::hashStr(tn), mu));
}
// setMapping and matchDefinition take copies of what they are given
template <class F> static void givenMapping(Ctx &c, const std::string &tn) {
  int mk = c.pick(std::vector<int>{MK_MAT, MK_MAT_TV, MK_FRUST_TV, MK_NULL}); FieldMapping::Ptr m = makeMapping(mk);
  typename F::Ptr a = Ops<F>::make(0), b = Ops<F>::make(1); bool viaMatch = c.flag();
  a->setMapping(m); if (viaMatch) { FieldRes::Ptr r = a; b->matchDefinition(r); Ops<F>::clear(*b); } else b->setMapping(m);
  Snap sa = snap<F>(a), sb = snap<F>(b); c.step();
  int mu = c.choose(4);
  if (mu == 0) { if (MatrixFieldMapping::Ptr mm = field_dynamic_cast<MatrixFieldMapping>(m)) mm->setLocalToWorld(mat(5, 5, 5, 5, 5, 5)); if (FrustumFieldMapping::Ptr fm = field_dynamic_cast<FrustumFieldMapping>(m)) { M44d ss, cs; camAt(3, 9, 1, ss, cs); fm->setTransforms(ss, cs); } m->setExtents(box(0, 0, 0, 9, 9, 9));
    std::string d = diffSnap(sa, snap<F>(a)); c.check(d.empty(), tn + ": changing the mapping given to setMapping shows through", d); }
  else if (mu == 1) mutate<F>(c, a, M_MUTMAP); else if (mu == 2) mutate<F>(c, a, M_RESIZE); else mutate<F>(c, a, M_SETMAP);
  std::string d = diffSnap(sb, snap<F>(b)); c.check(d.empty(), VS() << tn << ": fields given one mapping share it", d);
  c.state(vp::mix(vp::hashStr(tn), mu * 10 + mk));
}
// ---- MIP fields: built from levels, copied whole
template <class F> static std::string diffMip(const MIPField<F> &a, const std::vector<std::vector<std::string> > &ref);
template <class F> static std::vector<std::string> mipSnap(const typename MIPField<F>::Ptr &m) {
  std::vector<std::string> r; Snap s = snap<MIPField<F> >(m); r = s.v; r.push_back(VS() << "levels " << m->numLevels() << " offset " << str(m->mipOffset()) << " lowest " << m->lowestLevel());
  for (size_t l = 0; l < m->numLevels(); ++l) { r.push_back(VS() << "res " << str(m->mipResolution(l)) << " loaded " << m->levelLoaded(l)); typename F::Ptr f = m->concreteMipLevel(l); Snap q = snap<F>(f); for (auto &x : q.v) r.push_back(VS() << "level " << l << " " << x); }
  return r;
}
template <class F> static typename MIPField<F>::Ptr makeMip(int levels, int salt, int mk) {
  typedef typename F::value_type T; typename F::Vec v;
  for (int l = 0; l < levels; ++l) { typename F::Ptr f(new F); f->setSize(V3i(4 >> l, 4 >> l, 2 >> l ? 2 >> l : 1)); Ops<F>::fill(*f, salt + l); v.push_back(f); }
  typename MIPField<F>::Ptr m(new MIPField<F>); m->setup(v); decorate(*m, salt, mk); return m;
}
template <class F> static std::string dv(const std::vector<std::string> &a, const std::vector<std::string> &b) { Snap x, y; x.v = a; y.v = b; return diffSnap(x, y); }
template <class F> static void mip(Ctx &c, const std::string &tn) {
  typedef MIPField<F> M; int mk = c.pick(std::vector<int>{MK_MAT, MK_MAT_TV});
  typename M::Ptr a = makeMip<F>(c.range(1, 3), 0, mk), b; int how = c.choose(4); static const char *hn[] = {"copy construction", "assignment to a fresh field", "assignment over another field", "clone"};
  c.where(tn + " " + hn[how]);
  switch (how) { case 0: b = new M(*a); break; case 1: b = new M; *b = *a; break; case 2: b = makeMip<F>(c.range(1, 3), 1, MK_MAT2); *b = *a; break; case 3: { FieldBase::Ptr x = a->clone(); b = field_dynamic_cast<M>(x); if (!b) c.fail("clone changes the type of " + tn, x->classType()); } }
  std::vector<std::string> s0 = mipSnap<F>(a), s1 = mipSnap<F>(b); c.step();
  std::string d = dv<F>(s0, s1); c.check(d.empty(), VS() << tn << ": " << hn[how] << " differs", d);
  bool onA = c.flag(); typename M::Ptr &m = onA ? a : b, &o = onA ? b : a; int mu = c.choose(7); static const char *mn[] = {"setMapping", "metadata change", "rename", "setup with other levels", "level voxel write", "destruction", "clear"};
  c.where(tn + " " + hn[how] + " then " + mn[mu]); c.log(VS() << tn << " " << hn[how] << " then " << mn[mu]);
  switch (mu) { case 0: m->setMapping(makeMapping(MK_MAT2)); break; case 1: m->metadata().setStrMetadata("s", "chg"); m->metadata().setIntMetadata("q", 1); break; case 2: m->name = "z"; m->attribute = "zz"; break;
    case 3: { typename F::Vec v; typename F::Ptr f = Ops<F>::make(1); v.push_back(f); m->setup(v); break; } case 4: { typename F::Ptr f = m->concreteMipLevel(0); Ops<F>::write(*f); break; } case 5: m = 0; break; case 6: m->clear(); break; }
  d = dv<F>(s0, mipSnap<F>(o)); c.check(d.empty(), VS() << tn << ": " << hn[how] << ": " << mn[mu] << " shows through", d); c.step();
  c.state(vp::mix(vp::hashStr(tn), how * 10 + mu));
}
// metadata containers alone
struct Owner : MetadataCallback { int n; Owner() : n(0) {} virtual void metadataHasChanged(const std::string &) { ++n; } };
static void meta(Ctx &c) {
  Owner oa, ob, oc; FieldMetadata a(&oa), b(&ob), keep(&oc); a.setStrMetadata("k", "v"); a.setIntMetadata("k", 3); a.setFloatMetadata("k", 2.5f); a.setVecIntMetadata("k", V3i(1, 2, 3)); a.setVecFloatMetadata("k", V3f(1, 2, 3));
  if (c.flag()) { b.setStrMetadata("old", "x"); b.setVecIntMetadata("k", V3i(9)); }
  int how = c.choose(2); if (how == 0) b = a; else { Owner oq; FieldMetadata q(&oq); q = a; b = q; }
  std::string d = diffMetadata(a, b); c.check(d.empty(), "metadata copy differs", d);
  keep = a; FieldMetadata &m = c.flag() ? a : b, &o = &m == &a ? b : a;
  switch (c.choose(5)) { case 0: m.setStrMetadata("k", "w"); break; case 1: m.setIntMetadata("k", 4); break; case 2: m.setFloatMetadata("n", 4); break; case 3: m.setVecIntMetadata("k", V3i(7)); break; case 4: m.setVecFloatMetadata("k", V3f(7)); break; }
  d = diffMetadata(keep, o); c.check(d.empty(), "metadata copies share entries", d); c.step(); c.state(how);
}
void vp::registerScenarios(bool th) {
  quietInit(); int N = th ? 3 : 2;
  auto o = opt(false, 4);
  scenario("copy/dense float", [=](Ctx &c) { sameType<DenseField<float> >(c, "dense", N); }, o);
  scenario("copy/sparse float", [=](Ctx &c) { sameType<SparseField<float> >(c, "sparse", N); }, o);
  scenario("copy/mac V3f", [=](Ctx &c) { sameType<MACField<V3f> >(c, "MAC", N); }, o);
  scenario("copy/dense V3h", [=](Ctx &c) { sameType<DenseField<V3h> >(c, "dense V3h", 1); }, o);
  scenario("copy/sparse V3d", [=](Ctx &c) { sameType<SparseField<V3d> >(c, "sparse V3d", 1); }, o);
  scenario("convert/dense-sparse", [=](Ctx &c) { convert<DenseField<float>, SparseField<float> >(c, "dense to sparse"); }, o);
  scenario("convert/sparse-dense", [=](Ctx &c) { convert<SparseField<float>, DenseField<float> >(c, "sparse to dense"); }, o);
  scenario("convert/dense float-double", [=](Ctx &c) { convert<DenseField<float>, DenseField<double> >(c, "float to double"); }, o);
  scenario("convert/sparse double-half", [=](Ctx &c) { convert<SparseField<double>, SparseField<half> >(c, "double to half"); }, o);
  scenario("convert/dense-sparse V3f", [=](Ctx &c) { convert<DenseField<V3f>, SparseField<V3f> >(c, "dense to sparse V3f"); }, o);
  scenario("given/dense", [=](Ctx &c) { givenMapping<DenseField<float> >(c, "dense"); }, o);
  scenario("given/sparse", [=](Ctx &c) { givenMapping<SparseField<float> >(c, "sparse"); }, o);
  scenario("given/mac", [=](Ctx &c) { givenMapping<MACField<V3f> >(c, "MAC"); }, o);
  scenario("mip/dense", [=](Ctx &c) { mip<DenseField<float> >(c, "MIP dense"); }, o);
  scenario("mip/sparse", [=](Ctx &c) { mip<SparseField<V3f> >(c, "MIP sparse"); }, o);
  scenario("metadata", meta, o);
}
