// F02: layers come back with their mapping. Mapping family x structure x format; sharing and separation of mappings under one partition name.
#include "fileio.h"

struct MapSpec { int kind; int var; std::string label; };
// all mapping shapes: class x number of time samples x order of insertion x distribution x numeric variants
static std::vector<MapSpec> family() {
  std::vector<MapSpec> v;
  v.push_back({0, 0, "null"});
  static const char *m[] = {"matrix identity", "matrix scaled", "matrix rotated", "matrix negative scale", "matrix tiny scale", "matrix one sample at t=0.5", "matrix two samples", "matrix two samples reversed", "matrix three samples, negative time", "matrix sample replaced", "matrix sheared", "matrix duplicate sample values"};
  for (int i = 0; i < 12; ++i) v.push_back({1, i, m[i]});
  static const char *f[] = {"frustum perspective", "frustum uniform", "frustum other camera", "frustum two samples", "frustum two samples uniform", "frustum sample at t=0.5", "frustum default", "frustum near plane changed", "frustum reset after samples", "frustum two samples reversed"};
  for (int i = 0; i < 10; ++i) v.push_back({2, i, f[i]});
  return v;
}
static FieldMapping::Ptr build(const MapSpec &s) {
  if (s.kind == 0) return FieldMapping::Ptr(new NullFieldMapping);
  if (s.kind == 1) {
    MatrixFieldMapping::Ptr m(new MatrixFieldMapping);
    switch (s.var) {
    case 0: break;
    case 1: m->setLocalToWorld(mat(2, 3, 4, 1, -2, 0.5)); break;
    case 2: m->setLocalToWorld(mat(1.1, 0.7, 10, -7, 2, 3, 0.3)); break;
    case 3: m->setLocalToWorld(mat(-2, 3, 1, 0, 0, 1)); break;
    case 4: m->setLocalToWorld(mat(1e-9, 2e-9, 1e7, 1e9, 0, 0)); break;
    case 5: m->setLocalToWorld(0.5f, mat(2, 3, 4, 1, 1, 1)); break;
    case 6: m->setLocalToWorld(0.0f, mat(2, 3, 4, 1, -2, 0.5)); m->setLocalToWorld(1.0f, mat(1, 2, 3, 5, 6, 7)); break;
    case 7: m->setLocalToWorld(1.0f, mat(1, 2, 3, 5, 6, 7)); m->setLocalToWorld(0.0f, mat(2, 3, 4, 1, -2, 0.5)); break;
    case 8: m->setLocalToWorld(-1.0f, mat(1, 1, 1, 5, 0, 0)); m->setLocalToWorld(0.25f, mat(1, 2, 1, 6, 0, 0)); m->setLocalToWorld(2.0f, mat(1, 1, 3, 7, 0, 0)); break;
    case 9: m->setLocalToWorld(1.0f, mat(9, 9, 9, 9, 9, 9)); m->setLocalToWorld(1.0f, mat(1, 2, 3, 5, 6, 7)); m->setLocalToWorld(0.0f, mat(1, 2, 3, 5, 6, 7)); break;
    case 10: { M44d x = mat(1, 2, 3, 4, 5, 6); x[0][1] = 0.5; x[2][0] = -0.25; m->setLocalToWorld(x); break; }
    case 11: m->setLocalToWorld(0.0f, mat(2, 3, 4, 1, -2, 0.5)); m->setLocalToWorld(1.0f, mat(2, 3, 4, 1, -2, 0.5)); break;
    }
    return m;
  }
  FrustumFieldMapping::Ptr m(new FrustumFieldMapping); M44d ss, cs; typedef FrustumFieldMapping F;
  switch (s.var) {
  case 0: case 1: camAt(1, 10, 0.25, ss, cs); m->setTransforms(ss, cs); m->setZDistribution(s.var ? F::UniformDistribution : F::PerspectiveDistribution); break;
  case 2: camAt(1, 10, 3, ss, cs); m->setTransforms(ss, cs); break;
  case 3: case 4: camAt(1, 10, 0.25, ss, cs); m->setTransforms(0.0f, ss, cs); camAt(1, 10, 4, ss, cs); m->setTransforms(1.0f, ss, cs); m->setZDistribution(s.var == 4 ? F::UniformDistribution : F::PerspectiveDistribution); break;
  case 5: camAt(1, 10, 2, ss, cs); m->setTransforms(0.5f, ss, cs); break;
  case 6: break;
  case 7: camAt(2, 30, 0.25, ss, cs); m->setTransforms(ss, cs); break;
  case 8: camAt(1, 10, 7, ss, cs); m->setTransforms(1.0f, ss, cs); camAt(1, 10, 0.25, ss, cs); m->setTransforms(ss, cs); break;
  case 9: camAt(1, 10, 4, ss, cs); m->setTransforms(1.0f, ss, cs); camAt(1, 10, 0.25, ss, cs); m->setTransforms(0.0f, ss, cs); break;
  }
  return m;
}
static FieldRes::Ptr field(const MapSpec &ms, int st, int salt, const Box3i &e) {
  Spec s; s.st = st; s.ty = TY_V3F; s.e = s.d = e; s.content = CO_VARY; s.salt = salt; s.levels = 2; FieldRes::Ptr f = mkField(s); f->setMapping(build(ms)); return f;
}
static void one(Ctx &c) {
  static std::vector<MapSpec> fam = family(); const MapSpec &ms = c.pick(fam); int st = c.choose(ST_COUNT); bool ogawa = c.flag();
  if (st == ST_MAC && ogawa) c.prune();   // F01: such layers are refused
  Box3i e = c.pick(std::vector<Box3i>{box(0, 0, 0, 3, 3, 3), box(-2, 1, 5, 0, 1, 8)});
  std::string lab = ms.label + " (" + fmtName(ogawa) + ")"; c.log(VS() << lab << " " << stName(st)); TmpFile tf(c);
  FieldRes::Ptr f = field(ms, st, 0, e); c.step();
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", ""); VPCHECK(c, writeAny(out, TY_V3F, "p", "l", f), "write fails: " + lab, stName(st)); }
  FieldRes::Ptr g = field(ms, st, 0, e); std::string d = diffMapping(g->mapping().get(), f->mapping().get()); VPCHECK(c, d.empty(), "writing changes the mapping: " + lab, d);
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails: " + lab, ""); c.step();
  FList r = readAny(in, TY_V3F, 0, "l"); VPCHECK(c, r.size() == 1, "layer is not read back: " + lab, VS() << r.size());
  VPCHECK(c, r[0]->mapping(), "mapping lost: " + lab, stName(st));
  d = diffMapping(g->mapping().get(), r[0]->mapping().get()); VPCHECK(c, d.empty(), "mapping differs after reading: " + lab, stName(st) + std::string(": ") + d);
  if (ms.kind != 2) { d = checkMappingExtents(*r[0]->mapping(), e); VPCHECK(c, d.empty() || ms.kind == 0, "mapping extents differ after reading: " + lab, d); }
  // the MIP levels' own mappings
  if (st == ST_MIPD || st == ST_MIPS) { auto lev = [&](FieldRes::Ptr x) -> FieldRes::Ptr { if (st == ST_MIPD) return field_dynamic_cast<MIPField<DenseField<V3f> > >(x)->concreteMipLevel(0); return field_dynamic_cast<MIPField<SparseField<V3f> > >(x)->concreteMipLevel(0); };
    d = diffMapping(g->mapping().get(), lev(r[0])->mapping().get(), 1e-6); VPCHECK(c, d.empty(), "mapping of level 0 differs after reading: " + lab, d); }
  // proxy
  if (true) { EmptyField<V3f>::Vec p = in.readProxyLayer<V3f>("p", "l", true); VPCHECK(c, p.size() == 1, "no proxy: " + lab, ""); FieldRes::Ptr pr = p[0]; VPCHECK(c, pr->mapping(), "proxy mapping lost: " + lab, ""); d = diffMapping(g->mapping().get(), pr->mapping().get()); VPCHECK(c, d.empty(), "proxy mapping differs: " + lab, d); }
  c.state(vp::mix(vp::mix(vp::mix(ms.kind * 100 + ms.var, st), ogawa), e.min.x));
}
// several layers with chosen mappings under one or two partition names; optionally the same object is written again after its mapping was changed in place
static void many(Ctx &c, bool th) {
  static std::vector<MapSpec> fam = {{0, 0, "null"}, {1, 1, "m1"}, {1, 2, "m2"}, {1, 6, "tv"}, {2, 0, "f1"}, {2, 1, "f1u"}, {1, 11, "dup"}, {1, 0, "id"}, {2, 3, "ftv"}};
  bool ogawa = c.flag(); int n = th ? 3 : c.range(2, 3); std::vector<int> k, pn; std::string lab = fmtName(ogawa); int nk = th ? 9 : n == 3 ? 5 : 9;
  for (int i = 0; i < n; ++i) { k.push_back(c.choose(nk)); pn.push_back(i ? c.choose(2) : 0); }
  TmpFile tf(c); Box3i e0 = box(0, 0, 0, 2, 2, 2), e1 = box(1, 0, 0, 4, 1, 2);
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", "");
    for (int i = 0; i < n; ++i) { VPCHECK(c, writeAny(out, TY_V3F, pn[i] ? "q" : "p", VS() << "l" << i, field(fam[k[i]], i == 1 ? ST_SPARSE : ST_DENSE, i, i == 1 ? e1 : e0)), "write fails: " + lab, fam[k[i]].label); c.step(); } }
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails: " + lab, "");
  for (int i = n - 1; i >= 0; --i) { std::string p = pn[i] ? "q" : "p"; FList r = readAny(in, TY_V3F, &p, VS() << "l" << i); VPCHECK(c, r.size() == 1, "layer of a shared partition is not read back once: " + lab, VS() << r.size());
    FieldRes::Ptr g = field(fam[k[i]], i == 1 ? ST_SPARSE : ST_DENSE, i, i == 1 ? e1 : e0); VPCHECK(c, r[0]->mapping(), "mapping lost in a shared partition: " + lab, ""); std::string d = diffMapping(g->mapping().get(), r[0]->mapping().get());
    VPCHECK(c, d.empty(), "layers exchange mappings in a shared partition: " + lab, VS() << "layer " << i << " of mappings " << fam[k[0]].label << "," << fam[k[1]].label << ": " << d);
    d = diffAny(TY_V3F, g.get(), r[0].get()); VPCHECK(c, d.empty(), "contents in a shared partition: " + lab, d); c.step(); }
  uint64_t h = ogawa; for (int i = 0; i < n; ++i) h = vp::mix(h, k[i] * 2 + pn[i]); c.state(h);
}
// mappings that differ in a single aspect: one sample's time, one element of one sample's matrix, the number of samples, the distribution, the camera
static const int TWINS = 9;
static FieldMapping::Ptr twin(int cls, int var) {
  if (cls == 0) {
    static const double one[16] = {2, 0, 0, 0, 0, 3, 0, 0, 0, 0, 4, 0, 1, -2, 0.5, 1};
    float t[3] = {0.0f, 0.5f, 1.0f}; M44d m[3]; for (int s = 0; s < 3; ++s) { for (int i = 0; i < 16; ++i) m[s][i / 4][i % 4] = one[i]; m[s][3][0] += s; m[s][1][1] += s; }
    int n = 3;
    switch (var) { case 1: t[0] = 0.25f; break; case 2: t[1] = 0.75f; break; case 3: t[2] = 2.0f; break; case 4: m[0][0][0] = 2.5; break; case 5: m[1][3][2] = 1.5; break; case 6: m[2][2][1] = 0.5; break; case 7: n = 2; break; case 8: m[2][1][1] = 3; break; }
    MatrixFieldMapping::Ptr r(new MatrixFieldMapping); for (int s = 0; s < n; ++s) r->setLocalToWorld(t[s], m[s]); return r;
  }
  float t[3] = {0.0f, 0.5f, 1.0f}; double nearP[3] = {1, 1, 1}, tx[3] = {0.25, 2, 4}, ctx[3] = {0.25, 2, 4}; int n = 3; bool uni = false;
  switch (var) { case 1: t[0] = 0.25f; break; case 2: t[1] = 0.75f; break; case 3: t[2] = 2.0f; break; case 4: nearP[0] = 2; break; case 5: tx[1] = 3; break; case 6: ctx[2] = 5; break; case 7: n = 2; break; case 8: uni = true; break; }
  FrustumFieldMapping::Ptr r(new FrustumFieldMapping); for (int s = 0; s < n; ++s) { M44d ss, cs, u; camAt(nearP[s], 10, tx[s], ss, u); camAt(nearP[s], 10, ctx[s], u, cs); r->setTransforms(t[s], ss, cs); }
  if (uni) r->setZDistribution(FrustumFieldMapping::UniformDistribution); return r;
}
static void twins(Ctx &c) {
  bool ogawa = c.flag(); int cls = c.choose(2), a = c.choose(TWINS), b = c.choose(TWINS); std::string lab = VS() << (cls ? "frustum" : "matrix") << " (" << fmtName(ogawa) << ")"; TmpFile tf(c);
  c.log(VS() << lab << " variants " << a << " and " << b); int v[2] = {a, b};
  auto mk = [&](int i) { FieldRes::Ptr f = field(MapSpec{0, 0, ""}, ST_DENSE, i, box(0, 0, 0, 2, 2, 2)); f->setMapping(twin(cls, v[i])); return f; };
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", ""); for (int i = 0; i < 2; ++i) { VPCHECK(c, writeAny(out, TY_V3F, "p", VS() << "l" << i, mk(i)), "write fails: " + lab, ""); c.step(); } }
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails: " + lab, "");
  for (int i = 0; i < 2; ++i) { FList r = readAny(in, TY_V3F, 0, VS() << "l" << i); VPCHECK(c, r.size() == 1 && r[0]->mapping(), "layer is not read back once: " + lab, VS() << r.size());
    std::string d = diffMapping(mk(i)->mapping().get(), r[0]->mapping().get()); VPCHECK(c, d.empty(), "nearly equal mappings are taken for equal: " + lab, VS() << "variants " << a << " and " << b << ", layer " << i << ": " << d);
    MatrixFieldMapping::Ptr m0 = field_dynamic_cast<MatrixFieldMapping>(mk(i)->mapping()), m1 = field_dynamic_cast<MatrixFieldMapping>(r[0]->mapping());
    for (float t = -0.5f; m0 && t < 2.5f; t += 0.125f) { V3d x, y; m0->localToWorld(V3d(1, 2, 3), x, t); m1->localToWorld(V3d(1, 2, 3), y, t); VPCHECK(c, (x - y).length() == 0, "nearly equal mappings are taken for equal: " + lab, VS() << "variants " << a << " and " << b << ", layer " << i << " at time " << t); } c.step(); }
  c.state(((cls * TWINS + a) * TWINS + b) * 2 + ogawa);
}
// the field's own mapping object is modified between two writes
static void mutated(Ctx &c) {
  bool ogawa = c.flag(); int a = c.choose(4), how = c.choose(4); std::string lab = fmtName(ogawa); TmpFile tf(c); Box3i e = box(0, 0, 0, 2, 2, 2);
  static std::vector<MapSpec> fam = {{1, 1, "matrix"}, {1, 6, "matrix tv"}, {2, 0, "frustum"}, {2, 3, "frustum tv"}};
  FieldRes::Ptr f = field(fam[a], ST_DENSE, 0, e); FieldMapping::Ptr first, second;
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", "");
    VPCHECK(c, writeAny(out, TY_V3F, "p", "l0", f), "write fails: " + lab, ""); first = f->mapping()->clone(); c.step();
    static const char *hn[] = {"transform changed", "sample added", "resized", "distribution changed or identity"};
    FieldMapping::Ptr m = f->mapping(); MatrixFieldMapping::Ptr mm = field_dynamic_cast<MatrixFieldMapping>(m); FrustumFieldMapping::Ptr fm2 = field_dynamic_cast<FrustumFieldMapping>(m); M44d ss, cs; camAt(2, 20, 5, ss, cs);
    c.log(fam[a].label + " " + hn[how]);
    switch (how) {
    case 0: if (mm) mm->setLocalToWorld(mat(5, 6, 7, 8, 9, 10)); else fm2->setTransforms(ss, cs); break;
    case 1: if (mm) mm->setLocalToWorld(3.0f, mat(5, 6, 7, 8, 9, 10)); else fm2->setTransforms(3.0f, ss, cs); break;
    case 2: field_dynamic_cast<DenseField<V3f> >(f)->setSize(box(0, 0, 0, 4, 1, 1)); field_dynamic_cast<DenseField<V3f> >(f)->clear(V3f(2)); break;
    case 3: if (mm) mm->makeIdentity(); else fm2->setZDistribution(FrustumFieldMapping::UniformDistribution); break;
    }
    second = f->mapping()->clone();
    VPCHECK(c, writeAny(out, TY_V3F, "p", "l1", f), "write fails: " + lab, ""); c.step(); }
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails: " + lab, "");
  for (int i = 0; i < 2; ++i) { FList r = readAny(in, TY_V3F, 0, i ? "l1" : "l0"); VPCHECK(c, r.size() == 1, "layer is not read back: " + lab, VS() << r.size()); VPCHECK(c, r[0]->mapping(), "mapping lost: " + lab, "");
    std::string d = diffMapping((i ? second : first).get(), r[0]->mapping().get()); VPCHECK(c, d.empty(), VS() << "mapping of the " << (i ? "second" : "first") << " layer, written after its mapping was changed in place (" << fmtName(ogawa) << ")", d); }
  c.state(a * 16 + how * 2 + ogawa);
}
void vp::registerScenarios(bool th) {
  quietInit();
  scenario("one layer", one, opt(false, 3));
  scenario("shared partitions", [=](Ctx &c) { many(c, th); }, opt(false, 4));
  scenario("nearly equal mappings", twins, opt(false, 4));
  scenario("mapping changed between writes", mutated, opt(false, 3));
}
