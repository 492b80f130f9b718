// F06: typed, converting and proxy reads agree with the stored layer.
#include "fileio.h"
#include "Field3D/Field3DFileHDF5.h"

static std::vector<std::pair<Box3i, Box3i> > windows(bool th) {
  std::vector<std::pair<Box3i, Box3i> > w; w.push_back({box(0, 0, 0, 0, 0, 0), box(0, 0, 0, 0, 0, 0)}); w.push_back({box(0, 0, 0, 4, 2, 1), box(0, 0, 0, 4, 2, 1)}); w.push_back({box(0, 0, 0, 7, 7, 7), box(1, 2, 3, 3, 3, 3)}); w.push_back({box(-3, -5, 1, 2, -2, 2), box(-4, -6, 0, 0, -1, 3)});
  if (th) { w.push_back({box(2, 0, 0, 2, 8, 0), box(2, 0, 0, 2, 8, 0)}); w.push_back({box(0, 0, 0, 1, 1, 1), box(-9, -9, -9, -9, -8, -9)}); w.push_back({box(-1, -1, -1, -1, -1, -1), box(0, 0, 0, 4, 4, 4)}); }
  return w;
}
// the cell value stored at a voxel
template <class T> std::string diffValues(const Field<T> &want, const Field<T> &got) {
  if (want.extents() != got.extents()) return "extents"; if (want.dataWindow() != got.dataWindow()) return "data window";
  FOR_BOX(want.dataWindow(), x, y, z) if (!same(want.value(x, y, z), got.value(x, y, z))) return VS() << "voxel " << pos(x, y, z) << ": " << str(want.value(x, y, z)) << " became " << str(got.value(x, y, z));
  return "";
}
static std::string diffMapping(const FieldRes &a, const FieldRes &b) {
  for (double t : {0.0, 0.5, 1.0}) for (int i = 0; i < 4; ++i) { V3d v(i * 1.5 - 1, i & 1 ? 2.25 : -0.5, i * 0.75), p, q; a.mapping()->voxelToWorld(v, p, t); b.mapping()->voxelToWorld(v, q, t); if (!(p == q)) return VS() << "mapping: " << p << " became " << q; }
  return a.mapping()->className() == b.mapping()->className() ? "" : "mapping class";
}
static bool usable(const Spec &s, bool ogawa) { return !(s.st == ST_MAC && (s.ty < TY_V3H || ogawa)); }
static void typed(Ctx &c, bool th) {
  bool ogawa = c.flag(); Spec a, b; a.st = c.choose(ST_COUNT); a.ty = c.choose(TY_COUNT); b.ty = c.choose(TY_COUNT); b.st = th ? c.choose(ST_COUNT) : (int)ST_DENSE; if (!usable(a, ogawa) || !usable(b, ogawa)) c.prune(); a.e = a.d = box(0, 0, 0, 2, 1, 1); b.e = b.d = box(0, 0, 0, 1, 1, 0); a.content = b.content = CO_VARY; b.salt = 9; bool sameName = c.flag(); b.attr = sameName ? a.attr : "other"; int map = c.flag() ? MK_MAT : MK_DEFAULT; a.map = map;
  std::string l = VS() << " (" << fmtName(ogawa) << ")"; TmpFile tf(c); FieldRes::Ptr f = mkField(a), g = mkField(b); c.log(a.full() + " / " + b.full());
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", ""); VPCHECK(c, writeAny(out, a.ty, a.name, a.attr, f) && writeAny(out, b.ty, b.name, b.attr, g), "write fails" + l, ""); }
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails" + l, "");
  for (int ty = 0; ty < TY_COUNT; ++ty) for (int how = 0; how < 3; ++how) { FList r = how == 0 ? readAny(in, ty, 0, "") : how == 1 ? readAny(in, ty, 0, a.attr) : readAny(in, ty, &a.name, a.attr, true); size_t want = (ty == a.ty) + (ty == b.ty && (how == 0 || sameName));
    VPCHECK(c, r.size() == want, VS() << "reading with one voxel type returns the wrong number of layers" << l, VS() << tyName(ty) << ": " << r.size() << " instead of " << want);
    for (auto &x : r) { bool ok = (ty == a.ty && diffAny(ty, f.get(), x.get()).empty()) || (ty == b.ty && diffAny(ty, g.get(), x.get()).empty()); VPCHECK(c, ok, "a typed read returns other contents" + l, tyName(ty)); } c.step(); }
  c.state(vp::mix(vp::mix(a.st * 8 + a.ty, b.ty * 8 + b.st), ogawa * 4 + sameName * 2 + (map == MK_MAT)));
}
template <class T, template <class> class F> typename F<T>::Vec readAs(Field3DInputFileHDF5 &in, int how, const Spec &s, std::integral_constant<int, 0>) { return how ? in.readScalarLayersAs<F, T>(s.name, s.attr) : in.readScalarLayersAs<F, T>(s.attr); }
template <class T, template <class> class F> typename F<T>::Vec readAs(Field3DInputFileHDF5 &in, int how, const Spec &s, std::integral_constant<int, 1>) { typedef typename IsVec<T>::scalar S; return how ? in.readVectorLayersAs<F, S>(s.name, s.attr) : in.readVectorLayersAs<F, S>(s.attr); }
template <class T, template <class> class F> void convert1(Ctx &c, const Spec &s, bool ogawa, int how, const std::string &file, FieldRes::Ptr orig, const std::string &l) {
  typename F<T>::Ptr got; typename Field<T>::Ptr o = field_dynamic_cast<Field<T> >(orig);
  if (!ogawa && how < 2) { Field3DInputFileHDF5 in; VPCHECK(c, in.open(file), "open fails" + l, ""); typename F<T>::Vec v = readAs<T, F>(in, how, s, std::integral_constant<int, IsVec<T>::v>()); VPCHECK(c, v.size() == 1, "converting read returns the wrong number of layers" + l, VS() << v.size()); got = v[0]; }
  else { Field3DInputFile in; VPCHECK(c, in.open(file), "open fails" + l, ""); typename Field<T>::Vec v = in.readLayers<T>(s.attr); VPCHECK(c, v.size() == 1, "layer is not read" + l, ""); got = typename F<T>::Ptr(new F<T>); 
    if (how == 2) { got->setSize(box(1, 1, 1, 2, 2, 2)); got->setMapping(makeMapping(MK_MAT2)); }    // a target that was used before
    got->name = v[0]->name; got->attribute = v[0]->attribute; got->copyMetadata(*v[0]); got->copyFrom(v[0]); }
  std::string d = diffValues<T>(*o, *got); VPCHECK(c, d.empty(), "converted field differs: " + kindVox(d) + l, d); d = diffMapping(*orig, *got); VPCHECK(c, d.empty(), "converted field differs: " + kindOf(d) + l, d); VPCHECK(c, got->name == s.name && got->attribute == s.attr, "converted field has another name" + l, ""); d = diffMetadata(orig->metadata(), got->metadata()); VPCHECK(c, d.empty(), "metadata of converted field differ" + l, d); c.step();
}
static void convert(Ctx &c, bool th) {
  bool ogawa = c.flag(); Spec s; s.st = c.choose(ST_COUNT); s.ty = c.choose(TY_COUNT); if (!usable(s, ogawa)) c.prune(); auto ws = windows(th); auto &w = ws[c.choose(ws.size())]; s.e = w.first; s.d = w.second; if (s.st >= ST_MIPD && s.e != s.d && !inBox(s.e, s.d.min.x, s.d.min.y, s.d.min.z)) c.prune(); s.content = c.choose(th ? 5 : 3); if (s.content == CO_CHECKER && s.st != ST_SPARSE) c.prune(); s.map = c.pick(std::vector<int>{MK_DEFAULT, MK_MAT, MK_FRUST}); s.meta = true; s.order = th ? c.range(0, 2) : 1; int tgt = c.choose(2), how = c.choose(3);
  std::string l = VS() << " (" << stName(s.st) << " as " << (tgt ? "Sparse" : "Dense") << ", " << fmtName(ogawa) << ")"; TmpFile tf(c); FieldRes::Ptr f = mkField(s); c.log(s.full());
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", ""); VPCHECK(c, writeAny(out, s.ty, s.name, s.attr, f), "write fails" + l, ""); }
  withType(s.ty, [&](auto t) { typedef typename decltype(t)::type T; if (tgt) convert1<T, SparseField>(c, s, ogawa, how, tf.p, f, l); else convert1<T, DenseField>(c, s, ogawa, how, tf.p, f, l); return 0; });
  c.state(vp::mix(vp::hashStr(s.full()), ogawa * 8 + tgt * 4 + how));
}
template <class T> void proxyCmp(Ctx &c, const std::vector<FieldRes::Ptr> &want, const std::vector<int> &levels, typename EmptyField<T>::Vec got, const std::string &l) {
  VPCHECK(c, got.size() == want.size(), "wrong number of proxies" + l, VS() << got.size() << " instead of " << want.size()); std::vector<bool> used(want.size());
  for (auto &g : got) { std::string why; bool ok = false; for (size_t i = 0; i < want.size() && !ok; ++i) { if (used[i]) continue; FieldRes &w = *want[i]; std::string d; if (w.extents() != g->extents()) d = "extents"; else if (w.dataWindow() != g->dataWindow()) d = "data window"; else if (w.name != g->name || w.attribute != g->attribute) d = "name"; else if (!(d = diffMapping(w, *g)).empty()) d = kindOf(d); else { FieldMetadata m(0); m = w.metadata(); m.setIntMetadata("mip_levels", levels[i]); if (!diffMetadata(m, g->metadata()).empty()) d = "metadata"; } if (d.empty()) { ok = true; used[i] = true; } else why = d; }
    VPCHECK(c, ok, "proxy differs: " + why + l, g->name + ":" + g->attribute); c.step(); }
}
static void proxies(Ctx &c, bool th) {
  bool ogawa = c.flag(); Spec s; s.st = c.choose(ST_COUNT); s.ty = c.choose(TY_COUNT); if (!usable(s, ogawa)) c.prune(); auto ws = windows(th); auto &w = ws[c.choose(ws.size())]; s.e = w.first; s.d = w.second; if (s.st >= ST_MIPD && s.e != s.d && !inBox(s.e, s.d.min.x, s.d.min.y, s.d.min.z)) c.prune(); s.content = CO_VARY; s.map = c.choose(MK_COUNT); s.meta = c.flag();
  int second = c.choose(4); Spec q = s; q.st = ST_DENSE; q.salt = 4; q.e = q.d = box(0, 0, 0, 3, 0, 0); if (second == 2) q.map = s.map == MK_MAT2 ? MK_MAT : MK_MAT2; if (second == 3) q.attr = "zz"; bool vec = s.ty >= TY_V3H;
  std::string l = VS() << " (" << fmtName(ogawa) << ")"; TmpFile tf(c); std::vector<FieldRes::Ptr> all, by; std::vector<int> lev, levBy; FieldRes::Ptr f = mkField(s), g = second ? mkField(q) : FieldRes::Ptr(); c.log(s.full());
  int levels = s.st < ST_MIPD ? 0 : 0; if (s.st >= ST_MIPD) levels = withType(s.ty, [&](auto t) { typedef typename decltype(t)::type T; if (s.st == ST_MIPD) return (int)field_dynamic_cast<MIPField<DenseField<T> > >(f)->numLevels(); return (int)field_dynamic_cast<MIPField<SparseField<T> > >(f)->numLevels(); });
  all.push_back(f); lev.push_back(levels); by = all; levBy = lev; if (second) { all.push_back(g); lev.push_back(0); if (second != 3) by = all, levBy = lev; }
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", ""); for (auto &x : all) VPCHECK(c, writeAny(out, s.ty, x->name, x->attribute, x), "write fails" + l, ""); }
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails" + l, "");
  proxyCmp<float>(c, by, levBy, in.readProxyLayer<float>(s.name, s.attr, vec), ", by partition and layer" + l); proxyCmp<V3f>(c, by, levBy, in.readProxyLayer<V3f>(s.name, s.attr, vec), ", by partition and layer" + l);
  proxyCmp<float>(c, all, lev, vec ? in.readProxyVectorLayers<float>() : in.readProxyScalarLayers<float>(), ", all" + l); proxyCmp<half>(c, by, levBy, vec ? in.readProxyVectorLayers<half>(s.attr) : in.readProxyScalarLayers<half>(s.attr), ", by layer" + l);
  VPCHECK(c, in.readProxyLayer<float>("nowhere", s.attr, vec).empty() && in.readProxyLayer<float>(s.name, "nothing", vec).empty() && (vec ? in.readProxyVectorLayers<float>("nothing") : in.readProxyScalarLayers<float>("nothing")).empty() && in.readProxyLayer<float>("", "", vec).empty(), "a proxy of a layer that was never written" + l, "");
  if (!ogawa) VPCHECK(c, (vec ? in.readProxyScalarLayers<float>() : in.readProxyVectorLayers<float>()).empty(), "a proxy read returns layers of the other kind" + l, "");
  c.state(vp::mix(vp::hashStr(s.full()), ogawa * 8 + second));
}
void vp::registerScenarios(bool th) {
  quietInit();
  scenario("typed reads", [=](Ctx &c) { typed(c, th); }, opt(false, 4));
  scenario("converting reads", [=](Ctx &c) { convert(c, th); }, opt(false, 4));
  scenario("proxy reads", [=](Ctx &c) { proxies(c, th); }, opt(false, 4));
}
