// S05: MAC fields: independent faces, averages, conversions.
#include "common.h"
#include "Field3D/MACFieldUtil.h"

template <class T> struct MM {   // model: three face arrays
  typedef typename T::BaseType R; Box3i ext, dw; Arr<R> f[3];
  void size(const Box3i &e, const Box3i &d) { ext = e; dw = d; for (int a = 0; a < 3; ++a) { Box3i b = d; b.max[a] += 1; f[a].size(b, b, R(0)); } }
  uint64_t hash() const { return vp::mix(f[0].hash(), vp::mix(f[1].hash(), f[2].hash())); }
};
template <class T> static typename T::BaseType face(const MACField<T> &m, int a, int x, int y, int z) { return a == 0 ? m.u(x, y, z) : a == 1 ? m.v(x, y, z) : m.w(x, y, z); }
template <class T> static typename T::BaseType &face(MACField<T> &m, int a, int x, int y, int z) { return a == 0 ? m.u(x, y, z) : a == 1 ? m.v(x, y, z) : m.w(x, y, z); }
template <class T> static void verify(Ctx &c, const MACField<T> &f, const MM<T> &m, const std::string &op) {
  typedef typename T::BaseType R;
  VPCHECK(c, f.extents() == m.ext && f.dataWindow() == m.dw, "extents: " + op, str(f.dataWindow()));
  V3i s = sizeOf(m.dw), cs = f.getComponentSize();
  VPCHECK(c, cs == V3i((s.x + 1) * s.y * s.z, s.x * (s.y + 1) * s.z, s.x * s.y * (s.z + 1)), "component sizes: " + op, str(cs));
  for (int a = 0; a < 3; ++a) FOR_BOX(m.f[a].dw, x, y, z) if (!same(face(f, a, x, y, z), m.f[a].at(x, y, z))) c.fail(VS() << "face " << "uvw"[a] << ": " << op, VS() << pos(x, y, z) << " is " << str(face(f, a, x, y, z)) << " expected " << str(m.f[a].at(x, y, z)));
  FOR_BOX(m.dw, x, y, z) {
    T v = f.value(x, y, z);
    double e[3]; for (int a = 0; a < 3; ++a) { V3i n(x, y, z); n[a] += 1; e[a] = ((double)m.f[a].at(x, y, z) + (double)m.f[a].at(n.x, n.y, n.z)) * 0.5; }
    R ce[3] = {f.uCenter(x, y, z), f.vCenter(x, y, z), f.wCenter(x, y, z)};
    for (int a = 0; a < 3; ++a) { if ((double)v[a] != (double)R(e[a])) c.fail("cell value: " + op, VS() << pos(x, y, z) << " axis " << a << " is " << (double)v[a] << " expected " << e[a]); if ((double)ce[a] != (double)R(e[a])) c.fail("cell centre: " + op, pos(x, y, z)); }
  }
}
struct W { Box3i e, d; };
template <class T> static void seq(Ctx &c, int depth) {
  typedef typename T::BaseType R;
  std::vector<W> ws = {{box(0, 0, 0, 1, 2, 0), box(0, 0, 0, 1, 2, 0)}, {box(0, 0, 0, 1, 1, 1), box(-2, 1, -1, -1, 1, 1)}, {box(3, 3, 3, 3, 3, 3), box(3, 3, 3, 3, 3, 3)}};
  typename MACField<T>::Ptr f(new MACField<T>); MM<T> m; int salt = 0;
  auto clear = [&](double q) { T v = Mk<T>::of(q); f->clear(v); for (int a = 0; a < 3; ++a) m.f[a].v.assign(m.f[a].v.size(), v[a]); };
  const W &w0 = ws[c.choose(3)]; f->setSize(w0.e, w0.d); m.size(w0.e, w0.d); clear(1); c.step(); verify(c, *f, m, "setSize+clear");
  int n = c.range(1, depth);
  for (int k = 0; k < n; ++k) {
    std::string op; R v = Mk<R>::of(++salt * 2 + 1); c.step();
    switch (c.choose(7)) {
    case 0: { int a = c.choose(3); op = "face write"; V3i p = c.flag() ? m.f[a].dw.min : m.f[a].dw.max; face(*f, a, p.x, p.y, p.z) = v; m.f[a].at(p.x, p.y, p.z) = v; break; }
    case 1: { int a = c.choose(3); op = "component iterator write"; int q = 0; for (typename MACField<T>::mac_comp_iterator i = f->begin_comp((MACComponent)a), e = f->end_comp((MACComponent)a); i != e; ++i) *i = R(++q + salt); q = 0; FOR_BOX(m.f[a].dw, x, y, z) m.f[a].at(x, y, z) = R(++q + salt); break; }
    case 2: op = "clear"; clear(salt); break;
    case 3: { op = "resize+clear"; const W &w = ws[c.choose(3)]; f->setSize(w.e, w.d); m.size(w.e, w.d); clear(salt + 3); break; }
    case 4: { op = "copyMAC"; typename MACField<T>::Ptr g(new MACField<T>); if (c.flag()) { g->setSize(V3i(4, 1, 2)); g->clear(Mk<T>::of(7)); } g->copyMAC(f); f->clear(Mk<T>::of(99)); f = g; break; }
    case 5: { op = "copy"; typename MACField<T>::Ptr g(new MACField<T>(*f)); f->clear(Mk<T>::of(98)); f = g; break; }
    case 6: { op = "assign/clone"; typename MACField<T>::Ptr g; if (c.flag()) { g = new MACField<T>; *g = *f; } else g = field_dynamic_cast<MACField<T> >(f->clone()); f->clear(Mk<T>::of(97)); f = g; break; }
    }
    c.log(op); c.where(op); verify(c, *f, m, op);
  }
  c.state(m.hash());
}

// -------- conversions
template <class F> static void convert(Ctx &c, bool th) {
  typedef typename F::value_type T; typedef typename T::BaseType R;
  std::vector<W> ws = {{box(0, 0, 0, 1, 2, 0), box(0, 0, 0, 1, 2, 0)}, {box(0, 0, 0, 2, 2, 2), box(-1, 1, -2, 1, 2, 0)}, {box(3, 3, 3, 3, 3, 3), box(3, 3, 3, 3, 3, 3)}};
  const W &w = ws[c.choose(3)];
  // mapping: none, translate+scale, rotation about one axis, compound rotation, frustum
  int mk = c.choose(5); FieldMapping::Ptr map;
  if (mk == 0) map = makeMapping(MK_DEFAULT);
  else if (mk == 4) map = makeMapping(MK_FRUST);
  else { M44d r; if (mk == 2) r.setEulerAngles(V3d(0, 0, M_PI / 2)); if (mk == 3) r.setEulerAngles(V3d(0.7, -0.4, 1.1)); M44d s; s.setScale(V3d(2, 2, 2)); M44d t; t.setTranslation(V3d(1, 2, 3)); MatrixFieldMapping::Ptr mm(new MatrixFieldMapping); mm->setLocalToWorld(s * r * t); map = mm; }
  static const char *mn[] = {"identity", "scale", "axis rotation", "compound rotation", "frustum"};
  M44d rot; // expected rotation simulation -> world
  if (mk == 2) rot.setEulerAngles(V3d(0, 0, M_PI / 2)); if (mk == 3) rot.setEulerAngles(V3d(0.7, -0.4, 1.1));
  bool presized = c.flag();   // target already has the right (or a wrong) size and old contents
  int dir = c.choose(2), constant = c.choose(2);
  c.log(VS() << "mapping " << mn[mk] << " dir " << dir << " constant " << constant);
  typename MACField<T>::Ptr mac(new MACField<T>); typename F::Ptr cc(new F);
  double tol = mk >= 2 ? (sizeof(R) == 2 ? 0.02 : 1e-5) : 0;
  auto near = [&](double a, double b) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); };
  std::string lab = VS() << mn[mk];
  if (dir == 0) {   // MAC -> cell centred
    mac->setSize(w.e, w.d); mac->setMapping(map);
    for (int a = 0; a < 3; ++a) { Box3i b = w.d; b.max[a] += 1; FOR_BOX(b, x, y, z) face(*mac, a, x, y, z) = constant ? Mk<R>::of(a * 2 + 1) : Mk<R>::of((int)voxelCode(x, y, z, a) % 64); }
    if (presized) { cc->setSize(c.flag() ? w.d : w.e, w.d); cc->clear(Mk<T>::of(50)); }
    convertMACToCellCentered<T, F>(mac, cc); c.step();
    VPCHECK(c, cc->extents() == w.e && cc->dataWindow() == w.d, "MAC->cell: extents", str(cc->extents()));
    FieldRes::Ptr fr = cc; std::string d = diffMapping(mac->mapping().get(), fr->mapping().get()); VPCHECK(c, d.empty(), "MAC->cell: mapping " + lab, d);
    FOR_BOX(w.d, x, y, z) { V3d e; for (int a = 0; a < 3; ++a) { V3i n(x, y, z); n[a] += 1; e[a] = R(((double)face(*mac, a, x, y, z) + (double)face(*mac, a, n.x, n.y, n.z)) * 0.5); }
      V3d q; rot.multDirMatrix(e, q); T g = cc->value(x, y, z);
      for (int a = 0; a < 3; ++a) if (!near(g[a], q[a])) c.fail("MAC->cell: value, mapping " + lab, VS() << pos(x, y, z) << " is " << str(g) << " expected " << str(q)); }
  } else {
    cc->setSize(w.e, w.d); cc->setMapping(map);
    FOR_BOX(w.d, x, y, z) cc->lvalue(x, y, z) = constant ? T(1, 3, 5) : T((int)voxelCode(x, y, z, 0) % 64, (int)voxelCode(x, y, z, 1) % 64, (int)voxelCode(x, y, z, 2) % 64);
    if (presized) { mac->setSize(c.flag() ? w.d : w.e, w.d); mac->clear(Mk<T>::of(50)); }
    convertCellCenteredToMAC<F, T>(cc, mac); c.step();
    VPCHECK(c, mac->extents() == w.e && mac->dataWindow() == w.d, "cell->MAC: extents", str(mac->extents()));
    FieldRes::Ptr fr = cc; std::string d = diffMapping(fr->mapping().get(), mac->mapping().get()); VPCHECK(c, d.empty(), "cell->MAC: mapping " + lab, d);
    M44d inv = rot.inverse();
    for (int a = 0; a < 3; ++a) { Box3i b = w.d; b.max[a] += 1; FOR_BOX(b, x, y, z) {
      V3i lo(x, y, z), hi(x, y, z); lo[a] -= 1; if (lo[a] < w.d.min[a]) lo = hi; if (hi[a] > w.d.max[a]) hi = lo;
      V3d p, q; T tl = cc->value(lo.x, lo.y, lo.z), th_ = cc->value(hi.x, hi.y, hi.z); inv.multDirMatrix(V3d(tl), p); inv.multDirMatrix(V3d(th_), q);
      double e = (p[a] + q[a]) * 0.5, g = face(*mac, a, x, y, z);
      if (!near(g, R(e))) c.fail(VS() << "cell->MAC: value, mapping " << lab, VS() << "axis " << a << " face " << pos(x, y, z) << " is " << g << " expected " << e); } }
    // there and back: a constant field comes back unchanged
    if (constant) { typename F::Ptr back(new F); convertMACToCellCentered<T, F>(mac, back); FOR_BOX(w.d, x, y, z) { T g = back->value(x, y, z), o = cc->value(x, y, z); for (int a = 0; a < 3; ++a) if (!near(g[a], o[a])) c.fail("cell->MAC->cell of a constant field, mapping " + lab, VS() << str(g) << " expected " << str(o)); } }
  }
  c.state(vp::mix(vp::mix(vp::mix(vp::hashBytes(&w, sizeof w), mk), presized * 4 + dir * 2 + constant), sizeof(T)));
}
void vp::registerScenarios(bool th) {
  quietInit();
  int D = th ? 5 : 4;
  scenario("sequences/V3f", [=](Ctx &c) { seq<V3f>(c, D); }, opt(false, 4));
  scenario("sequences/V3h", [=](Ctx &c) { seq<V3h>(c, D - 1); }, opt(false, 4));
  scenario("sequences/V3d", [=](Ctx &c) { seq<V3d>(c, D - 1); }, opt(false, 4));
  scenario("convert/dense V3f", [=](Ctx &c) { convert<DenseField<V3f> >(c, th); }, opt(false, 3));
  scenario("convert/dense V3d", [=](Ctx &c) { convert<DenseField<V3d> >(c, th); }, opt(false, 3));
  scenario("convert/dense V3h", [=](Ctx &c) { convert<DenseField<V3h> >(c, th); }, opt(false, 3));
  scenario("convert/sparse V3f", [=](Ctx &c) { convert<SparseField<V3f> >(c, th); }, opt(false, 3));
}
