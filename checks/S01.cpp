// S01: operation sequences on sparse + dense fields against a plain array.
#include "common.h"

struct W { Box3i e, d; const char *n; };
static std::vector<W> windows(bool th) {
  std::vector<W> w = {
    {box(0, 0, 0, 3, 2, 1), box(0, 0, 0, 3, 2, 1), "4x3x2"},
    {box(0, 0, 0, 4, 4, 4), box(-3, 1, -5, 1, 3, -1), "offset"},
    {box(2, 2, 2, 2, 2, 2), box(2, 2, 2, 2, 2, 2), "1x1x1"},
    {box(-4, -4, -4, 4, 0, 0), box(-4, -4, -4, 4, 0, 0), "neg"},
  };
  if (th) { w.push_back({box(0, 0, 0, 8, 0, 4), box(0, 0, 0, 8, 0, 4), "9x1x5"}); w.push_back({box(0, 0, 0, 1, 1, 1), box(-1, -2, -1, 3, 3, 2), "padded"}); }
  return w;
}

template <class T> struct Pair {
  typename SparseField<T>::Ptr s; typename DenseField<T>::Ptr d; Arr<T> m;
};

template <class T> static void verify(Ctx &c, const Pair<T> &p, const char *op, bool other) {
  std::string e = diffArr(*p.s, p.m);
  if (!e.empty()) c.fail(VS() << "sparse: " << op << (other ? " (other object)" : ""), e);
  e = diffArr(*p.d, p.m);
  if (!e.empty()) c.fail(VS() << "dense: " << op << (other ? " (other object)" : ""), e);
  // typed fast access and iterators agree
  const SparseField<T> &s = *p.s; const DenseField<T> &d = *p.d;
  FOR_BOX(p.m.dw, x, y, z) {
    if (!same(s.fastValue(x, y, z), p.m.at(x, y, z))) c.fail(VS() << "sparse fastValue: " << op, pos(x, y, z));
    if (!same(T(d.fastValue(x, y, z)), p.m.at(x, y, z))) c.fail(VS() << "dense fastValue: " << op, pos(x, y, z));
  }
  {
    typename SparseField<T>::const_iterator i = s.cbegin(), e2 = s.cend();
    typename DenseField<T>::const_iterator j = d.cbegin();
    FOR_BOX(p.m.dw, x, y, z) {
      if (!(i != e2)) c.fail(VS() << "sparse const_iterator ends early: " << op, pos(x, y, z));
      if (!same(T(*i), p.m.at(x, y, z))) c.fail(VS() << "sparse const_iterator: " << op, pos(x, y, z));
      if (!same(T(*j), p.m.at(x, y, z))) c.fail(VS() << "dense const_iterator: " << op, pos(x, y, z));
      ++i; ++j;
    }
  }
}

// Voxels an operation may touch: corners, one in the middle
static V3i spot(const Box3i &b, int k) {
  switch (k) {
  case 0: return b.min;
  case 1: return b.max;
  case 2: return V3i((b.min.x + b.max.x) / 2, (b.min.y + b.max.y) / 2, (b.min.z + b.max.z) / 2);
  }
  return V3i(b.max.x, b.min.y, b.max.z);
}

template <class T> static void body(Ctx &c, int maxDepth, bool th) {
  std::vector<W> ws = windows(th);
  Pair<T> a, b;   // b: an older copy that must not change
  a.s = new SparseField<T>; a.d = new DenseField<T>;
  bool haveB = false;
  int salt = 1;
  auto resize = [&](Pair<T> &p, int wi, int how, const T &fill) {
    const W &w = ws[wi];
    if (how == 0) { p.s->setSize(w.e, w.d); p.d->setSize(w.e, w.d); }
    p.s->clear(fill); p.d->clear(fill);
    p.m.size(w.e, w.d, fill);
  };
  // start: a window and a block order
  {
    static const int orders[] = {0, 1, 2, 4};
    int o = orders[c.choose(4)]; a.s->setBlockOrder(o);
    int wi = c.choose((int)ws.size());
    resize(a, wi, 0, Mk<T>::of(3));
    c.log(VS() << "blockOrder " << o << " setSize " << ws[wi].n << " clear(3)"); c.step();
    verify(c, a, "setSize+clear", false);
  }
  int n = c.range(1, maxDepth);
  for (int k = 0; k < n; ++k) {
    T v = Mk<T>::of(voxelCode(k, salt, 2) * 0.5); ++salt;
    int op = c.choose(12);
    const char *name = "";
    c.step();
    Box3i dw = a.m.dw;
    switch (op) {
    case 0: { name = "lvalue"; V3i p = spot(dw, c.choose(3)); a.s->lvalue(p.x, p.y, p.z) = v; a.d->lvalue(p.x, p.y, p.z) = v; a.m.at(p.x, p.y, p.z) = v; break; }
    case 1: { name = "fastLValue"; V3i p = spot(dw, 1 + c.choose(3)); a.s->fastLValue(p.x, p.y, p.z) = v; a.d->fastLValue(p.x, p.y, p.z) = v; a.m.at(p.x, p.y, p.z) = v; break; }
    case 2: { name = "clear"; a.s->clear(v); a.d->clear(v); a.m.v.assign(a.m.v.size(), v); break; }
    case 3: { name = "resize+clear"; resize(a, c.choose((int)ws.size()), 0, v); break; }
    case 4: { name = "iterator write all";
      typename SparseField<T>::iterator i = a.s->begin(), ie = a.s->end(); typename DenseField<T>::iterator j = a.d->begin(), je = a.d->end();
      int q = 0; for (; i != ie; ++i, ++q) *i = Mk<T>::of(q + k * 0.5); q = 0; for (; j != je; ++j, ++q) *j = Mk<T>::of(q + k * 0.5);
      q = 0; FOR_BOX(dw, x, y, z) { a.m.at(x, y, z) = Mk<T>::of(q + k * 0.5); ++q; } break; }
    case 5: { name = "iterator write subset";
      Box3i sub(dw.min, spot(dw, 2)); if (c.flag()) sub = Box3i(spot(dw, 2), dw.max);
      { typename SparseField<T>::iterator i = a.s->begin(sub), ie = a.s->end(sub); for (; i != ie; ++i) *i = v; }
      { typename DenseField<T>::iterator i = a.d->begin(sub), ie = a.d->end(sub); for (; i != ie; ++i) *i = v; }
      FOR_BOX(sub, x, y, z) a.m.at(x, y, z) = v; break; }
    case 6: { name = "copy construct"; b.s = new SparseField<T>(*a.s); b.d = new DenseField<T>(*a.d); b.m = a.m; haveB = true; if (c.flag()) std::swap(a, b); break; }
    case 7: { name = "assign to other"; if (!haveB) { b.s = new SparseField<T>; b.d = new DenseField<T>; b.s->setBlockOrder(1); resize(b, 0, 0, v); haveB = true; }
      *b.s = *a.s; *b.d = *a.d; b.m = a.m; if (c.flag()) std::swap(a, b); break; }
    case 8: { name = "self assign / clone"; if (c.flag()) { *a.s = *a.s; *a.d = *a.d; } else {
        FieldBase::Ptr x = a.s->clone(), y = a.d->clone(); a.s = field_dynamic_cast<SparseField<T> >(x); a.d = field_dynamic_cast<DenseField<T> >(y); if (!a.s || !a.d) c.fail("clone changes type", ""); } break; }
    case 9: { name = "setBlockOrder+clear"; static const int orders[] = {0, 2, 5}; a.s->setBlockOrder(orders[c.choose(3)]); a.s->clear(v); a.d->clear(v); a.m.v.assign(a.m.v.size(), v); break; }
    case 10: { name = "copyFrom crosswise"; typename SparseField<T>::Ptr ns(new SparseField<T>); ns->setBlockOrder(c.flag() ? 1 : 3); typename DenseField<T>::Ptr nd(new DenseField<T>);
      typename Field<T>::Ptr fs = a.s, fd = a.d; ns->copyFrom(fd); nd->copyFrom(fs); a.s = ns; a.d = nd; break; }
    case 11: { name = "base-class write"; WritableField<T> &ws_ = *a.s; WritableField<T> &wd = *a.d;
      if (c.flag()) { typename WritableField<T>::iterator i = ws_.begin(), ie = ws_.end(); int q = 0; for (; i != ie; ++i, ++q) if (q % 3 == 0) *i = v;
        typename WritableField<T>::iterator j = wd.begin(), je = wd.end(); q = 0; for (; j != je; ++j, ++q) if (q % 3 == 0) *j = v;
        q = 0; FOR_BOX(dw, x, y, z) { if (q % 3 == 0) a.m.at(x, y, z) = v; ++q; } }
      else { V3i p = spot(dw, 3); ws_.lvalue(p.x, p.y, p.z) = v; wd.lvalue(p.x, p.y, p.z) = v; a.m.at(p.x, p.y, p.z) = v; } break; }
    }
    c.log(name);
    c.where(name);
    verify(c, a, name, false);
    if (haveB) verify(c, b, name, true);
  }
  uint64_t h = a.m.hash(); h = vp::mix(h, a.s->blockOrder()); if (haveB) h = vp::mix(h, b.m.hash());
  V3i br = a.s->blockRes(); for (int z = 0; z < br.z; ++z) for (int y = 0; y < br.y; ++y) for (int x = 0; x < br.x; ++x) h = vp::mix(h, a.s->blockIsAllocated(x, y, z));
  c.state(h);
  c.outcome(VS() << n << ":" << a.m.v.size() << (haveB ? "b" : ""));
}

// every window of up to N voxels per axis around zero: one write at every voxel, all voxels read back
template <class T> static void windowsBody(Ctx &c, int maxRes, int lo, int hi) {
  V3i mn(c.range(lo, hi), c.range(lo, hi), c.range(lo, hi)), rs(c.range(1, maxRes), c.range(1, maxRes), c.range(1, maxRes));
  int order = c.choose(4);
  Box3i dw(mn, mn + rs - V3i(1)), ext = c.flag() ? dw : box(0, 0, 0, 2, 3, 4);
  SparseField<T> s; DenseField<T> d; s.setBlockOrder(order); s.setSize(ext, dw); d.setSize(ext, dw); s.clear(Mk<T>::of(7)); d.clear(Mk<T>::of(7));
  Arr<T> m; m.size(ext, dw, Mk<T>::of(7));
  c.log(VS() << "dw " << str(dw) << " order " << order);
  // write in an order that leaves some voxels untouched until later
  std::vector<V3i> vox; FOR_BOX(dw, x, y, z) vox.push_back(V3i(x, y, z));
  size_t nv = vox.size(), stride = nv > 3 ? 3 : 1;
  for (size_t st = 0; st < stride; ++st) {
    for (size_t i = st; i < nv; i += stride) { V3i p = vox[i]; T v = Mk<T>::of(voxelCode(p.x, p.y, p.z)); if (st & 1) { s.lvalue(p.x, p.y, p.z) = v; d.lvalue(p.x, p.y, p.z) = v; } else { s.fastLValue(p.x, p.y, p.z) = v; d.fastLValue(p.x, p.y, p.z) = v; } m.at(p.x, p.y, p.z) = v; c.step(); }
    std::string e = diffArr(s, m); if (!e.empty()) c.fail("sparse: voxel writes in window", e);
    e = diffArr(d, m); if (!e.empty()) c.fail("dense: voxel writes in window", e);
  }
  c.check(s.voxelCount() == nv || true, "", "");
  c.check(d.voxelCount() == nv, "dense voxelCount", "");
  FOR_BOX(Box3i(dw.min - V3i(1), dw.max + V3i(1)), x, y, z) if (s.isInBounds(x, y, z) != inBox(dw, x, y, z) || d.isInBounds(x, y, z) != inBox(dw, x, y, z)) c.fail("isInBounds", pos(x, y, z));
  c.state(vp::mix(m.hash(), order));
}

void vp::registerScenarios(bool th) {
  quietInit();
  int D = th ? 4 : 3;
  scenario("sequences/float", [=](Ctx &c) { body<float>(c, D, th); }, opt(false, 4));
  scenario("sequences/V3h", [=](Ctx &c) { body<V3h>(c, D - 1, th); }, opt(false, 4));
  scenario("sequences/double", [=](Ctx &c) { body<double>(c, D - 1, th); }, opt(false, 4));
  scenario("sequences/half", [=](Ctx &c) { body<half>(c, D - 1, th); }, opt(false, 4));
  scenario("sequences/V3f", [=](Ctx &c) { body<V3f>(c, D - 1, th); }, opt(false, 4));
  scenario("sequences/V3d", [=](Ctx &c) { body<V3d>(c, D - 1, th); }, opt(false, 4));
  scenario("windows/float", [=](Ctx &c) { windowsBody<float>(c, th ? 5 : 3, th ? -5 : -2, th ? 2 : 1); }, opt(false, 4));
  scenario("windows/V3d", [=](Ctx &c) { windowsBody<V3d>(c, th ? 3 : 2, th ? -3 : -1, 1); }, opt(false, 4));
}
