// S02: iterators over every window and sub-range visit each voxel exactly once.
#include "common.h"
#include "Field3D/EmptyField.h"
#include "Field3D/ProceduralField.h"

// Walks [it, end) and compares with the voxels of the box in x-fastest order.
template <class I, class E, class V> static void walk(Ctx &c, const std::string &who, I it, const E &end, const Box3i &b, V expect) {
  c.where(who);
  V3i s = sizeOf(b); long n = (long)s.x * s.y * s.z, k = 0;
  for (int z = b.min.z; z <= b.max.z; ++z) for (int y = b.min.y; y <= b.max.y; ++y) for (int x = b.min.x; x <= b.max.x; ++x, ++k) {
    if (!(it != end) || it == end) c.fail(who + ": ends early", VS() << "after " << k << " of " << n << " voxels of " << str(b));
    if (it.x != x || it.y != y || it.z != z) c.fail(who + ": wrong coordinates", VS() << "at step " << k << " " << pos(it.x, it.y, it.z) << " expected " << pos(x, y, z) << " in " << str(b));
    auto v = *it; auto e = expect(x, y, z);
    if (!same(v, decltype(v)(e))) c.fail(who + ": wrong value", VS() << pos(x, y, z) << " in " << str(b) << " gives " << str(v) << " expected " << str(e));
    ++it; c.step();
  }
  if (it != end || !(it == end)) c.fail(who + ": does not end at end", str(b));
}
// only the coordinates, never dereferenced (skipping forward must not need dereference)
template <class I, class E, class V> static void walkSkip(Ctx &c, const std::string &who, I it, const E &end, const Box3i &b, int mod, V expect) {
  c.where(who);
  int k = 0;
  FOR_BOX(b, x, y, z) {
    if (!(it != end)) c.fail(who + ": ends early", str(b));
    if (k % mod == mod - 1) { auto v = *it; auto e = expect(x, y, z); if (!same(v, decltype(v)(e))) c.fail(who + ": wrong value", VS() << pos(x, y, z) << " in " << str(b) << " gives " << str(v) << " expected " << str(e)); }
    ++k; ++it; c.step();
  }
  if (it != end) c.fail(who + ": does not end at end", str(b));
}

struct Win { Box3i dw, ext; };
static Win chooseWin(Ctx &c, int maxRes, const std::vector<int> &mins) {
  Win w; int m = c.pick(mins);
  V3i mn(m, -m, m == 0 ? 0 : m + 1), rs(c.range(1, maxRes), c.range(1, maxRes), c.range(1, maxRes));
  w.dw = Box3i(mn, mn + rs - V3i(1)); w.ext = c.flag() ? w.dw : box(0, 0, 0, 1, 2, 3); return w;
}
static Box3i chooseSub(Ctx &c, const Box3i &w) {
  Box3i b;
  for (int a = 0; a < 3; ++a) { b.min[a] = w.min[a] + c.choose(w.max[a] - w.min[a] + 1); b.max[a] = b.min[a] + c.choose(w.max[a] - b.min[a] + 1); }
  return b;
}

template <class T> static void dense(Ctx &c, int maxRes, bool th) {
  Win w = chooseWin(c, maxRes, th ? std::vector<int>{0, -2, 3, 17} : std::vector<int>{0, -2, 3});
  DenseField<T> f; f.setSize(w.ext, w.dw);
  Arr<T> m; m.size(w.ext, w.dw, T());
  FOR_BOX(w.dw, x, y, z) { T v = Mk<T>::of(voxelCode(x, y, z)); f.fastLValue(x, y, z) = v; m.at(x, y, z) = v; }
  auto ex = [&](int x, int y, int z) { return m.at(x, y, z); };
  int part = c.choose(2);
  if (part == 0) {
    walk(c, "dense const_iterator", f.cbegin(), f.cend(), w.dw, ex);
    walk(c, "dense iterator", f.begin(), f.end(), w.dw, ex);
    Field<T> &b = f; WritableField<T> &wf = f;
    walk(c, "Field const_iterator", b.cbegin(), b.cend(), w.dw, ex);
    walk(c, "WritableField iterator", wf.begin(), wf.end(), w.dw, ex);
    // threading granularity: the grains partition the data window
    std::map<std::string, int> seen; size_t cnt = 0;
    for (size_t g = 0; g < f.numGrains(); ++g) { Box3i gb; f.getGrainBounds(g, gb); FOR_BOX(gb, x, y, z) { seen[pos(x, y, z)]++; ++cnt; if (!inBox(w.dw, x, y, z)) c.fail("dense grain outside window", str(gb)); } }
    V3i s = sizeOf(w.dw); if (cnt != (size_t)s.x * s.y * s.z || seen.size() != cnt) c.fail("dense grains do not partition the window", str(w.dw));
  } else {
    Box3i s = chooseSub(c, w.dw);
    walk(c, "dense const_iterator subset", f.cbegin(s), f.cend(s), s, ex);
    walk(c, "dense iterator subset", f.begin(s), f.end(s), s, ex);
    Field<T> &b = f; WritableField<T> &wf = f;
    walk(c, "Field const_iterator subset", b.cbegin(s), b.cend(s), s, ex);
    // writing through the iterators changes exactly the sub-range
    int q = 0; for (typename DenseField<T>::iterator i = f.begin(s), e = f.end(s); i != e; ++i) *i = Mk<T>::of(++q + 0.5);
    q = 0; FOR_BOX(s, x, y, z) m.at(x, y, z) = Mk<T>::of(++q + 0.5);
    std::string d = diffArr(f, m); if (!d.empty()) c.fail("dense iterator writes", d);
    q = 0; for (typename WritableField<T>::iterator i = wf.begin(s), e = wf.end(s); i != e; ++i) *i = Mk<T>::of(++q + 7);
    q = 0; FOR_BOX(s, x, y, z) m.at(x, y, z) = Mk<T>::of(++q + 7);
    d = diffArr(f, m); if (!d.empty()) c.fail("WritableField iterator writes", d);
  }
  c.state(m.hash());
}

template <class T> static void sparse(Ctx &c, int maxRes, bool th) {
  Win w = chooseWin(c, maxRes, th ? std::vector<int>{0, -2, 3, 17} : std::vector<int>{0, -2, 3});
  int order = c.choose(3);
  SparseField<T> f; f.setBlockOrder(order); f.setSize(w.ext, w.dw); f.clear(Mk<T>::of(5));
  Arr<T> m; m.size(w.ext, w.dw, Mk<T>::of(5));
  V3i br = f.blockRes();
  int alloc = c.choose(4);  // none, all, checker, inverse checker
  int bs = 1 << order;
  FOR_BOX(w.dw, x, y, z) {
    int bi = (x - w.dw.min.x) / bs, bj = (y - w.dw.min.y) / bs, bk = (z - w.dw.min.z) / bs;
    bool a = alloc == 1 || (alloc == 2 && ((bi + bj + bk) & 1)) || (alloc == 3 && !((bi + bj + bk) & 1));
    if (a) { T v = Mk<T>::of(voxelCode(x, y, z)); f.fastLValue(x, y, z) = v; m.at(x, y, z) = v; }
  }
  if (alloc == 0 || alloc == 2) // unallocated blocks with distinct empty values
    for (int bk = 0; bk < br.z; ++bk) for (int bj = 0; bj < br.y; ++bj) for (int bi = 0; bi < br.x; ++bi)
      if (!f.blockIsAllocated(bi, bj, bk)) { T v = Mk<T>::of(100 + bi + 4 * bj + 16 * bk); f.setBlockEmptyValue(bi, bj, bk, v);
        FOR_BOX(w.dw, x, y, z) if ((x - w.dw.min.x) / bs == bi && (y - w.dw.min.y) / bs == bj && (z - w.dw.min.z) / bs == bk) m.at(x, y, z) = v; }
  auto ex = [&](int x, int y, int z) { return m.at(x, y, z); };
  const SparseField<T> &cf = f; Field<T> &b = f; WritableField<T> &wf = f;
  int part = c.choose(3);
  if (part == 0) {
    walk(c, "sparse const_iterator", cf.cbegin(), cf.cend(), w.dw, ex);
    walk(c, "Field const_iterator (sparse)", b.cbegin(), b.cend(), w.dw, ex);
    for (int mod = 2; mod <= 5; ++mod) walkSkip(c, "sparse const_iterator skipping", cf.cbegin(), cf.cend(), w.dw, mod, ex);
    // blocks: each one once, bounding boxes tile the window
    std::set<std::string> seen; std::map<std::string, int> cover; long blocks = 0;
    c.where("block_iterator");
    for (typename SparseField<T>::block_iterator i = f.blockBegin(), e = f.blockEnd(); i != e; ++i, ++blocks) {
      if (blocks > 2L * br.x * br.y * br.z + 2) c.fail("block_iterator: does not end", str(w.dw));
      if (!f.blockIndexIsValid(i.x, i.y, i.z)) c.fail("block_iterator: invalid block", pos(i.x, i.y, i.z));
      if (!seen.insert(pos(i.x, i.y, i.z)).second) c.fail("block_iterator: block visited twice", pos(i.x, i.y, i.z));
      Box3i bb = i.blockBoundingBox();
      Box3i want(w.dw.min + V3i(i.x, i.y, i.z) * bs, w.dw.min + V3i(i.x + 1, i.y + 1, i.z + 1) * bs - V3i(1));
      want.max = V3i(std::min(want.max.x, w.dw.max.x), std::min(want.max.y, w.dw.max.y), std::min(want.max.z, w.dw.max.z));
      if (bb != want) c.fail("block_iterator: wrong bounding box", VS() << "block " << pos(i.x, i.y, i.z) << " of size " << bs << " in window " << str(w.dw) << " has box " << str(bb) << " expected " << str(want));
      c.step();
    }
    if (blocks != (long)br.x * br.y * br.z) c.fail("block_iterator: wrong number of blocks", VS() << blocks);
    size_t cnt = 0; std::set<std::string> gs;
    for (size_t g = 0; g < f.numGrains(); ++g) { Box3i gb; f.getGrainBounds(g, gb); FOR_BOX(gb, x, y, z) { gs.insert(pos(x, y, z)); ++cnt; if (!inBox(w.dw, x, y, z)) c.fail("sparse grain outside window", str(gb) + " in " + str(w.dw)); } }
    V3i s = sizeOf(w.dw); if (cnt != (size_t)s.x * s.y * s.z || gs.size() != cnt) c.fail("sparse grains do not partition the window", str(w.dw));
  } else if (part == 1) {
    Box3i s = chooseSub(c, w.dw);
    walk(c, "sparse const_iterator subset", cf.cbegin(s), cf.cend(s), s, ex);
    walkSkip(c, "sparse const_iterator subset skipping", cf.cbegin(s), cf.cend(s), s, 2, ex);
    walk(c, "Field const_iterator subset (sparse)", b.cbegin(s), b.cend(s), s, ex);
  } else {
    // writes; only every k-th voxel is touched so that blocks get allocated on the way
    Box3i s = th ? chooseSub(c, w.dw) : (c.flag() ? w.dw : Box3i(V3i((w.dw.min.x + w.dw.max.x) / 2, w.dw.min.y, w.dw.min.z), w.dw.max));
    if (!w.dw.intersects(s.min)) s = w.dw;
    int mod = c.range(1, 3), generic = c.choose(2);
    c.where("sparse iterator write");
    int q = 0;
    if (!generic) { typename SparseField<T>::iterator i = f.begin(s), e = f.end(s); FOR_BOX(s, x, y, z) { if (!(i != e)) c.fail("sparse iterator: ends early", str(s)); if (i.x != x || i.y != y || i.z != z) c.fail("sparse iterator: wrong coordinates", pos(x, y, z)); if (++q % mod == 0) { *i = Mk<T>::of(q + 0.5); m.at(x, y, z) = Mk<T>::of(q + 0.5); } ++i; c.step(); } if (i != e) c.fail("sparse iterator: does not end at end", str(s)); }
    else { typename WritableField<T>::iterator i = wf.begin(s), e = wf.end(s); FOR_BOX(s, x, y, z) { if (!(i != e)) c.fail("WritableField iterator: ends early", str(s)); if (++q % mod == 0) { *i = Mk<T>::of(q + 0.5); m.at(x, y, z) = Mk<T>::of(q + 0.5); } ++i; c.step(); } if (i != e) c.fail("WritableField iterator: does not end at end", str(s)); }
    std::string d = diffArr(f, m); if (!d.empty()) c.fail(generic ? "WritableField iterator writes (sparse)" : "sparse iterator writes", d);
    // reading iterator created before a block is allocated and used afterwards sees the new values from the next block on
    walk(c, "sparse const_iterator after writes", cf.cbegin(), cf.cend(), w.dw, ex);
  }
  c.state(vp::mix(vp::mix(m.hash(), order), alloc));
}

template <class T> static void mac(Ctx &c, int maxRes) {
  typedef typename T::BaseType R;
  Win w = chooseWin(c, maxRes, {0, -2, 3});
  MACField<T> f; f.setSize(w.ext, w.dw); f.clear(Mk<T>::of(1));
  Arr<R> comp[3];
  for (int a = 0; a < 3; ++a) {
    Box3i fb = w.dw; fb.max[a] += 1; comp[a].size(fb, fb, R());
    FOR_BOX(fb, x, y, z) { R v = Mk<R>::of(voxelCode(x, y, z, a) * (a + 1) * 0.25); comp[a].at(x, y, z) = v; (a == 0 ? f.u(x, y, z) : a == 1 ? f.v(x, y, z) : f.w(x, y, z)) = v; }
  }
  const MACField<T> &cf = f;
  int part = c.choose(2);
  Box3i sub = w.dw; if (part) sub = chooseSub(c, w.dw);
  for (int a = 0; a < 3; ++a) {
    MACComponent mc = (MACComponent)a; Box3i fb = sub; fb.max[a] += 1;
    auto ex = [&](int x, int y, int z) { return comp[a].at(x, y, z); };
    std::string nm = std::string("MAC ") + "uvw"[a];
    if (!part) { walk(c, nm + " const iterator", cf.cbegin_comp(mc), cf.cend_comp(mc), fb, ex); walk(c, nm + " iterator", f.begin_comp(mc), f.end_comp(mc), fb, ex); }
    else { walk(c, nm + " const iterator subset", cf.cbegin_comp(mc, sub), cf.cend_comp(mc, sub), fb, ex); walk(c, nm + " iterator subset", f.begin_comp(mc, sub), f.end_comp(mc, sub), fb, ex); }
    int q = 0; typename MACField<T>::mac_comp_iterator i = f.begin_comp(mc, sub), e = f.end_comp(mc, sub);
    FOR_BOX(fb, x, y, z) { if (!(i != e)) c.fail(nm + " iterator write: ends early", ""); *i = Mk<R>::of(++q); comp[a].at(x, y, z) = Mk<R>::of(q); ++i; }
    for (int b = 0; b < 3; ++b) FOR_BOX(comp[b].dw, x, y, z) { R g = b == 0 ? cf.u(x, y, z) : b == 1 ? cf.v(x, y, z) : cf.w(x, y, z); if (!same(g, comp[b].at(x, y, z))) c.fail(nm + " iterator writes", VS() << "component " << b << " at " << pos(x, y, z)); }
  }
  Field<T> &b = f; auto ex = [&](int x, int y, int z) { return f.value(x, y, z); };
  walk(c, "Field const_iterator (MAC)", b.cbegin(sub), b.cend(sub), sub, ex);
  c.state(vp::mix(comp[0].hash(), comp[1].hash()));
}

template <class T> static void others(Ctx &c, int maxRes) {
  Win w = chooseWin(c, maxRes, {0, -2, 3});
  Box3i s = chooseSub(c, w.dw);
  // a multi-resolution field iterates its finest level
  typename DenseField<T>::Ptr d(new DenseField<T>); d->setSize(w.ext, w.dw);
  FOR_BOX(w.dw, x, y, z) d->lvalue(x, y, z) = Mk<T>::of(voxelCode(x, y, z));
  typename MIPField<DenseField<T> >::Ptr m(new MIPField<DenseField<T> >);
  typename MIPField<DenseField<T> >::NestedType *nest = 0; (void)nest;
  typename DenseField<T>::Vec v(1, d); m->setup(v);
  auto ex = [&](int x, int y, int z) { return d->value(x, y, z); };
  Field<T> &b = *m;
  walk(c, "Field const_iterator (MIP)", b.cbegin(), b.cend(), w.dw, ex);
  walk(c, "Field const_iterator subset (MIP)", b.cbegin(s), b.cend(s), s, ex);
  EmptyField<T> e; e.setSize(w.ext, w.dw); e.clear(Mk<T>::of(4));
  Field<T> &eb = e;
  walk(c, "Field const_iterator (empty field)", eb.cbegin(s), eb.cend(s), s, [&](int, int, int) { return e.value(s.min.x, s.min.y, s.min.z); });
  c.state(vp::mix(vp::hashBytes(&w, sizeof w), vp::hashBytes(&s, sizeof s)));
}

void vp::registerScenarios(bool th) {
  quietInit();
  int R = th ? 4 : 3;
  scenario("dense/float", [=](Ctx &c) { dense<float>(c, R, th); }, opt(false, 4));
  scenario("sparse/float", [=](Ctx &c) { sparse<float>(c, R + 1, th); }, opt(false, 6));
  scenario("mac/V3f", [=](Ctx &c) { mac<V3f>(c, R); }, opt(false, 5));
  scenario("other/float", [=](Ctx &c) { others<float>(c, R); }, opt(false, 5));
  scenario("dense/V3h", [=](Ctx &c) { dense<V3h>(c, R - 1, th); }, opt(false, 4));
  scenario("sparse/V3d", [=](Ctx &c) { sparse<V3d>(c, R - 1, th); }, opt(false, 6));
  scenario("sparse/half", [=](Ctx &c) { sparse<half>(c, R - 1, th); }, opt(false, 6));
  scenario("mac/V3h", [=](Ctx &c) { mac<V3h>(c, R - 1); }, opt(false, 5));
  scenario("mac/V3d", [=](Ctx &c) { mac<V3d>(c, R - 1); }, opt(false, 5));
}
