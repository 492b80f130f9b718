// S03: block bookkeeping of sparse fields, every operation sequence up to a depth, against an explicit block model.
#include "common.h"

template <class T> struct BM {        // model: per block, allocated flag, empty value, voxels
  Box3i dw, ext; int order; V3i br;
  struct B { bool alloc; T empty; };
  std::vector<B> b; Arr<T> vox;
  void init(const Box3i &e, const Box3i &d, int o, const T &v) {
    ext = e; dw = d; order = o; V3i s = sizeOf(d); int bs = 1 << o;
    br = V3i((s.x + bs - 1) / bs, (s.y + bs - 1) / bs, (s.z + bs - 1) / bs);
    b.assign((size_t)br.x * br.y * br.z, B{false, v}); vox.size(e, d, v);
  }
  int id(int bi, int bj, int bk) const { return (bk * br.y + bj) * br.x + bi; }
  V3i blockOf(int x, int y, int z) const { int bs = 1 << order; return V3i((x - dw.min.x) / bs, (y - dw.min.y) / bs, (z - dw.min.z) / bs); }
  Box3i box(int bi, int bj, int bk) const { int bs = 1 << order; Box3i r(dw.min + V3i(bi, bj, bk) * bs, dw.min + V3i(bi + 1, bj + 1, bk + 1) * bs - V3i(1));
    r.max = V3i(std::min(r.max.x, dw.max.x), std::min(r.max.y, dw.max.y), std::min(r.max.z, dw.max.z)); return r; }
  void write(int x, int y, int z, const T &v) { V3i q = blockOf(x, y, z); b[id(q.x, q.y, q.z)].alloc = true; vox.at(x, y, z) = v; }
  void setEmpty(int bi, int bj, int bk, const T &v) { B &q = b[id(bi, bj, bk)]; q.alloc = false; q.empty = v; Box3i r = box(bi, bj, bk); FOR_BOX(r, x, y, z) vox.at(x, y, z) = v; }
  uint64_t hash() const { uint64_t h = vox.hash(); for (auto &q : b) h = vp::mix(vp::mix(h, q.alloc), q.alloc ? 0 : vp::hashBytes(&q.empty, sizeof(T))); return vp::mix(h, order); }
};

template <class T> static void verify(Ctx &c, SparseField<T> &f, const BM<T> &m, const std::string &op) {
  VPCHECK(c, f.blockRes() == m.br, "blockRes: " + op, str(f.blockRes()) + " expected " + str(m.br));
  VPCHECK(c, f.blockOrder() == m.order && f.blockSize() == (1 << m.order), "block size: " + op);
  size_t nAlloc = 0; std::set<int> ids;
  for (int k = 0; k < m.br.z; ++k) for (int j = 0; j < m.br.y; ++j) for (int i = 0; i < m.br.x; ++i) {
    const typename BM<T>::B &q = m.b[m.id(i, j, k)];
    VPCHECK(c, f.blockIndexIsValid(i, j, k), "blockIndexIsValid: " + op, pos(i, j, k));
    int id = f.blockId(i, j, k); VPCHECK(c, id >= 0 && id < (int)m.b.size() && ids.insert(id).second, "blockId not unique: " + op, pos(i, j, k));
    VPCHECK(c, f.blockIsAllocated(i, j, k) == q.alloc, VS() << "blockIsAllocated: " << op, VS() << pos(i, j, k) << " expected " << q.alloc);
    VPCHECK(c, (f.blockData(i, j, k) != 0) == q.alloc, "blockData: " + op, pos(i, j, k));
    if (!q.alloc) { T e = f.getBlockEmptyValue(i, j, k); VPCHECK(c, same(e, q.empty), "getBlockEmptyValue: " + op, pos(i, j, k) + " is " + str(e) + " expected " + str(q.empty)); }
    nAlloc += q.alloc;
  }
  for (int a = 0; a < 3; ++a) for (int s = 0; s < 2; ++s) { V3i p(0); p[a] = s ? m.br[a] : -1; VPCHECK(c, !f.blockIndexIsValid(p.x, p.y, p.z), "blockIndexIsValid outside: " + op, str(p)); }
  size_t bs3 = (size_t)1 << (3 * m.order);
  VPCHECK(c, f.voxelCount() == nAlloc * bs3, "voxelCount: " + op, VS() << f.voxelCount() << " expected " << nAlloc * bs3);
  std::string d = diffArr(f, m.vox); if (!d.empty()) c.fail("values: " + op, d);
  std::set<std::string> addr; const int bs = 1 << m.order;
  FOR_BOX(m.dw, x, y, z) {
    V3i q = m.blockOf(x, y, z);
    int i = x, j = y, k = z, bi, bj, bk, vi, vj, vk;
    f.applyDataWindowOffset(i, j, k); f.getBlockCoord(i, j, k, bi, bj, bk); f.getVoxelInBlock(i, j, k, vi, vj, vk);
    VPCHECK(c, V3i(bi, bj, bk) == q, "getBlockCoord: " + op, pos(x, y, z) + " -> " + pos(bi, bj, bk));
    VPCHECK(c, vi >= 0 && vj >= 0 && vk >= 0 && vi < bs && vj < bs && vk < bs && m.dw.min + V3i(bi, bj, bk) * bs + V3i(vi, vj, vk) == V3i(x, y, z), "getVoxelInBlock: " + op, pos(x, y, z));
    VPCHECK(c, f.voxelIsInAllocatedBlock(x, y, z) == m.b[m.id(q.x, q.y, q.z)].alloc, "voxelIsInAllocatedBlock: " + op, pos(x, y, z));
    if (T *p = f.blockData(bi, bj, bk)) VPCHECK(c, same(p[(vk * bs + vj) * bs + vi], m.vox.at(x, y, z)), "blockData layout: " + op, pos(x, y, z));
    const Box3i bb = blockCoords(Box3i(V3i(x, y, z), m.dw.max), &f);
    V3i qm = m.blockOf(m.dw.max.x, m.dw.max.y, m.dw.max.z);
    VPCHECK(c, bb.min == q && bb.max == qm, "blockCoords: " + op, VS() << str(bb) << " for " << pos(x, y, z));
  }
}
template <class T> static double mag(const T &v) { return std::fabs((double)v); }
template <class S> static double mag(const FIELD3D_VEC3_T<S> &v) { return std::min(std::fabs((double)v.x), std::min(std::fabs((double)v.y), std::fabs((double)v.z))); }

struct Cfg { Box3i e, d; int order; const char *n; };
static std::vector<Cfg> cfgs(bool th) {
  std::vector<Cfg> v = {
    {box(0, 0, 0, 2, 1, 0), box(0, 0, 0, 2, 1, 0), 1, "3x2x1/2"},
    {box(0, 0, 0, 4, 4, 4), box(-3, 5, -1, 1, 5, -1), 1, "5x1x1 offset/2"},
    {box(0, 0, 0, 4, 0, 0), box(0, 0, 0, 4, 0, 0), 2, "5x1x1/4"},
    {box(1, 1, 1, 2, 2, 2), box(1, 1, 1, 2, 2, 2), 0, "2x2x2/1"},
    {box(0, 0, 0, 2, 2, 2), box(0, 0, 0, 2, 2, 2), 4, "3x3x3/16"},
  };
  if (th) { v.push_back({box(0, 0, 0, 2, 2, 2), box(-1, -1, -1, 1, 1, 1), 1, "3x3x3 neg/2"}); v.push_back({box(0, 0, 0, 1, 4, 4), box(0, 0, 0, 1, 4, 4), 2, "2x5x5/4"}); }
  return v;
}

template <class T> static void body(Ctx &c, int depth, bool th) {
  std::vector<Cfg> cs = cfgs(th); const Cfg &g = cs[c.choose((int)cs.size())];
  typename SparseField<T>::Ptr f(new SparseField<T>); BM<T> m;
  T vals[3] = {Mk<T>::of(0), Mk<T>::of(1), Mk<T>::of(-2)};
  f->setBlockOrder(g.order); f->setSize(g.e, g.d); f->clear(vals[0]); m.init(g.e, g.d, g.order, vals[0]);
  c.log(g.n);
  verify(c, *f, m, "setSize+clear");
  int n = c.range(1, depth);
  int nb = (int)m.b.size();
  for (int s = 0; s < n; ++s) {
    std::string op; c.step();
    int what = c.choose(8);
    switch (what) {
    case 0: case 1: { // write one voxel: first, last, middle, one with a block neighbour
      static const int picks = 4; int k = c.choose(picks); T v = vals[c.choose(what == 0 ? 2 : 3)];
      V3i p = k == 0 ? g.d.min : k == 1 ? g.d.max : k == 2 ? V3i(std::min(g.d.min.x + 1, g.d.max.x), g.d.min.y, g.d.min.z) : V3i(g.d.min.x, g.d.max.y, g.d.max.z);
      if (what == 0) { op = "lvalue"; f->lvalue(p.x, p.y, p.z) = v; }
      else { op = "iterator write"; Box3i one(p, p); typename SparseField<T>::iterator i = f->begin(one); *i = v; }
      m.write(p.x, p.y, p.z, v); op += " " + str(p) + "=" + str(v); break; }
    case 2: { int id = nb > 1 ? (c.flag() ? nb - 1 : 0) : 0; int bi = id % m.br.x, bj = id / m.br.x % m.br.y, bk = id / (m.br.x * m.br.y); T v = vals[1 + c.choose(2)]; f->setBlockEmptyValue(bi, bj, bk, v); m.setEmpty(bi, bj, bk, v); op = "setBlockEmptyValue"; break; }
    case 3: { op = "releaseBlocks(all equal)"; int got = f->releaseBlocks(Sparse::CheckAllEqual<T>()); int want = 0;
      for (int k = 0; k < m.br.z; ++k) for (int j = 0; j < m.br.y; ++j) for (int i = 0; i < m.br.x; ++i) { if (!m.b[m.id(i, j, k)].alloc) continue; Box3i r = m.box(i, j, k); T v0 = m.vox.at(r.min.x, r.min.y, r.min.z); bool eq = true; FOR_BOX(r, x, y, z) eq &= m.vox.at(x, y, z) == v0; if (eq) { ++want; m.setEmpty(i, j, k, v0); } }
      VPCHECK(c, got == want, "releaseBlocks count", VS() << got << " expected " << want); break; }
    case 4: { op = "releaseBlocks(max abs)"; T lim = vals[1]; if (sizeof(T) > 8) lim = T(vals[1]); int got = f->releaseBlocks(Sparse::CheckMaxAbs<T>(Mk<T>::of(0.25 + 0 * mag(lim)))); int want = 0;
      for (int k = 0; k < m.br.z; ++k) for (int j = 0; j < m.br.y; ++j) for (int i = 0; i < m.br.x; ++i) { if (!m.b[m.id(i, j, k)].alloc) continue; Box3i r = m.box(i, j, k); bool ok = true;
        FOR_BOX(r, x, y, z) { T q = m.vox.at(x, y, z); if (Sparse::isAnyLess<T>(q, Mk<T>::of(0.25))) ok = false; }
        if (ok) { ++want; T e = f->getBlockEmptyValue(i, j, k); bool found = false; FOR_BOX(r, x, y, z) found |= same(m.vox.at(x, y, z), e); VPCHECK(c, found, "releaseBlocks(max abs): empty value is none of the block's values", str(e)); m.setEmpty(i, j, k, e); } }
      VPCHECK(c, got == want, "releaseBlocks(max abs) count", VS() << got << " expected " << want); break; }
    case 5: { T v = vals[c.choose(2)]; op = "clear"; f->clear(v); m.init(g.e, g.d, m.order, v); break; }
    case 6: { if (c.flag()) { op = "copy"; f = new SparseField<T>(*f); } else { op = "assign"; typename SparseField<T>::Ptr h(new SparseField<T>); h->setSize(V3i(3, 3, 3)); h->clear(vals[1]); h->lvalue(0, 0, 0) = vals[2]; *h = *f; f = h; } break; }
    case 7: { op = "fill one block"; int id = c.choose(2) ? nb - 1 : 0; int bi = id % m.br.x, bj = id / m.br.x % m.br.y, bk = id / (m.br.x * m.br.y); Box3i r = m.box(bi, bj, bk); T v = vals[1]; FOR_BOX(r, x, y, z) { f->fastLValue(x, y, z) = v; m.write(x, y, z, v); } break; }
    }
    c.log(op);
    std::string o = op.substr(0, op.find(' '));
    verify(c, *f, m, o);
  }
  c.state(m.hash());
}

// setBlockOrder and resize: the bookkeeping restarts consistently
template <class T> static void resize(Ctx &c, int maxRes) {
  SparseField<T> f; BM<T> m;
  for (int s = 0; s < 2; ++s) {
    int order = c.choose(4), mn = c.pick(std::vector<int>{0, -3, 6});
    V3i rs(c.range(1, maxRes), c.range(1, maxRes), c.range(1, 2)); Box3i d(V3i(mn, 0, -mn), V3i(mn, 0, -mn) + rs - V3i(1));
    f.setBlockOrder(order); f.setSize(d); T v = Mk<T>::of(s + 1); f.clear(v); m.init(d, d, order, v);
    verify(c, f, m, "resize");
    V3i p = d.max; f.lvalue(p.x, p.y, p.z) = Mk<T>::of(9); m.write(p.x, p.y, p.z, Mk<T>::of(9)); c.step();
    verify(c, f, m, "write after resize");
  }
  c.state(m.hash());
}

void vp::registerScenarios(bool th) {
  quietInit();
  int D = th ? 6 : 5;
  scenario("sequences/float", [=](Ctx &c) { body<float>(c, D - 1, th); }, opt(false, 5));
  scenario("sequences/V3f", [=](Ctx &c) { body<V3f>(c, D - 2, th); }, opt(false, 5));
  scenario("sequences/half", [=](Ctx &c) { body<half>(c, D - 2, th); }, opt(false, 5));
  scenario("sequences/double", [=](Ctx &c) { body<double>(c, D - 2, th); }, opt(false, 5));
  scenario("resize/float", [=](Ctx &c) { resize<float>(c, th ? 5 : 3); }, opt(false, 5));
}
