// D03: demand-loaded sparse fields read, copied, opened and dropped by two and three threads, in every schedule.
#include "fileio.h"
#include "xsched.h"
#include "Field3D/SparseFile.h"
#include "Field3D/FieldInterp.h"

struct Peek : SparseField<float> { static int id(const SparseField<float> &f) { return f.*&Peek::m_fileId; } };
static SparseFileManager &mgr() { return SparseFileManager::singleton(); }
typedef SparseField<float> SF;
static const int64_t BYTES = 4 * 4 * 4 * sizeof(float);
static float expected(int layer, int x, int y, int z) { if (layer == 1 && x / 4 == 1) return 5; return (float)voxelCode(x, y, z, layer); }
static SF::Ptr makeLayer(int l) {      // layer 0: 2 blocks; layer 1: 3 blocks, the middle one empty; layer 2 like 0, opened by threads only
  SF::Ptr f(new SF); f->setBlockOrder(2); f->setSize(box(0, 0, 0, l != 1 ? 7 : 11, 3, 3)); f->clear(l == 1 ? 5 : 0);
  FOR_BOX(f->dataWindow(), x, y, z) if (!(l == 1 && x / 4 == 1)) f->lvalue(x, y, z) = expected(l, x, y, z);
  f->name = "p"; f->attribute = std::string(1, (char)('a' + l)); f->setMapping(makeMapping(MK_MAT)); return f;
}
struct W { std::string file; SF::Ptr f[2]; };
static W *g_w = 0;
static SF::Ptr readLayer(const std::string &file, int l) {
  Field3DInputFile in; if (!in.open(file)) return SF::Ptr();
  Field<float>::Vec v = in.readScalarLayers<float>("p", std::string(1, (char)('a' + l))); return v.empty() ? SF::Ptr() : field_dynamic_cast<SF>(v[0]);
}
static void setup(Ctx &c, bool ogawa, double blocks, int fill) {
  initIO(); delete g_w; g_w = new W; g_w->file = c.tmpDir + "/d.f3d";
  { Field3DOutputFile::useOgawa(ogawa); Field3DOutputFile o; if (!o.create(g_w->file)) c.fail("cannot create"); for (int l = 0; l < 3; ++l) if (!o.writeScalarLayer<float>(makeLayer(l))) c.fail("cannot write"); o.close(); }
  mgr().setLimitMemUse(true); mgr().setMaxMemUse(blocks < 0 ? 1000.f : (float)(blocks * BYTES / 1048576.0));
  if (fill) { SF::Ptr t0 = readLayer(g_w->file, 0); for (int id = Peek::id(*t0); id < fill || id % 64 != 60;) { SF::Ptr t(new SF(*t0)); id = Peek::id(*t); } }      // many fields were opened before; the list of them is about to grow
  for (int l = 0; l < 2; ++l) { g_w->f[l] = readLayer(g_w->file, l); if (!g_w->f[l] || !g_w->f[l]->isDynamicLoad()) c.fail("layer is not demand-loaded"); }
}
static void readBlock(Ctx &c, const SF &f, int l, int b, int n = 2) {
  for (int k = 0; k < n; ++k) { int x = b * 4 + (k ? 3 : 0), y = k ? 3 : 0; float v = f.fastValue(x, y, y); if (v != expected(l, x, y, y)) c.fail("a voxel read by a thread is not what the file holds", VS() << "layer " << l << " block " << b << ": " << v << " expected " << expected(l, x, y, y)); }
}
static void iterBlock(Ctx &c, const SF &f, int l, int b, int b2) {
  SF::const_iterator i = f.cbegin(box(b * 4 + 2, 0, 0, b2 * 4 + 1, 1, 0)), e = f.cend(box(b * 4 + 2, 0, 0, b2 * 4 + 1, 1, 0));
  int n = 0; for (; i != e; ++i, ++n) { float v = *i; if (v != expected(l, i.x, i.y, i.z)) c.fail("a voxel read through an iterator is not what the file holds", VS() << "layer " << l << " " << pos(i.x, i.y, i.z) << ": " << v); const float *p = &*i; if (sched::isFreed(p)) c.fail("block memory freed under an iterator"); }
  if (n != ((b2 - b) * 4) * 2) c.fail("iterator misses voxels");
}
static void all(Ctx &c, const SF &f, int l) { for (int b = 0; b <= f.dataWindow().max.x / 4; ++b) FOR_BOX(box(b * 4, 0, 0, b * 4 + 3, 3, 3), x, y, z) { float v = f.value(x, y, z); if (v != expected(l, x, y, z)) c.fail("a field holds wrong values after the threads ended", VS() << "layer " << l << " " << pos(x, y, z) << ": " << v << " expected " << expected(l, x, y, z)); } }
typedef std::string Prog;
// one operation, e.g. "r01" reads block 1 of layer 0
static void runProg(Ctx &c, const Prog &p) {
  std::istringstream is(p); std::string t;
  while (is >> t) {
    int l = t.size() > 1 ? t[1] - '0' : 0, b = t.size() > 2 ? t[2] - '0' : 0; W &w = *g_w;
    switch (t[0]) {
    case 'r': readBlock(c, *w.f[l], l, b); break;
    case 'i': iterBlock(c, *w.f[l], l, b, l == 0 ? 1 : 2); break;
    case 'l': { SF::LinearInterp in; float v = in.sample(*w.f[l], V3d(4, 0.5, 0.5)); float e = 0.5f * (expected(l, 3, 0, 0) + expected(l, 4, 0, 0)); if (v != e) c.fail("interpolation across blocks gives a wrong value", VS() << v << " expected " << e); break; }
    case 'c': { SF::Ptr k(new SF(*w.f[l])); readBlock(c, *k, l, b, 1); k.reset(); break; }                     // copy, read, drop
    case 'a': { SF::Ptr k(new SF); *k = *w.f[l]; readBlock(c, *k, l, b, 1); break; }
    case 'd': { SF::Ptr k; k.swap(w.f[l]); k.reset(); break; }                                                   // drop
    case 'o': { SF::Ptr k = readLayer(w.file, l); if (!k) c.fail("a layer cannot be read while other threads read"); readBlock(c, *k, l, b, 1); break; }
    case 's': { long long n = mgr().numLoadedBlocks(), a = mgr().totalLoadedBlocks(), q = mgr().totalLoads(); if (n < 0 || n > 8 || a < 0 || a > 8 || q < 0) c.fail("cache statistics are nonsense", VS() << n << " " << a << " " << q); if (mgr().memSize() <= 0) c.fail("memSize is nonsense"); break; }
    case 'x': mgr().flushCache(); break;
    case 'm': mgr().setMaxMemUse(1000.f); break;
    case 'y': mgr().resetCacheStatistics(); break;
    case 'z': if (w.f[l]->memSize() <= 0) c.fail("memSize is nonsense"); break;
    }
  }
}
static void scen(const char *fmt, bool ogawa, double limit, std::vector<Prog> p, int bound, bool small, int fill = 0) {
  std::string n = VS() << fmt << ", limit " << limit << (fill ? std::string(VS() << ", after " << fill << " fields") : "") << ": "; for (size_t i = 0; i < p.size(); ++i) n += (i ? " | " : "") + p[i];
  sched::scenario(n, bound, [=](Ctx &c) { setup(c, ogawa, limit, fill); }, [=](Ctx &c) {
    c.where(VS() << fmt); std::vector<std::function<void()> > fs; for (auto &q : p) fs.push_back([&c, q] { runProg(c, q); });
    sched::run(fs);
    c.step(); uint64_t hv = 1469598103934665603ull; for (auto &q : p) for (char ch : q + "|") hv = (hv ^ (unsigned char)ch) * 1099511628211ull; hv ^= (uint64_t)(limit * 8) * 977 + ogawa + (uint64_t)(mgr().numLoadedBlocks() * 64 + mgr().totalLoads()) * 0x9e3779b97f4a7c15ull; c.state(hv);
    for (int l = 0; l < 2; ++l) if (g_w->f[l]) all(c, *g_w->f[l], l);
    mgr().flushCache(); if (mgr().numLoadedBlocks() != 0) c.fail("blocks stay in the cache although nothing uses them", VS() << mgr().numLoadedBlocks());
    long long tl = mgr().totalLoads(); for (int l = 0; l < 2; ++l) if (g_w->f[l]) readBlock(c, *g_w->f[l], l, 0); 
    int alive = (g_w->f[0] ? 1 : 0) + (g_w->f[1] ? 1 : 0); if (mgr().totalLoads() != tl + alive) c.fail("a flushed block is not loaded again exactly once", VS() << mgr().totalLoads() - tl << " loads for " << alive);
    g_w->f[0].reset(); g_w->f[1].reset(); if (mgr().numLoadedBlocks() != 0) c.fail("blocks of destroyed fields are counted");
  }, 20000, small || (bound == 1 && p.size() == 2));
}
void vp::registerScenarios(bool th) {
  for (int og = 1; og >= 0; --og) {
    const char *F = og ? "Ogawa" : "HDF5"; int B = th ? 3 : 2;
    // readers
    int C = th ? 2 : 1;
    scen(F, og, 1, {"r00", "r00"}, th ? B : C, false);
    scen(F, og, 1, {"r00", "r01"}, B, false);
    scen(F, og, 1, {"r00", "r10"}, og ? B : C, false);
    scen(F, og, -1, {"r00", "r00"}, C, false);
    scen(F, og, 1, {"i00", "r01"}, C, false);
    scen(F, og, 0.5, {"l0", "r12"}, C, false);
    scen(F, og, 1, {"r00 r01", "r01 r00"}, C, false);
    scen(F, og, 1, {"i10", "i00"}, C, false);
    scen(F, og, 1, {"r00", "r01", "r12"}, C, false);
    if (th || og) scen(F, og, -1, {"r00", "r01", "i10"}, C, false);
    if (th) scen(F, og, 2, {"r00", "r00", "r01"}, C, false);
    // other work beside readers
    static const char *other[] = {"c00", "a01", "d1", "o00", "o20", "s", "x", "m", "y", "z0"};
    for (const char *o : other) { scen(F, og, 1, {"r00", o}, th ? 2 : 1, false); }
    scen(F, og, 1, {"r00", "r00 x"}, th ? 2 : 1, false);
    static const char *pairs[][2] = {{"c00", "c00"}, {"c00", "d1"}, {"o00", "o00"}, {"o20", "o20"}, {"o20", "c00"}, {"o20", "s"}, {"d0", "d1"}, {"d0", "s"}, {"c00", "s"}, {"i00", "x"}, {"o10", "d0"}, {"o20", "x"}, {"c00", "x"}};
    for (auto &q : pairs) scen(F, og, 1, {q[0], q[1]}, 1, false);
  }
  // reading while the list of open fields grows
  for (int fill = 60; fill < (th ? 1500 : 700); fill += 64) scen("Ogawa", true, 1, {"r00", "c00"}, 1, true, fill);
}
