// T01: threaded reading and writing of sparse fields, in every schedule of the worker threads.
#include "fileio.h"
#include "xsched.h"
#include "Field3D/FieldCache.h"
#include <sys/resource.h>
#include <csignal>

// n blocks in a row; bit b of pattern: block b has voxels of its own
template <class T> static FieldRes::Ptr mk(int n, int pattern, int order, int salt) {
  typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(order); int B = 1 << order; f->setSize(V3i(n * B - (n > 1 && order == 1 ? 1 : 0), order == 1 ? 2 : 1, 1)); f->clear(Mk<T>::of(1)); f->name = "p"; f->attribute = "a"; Box3i d = f->dataWindow(); uint32_t r = 12345 + salt;
  for (int b = 0; b < n; ++b) if (pattern >> b & 1) { FOR_BOX(d, x, y, z) if (x / B == b) { if (order > 1) { r = r * 1664525 + 1013904223; f->lvalue(x, y, z) = Mk<T>::of((int)(r >> 8)); } else f->lvalue(x, y, z) = Mk<T>::of(voxelCode(x, y, z, salt)); } } else f->setBlockEmptyValue(b, 0, 0, Mk<T>::of(b + 20 + salt));
  return f;
}
static FieldRes::Ptr mkAny(int ty, int n, int pattern, int order, int salt) { return withType(ty, [&](auto t) { return mk<typename decltype(t)::type>(n, pattern, order, salt); }); }
static std::string readBack(const std::string &file, int ty, const FieldRes *want) {
  Field3DInputFile in; if (!in.open(file)) return "the file cannot be opened"; std::string p = "p"; FList l = readAny(in, ty, &p, "a"); if (l.size() != 1) return "the layer is missing"; return diffAny(ty, want, l[0].get());
}
static std::string label(int n, int pattern) { std::string s; for (int b = 0; b < n; ++b) s += pattern >> b & 1 ? 'x' : '.'; return s; }
static std::string kinds(const std::string &d) { return kindVox(d); }
static void wscen(int ty, int n, int pattern, int threads, int bound, bool big = false) {
  sched::scenario(VS() << "write " << tyName(ty) << " " << label(n, pattern) << " with " << threads << " threads", bound, [](Ctx &) { initIO(); }, [=](Ctx &c) {
    c.where("write"); std::string file = c.tmpDir + "/w.f3d"; FieldRes::Ptr f = mkAny(ty, n, pattern, 1, 3); setNumIOThreads(threads);
    { Field3DOutputFile o; if (!o.create(file)) c.fail("cannot create"); if (!writeAny(o, ty, "p", "a", f)) c.fail("threaded writing reports a failure"); if (!o.close()) c.fail("cannot close"); }
    setNumIOThreads(1); std::string d = readBack(file, ty, f.get()); if (!d.empty()) c.fail("threaded writing: " + kinds(d), d); c.step(); c.state(pattern * 64 + n * 8 + threads);
  }, 20000, !big);
}
static void rscen(int ty, int n, int pattern, int threads, int bound, bool big = false) {
  sched::scenario(VS() << "read " << tyName(ty) << " " << label(n, pattern) << " with " << threads << " threads", bound, [=](Ctx &c) { initIO(); Field3DOutputFile o; if (!o.create(c.tmpDir + "/r.f3d") || !writeAny(o, ty, "p", "a", mkAny(ty, n, pattern, 1, 3))) c.fail("cannot write"); }, [=](Ctx &c) {
    c.where("read"); setNumIOThreads(threads); std::string d = readBack(c.tmpDir + "/r.f3d", ty, mkAny(ty, n, pattern, 1, 3).get()); if (!d.empty()) c.fail("threaded reading: " + kinds(d), d); c.step(); c.state(pattern * 64 + n * 8 + threads);
  }, 20000, !big);
}
// the field being written is demand-loaded from another file
static void dscen(bool ogawa, int n, int pattern, int threads, int bound, int limit, bool big = false) {
  sched::scenario(VS() << "write a demand-loaded field (" << fmtName(ogawa) << ") " << label(n, pattern) << " with " << threads << " threads, cache for " << limit << " blocks", bound, [=](Ctx &c) { initIO(); Format fm(ogawa); Field3DOutputFile o; if (!o.create(c.tmpDir + "/s.f3d") || !writeAny(o, TY_FLOAT, "p", "a", mkAny(TY_FLOAT, n, pattern, 1, 3))) c.fail("cannot write"); }, [=](Ctx &c) {
    c.where("write demand-loaded"); setNumIOThreads(1); SparseFileManager &m = SparseFileManager::singleton(); m.setLimitMemUse(true); m.setMaxMemUse(limit * 8 * 4 / (1024.f * 1024.f) + 1e-6f); std::string file = c.tmpDir + "/w.f3d"; FieldRes::Ptr ref = mkAny(TY_FLOAT, n, pattern, 1, 3);
    { Field3DInputFile in; if (!in.open(c.tmpDir + "/s.f3d")) c.fail("cannot open"); Field<float>::Vec v = in.readScalarLayers<float>("p", "a"); if (v.size() != 1) c.fail("cannot read"); setNumIOThreads(threads);
      Field3DOutputFile o; if (!o.create(file)) c.fail("cannot create"); if (!o.writeScalarLayer<float>("p", "a", v[0])) c.fail("threaded writing reports a failure"); if (!o.close()) c.fail("cannot close"); }
    m.setLimitMemUse(false); setNumIOThreads(1); std::string d = readBack(file, TY_FLOAT, ref.get()); if (!d.empty()) c.fail("threaded writing: " + kinds(d), d); c.step(); c.state(pattern * 64 + n * 8 + threads);
  }, 20000, !big);
}
// the file may not grow beyond a size: some worker's write fails
static void fscen(int n, int threads, int kb, int bound) {
  sched::scenario(VS() << "write " << n << " large blocks with " << threads << " threads, no room after " << kb << " KB", bound, [](Ctx &) { initIO(); signal(SIGXFSZ, SIG_IGN); }, [=](Ctx &c) {
    c.where("write fails"); std::string file = c.tmpDir + "/w.f3d"; FieldRes::Ptr f = mkAny(TY_FLOAT, n, (1 << n) - 1, 4, 3); setNumIOThreads(threads); rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = (rlim_t)kb * 1024; bool ok = true;
    { Field3DOutputFile o; setrlimit(RLIMIT_FSIZE, &lim); try { ok = o.create(file); ok = ok && writeAny(o, TY_FLOAT, "p", "a", f); ok = o.close() && ok; } catch (std::exception &) { ok = false; } setrlimit(RLIMIT_FSIZE, &old); }
    setNumIOThreads(1); if (ok) { std::string d = readBack(file, TY_FLOAT, f.get()); if (!d.empty()) c.fail("a failed threaded write is reported as success: " + kinds(d), d); }
    else { Field3DInputFile in; if (in.open(file)) { Field<float>::Vec v = in.readScalarLayers<float>("p", "a"); if (v.size()) { std::string d = diffAny(TY_FLOAT, f.get(), v[0].get()); if (!d.empty()) c.fail("a failed threaded write leaves a wrong layer: " + kinds(d), d); } } }
    c.step(); c.state(n * 64 + threads * 8 + ok);
  }, 20000, true);
}
void vp::registerScenarios(bool th) {
  int B = th ? 3 : 2;
  for (int n = 1; n <= (th ? 4 : 3); ++n) for (int p = 0; p < 1 << n; ++p) { wscen(TY_FLOAT, n, p, 2, n < 3 || p == 7 || p == 5 || p == 2 ? B : B - 1, th); rscen(TY_FLOAT, n, p, 2, B - 1, th); if (n > 1) wscen(TY_FLOAT, n, p, 3, th ? 2 : 1, th); if (th || (n == 3 && (p == 7 || p == 5))) rscen(TY_FLOAT, n, p, 3, th ? 2 : 1, true); }
  for (int p : {15, 5, 10, 9}) { if (!th && p > 5 && p < 15) continue; wscen(TY_FLOAT, 4, p, 2, th ? B : 1, th); rscen(TY_FLOAT, 4, p, 2, B - 1, th); if (th) wscen(TY_FLOAT, 4, p, 4, 1, true); if (th) rscen(TY_FLOAT, 4, p, 4, 1, true); }
  for (int ty = 0; ty < TY_COUNT; ++ty) if (ty != TY_FLOAT) { wscen(ty, 3, 5, 2, th ? 2 : 1); rscen(ty, 3, 5, 2, th ? 2 : 1); }
  for (int og = 1; og >= 0; --og) { dscen(og, 2, 3, 2, th ? 2 : 1, 1, th); dscen(og, 3, 5, 2, 1, 1); dscen(og, 3, 7, 2, 1, 2); if (th) dscen(og, 3, 7, 3, 1, 1, true); }
  for (int n = 2; n <= 3; ++n) for (int kb : {1, 9, 20, 40}) { fscen(n, 2, kb, th ? 2 : 1); if (n == 3) fscen(n, 3, kb, 1); }
}
