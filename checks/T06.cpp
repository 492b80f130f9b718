// T06: first use of the library's shared objects by two and three threads at once, in every schedule. Every execution is a fresh process.
#include "fileio.h"
#include "xsched.h"
#include "Field3D/FieldCache.h"
#include <sys/wait.h>

template <int N> struct TF : public DenseField<float> { static const char *nm() { static const char *n[] = {"VpFieldA", "VpFieldB", "VpPlugin"}; return n[N]; } virtual std::string className() const { return nm(); } static FieldRes::Ptr create() { return FieldRes::Ptr(new TF); } };
template <int N> struct TM : public NullFieldMapping { virtual std::string className() const { return N ? "VpMapB" : "VpMapA"; } static FieldMapping::Ptr create() { return FieldMapping::Ptr(new TM); } };
__attribute__((no_sanitize("thread"), noinline)) static void inc(int &n) { ++n; }
static int g_plugCalls; static bool g_plugSingleton;
// called by the plug-in that the scenario's set-up compiles
static int plugin(void *f) { inc(g_plugCalls); ClassFactory &cf = *(ClassFactory *)f; (g_plugSingleton ? ClassFactory::singleton() : cf).registerField(TF<2>::create); return 1; }
static std::string g_f[2];
struct Res { void *s = 0, *c = 0, *fc = 0; };
static bool hasField(const char *n) { FieldRes::Ptr f = ClassFactory::singleton().createField(std::string(n) + "<float>"); return f && f->className() == n; }
static bool ioReady(std::string &miss) {
  for (const char *n : {"DenseField", "SparseField", "MACField", "MIPField"}) { FieldIO::Ptr p = ClassFactory::singleton().createFieldIO(n); if (!p || p->className() != n) { miss = n; return false; } }
  for (const char *n : {"NullFieldMapping", "MatrixFieldMapping", "FrustumFieldMapping"}) { FieldMappingIO::Ptr p = ClassFactory::singleton().createFieldMappingIO(n); if (!p || p->className() != n) { miss = n; return false; } }
  return true;
}
static Spec fspec(int og) { Spec s; s.st = ST_SPARSE; s.order = 1; s.e = s.d = box(0, 0, 0, 1, 1, 1); s.salt = 5 + og; s.name = "p"; s.attr = "a"; return s; }
static void same(Ctx &c, void *&slot, void *p, const char *what) { if (slot && slot != p) c.fail(std::string("two different ") + what); slot = p; }
static void runProg(Ctx &c, const std::string &prog, Res &r) {
  std::istringstream is(prog); std::string t, m;
  while (is >> t) switch (t[0]) {
    case 'S': { SparseFileManager &s = SparseFileManager::singleton(); same(c, r.s, &s, "block cache managers"); if (s.doLimitMemUse()) c.fail("the block cache manager is not initialised"); break; }
    case 'C': same(c, r.c, &ClassFactory::singleton(), "class registries"); break;
    case 'I': initIO(); if (!ioReady(m)) c.fail("a class is not registered after initIO", m); same(c, r.c, &ClassFactory::singleton(), "class registries"); break;
    case 'X': ClassFactory::singleton().registerField(t[1] == '0' ? TF<0>::create : TF<1>::create); if (!hasField(t[1] == '0' ? TF<0>::nm() : TF<1>::nm())) c.fail("a registered field class is not found"); break;
    case 'Y': { ClassFactory::singleton().registerFieldMapping(t[1] == '0' ? TM<0>::create : TM<1>::create); if (!ClassFactory::singleton().createFieldMapping(t[1] == '0' ? "VpMapA" : "VpMapB")) c.fail("a registered mapping class is not found"); break; }
    case 'F': same(c, r.fc, &FieldCache<float>::singleton(), "field caches"); break;
    case 'P': { SparseField<float>::Ptr f(new SparseField<float>); f->setSize(V3i(2, 1, 1)); f->lvalue(1, 0, 0) = 3; SparseField<float>::Ptr g(new SparseField<float>(*f)); if (g->value(1, 0, 0) != 3 || f->value(0, 0, 0) != 0) c.fail("wrong voxel"); break; }
    case 'R': { int og = t[1] - '0'; initIO(); Field3DInputFile in; if (!in.open(g_f[og])) c.fail("a file cannot be opened"); Field<float>::Vec v = in.readScalarLayers<float>("p", "a"); if (v.size() != 1) c.fail("a layer is not read", VS() << v.size());
      std::string d = diffAny(TY_FLOAT, mkField(fspec(og)).get(), v[0].get()); if (!d.empty()) c.fail("a layer read on first use is wrong", d); break; }
  }
}
static void scen(std::vector<std::string> p, int bound, int plug = 0, bool big = false) {
  std::string n; for (size_t i = 0; i < p.size(); ++i) n += (i ? " | " : "") + p[i]; bool files = n.find('R') != std::string::npos; if (plug) n += plug == 2 ? " (plug-in using the registry)" : " (plug-in)";
  sched::scenario(n, bound, [=](Ctx &c) {
    g_plugSingleton = plug == 2; g_f[0] = c.tmpDir + "/h.f3d"; g_f[1] = c.tmpDir + "/o.f3d"; unsetenv("FIELD3D_DSO_PATH");
    if (files) { fflush(0); pid_t q = fork(); if (!q) { initIO(); for (int og = 0; og < 2; ++og) { Format fm(og); Field3DOutputFile o; if (!o.create(g_f[og]) || !writeAny(o, TY_FLOAT, "p", "a", mkField(fspec(og))) || !o.close()) _exit(1); } _exit(0); } int st; waitpid(q, &st, 0); if (st) c.fail("cannot write the files"); }
    if (plug) {
      std::string d = c.tmpDir + "/plug", src = c.tmpDir + "/plug.c"; if (system(("mkdir -p '" + d + "'").c_str())) {}
      { std::ofstream o(src.c_str()); o << "int registerField3DPlugin(void *f) { return ((int (*)(void *))" << (void *)plugin << "ul)(f); }\n"; }
      if (system(("cc -shared -fPIC -o '" + d + "/vp.so' '" + src + "'").c_str())) c.fail("cannot compile the plug-in"); setenv("FIELD3D_DSO_PATH", d.c_str(), 1);
    } },
    [=](Ctx &c) {
      c.where("first use"); std::vector<Res> r(p.size()); std::vector<std::function<void()> > fs; for (size_t i = 0; i < p.size(); ++i) fs.push_back([&, i] { runProg(c, p[i], r[i]); });
      sched::run(fs); Res all; all.s = &SparseFileManager::singleton(); all.c = &ClassFactory::singleton(); all.fc = &FieldCache<float>::singleton();
      for (auto &x : r) { if (x.s) same(c, all.s, x.s, "block cache managers"); if (x.c) same(c, all.c, x.c, "class registries"); if (x.fc) same(c, all.fc, x.fc, "field caches"); }
      std::string m; for (auto &q : p) { std::istringstream is(q); std::string t; while (is >> t) { if (t[0] == 'X' && !hasField(t[1] == '0' ? TF<0>::nm() : TF<1>::nm())) c.fail("a registered field class is lost"); if (t[0] == 'Y' && !ClassFactory::singleton().createFieldMapping(t[1] == '0' ? "VpMapA" : "VpMapB")) c.fail("a registered mapping class is lost"); if ((t[0] == 'I' || t[0] == 'R') && !ioReady(m)) c.fail("a registered I/O class is lost", m); } }
      if (plug) { if (g_plugCalls != 1) c.fail("a plug-in is not initialised exactly once", VS() << g_plugCalls); if (!hasField(TF<2>::nm())) c.fail("what a plug-in registered is lost"); }
      c.step(); c.state(std::hash<std::string>()(n));
    }, 20000, !big);
}
void vp::registerScenarios(bool th) {
  static const char *A[] = {"S", "C", "I", "X0", "X1", "Y0", "F", "P", "R0", "R1", "I X0", "S C", "Y1"}; const int n = 13, B = th ? 4 : 2;
  for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { bool r = A[i][0] == 'R' || A[j][0] == 'R'; bool ii = A[i][0] == 'I' || A[j][0] == 'I'; bool big = th || (A[i] == A[j] && (A[i] == std::string("R1") || A[i] == std::string("I"))); scen({A[i], A[j]}, r ? (th ? 2 : 1) : ii && !big && !th && (A[i][0] != 'C') ? 1 : B, 0, big); }
  static const char *T[][3] = {{"S", "S", "S"}, {"C", "I", "X0"}, {"I", "I", "I"}, {"X0", "X1", "Y0"}, {"X0", "X1", "C"}, {"P", "P", "S"}, {"F", "F", "F"}};
  for (auto &t : T) scen({t[0], t[1], t[2]}, th ? 3 : 1);
  for (int pl = 1; pl <= 2; ++pl) { static const char *Q[][2] = {{"C", "C"}, {"C", "I"}, {"X0", "C"}, {"X0", "X1"}, {"I", "I"}, {"Y0", "C"}}; for (auto &q : Q) scen({q[0], q[1]}, th ? 3 : 1, pl); scen({"C"}, 0, pl); scen({"I"}, 0, pl); }
}
