// T03: the cache of loaded fields used by two and three threads, in every schedule.
#include "fileio.h"
#include "xsched.h"
#include "Field3D/FieldCache.h"

__attribute__((no_sanitize("thread"), noinline)) static void inc(int &n) { ++n; }
struct Probe : public DenseField<float> {
  static int born, died; int *cell; float v;
  Probe(float f) : cell(new int(1)), v(f) { inc(born); setSize(V3i(2, 1, 1)); fastLValue(0, 0, 0) = f; fastLValue(1, 0, 0) = f + 1; }
  ~Probe() { inc(died); *cell = 0; delete cell; cell = 0; }
};
int Probe::born = 0, Probe::died = 0;
typedef FieldCache<float> FC;
static FC &cache() { return FC::singleton(); }
// layers: 0 file "x" layer "a"; 1 file "x" layer "b"; 2 file "y" layer "a"
static const char *FILEOF[] = {"x", "x", "y"}, *LAYEROF[] = {"a", "b", "a"};
static float val(int k) { return 10.0f * (k + 1); }
static void check(Ctx &c, Field<float>::Ptr f, int k) {
  if (f->value(0, 0, 0) != val(k) || f->value(1, 0, 0) != val(k) + 1) c.fail("lookup gives a field with other contents", VS() << "layer " << k << ": " << f->value(0, 0, 0));
  Probe *p = static_cast<Probe *>(f.get()); if (!p->cell || *p->cell != 1) c.fail("lookup gives a destroyed field");
}
struct Shared { FieldRes::Ptr dummy; Field<float>::Ptr held[3]; };
static Shared *g_s = 0; static int g_regs[3];
// g: look layer up, use and keep it; k: register a new field for it, keep it; d: drop what is kept; D: drop the reference held from the start; m: memSize; G: look up and drop at once; L: look up, load and register when absent
static void runProg(Ctx &c, const std::string &prog) {
  Field<float>::Ptr own[3]; std::istringstream is(prog); std::string t;
  while (is >> t) {
    int k = t.size() > 1 ? t[1] - '0' : 0;
    switch (t[0]) {
    case 'g': { Field<float>::Ptr f = cache().getCachedField(FILEOF[k], LAYEROF[k]); if (f) { check(c, f, k); own[k] = f; } break; }
    case 'G': { Field<float>::Ptr f = cache().getCachedField(FILEOF[k], LAYEROF[k]); if (f) check(c, f, k); break; }
    case 'k': { Field<float>::Ptr f(new Probe(val(k))); cache().cacheField(f, FILEOF[k], LAYEROF[k]); own[k] = f; Field<float>::Ptr g = cache().getCachedField(FILEOF[k], LAYEROF[k]); if (!g && g_regs[k] == 1) c.fail("a registered field that is referenced is not found"); if (g) check(c, g, k); break; }
    case 'L': { Field<float>::Ptr f = cache().getCachedField(FILEOF[k], LAYEROF[k]); if (!f) { f = new Probe(val(k)); cache().cacheField(f, FILEOF[k], LAYEROF[k]); } check(c, f, k); own[k] = f; break; }
    case 'd': if (own[k]) check(c, own[k], k); own[k] = 0; break;
    case 'D': g_s->held[k] = 0; break;
    case 'm': if (cache().memSize() < 0) c.fail("memSize is nonsense"); break;
    }
  }
  for (int k = 0; k < 3; ++k) if (own[k]) check(c, own[k], k);
}
static void scen(std::vector<std::string> p, int bound) {
  std::string n; for (size_t i = 0; i < p.size(); ++i) n += (i ? " | " : "") + p[i];
  sched::scenario(n, bound, nullptr, [=](Ctx &c) {
    c.where("cache"); Probe::born = Probe::died = 0; Shared s; g_s = &s; for (int k = 0; k < 3; ++k) { g_regs[k] = 0; for (auto &q : p) for (size_t i = 0; i + 1 < q.size(); ++i) if ((q[i] == 'k' || q[i] == 'L') && q[i + 1] - '0' == k) ++g_regs[k]; } bool dropped[3] = {0, 0, 0};
    for (int k = 0; k < 3; ++k) { s.held[k] = new Probe(val(k)); cache().cacheField(s.held[k], FILEOF[k], LAYEROF[k]); }
    for (auto &q : p) for (size_t i = 0; i + 1 < q.size(); ++i) if (q[i] == 'D') dropped[q[i + 1] - '0'] = true;
    std::vector<std::function<void()> > fs; for (auto &q : p) fs.push_back([&c, q] { runProg(c, q); });
    sched::run(fs);
    for (int k = 0; k < 3; ++k) { Field<float>::Ptr f = cache().getCachedField(FILEOF[k], LAYEROF[k]); bool reg = g_regs[k] > 0;
      if (dropped[k] && f) c.fail("a field without references is found"); if (!dropped[k] && !reg && f.get() != s.held[k].get()) c.fail("a referenced field is not found any more", VS() << "layer " << k); }
    for (int k = 0; k < 3; ++k) { s.held[k] = 0; if (cache().getCachedField(FILEOF[k], LAYEROF[k])) c.fail("a field without references is found"); }
    if (Probe::born != Probe::died) c.fail("fields not destroyed exactly once", VS() << Probe::born << " created, " << Probe::died << " destroyed");
    c.step(); c.state(std::hash<std::string>()(n) + Probe::born);
  }, 20000, true);
}
// whole layers
static std::string g_file[2];
static FieldRes::Ptr layerField(int file, int l) { Spec s; s.st = l == 1 ? ST_SPARSE : ST_DENSE; s.e = s.d = box(0, 0, 0, 2, 1, 1); s.salt = 10 * file + l + 1; s.map = MK_DEFAULT; s.name = "p"; s.attr = l ? "b" : "a"; return mkField(s); }
static Field<float>::Vec g_keep;
static void readIt(Ctx &c, int file, int l, bool keep) {
  Field3DInputFile in; if (!in.open(g_file[file])) c.fail("a file cannot be opened while other threads read"); Field<float>::Vec v = in.readScalarLayers<float>("p", l ? "b" : "a");
  if (v.size() != 1) c.fail("a layer cannot be read while other threads read", VS() << v.size());
  std::string d = diffAny(TY_FLOAT, layerField(file, l).get(), v[0].get()); if (!d.empty()) c.fail("a layer read beside other threads is wrong", d);
  if (keep) v[0]->ref();
}
static void fscen(bool ogawa, std::vector<std::vector<int> > p, int held, int bound, bool big = false) {     // one program per thread: layers 2 * file + layer, read in turn; held: layer read beforehand and dropped by thread 0 first
  std::string n = VS() << fmtName(ogawa) << " layers" << (held >= 0 ? std::string(VS() << " (" << held << " dropped meanwhile)") : ""); for (auto &q : p) { n += " |"; for (int x : q) n += VS() << " " << x; }
  sched::scenario(n, bound, [=](Ctx &c) { initIO(); Format fm(ogawa); for (int f = 0; f < 2; ++f) { g_file[f] = VS() << c.tmpDir << "/t" << f << ".f3d"; Field3DOutputFile o; if (!o.create(g_file[f])) c.fail("cannot create"); for (int l = 0; l < 2; ++l) if (!writeAny(o, TY_FLOAT, "p", l ? "b" : "a", layerField(f, l))) c.fail("cannot write"); } },
    [=](Ctx &c) {
      c.where("layers"); FieldRes::Ptr start; if (held >= 0) { Field3DInputFile in; in.open(g_file[held / 2]); Field<float>::Vec v = in.readScalarLayers<float>("p", held % 2 ? "b" : "a"); start = v.at(0); }
      std::vector<std::function<void()> > fs; for (size_t i = 0; i < p.size(); ++i) fs.push_back([&, i] { if (!i && start) start = 0; for (int x : p[i]) readIt(c, x / 2, x % 2, false); });
      sched::run(fs); start = 0; for (int f = 0; f < 2; ++f) for (int l = 0; l < 2; ++l) readIt(c, f, l, false); c.step(); c.state(std::hash<std::string>()(n));
    }, 20000, !big);
}
void vp::registerScenarios(bool th) {
  static const char *A[] = {"g0", "G0", "k0", "L0", "D0", "g0 d0", "D0 g0", "D0 k0", "k0 d0", "L0 d0", "D0 L0", "m", "g1", "G2"};
  int n = 14;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { std::string a = A[i], b = A[j]; if (a.find('D') != std::string::npos && b.find('D') != std::string::npos) continue; if (a[0] != 'D' && j < i) continue; if (i >= 11 && j >= 11) continue; scen({a, b}, th ? 4 : 2); }
  static const char *T[][3] = {{"D0", "G0", "G0"}, {"D0", "g0", "L0"}, {"D0", "L0", "L0 d0"}, {"D0", "k0", "G0"}, {"D0", "G0", "m"}, {"g0 d0", "D0", "k0 d0"}, {"k0", "k0", "G0"}, {"D0", "D1", "m"}};
  for (auto &t : T) scen({t[0], t[1], t[2]}, th ? 3 : 1);
  for (int og = 1; og >= 0; --og) { int B = th ? 2 : 1;
    fscen(og, {{0}, {0}}, -1, B); fscen(og, {{0}, {1}}, -1, B); fscen(og, {{0}, {2}}, -1, B); if (th || !og) fscen(og, {{1}, {1}}, -1, B, th); fscen(og, {{0}, {0}}, 0, B); fscen(og, {{}, {0}}, 0, th ? 3 : 2); fscen(og, {{}, {1}}, 1, th ? 3 : 1); fscen(og, {{}, {0}, {0}}, 0, 1); if (th) fscen(og, {{0, 1}, {1, 0}}, -1, 1, true); }
}
