// L01: layers that are still in memory are shared, and only those. All histories of reading, dropping, changing, rewriting and replacing over two files, two handles and five queries.
#include "fileio.h"
#include "Field3D/FieldCache.h"
#include <sys/stat.h>
#include <fcntl.h>

struct Lay { const char *p, *l; int st, ty; };
static const Lay LAY[] = {{"p", "a", ST_DENSE, TY_FLOAT}, {"p", "b", ST_SPARSE, TY_FLOAT}, {"q", "a", ST_DENSE, TY_FLOAT}, {"p", "v", ST_DENSE, TY_V3F}, {"p", "a2", ST_DENSE, TY_DOUBLE}};
enum { NL = 5 };
static FieldRes::Ptr content(int file, int ver, int l) { Spec s; s.st = LAY[l].st; s.ty = LAY[l].ty; s.e = s.d = box(0, 0, 0, 2, 1, 1); s.content = CO_VARY; s.salt = 100 * ver + 10 * file + l; s.map = l == 2 ? MK_MAT2 : MK_MAT; s.name = LAY[l].p; s.attr = LAY[l].l; return mkField(s); }
static FieldRes::Ptr want(int file, int ver, int l) { static std::map<int, FieldRes::Ptr> m; FieldRes::Ptr &f = m[(file * 50 + ver) * NL + l]; if (!f) f = content(file, ver, l); return f; }
static const std::string &bytes(Ctx &c, bool og, int file, int ver) {
  static std::map<int, std::string> m; std::string &b = m[(file * 50 + ver) * 2 + og]; if (b.empty()) { TmpFile tf(c, "prep"); { Format fm(og); Field3DOutputFile o; if (!o.create(tf.p)) c.fail("cannot create"); for (int l = 0; l < NL; ++l) if (!writeAny(o, LAY[l].ty, LAY[l].p, LAY[l].l, content(file, ver, l))) c.fail("cannot write"); o.close(); } b = slurp(tf.p); } return b;
}
// time passes between two versions of a file, however fast the check runs
static void stamp(const std::string &p, int ver) { struct timespec t[2]; t[0].tv_sec = t[1].tv_sec = 1700000000 + ver / 2; t[0].tv_nsec = t[1].tv_nsec = 1000000 * (ver % 2 + 1); utimensat(AT_FDCWD, p.c_str(), t, 0); }
struct Held { int file, ver, l; FieldBase::Ptr f; bool changed; };
static bool sameField(int ty, FieldBase::Ptr f, int file, int ver, int l, std::string &d) { d = diffAny(ty, want(file, ver, l).get(), f.get()); if (d.empty() && (f->name != LAY[l].p || f->attribute != LAY[l].l)) d = "name " + f->name + ":" + f->attribute; if (d.empty()) d = diffMapping(want(file, ver, l)->mapping().get(), static_cast<FieldRes *>(f.get())->mapping().get(), 1e-9); return d.empty(); }
static void history(Ctx &c, bool og, int depth) {
  static const std::string tmp = c.tmpDir; std::string path[2] = {VS() << tmp << "/l" << getpid() << "a.f3d", VS() << tmp << "/l" << getpid() << "b.f3d"}; struct Rm { std::string *p; ~Rm() { unlink(p[0].c_str()); unlink(p[1].c_str()); } } rm{path}; int ver[2] = {0, 0}, hf[2] = {0, 1}, hv[2] = {0, 0}; Field3DInputFile in[2]; std::vector<Held> held; uint64_t h = og;
  for (int i = 0; i < 2; ++i) { spit(path[i], bytes(c, og, i, 0)); stamp(path[i], 0); if (!in[i].open(path[i])) c.fail("cannot open"); }
  auto got = [&](int file, int v, int l, FieldBase::Ptr f) {
    c.step(); std::string d; for (auto &x : held) { bool sameOne = x.file == file && x.ver == v && x.l == l; if (x.f.get() == f.get() && !sameOne) c.fail("two layers share one field", VS() << "file " << file << " version " << v << " " << LAY[l].p << ":" << LAY[l].l << " and file " << x.file << " version " << x.ver << " " << LAY[x.l].p << ":" << LAY[x.l].l); if (sameOne && x.f.get() != f.get()) c.fail("a layer that is in memory is loaded again"); if (sameOne) { held.push_back({file, v, l, f, x.changed}); return; } }
    if (!sameField(LAY[l].ty, f, file, v, l, d)) c.fail("a read gives something else than the file holds", VS() << "file " << file << " version " << v << " " << LAY[l].p << ":" << LAY[l].l << ": " << d); held.push_back({file, v, l, f, false}); };
  if (c.flag()) for (int l = 0; l < 4; ++l) { std::string p = LAY[l].p; FList r = readAny(in[0], LAY[l].ty, &p, LAY[l].l); if (r.size() != 1) c.fail("a layer is missing", VS() << r.size() << " found"); got(0, 0, l, r[0]); c.log(VS() << "handle 0 reads " << p << ":" << LAY[l].l); h = vp::mix(h, l); }
  for (int k = 0; k < depth; ++k) {
    static const int OPS[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 20, 21, 22}; int op = OPS[c.choose(20)]; // the second handle asks for the first two layers only
    h = vp::mix(h, op);
    if (op < 4) { int a = op & 1, f = op >> 1; c.log(VS() << "handle " << a << " opens file " << f); if (!in[a].open(path[f])) c.fail("cannot open"); hf[a] = f; hv[a] = ver[f]; }
    else if (op < 6) { c.log(VS() << "handle " << op - 4 << " closes"); in[op - 4].close(); hf[op - 4] = -1; }
    else if (op < 16) { int a = (op - 6) / NL, l = (op - 6) % NL; if (hf[a] < 0) return; c.log(VS() << "handle " << a << " reads " << LAY[l].p << ":" << LAY[l].l); std::string p = LAY[l].p; FList r = readAny(in[a], LAY[l].ty, &p, LAY[l].l); if (r.size() != 1) c.fail("a layer is missing", VS() << r.size() << " found"); got(hf[a], hv[a], l, r[0]); }
    else if (op < 17) { if (hf[0] < 0) return; c.log("handle 0 reads all layers named a"); FList r = readAny(in[0], TY_FLOAT, 0, "a"); if (r.size() != 2) c.fail("a layer is missing", VS() << r.size() << " found"); for (auto &f : r) got(hf[0], hv[0], f->name == "p" ? 0 : 2, f); }
    else if (op < 19) { if (held.empty()) return; c.log(op == 17 ? "drop the oldest" : "drop all"); if (op == 17) held.erase(held.begin()); else { if (held.size() < 2) return; held.clear(); } }
    else if (op < 20) { if (held.empty()) return; c.log("change the newest"); Held &x = held.back(); withType(LAY[x.l].ty, [&](auto t) { typedef typename decltype(t)::type T; typename WritableField<T>::Ptr w = field_dynamic_cast<WritableField<T> >(x.f); w->lvalue(0, 0, 0) = Mk<T>::of(77); return 0; }); }
    else if (op < 22) { int f = op - 20; c.log(VS() << "file " << f << " is replaced"); ++ver[f]; std::string t = path[f] + ".new"; spit(t, bytes(c, og, f, ver[f])); stamp(t, ver[f]); if (rename(t.c_str(), path[f].c_str())) c.fail("rename"); }
    else { int f = 0; c.log("file 0 is written again in place"); for (int a = 0; a < 2; ++a) if (hf[a] == f) { in[a].close(); hf[a] = -1; } ++ver[f]; spit(path[f], bytes(c, og, f, ver[f])); stamp(path[f], ver[f]); }
  }
  // what the cache believes is in memory is what is
  std::map<FieldBase *, long long> m[3]; for (auto &x : held) m[LAY[x.l].ty == TY_FLOAT ? 0 : LAY[x.l].ty == TY_DOUBLE ? 1 : 2][x.f.get()] = static_cast<FieldRes *>(x.f.get())->memSize(); long long s[3] = {0, 0, 0}; for (int t = 0; t < 3; ++t) for (auto &e : m[t]) s[t] += e.second;
  if (FieldCache<float>::singleton().memSize() != s[0] || FieldCache<double>::singleton().memSize() != s[1] || FieldCache<V3f>::singleton().memSize() != s[2]) c.fail("the cache reports another amount of memory in use", VS() << FieldCache<float>::singleton().memSize() << " instead of " << s[0]);
  c.step(); c.state(h);
}
#ifndef DEPTH
#define DEPTH 3
#endif
void vp::registerScenarios(bool th) { quietInit(); int d = DEPTH + th; scenario("histories/Ogawa", [=](Ctx &c) { history(c, true, d); }, opt(false, 3)); scenario("histories/HDF5", [=](Ctx &c) { history(c, false, d); }, opt(false, 3)); }
