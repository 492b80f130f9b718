// F05: file objects can be reused. All sequences of operations on one input or output object, compared with fresh objects.
#include "fileio.h"
#include <fstream>

static FieldRes::Ptr mk(int ty, int st, int map, int salt, const char *n, const char *a) { Spec s; s.st = st; s.ty = ty; s.e = s.d = box(0, 0, 0, 2, 1, 0); s.content = CO_VARY; s.salt = salt; s.map = map; s.name = n; s.attr = a; s.meta = salt & 1; return mkField(s); }
static std::string describe(int ty, FieldRes::Ptr f) {
  std::ostringstream o; o << f->name << ":" << f->attribute << " " << f->classType() << str(f->extents()) << str(f->dataWindow()) << " "; withType(ty, [&](auto t) { typedef typename decltype(t)::type T; typename Field<T>::Ptr p = field_dynamic_cast<Field<T> >(f); FOR_BOX(f->dataWindow(), x, y, z) o << str(p->value(x, y, z)) << ","; return 0; });
  V3d w; f->mapping()->voxelToWorld(V3d(1, 2, 3), w); o << f->mapping()->className() << w; FieldMetadata &m = f->metadata(); for (auto &e : m.strMetadata()) o << e.first << "=" << e.second; for (auto &e : m.intMetadata()) o << e.first << "=" << e.second; return o.str();
}
// everything an input object shows
static std::string snap(Field3DInputFile &in) {
  std::ostringstream o; std::vector<std::string> n, l; in.getPartitionNames(n); for (auto &p : n) { o << "P " << p << "\n"; in.getScalarLayerNames(l, p); for (auto &x : l) o << " s " << x << "\n"; in.getVectorLayerNames(l, p); for (auto &x : l) o << " v " << x << "\n"; }
  std::multiset<std::string> d; for (int ty : {TY_FLOAT, TY_V3F}) { for (auto &f : readAny(in, ty, 0, "")) d.insert(describe(ty, f)); for (auto &p : n) for (auto &f : readAny(in, ty, &p, "l")) d.insert("by name " + describe(ty, f)); }
  for (auto &x : d) o << x << "\n"; FieldMetadata &m = in.metadata(); for (auto &e : m.strMetadata()) o << "M " << e.first << "=" << e.second << "\n"; for (auto &e : m.intMetadata()) o << "M " << e.first << "=" << e.second << "\n"; for (auto &e : m.vecFloatMetadata()) o << "M " << e.first << "=" << e.second << "\n";
  o << "encoding " << in.encoding() << "\n"; return o.str();
}
struct Files { std::vector<std::string> f; std::vector<bool> ok; std::vector<std::string> want; std::string dir; };
static const Files &files(Ctx &c) {   // a fixed set of files: both formats, with shared and different names, metadata only in some, and files that cannot be opened
  static Files F; if (!F.f.empty()) return F; F.dir = c.tmpDir;
  auto path = [&](const char *t) { return uniqueFile(c, t); };
  for (int i = 0; i < 5; ++i) { bool ogawa = i % 2 == 0; Format fm(ogawa); std::string p = path("in"); Field3DOutputFile out; out.create(p);
    if (i < 2) { writeAny(out, TY_FLOAT, "p", "l", mk(TY_FLOAT, ST_DENSE, MK_MAT, i, "p", "l")); writeAny(out, TY_V3F, "q", "m", mk(TY_V3F, ST_SPARSE, MK_MAT2, i + 10, "q", "m")); out.metadata().setStrMetadata(i ? "h" : "o", "x"); out.metadata().setIntMetadata("both", i); out.writeGlobalMetadata(); }
    else if (i < 4) { writeAny(out, TY_FLOAT, "p", "l", mk(TY_FLOAT, ST_SPARSE, MK_MAT2, 20 + i, "p", "l")); writeAny(out, TY_FLOAT, "p", "l", mk(TY_FLOAT, ST_DENSE, MK_MAT, 30 + i, "p", "l")); }
    out.close(); F.f.push_back(p); F.ok.push_back(true); }
  F.f.push_back(std::string(c.tmpDir) + "/missing.f3d"); F.ok.push_back(false);
  { std::string p = path("bad"); std::ofstream(p) << "this is not a field file at all, but long enough to be looked at"; F.f.push_back(p); F.ok.push_back(false); }
  { std::string p = path("empty"); std::ofstream(p.c_str()).flush(); F.f.push_back(p); F.ok.push_back(false); }
  for (size_t i = 0; i < F.f.size(); ++i) { Field3DInputFile in; bool r = in.open(F.f[i]); F.want.push_back(r ? snap(in) : ""); if (r != F.ok[i]) F.ok[i] = r; }
  return F;
}
static void input(Ctx &c, bool th) {
  const Files &F = files(c); int n = th ? 4 : 3, nf = F.f.size(); Field3DInputFile in; int cur = -1; uint64_t h = 1; FList kept;
  for (int i = 0; i < n; ++i) { int op = c.choose(nf + 3); h = vp::mix(h, op); c.log(VS() << "op " << op);
    if (op < nf) { bool r = in.open(F.f[op]); VPCHECK(c, r == F.ok[op], r ? "a file opens with a used object that a fresh one rejects" : "a file does not open with a used object", VS() << "file " << op); cur = r ? op : -2; }
    else if (op == nf) { in.close(); cur = -2; }
    else if (op == nf + 1) { if (cur >= 0) { FList r = readAny(in, TY_FLOAT, 0, ""); kept.insert(kept.end(), r.begin(), r.end()); } }
    else if (cur >= 0) { in.metadata().setStrMetadata("set by the user", "y"); cur = -3; }      // from now on only the metadata differ from a fresh object, until the next open
    c.step();
    if (cur >= 0) { std::string s = snap(in); VPCHECK(c, s == F.want[cur], "an open file looks different through a used object", VS() << "file " << cur << ":\n" << s << "instead of\n" << F.want[cur]); }
    else if (cur == -2 && op != nf + 2) { Field3DInputFile g; std::string s = snap(in); VPCHECK(c, s.find("by name") == s.npos || op == nf, "a file that did not open shows layers", s); }
  }
  c.state(h);
}
// output
struct Seg { int file; std::vector<int> ops; };
static const char *opName[] = {"create 0 Ogawa", "create 0 HDF5", "create 1 Ogawa", "create 1 HDF5", "close", "write p:l", "write p:l other mapping", "write q:v", "metadata", "create in a missing directory", "create existing, FailOnExisting"};
static void apply(Ctx *c, Field3DOutputFile &out, int op, int idx) {
  bool r = true;
  switch (op) { case 5: r = writeAny(out, TY_FLOAT, "p", "l", mk(TY_FLOAT, ST_DENSE, MK_MAT, idx, "p", "l")); break; case 6: r = writeAny(out, TY_FLOAT, "p", "l", mk(TY_FLOAT, ST_SPARSE, MK_MAT2, idx, "p", "l")); break;
    case 7: r = writeAny(out, TY_V3F, "q", "v", mk(TY_V3F, ST_DENSE, MK_MAT, idx, "q", "v")); break; case 8: out.metadata().setIntMetadata(VS() << "m" << idx, idx); r = out.writeGlobalMetadata(); break; }
  if (c) VPCHECK((*c), r, VS() << "a write with a used object fails: " << opName[op], "");
}
static std::string expect(Ctx &c, const std::vector<int> &ops, bool ogawa) {   // the same writes with a fresh object, remembered
  static std::map<std::vector<int>, std::string> memo; std::vector<int> key = ops; key.push_back(ogawa); auto it = memo.find(key); if (it != memo.end()) return it->second;
  TmpFile tf(c, "fresh"); { Format fm(ogawa); Field3DOutputFile out; out.create(tf.p); for (int o : ops) apply(0, out, o & 15, o >> 4); } Field3DInputFile in; std::string s = in.open(tf.p) ? snap(in) : "does not open"; memo[key] = s; return s;
}
static void output(Ctx &c, bool th) {
  int n = th ? 6 : 5; TmpFile f0(c, "out"), f1(c, "out"); const std::string fn[2] = {f0.p, f1.p}; std::vector<int> done[2], cur; int curFile = -1; bool fmt[2] = {false, false}, curFmt = false, exists[2] = {false, false}, metaDone = false; uint64_t h = 1;
  { Field3DOutputFile out;
    auto finish = [&]() { if (curFile >= 0) { done[curFile] = cur; fmt[curFile] = curFmt; exists[curFile] = true; } curFile = -1; cur.clear(); metaDone = false; };
    for (int i = 0; i < n; ++i) { int op = i == 0 ? c.choose(4) : c.choose(11); c.log(opName[op]); h = vp::mix(h, op);
      if (op < 4) { finish(); Format fm(op % 2 == 0); VPCHECK(c, out.create(fn[op / 2]), "create with a used object fails", opName[op]); curFile = op / 2; curFmt = op % 2 == 0; exists[curFile] = true; }
      else if (op == 4) { out.close(); finish(); }
      else if (op < 9) { if (curFile < 0 || (op == 8 && metaDone)) c.prune(); if (op == 8) metaDone = true; apply(&c, out, op, i); cur.push_back(op + 16 * i); }
      else { bool og = curFile >= 0 ? !curFmt : true; finish(); Format fm(og); VPCHECK(c, op == 9 ? !out.create(std::string(c.tmpDir) + "/no/such/dir/f.f3d") : exists[0] ? !out.create(fn[0], Field3DOutputFile::FailOnExisting) : true, "a create that must fail does not", opName[op]); if (op == 10 && !exists[0]) c.prune(); }
      c.step(); }
    finish(); }
  for (int k = 0; k < 2; ++k) if (exists[k]) { Field3DInputFile in; bool r = in.open(fn[k]); std::string want = expect(c, done[k], fmt[k]), s = r ? snap(in) : "does not open"; VPCHECK(c, s == want, VS() << "a file written with a used object differs (" << fmtName(fmt[k]) << ")", s + "instead of\n" + want); }
  c.state(h);
}
void vp::registerScenarios(bool th) {
  quietInit();
  scenario("input objects", [=](Ctx &c) { input(c, th); }, opt(false, 2));
  scenario("output objects", [=](Ctx &c) { output(c, th); }, opt(false, 3));
}
