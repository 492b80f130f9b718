// F01: write/read round trip of voxel data and sparse structure. structure x type x format x threads x window x block order x content.
#include "fileio.h"

static void roundTrip(Ctx &c, const Spec &s, bool ogawa, int wt, int rt, bool generic) {
  std::string lab = VS() << stName(s.st) << " " << fmtName(ogawa);
  c.log(VS() << s.full() << " " << fmtName(ogawa) << " write threads " << wt << " read threads " << rt << (generic ? " generic calls" : ""));
  TmpFile tf(c); FieldRes::Ptr f = mkField(s); c.step();
  bool wrote;
  { Format fm(ogawa); Threads th(wt); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails: " + lab, tf.p); wrote = writeAny(out, s.ty, "part", "layer", f, generic); out.close(); }
  std::string d = diffAny(s.ty, mkField(s).get(), f.get()); VPCHECK(c, d.empty(), "writing changes the field: " + lab, d);
  if (!wrote) c.fail("writing a layer fails: " + lab, s.full());
  { Threads th(rt); Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails: " + lab, s.full()); c.step();
    std::string part = "part"; FList r = readAny(in, s.ty, &part, "layer", generic);
    VPCHECK(c, r.size() == 1, VS() << "layer is not read back (" << lab << ")", VS() << s.full() << ": " << r.size() << " fields");
    FieldRes::Ptr g = mkField(s); d = diffAny(s.ty, g.get(), r[0].get());
    if (!d.empty()) c.fail(VS() << kindVox(d) << " differs after reading (" << lab << ")", VS() << s.full() << ": " << d);
    VPCHECK(c, r[0]->name == "part" && r[0]->attribute == "layer", "name differs after reading (" + lab + ")", r[0]->name + ":" + r[0]->attribute);
    c.step(); }
  uint64_t h = vp::mix(vp::hashStr(s.full()), ogawa * 64 + wt * 8 + rt + generic * 1024); c.state(h);
}
static std::vector<int> contents(int st) { return st == ST_SPARSE || st == ST_MIPS ? std::vector<int>{CO_CONST, CO_VARY, CO_SPECIAL, CO_ONE, CO_CHECKER} : std::vector<int>{CO_CONST, CO_VARY, CO_SPECIAL}; }

// all windows up to mx voxels per axis at several positions
static void shapes(Ctx &c, int st, bool th) {
  Spec s; s.st = st; s.ty = c.choose(TY_COUNT); if (st == ST_MAC && s.ty < TY_V3H) c.prune();
  bool ogawa = c.flag(), sparse = st == ST_SPARSE || st == ST_MIPS; bool mip = st == ST_MIPD || st == ST_MIPS;
  std::vector<int> len = th ? std::vector<int>{1, 2, 3, 5, 9} : std::vector<int>{1, 2, 5};
  V3i sz(c.pick(len), c.pick(len), c.pick(len)); V3i o = c.pick(std::vector<V3i>{V3i(0), V3i(-3, 2, -1)});
  s.d = Box3i(o, o + sz - V3i(1));
  int ek = c.choose(3); s.e = ek == 0 ? s.d : ek == 1 ? Box3i(s.d.min - V3i(1, 0, 2), s.d.max + V3i(0, 3, 1)) : Box3i(V3i(s.d.min + V3i(1, 0, 0)), s.d.max + V3i(1, 0, 0));
  s.order = sparse ? c.choose(th ? 3 : 2) : 0; s.content = c.pick(contents(st)); s.levels = mip ? 3 : 1;
  if (!th && (s.ty != TY_FLOAT && s.ty != TY_V3H || mip) && (ek == 1 || sz.y == 2)) c.prune();
  roundTrip(c, s, ogawa, 1, 1, false);
}
// worker thread counts (free running; every schedule is explored by T01)
static void threads(Ctx &c, bool th) {
  Spec s; s.st = c.pick(std::vector<int>{ST_SPARSE, ST_MIPS}); s.ty = c.pick(th ? std::vector<int>{TY_HALF, TY_FLOAT, TY_V3D, TY_V3H, TY_DOUBLE, TY_V3F} : std::vector<int>{TY_FLOAT, TY_V3H});
  bool ogawa = c.flag(); V3i sz = c.pick(std::vector<V3i>{V3i(1), V3i(5, 4, 3), V3i(17, 2, 6)}); V3i o = c.flag() ? V3i(-2, 1, 3) : V3i(0);
  s.e = s.d = Box3i(o, o + sz - V3i(1)); s.order = c.choose(3); s.content = c.pick(contents(s.st));
  int wt = c.pick(th ? std::vector<int>{1, 2, 3, 8} : std::vector<int>{1, 3, 8}), rt = c.pick(th ? std::vector<int>{1, 2, 5, 16} : std::vector<int>{1, 2, 5});
  roundTrip(c, s, ogawa, wt, rt, false);
}
// the type-neutral calls, in both formats
static void generic(Ctx &c) {
  Spec s; s.st = c.choose(ST_COUNT); s.ty = c.choose(TY_COUNT); if (s.st == ST_MAC && s.ty < TY_V3H) c.prune();
  s.e = s.d = c.flag() ? box(0, 0, 0, 0, 0, 0) : box(-1, 2, 0, 3, 3, 2); s.content = c.pick(contents(s.st)); bool ogawa = c.flag();
  roundTrip(c, s, ogawa, 1, 1, true);
}
// several layers in one file keep their own contents; block orders and larger blocks
static void several(Ctx &c, bool th) {
  int n = c.range(2, 3); bool ogawa = c.flag(); std::vector<Spec> v; TmpFile tf(c);
  for (int i = 0; i < n; ++i) { Spec s; s.st = c.choose(ST_COUNT); s.ty = i == 0 ? TY_V3F : c.pick(std::vector<int>{TY_FLOAT, TY_V3H}); if (s.st == ST_MAC && (ogawa || s.ty < TY_V3H)) c.prune();
    s.d = box(i, -i, 0, 4 + i, 2, 1 + i); s.e = s.d; s.order = i; s.content = i == 0 ? CO_VARY : CO_CHECKER; if (s.content == CO_CHECKER && s.st != ST_SPARSE && s.st != ST_MIPS) s.content = CO_VARY; s.salt = i * 7; v.push_back(s); }
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", ""); for (int i = 0; i < n; ++i) { VPCHECK(c, writeAny(out, v[i].ty, "part", VS() << "l" << i, mkField(v[i])), VS() << "writing a layer fails: " << stName(v[i].st) << " " << fmtName(ogawa), v[i].full()); c.step(); } }
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails", "");
  for (int k = n - 1; k >= 0; --k) { FList r = readAny(in, v[k].ty, 0, VS() << "l" << k); std::string lab = VS() << stName(v[k].st) << " " << fmtName(ogawa); VPCHECK(c, r.size() == 1, "one of several layers is not read back: " + lab, VS() << r.size());
    std::string d = diffAny(v[k].ty, mkField(v[k]).get(), r[0].get()); VPCHECK(c, d.empty(), kindVox(d) + " differs in a file of several layers: " + lab, v[k].full() + ": " + d); c.step(); }
  uint64_t h = ogawa; for (auto &s : v) h = vp::mix(h, vp::hashStr(s.full())); c.state(h);
}
void vp::registerScenarios(bool th) {
  quietInit();
  for (int st = 0; st < ST_COUNT; ++st) scenario(VS() << "shapes/" << stName(st), [=](Ctx &c) { shapes(c, st, th); }, opt(false, 4));
  scenario("threads", [=](Ctx &c) { threads(c, th); }, opt(false, 5));
  scenario("generic calls", [=](Ctx &c) { generic(c); }, opt(false, 3));
  scenario("several layers", [=](Ctx &c) { several(c, th); }, opt(false, 4));
}
