// F04: a file lists and returns exactly the layers written. All sequences of layer writes up to a depth, every listing and fetching call checked against the list of writes.
#include "fileio.h"

struct W { std::string part, layer; int kind, map, salt; };
enum { K_F, K_V, K_H, K_SV, K_D, K_COUNT };
static int kindTy(int k) { static int t[] = {TY_FLOAT, TY_V3F, TY_HALF, TY_V3F, TY_DOUBLE}; return t[k]; }
static FieldRes::Ptr mk(const W &w) { Spec s; s.st = w.kind == K_SV ? ST_SPARSE : ST_DENSE; s.ty = kindTy(w.kind); s.e = s.d = box(0, 0, 0, 1, 0, 0); s.content = CO_VARY; s.salt = w.salt; s.map = w.map; s.name = w.part; s.attr = w.layer; return mkField(s); }
static const std::vector<int> &maps() { static std::vector<int> m = {MK_MAT, MK_MAT2, MK_NULL}; return m; }

static void checkFile(Ctx &c, const std::string &file, const std::vector<W> &ws, bool ogawa, const std::string &tag, bool rich = true) {
  Field3DInputFile in; VPCHECK(c, in.open(file), "finished file does not open" + tag, "");
  std::set<std::string> P, L; for (auto &w : ws) { P.insert(w.part); L.insert(w.layer); }
  std::vector<std::string> names; in.getPartitionNames(names); VPCHECK(c, names == std::vector<std::string>(P.begin(), P.end()), "partition names differ" + tag, VS() << names.size() << " listed, " << P.size() << " written");
  std::vector<std::string> askP(P.begin(), P.end()), askL(L.begin(), L.end()); for (const char *x : {"nowhere", "p.0", "q"}) if (!P.count(x)) askP.push_back(x); for (const char *x : {"l.0", "mapping"}) if (!L.count(x)) askL.push_back(x);
  for (auto &p : askP) {
    std::set<std::string> sc, ve; for (auto &w : ws) if (w.part == p) (kindTy(w.kind) >= TY_V3H ? ve : sc).insert(w.layer);
    std::vector<std::string> a, b; in.getScalarLayerNames(a, p); in.getVectorLayerNames(b, p); std::set<std::string> un(sc); un.insert(ve.begin(), ve.end());
    std::set<std::string> ga(a.begin(), a.end()), gb(b.begin(), b.end());
    VPCHECK(c, ga.size() == a.size() && gb.size() == b.size(), "a layer name is listed twice" + tag, "");
    if (!ogawa) VPCHECK(c, ga == sc && gb == ve, "layer names differ" + tag, "partition " + p);
    // the Ogawa class documents that it lists scalar and vector layers alike
    else { std::set<std::string> gu(ga); gu.insert(gb.begin(), gb.end()); VPCHECK(c, gu == un && std::includes(ga.begin(), ga.end(), sc.begin(), sc.end()) && std::includes(gb.begin(), gb.end(), ve.begin(), ve.end()), "layer names differ" + tag, "partition " + p); }
  }
  std::vector<int> tys = {TY_FLOAT, TY_V3F}; if (rich) tys.push_back(ws.size() & 1 ? TY_DOUBLE : TY_HALF); for (auto &w : ws) if (std::count(tys.begin(), tys.end(), kindTy(w.kind)) == 0) tys.push_back(kindTy(w.kind));
  for (int ty : tys) for (int generic = 0; generic < 2; ++generic) for (size_t pi = 0; pi <= askP.size(); ++pi) for (size_t li = 0; li <= askL.size(); ++li) {
    if (generic && ty != (ws.size() & 1 ? TY_FLOAT : TY_V3F)) continue;
    const std::string *p = pi < askP.size() ? &askP[pi] : 0; std::string l = li < askL.size() ? askL[li] : "";
    std::vector<const W *> want; for (auto &w : ws) if (kindTy(w.kind) == ty && (!p || w.part == *p) && (l.empty() || w.layer == l)) want.push_back(&w);
    if (p && (p->empty() || l.empty())) want.clear();    // both must be given
    FList got = readAny(in, ty, p, l, generic); std::string how = VS() << (p ? "partition and layer" : l.empty() ? "everything" : "layer") << (generic ? ", generic" : "") << tag;
    VPCHECK(c, got.size() == want.size(), "wrong number of layers by " + how, VS() << got.size() << " instead of " << want.size() << " of type " << tyName(ty));
    std::vector<bool> used(want.size()); for (auto &g : got) { bool found = false; for (size_t i = 0; i < want.size() && !found; ++i) if (!used[i] && g->name == want[i]->part && g->attribute == want[i]->layer) { FieldRes::Ptr o = mk(*want[i]); if (diffAny(ty, o.get(), g.get()).empty() && o->mapping()->isIdentical(g->mapping())) used[i] = found = true; }
      VPCHECK(c, found, "a layer comes back that was not written like this, by " + how, g->name + ":" + g->attribute); }
    c.step();
  }
}
static void sequences(Ctx &c, bool th, bool rich) {
  bool ogawa = c.flag(); int depth = th ? (rich ? 3 : 4) : (rich ? 2 : 3); int n = rich ? c.range(1, depth) : depth; std::string tag = VS() << " (" << fmtName(ogawa) << ")"; TmpFile tf(c);
  static const std::vector<std::string> parts[2] = {{"p", "q"}, {"p", "p.0", "default", "q"}}, layers[2] = {{"l", "m"}, {"l", "l.0"}};
  std::vector<W> ws; uint64_t h = ogawa; bool stopped = false;
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails" + tag, "");
    for (int i = 0; i < n && !stopped; ++i) {
      const std::vector<std::string> &ps = parts[rich], &ls = layers[rich]; int nk = rich ? (th ? K_COUNT : 4) : 2, nm = rich && th ? 3 : 2, full = ps.size() * ls.size() * nk * nm, op = c.choose(full + (rich ? 7 : 3)); h = vp::mix(h, op);
      if (op < full) { W w; w.part = ps[op % ps.size()]; op /= ps.size(); w.layer = ls[op % ls.size()]; op /= ls.size(); w.kind = op % nk; w.map = maps()[op / nk]; w.salt = i * 7 + 1;
        c.log(VS() << "write " << w.part << ":" << w.layer << " kind " << w.kind << " map " << w.map); int api = !rich ? 0 : i == n - 1 ? c.choose(3) : i % 3; FieldRes::Ptr f = mk(w); int ty = kindTy(w.kind); bool r;
        if (api == 2 && w.part == "default") r = ty >= TY_V3H ? out.writeVectorLayer<float>(w.layer, field_dynamic_cast<Field<V3f> >(f)) : ty == TY_FLOAT ? out.writeScalarLayer<float>(w.layer, field_dynamic_cast<Field<float> >(f)) : writeAny(out, ty, w.part, w.layer, f);
        else if (api == 2) r = withType(ty, [&](auto t) { typedef typename decltype(t)::type T; return out.writeLayer<T>(field_dynamic_cast<Field<T> >(f)); });
        else r = writeAny(out, ty, w.part, w.layer, f, api == 1);
        VPCHECK(c, r, VS() << "a layer write is refused" << tag, VS() << "write " << i); ws.push_back(w); }
      else { bool r = false; int k = op - full; c.log(VS() << "special write " << k); W w; w.part = "q"; w.layer = "l"; w.kind = K_F; w.map = MK_MAT; w.salt = 90 + i; FieldRes::Ptr f;
        switch (k) { case 0: r = out.writeScalarLayer<float>("p", "n", Field<float>::Ptr()); break; case 1: w.layer = "l/x"; r = writeAny(out, TY_FLOAT, "p", "l/x", mk(w)); if (r) { w.part = "p"; ws.push_back(w); } break; case 2: out.metadata().setIntMetadata("n", i); r = !out.writeGlobalMetadata(); if (i && r) r = false; stopped = false; break;
          case 3: r = writeAny(out, TY_FLOAT, "p.0/l", "z", mk(w)); break; case 4: r = writeAny(out, TY_FLOAT, "p", "mapping", mk(w)); break; case 5: r = out.writeVectorLayer<float>("nowhere", "n", Field<V3f>::Ptr()); break; case 6: r = !out.writeGroupMembership(); break; }
        VPCHECK(c, !r, VS() << "a special write has the wrong result" << tag, VS() << "special " << k); }
      c.step(); }
    if (h & 1) out.close(); }
  checkFile(c, tf.p, ws, ogawa, tag, rich); c.state(h);
}
// files that were never given a layer, and file objects without a file
static void edge(Ctx &c) {
  bool ogawa = c.flag(); int k = c.choose(4); std::string tag = VS() << " (" << fmtName(ogawa) << ")"; TmpFile tf(c); std::vector<W> none; W w; w.part = "p"; w.layer = "l"; w.kind = K_F; w.map = MK_MAT; w.salt = 1; Format fm(ogawa);
  if (k == 0) { { Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails" + tag, ""); } checkFile(c, tf.p, none, ogawa, tag); }
  else if (k == 1) { Field3DOutputFile out; VPCHECK(c, !writeAny(out, TY_FLOAT, "p", "l", mk(w)), "writing without a file succeeds" + tag, ""); }
  else if (k == 2) { { Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails" + tag, ""); VPCHECK(c, writeAny(out, TY_FLOAT, "p", "l", mk(w)), "write fails" + tag, ""); out.close(); VPCHECK(c, !writeAny(out, TY_FLOAT, "p", "m", mk(w)), "writing after close succeeds" + tag, ""); } none.push_back(w); checkFile(c, tf.p, none, ogawa, tag); }
  else { { Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails" + tag, ""); VPCHECK(c, writeAny(out, TY_FLOAT, "p", "l", mk(w)), "write fails" + tag, ""); } none.push_back(w); { Field3DOutputFile out; VPCHECK(c, !out.create(tf.p, Field3DOutputFile::FailOnExisting), "create does not fail on an existing file" + tag, ""); } checkFile(c, tf.p, none, ogawa, tag); }
  c.step(); c.state(ogawa * 4 + k);
}
void vp::registerScenarios(bool th) {
  quietInit();
  scenario("sequences of writes", [=](Ctx &c) { sequences(c, th, false); }, opt(false, 4));
  scenario("rich sequences of writes", [=](Ctx &c) { sequences(c, th, true); }, opt(false, 4));
  scenario("edge cases", [=](Ctx &c) { edge(c); }, opt(true, 2));
}
