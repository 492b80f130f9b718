// F03: metadata (per field and per file) and names survive a round trip. All entries over an alphabet of keys, types and values; all name pairs.
#include "fileio.h"

struct Entry { int type; std::string key; int val; };
static const char *tn[] = {"string", "int", "float", "vec-int", "vec-float"};
static const std::vector<std::string> &keys() { static std::vector<std::string> k = {"k", "second key", "a/b", "", "k.1", std::string(300, 'q'), "name", "\xc3\xa9"}; return k; }
static int nVals(int type) { return type == 0 ? 5 : 3; }
static std::string strVal(int v) { switch (v) { case 0: return ""; case 1: return "x"; case 2: return std::string("line\nbreak \t trailing  "); case 3: return std::string(70000, 'w') + "end"; default: return std::string("nul\0inside", 10); } }
static int intVal(int v) { static int a[] = {0, -2147483647 - 1, 123456789}; return a[v]; }
static float floatVal(int v) { static float a[] = {0.1f, -0.0f, std::numeric_limits<float>::infinity()}; return a[v]; }
static void put(FieldMetadata &m, const Entry &e) {
  switch (e.type) { case 0: m.setStrMetadata(e.key, strVal(e.val)); break; case 1: m.setIntMetadata(e.key, intVal(e.val)); break; case 2: m.setFloatMetadata(e.key, floatVal(e.val)); break;
    case 3: m.setVecIntMetadata(e.key, V3i(intVal(e.val), e.val, -7)); break; default: m.setVecFloatMetadata(e.key, V3f(floatVal(e.val), e.val, -7.5f)); break; }
}
static bool hasNul(const Entry &e) { return e.type == 0 && e.val == 4; }
static std::string lab(const Entry &e) { return VS() << tn[e.type] << (e.key.empty() ? ", empty key" : e.key.find('/') != e.key.npos ? ", key with a slash" : "") << (e.type == 0 && strVal(e.val).empty() ? ", empty value" : hasNul(e) ? ", value with a zero byte" : e.type == 0 && e.val == 3 ? ", long value" : ""); }
static FieldRes::Ptr mk(int st, int ty, int salt) { Spec s; s.st = st; s.ty = ty; s.e = s.d = box(0, 0, 0, 2, 1, 1); s.content = CO_VARY; s.salt = salt; return mkField(s); }

struct MB { FieldMetadata m; MB() : m(0) {} FieldMetadata &metadata() { return m; } };   // expected metadata
static void compare(Ctx &c, const FieldMetadata &want, const FieldMetadata &got, const std::string &what) { std::string d = diffMetadata(want, got); VPCHECK(c, d.empty(), what, d); }

static void single(Ctx &c, bool th) {
  bool ogawa = c.flag(), global = c.flag(); int st = global ? ST_DENSE : c.choose(th ? ST_COUNT : 4); if (st == ST_MAC && ogawa) c.prune(); if (st == ST_MIPD && !th) st = ST_MIPS;
  int n = c.range(0, 2); std::vector<Entry> es;
  for (int i = 0; i < n; ++i) { Entry e; e.type = c.choose(5); e.key = keys()[c.choose(i == 0 ? (int)keys().size() : th ? 4 : 2)]; e.val = c.choose(i == 0 || th ? nVals(e.type) : 2); es.push_back(e); }
  if (n == 2 && st > 1 && !th) c.prune();
  MB want; std::string l; bool clash = n == 2 && es[0].key == es[1].key && es[0].type != es[1].type; for (auto &e : es) { put(want.metadata(), e); l += (l.empty() ? "" : " + ") + lab(e); }
  l = VS() << (global ? "global " : "") << (clash ? "one key with two types" : n == 2 && es[0].type != es[1].type && !hasNul(es[0]) && !hasNul(es[1]) && !es[0].key.empty() && !es[1].key.empty() && es[0].key.find('/') == std::string::npos && es[1].key.find('/') == std::string::npos ? std::string("two entries") : l) << " (" << fmtName(ogawa) << ")"; c.log(VS() << l << " " << stName(st)); TmpFile tf(c);
  FieldRes::Ptr f = mk(st, TY_V3F, 0); if (!global) { for (auto &e : es) put(f->metadata(), e); want.m = f->metadata(); } bool w;   // snapshot: a MIP field carries an entry of its own
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", ""); if (global) { for (auto &e : es) put(out.metadata(), e); w = out.writeGlobalMetadata(); VPCHECK(c, writeAny(out, TY_V3F, "p", "l", f), "writing a field after global metadata fails: " + l, ""); } else w = writeAny(out, TY_V3F, "p", "l", f); c.step(); }
  bool emptyKey = false; for (auto &e : es) emptyKey |= e.key.empty();
  if (!w && (clash || emptyKey) && !ogawa) { c.state(vp::hashStr(l)); return; }     // an HDF5 object cannot have two attributes of one name or one without a name: refused
  VPCHECK(c, w, "writing metadata fails: " + l, "");
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails: " + l, ""); FList r = readAny(in, TY_V3F, 0, "l"); VPCHECK(c, r.size() == 1, "layer is not read back: " + l, VS() << r.size()); c.step();
  MB none; if (!global) { compare(c, want.metadata(), r[0]->metadata(), "field metadata differs: " + l); compare(c, none.metadata(), in.metadata(), "field metadata appears as global metadata (" + std::string(fmtName(ogawa)) + ")"); }
  else { compare(c, want.metadata(), in.metadata(), "global metadata differs: " + l); compare(c, none.metadata(), r[0]->metadata(), "global metadata appears on a field (" + std::string(fmtName(ogawa)) + ")"); }
  if (!global && (st == ST_MIPD || st == ST_MIPS)) { FieldMetadata *lm = 0; FieldRes::Ptr lev; if (st == ST_MIPD) lev = field_dynamic_cast<MIPField<DenseField<V3f> > >(r[0])->concreteMipLevel(0); else lev = field_dynamic_cast<MIPField<SparseField<V3f> > >(r[0])->concreteMipLevel(0); lm = &lev->metadata(); compare(c, want.metadata(), *lm, "metadata of a MIP level differs: " + l); }
  if (!global) { EmptyField<V3f>::Vec p = in.readProxyLayer<V3f>("p", "l", true); VPCHECK(c, p.size() == 1, "no proxy: " + l, ""); MB w2; w2.m = want.m; w2.metadata().setIntMetadata("mip_levels", st >= ST_MIPD ? 2 : 0); compare(c, w2.metadata(), p[0]->metadata(), "proxy metadata differs: " + l); }
  uint64_t h = vp::mix(ogawa * 2 + global, st); for (auto &e : es) h = vp::mix(h, vp::mix(e.type * 16 + e.val, vp::hashStr(e.key))); c.state(h);
}
// two fields and the file carry the same or different keys: nothing moves between them
static void several(Ctx &c, bool th) {
  bool ogawa = c.flag(), samePart = c.flag(), sameLayer = c.flag(); Entry e[3]; FieldRes::Ptr f[2]; MB want[3];
  for (int i = 0; i < 3; ++i) { e[i].type = c.choose(6); e[i].key = c.flag() ? "k" : "other"; e[i].val = i % 3; if (e[i].type < 5) put(want[i].metadata(), e[i]); }
  std::string l = VS() << " (" << fmtName(ogawa) << ")"; TmpFile tf(c);
  for (int i = 0; i < 2; ++i) { f[i] = mk(i ? ST_SPARSE : ST_DENSE, TY_V3F, i); if (e[i].type < 5) put(f[i]->metadata(), e[i]); }
  int when = c.choose(th ? 3 : 2);
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", ""); if (e[2].type < 5) put(out.metadata(), e[2]);
    for (int i = 0; i < 2; ++i) { if (when == i) VPCHECK(c, out.writeGlobalMetadata(), "writing global metadata fails" + l, ""); VPCHECK(c, writeAny(out, TY_V3F, i && !samePart ? "q" : "p", i && !sameLayer ? "m" : "l", f[i]), "write fails" + l, ""); c.step(); } if (when == 2) VPCHECK(c, out.writeGlobalMetadata(), "writing global metadata fails" + l, ""); }
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails" + l, ""); FList r = readAny(in, TY_V3F, 0, ""); VPCHECK(c, r.size() == 2, "two layers are not read back" + l, VS() << r.size());
  for (int i = 0; i < 2; ++i) { FieldRes::Ptr g; for (auto &x : r) if (std::string(x->classType()) == f[i]->classType()) g = x; VPCHECK(c, g, "a layer is missing" + l, ""); compare(c, want[i].metadata(), g->metadata(), "metadata of one of two fields differs" + l);
    VPCHECK(c, g->name == (i && !samePart ? "q" : "p") && g->attribute == (i && !sameLayer ? "m" : "l"), "name of one of two fields differs" + l, g->name + ":" + g->attribute); }
  compare(c, want[2].metadata(), in.metadata(), "global metadata differs next to two fields" + l);
  uint64_t h = ogawa * 8 + samePart * 4 + sameLayer * 2 + when * 16; for (auto &x : e) h = vp::mix(h, x.type * 2 + (x.key == "k")); c.state(h);
}
// names
static void names(Ctx &c, bool th) {
  static const std::vector<std::string> al = {"part", "a.b", "a.0", "name with space", "x/y", "mapping", "field3d_global_metadata", ".", "", "metadata", "\xc3\xa9", "a", "5", std::string(200, 'n'), "..", "data", "a."};
  bool ogawa = c.flag(), vec = c.flag(); int api = c.choose(3); const std::string &p = api == 1 ? std::string("default") : c.pick(al), &a = c.pick(al); TmpFile tf(c); int ty = vec ? TY_V3F : TY_FLOAT; bool pre = c.flag();
  std::string kind = VS() << (p.empty() ? "empty partition name, " : p.find('/') != p.npos ? "slash in partition name, " : p[0] == '.' ? "dots as partition name, " : "") << (a.empty() ? "empty layer name, " : a == "mapping" ? "layer named mapping, " : a == "." || a == ".." ? "dots as layer name, " : a.find('/') != a.npos ? "slash in layer name, " : "") << fmtName(ogawa);
  // what HDF5 cannot hold (path separators, the name of the object itself, nothing) and what the calls document as refused
  bool special = p.empty() || a.empty() || a == "mapping" || p.find('/') != p.npos || a.find('/') != a.npos || (!ogawa && (a == "." || a == ".."));
  FieldRes::Ptr f = mk(ST_DENSE, ty, 0), o = mk(ST_SPARSE, ty, 5); f->name = p; f->attribute = a; bool w; c.log(VS() << "partition '" << p << "' layer '" << a << "' api " << api << " " << fmtName(ogawa));
  { Format fm(ogawa); Field3DOutputFile out; VPCHECK(c, out.create(tf.p), "create fails", ""); if (pre) VPCHECK(c, writeAny(out, ty, p.empty() ? "p" : p == "x/y" ? "z" : p, "other", o), "write fails: " + kind, "first layer");
    if (api == 0) w = writeAny(out, ty, p, a, f); else if (api == 1) w = vec ? out.writeVectorLayer<float>(a, field_dynamic_cast<Field<V3f> >(f)) : out.writeScalarLayer<float>(a, field_dynamic_cast<Field<float> >(f)); else w = vec ? out.writeVectorLayer<float>(field_dynamic_cast<Field<V3f> >(f)) : out.writeScalarLayer<float>(field_dynamic_cast<Field<float> >(f)); c.step(); }
  VPCHECK(c, w || special, "write fails: " + kind, "");
  Field3DInputFile in; VPCHECK(c, in.open(tf.p), "open fails: " + kind, ""); FList all = readAny(in, ty, 0, ""); std::vector<FieldRes::Ptr> r; int others = 0;
  for (auto &x : all) if (x->classType() == std::string(o->classType())) ++others; else r.push_back(x);
  VPCHECK(c, others == (pre ? 1 : 0), "the other layer is lost: " + kind, "");
  if (!w) { VPCHECK(c, r.empty(), "a refused layer is in the file: " + kind, ""); c.state(vp::hashStr(p + "|" + a) + api * 4 + ogawa * 2 + vec + pre * 64); return; }
  VPCHECK(c, r.size() == 1, "written layer is not read back: " + kind, VS() << r.size() << " layers"); VPCHECK(c, r[0]->name == p && r[0]->attribute == a, "name or attribute differs: " + kind, r[0]->name + ":" + r[0]->attribute);
  std::string d = diffAny(ty, mk(ST_DENSE, ty, 0).get(), r[0].get()); VPCHECK(c, d.empty(), "contents differ: " + kind, d);
  if (!p.empty() && !a.empty() && !(pre && a == "other")) { FList q = readAny(in, ty, &p, a); VPCHECK(c, q.size() == 1 && q[0]->name == p && q[0]->attribute == a, "layer is not found by its names: " + kind, VS() << q.size());
    std::vector<std::string> pn, ln; in.getPartitionNames(pn); VPCHECK(c, std::count(pn.begin(), pn.end(), p) == 1 && pn.size() <= 2, "partition name is not listed once: " + kind, VS() << pn.size()); if (vec) in.getVectorLayerNames(ln, p); else in.getScalarLayerNames(ln, p); VPCHECK(c, std::count(ln.begin(), ln.end(), a) == 1, "layer name is not listed once: " + kind, VS() << ln.size()); }
  c.state(vp::hashStr(p + "|" + a) + api * 4 + ogawa * 2 + vec + pre * 64);
}
void vp::registerScenarios(bool th) {
  quietInit();
  scenario("entries", [=](Ctx &c) { single(c, th); }, opt(false, 5));
  scenario("two fields and the file", [=](Ctx &c) { several(c, th); }, opt(false, 5));
  scenario("names", [=](Ctx &c) { names(c, th); }, opt(false, 4));
}
