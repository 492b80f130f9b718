// F09: the archive layer. Every small program of group, attribute and data set creation against a tree, read back through every query; and the raw group/data layer against a graph.
#include "fileio.h"
#include "OgawaUtil.h"
#include "OArchive.h"
#include "OGroup.h"
#include "OData.h"
#include "IArchive.h"
#include "IGroup.h"
#include "IData.h"
#include "OgIO.h"
namespace AO = Alembic::Ogawa; typedef std::string Str;
#define OG_POD(X) X(int8_t) X(uint8_t) X(int16_t) X(uint16_t) X(int32_t) X(uint32_t) X(int64_t) X(uint64_t) X(float16_t) X(float32_t) X(float64_t) X(vec16_t) X(vec32_t) X(vec64_t) X(veci32_t) X(mtx64_t)
enum { NPOD = 16, NTY = 17 };
template <class Fn> void withOg(int t, Fn f) { int i = 0;
#define X(T) if (t == i++) { f(Tag<T>()); return; }
  OG_POD(X)
#undef X
}
static const char *ogName(int t) { static const char *n[] = {"int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64", "vec16", "vec32", "vec64", "veci32", "mtx64", "string"}; return n[t]; }
static size_t ogSize(int t) { size_t s = 1; withOg(t, [&](auto g) { s = sizeof(typename decltype(g)::type); }); return s; }
static OgDataType ogEnum(int t) { OgDataType r = OgawaTypeTraits<Str>::typeEnum(); withOg(t, [&](auto g) { r = OgawaTypeTraits<typename decltype(g)::type>::typeEnum(); }); return r; }
static Str bytes(size_t n, int salt) { Str s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = char(((i + 1) * 37 + salt * 101) * 7 >> (salt & 1)); return s; }
static Str slurpFile(const Str &p) { std::ifstream i(p.c_str(), std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); }
struct At { int ty; Str name, val; }; struct Ds { int ty; bool comp; Str name; std::vector<Str> el; };
struct Nd { Str name; std::vector<int> kids; std::vector<At> at; std::vector<Ds> ds; };
struct Tree { std::vector<Nd> n; };
static void putAttr(OgOGroup &g, const At &a) { if (a.ty == NPOD) { OgOAttribute<Str> x(g, a.name, a.val); return; } withOg(a.ty, [&](auto t) { typedef typename decltype(t)::type T; T v; memcpy((void *)&v, a.val.data(), sizeof v); OgOAttribute<T> x(g, a.name, v); }); }
struct DsW { virtual ~DsW() {} virtual void add(const Str &) = 0; };
template <class T> struct DsP : DsW { OgODataset<T> d; DsP(OgOGroup &g, const Str &n) : d(g, n) {} void add(const Str &b) { std::vector<T> v(b.size() / sizeof(T) + 1); memcpy((void *)&v[0], b.data(), b.size()); d.addData(b.size() / sizeof(T), &v[0]); } };
template <class T> struct DsC : DsW { OgOCDataset<T> d; DsC(OgOGroup &g, const Str &n) : d(g, n) {} void add(const Str &b) { d.addData(b.size(), (const uint8_t *)b.data()); } };
static DsW *mkDs(OgOGroup &g, const Ds &d) { DsW *r = 0; withOg(d.ty, [&](auto t) { typedef typename decltype(t)::type T; if (d.comp) r = new DsC<T>(g, d.name); else r = new DsP<T>(g, d.name); }); return r; }
template <class V> static Str names(const std::vector<V> &v) { Str s; for (auto &x : v) s += x.name + "|"; return s; }
static Str names(const std::vector<Str> &v) { Str s; for (auto &x : v) s += x + "|"; return s; }
static std::vector<Str> probes() { return {"g", "", "h", "k", "d", "no such name", "g/h", "/", "a b"}; }
// everything the reading side can say about one group
static void verify(Ctx &c, const Tree &t, int ni, const OgIGroup &g, size_t thr, int allTypes) {   // 0: what is stored, 1: and some absent names and types, 2: every type
  const Nd &n = t.n[ni]; VPCHECK(c, g.isValid(), "a stored group cannot be opened", n.name); VPCHECK(c, g.name() == n.name, "a group reports another name", VS() << "'" << g.name() << "' for '" << n.name << "'");
  Str want; for (int k : n.kids) want += t.n[k].name + "|"; VPCHECK(c, names(g.groupNames()) == want, "group names differ", VS() << names(g.groupNames()) << " instead of " << want);
  want.clear(); for (auto &a : n.at) want += a.name + "|"; VPCHECK(c, names(g.attributeNames()) == want, "attribute names differ", VS() << names(g.attributeNames()) << " instead of " << want);
  for (int comp = 0; comp < 2; ++comp) { want.clear(); for (auto &d : n.ds) if (d.comp == !!comp) want += d.name + "|"; VPCHECK(c, names(comp ? g.compressedDatasetNames() : g.datasetNames()) == want, "data set names differ", want); }
  std::set<Str> ps; if (allTypes) for (auto &p : probes()) ps.insert(p); for (auto &a : n.at) ps.insert(a.name); for (auto &d : n.ds) ps.insert(d.name); for (int k : n.kids) ps.insert(t.n[k].name);
  if (ps.size() > 24) { std::set<Str> q; size_t i = 0; for (auto &p : ps) { if (i < 6 || i + 6 >= ps.size() || i % (ps.size() / 8) == 0) q.insert(p); ++i; } ps = q; }   // first, last and evenly spaced names
  for (auto &p : ps) {
    std::map<int, const At *> first; const At *firstA = 0; for (auto &a : n.at) if (a.name == p) { if (!firstA) firstA = &a; if (!first.count(a.ty)) first[a.ty] = &a; }
    if (p.find('/') == p.npos || firstA) VPCHECK(c, g.attributeType(p) == (firstA ? ogEnum(firstA->ty) : F3DInvalidDataType), "the type of an attribute differs", p);
    for (int ty = 0; ty < NTY; ++ty) { if (allTypes < 2 && !first.count(ty) && (ty % 5 != 2 || !allTypes)) continue; if (p.find('/') != p.npos && !firstA) continue; bool has = first.count(ty); Str val; bool valid = false;
      if (ty == NPOD) { auto a = g.findAttribute<Str>(p); valid = a.isValid(); if (valid) { val = a.value(); VPCHECK(c, a.name() == p, "an attribute reports another name", p); } } else withOg(ty, [&](auto q) { typedef typename decltype(q)::type T; auto a = g.findAttribute<T>(p); valid = a.isValid(); if (valid) { T v = a.value(); val.assign((const char *)&v, sizeof v); VPCHECK(c, a.name() == p, "an attribute reports another name", p); } });
      VPCHECK(c, valid == has, has ? "a stored attribute is not found" : "an attribute that was not stored is found", VS() << "'" << p << "' as " << ogName(ty)); if (has) VPCHECK(c, val == first[ty]->val, "an attribute has another value", VS() << "'" << p << "' as " << ogName(ty)); }
    for (int comp = 0; comp < 2; ++comp) { const Ds *d = 0; for (auto &x : n.ds) if (x.name == p && x.comp == !!comp && !d) d = &x; if (p.find('/') != p.npos) continue;
      VPCHECK(c, (comp ? g.compressedDatasetType(p) : g.datasetType(p)) == (d ? ogEnum(d->ty) : F3DInvalidDataType), "the type of a data set differs", p);
      for (int ty = 0; ty < NPOD; ++ty) { if (allTypes < 2 && !(d && d->ty == ty) && (ty % 5 != 2 || !allTypes)) continue; bool has = d && d->ty == ty;
        auto rd = [&](auto x, auto et, size_t unit) { typedef typename decltype(et)::type E;
          VPCHECK(c, x.isValid() == has, has ? "a stored data set is not found" : "a data set that was not stored is found", VS() << "'" << p << "' as " << ogName(ty)); if (!has) return;
          VPCHECK(c, x.name() == p, "a data set reports another name", p); VPCHECK(c, x.numDataElements() == d->el.size(), "a data set has another number of elements", VS() << x.numDataElements() << " instead of " << d->el.size());
          for (size_t i = 0; i < d->el.size(); ++i) { size_t len = d->el[i].size(); VPCHECK(c, x.dataSize(i, thr) * unit == len, "a data element has another size", VS() << p << "[" << i << "] " << x.dataSize(i, thr) << " instead of " << len / unit);
            std::vector<char> buf(len + 8, 'z'); VPCHECK(c, x.getData(i, (E *)&buf[0], thr), "a data element cannot be read", p); VPCHECK(c, Str(&buf[0], len) == d->el[i] && buf[len] == 'z', "a data element has other contents", VS() << p << "[" << i << "] of " << d->el.size()); }
          double b8[64]; VPCHECK(c, !x.getData(d->el.size(), (E *)b8, thr), "an element past the end is read", p); };
        withOg(ty, [&](auto q) { typedef typename decltype(q)::type T; if (comp) rd(g.findCompressedDataset<T>(p), Tag<uint8_t>(), 1); else rd(g.findDataset<T>(p), Tag<T>(), sizeof(T)); }); } }
  }
  for (auto &p : ps) { if (p.find('/') != p.npos) continue; int k = -1; for (int q : n.kids) if (t.n[q].name == p && k < 0) k = q; OgIGroup s = g.findGroup(p); if (k < 0) VPCHECK(c, !s.isValid(), "a group that was not stored is found", p); else verify(c, t, k, s, thr, allTypes); }
  for (int k : n.kids) for (int q : t.n[k].kids) { Str path = t.n[k].name + "/" + t.n[q].name; OgIGroup s = g.findGroup(path); VPCHECK(c, s.isValid(), "a group is not found by its path", path); VPCHECK(c, s.name() == t.n[q].name && names(s.attributeNames()) == names(t.n[q].at), "a path leads to another group", path); }
  VPCHECK(c, !g.findGroup("no/such").isValid(), "a group that was not stored is found", "no/such");
}

static void readBack(Ctx &c, const Tree &t, const Str &path, int allTypes) {
  for (size_t ns = 1; ns < 3; ++ns) { AO::IArchive ia(path, ns); VPCHECK(c, ia.isValid() && ia.isFrozen() && ia.getVersion() == 1, "a finished archive is not accepted"); OgIGroup root(ia); if (ns == 1) verify(c, t, 0, root, 0, allTypes); else for (size_t thr = 1; thr < (allTypes == 2 ? 3 : 2); ++thr) verify(c, t, 0, root, thr, 0); }
}
struct Writer {   // open handles of a program
  std::unique_ptr<AO::OArchive> ar; std::map<int, std::unique_ptr<OgOGroup> > g; std::vector<std::pair<std::pair<int, int>, std::unique_ptr<DsW> > > ds; Tree t;
  Writer(const Str &p) { ar.reset(new AO::OArchive(p)); g[0].reset(new OgOGroup(*ar)); Nd r; r.name = "f3droot"; t.n.push_back(r); }
  int group(int at, const Str &n) { Nd x; x.name = n; t.n.push_back(x); int id = t.n.size() - 1; t.n[at].kids.push_back(id); g[id].reset(new OgOGroup(*g[at], n)); return id; }
  void attr(int at, const At &a) { putAttr(*g[at], a); t.n[at].at.push_back(a); }
  int dset(int at, const Ds &d) { std::unique_ptr<DsW> w(mkDs(*g[at], d)); Ds e = d; e.el.clear(); t.n[at].ds.push_back(e); ds.emplace_back(std::make_pair(at, (int)t.n[at].ds.size() - 1), std::move(w)); int i = ds.size() - 1; for (auto &b : d.el) elem(i, b); return i; }
  void elem(int i, const Str &b) { ds[i].second->add(b); t.n[ds[i].first.first].ds[ds[i].first.second].el.push_back(b); }
  void finish(int order) {   // children first, root first, archive first, explicit close
    if (order == 1) { for (auto &x : g) x.second.reset(); } else if (order == 2) ar.reset();
    ds.clear(); while (!g.empty()) g.erase(std::prev(g.end())); if (order == 3) { if (!ar->close()) throw std::runtime_error("close reports failure"); } ar.reset(); }
};
static void program(Ctx &c, bool th) {
  TmpFile f(c, "og"); Writer w(f.p); int D = th ? 4 : 3, len = 1 + c.choose(D), ord = len < D ? c.choose(4) : -1; Str prog; uint64_t rot = 7;   // the longest programs take the four ways to finish in turn
  static const Str gn[] = {"g", "", "h"}; static const int at[] = {4, NPOD, 12}; static const size_t lens[][3] = {{0, 0, 0}, {1, 0, 0}, {2, 0, 1}}; std::vector<std::set<Str> > usedD(1), usedC(1);
  for (int s = 0; s < len; ++s) { std::vector<int> open; for (auto &x : w.g) if (x.second) open.push_back(x.first); int op = c.choose(5), gi = op < 4 || w.ds.empty() ? open[c.choose(open.size())] : 0; Nd &n = w.t.n[gi]; c.step(); rot = vp::mix(rot, op * 8 + gi);
    if (op == 0) { Str nm = gn[std::min<size_t>(n.kids.size(), 2)]; for (int k : n.kids) if (w.t.n[k].name == nm) c.prune(); w.group(gi, nm); prog += VS() << " group '" << nm << "' in " << gi; }
    else if (op == 1) { At a; a.ty = at[c.choose(3)]; a.name = c.flag() ? "k" : ""; for (auto &x : n.at) if (x.name == a.name && x.ty == a.ty) c.prune(); a.val = a.ty == NPOD ? (a.name.empty() ? "" : Str("v\0w", 3)) : bytes(ogSize(a.ty), s); w.attr(gi, a); prog += VS() << " attr " << ogName(a.ty) << " '" << a.name << "' in " << gi; }
    else if (op == 2) { Ds d; d.comp = c.flag(); d.ty = d.comp ? 10 : c.flag() ? 1 : 12; d.name = c.flag() ? "d" : "k"; for (auto &x : n.ds) if (x.name == d.name && x.comp == d.comp) c.prune(); int k = c.choose(th ? 4 : 3); if (!th && k) ++k; for (int i = 0; i < k; ++i) d.el.push_back(bytes((k == 1 ? 0 : lens[k - 1][i]) * ogSize(d.ty), s + i)); w.dset(gi, d); prog += VS() << " data set " << d.comp << ogName(d.ty) << k << " in " << gi; }
    else if (op == 3) { if (gi == 0) c.prune(); w.g[gi].reset(); prog += VS() << " close " << gi; }
    else { if (w.ds.empty()) c.prune(); int i = c.choose(w.ds.size()); auto &d = w.t.n[w.ds[i].first.first].ds[w.ds[i].first.second]; w.elem(i, bytes(c.choose(2) * 3 * ogSize(d.ty), s)); prog += VS() << " element in " << i; } }
  if (ord < 0) ord = rot % 4; c.log(prog); c.where("program"); Tree t = w.t; w.finish(ord); readBack(c, t, f.p, 1); c.state(vp::hashStr(slurpFile(f.p)));
}
// every type and value, and every pair of types under one name
static void types(Ctx &c, bool) {
  TmpFile f(c, "ty"); Writer w(f.p); int kind = c.choose(4), a = c.choose(NTY), b = c.choose(kind == 0 ? NTY : kind == 3 ? 1 : 6); c.step(); c.where("types");
  auto val = [&](int ty, int salt) { return ty == NPOD ? (salt % 3 == 0 ? Str() : salt % 3 == 1 ? Str("x/y z\n") : bytes(300, salt)) : salt % 3 == 0 ? Str(ogSize(ty), 0) : salt % 3 == 1 ? Str(ogSize(ty), char(0xff)) : bytes(ogSize(ty), salt); };
  if (kind == 0) { At x; x.name = "n"; x.ty = a; x.val = val(a, b); w.attr(0, x); if (a != b) { x.ty = b; x.val = val(b, a + 1); w.attr(0, x); } }
  else if (kind == 3) { for (int i = 0; i < NTY; ++i) { At x; x.name = "n"; x.ty = (a + i) % NTY; x.val = val(x.ty, i); w.attr(0, x); x.name = "a/b"; w.attr(0, x); x.name = VS() << "n" << i; w.attr(0, x); } }
  else { if (a == NPOD) c.prune(); Ds d; d.comp = kind == 2; d.ty = a; d.name = b % 2 ? "" : "d"; for (int i = 0; i < b; ++i) d.el.push_back(bytes(ogSize(a) * (size_t[]){1, 0, 7, 2000, 40000, 0}[i], i)); w.dset(0, d); }
  Tree t = w.t; w.finish(0); readBack(c, t, f.p, 2); c.state(vp::hashStr(slurpFile(f.p)));
}
// numbers of children around every threshold, alone and next to others, nested
static void fanout(Ctx &c, bool th) {
  static const int big[] = {31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513}; TmpFile f(c, "fan"); Writer w(f.p); int kind = c.choose(5), q = c.choose(20 + (th ? 15 : 6)), n = q < 20 ? q : big[q - 20], depth = c.choose(3), at = 0; c.step(); c.where("fan-out");
  for (int i = 0; i < depth; ++i) at = w.group(at, "x");
  for (int i = 0; i < n; ++i) { Str nm = VS() << "c" << i; int k = kind == 4 ? i % 4 : kind; if (k == 0) { int id = w.group(at, nm); if (i % 3 == 0) w.attr(id, At{4, "k", bytes(4, i)}); w.g[id].reset(); } else if (k == 1) w.attr(at, At{i % NPOD, nm, bytes(ogSize(i % NPOD), i)}); else if (k == 2) { Ds d{1, false, nm, {bytes(3, 5)}}; w.dset(at, d); } else { if (i < (kind == 4 ? 4 : 1)) w.dset(at, Ds{6, true, "els", {}}); w.elem(w.ds.size() ? 0 : 0, bytes(i % 5, i)); if (kind == 4 && w.ds.empty()) c.prune(); } }
  if (depth == 2) w.group(0, "after"); Tree t = w.t; w.finish(c.choose(2)); readBack(c, t, f.p, 1); c.state(vp::hashStr(slurpFile(f.p)));
}
// ---- the raw layer: a graph of groups and data, shared and replaced
struct RN { bool data = false; Str bytes; std::vector<int> kids; };
static void rawVerify(Ctx &c, const std::vector<RN> &m, int id, AO::IGroupPtr g, bool light, int thr) {
  const RN &n = m[id]; VPCHECK(c, g != NULL, "raw: a group is missing"); VPCHECK(c, g->getNumChildren() == n.kids.size(), "raw: another number of children", VS() << g->getNumChildren() << " instead of " << n.kids.size());
  for (size_t i = 0; i < n.kids.size(); ++i) { const RN &k = m[n.kids[i]]; AO::IDataPtr d = g->getData(i, thr); AO::IGroupPtr s = g->getGroup(i, light, thr); VPCHECK(c, (d != NULL) == k.data && (s != NULL) == !k.data, "raw: a child is of another kind", VS() << i);
    if (!g->isLight()) { VPCHECK(c, g->isChildData(i) == k.data && g->isChildGroup(i) == !k.data, "raw: a child is of another kind", VS() << i); VPCHECK(c, g->isEmptyChildData(i) == (k.data && k.bytes.empty()) && g->isEmptyChildGroup(i) == (!k.data && k.kids.empty()), "raw: emptiness of a child differs", VS() << i); }
    if (k.data) { VPCHECK(c, d->getSize() == k.bytes.size(), "raw: data has another size"); for (size_t o = 0; o <= k.bytes.size(); ++o) { Str b(k.bytes.size() - o + 1, 'q'); d->read(k.bytes.size() - o, &b[0], o, thr); VPCHECK(c, b == k.bytes.substr(o) + "q", "raw: data has other contents"); } char z[4] = {'q', 'q', 'q', 'q'}; d->read(2, z, k.bytes.size(), thr); VPCHECK(c, z[0] == 'q', "raw: a read beyond the end returns something"); }
    else rawVerify(c, m, n.kids[i], s, light, thr); }
  VPCHECK(c, !g->getData(n.kids.size(), thr) && !g->getGroup(n.kids.size(), light, thr) && !g->isChildData(n.kids.size()) && !g->isChildGroup(n.kids.size()), "raw: a child past the end is found");
}
static void raw(Ctx &c, bool th) {
  TmpFile f(c, "raw"); AO::OArchive *ar = new AO::OArchive(f.p); std::map<int, AO::OGroupPtr> g; std::map<int, AO::ODataPtr> d; std::vector<RN> m(1); g[0] = ar->getGroup(); std::set<int> frozen; std::vector<std::pair<int, int> > fixups; Str prog;
  auto dataNode = [&](const Str &b) { RN n; n.data = true; n.bytes = b; m.push_back(n); return (int)m.size() - 1; };
  auto kid = [&](int at, int id) { m[at].kids.push_back(id); };
  int D = th ? 5 : 4, len = 1 + c.choose(D), ord = c.choose(3); c.where("raw");
  for (int s = 0; s < len; ++s) { std::vector<int> gs; for (auto &x : g) gs.push_back(x.first); int op = c.choose(10), gi = gs[c.choose(gs.size())]; AO::OGroupPtr p = g[gi]; bool fz = frozen.count(gi); c.step(); prog += VS() << " " << op << "@" << gi;
    switch (op) {
    case 0: { AO::OGroupPtr x = p->addGroup(); VPCHECK(c, (x == NULL) == fz, "raw: adding to a frozen group"); if (x) { m.push_back(RN()); g[m.size() - 1] = x; m[gi].kids.push_back(m.size() - 1); } break; }
    case 1: { Str b = bytes(c.choose(3) * 2, s); AO::ODataPtr x = p->addData(b.size(), b.data()); VPCHECK(c, (x == NULL) == fz, "raw: adding to a frozen group"); if (x) { int id = dataNode(b); d[id] = x; m[gi].kids.push_back(id); VPCHECK(c, x->getSize() == b.size(), "raw: written data has another size"); } break; }
    case 2: { Str a = bytes(3, s), b = bytes(2, s + 1); int k = c.choose(3); uint64_t sz[3] = {k == 0 ? 0u : 3u, 0, k == 2 ? 2u : 0u}; const void *pp[3] = {a.data(), 0, b.data()}; AO::ODataPtr x = p->addData(3, sz, pp); if (x) { int id = dataNode((k ? a : Str()) + (k == 2 ? b : Str())); d[id] = x; m[gi].kids.push_back(id); } break; }
    case 3: if (fz) c.prune(); p->addEmptyGroup(); m.push_back(RN()); m[gi].kids.push_back(m.size() - 1); break;
    case 4: if (fz) c.prune(); p->addEmptyData(); kid(gi, dataNode("")); break;
    case 5: { if (d.empty() || fz) c.prune(); auto it = d.begin(); std::advance(it, c.choose(d.size())); p->addData(it->second); m[gi].kids.push_back(it->first); break; }                        // share data
    case 6: { if (fz) c.prune(); int q = gs[c.choose(gs.size())]; std::function<bool(int)> reach = [&](int x) { if (x == gi) return true; for (int k : m[x].kids) if (!m[k].data && reach(k)) return true; return false; }; if (q == 0 || reach(q)) c.prune(); p->addGroup(g[q]); m[gi].kids.push_back(q); break; }   // share a group (no cycles)
    case 7: { if (m[gi].kids.empty()) c.prune(); int i = c.choose(m[gi].kids.size()); Str b = bytes(c.choose(2) * 3, s + 7); AO::ODataPtr x = g[0]->isFrozen() ? AO::ODataPtr() : g[0]->createData(b.size(), b.data()); if (!x) c.prune(); bool was = m[m[gi].kids[i]].data; p->replaceData(i, x); if (was) { int id = dataNode(b); d[id] = x; m[gi].kids[i] = id; } break; }
    case 8: { if (d.empty()) c.prune(); auto it = d.begin(); std::advance(it, c.choose(d.size())); Str b = "RW"; size_t o = c.choose(2); it->second->rewrite(2, &b[0], o); if (o + 2 <= m[it->first].bytes.size()) m[it->first].bytes.replace(o, 2, b); break; }
    case 9: if (fz) c.prune(); if (c.flag()) { p->freeze(); frozen.insert(gi); VPCHECK(c, p->isFrozen(), "raw: a frozen group is not frozen"); } else { if (gi == 0) c.prune(); p.reset(); g.erase(gi); } break;
    }
    if (p) { VPCHECK(c, p->getNumChildren() == m[gi].kids.size(), "raw: the writer counts other children"); for (size_t i = 0; i <= m[gi].kids.size(); ++i) { bool in = i < m[gi].kids.size(); VPCHECK(c, p->isChildData(i) == (in && m[m[gi].kids[i]].data) && p->isChildGroup(i) == (in && !m[m[gi].kids[i]].data), "raw: the writer has a child of another kind"); if (in && m[m[gi].kids[i]].data) VPCHECK(c, p->isChildEmptyData(i) == m[m[gi].kids[i]].bytes.empty(), "raw: the writer misreports empty data"); } } }
  c.log(prog); AO::OGroupPtr none; if (ord == 0) { while (!g.empty()) g.erase(std::prev(g.end())); VPCHECK(c, ar->close(), "raw: close reports failure"); delete ar; } else if (ord == 1) { g[0].reset(); delete ar; g.clear(); } else { delete ar; while (!g.empty()) g.erase(g.begin()); } d.clear();
  { AO::IArchive ia(f.p, 2); VPCHECK(c, ia.isValid() && ia.isFrozen(), "raw: a finished archive is not accepted"); rawVerify(c, m, 0, ia.getGroup(), false, 0); rawVerify(c, m, 0, ia.getGroup(), true, 1); }
  { std::ifstream s1(f.p.c_str(), std::ios::binary), s2(f.p.c_str(), std::ios::binary); std::vector<std::istream *> v = {&s1, &s2}; AO::IArchive ia(v); VPCHECK(c, ia.isValid() && ia.isFrozen(), "raw: an archive given as streams is not accepted"); rawVerify(c, m, 0, ia.getGroup(), true, 1); }
  c.state(vp::hashStr(slurpFile(f.p)));
}
// light groups, which read their table on demand
static void rawFan(Ctx &c, bool) {
  TmpFile f(c, "lg"); std::vector<RN> m(1); int n = c.choose(24), mix = c.choose(3); c.where("raw fan-out"); c.step();
  { AO::OArchive ar(f.p); AO::OGroupPtr r = ar.getGroup(), s = r->addGroup(); m.push_back(RN()); m[0].kids.push_back(1); for (int i = 0; i < n; ++i) { RN x; if (mix == 0 || (mix == 2 && i % 2)) { x.data = true; x.bytes = bytes(i % 4, i); m.push_back(x); m[1].kids.push_back(m.size() - 1); s->addData(x.bytes.size(), x.bytes.data()); } else { m.push_back(x); int id = m.size() - 1; m[1].kids.push_back(id); AO::OGroupPtr q = s->addGroup(); if (i % 3) { x.data = true; x.bytes = "ab"; m.push_back(x); m[id].kids.push_back(m.size() - 1); q->addData(2, "ab"); } } } }
  AO::IArchive ia(f.p, 1); rawVerify(c, m, 0, ia.getGroup(), false, 0); AO::IGroupPtr lg = ia.getGroup()->getGroup(0, true, 0); VPCHECK(c, lg->isLight() == (n > 8), "raw: light group threshold"); rawVerify(c, m, 1, lg, true, 0); c.state(n * 3 + mix);
}
static void refusals(Ctx &c, bool) {
  int k = c.choose(3); TmpFile f(c, "rf"); c.step();
  if (k == 0) { Writer w(f.p); bool threw = false; try { OgOGroup x(*w.g[0], "a/b"); } catch (std::exception &) { threw = true; } VPCHECK(c, threw, "a group name with a separator is accepted"); Tree t = w.t; w.finish(0); AO::IArchive ia(f.p); OgIGroup root(ia); VPCHECK(c, root.isValid() && root.groupNames().empty(), "a refused group is stored"); }
  else if (k == 1) { AO::OArchive ar(c.tmpDir + "/no/such/dir/x"); VPCHECK(c, !ar.isValid(), "an archive in a missing folder is valid"); }
  else { AO::IArchive ia(c.tmpDir + "/missing"); VPCHECK(c, !ia.isValid(), "a missing archive is valid"); }
}
void vp::registerScenarios(bool th) {
  quietInit();
  vp::scenario("program", [=](Ctx &c) { program(c, th); }, vp::opt(false, 3)); vp::scenario("types", [=](Ctx &c) { types(c, th); }, vp::opt(false, 2)); vp::scenario("fan-out", [=](Ctx &c) { fanout(c, th); }, vp::opt(false, 2));
  vp::scenario("raw", [=](Ctx &c) { raw(c, th); }, vp::opt(false, 3)); vp::scenario("raw fan-out", [=](Ctx &c) { rawFan(c, th); }, vp::opt(false, 1)); vp::scenario("refusals", [=](Ctx &c) { refusals(c, th); }, vp::opt(false, 1));
}
