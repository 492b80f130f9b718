// F07: crash points. Every prefix of the write history of a file, with every torn form of the write at which it stops.
#include "iofault.h"
using namespace iof;
struct Rec { std::vector<Op> ops; std::vector<Layer> fs; };
static const Rec &recordOf(Ctx &c, const History &h, int id) {
  static std::map<int, Rec> cache; auto it = cache.find(id); if (it != cache.end()) return it->second; Rec &r = cache[id]; r.fs = fieldsOf(h);
  std::string p = uniqueFile(c, "rec"); target = p; record = &r.ops; Result res = perform(h, p, r.fs); record = 0; target.clear();
  if (res.reported || r.ops.empty()) { ::unlink(p.c_str()); c.fail2("a file cannot be written", h.name); }
  std::string img; for (auto &o : r.ops) { if (o.trunc) { img.resize(o.off); continue; } if (img.size() < o.off + o.data.size()) img.resize(o.off + o.data.size()); img.replace(o.off, o.data.size(), o.data); }
  VPCHECK(c, img == slurp(p), "recorder", "the recorded history does not produce the file"); ::unlink(p.c_str()); return r;
}
static std::vector<size_t> cuts(size_t n, bool th) {     // how much of the last write reached the disk (besides none, which is the previous prefix, and all)
  std::set<size_t> s; if (n <= (th ? 64u : 16u)) for (size_t i = 1; i < n; ++i) s.insert(i); else { for (size_t i : {(size_t)1, (size_t)7, (size_t)8, n / 2, n - 8, n - 1}) s.insert(i); for (size_t i = 512; i < n; i += 512) s.insert(i); }
  return std::vector<size_t>(s.begin(), s.end());
}
static void body(Ctx &c, bool th) {
  static std::vector<History> hs = histories(th); int id = c.choose(hs.size()); const History &h = hs[id]; if (h.threads > 1) c.prune();
  const Rec &r = recordOf(c, h, id); int k = c.choose(r.ops.size() + 1); size_t part = 0;
  if (k < (int)r.ops.size() && !r.ops[k].trunc) { auto cs = cuts(r.ops[k].data.size(), th); int t = c.choose(cs.size() + 1); if (t) part = cs[t - 1]; }
  std::string img; for (int i = 0; i < k; ++i) { const Op &o = r.ops[i]; if (o.trunc) { img.resize(o.off); continue; } if (img.size() < o.off + o.data.size()) img.resize(o.off + o.data.size()); img.replace(o.off, o.data.size(), o.data); }
  if (part) { const Op &o = r.ops[k]; if (img.size() < o.off + part) img.resize(o.off + part); img.replace(o.off, part, o.data.substr(0, part)); }
  TmpFile f(c, "img"); spit(f.p, img); c.step(); c.where(h.name); c.log(VS() << h.name << ": stopped after " << k << " of " << r.ops.size() << " writes and " << part << " bytes, " << img.size() << " bytes on disk");
  Seen s = inspect(f.p, r.fs, h.globalMeta); c.outcome(VS() << h.ogawa << s.opened << s.layers << s.meta); c.state(vp::hashStr(img));
  VPCHECK(c, s.bad.empty(), h.ogawa ? "Ogawa: " + s.bad : "HDF5: " + s.bad, VS() << h.name << " stopped after " << k << " of " << r.ops.size() << " writes (+" << part << " bytes): " << s.detail);
  if (k == (int)r.ops.size()) VPCHECK(c, s.opened && s.layers == (int)r.fs.size() && (!h.globalMeta || s.meta), "the complete file is not accepted", h.name);
}
void vp::registerScenarios(bool th) { quietInit(); vp::scenario("crash points", [=](Ctx &c) { body(c, th); }, vp::opt(false, 2)); }
