// F10: truncation. Every length of finished files of every structure, read completely, by proxy and on demand.
#include "iofault.h"
#include "Field3D/SparseFile.h"
using namespace iof;
struct Rec { std::string img; std::vector<Layer> fs; };
static const Rec &fileOf(Ctx &c, const History &h, int id) {
  static std::map<int, Rec> cache; auto it = cache.find(id); if (it != cache.end()) return it->second; Rec &r = cache[id]; r.fs = fieldsOf(h);
  std::string p = uniqueFile(c, "rec"); Result res = perform(h, p, r.fs); r.img = slurp(p); ::unlink(p.c_str()); if (res.reported) c.fail2("a file cannot be written", h.name); return r;
}
static void body(Ctx &c, bool th) {
  static std::vector<History> hs = histories(th); int id = c.choose(hs.size()); const History &h = hs[id]; int md = c.choose(h.threads > 1 || th ? 3 : 2);  // load everything / on demand / more I/O threads
  const Rec &r = fileOf(c, h, id); size_t n = r.img.size(); int q = c.choose((int)n + 1); if (!th && q + 400 < (int)n && q > 256 && q % (h.ogawa && md != 1 ? 1 : 16)) c.prune();
  TmpFile f(c, "cut"); spit(f.p, r.img.substr(0, q)); c.step(); c.where(h.name + (md == 1 ? " on demand" : "")); c.log(VS() << h.name << " cut to " << q << " of " << n << " bytes, mode " << md);
  Threads t(md == 2 ? 2 : 1); SparseFileManager &m = SparseFileManager::singleton(); struct Lim { SparseFileManager &m; ~Lim() { m.setLimitMemUse(false); } } lim{m}; m.setLimitMemUse(md == 1); if (md == 1) m.setMaxMemUse(1);
  Seen s = inspect(f.p, r.fs, h.globalMeta); c.outcome(VS() << h.ogawa << md << s.opened << s.layers << s.meta); c.state(vp::mix(vp::hashStr(h.name), q));
  VPCHECK(c, s.bad.empty(), h.ogawa ? "Ogawa: " + s.bad : "HDF5: " + s.bad, VS() << h.name << " cut to " << q << " of " << n << " bytes: " << s.detail);
  if (q == (int)n) VPCHECK(c, s.opened && s.layers == (int)r.fs.size() && (!h.globalMeta || s.meta), "the complete file is not accepted", VS() << h.name << " " << s.opened << s.layers);
}
// the file is cut after it was opened, before its layers are read, or (on demand) after they were read and before their blocks are
static void inUse(Ctx &c, bool th) {
  static std::vector<History> hs = histories(th); std::vector<int> og; for (size_t i = 0; i < hs.size(); ++i) if (hs[i].ogawa && !hs[i].layers.empty()) og.push_back(i);
  static History big; if (big.layers.empty()) { big.name = "Ogawa large sparse"; big.ogawa = true; big.layers.push_back(sp(ST_SPARSE, TY_V3D, CO_VARY, box(0, 0, 0, 15, 15, 15), MK_MAT, "p", "l", 3, false, 2)); }   // larger than the stream buffers, so that every thread meets the end of the file
  int pk = c.choose(og.size() + 1); bool isBig = pk == (int)og.size(); int id = isBig ? 1000 : og[pk]; const History &h = isBig ? big : hs[id]; int md = c.choose(4); const Rec &r = fileOf(c, h, id); size_t n = r.img.size(); VPCHECK(c, !isBig || n > 20000, "harness", VS() << n); int q = c.choose((int)n + 1); if (q % (isBig ? (th ? 16 : 256) : th ? 1 : 17) && q != (int)n) c.prune();
  TmpFile f(c, "use"); spit(f.p, r.img); c.step(); c.where(h.name + " in use"); c.log(VS() << h.name << " cut to " << q << " of " << n << " bytes while in use, mode " << md);
  Threads t(md == 1 ? 2 : 1); SparseFileManager &m = SparseFileManager::singleton(); struct Lim { SparseFileManager &m; ~Lim() { m.setLimitMemUse(false); } } lim{m}; m.setLimitMemUse(md >= 2); if (md >= 2) m.setMaxMemUse(md == 2 ? 1 : 1000);
  Field3DInputFile in; VPCHECK(c, in.open(f.p), "a finished file does not open", h.name); if (md < 2) VPCHECK(c, !truncate(f.p.c_str(), q), "harness");
  std::vector<FList> got; for (auto &l : r.fs) { FList g; try { g = readAny(in, l.ty, &l.part, l.layer); } catch (std::exception &) {} got.push_back(g); }
  if (md >= 2) VPCHECK(c, !truncate(f.p.c_str(), q), "harness"); int whole = 0, broken = 0;
  for (int pass = 0; pass < 2; ++pass) { for (size_t i = 0; i < r.fs.size(); ++i) for (auto &g : got[i]) { std::string best = "-"; for (size_t j = 0; j < r.fs.size(); ++j) { if (r.fs[j].part != r.fs[i].part || r.fs[j].layer != r.fs[i].layer || r.fs[j].ty != r.fs[i].ty) continue; std::string d; try { d = diffAny(r.fs[j].ty, r.fs[j].f.get(), g.get()); } catch (std::exception &) { d = ""; ++broken; } if (d.empty()) { best = ""; ++whole; } else if (best == "-") best = d; }
      VPCHECK(c, best.empty(), "cut while in use: a layer comes back wrong: " + kindVox(best), VS() << h.name << " cut to " << q << " of " << n << " mode " << md << ": " << best); }
    if (md < 2) break; spit(f.p, r.img); if (q == (int)n) broken = 0; }                       // on demand: the file is whole again, whatever could not be loaded before can be now
  if (q == (int)n) VPCHECK(c, broken == 0 && whole >= (int)r.fs.size(), "a complete file in use is not read", h.name);
  c.outcome(VS() << md << (whole > 0) << (broken > 0)); c.state(vp::mix(vp::hashStr(h.name), q * 4 + md));
}
void vp::registerScenarios(bool th) { quietInit(); vp::scenario("truncation", [=](Ctx &c) { body(c, th); }, vp::opt(false, 3)); vp::scenario("cut while in use", [=](Ctx &c) { inUse(c, th); }, vp::opt(false, 3)); }
