// T04 (histories): levels loaded on first use, in every order, between changes of the mapping, copies and assignments, and when the file is gone.
#include "mips.h"

static const int MAPS[] = {MK_MAT, MK_FRUST, MK_NULL, MK_MAT_TV, MK_MAT2};
template <class F> struct Live { typename MIPField<F>::Ptr p; typename MIPField<F>::Ptr ref; };
template <class F> static typename MIPField<F>::Ptr readMip(Ctx &c, const std::string &fn) {
  Field3DInputFile in; if (!in.open(fn)) c.fail("cannot open"); typename Field<float>::Vec v = in.readScalarLayers<float>("n", "a"); if (v.size() != 1) c.fail("the layer is missing");
  typename MIPField<F>::Ptr m = field_dynamic_cast<MIPField<F> >(v[0]); if (!m) c.fail("not a multi-resolution field"); return m;
}
template <class F> static void touch(Ctx &c, Live<F> &s, int l, int how) {
  typedef MIPField<F> M; const M &m = *s.p, &r = *s.ref; bool was = m.levelLoaded(l); std::string d; static const char *hn[] = {"fastMipValue", "mipValue", "mipLevel", "concreteMipLevel", "rawMipLevel", "interpolation", "value"};
  switch (how) {
  case 0: FOR_BOX(r.rawMipLevel(l)->dataWindow(), x, y, z) if (!same(m.fastMipValue(l, x, y, z), r.fastMipValue(l, x, y, z))) d = "voxel"; break;
  case 1: { const MIPBase<float> &b = m; FOR_BOX(r.rawMipLevel(l)->dataWindow(), x, y, z) if (!same(b.mipValue(l, x, y, z), r.fastMipValue(l, x, y, z))) d = "voxel"; break; }
  case 2: { typename Field<float>::Ptr p = m.mipLevel(l); d = diffLevel(r, m, static_cast<const F *>(p.get()), l); break; }
  case 3: d = diffLevel(r, m, m.concreteMipLevel(l).get(), l); break;
  case 4: d = diffLevel(r, m, m.rawMipLevel(l), l); break;
  case 5: { if (dynamic_cast<const NullFieldMapping *>(m.mapping().get())) break; MIPLinearInterp<M> a(m), b(r); V3f vs = r.mapping()->wsVoxelSize(0, 0, 0); float q = std::min(std::min(vs.x, vs.y), vs.z) * (1 << l) * 1.25f; for (int k = 0; k < 4; ++k) { V3d p(0.7 + k, 0.7, 0.5); if (!same(a.sample(p, q), b.sample(p, q))) d = "value"; } break; }
  case 6: FOR_BOX(r.dataWindow(), x, y, z) if (!same(m.value(x, y, z), r.value(x, y, z))) d = "voxel"; break;
  }
  if (d.empty() && how < 5 && !m.levelLoaded(l)) d = "levelLoaded";
  V3i res = m.mipResolution(l); if (res != r.mipResolution(l)) d = "resolution";
  if (!d.empty()) c.fail(std::string("a level seen through ") + hn[how] + (was ? "" : " first") + " differs: " + kindOf(d), VS() << "level " << l << ": " << d);
}
template <class F> static void hist(Ctx &c, bool ogawa, int depth, int hows, int maps) {
  typedef MIPField<F> M; Format fmt(ogawa); TmpFile tf(c, "mip"); std::string bak = tf.p + ".bak"; struct Rm { std::string p; ~Rm() { ::unlink(p.c_str()); } } rmbak = {bak};
  int nl = maps ? 2 + c.choose(2) : 2, map = MAPS[maps ? c.choose(maps) : 0]; c.log(VS() << fmtName(ogawa) << " " << nl << " levels " << mapName(map));
  { Field3DOutputFile o; if (!o.create(tf.p)) c.fail("cannot create"); if (!writeAny(o, TY_FLOAT, "n", "a", mkEager<F>(nl, 0, map))) c.fail("cannot write"); }
  std::vector<Live<F> > live(1); live[0].p = readMip<F>(c, tf.p); live[0].ref = mkEager<F>(nl, 0, map);
  for (int k = 0; k < depth; ++k) {
    Live<F> &s = live.back(); const char *on = ""; c.step();
    switch (c.choose(10)) {
    case 0: { on = "touch"; int l = c.choose(nl), h = c.choose(hows); touch(c, s, l, h); c.log(VS() << "touch " << l << " " << h); break; }
    case 1: { on = "setMapping"; int q = MAPS[c.choose(2) + 3]; s.p->setMapping(makeMapping(q)); s.ref->setMapping(makeMapping(q)); break; }
    case 2: { on = "copy"; Live<F> n; n.p = typename M::Ptr(new M(*s.p)); n.ref = typename M::Ptr(new M(*s.ref)); live.push_back(n); break; }
    case 3: { on = "clone"; Live<F> n; n.p = field_dynamic_cast<M>(s.p->clone()); if (!n.p) c.fail("clone"); n.ref = typename M::Ptr(new M(*s.ref)); live.push_back(n); break; }
    case 4: { on = "assign to a loaded field"; Live<F> n; n.p = mkEager<F>(c.choose(2) ? nl : 5 - nl, 50, MK_MAT2); *n.p = *s.p; n.ref = typename M::Ptr(new M(*s.ref)); live.push_back(n); break; }
    case 5: { on = "assign to an empty field"; Live<F> n; n.p = typename M::Ptr(new M); *n.p = *s.p; n.ref = typename M::Ptr(new M(*s.ref)); live.push_back(n); break; }
    case 6: { on = "self-assignment"; M &a = *s.p; const M &b = *s.p; a = b; break; }
    case 7: { on = "drop the older fields"; live.erase(live.begin(), live.end() - 1); break; }
    case 8: { on = "file missing"; // a level that is not there yet cannot be had, and nothing is broken by trying
      if (c.flag()) { on = "file moved"; rename(tf.p.c_str(), bak.c_str()); } else { on = "file replaced"; rename(tf.p.c_str(), bak.c_str()); Spec q; q.st = ST_DENSE; q.e = q.d = box(0, 0, 0, 1, 0, 0); Field3DOutputFile o; if (!o.create(tf.p) || !writeAny(o, TY_FLOAT, "n", "a", mkField(q))) c.fail("cannot write"); }
      for (int l = 0; l < nl; ++l) { bool had = s.p->levelLoaded(l), threw = false; const F *p = 0; try { p = s.p->rawMipLevel(l); } catch (std::exception &) { threw = true; }
        if (had ? threw || !p : !threw) c.fail(had ? "a loaded level is lost" : "a level that cannot be read is not reported", VS() << on << ", level " << l); if (s.p->levelLoaded(l) != had) c.fail("levelLoaded after a failed load"); }
      { Field3DOutputFile o; if (!o.create(tf.p)) c.fail("a failed load keeps the file open", on); }
      rename(bak.c_str(), tf.p.c_str()); break; }
    case 9: { on = "second read"; Live<F> n; n.p = readMip<F>(c, tf.p); n.ref = mkEager<F>(nl, 0, map); for (size_t i = 0; i < live.size(); ++i) if (live[i].p == n.p) n.ref = live[i].ref; /* the field cache may give the same object again */ live.push_back(n); break; }
    }
    c.log(on); c.where(on);
  }
  uint64_t h = nl; for (size_t i = 0; i < live.size(); ++i) for (int l = 0; l < nl; ++l) h = h * 3 + live[i].p->levelLoaded(l) + 1;
  bool down = c.choose(2); // levels in either order
  for (size_t i = 0; i < live.size(); ++i) {
    VPCHECK(c, (int)live[i].p->numLevels() == nl && live[i].p->dataWindow() == live[i].ref->dataWindow() && live[i].p->extents() == live[i].ref->extents(), "resolution");
    { std::string d = diffMapping(live[i].ref->mapping().get(), live[i].p->mapping().get()); if (!d.empty()) c.fail("mapping of the field", d); }
    for (int k = 0; k < nl; ++k) { int l = down ? nl - 1 - k : k; touch(c, live[i], l, 4); }
    VPCHECK(c, live[i].p->voxelCount() == live[i].ref->voxelCount(), "voxelCount");
  }
  // every field on its own, and the file closed
  if (live.size() > 1) { Live<F> &a = live[0], &b = live.back(); if (a.p != b.p && a.p->rawMipLevel(0) == b.p->rawMipLevel(0)) c.fail("two fields share a level"); }
  { Field3DOutputFile o; if (!o.create(tf.p)) c.fail("the file is kept open"); }
  c.state(h);
}
// the empty field
template <class F> static void empties(Ctx &c) {
  typedef MIPField<F> M; M a; M b(a); M d; d = a; typename M::Ptr e = field_dynamic_cast<M>(a.clone()); VPCHECK(c, e && b.voxelCount() == a.voxelCount(), "copy of an empty field");
  typename M::Ptr l = mkEager<F>(3, 0, MK_MAT); if (c.flag()) *l = a; else l->clear(); VPCHECK(c, l->voxelCount() == 0, "emptied field"); M f(*l); f.setup(mkLevels<F>(2, 1)); VPCHECK(c, f.numLevels() == 2 && f.rawMipLevel(1), "reuse"); c.step(); c.state(1);
}
void vp::registerScenarios(bool th) {
  quietInit(); initIO();
  for (int og = 1; og >= 0; --og) {
    scenario(VS() << fmtName(og) << "/dense", [=](Ctx &c) { hist<DenseField<float> >(c, og, th ? 3 : 2, 3, th ? 3 : 2); }, opt(false, 4));
    scenario(VS() << fmtName(og) << "/sparse", [=](Ctx &c) { hist<SparseField<float> >(c, og, th ? 3 : 2, 3, th ? 3 : 2); }, opt(false, 4));
    scenario(VS() << fmtName(og) << "/dense, longer", [=](Ctx &c) { hist<DenseField<float> >(c, og, th ? 4 : og ? 3 : 2, 1, 0); }, opt(false, 4));
    scenario(VS() << fmtName(og) << "/dense, every access", [=](Ctx &c) { hist<DenseField<float> >(c, og, 1, 7, 3); }, opt(false, 4));
    scenario(VS() << fmtName(og) << "/sparse, every access", [=](Ctx &c) { hist<SparseField<float> >(c, og, 1, 7, 3); }, opt(false, 4));
  }
  scenario("empty dense", [=](Ctx &c) { empties<DenseField<float> >(c); }); scenario("empty sparse", [=](Ctx &c) { empties<SparseField<float> >(c); });
}
