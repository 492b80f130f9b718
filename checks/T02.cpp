// T02: reference counting of shared objects: every program of reference operations in one thread, and every schedule of
// programs in two and three threads.
#include "common.h"
#include "xsched.h"

// counters: one thread runs at a time, so these are exact; not instrumented, so no scheduling points
__attribute__((no_sanitize("thread"), noinline)) static void inc(int &n) { ++n; }

struct Probe : public DenseField<float> {      // counts its life
  static int born, died; int *cell;
  Probe() : cell(new int(1)) { inc(born); setSize(V3i(2, 2, 2)); fastLValue(0, 0, 0) = 7; }
  Probe(const Probe &o) : DenseField<float>(o), cell(new int(1)) { inc(born); }
  Probe &operator=(const Probe &o) { DenseField<float>::operator=(o); return *this; }
  ~Probe() { inc(died); delete cell; cell = 0; }
  FieldBase::Ptr clone() const { return new Probe(*this); }
};
int Probe::born = 0, Probe::died = 0;
struct MapProbe : public MatrixFieldMapping {
  static int born, died; MapProbe() { inc(born); } MapProbe(const MapProbe &o) : MatrixFieldMapping(o) { inc(born); } ~MapProbe() { inc(died); } FieldMapping::Ptr clone() const { return FieldMapping::Ptr(new MapProbe(*this)); }
};
int MapProbe::born = 0, MapProbe::died = 0;
typedef boost::intrusive_ptr<Probe> PP;

// operations of one thread on its own slots p[0], p[1]; src is a reference nobody drops meanwhile (or null)
static const char *OP[] = {"copy", "drop", "move", "base", "cast", "self", "swap", "raw"};
static const int NOP = 8;
struct Slots { PP p[2]; RefBase::Ptr base; };
static void apply(Ctx &c, Slots &s, int op) {
  switch (op) {
  case 0: s.p[1] = s.p[0]; break;                                         // copy
  case 1: if (s.p[0]) { PP t; t.swap(s.p[0]); t.reset(); } break;         // drop
  case 2: s.p[1] = std::move(s.p[0]); s.p[0].reset(); break;              // move
  case 3: s.base = s.p[0]; break;                                         // as base class reference
  case 4: { DenseField<float>::Ptr d = field_dynamic_cast<DenseField<float> >(s.p[0]); if (d && d.get() != s.p[0].get()) c.fail("cast gives another object"); if (s.p[0] && !d) c.fail("cast fails"); break; }
  case 5: { PP &q = s.p[0]; s.p[0] = q; break; }                          // self assignment
  case 6: s.p[0].swap(s.p[1]); break;
  case 7: { Probe *r = s.p[0].get(); s.p[0] = r; break; }                 // from the raw pointer of a live object
  }
}
static int held(const Slots &s) { return (s.p[0] ? 1 : 0) + (s.p[1] ? 1 : 0) + (s.base ? 1 : 0); }
static void useAll(Ctx &c, Slots &s) {       // everything referenced must be alive and intact
  for (int i = 0; i < 2; ++i) if (s.p[i]) { if (!s.p[i]->cell || *s.p[i]->cell != 1) c.fail("referenced object is destroyed"); if (s.p[i]->fastValue(0, 0, 0) != 7) c.fail("referenced object changed"); }
  if (s.base && !s.base->checkRTTI(DenseField<float>::staticClassType())) c.fail("referenced object is not what it was");
}

static void threads(const std::string &name, std::vector<std::vector<int> > prog, bool extra, int bound) {
  sched::scenario(name, bound, nullptr, [=](Ctx &c) {
    Probe::born = Probe::died = 0; c.where("threads");
    PP root(new Probe); RefBase::WeakPtr weak = root->weakPtr(); Probe *raw = root.get(); std::vector<Slots> s(prog.size());
    for (auto &x : s) x.p[0] = root;
    if (!extra) root.reset();
    std::vector<std::function<void()> > fs;
    for (size_t i = 0; i < prog.size(); ++i) fs.push_back([&, i] {
      for (int op : prog[i]) { apply(c, s[i], op); useAll(c, s[i]); if (held(s[i]) && Probe::died) c.fail("destroyed while a thread holds a reference"); }
    });
    sched::run(fs);
    size_t refs = extra ? 1 : 0; for (auto &x : s) refs += held(x);
    if (refs) { if (Probe::died) c.fail("destroyed although references exist"); if (raw->refcnt() != refs) c.fail("reference count differs from the references held", VS() << raw->refcnt() << " for " << refs); if (weak.expired()) c.fail("weak reference expired although the object lives"); }
    for (auto &x : s) { x.p[0].reset(); x.p[1].reset(); x.base.reset(); } root.reset();
    if (Probe::died != 1) c.fail("object not destroyed exactly once", VS() << Probe::died << " times"); if (!weak.expired()) c.fail("weak reference not expired after destruction");
    c.outcome(VS() << refs);
  }, 20000, true);
}

// all programs of one thread over three slots, with two objects
struct SeqModel { int a[3]; };
static void seq(Ctx &c, int depth) {
  Probe::born = Probe::died = 0; std::vector<std::string> ops; PP s[3]; RefBase::Ptr base; int m[3] = {-1, -1, -1}, mb = -1; std::vector<RefBase::WeakPtr> weak; std::vector<bool> dead;
  for (int d = 0; d < depth; ++d) {
    c.step(); int op = c.choose(9); if (!op) break; int i = c.choose(3), j = 0; if (op >= 3 && op <= 6) j = c.choose(3);
    std::string lbl;
    switch (op) {
    case 1: { s[i] = new Probe; m[i] = (int)weak.size(); weak.push_back(s[i]->weakPtr()); dead.push_back(false); lbl = "new"; break; }
    case 2: s[i].reset(); m[i] = -1; lbl = "drop"; break;
    case 3: s[i] = s[j]; m[i] = m[j]; lbl = "assign"; break;
    case 4: { PP t(s[j]); s[i].swap(t); m[i] = m[j]; lbl = "copy and swap"; break; }
    case 5: { s[i] = std::move(s[j]); int v = m[j]; if (i != j) { if (s[j]) m[j] = m[j]; else m[j] = -1; } m[i] = v; lbl = "move"; break; }
    case 6: { if (!s[j]) c.prune(); s[i] = field_dynamic_cast<DenseField<float> >(s[j]) ? PP(static_cast<Probe *>(s[j].get())) : PP(); m[i] = m[j]; lbl = "cast"; break; }
    case 7: if (i == 1) { if (!s[0]) c.prune(); s[0] = boost::static_pointer_cast<Probe>(s[0]->clone()); m[0] = (int)weak.size(); weak.push_back(s[0]->weakPtr()); dead.push_back(false); lbl = "clone"; }
      else if (i == 2) { if (!s[0] || !s[1]) c.prune(); *s[0] = *s[1]; lbl = "assign contents"; } else { base = s[0]; mb = m[0]; lbl = "base"; } break;
    case 8: base.reset(); mb = -1; lbl = "drop base"; if (i) c.prune(); break;
    }
    c.where(lbl); c.log(VS() << lbl << " " << i << " " << j);
    int deaths = 0; uint64_t h = 1;
    for (size_t k = 0; k < weak.size(); ++k) {
      size_t refs = 0; Probe *raw = 0; for (int q = 0; q < 3; ++q) if (m[q] == (int)k) { ++refs; raw = s[q].get(); } if (mb == (int)k) { ++refs; raw = static_cast<Probe *>(base.get()); }
      if (!refs) ++deaths; h = vp::mix(h, refs);
      VPCHECK(c, weak[k].expired() == !refs, "weak reference reports the wrong expiry after " + lbl);
      if (refs) { VPCHECK(c, raw->cell && *raw->cell == 1, "referenced object is destroyed after " + lbl); VPCHECK(c, raw->refcnt() == refs, "reference count differs from the references held after " + lbl, VS() << raw->refcnt() << " for " << refs); VPCHECK(c, weak[k].lock().get() == raw, "weak reference leads elsewhere"); }
    }
    for (int q = 0; q < 3; ++q) VPCHECK(c, (m[q] >= 0) == (bool)s[q], "slot empty or full unexpectedly after " + lbl);
    VPCHECK(c, Probe::died == deaths, "objects destroyed differ from objects without references after " + lbl, VS() << Probe::died << " for " << deaths); c.state(h);
  }
  for (auto &p : s) p.reset(); base.reset(); VPCHECK(c, Probe::died == Probe::born, "objects left over");
}

void vp::registerScenarios(bool th) {
  vp::scenario("one thread", [th](Ctx &c) { seq(c, th ? 5 : 4); }, vp::opt(false, 3));
  // two threads, programs of two operations, the last references among them or one kept outside
  for (int extra = 0; extra < 2; ++extra)
    for (int a = 0; a < NOP; ++a) for (int b = a; b < NOP; ++b) {
      std::vector<std::vector<int> > pr;
      pr.push_back({a, 1}); pr.push_back({b, 1});
      threads(VS() << "two threads: " << OP[a] << ",drop | " << OP[b] << ",drop" << (extra ? " (kept)" : ""), pr, extra, th ? 4 : 3);
    }
  for (int a = 0; a < NOP; ++a) for (int b = a; b < NOP; ++b) {
    if (th) threads(VS() << "three threads: " << OP[a] << ",drop | " << OP[b] << ",drop | drop", {{a, 1}, {b, 1}, {1}}, false, 3);
    else if (a < 3 && b < 3) threads(VS() << "three threads: " << OP[a] << " | " << OP[b] << " | drop", {{a}, {b}, {1}}, false, 2);
  }
  threads("three threads drop", {{1}, {1}, {1}}, false, th ? 5 : 3);
  // a mapping shared by fields dropped in different threads; compound fields
  for (int kind = 0; kind < 3; ++kind) {
    static const char *KN[] = {"mapping of dense fields", "mapping of MAC fields", "levels of a multi-resolution field"};
    sched::scenario(KN[kind], 2, nullptr, [kind](Ctx &c) {
      c.where(KN[kind]); MapProbe::died = MapProbe::born = 0; Probe::died = Probe::born = 0;
      FieldMapping::Ptr m; MapProbe *mp = new MapProbe; m = mp; std::vector<FieldRes::Ptr> f;
      if (kind < 2) for (int i = 0; i < 2; ++i) { FieldRes::Ptr x; if (kind == 0) { DenseField<float>::Ptr d(new DenseField<float>); d->setSize(V3i(2, 2, 2)); x = d; } else { MACField<V3f>::Ptr d(new MACField<V3f>); d->setSize(V3i(2, 2, 2)); x = d; } x->setMapping(m); f.push_back(x); }
      else { MIPField<DenseField<float> >::Ptr a(new MIPField<DenseField<float> >); std::vector<DenseField<float>::Ptr> l; PP p(new Probe); l.push_back(p); p.reset(); DenseField<float>::Ptr q(new DenseField<float>); q->setSize(V3i(1, 1, 1)); l.push_back(q); a->setup(l); l.clear(); q.reset();
        MIPField<DenseField<float> >::Ptr b(new MIPField<DenseField<float> >(*a)); f.push_back(a); f.push_back(b); }
      m.reset(); mp = 0;
      FieldMapping::Ptr own[2]; if (kind < 2) { own[0] = f[0]->mapping(); own[1] = f[0]->mapping(); }
      sched::run({[&] { f[0].reset(); FieldMapping::Ptr k = own[0]; own[0].reset(); k.reset(); }, [&] { FieldMapping::Ptr k = own[1]; own[1].reset(); f[1].reset(); if (k && MapProbe::died > MapProbe::born - 1) c.fail("mapping destroyed while referenced"); k.reset(); }});
      if (MapProbe::died != MapProbe::born) c.fail("mapping not destroyed exactly once", VS() << MapProbe::died << " of " << MapProbe::born);
      if (Probe::died != Probe::born) c.fail("level not destroyed exactly once", VS() << Probe::died << " of " << Probe::born);
    });
  }
}
