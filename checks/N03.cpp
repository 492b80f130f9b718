// N03: metadata containers and time curves as ordered maps, over every short history.
#include "common.h"
#include "fileio.h"
#include "Field3D/Curve.h"

struct MM { std::map<std::string, std::string> s; std::map<std::string, int> i; std::map<std::string, float> f; std::map<std::string, V3i> vi; std::map<std::string, V3f> vf; };
static const char *KEYS[] = {"k", "l", ""};
template <class K, class V> static V got(const std::map<K, V> &m, const K &k, const V &d) { auto i = m.find(k); return i == m.end() ? d : i->second; }
static void verify(Ctx &c, const FieldMetadata &m, const MM &w, const std::string &on) {
  if (m.strMetadata() != w.s || m.intMetadata() != w.i || m.floatMetadata() != w.f || m.vecIntMetadata() != w.vi || m.vecFloatMetadata() != w.vf) c.fail("the entries differ after " + on);
  for (auto k : {"k", "l", "", "m"}) { std::string q = k; for (int d = 0; d < 2; ++d) if (m.strMetadata(q, d ? "dd" : "") != got(w.s, q, std::string(d ? "dd" : "")) || m.intMetadata(q, d - 7) != got(w.i, q, d - 7) || m.floatMetadata(q, d + 0.5f) != got(w.f, q, d + 0.5f) || m.vecIntMetadata(q, V3i(d, 2, 3)) != got(w.vi, q, V3i(d, 2, 3)) || m.vecFloatMetadata(q, V3f(d, 2, 3)) != got(w.vf, q, V3f(d, 2, 3))) c.fail("a value differs after " + on, q); }
}
static void meta(Ctx &c, int depth) {
  typedef DenseField<float> F; F::Ptr f[2] = {F::Ptr(new F), F::Ptr(new F)}; MM w[2]; int n = c.range(1, depth), salt = 0;
  for (int k = 0; k < n; ++k) { int t = c.choose(2); FieldMetadata &m = f[t]->metadata(); std::string on; c.step(); ++salt;
    switch (c.choose(8)) {
    case 0: { on = "setStr"; std::string q = KEYS[c.choose(3)], v = c.flag() ? std::string() : std::string(VS() << "v" << salt); m.setStrMetadata(q, v); w[t].s[q] = v; break; }
    case 1: { on = "setInt"; std::string q = KEYS[c.choose(2)]; m.setIntMetadata(q, -salt); w[t].i[q] = -salt; break; }
    case 2: { on = "setFloat"; std::string q = KEYS[c.choose(2)]; m.setFloatMetadata(q, salt + 0.25f); w[t].f[q] = salt + 0.25f; break; }
    case 3: { on = "setVecInt"; std::string q = KEYS[c.choose(2)]; V3i v(salt, -salt, 3); m.setVecIntMetadata(q, v); w[t].vi[q] = v; break; }
    case 4: { on = "setVecFloat"; std::string q = KEYS[c.choose(2)]; V3f v(salt, 0.5f, -salt); m.setVecFloatMetadata(q, v); w[t].vf[q] = v; break; }
    case 5: { on = "copyMetadata"; f[t]->copyMetadata(*f[1 - t]); w[t] = w[1 - t]; break; }
    case 6: { on = "assigning the field"; *f[t] = *f[1 - t]; w[t] = w[1 - t]; break; }
    case 7: { on = c.flag() ? "copying the field" : "cloning the field"; f[t] = on[1] == 'o' ? F::Ptr(new F(*f[1 - t])) : field_dynamic_cast<F>(f[1 - t]->clone()); w[t] = w[1 - t]; break; }
    }
    c.log(VS() << on << " on " << t); c.where(on); for (int q = 0; q < 2; ++q) verify(c, f[q]->metadata(), w[q], on);
  }
  uint64_t h = n; for (int q = 0; q < 2; ++q) h = h * 131 + w[q].s.size() * 81 + w[q].i.size() * 27 + w[q].f.size() * 9 + w[q].vi.size() * 3 + w[q].vf.size(); c.state(h);
}
template <class T> struct CV { static T of(double v) { return T(v); } static double at(const T &v) { return v; } };
template <class R> struct CV<Imath::Vec3<R> > { static Imath::Vec3<R> of(double v) { return Imath::Vec3<R>(v, v * 2, -v); } static double at(const Imath::Vec3<R> &v) { if (std::abs(v.y - 2 * v.x) > 1e-4 || std::abs(v.z + v.x) > 1e-4) return NAN; return v.x; } };
template <> struct CV<M44d> { static M44d of(double v) { M44d m; m.setTranslation(V3d(v, 2 * v, -v)); return m; } static double at(const M44d &m) { if (std::abs(m[0][0] - 1) > 1e-6 || std::abs(m[3][3] - 1) > 1e-6 || m[0][1] != 0) return NAN; return CV<V3d>::at(m.translation()); } };
template <> struct CV<Imath::M44f> { static Imath::M44f of(double v) { Imath::M44f m; m.setTranslation(V3f(v, 2 * v, -v)); return m; } static double at(const Imath::M44f &m) { return CV<V3f>::at(m.translation()); } };
// samples in any order, some at a time already there
template <class T> static void curve(Ctx &c, int depth) {
  static const float TM[] = {0.0f, 1.0f, -1.5f, 0.25f, 4.0f, 1e-3f}; Curve<T> q; std::map<float, double> w; int n = c.choose(depth + 1);
  for (int k = 0; k < n; ++k) {
    c.step(); int o = c.choose(k ? 7 : 6); if (o == 6) { q.clear(); w.clear(); } else { q.addSample(TM[o], CV<T>::of(k * k * 3 + 1)); w[TM[o]] = k * k * 3 + 1; }
    c.log(VS() << o); if (q.numSamples() != w.size() || q.samples().size() != w.size()) c.fail("number of samples", VS() << q.numSamples() << " instead of " << w.size());
    size_t i = 0; for (auto &s : w) { if (q.samples()[i].first != s.first) c.fail("the samples are not in order of time"); if (CV<T>::at(q.samples()[i].second) != s.second) c.fail("a sample has another value"); ++i; }
  }
  Curve<T> z = q; std::vector<float> at = {-1e6f, -2, -1.5f, -0.7f, 0, 5e-4f, 1e-3f, 0.1f, 0.25f, 0.5f, 1, 2.2f, 4, 4.5f, 1e6f};
  for (float t : at) { T a = q.linear(t), b = z.linear(t); double v = CV<T>::at(a); if (CV<T>::at(b) != v && v == v) c.fail("a copy of the curve differs");
    double e; if (w.empty()) { if (!(a == Curve<T>().linear(0))) c.fail("an empty curve depends on time"); e = 0; } else { auto u = w.upper_bound(t); if (u == w.end()) e = w.rbegin()->second; else if (u == w.begin()) e = u->second; else { auto l = u; --l; if (l->first == t) e = l->second; else e = l->second + (u->second - l->second) * ((double)t - l->first) / ((double)u->first - l->first); } }
    bool exact = w.empty() || w.count(t) || t <= w.begin()->first || t >= w.rbegin()->first; double tol = exact ? 0 : 1e-4 * std::max(1.0, std::abs(e)); if (sizeof(T) == sizeof(half) && !exact) tol = 0.02 * std::max(1.0, std::abs(e));
    if (!(std::abs(v - e) <= tol)) c.fail(w.empty() ? "an empty curve" : w.count(t) ? "the value at a sample" : exact ? "the value outside the samples" : "the value between samples", VS() << "t=" << t << ": " << v << " expected " << e); }
  uint64_t h = 1; for (auto &s : w) h = h * 31 + (uint64_t)(s.first * 1000 + 5000) * 7 + (uint64_t)s.second; c.state(h);
}
void vp::registerScenarios(bool th) {
  quietInit();
  scenario("metadata", [=](Ctx &c) { meta(c, th ? 5 : 4); }, opt(false, 3));
  int D = th ? 7 : 5;
  scenario("curve/float", [=](Ctx &c) { curve<float>(c, D); }, opt(false, 3)); scenario("curve/double", [=](Ctx &c) { curve<double>(c, D); }, opt(false, 3)); scenario("curve/V3f", [=](Ctx &c) { curve<V3f>(c, D - 1); }, opt(false, 3)); scenario("curve/V3d", [=](Ctx &c) { curve<V3d>(c, D - 1); }, opt(false, 3)); scenario("curve/M44d", [=](Ctx &c) { curve<M44d>(c, D - 1); }, opt(false, 3)); scenario("curve/Imath::M44f", [=](Ctx &c) { curve<Imath::M44f>(c, D - 1); }, opt(false, 3));
}
