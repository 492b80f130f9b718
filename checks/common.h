// Helpers shared by the harnesses: value makers, windows, field specs, comparisons. Public API only.
#pragma once
#include "vp.h"
#include <boost/intrusive_ptr.hpp>
#include "Field3D/DenseField.h"
#include "Field3D/SparseField.h"
#include "Field3D/MACField.h"
#include "Field3D/MIPField.h"
#include "Field3D/MIPUtil.h"
#include "Field3D/Field3DFile.h"
#include "Field3D/InitIO.h"
#include "Field3D/FieldMapping.h"
#include "Field3D/FieldCache.h"
#include "Field3D/Types.h"
#include <memory>
#include <fstream>
#include <map>
#include <limits>
#include <sys/stat.h>
#include <unistd.h>
using namespace Field3D;
using vp::Ctx;

// ---------------------------------------------------------------- values
template <class T> struct Mk;
template <> struct Mk<float> { static float of(double v) { return (float)v; } static const char *n() { return "float"; } };
template <> struct Mk<double> { static double of(double v) { return v; } static const char *n() { return "double"; } };
template <> struct Mk<half> { static half of(double v) { return half((float)v); } static const char *n() { return "half"; } };
template <> struct Mk<int> { static int of(double v) { return (int)v; } static const char *n() { return "int"; } };
template <class S> struct Mk<FIELD3D_VEC3_T<S> > {
  static FIELD3D_VEC3_T<S> of(double v) { return FIELD3D_VEC3_T<S>(Mk<S>::of(v), Mk<S>::of(v * 2 + 0.5), Mk<S>::of(-v - 0.25)); }
  static const char *n() { static std::string s = std::string("V3") + Mk<S>::n()[0]; return s.c_str(); }
};
template <class T> bool same(const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }
inline bool same(const half &a, const half &b) { return a.bits() == b.bits(); }
template <class S> bool same(const FIELD3D_VEC3_T<S> &a, const FIELD3D_VEC3_T<S> &b) { return same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z); }
template <class T> std::string str(const T &v) { std::ostringstream o; o.precision(17); o << v; return o.str(); }
template <class S> std::string str(const FIELD3D_VEC3_T<S> &v) { return "(" + str(v.x) + "," + str(v.y) + "," + str(v.z) + ")"; }
inline std::string str(const Box3i &b) { return "[" + str(b.min) + ".." + str(b.max) + "]"; }
inline std::string str(const std::string &s) { return s; }
inline std::string pos(int x, int y, int z) { return VS() << "(" << x << "," << y << "," << z << ")"; }
inline V3i sizeOf(const Box3i &b) { return b.max - b.min + V3i(1); }
inline bool inBox(const Box3i &b, int x, int y, int z) { return x >= b.min.x && x <= b.max.x && y >= b.min.y && y <= b.max.y && z >= b.min.z && z <= b.max.z; }
#define FOR_BOX(b, x, y, z) for (int z = (b).min.z; z <= (b).max.z; ++z) for (int y = (b).min.y; y <= (b).max.y; ++y) for (int x = (b).min.x; x <= (b).max.x; ++x)
inline Box3i box(int x0, int y0, int z0, int x1, int y1, int z1) { return Box3i(V3i(x0, y0, z0), V3i(x1, y1, z1)); }

// distinct value per voxel, exactly representable in half (integers up to 2048 and quarter steps)
inline double voxelCode(int x, int y, int z, int salt = 0) {
  int h = ((x + 40) * 7 + (y + 40) * 31 + (z + 40) * 101 + salt * 389) % 2039;
  return h < 0 ? h + 2039 : h;
}

// ---------------------------------------------------------------- plain array model
template <class T> struct Arr {
  Box3i ext, dw; std::vector<T> v;
  void size(const Box3i &e, const Box3i &d, const T &fill) { ext = e; dw = d; V3i s = sizeOf(d); v.assign((size_t)s.x * s.y * s.z, fill); }
  size_t idx(int x, int y, int z) const { V3i s = sizeOf(dw); return ((size_t)(z - dw.min.z) * s.y + (y - dw.min.y)) * s.x + (x - dw.min.x); }
  T &at(int x, int y, int z) { return v[idx(x, y, z)]; }
  const T &at(int x, int y, int z) const { return v[idx(x, y, z)]; }
  uint64_t hash() const { uint64_t h = vp::hashBytes(v.data(), v.size() * sizeof(T)); h = vp::hashBytes(&ext, sizeof ext, h); return vp::hashBytes(&dw, sizeof dw, h); }
};
// first difference between a field and the model ("" if equal)
template <class T, class F> std::string diffArr(const F &f, const Arr<T> &m) {
  if (f.extents() != m.ext) return VS() << "extents " << str(f.extents()) << " expected " << str(m.ext);
  if (f.dataWindow() != m.dw) return VS() << "data window " << str(f.dataWindow()) << " expected " << str(m.dw);
  FOR_BOX(m.dw, x, y, z) { T got = f.value(x, y, z); if (!same(got, m.at(x, y, z))) return VS() << "voxel " << pos(x, y, z) << " is " << str(got) << " expected " << str(m.at(x, y, z)); }
  return "";
}

// ---------------------------------------------------------------- mappings
inline M44d mat(double sx, double sy, double sz, double tx, double ty, double tz, double rot = 0) {
  M44d r; if (rot) r.setEulerAngles(V3d(rot, rot * 0.5, -rot));
  M44d s; s.setScale(V3d(sx, sy, sz)); M44d t; t.setTranslation(V3d(tx, ty, tz));
  return s * r * t;
}
// screen-to-world of a simple perspective camera (same construction as a standard projection)
inline M44d frustumMat(double nearP, double farP, double tx, double fov = 45.0) {
  double s = 1.0 / std::tan(fov * M_PI / 360.0);
  M44d persp(s, 0, 0, 0, 0, s, 0, 0, 0, 0, (farP + nearP) / (nearP - farP), -1, 0, 0, 2 * farP * nearP / (nearP - farP), 0);
  M44d t; t.setTranslation(V3d(tx, 0.5, 1.0));
  return persp.inverse() * t;
}
enum MapKind { MK_DEFAULT, MK_NULL, MK_MAT, MK_MAT2, MK_MAT_TV, MK_FRUST, MK_FRUST_U, MK_FRUST_TV, MK_COUNT };
inline const char *mapName(int k) { static const char *n[] = {"identity-matrix", "null", "matrix", "matrix-rotated", "matrix-timevarying", "frustum-perspective", "frustum-uniform", "frustum-timevarying"}; return n[k]; }
inline void camAt(double nearP, double farP, double tx, M44d &ss, M44d &cs) {
  M44d c; c.setTranslation(V3d(tx, 0.5, 1.0));
  cs = c; ss = frustumMat(nearP, farP, tx);
}
inline FieldMapping::Ptr makeMapping(int k) {
  switch (k) {
  case MK_NULL: return FieldMapping::Ptr(new NullFieldMapping);
  case MK_MAT: { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); m->setLocalToWorld(mat(2, 3, 4, 1, -2, 0.5)); return m; }
  case MK_MAT2: { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); m->setLocalToWorld(mat(1.5, 0.25, 10, -7, 2, 3, 0.3)); return m; }
  case MK_MAT_TV: { MatrixFieldMapping::Ptr m(new MatrixFieldMapping); m->setLocalToWorld(1.0f, mat(1, 2, 3, 5, 6, 7)); m->setLocalToWorld(0.0f, mat(2, 3, 4, 1, -2, 0.5)); return m; }
  case MK_FRUST: case MK_FRUST_U: { FrustumFieldMapping::Ptr m(new FrustumFieldMapping); M44d ss, cs; camAt(1, 10, 0.25, ss, cs); m->setTransforms(ss, cs);
    m->setZDistribution(k == MK_FRUST ? FrustumFieldMapping::PerspectiveDistribution : FrustumFieldMapping::UniformDistribution); return m; }
  case MK_FRUST_TV: { FrustumFieldMapping::Ptr m(new FrustumFieldMapping); M44d ss, cs; camAt(1, 10, 0.25, ss, cs); m->setTransforms(0.0f, ss, cs); camAt(1, 10, 4.0, ss, cs); m->setTransforms(1.0f, ss, cs);
    m->setZDistribution(FrustumFieldMapping::PerspectiveDistribution); return m; }
  }
  return FieldMapping::Ptr(new MatrixFieldMapping);
}
// observable behaviour of a mapping at probe points and times, "" if equal
inline std::string diffMapping(const FieldMapping *a, const FieldMapping *b, double tol = 0) {
  if (!a || !b) return a == b ? "" : "one mapping is missing";
  if (a->className() != b->className()) return "class " + a->className() + " vs " + b->className();
  static const double pts[][3] = {{0, 0, 0}, {1, 1, 1}, {0.5, 0.25, 0.75}, {-1, 2, 0.1}};
  static const float times[] = {0.0f, 0.25f, 1.0f, 2.0f, -1.0f};
  auto eq = [&](const V3d &p, const V3d &q) {
    for (int i = 0; i < 3; ++i) { if (std::isnan(p[i]) && std::isnan(q[i])) continue; if (p[i] == q[i]) continue; if (!(std::fabs(p[i] - q[i]) <= tol * (1 + std::fabs(p[i])))) return false; }
    return true; };
  for (auto &pp : pts) for (float t : times) {
    V3d p(pp[0], pp[1], pp[2]), x, y;
    a->localToWorld(p, x, t); b->localToWorld(p, y, t); if (!eq(x, y)) return VS() << "localToWorld" << str(p) << " t=" << t << ": " << str(x) << " vs " << str(y);
    V3d w = x; a->worldToLocal(w, x, t); b->worldToLocal(w, y, t); if (!eq(x, y)) return VS() << "worldToLocal" << str(w) << " t=" << t << ": " << str(x) << " vs " << str(y);
    a->worldToVoxel(w, x, t); b->worldToVoxel(w, y, t); if (!eq(x, y)) return VS() << "worldToVoxel" << str(w) << " t=" << t << ": " << str(x) << " vs " << str(y);
    V3d v = x; a->voxelToWorld(v, x, t); b->voxelToWorld(v, y, t); if (!eq(x, y)) return VS() << "voxelToWorld" << str(v) << " t=" << t << ": " << str(x) << " vs " << str(y);
    a->localToVoxel(p, x); b->localToVoxel(p, y); if (!eq(x, y)) return VS() << "localToVoxel: " << str(x) << " vs " << str(y);
  }
  return "";
}

// local <-> voxel conversion must reflect the field's extents (exact for small integers)
inline std::string checkMappingExtents(const FieldMapping &m, const Box3i &e) {
  V3d a, b; m.localToVoxel(V3d(0, 0, 0), a); m.localToVoxel(V3d(1, 1, 1), b);
  V3d ea(e.min.x, e.min.y, e.min.z), eb(e.max.x + 1, e.max.y + 1, e.max.z + 1);
  if ((a - ea).length() > 1e-9 || (b - eb).length() > 1e-9) return VS() << "mapping's unit cube covers " << str(a) << ".." << str(b) << ", extents are " << str(e);
  return "";
}
// ---------------------------------------------------------------- metadata
inline std::string diffMetadata(const FieldMetadata &a, const FieldMetadata &b) {
  if (a.strMetadata() != b.strMetadata()) return VS() << "string metadata differs (" << a.strMetadata().size() << " vs " << b.strMetadata().size() << " entries)";
  if (a.intMetadata() != b.intMetadata()) return VS() << "int metadata differs (" << a.intMetadata().size() << " vs " << b.intMetadata().size() << " entries)";
  if (a.floatMetadata() != b.floatMetadata()) return VS() << "float metadata differs (" << a.floatMetadata().size() << " vs " << b.floatMetadata().size() << " entries)";
  if (a.vecIntMetadata() != b.vecIntMetadata()) return VS() << "vec-int metadata differs (" << a.vecIntMetadata().size() << " vs " << b.vecIntMetadata().size() << " entries)";
  if (a.vecFloatMetadata() != b.vecFloatMetadata()) return VS() << "vec-float metadata differs (" << a.vecFloatMetadata().size() << " vs " << b.vecFloatMetadata().size() << " entries)";
  return "";
}

// ---------------------------------------------------------------- files
inline bool fileExists(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0; }
inline std::string slurp(const std::string &p) { std::ifstream f(p.c_str(), std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
inline void spit(const std::string &p, const std::string &d) { std::ofstream f(p.c_str(), std::ios::binary | std::ios::trunc); f.write(d.data(), d.size()); }
inline void quietInit() { static bool done = false; if (!done) { done = true; Msg::setVerbosity(0); initIO(); } }
