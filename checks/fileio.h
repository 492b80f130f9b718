// Field construction, writing, reading and comparing for the file harnesses. Public API only.
#pragma once
#include "common.h"
#include "Field3D/EmptyField.h"

enum { ST_DENSE, ST_SPARSE, ST_MAC, ST_MIPD, ST_MIPS, ST_COUNT };
enum { TY_HALF, TY_FLOAT, TY_DOUBLE, TY_V3H, TY_V3F, TY_V3D, TY_COUNT };
inline const char *stName(int s) { static const char *n[] = {"Dense", "Sparse", "MAC", "MIPDense", "MIPSparse"}; return n[s]; }
inline const char *tyName(int t) { static const char *n[] = {"half", "float", "double", "V3h", "V3f", "V3d"}; return n[t]; }
template <class T> struct Tag { typedef T type; };
template <class Fn> auto withType(int ty, Fn f) -> decltype(f(Tag<float>())) {
  switch (ty) { case TY_HALF: return f(Tag<half>()); case TY_FLOAT: return f(Tag<float>()); case TY_DOUBLE: return f(Tag<double>());
    case TY_V3H: return f(Tag<V3h>()); case TY_V3F: return f(Tag<V3f>()); default: return f(Tag<V3d>()); }
}
template <class T> struct IsVec { enum { v = 0 }; typedef T scalar; };
template <class S> struct IsVec<FIELD3D_VEC3_T<S> > { enum { v = 1 }; typedef S scalar; };
template <class T> struct TyOf; template <> struct TyOf<half> { enum { v = 0 }; }; template <> struct TyOf<float> { enum { v = 1 }; }; template <> struct TyOf<double> { enum { v = 2 }; };
template <> struct TyOf<V3h> { enum { v = 3 }; }; template <> struct TyOf<V3f> { enum { v = 4 }; }; template <> struct TyOf<V3d> { enum { v = 5 }; };

// ---- special bit patterns per scalar type
inline half spec(half *, int i) { static const unsigned short b[] = {0x7e01, 0x8000, 0x7c00, 0x0001, 0xfbff, 0x0000, 0x3555, 0xfc00}; half h; h.setBits(b[i & 7]); return h; }
inline float spec(float *, int i) { static const uint32_t b[] = {0x7fc12345u, 0x80000000u, 0x7f800000u, 1u, 0xff7fffffu, 0u, 0x3eaaaaabu, 0xff800000u}; float f; memcpy(&f, &b[i & 7], 4); return f; }
inline double spec(double *, int i) { static const uint64_t b[] = {0x7ff8000000012345ull, 0x8000000000000000ull, 0x7ff0000000000000ull, 1ull, 0xffefffffffffffffull, 0ull, 0x3fd5555555555555ull, 0xfff0000000000000ull}; double f; memcpy(&f, &b[i & 7], 8); return f; }
template <class S> FIELD3D_VEC3_T<S> spec(FIELD3D_VEC3_T<S> *, int i) { return FIELD3D_VEC3_T<S>(spec((S *)0, i), spec((S *)0, i + 3), spec((S *)0, i + 5)); }

struct Spec {
  int st = 0, ty = 1; Box3i e, d; int order = 1, content = 1, map = MK_DEFAULT, salt = 0, levels = 2;
  std::string name = "part", attr = "layer"; bool meta = false;
  std::string label() const { return VS() << stName(st) << "<" << tyName(ty) << ">"; }
  std::string full() const { return VS() << label() << " extents " << str(e) << " window " << str(d) << " order " << order << " content " << content << " map " << mapName(map) << " salt " << salt; }
};
enum { CO_CONST, CO_VARY, CO_SPECIAL, CO_ONE, CO_CHECKER, CO_COUNT };
inline const char *coName(int c) { static const char *n[] = {"constant", "varying", "special bit patterns", "one voxel set", "alternate blocks"}; return n[c]; }

template <class F> void fillGeneric(F &f, const Spec &s) {
  typedef typename F::value_type T; Box3i d = f.dataWindow(); f.clear(Mk<T>::of(3 + s.salt));
  if (s.content == CO_CONST) return;
  if (s.content == CO_ONE) { f.lvalue(d.max.x, d.max.y, d.max.z) = Mk<T>::of(77 + s.salt); return; }
  int q = s.salt; FOR_BOX(d, x, y, z) { if (s.content == CO_SPECIAL) f.lvalue(x, y, z) = spec((T *)0, q++); else f.lvalue(x, y, z) = Mk<T>::of(voxelCode(x, y, z, s.salt)); }
}
template <class T> typename DenseField<T>::Ptr mkDense(const Spec &s, const Box3i &e, const Box3i &d) { typename DenseField<T>::Ptr f(new DenseField<T>); f->setSize(e, d); fillGeneric(*f, s); return f; }
template <class T> typename SparseField<T>::Ptr mkSparse(const Spec &s, const Box3i &e, const Box3i &d) {
  typename SparseField<T>::Ptr f(new SparseField<T>); f->setBlockOrder(s.order); f->setSize(e, d);
  if (s.content != CO_CHECKER) { fillGeneric(*f, s); return f; }
  f->clear(Mk<T>::of(1)); V3i br = f->blockRes(); int n = 0, B = f->blockSize(); Box3i dw = f->dataWindow();
  for (int bk = 0; bk < br.z; ++bk) for (int bj = 0; bj < br.y; ++bj) for (int bi = 0; bi < br.x; ++bi, ++n) {
    if (n & 1) { for (int z = 0; z < B; ++z) for (int y = 0; y < B; ++y) for (int x = 0; x < B; ++x) { V3i p(dw.min.x + bi * B + x, dw.min.y + bj * B + y, dw.min.z + bk * B + z); if (inBox(dw, p.x, p.y, p.z)) f->lvalue(p.x, p.y, p.z) = Mk<T>::of(voxelCode(p.x, p.y, p.z, s.salt)); } }
    else f->setBlockEmptyValue(bi, bj, bk, Mk<T>::of(n + 20 + s.salt));
  }
  return f;
}
template <class T> typename std::enable_if<IsVec<T>::v, FieldRes::Ptr>::type mkMAC(const Spec &s) {
  typename MACField<T>::Ptr f(new MACField<T>); f->setSize(s.e, s.d); f->clear(Mk<T>::of(3 + s.salt)); typedef typename IsVec<T>::scalar R; int q = s.salt;
  if (s.content == CO_CONST) return f;
  for (int a = 0; a < 3; ++a) { Box3i b = s.d; b.max[a] += 1; FOR_BOX(b, x, y, z) { R v = s.content == CO_SPECIAL ? spec((R *)0, q++) : s.content == CO_ONE ? (V3i(x, y, z) == b.max ? Mk<R>::of(70 + a) : Mk<R>::of(3)) : Mk<R>::of(voxelCode(x, y, z, a + s.salt)); if (a == 0) f->u(x, y, z) = v; else if (a == 1) f->v(x, y, z) = v; else f->w(x, y, z) = v; } }
  return f;
}
template <class T> typename std::enable_if<!IsVec<T>::v, FieldRes::Ptr>::type mkMAC(const Spec &) { return FieldRes::Ptr(); }
// the window of level l: halved, rounded so that everything is covered
inline Box3i halve(const Box3i &b, int l) { Box3i r; for (int i = 0; i < 3; ++i) { r.min[i] = (int)std::floor(b.min[i] / double(1 << l)); r.max[i] = (int)std::ceil((b.max[i] + 1) / double(1 << l)) - 1; } return r; }
template <class T> FieldRes::Ptr mkField(const Spec &s) {
  FieldRes::Ptr r;
  switch (s.st) {
  case ST_DENSE: r = mkDense<T>(s, s.e, s.d); break;
  case ST_SPARSE: r = mkSparse<T>(s, s.e, s.d); break;
  case ST_MAC: r = mkMAC<T>(s); break;
  case ST_MIPD: case ST_MIPS: {
    std::vector<typename DenseField<T>::Ptr> dv; std::vector<typename SparseField<T>::Ptr> sv; V3i prev(1 << 30);
    for (int l = 0; l < s.levels; ++l) { Box3i e = halve(s.e, l), d = halve(s.d, l); V3i sz = sizeOf(e); if (l && sz == prev) break; prev = sz; Spec q = s; q.salt += l * 5;
      if (s.st == ST_MIPD) dv.push_back(mkDense<T>(q, e, d)); else sv.push_back(mkSparse<T>(q, e, d)); }
    if (s.st == ST_MIPD) { typename MIPField<DenseField<T> >::Ptr m(new MIPField<DenseField<T> >); m->setup(dv); r = m; }
    else { typename MIPField<SparseField<T> >::Ptr m(new MIPField<SparseField<T> >); m->setup(sv); r = m; } break; }
  }
  if (!r) return r;
  r->name = s.name; r->attribute = s.attr;
  if (s.map != MK_DEFAULT) r->setMapping(makeMapping(s.map));
  if (s.meta) { FieldMetadata &m = r->metadata(); m.setStrMetadata("str", VS() << "value " << s.salt); m.setIntMetadata("int", 41 + s.salt); m.setFloatMetadata("float", 1.25f + s.salt); m.setVecIntMetadata("vi", V3i(1, -2, s.salt)); m.setVecFloatMetadata("vf", V3f(0.5f, -3, s.salt)); }
  return r;
}
inline FieldRes::Ptr mkField(const Spec &s) { return withType(s.ty, [&](auto t) { return mkField<typename decltype(t)::type>(s); }); }

// ---- comparison, "" if equal
template <class T> std::string diffDense(const DenseField<T> &a, const DenseField<T> &b) {
  FOR_BOX(a.dataWindow(), x, y, z) { T p = a.fastValue(x, y, z), q = b.fastValue(x, y, z); if (!same(p, q)) return VS() << "voxel " << pos(x, y, z) << ": " << str(p) << " became " << str(q); }
  return "";
}
template <class T> std::string diffSparse(const SparseField<T> &a, const SparseField<T> &b) {
  if (a.blockSize() != b.blockSize()) return VS() << "block size: " << a.blockSize() << " became " << b.blockSize();
  if (a.blockRes() != b.blockRes()) return "block resolution";
  V3i br = a.blockRes();
  for (int k = 0; k < br.z; ++k) for (int j = 0; j < br.y; ++j) for (int i = 0; i < br.x; ++i) {
    if (a.blockIsAllocated(i, j, k) != b.blockIsAllocated(i, j, k)) return VS() << "block allocation: block " << pos(i, j, k) << (a.blockIsAllocated(i, j, k) ? " lost" : " appeared");
    T p = a.getBlockEmptyValue(i, j, k), q = b.getBlockEmptyValue(i, j, k);
    if (!a.blockIsAllocated(i, j, k) && !same(p, q)) return VS() << "block value: block " << pos(i, j, k) << " " << str(p) << " became " << str(q); }
  FOR_BOX(a.dataWindow(), x, y, z) { T p = a.fastValue(x, y, z), q = b.fastValue(x, y, z); if (!same(p, q)) return VS() << "voxel " << pos(x, y, z) << ": " << str(p) << " became " << str(q); }
  return "";
}
template <class T> typename std::enable_if<IsVec<T>::v, std::string>::type diffMAC(const FieldRes *a, const FieldRes *b) {
  const MACField<T> *p = dynamic_cast<const MACField<T> *>(a), *q = dynamic_cast<const MACField<T> *>(b); if (!p || !q) return "";
  Box3i d = p->dataWindow();
  for (int c = 0; c < 3; ++c) { Box3i f = d; f.max[c] += 1; FOR_BOX(f, x, y, z) { auto v = [&](const MACField<T> *m) { return c == 0 ? m->u(x, y, z) : c == 1 ? m->v(x, y, z) : m->w(x, y, z); }; if (!same(v(p), v(q))) return VS() << "face " << "uvw"[c] << pos(x, y, z) << ": " << v(p) << " became " << v(q); } }
  return "";
}
template <class T> typename std::enable_if<!IsVec<T>::v, std::string>::type diffMAC(const FieldRes *, const FieldRes *) { return ""; }
template <class F> std::string diffMIP(const MIPField<F> &a, const MIPField<F> &b);
template <class T> std::string diffTyped(const Field<T> *a, const Field<T> *b) {
  if (!a || !b) return a == b ? "" : "field missing";
  if (std::string(a->classType()) != b->classType()) return "concrete type: " + std::string(a->classType()) + " became " + b->classType();
  if (a->extents() != b->extents()) return VS() << "extents: " << str(a->extents()) << " became " << str(b->extents());
  if (a->dataWindow() != b->dataWindow()) return VS() << "data window: " << str(a->dataWindow()) << " became " << str(b->dataWindow());
  if (auto p = dynamic_cast<const DenseField<T> *>(a)) return diffDense(*p, *dynamic_cast<const DenseField<T> *>(b));
  if (auto p = dynamic_cast<const SparseField<T> *>(a)) return diffSparse(*p, *dynamic_cast<const SparseField<T> *>(b));
  if (auto p = dynamic_cast<const MIPField<DenseField<T> > *>(a)) return diffMIP(*p, *dynamic_cast<const MIPField<DenseField<T> > *>(b));
  if (auto p = dynamic_cast<const MIPField<SparseField<T> > *>(a)) return diffMIP(*p, *dynamic_cast<const MIPField<SparseField<T> > *>(b));
  std::string d = diffMAC<T>(a, b); if (!d.empty()) return d;
  FOR_BOX(a->dataWindow(), x, y, z) if (!same(a->value(x, y, z), b->value(x, y, z))) return VS() << "voxel " << pos(x, y, z);
  return "";
}
template <class F> std::string diffMIP(const MIPField<F> &a, const MIPField<F> &b) {
  if (a.numLevels() != b.numLevels()) return VS() << "number of levels: " << a.numLevels() << " became " << b.numLevels();
  for (size_t l = 0; l < a.numLevels(); ++l) {
    if (a.mipResolution(l) != b.mipResolution(l)) return VS() << "level resolution: level " << l << " " << str(a.mipResolution(l)) << " became " << str(b.mipResolution(l));
    typename F::Ptr p = a.concreteMipLevel(l), q = b.concreteMipLevel(l); std::string d = diffTyped<typename F::value_type>(p.get(), q.get()); if (!d.empty()) return VS() << "level " << (l ? "n" : "0") << " " << d; }
  return "";
}
inline std::string diffAny(int ty, const FieldBase *a, const FieldBase *b) { return withType(ty, [&](auto t) { typedef typename decltype(t)::type T; return diffTyped<T>(dynamic_cast<const Field<T> *>(a), dynamic_cast<const Field<T> *>(b)); }); }
inline std::string kindOf(const std::string &d) { return d.substr(0, d.find(':')); }    // position-free class of a difference
inline std::string kindVox(const std::string &d) { size_t p = d.find_first_of("(:"); std::string k = d.substr(0, p); while (!k.empty() && k.back() == ' ') k.pop_back(); return k; }

// ---- write and read through the public interface
template <class T> bool writeT(Field3DOutputFile &out, const std::string &part, const std::string &layer, FieldRes::Ptr f, std::integral_constant<int, 0>) { return out.writeScalarLayer<T>(part, layer, field_dynamic_cast<Field<T> >(f)); }
template <class T> bool writeT(Field3DOutputFile &out, const std::string &part, const std::string &layer, FieldRes::Ptr f, std::integral_constant<int, 1>) { return out.writeVectorLayer<typename IsVec<T>::scalar>(part, layer, field_dynamic_cast<Field<T> >(f)); }
// generic = true: the type-neutral writeLayer/readLayers pair; false: the scalar/vector calls
inline bool writeAny(Field3DOutputFile &out, int ty, const std::string &part, const std::string &layer, FieldRes::Ptr f, bool generic = false) {
  return withType(ty, [&](auto t) { typedef typename decltype(t)::type T; if (generic) return out.writeLayer<T>(part, layer, field_dynamic_cast<Field<T> >(f)); return writeT<T>(out, part, layer, f, std::integral_constant<int, IsVec<T>::v>()); });
}
typedef std::vector<FieldRes::Ptr> FList;
template <class T> typename Field<T>::Vec readT(Field3DInputFile &in, const std::string *part, const std::string &layer, std::integral_constant<int, 0>) { return part ? in.readScalarLayers<T>(*part, layer) : in.readScalarLayers<T>(layer); }
template <class T> typename Field<T>::Vec readT(Field3DInputFile &in, const std::string *part, const std::string &layer, std::integral_constant<int, 1>) { typedef typename IsVec<T>::scalar S; return part ? in.readVectorLayers<S>(*part, layer) : in.readVectorLayers<S>(layer); }
inline FList readAny(Field3DInputFile &in, int ty, const std::string *part, const std::string &layer, bool generic = false) {
  return withType(ty, [&](auto t) { typedef typename decltype(t)::type T; FList r; typename Field<T>::Vec v;
    if (generic) v = part ? in.readLayers<T>(*part, layer) : in.readLayers<T>(layer); else v = readT<T>(in, part, layer, std::integral_constant<int, IsVec<T>::v>());
    for (auto &p : v) r.push_back(p); return r; });
}
inline std::string uniqueFile(Ctx &c, const char *tag = "f") { static int n = 0; std::ostringstream o; o << c.tmpDir << "/" << tag << getpid() << "_" << ++n << ".f3d"; return o.str(); }
struct TmpFile { std::string p; TmpFile(Ctx &c, const char *tag = "f") : p(uniqueFile(c, tag)) { ::unlink(p.c_str()); } ~TmpFile() { ::unlink(p.c_str()); } };
// both files differ in format; every harness that sets these globals restores them
struct Format { Format(bool ogawa) { Field3DOutputFile::useOgawa(ogawa); } ~Format() { Field3DOutputFile::useOgawa(true); } };
struct Threads { Threads(int n) { setNumIOThreads(n); } ~Threads() { setNumIOThreads(1); } };
inline const char *fmtName(bool ogawa) { return ogawa ? "Ogawa" : "HDF5"; }
