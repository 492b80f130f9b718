// X01: run-time types: every object of every class against every type, with the compiler's own type information as the oracle; names and creation by name.
#include "common.h"
#include "mips.h"
#include "Field3D/EmptyField.h"
#include "Field3D/MACField.h"
#include "Field3D/FieldInterp.h"
#include "Field3D/ProceduralField.h"
#include "Field3D/ClassFactory.h"
#include "Field3D/FieldMappingIO.h"
#include "DenseFieldIO.h"
#include "SparseFieldIO.h"
#include "MACFieldIO.h"
#include "MIPFieldIO.h"
#include <typeinfo>

// a procedural field of the check's own
template <class T> struct MyProc : public ProceduralField<T> { typedef MyProc class_type; typedef ProceduralField<T> base; DEFINE_FIELD_RTTI_CONCRETE_CLASS; typedef boost::intrusive_ptr<MyProc> Ptr; static const char *staticClassName() { return "MyProc"; } static const char *staticClassType() { static TemplatedFieldType<MyProc<T> > t; return t.name(); } virtual std::string className() const { return staticClassName(); } virtual std::string classType() const { return staticClassType(); } virtual FieldBase::Ptr clone() const { return FieldBase::Ptr(new MyProc(*this)); } virtual T value(int, int, int) const { return T(0); } virtual T lsSample(const V3d &) const { return T(0); } };
struct Obj { std::string name; RefBase::Ptr p; std::string rep; };
struct Ty { std::string name; std::string rep; bool concrete; std::function<void(RefBase::Ptr, bool &, bool &, bool &)> cast; };
static std::vector<Obj> &objs() { static std::vector<Obj> v; return v; } static std::vector<Ty> &tys() { static std::vector<Ty> v; return v; }
template <class T> static void type(bool concrete) {
  Ty t; t.name = typeid(T).name(); t.rep = T::staticClassType(); t.concrete = concrete;
  t.cast = [](RefBase::Ptr p, bool &lib, bool &real, bool &samePtr) { T *d = dynamic_cast<T *>(p.get()); typename T::Ptr q = field_dynamic_cast<T>(p); lib = q.get() != 0; real = d != 0; samePtr = !lib || !real || q.get() == d; }; tys().push_back(t);
}
template <class T> static void obj() { Obj o; o.name = typeid(T).name(); o.p = RefBase::Ptr(new T); o.rep = T::staticClassType(); objs().push_back(o); type<T>(true); }
template <class T> static void scalarOrVec() { type<Field<T> >(false); type<WritableField<T> >(false); type<ResizableField<T> >(false); type<MIPBase<T> >(false); type<ProceduralField<T> >(false); obj<DenseField<T> >(); obj<SparseField<T> >(); obj<EmptyField<T> >(); obj<MyProc<T> >(); obj<MIPField<DenseField<T> > >(); obj<MIPField<SparseField<T> > >(); obj<MIPDenseField<T> >(); obj<MIPSparseField<T> >(); type<FieldInterp<T> >(false); obj<LinearFieldInterp<T> >(); obj<CubicFieldInterp<T> >(); obj<LinearGenericFieldInterp<DenseField<T> > >(); obj<LinearGenericFieldInterp<SparseField<T> > >(); obj<CubicGenericFieldInterp<DenseField<T> > >(); obj<CubicGenericFieldInterp<SparseField<T> > >(); }
template <class T> static void vec() { scalarOrVec<T>(); obj<MACField<T> >(); obj<LinearMACFieldInterp<T> >(); obj<CubicMACFieldInterp<T> >(); }
static void fill() {
  if (!objs().empty()) return; type<FieldBase>(false); type<FieldRes>(false); scalarOrVec<half>(); scalarOrVec<float>(); scalarOrVec<double>(); vec<V3h>(); vec<V3f>(); vec<V3d>();
  type<FieldMapping>(false); obj<NullFieldMapping>(); obj<MatrixFieldMapping>(); obj<FrustumFieldMapping>(); type<FieldIO>(false); obj<DenseFieldIO>(); obj<SparseFieldIO>(); obj<MACFieldIO>(); obj<MIPFieldIO>(); type<FieldMappingIO>(false); obj<NullFieldMappingIO>(); obj<MatrixFieldMappingIO>(); obj<FrustumFieldMappingIO>();
}
static void casts(Ctx &c) {
  fill(); Obj &o = objs()[c.choose(objs().size())]; c.log(o.name); uint64_t h = 0;
  for (auto &t : tys()) { bool lib, real, sp; t.cast(o.p, lib, real, sp); c.step(); h = h * 2 + real; if (lib && !real) c.fail("a cast succeeds to a type the object is not of", VS() << o.name << " (" << o.rep << ") as " << t.name << " (" << t.rep << ")"); if (real && !lib) c.fail("a cast fails to a type the object is of", VS() << o.name << " (" << o.rep << ") as " << t.name << " (" << t.rep << ")"); if (!sp) c.fail("a cast gives another object", o.name); t.cast(RefBase::Ptr(), lib, real, sp); if (lib) c.fail("casting nothing gives something"); }
  c.state(vp::mix(h, std::hash<std::string>()(o.name)));
}
static void names(Ctx &c) { fill(); int i = c.choose(tys().size()); for (auto &t : tys()) if (&t != &tys()[i] && t.rep == tys()[i].rep) c.fail("two types have the same name", VS() << t.name << " and " << tys()[i].name << ": " << t.rep); c.step(); c.state(i); }
static std::vector<std::function<void(Ctx &)> > &made() { static std::vector<std::function<void(Ctx &)> > v; return v; }
template <class T> static FieldRes::Ptr mkF() { return FieldRes::Ptr(new T); }
template <class T> static FieldMapping::Ptr mkM() { return FieldMapping::Ptr(new T); }
template <class P> static void same(Ctx &c, P p, const std::string &n, const std::type_info &t, const char *cls) { c.step(); if (!p) c.fail("a registered class cannot be created", n); if (typeid(*p) != t) c.fail("creation by name gives another class", n); if (p->className() != cls) c.fail("an object created by name reports another", n + ": " + p->className()); c.state(std::hash<std::string>()(n)); }
template <class T> static void regF() { ClassFactory::singleton().registerField(mkF<T>); std::string n = std::string(T::staticClassName()) + "<" + DataTypeTraits<typename T::value_type>::name() + ">"; made().push_back([n](Ctx &c) { FieldRes::Ptr p = ClassFactory::singleton().createField(n); same(c, p, n, typeid(T), T::staticClassName()); if (p->classType() != T::staticClassType() || p->dataTypeString() != DataTypeTraits<typename T::value_type>::name()) c.fail("a field's names differ", n); FieldBase::Ptr q = p->clone(); if (!q || typeid(*q) != typeid(T)) c.fail("a clone is of another class", n); if (ClassFactory::singleton().createField(n).get() == p.get()) c.fail("creation gives the same object twice"); }); }
template <class T> static void regM() { ClassFactory::singleton().registerFieldMapping(mkM<T>); made().push_back([](Ctx &c) { std::string n = T::staticClassType(); FieldMapping::Ptr p = ClassFactory::singleton().createFieldMapping(n); same(c, p, n, typeid(T), T::staticClassType()); FieldMapping::Ptr q = p->clone(); if (!q || typeid(*q) != typeid(T)) c.fail("a clone is of another class", n); }); }
template <class T> static void regT() { regF<DenseField<T> >(); regF<SparseField<T> >(); regF<EmptyField<T> >(); regF<MyProc<T> >(); }
static void create(Ctx &c) {
  fill(); if (made().empty()) { initIO(); regT<half>(); regT<float>(); regT<double>(); regT<V3h>(); regT<V3f>(); regT<V3d>(); regF<MACField<V3h> >(); regF<MACField<V3f> >(); regF<MACField<V3d> >(); regM<NullFieldMapping>(); regM<MatrixFieldMapping>(); regM<FrustumFieldMapping>();
    // what the library registers for reading files: by the name of the class of what is read
#define IO(T, F) made().push_back([](Ctx &c) { FieldIO::Ptr p = ClassFactory::singleton().createFieldIO(F); same(c, p, F, typeid(T), F); });
    IO(DenseFieldIO, "DenseField") IO(SparseFieldIO, "SparseField") IO(MACFieldIO, "MACField") IO(MIPFieldIO, "MIPField")
#define MIO(T, F) made().push_back([](Ctx &c) { FieldMappingIO::Ptr p = ClassFactory::singleton().createFieldMappingIO(F); same(c, p, F, typeid(T), F); });
    MIO(NullFieldMappingIO, "NullFieldMapping") MIO(MatrixFieldMappingIO, "MatrixFieldMapping") MIO(FrustumFieldMappingIO, "FrustumFieldMapping")
    // names nothing is registered under
    made().push_back([](Ctx &c) { c.step(); ClassFactory &f = ClassFactory::singleton(); for (auto n : {"", "DenseField", "DenseField<int>", "densefield<float>", "DenseField<float> ", "DenseFieldIO", "x"}) if (f.createField(n)) c.fail("an unknown field name creates something", n); for (auto n : {"", "DenseFieldX", "Dense", "denseField", "DenseField<float>"}) if (f.createFieldIO(n) || f.createFieldMappingIO(n) || f.createFieldMapping(n)) c.fail("an unknown name creates something", n); c.state(1); });
  }
  made()[c.choose(made().size())](c);
}
// every class written to a file says, under its recorded name, which class reads it
static void files(Ctx &c) {
  bool og = c.flag(); Format fm(og); initIO(); int st = c.choose(5), ty = c.choose(6); if (st == 2 && (ty < 3 || og)) return; Spec s; s.e = s.d = box(0, 0, 0, 3, 3, 3); TmpFile tf(c, "x"); FieldRes::Ptr f;
  withType(ty, [&](auto t) { typedef typename decltype(t)::type T; if (st == 0) { typename DenseField<T>::Ptr g(new DenseField<T>); g->setSize(V3i(3)); g->clear(T(1)); f = g; } else if (st == 1) { typename SparseField<T>::Ptr g(new SparseField<T>); g->setSize(V3i(3)); g->clear(T(1)); f = g; } else if (st == 3) f = mkEager<DenseField<T> >(2, 0, MK_MAT); else if (st == 4) f = mkEager<SparseField<T> >(2, 0, MK_MAT); return 0; });
  if (st == 2) { if (ty == 3) { MACField<V3h>::Ptr g(new MACField<V3h>); g->setSize(V3i(3)); g->clear(V3h(1)); f = g; } if (ty == 4) { MACField<V3f>::Ptr g(new MACField<V3f>); g->setSize(V3i(3)); g->clear(V3f(1)); f = g; } if (ty == 5) { MACField<V3d>::Ptr g(new MACField<V3d>); g->setSize(V3i(3)); g->clear(V3d(1)); f = g; } }
  f->name = "n"; f->attribute = "a"; c.step(); { Field3DOutputFile o; if (!o.create(tf.p) || !writeAny(o, ty, "n", "a", f)) c.fail("cannot write"); } Field3DInputFile in; if (!in.open(tf.p)) c.fail("cannot open"); std::string n = "n"; FList l = readAny(in, ty, &n, "a"); if (l.size() != 1) c.fail("a layer is missing", f->classType()); if (l[0]->className() != f->className() || l[0]->dataTypeString() != f->dataTypeString()) c.fail("a file gives a field of another class", f->classType() + " became " + l[0]->classType()); for (int q = 0; q < 6; ++q) if (q != ty && !readAny(in, q, &n, "a").empty()) c.fail("a layer is given as another voxel type", f->classType()); c.state(st * 12 + ty * 2 + og);
}
void vp::registerScenarios(bool) { quietInit(); scenario("casts", casts, opt(false, 2)); scenario("names", names, opt(false, 2)); scenario("creation", create, opt(false, 2)); scenario("files", files, opt(false, 3)); }
