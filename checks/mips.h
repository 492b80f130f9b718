// Multi-resolution fields loaded on demand: building, reference and operations on levels.
#pragma once
#include "fileio.h"
#include "Field3D/FieldInterp.h"
#include "Field3D/MIPField.h"
#include "Field3D/MIPUtil.h"
#include "Field3D/MIPInterp.h"

template <class F> struct Lv { typedef typename F::Ptr Ptr; };
// levels of 4x2x2, 2x1x1, (1x1x1) voxels
template <class F> std::vector<typename F::Ptr> mkLevels(int n, int salt) {
  std::vector<typename F::Ptr> v; int sz[3][3] = {{4, 2, 2}, {2, 2, 1}, {1, 1, 1}};
  for (int l = 0; l < n; ++l) { typename F::Ptr f(new F); f->setSize(V3i(sz[l][0], sz[l][1], sz[l][2])); f->clear(typename F::value_type(3 + l + salt)); FOR_BOX(f->dataWindow(), x, y, z) if ((x + y + l) % 2 == 0) f->lvalue(x, y, z) = Mk<typename F::value_type>::of(voxelCode(x, y, z, l * 7 + salt)); v.push_back(f); }
  return v;
}
template <class M> void decorate(M &m, int map) { m.name = "n"; m.attribute = "a"; m.metadata().setStrMetadata("s", "v"); m.metadata().setIntMetadata("i", 7); m.metadata().setVecIntMetadata("vi", V3i(1, 2, 3)); m.setMapping(makeMapping(map)); }
template <class F> typename MIPField<F>::Ptr mkEager(int n, int salt, int map) { typename MIPField<F>::Ptr m(new MIPField<F>); m->setup(mkLevels<F>(n, salt)); decorate(*m, map); return m; }
// what a level must look like, from a field whose levels were all there from the start
template <class F> std::string diffLevel(const MIPField<F> &eager, const MIPField<F> &lazy, const F *lev, size_t l) {
  const F *want = eager.rawMipLevel(l); if (!lev) return "is missing";
  std::string d = diffTyped<typename F::value_type>(want, lev); if (!d.empty()) return d;
  d = diffMapping(want->mapping().get(), lev->mapping().get()); if (!d.empty()) return "mapping: " + d;
  if (lev->name != lazy.name || lev->attribute != lazy.attribute) return "name: " + lev->name + ":" + lev->attribute;
  const FieldMetadata &a = lazy.metadata(), &b = lev->metadata();
  if (a.strMetadata() != b.strMetadata() || a.intMetadata() != b.intMetadata() || a.vecIntMetadata() != b.vecIntMetadata() || a.floatMetadata() != b.floatMetadata() || a.vecFloatMetadata() != b.vecFloatMetadata()) return "metadata";
  return "";
}
