From e8938bd85c30542091f6c795c9b95b71b77aae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:38 +0000
Subject: [PATCH 01/61] fix: SparseField block_iterator bounding boxes must
 start at the data window's minimum

---
 export/SparseField.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index e8ac64b..b1a31d0 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1263,7 +1263,9 @@ private:
   {
     Box3i box;
     int blockSize = m_field.blockSize();
-    box.min = V3i(x * blockSize, y * blockSize, z * blockSize);
+    // Blocks are laid out from the data window's minimum corner
+    box.min = m_field.dataWindow().min + 
+      V3i(x * blockSize, y * blockSize, z * blockSize);
     box.max = box.min + V3i(blockSize - 1, blockSize - 1, blockSize - 1);
     // Clamp the box
     box.min = FIELD3D_CLIP(box.min, m_field.dataWindow());
-- 
2.43.0


From c937e2cffd43ba2e2d166b4161aa2bb90dc3d3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 02/61] fix: MACField::copyMAC must name the dependent base
 member, it could not be instantiated

---
 export/MACField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/MACField.h b/export/MACField.h
index d75ef9a..636149e 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -249,7 +249,7 @@ public:
   //! be re-implemented using proper iterators over the field
   void copyMAC(typename MACField::Ptr other)
   {
-    matchDefinition(other);
+    this->matchDefinition(other);
     std::copy(other->m_u.begin(), other->m_u.end(), m_u.begin());
     std::copy(other->m_v.begin(), other->m_v.end(), m_v.begin());
     std::copy(other->m_w.begin(), other->m_w.end(), m_w.begin());
-- 
2.43.0


From acf90eeedf5c024988cff3aa1fb1beb53d388c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:25 +0000
Subject: [PATCH 03/61] fix: MACFieldUtil.h uses FLT_EPSILON and must include
 its header

---
 export/MACFieldUtil.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/export/MACFieldUtil.h b/export/MACFieldUtil.h
index 9605c11..ee40a36 100644
--- a/export/MACFieldUtil.h
+++ b/export/MACFieldUtil.h
@@ -45,6 +45,8 @@
 #ifndef _INCLUDED_Field3D_MACFieldUtil_H_
 #define _INCLUDED_Field3D_MACFieldUtil_H_
 
+#include <cfloat>
+
 #include "MACField.h"
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From e88a912669d6670d4470ae76d23b503a5b4378a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 04/61] fix: cell-centered to MAC conversion must invert the
 whole rotation

---
 export/MACFieldUtil.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/export/MACFieldUtil.h b/export/MACFieldUtil.h
index ee40a36..d4bd51d 100644
--- a/export/MACFieldUtil.h
+++ b/export/MACFieldUtil.h
@@ -162,7 +162,10 @@ void convertCellCenteredToMAC(typename Field_T::Ptr cc,
     M44d localToWorld = mapping->localToWorld();
     V3d scale, rot, trans, shear;
     if (FIELD3D_EXTRACT_SHRT(localToWorld, scale, shear, rot, trans, false)) {
-      wsToSsMtx.rotate(-rot);
+      // The inverse of a rotation about several axes is its transpose,
+      // not the rotation by the negated angles
+      wsToSsMtx.rotate(rot);
+      wsToSsMtx.transpose();
       rotateVector = true;
     }
   }
-- 
2.43.0


From d1e0684f082d195f38ce170bb99566bf478237a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 05/61] fix: assigning a field must clone the mapping instead
 of sharing it

---
 export/Field.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/export/Field.h b/export/Field.h
index 51fd35d..c856bae 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -240,6 +240,9 @@ public:
   //! \todo OSS Go over the copy constructing - is it implemented right? 8hr
   FieldRes(const FieldRes &src);
 
+  //! Assignment operator. The mapping is cloned, just as in copy construction.
+  FieldRes& operator = (const FieldRes &src);
+
   // Main methods --------------------------------------------------------------
 
   //! Returns the extents of the data. This signifies the relevant area that
@@ -339,7 +342,20 @@ inline FieldRes::FieldRes(const FieldRes &src)
   // FieldBase(src);
   // Copy self
   *this = src;
-  m_mapping = src.mapping()->clone();
+}
+
+//----------------------------------------------------------------------------//
+
+inline FieldRes& FieldRes::operator = (const FieldRes &src)
+{
+  if (this != &src) {
+    FieldBase::operator=(src);
+    m_extents = src.m_extents;
+    m_dataWindow = src.m_dataWindow;
+    // The mapping follows this field's extents, so it can't be shared
+    m_mapping = src.mapping()->clone();
+  }
+  return *this;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From d55bb9c4835c4db72c8add2771d28b0f3643aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:42 +0000
Subject: [PATCH 06/61] fix: HDF5 chunk size must not be zero for fields of a
 single value

---
 include/MACFieldIO.h | 3 ++-
 src/DenseFieldIO.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 1513b84..5c6a3df 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -268,7 +268,8 @@ bool MACFieldIO::writeData(hid_t layerGroup,
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-  const hsize_t chunkSize = std::min(preferredChunkSize, totalSize[0] / 2);
+  // It must not be zero, or the data set can not be created.
+  const hsize_t chunkSize = std::max(hsize_t(1), std::min(preferredChunkSize, totalSize[0] / 2));
 
   H5ScopedScreate dataSpace(H5S_SIMPLE);
 
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index f178391..a812589 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -390,7 +390,8 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-  const hsize_t chunkSize = std::min(preferredChunkSize, totalSize[0] / 2);
+  // It must not be zero, or the data set can not be created.
+  const hsize_t chunkSize = std::max(hsize_t(1), std::min(preferredChunkSize, totalSize[0] / 2));
 
   Box3i ext(field->extents()), dw(field->dataWindow());
 
-- 
2.43.0


From 5fddd297a5d119984a3203aadbda5d328f0e3b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:57 +0000
Subject: [PATCH 07/61] fix: type-neutral writeLayer and readLayers must work
 on HDF5 files

---
 src/Field3DFile.cpp | 51 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e6caced..cd53702 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -328,6 +328,44 @@ namespace {
 
   //--------------------------------------------------------------------------//
 
+  //! Maps the calls that work on any data type to the scalar and vector calls
+  //! of the HDF5 file classes
+  template <class Data_T>
+  struct HDF5Layers
+  {
+    typedef typename Field<Data_T>::Ptr FieldPtr;
+    typedef typename Field<Data_T>::Vec FieldList;
+    static bool write(Field3DOutputFileHDF5 &file, const std::string &partition,
+                      const std::string &layer, FieldPtr field)
+    { return file.writeScalarLayer<Data_T>(partition, layer, field); }
+    static FieldList read(const Field3DInputFileHDF5 &file,
+                          const std::string &layer)
+    { return file.readScalarLayers<Data_T>(layer); }
+    static FieldList read(const Field3DInputFileHDF5 &file,
+                          const std::string &partition,
+                          const std::string &layer)
+    { return file.readScalarLayers<Data_T>(partition, layer); }
+  };
+
+  template <class Data_T>
+  struct HDF5Layers<FIELD3D_VEC3_T<Data_T> >
+  {
+    typedef typename Field<FIELD3D_VEC3_T<Data_T> >::Ptr FieldPtr;
+    typedef typename Field<FIELD3D_VEC3_T<Data_T> >::Vec FieldList;
+    static bool write(Field3DOutputFileHDF5 &file, const std::string &partition,
+                      const std::string &layer, FieldPtr field)
+    { return file.writeVectorLayer<Data_T>(partition, layer, field); }
+    static FieldList read(const Field3DInputFileHDF5 &file,
+                          const std::string &layer)
+    { return file.readVectorLayers<Data_T>(layer); }
+    static FieldList read(const Field3DInputFileHDF5 &file,
+                          const std::string &partition,
+                          const std::string &layer)
+    { return file.readVectorLayers<Data_T>(partition, layer); }
+  };
+
+  //--------------------------------------------------------------------------//
+
 } // end of local namespace
 
 //----------------------------------------------------------------------------//
@@ -1418,6 +1456,11 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
                "Called writeLayer with null pointer. Ignoring...");
     return false;
   }
+
+  if (m_hdf5) {
+    return HDF5Layers<Data_T>::write(*m_hdf5, userPartitionName, layerName, 
+                                     field);
+  }
   
   // Make sure archive is open
   if (!m_archive) {
@@ -1612,6 +1655,10 @@ Field3DInputFile::readLayers(const std::string &name) const
 
   typedef typename Field<Data_T>::Ptr FieldPtr;
   typedef typename Field<Data_T>::Vec FieldList;
+
+  if (m_hdf5) {
+    return HDF5Layers<Data_T>::read(*m_hdf5, name);
+  }
   
   FieldList ret;
   std::vector<std::string> parts;
@@ -1646,6 +1693,10 @@ Field3DInputFile::readLayers(const std::string &partitionName,
   typedef typename Field<Data_T>::Ptr FieldPtr;
   typedef typename Field<Data_T>::Vec FieldList;
 
+  if (m_hdf5) {
+    return HDF5Layers<Data_T>::read(*m_hdf5, partitionName, layerName);
+  }
+
   FieldList ret;
 
   if ((layerName.length() == 0) || (partitionName.length() == 0))
-- 
2.43.0


From d3077d6a73dcbc94b3fed38b0656e06709162fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:09 +0000
Subject: [PATCH 08/61] fix: writeLayer must report when a layer's metadata or
 data could not be written

---
 src/Field3DFile.cpp | 12 ++++++++++--
 src/MACFieldIO.cpp  |  3 ++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index cd53702..70c3a5d 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1540,10 +1540,18 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   OgOGroup ogMetadata(ogLayer, "metadata");
 
   // Write metadata
-  writeMetadata(ogMetadata, field);
+  if (!writeMetadata(ogMetadata, field)) {
+    Msg::print(Msg::SevWarning, "Couldn't write metadata of layer \"" 
+               + layerName + "\"");
+    return false;
+  }
 
   // Write field data
-  writeField(ogLayer, field);
+  if (!writeField(ogLayer, field)) {
+    Msg::print(Msg::SevWarning, "Couldn't write data of layer \"" 
+               + layerName + "\"");
+    return false;
+  }
 
   // Add to partition
 
diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index fd48105..4d83539 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -206,7 +206,8 @@ MACFieldIO::write(hid_t layerGroup, FieldBase::Ptr field)
 bool
 MACFieldIO::write(OgOGroup & /* layerGroup */ , FieldBase::Ptr /* field */)
 {
-  return true;
+  // MAC fields can't be stored in Ogawa files.
+  return false;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From ccbdfdd7b2b3b3d742f1c0d307565b8956b18e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 09/61] fix: reading a frustum mapping from an Ogawa file must
 read its samples

---
 src/FieldMappingIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMappingIO.cpp b/src/FieldMappingIO.cpp
index 5912074..f51a8f9 100644
--- a/src/FieldMappingIO.cpp
+++ b/src/FieldMappingIO.cpp
@@ -427,6 +427,7 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
                  k_frustumMappingNumSamples);
       return FieldMapping::Ptr();
     }
+    numSamples = numSamplesAttr.value();
   } catch (...) {
     //do nothing
   }
-- 
2.43.0


From cc9129da8e1675cc436de3047f3822b8cea84cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 10/61] fix: frustum mapping must drop the default screen
 transform with the other default samples

---
 src/FieldMapping.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index b1f1a1f..3e14c66 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -431,7 +431,9 @@ FrustumFieldMapping::FrustumFieldMapping()
 //----------------------------------------------------------------------------//
 
 FrustumFieldMapping::FrustumFieldMapping(const Box3i &extents)
-  : FieldMapping(extents)
+  : FieldMapping(extents),
+    m_zDistribution(PerspectiveDistribution),
+    m_defaultState(true)
 { 
   reset();
 }
@@ -786,6 +788,7 @@ void FrustumFieldMapping::getLocalToVoxelMatrix(M44d &result)
 
 void FrustumFieldMapping::clearCurves()
 {
+  m_ssToWsCurve.clear();
   m_lpsToWsCurve.clear();
   m_csToWsCurve.clear();
   m_nearCurve.clear();
-- 
2.43.0


From 9964b22d58183fd2b863519f84d2a3700149d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 11/61] fix: output partitions must keep their own copy of the
 mapping they were created with

---
 export/Field3DFileHDF5.h | 2 +-
 src/Field3DFile.cpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 98c6e0b..8aabad8 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1428,7 +1428,7 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  part->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 70c3a5d..58a7e46 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1430,7 +1430,7 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping();
+  part->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
-- 
2.43.0


From 4ba2b4d48f544d96a5e3fc42ed2a4215196906f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 12/61] fix: mapping of coarser MIP levels must follow the base
 mapping at every time sample

---
 src/MIPUtil.cpp | 50 +++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/MIPUtil.cpp b/src/MIPUtil.cpp
index 886d6b8..9b7c4df 100644
--- a/src/MIPUtil.cpp
+++ b/src/MIPUtil.cpp
@@ -88,9 +88,14 @@ namespace detail {
 
     FieldMapping::Ptr mapping = base->mapping();
 
+    // The finest level has the mapping of the field itself
+    if (level == 0) {
+      return mapping;
+    }
+
     const V3i   zero   = V3i(0);
     const V3i   mipOff = base->metadata().vecIntMetadata(k_mipOffsetStr, zero);
-    const float mult   = 1 << level;
+    const double mult  = 1 << level;
     const V3i   res    = extents.size() + V3i(1);
       
     // Compute offset of current level 
@@ -106,35 +111,36 @@ namespace detail {
         field_dynamic_cast<MatrixFieldMapping>(mapping)) {
       // Local space positions
       const V3d lsOrigin(0.0), lsX(1.0, 0.0, 0.0), lsY(0.0, 1.0, 0.0), 
-        lsZ(0.0, 0.0, 0.1);
-      // Find base voxel size
-      const V3f wsBaseVoxelSize = mfm->wsVoxelSize(0, 0, 0);
-      // Compute current levels' voxel size
-      const V3f wsVoxelSize = wsBaseVoxelSize * mult;
-      // Grab the matrices
-      const MatrixCurve::SampleVec lsToWsSamples = mfm->localToWorldSamples();
+        lsZ(0.0, 0.0, 1.0);
+      // Resolution of the base field, which the local space spans
+      const V3d baseRes = base->extents().size() + V3i(1);
+      // Grab the matrices. No samples means that the mapping is the identity
+      MatrixCurve::SampleVec lsToWsSamples = mfm->localToWorldSamples();
+      if (lsToWsSamples.empty()) {
+        lsToWsSamples.push_back(MatrixCurve::Sample(0.0f, M44d()));
+      }
       // New mapping to construct
       MatrixFieldMapping::Ptr newMapping(new MatrixFieldMapping);
       // For each time sample
       BOOST_FOREACH (const MatrixCurve::Sample &sample, lsToWsSamples){
         // Find origin and orientation vectors
         V3d wsOrigin, wsX, wsY, wsZ;
-        mfm->localToWorld(lsOrigin, wsOrigin, sample.first);
-        mfm->localToWorld(lsX, wsX, sample.first);
-        mfm->localToWorld(lsY, wsY, sample.first);
-        mfm->localToWorld(lsZ, wsZ, sample.first);
-        // Normalize orientation vectors
-        wsX = (wsX - wsOrigin).normalized();
-        wsY = (wsY - wsOrigin).normalized();
-        wsZ = (wsZ - wsOrigin).normalized();
+        sample.second.multVecMatrix(lsOrigin, wsOrigin);
+        sample.second.multDirMatrix(lsX, wsX);
+        sample.second.multDirMatrix(lsY, wsY);
+        sample.second.multDirMatrix(lsZ, wsZ);
+        // Find base voxel vectors at this time sample
+        wsX /= baseRes.x;
+        wsY /= baseRes.y;
+        wsZ /= baseRes.z;
         // Origin shift due to mip offset
-        wsOrigin += wsX * wsBaseVoxelSize.x * diff.x;
-        wsOrigin += wsY * wsBaseVoxelSize.y * diff.y;
-        wsOrigin += wsZ * wsBaseVoxelSize.z * diff.z;
+        wsOrigin += wsX * diff.x;
+        wsOrigin += wsY * diff.y;
+        wsOrigin += wsZ * diff.z;
         // Mult by voxel size
-        wsX *= wsVoxelSize.x * res.x;
-        wsY *= wsVoxelSize.y * res.y;
-        wsZ *= wsVoxelSize.z * res.z;
+        wsX *= mult * res.x;
+        wsY *= mult * res.y;
+        wsZ *= mult * res.z;
         // Construct new mapping
         M44d mtx = coordinateSystem(wsX, wsY, wsZ, wsOrigin);
         // Update mapping
-- 
2.43.0


From d2997b075c023d37e78ec21b9fde6218a956a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 13/61] fix: empty Ogawa data must be added to its group once

---
 src/OGroup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index fbfebb1..1cc5eb9 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -105,7 +105,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iSize, const void * iData)
 
     if (iSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
@@ -151,7 +150,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iNumData,
 
     if (totalSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
-- 
2.43.0


From 409ea68fc6df55a93cc00084eca947791a29d4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:22 +0000
Subject: [PATCH 14/61] fix: strings read from Ogawa files must keep embedded
 zero characters

---
 src/OgUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index dee855a..730d3cc 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -55,7 +55,7 @@ bool readString(Alembic::Ogawa::IGroupPtr group, const size_t idx,
   // Read the data
   data->read(length, &temp[0], 0, OGAWA_THREAD);
   // Construct string. The string see the temp buffer as a const char *.
-  s = std::string(&temp[0]);
+  s = std::string(&temp[0], stringLength);
   // Done
   return true;
 }
-- 
2.43.0


From fc3468b57579f740c8ecdfcea59b84cd26c289d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:59 +0000
Subject: [PATCH 15/61] fix: names containing '/' must be found as direct
 children of an Ogawa group

---
 src/OgIGroup.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 7884102..2c56ea2 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -84,11 +84,7 @@ OgIGroup::findGroup(const std::string &path,
   if (!isValid()) {
     return Alembic::Ogawa::IGroupPtr();
   }
-  // Check for recursive finding
-  if (path.find("/") != std::string::npos) {
-    return recursiveFindGroup(path, groupType);
-  }
-  // Not recursive, just a single group name
+  // Look for a direct child first. The names of attributes may contain '/'
   const std::string &name = path;
   // If it's valid, we know we have at least 2 children.
   // Check all children
@@ -127,6 +123,10 @@ OgIGroup::findGroup(const std::string &path,
       return group;
     }
   }
+  // Check for recursive finding
+  if (path.find("/") != std::string::npos) {
+    return recursiveFindGroup(path, groupType);
+  }
   // Didn't find one
   return Alembic::Ogawa::IGroupPtr();
 }
-- 
2.43.0


From 32ae930777f752b7ae9ef0b8c52f6c5b087fb519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 16/61] fix: attributes of one name and several types must all
 be found in an Ogawa group

---
 include/OgIGroup.h | 15 ++++++++++-----
 src/OgIGroup.cpp   | 16 ++++++++++++----
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/OgIGroup.h b/include/OgIGroup.h
index d9e3875..4d018a0 100644
--- a/include/OgIGroup.h
+++ b/include/OgIGroup.h
@@ -97,13 +97,17 @@ private:
 
   // Utility methods -----------------------------------------------------------
 
-  //! Finds an ogawa-level group
-  Alembic::Ogawa::IGroupPtr findGroup(const std::string &name,
-                                      const OgGroupType groupType) const;
+  //! Finds an ogawa-level group. If a data type is given, only groups that
+  //! hold that type are considered. This matters for attributes, where one
+  //! name may be used once for each data type.
+  Alembic::Ogawa::IGroupPtr findGroup
+  (const std::string &name, const OgGroupType groupType,
+   const OgDataType dataType = F3DInvalidDataType) const;
 
   //! Recursively finds an ogawa-level group
   Alembic::Ogawa::IGroupPtr recursiveFindGroup
-  (const std::string &name, const OgGroupType groupType) const;
+  (const std::string &name, const OgGroupType groupType,
+   const OgDataType dataType) const;
 
   //! Retrieves list of ogawa-level groups of the given type
   std::vector<std::string>  groupNames(const OgGroupType groupType) const;
@@ -120,7 +124,8 @@ private:
 template <typename T>
 OgIAttribute<T> OgIGroup::findAttribute(const std::string &name) const
 {
-  Alembic::Ogawa::IGroupPtr group = findGroup(name, F3DAttributeType);
+  Alembic::Ogawa::IGroupPtr group = 
+    findGroup(name, F3DAttributeType, OgawaTypeTraits<T>::typeEnum());
 
   if (group) {
     return OgIAttribute<T>(group);
diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 2c56ea2..c5e8601 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -78,7 +78,8 @@ OgIGroup OgIGroup::findGroup(const std::string &name) const
 
 Alembic::Ogawa::IGroupPtr 
 OgIGroup::findGroup(const std::string &path,
-                    const OgGroupType groupType) const
+                    const OgGroupType groupType,
+                    const OgDataType dataType) const
 {
   // If not valid, return non-valid group
   if (!isValid()) {
@@ -120,12 +121,18 @@ OgIGroup::findGroup(const std::string &path,
     }
     // Check if name matches
     if (groupName == name) {
+      // Check that the data type matches, if one was asked for
+      if (dataType != F3DInvalidDataType && 
+          (group->getNumChildren() < 3 || 
+           readDataType(group, 2) != dataType)) {
+        continue;
+      }
       return group;
     }
   }
   // Check for recursive finding
   if (path.find("/") != std::string::npos) {
-    return recursiveFindGroup(path, groupType);
+    return recursiveFindGroup(path, groupType, dataType);
   }
   // Didn't find one
   return Alembic::Ogawa::IGroupPtr();
@@ -135,7 +142,8 @@ OgIGroup::findGroup(const std::string &path,
 
 Alembic::Ogawa::IGroupPtr 
 OgIGroup::recursiveFindGroup(const std::string &path,
-                             const OgGroupType groupType) const
+                             const OgGroupType groupType,
+                             const OgDataType dataType) const
 {
   // If not valid, return non-valid group
   if (!isValid()) {
@@ -180,7 +188,7 @@ OgIGroup::recursiveFindGroup(const std::string &path,
     // Check if name matches
     if (groupName == name) {
       OgIGroup subGroup(group);
-      return subGroup.findGroup(restOfPath, groupType);
+      return subGroup.findGroup(restOfPath, groupType, dataType);
     }
   }
   // Didn't find one
-- 
2.43.0


From b9904ea8c4088a3a1a277dbae3cb2b88a4787a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 17/61] fix: writeLayer must refuse names that an Ogawa
 partition cannot hold

---
 src/Field3DFile.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 58a7e46..d15e7a6 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1469,6 +1469,16 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // Groups can't have '/' in their names, and the mapping group lives 
+  // next to the layers of a partition.
+  if (userPartitionName.find('/') != string::npos ||
+      layerName.find('/') != string::npos || layerName == k_mappingStr) {
+    Msg::print(Msg::SevWarning, "Can't write layer \"" + layerName 
+               + "\" to partition \"" + userPartitionName
+               + "\": The name is not allowed.");
+    return false;
+  }
+
   // Get the partition name
   string partitionName = intPartitionName(userPartitionName, layerName, field);
 
-- 
2.43.0


From 119df8738013ad3b9e31053ffb680cb921345640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 18/61] fix: strings read from HDF5 attributes must keep
 embedded zero characters

---
 src/Hdf5Util.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Hdf5Util.cpp b/src/Hdf5Util.cpp
index 5d146a8..ba963a5 100644
--- a/src/Hdf5Util.cpp
+++ b/src/Hdf5Util.cpp
@@ -108,7 +108,9 @@ readAttribute(hid_t location, const string& attrName, string& value)
   if (H5Aread(attr, nativeType, &tempString[0]) < 0) 
     throw MissingAttributeException("Couldn't read attribute " + attrName);
 
-  value = string(&tempString[0]);
+  // Keep embedded zero characters, but not the terminator or padding
+  value = string(&tempString[0], strLen);
+  value.erase(value.find_last_not_of('\0') + 1);
 
   return true;
 
-- 
2.43.0


From d52fe633e6f734b420f60a7fdf074ae4bce2ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:54 +0000
Subject: [PATCH 19/61] fix: default partition and layer name were swapped in
 HDF5 layer writes

---
 export/Field3DFileHDF5.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 8aabad8..048c63d 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -794,13 +794,13 @@ public:
   template <class Data_T>
   bool writeScalarLayer(const std::string &layerName, 
                         typename Field<Data_T>::Ptr layer)
-  { return writeScalarLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeScalarLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a vector layer to the "Default" partition.
   template <class Data_T>
   bool writeVectorLayer(const std::string &layerName, 
                         typename Field<FIELD3D_VEC3_T<Data_T> >::Ptr layer)
-  { return writeVectorLayer<Data_T>(layerName, std::string("default"), layer); }
+  { return writeVectorLayer<Data_T>(std::string("default"), layerName, layer); }
 
   //! Writes a layer to a specific partition. The partition will be created if
   //! not specified.
-- 
2.43.0


From b0d20f55bf66257c4b4a6e996c31d62bd14b33c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 20/61] fix: HDF5 partitions must hold a scalar and a vector
 layer of one name apart

---
 export/Field3DFileHDF5.h | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 048c63d..a704607 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1487,23 +1487,13 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     }
     
     // If the partition already existed, we need to make sure that the layer
-    // doesn't also exist
-    if (!isVectorLayer) {
-      if (part->scalarLayer(layerName)) {
-        //need to create a new partition and then add the layer to that
-        std::string newPartitionName = incrementPartitionName(partitionName);
-        part = createNewPartition<Data_T>(newPartitionName,layerName,field);
-        if (!part)
-          return false;
-      }
-    } else {
-      if (part->vectorLayer(layerName)) {
-        //need to create a new partition and then add the layer to that
-        std::string newPartitionName = incrementPartitionName(partitionName);
-        part = createNewPartition<Data_T>(newPartitionName,layerName,field);
-        if (!part)
-          return false;
-      }
+    // doesn't also exist. Scalar and vector layers are stored in the same group
+    if (part->scalarLayer(layerName) || part->vectorLayer(layerName)) {
+      //need to create a new partition and then add the layer to that
+      std::string newPartitionName = incrementPartitionName(partitionName);
+      part = createNewPartition<Data_T>(newPartitionName,layerName,field);
+      if (!part)
+        return false;
     }
   }
 
-- 
2.43.0


From 77d4c33af9c0d9dcb066ae7bb8a4124a0527a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:47 +0000
Subject: [PATCH 21/61] fix: writeLayer must refuse names that an HDF5
 partition cannot hold

---
 export/Field3DFileHDF5.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index a704607..43905a4 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1467,6 +1467,17 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // HDF5 treats names as paths, and the mapping group lives next to the layers
+  // of a partition.
+  if (userPartitionName.find('/') != string::npos || 
+      layerName.find('/') != string::npos || layerName.empty() || 
+      layerName == "." || layerName == "mapping") {
+    Msg::print(Msg::SevWarning, "Can't write layer \"" + layerName 
+               + "\" to partition \"" + userPartitionName
+               + "\": The name is not allowed.");
+    return false;
+  }
+
   string partitionName = intPartitionName(userPartitionName, layerName, field);
 
   // See if the partition already exists or if we need to make it ---
-- 
2.43.0


From 1a6efe2519c8fbdc46994f3f6ead5c82ba64f29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 22/61] fix: opening a file must drop everything of the file
 opened before

---
 src/Field3DFile.cpp     | 4 ++++
 src/Field3DFileHDF5.cpp | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index d15e7a6..b4364a0 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -751,7 +751,11 @@ Field3DInputFile::~Field3DInputFile()
 
 bool Field3DInputFile::open(const string &filename)
 {
+  // Drop everything that belongs to a previously opened file
+  m_hdf5.reset();
+  m_hdf5Base.reset();
   clear();
+  m_metadata = FieldMetadata(this);
 
   bool success = true;
 
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 5da1398..f1e9798 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -587,7 +587,10 @@ bool Field3DInputFileHDF5::open(const string &filename)
 {
   GlobalLock lock(g_hdf5Mutex);
 
+  // Drop everything that belongs to a previously opened file
   clear();
+  m_partitionNames.clear();
+  m_metadata = FieldMetadata(this);
 
   bool success = true;
 
-- 
2.43.0


From 7655314f839ed32265eb748b6da195567b0c3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 23/61] fix: creating a file must finish and drop the file
 created before

---
 export/Field3DFile.h    | 6 ++++++
 src/Field3DFile.cpp     | 8 ++++++--
 src/Field3DFileHDF5.cpp | 4 ++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/export/Field3DFile.h b/export/Field3DFile.h
index f065ee3..e6d31fb 100644
--- a/export/Field3DFile.h
+++ b/export/Field3DFile.h
@@ -804,6 +804,12 @@ private:
 
   void cleanup()
   {
+    // The metadata and group memberships belong to the file
+    if (m_archive) {
+      m_metadata = FieldMetadata(this);
+      m_groupMembership.clear();
+    }
+
     // The destruction of the various Ogawa components must happen in the
     // right order
     
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index b4364a0..eac2622 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1018,6 +1018,12 @@ Field3DOutputFile::~Field3DOutputFile()
 
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
+  // Finish the previous file, if any, and drop everything that belongs to it
+  closeInternal();
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  m_partitionCount.clear();
+
   if (!ms_doOgawa) {
     m_hdf5.reset(new Field3DOutputFileHDF5);
     m_hdf5Base = m_hdf5;
@@ -1025,8 +1031,6 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
     return m_hdf5->create(filename, Field3DOutputFileHDF5::CreateMode(ccm));
   }
 
-  closeInternal();
-
   if (cm == FailOnExisting && fileExists(filename)) {
     return false;
   }
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index f1e9798..44ad8c8 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -1245,6 +1245,10 @@ bool Field3DOutputFileHDF5::create(const string &filename, CreateMode cm)
 
   closeInternal();
 
+  // Drop what belongs to the previous file
+  m_partitions.clear();
+  m_partitionCount.clear();
+
   bool success = true;
 
   try {
-- 
2.43.0


From 6aadb2623650cee373ade9a426ca96ebb0672691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 24/61] fix: Ogawa reads must report missing data and not fail
 for good after one failure

---
 src/IStreams.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index a200dac..f6afaad 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -105,6 +105,7 @@ IStreams::IStreams(const std::string & iFileName, std::size_t iNumStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         filestream->close();
         delete filestream;
@@ -125,6 +126,7 @@ IStreams::IStreams(const std::vector< std::istream * > & iStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         return;
     }
@@ -161,7 +163,7 @@ void IStreams::init()
         mData->offsets.push_back(mData->streams[i]->tellg());
         mData->streams[i]->read(header, 16);
         std::string magicStr(header, 5);
-        if (magicStr != "Ogawa")
+        if (mData->streams[i]->gcount() != 16 || magicStr != "Ogawa")
         {
             mData->frozen = false;
             mData->valid = false;
@@ -254,8 +256,15 @@ void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                 return;
             }
         }
+        // an earlier failed read must not affect this one
+        stream->clear();
         stream->seekg(iPos + mData->offsets[threadId]);
         stream->read((char *)oBuf, iSize);
+        if (!stream->good())
+        {
+            throw std::runtime_error(
+                "Ogawa IStreams::read couldn't read the requested data.");
+        }
     }
 }
 
-- 
2.43.0


From 7886ea20e689be53cae12ea187a8075b5feff15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 25/61] fix: Ogawa groups must not trust a child count that the
 file cannot hold

---
 src/IGroup.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/IGroup.cpp b/src/IGroup.cpp
index 476914e..05af441 100644
--- a/src/IGroup.cpp
+++ b/src/IGroup.cpp
@@ -36,6 +36,7 @@
 #include "IGroup.h"
 #include "IArchive.h"
 #include "IStreams.h"
+#include <stdexcept>
 
 namespace Alembic {
 namespace Ogawa {
@@ -83,6 +84,19 @@ IGroup::IGroup(IStreamsPtr iStreams,
     // children
     if (!iLight || mData->numChildren < 9)
     {
+        // make sure the last child index can be read, before trusting the
+        // number of children enough to allocate memory for them
+        if (mData->numChildren > INVALID_GROUP / 8)
+        {
+            throw std::runtime_error("Illegal number of children in Ogawa group");
+        }
+        Alembic::Util::uint64_t lastChild = 0;
+        if (mData->numChildren > 0)
+        {
+            mData->streams->read(iThreadIndex, iPos + mData->numChildren * 8, 8,
+                                 &lastChild);
+        }
+
         mData->childVec.resize(mData->numChildren);
         mData->streams->read(iThreadIndex, iPos + 8, mData->numChildren * 8,
                              &(mData->childVec.front()));
-- 
2.43.0


From 9b28da958bd1b04ebc58d60eae254ee107def9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 26/61] fix: unfinished Ogawa files must be rejected

---
 src/Field3DFile.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index eac2622..28f6719 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -782,6 +782,11 @@ bool Field3DInputFile::open(const string &filename)
       }
     }
 
+    // A file that was never finished must not be read
+    if (!m_archive->isFrozen()) {
+      throw BadFileHierarchyException(filename);
+    }
+
     // Grab the root group
     m_root.reset(new OgIGroup(*m_archive));
     
-- 
2.43.0


From 18aa95a20e13489f95b1742ec702266cc35d48a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:25 +0000
Subject: [PATCH 27/61] fix: missing Ogawa data must not be dereferenced

---
 include/OgUtil.h | 3 +++
 src/OgUtil.cpp   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/OgUtil.h b/include/OgUtil.h
index 07254c7..90ec9b4 100644
--- a/include/OgUtil.h
+++ b/include/OgUtil.h
@@ -107,6 +107,9 @@ bool readData(Alembic::Ogawa::IGroupPtr group, const size_t idx,
 {
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  if (!data) {
+    return false;
+  }
   // Check data length
   const size_t sizeLength = sizeof(T);
   const size_t length = data->getSize();
diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index 730d3cc..ead926d 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -68,6 +68,9 @@ OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx)
   OgDataType dataType;;
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  if (!data) {
+    return F3DInvalidDataType;
+  }
   // Check data length
   const size_t sizeLength = sizeof(OgDataType);
   const size_t length = data->getSize();
-- 
2.43.0


From 31cf37f8983f49af956f95fc9bdedfe6dd2e01c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 28/61] fix: a partition that could not be written must not
 receive layers

---
 export/Field3DFileHDF5.h | 12 +++++-------
 src/Field3DFile.cpp      | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index 43905a4..ba06f3d 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -1398,11 +1398,6 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
     return FileHDF5::Partition::Ptr();
   } 
     
-  m_partitions.push_back(newPart);
-
-  // Pick up new pointer
-  FileHDF5::Partition::Ptr  part = partition(partitionName);
-  
   // Add mapping group to the partition
   //! \todo We should probably remove the group on disk if we can't write
   //! the mapping
@@ -1428,7 +1423,7 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping()->clone();
+  newPart->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
@@ -1437,7 +1432,10 @@ Field3DOutputFileHDF5::createNewPartition(const std::string &partitionName,
     return FileHDF5::Partition::Ptr();    
   }
 
-  return part;
+  // The partition is only known to the file once it is complete
+  m_partitions.push_back(newPart);
+
+  return newPart;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 28f6719..83a57c4 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1415,11 +1415,6 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   boost::shared_ptr<OgOGroup> ogPartition(new OgOGroup(*m_root, newPart->name));
   newPart->setGroup(ogPartition);
 
-  m_partitions.push_back(newPart);
-
-  // Pick up new pointer
-  File::Partition::Ptr part = partition(partitionName);
-  
   // Add mapping group to the partition
   try {
     if (!writeMapping(*ogPartition, field->mapping())) {
@@ -1443,13 +1438,16 @@ Field3DOutputFile::createNewPartition(const std::string &partitionName,
   // Set the mapping of the partition. Since all layers share their 
   // partition's mapping, we can just pick this first one. All subsequent
   // additions to the same partition are checked to have the same mapping
-  part->mapping = field->mapping()->clone();
+  newPart->mapping = field->mapping()->clone();
 
   // Tag node as partition
   // Create a version attribute on the root node
   OgOAttribute<string>(*ogPartition, "is_field3d_partition", "1");
 
-  return part;
+  // Only a complete partition can hold layers
+  m_partitions.push_back(newPart);
+
+  return newPart;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From fde020ebc10442a3563633fd5fe86c17c79c26e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 29/61] fix: a sparse block that cannot be read must fail the
 read

---
 include/OgSparseDataReader.h | 19 +++++++++++++------
 src/SparseFieldIO.cpp        | 32 ++++++++++++++++++++++++++++----
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/include/OgSparseDataReader.h b/include/OgSparseDataReader.h
index 62fa967..088ccd9 100644
--- a/include/OgSparseDataReader.h
+++ b/include/OgSparseDataReader.h
@@ -189,8 +189,14 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
 
     // Length of compressed data
     const uint64_t length = m_cDataset.dataSize(idx, m_threadId);
+    // Check that it fits the cache
+    if (length > m_compressionCache.size()) {
+      throw ReadDataException("Bad block size in SparseDataReader");
+    }
     // Read data into compression cache
-    m_cDataset.getData(idx, &m_compressionCache[0], m_threadId);
+    if (!m_cDataset.getData(idx, &m_compressionCache[0], m_threadId)) {
+      throw ReadDataException("Couldn't read block in SparseDataReader");
+    }
     // Target location
     uint8_t *ucmpData = reinterpret_cast<uint8_t *>(result);
     // Length of uncompressed data is stored here
@@ -198,15 +204,16 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
     // Uncompress
     int status = uncompress(ucmpData, &ucmpLen, &m_compressionCache[0], 
                             length);
-    if (status != Z_OK) {
-      std::cout << "ERROR in uncompress: " << status
-                << " " << ucmpLen << " " << length << std::endl;
-      return;
+    if (status != Z_OK || ucmpLen != m_numVoxels * sizeof(Data_T)) {
+      throw ReadDataException("Couldn't uncompress block in SparseDataReader");
     }
 
   } else {
 
-    m_dataset.getData(idx, result, OGAWA_THREAD);
+    if (m_dataset.dataSize(idx, m_threadId) != m_numVoxels ||
+        !m_dataset.getData(idx, result, m_threadId)) {
+      throw ReadDataException("Couldn't read block in SparseDataReader");
+    }
 
   }
 }
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 44f266b..5a7545e 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -91,7 +91,8 @@ struct ReadThreadingState
       numOccupiedBlocks(i_numOccupiedBlocks),
       isCompressed(i_isCompressed), 
       blockIdxToDatasetIdx(i_blockIdxToDatasetIdx), 
-      nextBlockToRead(0)
+      nextBlockToRead(0),
+      failed(false)
   { }
   // Data members
   const OgIGroup &location;
@@ -102,6 +103,8 @@ struct ReadThreadingState
   const bool   isCompressed;
   const std::vector<size_t> &blockIdxToDatasetIdx;
   size_t nextBlockToRead;
+  // Whether a thread failed to read its block
+  bool failed;
   // Mutexes
   boost::mutex readMutex;
 };
@@ -141,7 +144,16 @@ public:
     while (blockIdx < m_state.numBlocks) {
       if (m_state.blocks[blockIdx].isAllocated) {
         const size_t datasetIdx = m_state.blockIdxToDatasetIdx[blockIdx];
-        m_reader->readBlock(datasetIdx, m_state.blocks[blockIdx].data);
+        try {
+          m_reader->readBlock(datasetIdx, m_state.blocks[blockIdx].data);
+        }
+        catch (std::exception &e) {
+          Msg::print(Msg::SevWarning, "Couldn't read block in SparseFieldIO: "
+                     + std::string(e.what()));
+          boost::mutex::scoped_lock lock(m_state.readMutex);
+          m_state.failed = true;
+          return;
+        }
       }
       // Get next block idx
       {
@@ -831,10 +843,22 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
       const size_t numThreads = numIOThreads();
       // Launch threads
       boost::thread_group threads;
-      for (size_t i = 0; i < numThreads; ++i) {
-        threads.create_thread(ReadBlockOp<Data_T>(state, i));
+      try {
+        for (size_t i = 0; i < numThreads; ++i) {
+          threads.create_thread(ReadBlockOp<Data_T>(state, i));
+        }
+      }
+      catch (...) {
+        // The threads use our state
+        threads.join_all();
+        throw;
       }
       threads.join_all();
+      // Error check
+      if (state.failed) {
+        throw ReadDataException("Couldn't read blocks in "
+                                "SparseFieldIO::readData()");
+      }
     }
   }
 
-- 
2.43.0


From 30f3632bc0cad49ba53c813a939ba174498df8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 30/61] fix: failing to write sparse blocks must be reported by
 the layer write

---
 src/SparseFieldIO.cpp | 55 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 5a7545e..ef41bf2 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -187,7 +187,8 @@ struct ThreadingState
       numBlocks(i_numBlocks),
       isAllocated(i_isAllocated), 
       nextBlockToCompress(0),
-      nextBlockToWrite(0)
+      nextBlockToWrite(0),
+      failed(false)
   { 
     // Find first in-use block
     for (size_t i = 0; i < numBlocks; ++i) {
@@ -209,8 +210,12 @@ struct ThreadingState
   const std::vector<uint8_t> isAllocated;
   size_t nextBlockToCompress;
   size_t nextBlockToWrite;
+  // Whether a thread failed to compress or write its block
+  bool failed;
   // Mutexes
   boost::mutex compressMutex;
+  // Protects nextBlockToWrite and failed
+  boost::mutex writeMutex;
 };
 
 //----------------------------------------------------------------------------//
@@ -263,16 +268,29 @@ public:
                     << "  srcLen: " << srcLen << std::endl
                     << "  cmpLenBound: " << cmpLenBound << std::endl
                     << "  cmpLen: " << cmpLen << std::endl;
+          fail();
           return;
         }
         // Wait to write data
-        while (m_state.nextBlockToWrite != blockIdx) {
+        while (!isNextToWrite(blockIdx)) {
+          if (hasFailed()) {
+            return;
+          }
           // Spin
           boost::this_thread::sleep(boost::posix_time::microseconds(1));
         }
         // Do the writing
-        m_state.data.addData(cmpLen, &m_cache[0]);
+        try {
+          m_state.data.addData(cmpLen, &m_cache[0]);
+        } 
+        catch (std::exception &e) {
+          Msg::print(Msg::SevWarning, "Couldn't write block in SparseFieldIO: "
+                     + std::string(e.what()));
+          fail();
+          return;
+        }
         // Let next block write
+        boost::mutex::scoped_lock lock(m_state.writeMutex);
         m_state.nextBlockToWrite++;
         while (m_state.nextBlockToWrite < m_state.numBlocks){
           // Increment to next
@@ -297,6 +315,22 @@ public:
     }
   }
 private:
+  // Utility methods ---
+  bool isNextToWrite(const size_t blockIdx) const
+  {
+    boost::mutex::scoped_lock lock(m_state.writeMutex);
+    return m_state.nextBlockToWrite == blockIdx;
+  }
+  bool hasFailed() const
+  {
+    boost::mutex::scoped_lock lock(m_state.writeMutex);
+    return m_state.failed;
+  }
+  void fail()
+  {
+    boost::mutex::scoped_lock lock(m_state.writeMutex);
+    m_state.failed = true;
+  }
   // Data members ---
   ThreadingState<Data_T> &m_state;
   std::vector<uint8_t> m_cache;
@@ -1143,10 +1177,21 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
     const size_t numThreads = numIOThreads();
     // Launch threads
     boost::thread_group threads;
-    for (size_t i = 0; i < numThreads; ++i) {
-      threads.create_thread(WriteBlockOp<Data_T>(state, i));
+    try {
+      for (size_t i = 0; i < numThreads; ++i) {
+        threads.create_thread(WriteBlockOp<Data_T>(state, i));
+      }
+    }
+    catch (...) {
+      // The threads use our state
+      threads.join_all();
+      throw;
     }
     threads.join_all();
+    // Error check
+    if (state.failed) {
+      return false;
+    }
   }
 
   return true;
-- 
2.43.0


From bde663daa37dad2e31bbe028e9631bca2c351da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 31/61] fix: HDF5 write errors met when closing must be
 reported, and failed layers removed

---
 export/Field3DFileHDF5.h |  8 ++++++-
 export/Hdf5Util.h        | 45 +++++++++++++++++++++++++++++++++++++---
 include/MACFieldIO.h     |  3 +++
 src/DenseFieldIO.cpp     |  3 ++-
 src/Field3DFileHDF5.cpp  | 16 +++++++-------
 src/SparseFieldIO.cpp    |  5 +++++
 6 files changed, 68 insertions(+), 12 deletions(-)

diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index ba06f3d..f1bc3b9 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -352,7 +352,8 @@ protected:
   //! \{
 
   //! Closes the file if open.
-  void closeInternal();
+  //! \returns False if the file couldn't be finished
+  bool closeInternal();
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   FileHDF5::Partition::Ptr partition(const std::string &partitionName);
@@ -1539,6 +1540,9 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }
 
+  // A layer that couldn't be written must not be left in the file
+  H5ScopedUnlink unlinkOnFailure(partGroup.id(), layerName);
+
   // Tag as layer
   if (!writeAttribute(layerGroup.id(), "class_type", "field3d_layer")) {
     Msg::print(Msg::SevWarning, "Error adding layer string.");
@@ -1561,6 +1565,8 @@ Field3DOutputFileHDF5::writeLayer(const std::string &userPartitionName,
     return false;
   }
   
+  unlinkOnFailure.dismiss();
+
   // Add layer to partition ---
 
   if (isVectorLayer)
diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 9226f36..624fd21 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -189,6 +189,38 @@ public:
 
 //----------------------------------------------------------------------------//
 
+//! Scoped object - removes a link on destruction, unless dismissed.
+//! \ingroup hdf5
+class H5ScopedUnlink
+{
+public:
+  H5ScopedUnlink(hid_t parentLocation, const std::string &name)
+    : m_parentLocation(parentLocation), m_name(name), m_dismissed(false)
+  { 
+    // Empty
+  }
+  ~H5ScopedUnlink()
+  {
+    GlobalLock lock(g_hdf5Mutex);
+    if (!m_dismissed)
+      H5Ldelete(m_parentLocation, m_name.c_str(), H5P_DEFAULT);
+  }
+  void dismiss()
+  {
+    m_dismissed = true;
+  }
+private:
+  // Non-copyable
+  H5ScopedUnlink(const H5ScopedUnlink &);
+  H5ScopedUnlink& operator=(const H5ScopedUnlink &);
+  // Data members
+  const hid_t m_parentLocation;
+  const std::string m_name;
+  bool m_dismissed;
+};
+
+//----------------------------------------------------------------------------//
+
 //! Scoped object - opens a group on creation and closes it on destruction.
 //! \ingroup hdf5
 class H5ScopedGopen : public H5Base
@@ -272,10 +304,17 @@ public:
                      lcpl_id, dcpl_id, dapl_id);
   }
   ~H5ScopedDcreate()
+  {
+    close();
+  }
+  //! Closes the data set. 
+  //! \returns False if the data couldn't be written to the file
+  bool close()
   {
     GlobalLock lock(g_hdf5Mutex);
-    if (m_id >= 0)
-      H5Dclose(m_id);
+    const hid_t id = m_id;
+    m_id = -1;
+    return id < 0 || H5Dclose(id) >= 0;
   }
 };
 
@@ -601,7 +640,7 @@ void writeSimpleData(hid_t location, const std::string &name,
   hid_t err = H5Dwrite(dataSet.id(), type, H5S_ALL, H5S_ALL, 
                        H5P_DEFAULT, &data[0]);
 
-  if (err < 0) 
+  if (err < 0 || !dataSet.close()) 
     throw WriteSimpleDataException("Couldn't write data");
 }
 
diff --git a/include/MACFieldIO.h b/include/MACFieldIO.h
index 5c6a3df..8aca245 100644
--- a/include/MACFieldIO.h
+++ b/include/MACFieldIO.h
@@ -312,6 +312,9 @@ bool MACFieldIO::writeData(hid_t layerGroup,
     throw Exc::WriteLayerException("Error writing layer in "
                                    "MACFieldIO::writeData");
 
+  if (!dataSet.close()) 
+    throw Exc::WriteLayerException("Error closing data set in "
+                                   "MACFieldIO::writeData");
 
   return true;
 }
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index a812589..275d316 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -466,7 +466,8 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Call out to the templated function, it will figure out how to get
   // the data into the file in the appropriate fashion.
-  if (!writeData<Data_T>(dataSet.id(), field, Data_T(0.0f))) {
+  if (!writeData<Data_T>(dataSet.id(), field, Data_T(0.0f)) ||
+      !dataSet.close()) {
     throw WriteLayerException("Error writing layer");
   }
 
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 44ad8c8..21bf6df 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -495,24 +495,26 @@ void Field3DFileHDF5Base::clear()
 
 bool Field3DFileHDF5Base::close()
 {
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
 
-void Field3DFileHDF5Base::closeInternal()
+bool Field3DFileHDF5Base::closeInternal()
 {
   GlobalLock lock(g_hdf5Mutex);
 
   if (m_file != -1) {
-    if (H5Fclose(m_file) < 0) {
+    // The handle must not be used again, even if closing it fails
+    const hid_t file = m_file;
+    m_file = -1;
+    if (H5Fclose(file) < 0) {
       Msg::print(Msg::SevWarning, "Failed to close hdf5 file handle");
-      return;
+      return false;
     }    
-    m_file = -1;
   }
+
+  return true;
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index ef41bf2..eb65012 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -1090,6 +1090,11 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
       }
     }
 
+    if (!dataSet.close()) {
+      throw WriteLayerException("Couldn't write blocks in "
+                                "SparseFieldIO::writeInternal");
+    }
+
   } // if occupiedBlocks > 0
 
   return true; 
-- 
2.43.0


From aebd831bf20133e2a78c7260db9feb5404972062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:11 +0000
Subject: [PATCH 32/61] fix: Ogawa write errors must be reported

---
 export/Field3DFile.h | 24 ++++++++------
 include/OArchive.h   |  4 +++
 include/OStream.h    |  5 +++
 src/Field3DFile.cpp  | 56 ++++++++++++++++++++++---------
 src/OArchive.cpp     |  7 ++++
 src/OGroup.cpp       |  9 ++++-
 src/OStream.cpp      | 79 +++++++++++++++++++++++++++++++++++++++-----
 7 files changed, 150 insertions(+), 34 deletions(-)

diff --git a/export/Field3DFile.h b/export/Field3DFile.h
index e6d31fb..97c1bb2 100644
--- a/export/Field3DFile.h
+++ b/export/Field3DFile.h
@@ -322,7 +322,8 @@ protected:
   { return partition(partitionName); }
 
   //! Closes the file if open.
-  virtual void closeInternal() = 0;
+  //! \returns False if the file couldn't be finished
+  virtual bool closeInternal() = 0;
   //! Returns a pointer to the given partition
   //! \returns NULL if no partition was found of that name
   File::Partition::Ptr partition(const std::string &partitionName);
@@ -544,14 +545,14 @@ private:
 
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return;
+      return m_hdf5->closeInternal();
     }
 
     cleanup();
+    return true;
   }
 
   void cleanup()
@@ -793,16 +794,16 @@ private:
   
   // From Field3DFileBase ------------------------------------------------------
 
-  virtual void closeInternal()
+  virtual bool closeInternal()
   {
     if (m_hdf5) {
-      m_hdf5->closeInternal();
-      return;
+      return m_hdf5->closeInternal();
     }
-    cleanup();
+    return cleanup();
   }
 
-  void cleanup()
+  //! \returns False if the file couldn't be finished
+  bool cleanup()
   {
     // The metadata and group memberships belong to the file
     if (m_archive) {
@@ -818,9 +819,12 @@ private:
     // Then the root group
     m_root.reset();
     // Finally, the archive
-    m_archive.reset();
+    return closeArchive();
   }
 
+  //! Finishes and releases the archive
+  bool closeArchive();
+
   // Convenience methods -------------------------------------------------------
 
   //! Increment the partition or make it zero if there's not an integer suffix
diff --git a/include/OArchive.h b/include/OArchive.h
index f6f9370..33c77a7 100644
--- a/include/OArchive.h
+++ b/include/OArchive.h
@@ -55,6 +55,10 @@ public:
 
     bool isValid();
 
+    // Finishes the file. All groups must have been released. Returns false if
+    // anything couldn't be written.
+    bool close();
+
 private:
     OStreamPtr mStream;
     OGroupPtr mGroup;
diff --git a/include/OStream.h b/include/OStream.h
index 9c10cb9..87cf03c 100644
--- a/include/OStream.h
+++ b/include/OStream.h
@@ -53,6 +53,10 @@ public:
 
     bool isValid();
 
+    // Marks the archive as done and finishes the file. Returns false if
+    // anything couldn't be written, in which case the archive stays unfinished.
+    bool close();
+
     Alembic::Util::uint64_t getAndSeekEndPos();
     void write(const void * iBuf, Alembic::Util::uint64_t iSize);
     void seek(Alembic::Util::uint64_t iPos);
@@ -66,6 +70,7 @@ private:
     Alembic::Util::auto_ptr< PrivateData > mData;
 
     void init();
+    void checkFailed();
 };
 
 typedef Alembic::Util::shared_ptr< OStream > OStreamPtr;
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 83a57c4..5bbd415 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -671,9 +671,7 @@ bool Field3DFileBase::close()
     return m_hdf5Base->close();
   }
 
-  closeInternal();
-
-  return true;
+  return closeInternal();
 }
 
 //----------------------------------------------------------------------------//
@@ -1021,6 +1019,24 @@ Field3DOutputFile::~Field3DOutputFile()
 
 //----------------------------------------------------------------------------//
 
+bool Field3DOutputFile::closeArchive()
+{
+  if (!m_archive) {
+    return true;
+  }
+
+  const bool success = m_archive->close();
+  m_archive.reset();
+
+  if (!success) {
+    Msg::print(Msg::SevWarning, "Couldn't finish writing the file.");
+  }
+
+  return success;
+}
+
+//----------------------------------------------------------------------------//
+
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
   // Finish the previous file, if any, and drop everything that belongs to it
@@ -1040,21 +1056,31 @@ bool Field3DOutputFile::create(const string &filename, CreateMode cm)
     return false;
   }
 
-  // Create the Ogawa archive
-  m_archive.reset(new Alembic::Ogawa::OArchive(filename));
+  try {
 
-  // Check that it's valid
-  if (!m_archive->isValid()) {
-    m_archive.reset();
-    return false;
-  }
+    // Create the Ogawa archive
+    m_archive.reset(new Alembic::Ogawa::OArchive(filename));
+
+    // Check that it's valid
+    if (!m_archive->isValid()) {
+      m_archive.reset();
+      return false;
+    }
+
+    // Get the root
+    m_root.reset(new OgOGroup(*m_archive));
 
-  // Get the root
-  m_root.reset(new OgOGroup(*m_archive));
+    // Create the version attribute
+    OgOAttribute<veci32_t> f3dVersion(*m_root, k_versionAttrName, 
+                                      k_currentFileVersion);
 
-  // Create the version attribute
-  OgOAttribute<veci32_t> f3dVersion(*m_root, k_versionAttrName, 
-                                    k_currentFileVersion);
+  }
+  catch (std::exception &e) {
+    Msg::print(Msg::SevWarning, "Couldn't create file: " + filename + " - "
+               + string(e.what()));
+    closeInternal();
+    return false;
+  }
 
   return true;
 }
diff --git a/src/OArchive.cpp b/src/OArchive.cpp
index 11d79c6..29fe2a3 100644
--- a/src/OArchive.cpp
+++ b/src/OArchive.cpp
@@ -61,6 +61,13 @@ bool OArchive::isValid()
     return mStream->isValid();
 }
 
+bool OArchive::close()
+{
+    // commits the top group, a failure is remembered by the stream
+    mGroup.reset();
+    return mStream->close();
+}
+
 OGroupPtr OArchive::getGroup()
 {
     return mGroup;
diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index 1cc5eb9..fdfe5eb 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -81,7 +81,14 @@ OGroup::OGroup(OStreamPtr iStream)
 
 OGroup::~OGroup()
 {
-    freeze();
+    // must not throw, the stream remembers that something couldn't be written
+    try
+    {
+        freeze();
+    }
+    catch (...)
+    {
+    }
 }
 
 OGroupPtr OGroup::addGroup()
diff --git a/src/OStream.cpp b/src/OStream.cpp
index 7b11d94..394b010 100644
--- a/src/OStream.cpp
+++ b/src/OStream.cpp
@@ -45,7 +45,8 @@ class OStream::PrivateData
 {
 public:
     PrivateData(const std::string & iFileName) :
-        stream(NULL), fileName(iFileName), startPos(0)
+        stream(NULL), fileName(iFileName), startPos(0), failed(false),
+        closed(false)
     {
         std::ofstream * filestream = new std::ofstream(fileName.c_str(),
             std::ios_base::trunc | std::ios_base::binary);
@@ -62,7 +63,8 @@ public:
         }
     }
 
-    PrivateData(std::ostream * iStream) : stream(iStream), startPos(0)
+    PrivateData(std::ostream * iStream) : stream(iStream), startPos(0),
+        failed(false), closed(false)
     {
         if (stream)
         {
@@ -85,6 +87,8 @@ public:
             std::ofstream * filestream = dynamic_cast<std::ofstream *>(stream);
             if (filestream)
             {
+                // we are in a destructor, don't throw
+                filestream->exceptions(std::ofstream::goodbit);
                 filestream->close();
                 delete filestream;
             }
@@ -94,6 +98,9 @@ public:
     std::ostream * stream;
     std::string fileName;
     Alembic::Util::uint64_t startPos;
+    // once something couldn't be written the archive can't be completed
+    bool failed;
+    bool closed;
     Alembic::Util::mutex lock;
 };
 
@@ -110,13 +117,32 @@ OStream::OStream(std::ostream * iStream) : mData(new PrivateData(iStream))
 }
 
 OStream::~OStream()
+{
+    close();
+}
+
+bool OStream::close()
 {
     // write our "frozen" byte (totally done writing)
     if (isValid())
     {
-        char frozen = 0xff;
-        mData->stream->seekp(mData->startPos + 5).write(&frozen, 1).flush();
+        Alembic::Util::scoped_lock l(mData->lock);
+        if (!mData->closed && !mData->failed)
+        {
+            try
+            {
+                char frozen = 0xff;
+                mData->stream->seekp(mData->startPos + 5).write(&frozen, 1).flush();
+            }
+            catch (...)
+            {
+                mData->failed = true;
+            }
+        }
+        mData->closed = true;
+        return !mData->failed;
     }
+    return false;
 }
 
 bool OStream::isValid()
@@ -151,15 +177,34 @@ void OStream::init()
     }
 }
 
+void OStream::checkFailed()
+{
+    if (mData->failed)
+    {
+        throw std::runtime_error(
+            "Ogawa::OStream can't be written to after a failed write");
+    }
+}
+
 Alembic::Util::uint64_t OStream::getAndSeekEndPos()
 {
     if (isValid())
     {
         Alembic::Util::scoped_lock l(mData->lock);
-        Alembic::Util::uint64_t lastp =
-            mData->stream->seekp(0, std::ios_base::end).tellp();
+        checkFailed();
+        Alembic::Util::uint64_t lastp = INVALID_DATA;
+        try
+        {
+            lastp = mData->stream->seekp(0, std::ios_base::end).tellp();
+        }
+        catch (...)
+        {
+            mData->failed = true;
+            throw;
+        }
         if (lastp == INVALID_DATA || lastp < mData->startPos)
         {
+            mData->failed = true;
             throw std::runtime_error(
                 "Illegal position returned Ogawa::OStream::getAndSeekEndPos");
 
@@ -175,7 +220,16 @@ void OStream::seek(Alembic::Util::uint64_t iPos)
     if (isValid())
     {
         Alembic::Util::scoped_lock l(mData->lock);
-        mData->stream->seekp(iPos + mData->startPos);
+        checkFailed();
+        try
+        {
+            mData->stream->seekp(iPos + mData->startPos);
+        }
+        catch (...)
+        {
+            mData->failed = true;
+            throw;
+        }
     }
 }
 
@@ -184,7 +238,16 @@ void OStream::write(const void * iBuf, Alembic::Util::uint64_t iSize)
     if (isValid())
     {
         Alembic::Util::scoped_lock l(mData->lock);
-        mData->stream->write((const char *)iBuf, iSize).flush();
+        checkFailed();
+        try
+        {
+            mData->stream->write((const char *)iBuf, iSize).flush();
+        }
+        catch (...)
+        {
+            mData->failed = true;
+            throw;
+        }
     }
 }
 
-- 
2.43.0


From 8525d4a24336ce04b5397980f619fdf8005710fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 33/61] fix: iterators of demand-loaded fields must look voxels
 up relative to the data window

---
 export/SparseField.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index b1a31d0..1da4d5d 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -962,8 +962,10 @@ class SparseField<Data_T>::const_iterator
       m_manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
+      int i = x, j = y, k = z;
+      m_field->applyDataWindowOffset(i, j, k);
       int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return *m_p;
@@ -975,8 +977,10 @@ class SparseField<Data_T>::const_iterator
       manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
+      int i = x, j = y, k = z;
+      m_field->applyDataWindowOffset(i, j, k);
       int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return m_p;
-- 
2.43.0


From 79bd166cc6eab907b5ecfe12022ba9fc6ac390a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 34/61] fix: copies of iterators over demand-loaded fields must
 hold their own block reference

---
 export/SparseField.h | 60 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 1da4d5d..eba14cb 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -906,12 +906,44 @@ class SparseField<Data_T>::const_iterator
     m_manager = m_field->m_fileManager;
     setupNextBlock(x, y, z);
   }
-  ~const_iterator() {
-    if (m_manager && m_blockId >= 0 &&
-        m_blockId < static_cast<int>(m_field->m_numBlocks)) {
-      if (m_field->m_blocks[m_blockId].isAllocated)
-        m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  //! Copy constructor. Each iterator holds its own reference to its block
+  const_iterator(const const_iterator &o)
+    : x(o.x), y(o.y), z(o.z),
+      m_p(o.m_p), m_isEmptyBlock(o.m_isEmptyBlock),
+      m_blockIsActivated(o.m_blockIsActivated),
+      m_blockStepsTicker(o.m_blockStepsTicker), m_blockOrder(o.m_blockOrder),
+      m_blockI(o.m_blockI), m_blockJ(o.m_blockJ), m_blockK(o.m_blockK),
+      m_blockId(o.m_blockId), m_window(o.m_window), m_field(o.m_field),
+      m_manager(o.m_manager)
+  {
+    incCurrentBlockRef();
+  }
+  //! Assignment operator. Each iterator holds its own reference to its block
+  const_iterator& operator = (const const_iterator &o)
+  {
+    if (this != &o) {
+      decCurrentBlockRef();
+      x = o.x;
+      y = o.y;
+      z = o.z;
+      m_p = o.m_p;
+      m_isEmptyBlock = o.m_isEmptyBlock;
+      m_blockIsActivated = o.m_blockIsActivated;
+      m_blockStepsTicker = o.m_blockStepsTicker;
+      m_blockOrder = o.m_blockOrder;
+      m_blockI = o.m_blockI;
+      m_blockJ = o.m_blockJ;
+      m_blockK = o.m_blockK;
+      m_blockId = o.m_blockId;
+      m_window = o.m_window;
+      m_field = o.m_field;
+      m_manager = o.m_manager;
+      incCurrentBlockRef();
     }
+    return *this;
+  }
+  ~const_iterator() {
+    decCurrentBlockRef();
   }
   const const_iterator& operator ++ ()
   {
@@ -1041,6 +1073,24 @@ private:
     }
   }
 
+  //! Whether the iterator is at a block which the file manager may load
+  bool isAtManagedBlock() const
+  {
+    return m_manager && m_blockId >= 0 &&
+      m_blockId < static_cast<int>(m_field->m_numBlocks) &&
+      m_field->m_blocks[m_blockId].isAllocated;
+  }
+  void incCurrentBlockRef()
+  {
+    if (isAtManagedBlock())
+      m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  }
+  void decCurrentBlockRef()
+  {
+    if (isAtManagedBlock())
+      m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  }
+
   //! Current pointed-to element
   mutable const Data_T *m_p;
   //! Whether we're at an empty block and we don't increment m_p
-- 
2.43.0


From 0de9a70936c0f1da5ccd9e604609803d7421b74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 35/61] fix: freeing cached blocks must stop when all of them
 are in use

---
 src/SparseFile.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 4110a0e..56b6057 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -161,9 +161,23 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
 {
   boost::mutex::scoped_lock lock_A(m_mutex);
 
+  // Number of blocks considered since the last one was freed
+  size_t numConsidered = 0;
+  size_t numCached = m_blockCacheList.size();
+
   while (m_blockCacheList.begin() != m_blockCacheList.end() &&
          m_maxMemUseInBytes-m_memUse < bytesNeeded) {
 
+    if (m_blockCacheList.size() != numCached) {
+      numConsidered = 0;
+      numCached = m_blockCacheList.size();
+    }
+    // The second time around a block is only kept if it is in use. If that
+    // goes for all of them, then there is nothing left to free
+    if (numConsidered++ == 2 * numCached) {
+      break;
+    }
+
     if (m_nextBlock == m_blockCacheList.end())
       m_nextBlock = m_blockCacheList.begin();
 
-- 
2.43.0


From 15129c8ad5de16c731a5231c670884c791184836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 36/61] fix: fields that stop being demand-loaded must leave
 the block cache

---
 export/SparseField.h | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index eba14cb..82067b1 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -575,6 +575,10 @@ public:
 
  protected:
 
+  //! Removes the current field's Reference, if any. To be called before the
+  //! blocks are deleted.
+  void removeReference();
+
   friend class SparseFieldIO;
 
   // Typedefs ------------------------------------------------------------------
@@ -1344,7 +1348,8 @@ SparseField<Data_T>::SparseField()
   : base(),
     m_blockOrder(BLOCK_ORDER),
     m_blocks(NULL),
-    m_fileManager(NULL)
+    m_fileManager(NULL),
+    m_fileId(-1)
 {
   setupBlocks();
 }
@@ -1356,7 +1361,8 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
  : base(o),
    m_blockOrder(o.m_blockOrder),
    m_blocks(NULL),
-   m_fileManager(o.m_fileManager)
+   m_fileManager(NULL),
+   m_fileId(-1)
 {
   copySparseField(o);
 }
@@ -1366,12 +1372,7 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
 template <class Data_T>
 SparseField<Data_T>::~SparseField()
 {
-  if (m_fileManager) {
-    // this file is dynamically managed, so we need to ensure the
-    // cache doesn't point to this field's blocks because they are
-    // about to be deleted
-    m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
-  }
+  removeReference();
   if (m_blocks) {
     delete[] m_blocks;
   }
@@ -1411,6 +1412,7 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
     setupReferenceBlocks();
   } else {
     // directly copy all values and blocks from the source, no extra setup
+    removeReference();
     m_blockRes = o.m_blockRes;
     m_blockXYSize = o.m_blockXYSize;
     if (m_blocks) {
@@ -1424,8 +1426,6 @@ SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
       m_blocks[i].copy(o.m_blocks[i],
                        1 << m_blockOrder << m_blockOrder << m_blockOrder);
     }
-    m_fileId = -1;
-    m_fileManager = NULL;
   }
 }
 
@@ -1451,6 +1451,21 @@ void SparseField<Data_T>::addReference(const std::string &filename,
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+void SparseField<Data_T>::removeReference()
+{
+  if (m_fileManager) {
+    // this file is dynamically managed, so we need to ensure the
+    // cache doesn't point to this field's blocks because they are
+    // about to be deleted
+    m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
+    m_fileManager = NULL;
+    m_fileId = -1;
+  }
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 void SparseField<Data_T>::copyBlockStates(const SparseField<Data_T> &o)
 {
@@ -1924,6 +1939,8 @@ void SparseField<Data_T>::setupBlocks()
                          static_cast<int>(blockRes.z));
   m_blockRes = intBlockRes;
   m_blockXYSize = m_blockRes.x * m_blockRes.y;
+  // The new blocks have nothing to do with the file
+  removeReference();
   if (m_blocks) {
     delete[] m_blocks;
   }
-- 
2.43.0


From fc9b9dff8a8c649cfb8f40a00ce89a1645f77d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 37/61] fix: flushing the block cache must keep blocks in use

---
 src/SparseFile.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 56b6057..09108e2 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -149,6 +149,20 @@ void SparseFileManager::deallocateBlock(CacheList::iterator &it)
 {
   SparseFile::CacheBlock &cb = *it;
   SparseFile::Reference<Data_T> *reference = m_fileData.ref<Data_T>(cb.refIdx);
+
+#if F3D_SHORT_MUTEX_ARRAY
+  boost::mutex::scoped_lock 
+    lock_B(reference->blockMutex[cb.blockIdx % reference->blockMutexSize]);
+#else
+  boost::mutex::scoped_lock lock_B(reference->blockMutex[cb.blockIdx]);
+#endif
+
+  // Blocks that are in use must stay
+  if (reference->refCounts[cb.blockIdx] > 0) {
+    ++it;
+    return;
+  }
+
   int64_t bytesFreed = reference->blockSize(cb.blockIdx);
   m_memUse -= bytesFreed;
   reference->unloadBlock(cb.blockIdx);
-- 
2.43.0


From 061900dbfb1131256548a041d6c8d0e950ca8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 38/61] fix: demand-loaded fields must close their file when
 they are gone

---
 export/Hdf5Util.h   |  9 +++++++--
 export/SparseFile.h | 24 +++++++++++++++++++-----
 src/SparseFile.cpp  |  2 ++
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/export/Hdf5Util.h b/export/Hdf5Util.h
index 624fd21..1064482 100644
--- a/export/Hdf5Util.h
+++ b/export/Hdf5Util.h
@@ -249,12 +249,17 @@ public:
     GlobalLock lock(g_hdf5Mutex);
     m_id = H5Gopen(parentLocation, name.c_str(), gapl_id);
   }
-
-  ~H5ScopedGopen()
+  void close()
   {
     GlobalLock lock(g_hdf5Mutex);
     if (m_id >= 0)
       H5Gclose(m_id);
+    m_id = -1;
+  }
+
+  ~H5ScopedGopen()
+  {
+    close();
   }
 };
 
diff --git a/export/SparseFile.h b/export/SparseFile.h
index 44f0b68..8892c11 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -573,10 +573,6 @@ Reference<Data_T>::~Reference()
 {
   closeFile();
 
-  if (m_reader) {
-    delete m_reader;
-  }
-
   if (blockMutex)
     delete [] blockMutex;
 }
@@ -709,10 +705,25 @@ void Reference<Data_T>::setNumBlocks(int a_numBlocks)
 template <class Data_T>
 void Reference<Data_T>::closeFile()
 {
+  // Ogawa
+  m_ogReader = NULL;
+  m_ogReaderPtr.reset();
+  m_ogLayerGroup.reset();
+  m_ogRoot.reset();
+  m_ogArchive.reset();
+
+  // HDF5
+  GlobalLock lock(g_hdf5Mutex);
+  if (m_reader) {
+    delete m_reader;
+    m_reader = NULL;
+  }
+  m_layerGroup.close();
   if (m_fileHandle >= 0) {
     if (H5Fclose(m_fileHandle) < 0) {
-      Msg::print("In ~Reference(): Error closing file " + filename);
+      Msg::print("In Reference::closeFile(): Error closing file " + filename);
     }
+    m_fileHandle = -1;
   }
 }
 
@@ -1239,6 +1250,9 @@ SparseFileManager::removeFieldFromCache(int refIdx)
   std::vector<int>().swap(reference->refCounts);
   delete[] reference->blockMutex;
   reference->blockMutex = NULL;
+
+  // Nothing more will be read from the file
+  reference->closeFile();
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 09108e2..2971efd 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -606,6 +606,8 @@ void Reference<Data_T>::openFile()
         Msg::print(Msg::SevWarning, "In SparseFile::Reference::openFile: "
                    "Couldn't find layer group " + layerPath + 
                    " in .f3d file ");
+        // There is nothing to read from
+        closeFile();
         throw FileIntegrityException(filename);
       }
     } else {
-- 
2.43.0


From 707ab9d7e09dd731b14782961b4d4c88e5f830a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 39/61] fix: a failed read of an HDF5 block must be reported

---
 export/SparseDataReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/export/SparseDataReader.h b/export/SparseDataReader.h
index c5b056a..a170476 100644
--- a/export/SparseDataReader.h
+++ b/export/SparseDataReader.h
@@ -180,6 +180,10 @@ void SparseDataReader<Data_T>::readBlock(int idx, Data_T &result)
   status = H5Dread(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                    memDataSpace.id(), fileDataSpace.id(), 
                    H5P_DEFAULT, &result);
+  if (status < 0) {
+    throw Hdf5DataReadException("Couldn't read block " + 
+                            boost::lexical_cast<std::string>(idx));
+  }
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 2cea50687ec4cac2f688b9849568b364749fd5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 40/61] fix: demand-loaded fields must load their blocks to be
 written

---
 src/SparseFieldIO.cpp | 63 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index eb65012..f1b21d0 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -173,15 +173,53 @@ private:
 
 //----------------------------------------------------------------------------//
 
+//! Makes sure that the data of an allocated block is in memory, and stays
+//! there for the duration of the object. Blocks of dynamically loaded fields
+//! may have to be read first.
+template <typename Data_T>
+class ScopedBlockUse
+{
+public:
+  ScopedBlockUse(const SparseField<Data_T> &field, const int blockIdx)
+    : m_field(field), m_blockIdx(blockIdx), 
+      m_isDynamicLoad(field.isDynamicLoad())
+  {
+    if (m_isDynamicLoad) {
+      m_field.incBlockRef(m_blockIdx);
+      try {
+        m_field.activateBlock(m_blockIdx);
+      }
+      catch (...) {
+        m_field.decBlockRef(m_blockIdx);
+        throw;
+      }
+    }
+  }
+  ~ScopedBlockUse()
+  {
+    if (m_isDynamicLoad) {
+      m_field.decBlockRef(m_blockIdx);
+    }
+  }
+private:
+  const SparseField<Data_T> &m_field;
+  const int m_blockIdx;
+  const bool m_isDynamicLoad;
+};
+
+//----------------------------------------------------------------------------//
+
 template <typename Data_T>
 struct ThreadingState
 {
   ThreadingState(OgOCDataset<Data_T> &i_data, 
+                 const SparseField<Data_T> &i_field,
                  Sparse::SparseBlock<Data_T> *i_blocks, 
                  const size_t i_numVoxels, 
                  const size_t i_numBlocks,
                  const std::vector<uint8_t> &i_isAllocated)
     : data(i_data),
+      field(i_field),
       blocks(i_blocks),
       numVoxels(i_numVoxels), 
       numBlocks(i_numBlocks),
@@ -204,6 +242,7 @@ struct ThreadingState
   }
   // Data members
   OgOCDataset<Data_T> &data;
+  const SparseField<Data_T> &field;
   Sparse::SparseBlock<Data_T> *blocks;
   const size_t numVoxels;
   const size_t numBlocks;
@@ -250,16 +289,25 @@ public:
     // Loop over blocks until we run out
     while (blockIdx < m_state.numBlocks) {
       if (m_state.blocks[blockIdx].isAllocated) {
-        // Block data as bytes
-        const uint8_t *srcData = 
-          reinterpret_cast<const uint8_t *>(m_state.blocks[blockIdx].data);
         // Length of compressed data is stored here
         const uLong srcLen      = m_state.numVoxels * sizeof(Data_T);
         const uLong cmpLenBound = compressBound(srcLen);
         uLong cmpLen            = cmpLenBound;
-        // Perform compression
-        const int status = compress2(&m_cache[0], &cmpLen, 
-                                     srcData, srcLen, level);
+        int status              = Z_OK;
+        try {
+          ScopedBlockUse<Data_T> blockUse(m_state.field, blockIdx);
+          // Block data as bytes
+          const uint8_t *srcData = 
+            reinterpret_cast<const uint8_t *>(m_state.blocks[blockIdx].data);
+          // Perform compression
+          status = compress2(&m_cache[0], &cmpLen, srcData, srcLen, level);
+        }
+        catch (std::exception &e) {
+          Msg::print(Msg::SevWarning, "Couldn't load block in SparseFieldIO: "
+                     + std::string(e.what()));
+          fail();
+          return;
+        }
         // Error check
         if (status != Z_OK) {
           std::cout << "ERROR: Couldn't compress in SparseFieldIO." << std::endl
@@ -1076,6 +1124,7 @@ bool SparseFieldIO::writeInternal(hid_t layerGroup,
             "Couldn't select slab " + 
             boost::lexical_cast<std::string>(nextBlockIdx));
         }
+        ScopedBlockUse<Data_T> blockUse(*field, i);
         Data_T *data = field->m_blocks[i].data;
         status = H5Dwrite(dataSet.id(), DataTypeTraits<Data_T>::h5type(), 
                           memDataSpace.id(), 
@@ -1176,7 +1225,7 @@ bool SparseFieldIO::writeInternal(OgOGroup &layerGroup,
   // Write data if there is any
   if (occupiedBlocks > 0) {
     // Threading state
-    ThreadingState<Data_T> state(data, blocks, numVoxels, numBlocks, 
+    ThreadingState<Data_T> state(data, *field, blocks, numVoxels, numBlocks, 
                                  isAllocated);
     // Number of threads
     const size_t numThreads = numIOThreads();
-- 
2.43.0


From 24857f560c59945a84ecfa1afa27b1e663a572c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 41/61] fix: an open Ogawa file must not be opened again for
 every block

---
 export/SparseFile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 8892c11..3072593 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -664,7 +664,7 @@ Reference<Data_T>::create(const std::string a_filename,
 template <class Data_T>
 bool Reference<Data_T>::fileIsOpen()
 {
-  return m_fileHandle >= 0;
+  return m_fileHandle >= 0 || m_ogReader != NULL;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From f862907dd3985cb86195056c9e0e22911618a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:32 +0000
Subject: [PATCH 42/61] fix: decide on the last reference and give it up in one
 step

intrusive_ptr_release() gave up the reference and then read the counter
again. Another thread could release the last reference in between, so that
the object was used after its destruction and destroyed twice.
---
 export/RefCount.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/export/RefCount.h b/export/RefCount.h
index 9dcf81a..2b5532b 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -156,12 +156,14 @@ public:
   }
 
   //! Used by boost::intrusive_pointer
-  void unref() const
+  //! \returns The number of references left, decided together with the
+  //! decrement so that only one thread sees the count reach zero.
+  long unref() const
   {
 #ifndef FIELD3D_USE_ATOMIC_COUNT
     boost::mutex::scoped_lock lock(m_refMutex);
 #endif
-    --m_counter; 
+    return --m_counter; 
     // since we use intrusive_pointer no need
     // to delete the object ourselves.
   }
@@ -238,9 +240,9 @@ intrusive_ptr_add_ref(RefBase* r)
 inline void
 intrusive_ptr_release(RefBase* r)
 {
-  r->unref();
-
-  if (r->refcnt() == 0)
+  // Once the reference is given up, the object may be deleted by another
+  // thread, so it must not be used unless this was the last reference.
+  if (r->unref() == 0)
     delete r;
 }
 
-- 
2.43.0


From 6985b1ea16eb2ee9e4ef46983afea745ef6fa6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 43/61] fix: mappings that differ in shear are not identical

---
 src/FieldMapping.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 3e14c66..48eddaa 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -97,6 +97,7 @@ namespace {
       return false;
     }
     if (!s1.equalWithRelError(s2, tolerance) ||
+        !sh1.equalWithAbsError(sh2, tolerance) ||
         !r1.equalWithAbsError(r2, tolerance) ||
         !t1.equalWithRelError(t2, tolerance)) {
       return false;
-- 
2.43.0


From 076d13c365bce81cb759273f3766f0ab52d9c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 44/61] fix: cache statistics must hold the locks that guard
 them

---
 export/SparseFile.h | 10 ++++++++++
 src/SparseFile.cpp  |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 3072593..5f499b0 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -789,6 +789,8 @@ int Reference<Data_T>::blockSize(int /* blockIdx */) const
 template <class Data_T>
 int Reference<Data_T>::totalLoads() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = loadCounts.begin();
   std::vector<int>::const_iterator end = loadCounts.end();
   int numLoads = 0;
@@ -803,6 +805,8 @@ int Reference<Data_T>::totalLoads() const
 template <class Data_T>
 int Reference<Data_T>::numLoadedBlocks() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = blockLoaded.begin();
   std::vector<int>::const_iterator end = blockLoaded.end();
   int numBlockCounter = 0;
@@ -818,6 +822,8 @@ int Reference<Data_T>::numLoadedBlocks() const
 template <class Data_T>
 int Reference<Data_T>::totalLoadedBlocks() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = loadCounts.begin();
   std::vector<int>::const_iterator li = blockLoaded.begin();
   std::vector<int>::const_iterator end = loadCounts.end();
@@ -843,6 +849,8 @@ int Reference<Data_T>::totalLoadedBlocks() const
 template <class Data_T>
 float Reference<Data_T>::averageLoads() const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::const_iterator i = loadCounts.begin();
   std::vector<int>::const_iterator end = loadCounts.end();
   int numLoads = 0, numBlockCounter = 0;
@@ -861,6 +869,8 @@ float Reference<Data_T>::averageLoads() const
 template <class Data_T>
 void Reference<Data_T>::resetCacheStatistics()
 {
+  boost::mutex::scoped_lock lock(m_mutex);
+
   std::vector<int>::iterator li = loadCounts.begin();
   std::vector<int>::iterator lend = loadCounts.end();
   for (; li != lend; ++li)
diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 2971efd..911d362 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -319,6 +319,8 @@ SparseFileManager::SparseFileManager()
 
 long long SparseFileManager::totalLoads()
 {
+  // Fields may come and go in other threads
+  boost::mutex::scoped_lock lock(m_mutex);
 
   long long int numLoads = 0;
 
@@ -352,6 +354,8 @@ long long SparseFileManager::totalLoads()
 
 long long SparseFileManager::numLoadedBlocks()
 {
+  // Fields may come and go in other threads
+  boost::mutex::scoped_lock lock(m_mutex);
 
   long long int numBlocks = 0;
 
@@ -385,6 +389,8 @@ long long SparseFileManager::numLoadedBlocks()
 
 long long SparseFileManager::totalLoadedBlocks()
 {
+  // Fields may come and go in other threads
+  boost::mutex::scoped_lock lock(m_mutex);
 
   long long int numBlocks = 0;
 
@@ -439,6 +445,8 @@ float SparseFileManager::cacheEfficiency()
 
 void SparseFileManager::resetCacheStatistics()
 {
+  // Fields may come and go in other threads
+  boost::mutex::scoped_lock lock(m_mutex);
 
   for (size_t i=0; i<m_fileData.numRefs<half>(); i++) {
     m_fileData.ref<half>(i)->resetCacheStatistics();
-- 
2.43.0


From 15b3e9523fbaa6d1329ce701395e7565890a2560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 45/61] fix: the list of file references may move while another
 thread looks one up

---
 export/SparseFile.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/export/SparseFile.h b/export/SparseFile.h
index 5f499b0..e9bbbfe 100644
--- a/export/SparseFile.h
+++ b/export/SparseFile.h
@@ -270,8 +270,8 @@ public:
 
      FileReferences uses a std::deque to store the References, which means
      that already-added references 'stay put' in memory, even as more elements
-     are added. For threading purposes, we only need to lock during append()
-     and numRefs(), but ref() is safe, since we never remove references.
+     are added. The deque itself may move though, so the lock is needed
+     during append(), numRefs() and ref().
 
    */
 
@@ -944,6 +944,8 @@ template <>
 inline Reference<half>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_hRefs[idx].get();
 #else
@@ -957,6 +959,8 @@ template <>
 inline Reference<V3h>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_vhRefs[idx].get();
 #else
@@ -970,6 +974,8 @@ template <>
 inline Reference<float>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_fRefs[idx].get();
 #else
@@ -983,6 +989,8 @@ template <>
 inline Reference<V3f>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_vfRefs[idx].get();
 #else
@@ -996,6 +1004,8 @@ template <>
 inline Reference<double>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_dRefs[idx].get();
 #else
@@ -1009,6 +1019,8 @@ template <>
 inline Reference<V3d>* 
 FileReferences::ref(size_t idx)
 {
+  Mutex::scoped_lock lock(m_mutex);
+
 #if USE_SHPTR
   return m_vdRefs[idx].get();
 #else
-- 
2.43.0


From 19cf78e6d2e5b470183a592bc09841f5b55e9c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 46/61] fix: the field cache must not hand out a field whose
 last reference is gone

---
 export/FieldCache.h | 31 ++++++++++++++++++++++---------
 export/RefCount.h   | 45 ++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/export/FieldCache.h b/export/FieldCache.h
index cecfd72..4e7c358 100644
--- a/export/FieldCache.h
+++ b/export/FieldCache.h
@@ -115,6 +115,10 @@ private:
   std::string key(const std::string &filename,
                   const std::string &layerPath);
 
+  //! Returns a pointer to the entry's field if it is still in memory. Null
+  //! otherwise.
+  static FieldPtr lockEntry(const CacheEntry &entry);
+
   // Data members -------------------------------------------------------------
 
   //! The cache itself. Maps a 'key' to a weak pointer and a raw pointer.
@@ -155,12 +159,7 @@ FieldCache<Data_T>::getCachedField(const std::string &filename,
     return FieldPtr();
   }
   // Next, check if all weak_ptrs are valid
-  CacheEntry &entry = i->second;
-  WeakPtr weakPtr = entry.first;
-  if (weakPtr.expired()) {
-    return FieldPtr();
-  }
-  return FieldPtr(entry.second);
+  return lockEntry(i->second);
 }
 
 //----------------------------------------------------------------------------//
@@ -185,12 +184,12 @@ long long int FieldCache<Data_T>::memSize() const
 
   BOOST_FOREACH (const typename Cache::value_type &i, m_cache) {
     // Check if pointer is valid
-    WeakPtr weakPtr = i.second.first;
-    if (weakPtr.expired()) {
+    FieldPtr field = lockEntry(i.second);
+    if (!field) {
       continue;
     } else {
       // If valid, accumulate memory
-      memSize += i.second.second->memSize();
+      memSize += field->memSize();
     }
   }
 
@@ -199,6 +198,20 @@ long long int FieldCache<Data_T>::memSize() const
 
 //----------------------------------------------------------------------------//
 
+template <typename Data_T>
+typename FieldCache<Data_T>::FieldPtr 
+FieldCache<Data_T>::lockEntry(const CacheEntry &entry)
+{
+  // The last reference may be given up by another thread at any time
+  boost::mutex::scoped_lock lock(RefBase::cacheMutex());
+  if (entry.first.expired() || !entry.second->refFromCache()) {
+    return FieldPtr();
+  }
+  return FieldPtr(entry.second, false);
+}
+
+//----------------------------------------------------------------------------//
+
 template <typename Data_T>
 std::string FieldCache<Data_T>::key(const std::string &filename,
                                     const std::string &layerPath)
diff --git a/export/RefCount.h b/export/RefCount.h
index 2b5532b..928eb1d 100644
--- a/export/RefCount.h
+++ b/export/RefCount.h
@@ -52,10 +52,10 @@
 #include <boost/shared_ptr.hpp>
 #include <boost/weak_ptr.hpp>
 
+#include <boost/thread/mutex.hpp>
+
 #ifdef FIELD3D_USE_ATOMIC_COUNT
 #include <boost/detail/atomic_count.hpp>
-#else
-#include <boost/thread/mutex.hpp>
 #endif
 
 #include <string.h>
@@ -173,6 +173,40 @@ public:
   WeakPtr weakPtr() const
   { return m_sharedPtr; }
 
+  //! Lets a cache take a reference to an object it only knows by a weak
+  //! pointer. Must be called while holding cacheMutex(), after checking that 
+  //! the weak pointer hasn't expired.
+  //! \returns False if the last reference was given up already. The object is 
+  //! then about to be deleted.
+  bool refFromCache() const
+  {
+#ifndef FIELD3D_USE_ATOMIC_COUNT
+    boost::mutex::scoped_lock lock(m_refMutex);
+#endif
+    if (++m_counter == 1) {
+      --m_counter;
+      return false;
+    }
+    return true;
+  }
+
+  //! Expires all weak pointers. Called when the last reference has been 
+  //! given up, before deleting the object.
+  void expireWeakPtr()
+  {
+    boost::mutex::scoped_lock lock(cacheMutex());
+    m_sharedPtr.reset();
+  }
+
+  //! Held while checking the weak pointer and calling refFromCache(), so that
+  //! the object can't be deleted in between.
+  static boost::mutex& cacheMutex()
+  {
+    // Never destroyed, since objects may be deleted at any time during exit
+    static boost::mutex *mutex = new boost::mutex;
+    return *mutex;
+  }
+
   // RTTI replacement ----------------------------------------------------------
 
   /*! \note A note on why the RTTI replacement is needed:
@@ -235,15 +269,16 @@ intrusive_ptr_add_ref(RefBase* r)
 
 //----------------------------------------------------------------------------//
 
-//! \todo Communicate with the FieldCache to prevent any cache updates from
-//! happening while this releases its count.
 inline void
 intrusive_ptr_release(RefBase* r)
 {
   // Once the reference is given up, the object may be deleted by another
   // thread, so it must not be used unless this was the last reference.
-  if (r->unref() == 0)
+  if (r->unref() == 0) {
+    // The FieldCache must not hand out the object from here on
+    r->expireWeakPtr();
     delete r;
+  }
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 9fd7704d6f0953cfe937cb3a91ae9205886b3af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 47/61] fix: reading a dense HDF5 layer must hold the HDF5 lock

---
 src/DenseFieldIO.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index 275d316..874d7bb 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -84,6 +84,9 @@ DenseFieldIO::read(hid_t layerGroup, const std::string &/*filename*/,
                    const std::string &/*layerPath*/,
                    DataTypeEnum typeEnum)
 {
+  // The caller doesn't hold the lock while fields are being read
+  GlobalLock lock(g_hdf5Mutex);
+
   Box3i extents, dataW;
   int components;
   hsize_t dims[1];
-- 
2.43.0


From 9865d913fe93d37066781b660832a6395778b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 48/61] fix: create the sparse file manager once when several
 threads ask for it first

---
 src/SparseFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 911d362..da88252 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -65,6 +65,8 @@ boost::scoped_ptr<SparseFileManager> SparseFileManager::ms_singleton;
 
 SparseFileManager & SparseFileManager::singleton()
 { 
+  static boost::mutex mutex;
+  boost::mutex::scoped_lock lock(mutex);
   if (ms_singleton.get() == NULL) {
     ms_singleton.reset(new SparseFileManager);
   }
-- 
2.43.0


From 4faeeebedc1537e57771041669bc9706ac7ba0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 49/61] fix: create the class registry once, and before loading
 the plug-ins that register with it

---
 export/ClassFactory.h | 1 +
 src/ClassFactory.cpp  | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/export/ClassFactory.h b/export/ClassFactory.h
index 744a2e8..12694e7 100644
--- a/export/ClassFactory.h
+++ b/export/ClassFactory.h
@@ -45,6 +45,7 @@
 #define _INCLUDED_Field3D_ClassFactory_H_
 
 #include <boost/scoped_ptr.hpp>
+#include <boost/thread/recursive_mutex.hpp>
 #include <map>
 #include <vector>
 
diff --git a/src/ClassFactory.cpp b/src/ClassFactory.cpp
index 8debdc0..7ec7cf1 100644
--- a/src/ClassFactory.cpp
+++ b/src/ClassFactory.cpp
@@ -64,7 +64,6 @@ boost::scoped_ptr<ClassFactory> ClassFactory::ms_instance;
 
 ClassFactory::ClassFactory()
 {
-  PluginLoader::loadPlugins();
 }
 
 //----------------------------------------------------------------------------//
@@ -277,8 +276,14 @@ ClassFactory::createFieldMappingIO(const std::string &className) const
 ClassFactory& 
 ClassFactory::singleton()
 { 
+  // Recursive because plugins may call singleton() while being loaded
+  static boost::recursive_mutex mutex;
+  boost::recursive_mutex::scoped_lock lock(mutex);
   if (ms_instance.get() == NULL) {
     ms_instance.reset(new ClassFactory);
+    // The plugins register their classes with the instance, so it must be in
+    // place before they are loaded
+    PluginLoader::loadPlugins();
   }
   return *ms_instance;
 }
-- 
2.43.0


From 3265b77554b7f84dd438af2edb93ef241450765a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 50/61] fix: protect the class registry against concurrent
 registration

---
 export/ClassFactory.h |  4 ++++
 src/ClassFactory.cpp  | 40 ++++++++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/export/ClassFactory.h b/export/ClassFactory.h
index 12694e7..d105112 100644
--- a/export/ClassFactory.h
+++ b/export/ClassFactory.h
@@ -45,6 +45,7 @@
 #define _INCLUDED_Field3D_ClassFactory_H_
 
 #include <boost/scoped_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <boost/thread/recursive_mutex.hpp>
 #include <map>
 #include <vector>
@@ -162,6 +163,9 @@ private:
   //! 
   NameVec m_fieldMappingIONames;
 
+  //! Protects the registries
+  mutable boost::mutex m_mutex;
+
   //! Pointer to static instance
   static boost::scoped_ptr<ClassFactory> ms_instance;
 
diff --git a/src/ClassFactory.cpp b/src/ClassFactory.cpp
index 7ec7cf1..cab1116 100644
--- a/src/ClassFactory.cpp
+++ b/src/ClassFactory.cpp
@@ -86,6 +86,8 @@ void ClassFactory::registerField(CreateFieldFnPtr createFunc)
   string simpleClassName = instance->className();
   string dataTypeName = instance->dataTypeString();
   string className = simpleClassName + "<" + dataTypeName + ">";
+
+  boost::mutex::scoped_lock lock(m_mutex);
   
   FieldFuncMap::const_iterator i = m_fields.find(className);
   if (i != m_fields.end())
@@ -112,11 +114,13 @@ void ClassFactory::registerField(CreateFieldFnPtr createFunc)
 FieldRes::Ptr 
 ClassFactory::createField(const std::string &className) const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
   FieldFuncMap::const_iterator i = m_fields.find(className);
-  if (i != m_fields.end())
-   return i->second();
-  else
+  if (i == m_fields.end())
     return FieldRes::Ptr();
+  CreateFieldFnPtr createFunc = i->second;
+  lock.unlock();
+  return createFunc();
 }
 
 //----------------------------------------------------------------------------//
@@ -138,6 +142,8 @@ void ClassFactory::registerFieldIO(CreateFieldIOFnPtr createFunc)
 
   string className = instance->className();
 
+  boost::mutex::scoped_lock lock(m_mutex);
+
   FieldIOFuncMap::const_iterator i = m_fieldIOs.find(className);
   if (i != m_fieldIOs.end())
     nameExists = true;  
@@ -164,11 +170,13 @@ FieldIO::Ptr
 ClassFactory::createFieldIO(const std::string &className) const
 {
 //  FieldIOFuncMap::const_iterator m = m_fieldIOs.begin();
+  boost::mutex::scoped_lock lock(m_mutex);
   FieldIOFuncMap::const_iterator i = m_fieldIOs.find(className);
-  if (i != m_fieldIOs.end())
-    return i->second();
-  else
+  if (i == m_fieldIOs.end())
     return FieldIO::Ptr();
+  CreateFieldIOFnPtr createFunc = i->second;
+  lock.unlock();
+  return createFunc();
 }
 
 //----------------------------------------------------------------------------//
@@ -190,6 +198,8 @@ void ClassFactory::registerFieldMapping(CreateFieldMappingFnPtr createFunc)
 
   string className = instance->className();
 
+  boost::mutex::scoped_lock lock(m_mutex);
+
   FieldMappingFuncMap::const_iterator i = m_mappings.find(className);
   if (i != m_mappings.end())
     nameExists = true;  
@@ -214,11 +224,13 @@ void ClassFactory::registerFieldMapping(CreateFieldMappingFnPtr createFunc)
 FieldMapping::Ptr 
 ClassFactory::createFieldMapping(const std::string &className) const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
   FieldMappingFuncMap::const_iterator i = m_mappings.find(className);
-  if (i != m_mappings.end())
-    return i->second();
-  else
+  if (i == m_mappings.end())
     return FieldMapping::Ptr();
+  CreateFieldMappingFnPtr createFunc = i->second;
+  lock.unlock();
+  return createFunc();
 }
 
 //----------------------------------------------------------------------------//
@@ -240,6 +252,8 @@ void ClassFactory::registerFieldMappingIO(CreateFieldMappingIOFnPtr createFunc)
 
   string className = instance->className();
 
+  boost::mutex::scoped_lock lock(m_mutex);
+
   FieldMappingIOFuncMap::const_iterator i = m_mappingIOs.find(className);
   if (i != m_mappingIOs.end())
     nameExists = true;  
@@ -264,11 +278,13 @@ void ClassFactory::registerFieldMappingIO(CreateFieldMappingIOFnPtr createFunc)
 FieldMappingIO::Ptr 
 ClassFactory::createFieldMappingIO(const std::string &className) const
 {
+  boost::mutex::scoped_lock lock(m_mutex);
   FieldMappingIOFuncMap::const_iterator i = m_mappingIOs.find(className);
-  if (i != m_mappingIOs.end())
-    return i->second();
-  else
+  if (i == m_mappingIOs.end())
     return FieldMappingIO::Ptr();
+  CreateFieldMappingIOFnPtr createFunc = i->second;
+  lock.unlock();
+  return createFunc();
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 5a76ba5d156264abb813d29e8a1c52922076d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 51/61] fix: publish a lazily loaded MIP level only once it is
 complete

---
 export/MIPField.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 51342f2..f6399b2 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -697,8 +697,6 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
       }
       // Remove lazy load action
       m_loadActions[level].reset();
-      // Update aux data
-      updateAuxMembers();
       // Ensure metadata is up to date
       syncLevelInfo(level);
       // Update the mapping of the loaded field
@@ -707,6 +705,9 @@ void MIPField<Field_T>::loadLevelFromDisk(size_t level) const
         detail::adjustedMIPFieldMapping(this, baseRes, 
                                         m_fields[level]->extents(), level);
       m_fields[level]->setMapping(mapping);
+      // Update aux data. This lets other threads use the level without taking
+      // the lock, so the level must be complete by now
+      updateAuxMembers();
     }
   }
 }
-- 
2.43.0


From e3a30fa5d942d421f8d6b3984719748b046cb5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 52/61] fix: copying a MIPField takes the lock of the source
 and drops the target's levels

---
 export/MIPField.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index f6399b2..317a181 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -353,6 +353,12 @@ template <class Field_T>
 const MIPField<Field_T>& 
 MIPField<Field_T>::init(const MIPField &rhs)
 {
+  // Nothing to do for self-assignment
+  if (this == &rhs) {
+    return *this;
+  }
+  // Another thread may be loading one of the levels
+  boost::mutex::scoped_lock lock(*rhs.m_ioMutex);
   // If any of the fields aren't yet loaded, we can rely on the same load 
   // actions as the other one
   m_loadActions = rhs.m_loadActions;
@@ -362,8 +368,10 @@ MIPField<Field_T>::init(const MIPField &rhs)
   // The contained fields must be individually cloned if they have already
   // been loaded
   m_fields.resize(rhs.m_fields.size());
-  m_rawFields.resize(rhs.m_rawFields.size());
+  m_rawFields.resize(rhs.m_fields.size());
   for (size_t i = 0, end = m_fields.size(); i < end; ++i) {
+    // Any level held before the copy must not be kept
+    m_fields[i].reset();
     // Update the field pointer
     if (rhs.m_fields[i]) {
       FieldBase::Ptr baseClone = rhs.m_fields[i]->clone();
-- 
2.43.0


From 41a717fe458c152ab43a98b89615048f33a02b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:07 +0000
Subject: [PATCH 53/61] fix: a MIP level that fails to load no longer leaves
 its HDF5 file open

---
 include/MIPFieldIO.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/MIPFieldIO.h b/include/MIPFieldIO.h
index 2777a49..94a1c25 100644
--- a/include/MIPFieldIO.h
+++ b/include/MIPFieldIO.h
@@ -275,16 +275,28 @@ public:
       levelGroup.reset(new H5ScopedGopen(file, m_path));
     }
 
-    // Instantiate I/O
-    FieldIO::Ptr io = 
-      ClassFactory::singleton().createFieldIO(Field_T::staticClassName());
-    FieldBase::Ptr field = io->read(*levelGroup, m_filename, m_path, m_typeEnum);
-    if (!field) {
-      throw Exc::MIPFieldIOException("Failed to read MIP level from disk.");
+    FieldBase::Ptr field;
+    try {
+      // Instantiate I/O
+      FieldIO::Ptr io = 
+        ClassFactory::singleton().createFieldIO(Field_T::staticClassName());
+      field = io->read(*levelGroup, m_filename, m_path, m_typeEnum);
+      if (!field) {
+        throw Exc::MIPFieldIOException("Failed to read MIP level from disk.");
+      }
+    }
+    catch (...) {
+      // The file must not stay open if the level can't be read
+      GlobalLock lock(g_hdf5Mutex);
+      levelGroup.reset();
+      H5Fclose(file);
+      throw;
     }
     {
       // Hold lock again
       GlobalLock lock(g_hdf5Mutex);
+      // Close the group before its file
+      levelGroup.reset();
       // Close the file
       if (H5Fclose(file) < 0) {
         Msg::print("Error closing file: " + m_filename);
-- 
2.43.0


From 5fe46d06cac4a150fc78af3fa1d1b9cb0c36c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:43 +0000
Subject: [PATCH 54/61] fix: split MIP generation by the blocks of the field
 being written

---
 export/MIPUtil.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index ab15b7b..3b54042 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -374,8 +374,9 @@ namespace detail {
     // Resize new field
     tgt.setSize(res);
     
-    // Determine granularity
-    const size_t blockSize = threadingBlockSize(src);
+    // Determine granularity. Each block of the target must be written by one 
+    // thread only
+    const size_t blockSize = threadingBlockSize(tgt);
 
     // Build block list
     std::vector<Box3i> blocks;
-- 
2.43.0


From bfa736fae278ede4595b645fbfdd66bcc7bfe9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 55/61] fix: expand frame ranges only when they are complete
 and in range

---
 src/FileSequence.cpp | 76 +++++++++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 22 deletions(-)

diff --git a/src/FileSequence.cpp b/src/FileSequence.cpp
index d5ca07c..3b6d5d3 100644
--- a/src/FileSequence.cpp
+++ b/src/FileSequence.cpp
@@ -45,8 +45,10 @@
 #include "FileSequence.h"
 
 // System includes
+#include <cerrno>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 
 // Library includes
 #include "Log.h"
@@ -56,6 +58,33 @@
 
 FIELD3D_NAMESPACE_OPEN
 
+//----------------------------------------------------------------------------//
+// Local namespace
+//----------------------------------------------------------------------------//
+
+namespace {
+
+  //! Whether the character is one of 0-9
+  bool isDigit(const char c)
+  {
+    return c >= '0' && c <= '9';
+  }
+
+  //! Converts a string of digits.
+  //! \returns False if the number does not fit
+  bool toFrameNumber(const std::string &digits, int &result)
+  {
+    errno = 0;
+    const long value = strtol(digits.c_str(), NULL, 10);
+    if (errno != 0 || value > std::numeric_limits<int>::max()) {
+      return false;
+    }
+    result = static_cast<int>(value);
+    return true;
+  }
+
+}
+
 //----------------------------------------------------------------------------//
 // FileSequence implementations
 //----------------------------------------------------------------------------//
@@ -67,7 +96,6 @@ FileSequence::FileSequence(const std::string &sequence)
   // The number '1' in each of these is the 'sequence start'
   // The numbers '2' and '21' are the 'sequence end'
 
-  const std::string k_numbers          = "0123456789";
   const std::string k_seqMarks         = "#@";
   const std::string k_framePlaceholder = "####";
   const size_t      npos               = std::string::npos;
@@ -94,20 +122,15 @@ FileSequence::FileSequence(const std::string &sequence)
     return;
   }
 
-  // Get the end range index
-  size_t seqEndIdx = sequence.find_last_not_of(k_numbers, seqMarkIdx - 1);
-  if (seqEndIdx == npos) {
-    std::stringstream warning;
-    warning << "Sequence mark but no sequence range in filename: " 
-            << sequence;
-    Msg::print(Msg::SevWarning, warning.str());
-    return;
-  } else {
-    seqEndIdx += 1;
+  // Get the end range index. The range ends with the last number before the 
+  // sequence mark
+  size_t seqEndIdx = seqMarkIdx;
+  while (seqEndIdx > 0 && isDigit(sequence[seqEndIdx - 1])) {
+    --seqEndIdx;
   }
-  if (seqEndIdx == 0) {
+  if (seqEndIdx == seqMarkIdx || seqEndIdx == 0) {
     std::stringstream warning;
-    warning << "Sequence mark preceded by single number: " 
+    warning << "Sequence mark but no sequence range in filename: " 
             << sequence;
     Msg::print(Msg::SevWarning, warning.str());
     return;
@@ -123,31 +146,40 @@ FileSequence::FileSequence(const std::string &sequence)
   }
 
   // Get the start range index
-  size_t seqStartIdx = sequence.find_last_not_of(k_numbers, seqEndIdx - 2);
-  if (seqStartIdx == npos) {
+  size_t seqStartIdx = seqEndIdx - 1;
+  while (seqStartIdx > 0 && isDigit(sequence[seqStartIdx - 1])) {
+    --seqStartIdx;
+  }
+  if (seqStartIdx == seqEndIdx - 1) {
     std::stringstream warning;
     warning << "No sequence start in filename: " 
             << sequence;
     Msg::print(Msg::SevWarning, warning.str());
     return;
-  } else {
-    seqStartIdx += 1;
   }
     
   // String versions of frame numbers
-  const std::string startStr = sequence.substr(seqStartIdx, seqEndIdx - 1);
-  const std::string endStr   = sequence.substr(seqEndIdx, seqMarkIdx);
+  const std::string startStr = 
+    sequence.substr(seqStartIdx, seqEndIdx - 1 - seqStartIdx);
+  const std::string endStr   = 
+    sequence.substr(seqEndIdx, seqMarkIdx - seqEndIdx);
 
   // Get the integers
-  const int start = atoi(startStr.c_str());
-  const int end   = atoi(endStr.c_str());
+  int start, end;
+  if (!toFrameNumber(startStr, start) || !toFrameNumber(endStr, end)) {
+    std::stringstream warning;
+    warning << "Frame number out of range in filename: " 
+            << sequence;
+    Msg::print(Msg::SevWarning, warning.str());
+    return;
+  }
 
   // Create the file basename for replacement
   const std::string baseStart = sequence.substr(0, seqStartIdx);
   const std::string baseEnd   = sequence.substr(seqMarkIdx + 1);
 
   // Create the filenames
-  for (int i = start; i <= end; ++i) {
+  for (long long i = start; i <= end; ++i) {
     std::stringstream filename;
     filename << baseStart << i << baseEnd;
     m_filenames.push_back(filename.str());
-- 
2.43.0


From eaec4c0a01376218c3b50569c8455ffe8179fe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 56/61] fix: SparseFieldIO::staticClassType must be static

---
 include/SparseFieldIO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/SparseFieldIO.h b/include/SparseFieldIO.h
index 4dca640..a00a24d 100644
--- a/include/SparseFieldIO.h
+++ b/include/SparseFieldIO.h
@@ -92,7 +92,7 @@ public:
   typedef SparseFieldIO class_type;
   DEFINE_FIELD_RTTI_CONCRETE_CLASS;
 
-  const char *staticClassType() const
+  static const char *staticClassType()
   {
     return "SparseFieldIO";
   }
-- 
2.43.0


From d07894d4db92f19a5e12a7672ce57cc8764cca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 57/61] fix: casting to FieldBase always failed

---
 export/Field.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/export/Field.h b/export/Field.h
index c856bae..1b9dbd8 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -115,6 +115,8 @@ public:
 
   // RTTI replacement ----------------------------------------------------------
 
+  DEFINE_FIELD_RTTI_ABSTRACT_CLASS;
+
   static const char *staticClassName()
   {
     return "FieldBase";
@@ -179,6 +181,11 @@ public:
   //! metadata
   FieldMetadata m_metadata;
 
+  // Typedefs ------------------------------------------------------------------
+
+  //! Convenience typedef for referring to base class
+  typedef RefBase base;
+
 };
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From cf8137b488e8324738b188da9c21f269c65056f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 58/61] fix: EmptyFields of all data types had the same type
 name

---
 export/EmptyField.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/export/EmptyField.h b/export/EmptyField.h
index b8c779e..0873d63 100644
--- a/export/EmptyField.h
+++ b/export/EmptyField.h
@@ -128,12 +128,12 @@ public:
 
   static const char *staticClassName()
   {
-    return staticClassType();
+    return "EmptyField";
   }
   
   static const char *staticClassType()
   {
-    return "EmptyField";
+    return EmptyField<Data_T>::ms_classType.name();
   }
 
   // From WritableField base class -----------------------------------------
@@ -168,12 +168,22 @@ public:
 
  private:
 
+  // Static data members -------------------------------------------------------
+
+  static TemplatedFieldType<EmptyField<Data_T> > ms_classType;
+
   // Typedefs ------------------------------------------------------------------
 
   typedef ResizableField<Data_T> base;
 
 };
 
+//----------------------------------------------------------------------------//
+// Static data member instantiation
+//----------------------------------------------------------------------------//
+
+FIELD3D_CLASSTYPE_TEMPL_INSTANTIATION(EmptyField);
+
 //----------------------------------------------------------------------------//
 // EmptyField implementations
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 8f0afeb5b50cbfa7f5ef4ccdca0d40bb4ac98de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 59/61] fix: generic interpolators of dense and sparse fields
 had the same type name

---
 export/FieldInterp.h | 30 ++++++++----------------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/export/FieldInterp.h b/export/FieldInterp.h
index 9a7c701..d62b339 100644
--- a/export/FieldInterp.h
+++ b/export/FieldInterp.h
@@ -271,7 +271,10 @@ public:
   
   static const char* staticClassType()
   {
-    return ms_classType.name();
+    // The name includes the field type, not just its data type
+    static const std::string classType = 
+      std::string(staticClassName()) + "<" + Field_T::staticClassType() + ">";
+    return classType.c_str();
   }
 
   // Main methods --------------------------------------------------------------
@@ -280,10 +283,6 @@ public:
 
 private:
 
-  // Static data members -------------------------------------------------------
-
-  static TemplatedFieldType<LinearGenericFieldInterp<Field_T> > ms_classType;
-  
   // Typedefs ------------------------------------------------------------------
 
   //! Convenience typedef for referring to base class
@@ -291,12 +290,6 @@ private:
 
 };
 
-//----------------------------------------------------------------------------//
-// Static data member instantiation
-//----------------------------------------------------------------------------//
-
-FIELD3D_CLASSTYPE_TEMPL_INSTANTIATION(LinearGenericFieldInterp);
-
 //----------------------------------------------------------------------------//
 // LinearMACFieldInterp
 //----------------------------------------------------------------------------//
@@ -393,7 +386,10 @@ public:
 
   static const char* staticClassType()
   {
-    return ms_classType.name();    
+    // The name includes the field type, not just its data type
+    static const std::string classType = 
+      std::string(staticClassName()) + "<" + Field_T::staticClassType() + ">";
+    return classType.c_str();
   }
 
   // Main methods --------------------------------------------------------------
@@ -403,22 +399,12 @@ public:
   
 private:
 
-  // Static data members -------------------------------------------------------
-
-  static TemplatedFieldType<CubicGenericFieldInterp<Field_T> > ms_classType;
-
   // Typedefs ------------------------------------------------------------------
 
   //! Convenience typedef for referring to base class
   typedef RefBase base;    
 };
 
-//----------------------------------------------------------------------------//
-// Static data member instantiation
-//----------------------------------------------------------------------------//
-
-FIELD3D_CLASSTYPE_TEMPL_INSTANTIATION(CubicGenericFieldInterp);
-
 //----------------------------------------------------------------------------//
 // CubicMACFieldInterp
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 558ddda28f0674a7ca3941052b7975f677b25ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:02 +0000
Subject: [PATCH 60/61] fix: give MIPSparseField and MIPDenseField a type name
 of their own

---
 export/MIPField.h | 52 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 50 insertions(+), 2 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 317a181..5f038a3 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -298,10 +298,34 @@ template <typename Data_T>
 class MIPSparseField : public MIPField<SparseField<Data_T> >
 {
 public:
-    virtual FieldBase::Ptr clone() const
+
+  // Typedefs ------------------------------------------------------------------
+
+  typedef boost::intrusive_ptr<MIPSparseField> Ptr;
+
+  // RTTI replacement ----------------------------------------------------------
+
+  typedef MIPSparseField<Data_T> class_type;
+  DEFINE_FIELD_RTTI_CONCRETE_CLASS;
+
+  static const char *staticClassType()
+  {
+    static const std::string classType = std::string("MIPSparseField<") +
+      DataTypeTraits<Data_T>::name() + ">";
+    return classType.c_str();
+  }
+
+  // From FieldBase ------------------------------------------------------------
+
+  virtual FieldBase::Ptr clone() const
   { 
     return FieldBase::Ptr(new MIPSparseField(*this));
   }
+
+protected:
+
+  typedef MIPField<SparseField<Data_T> > base;
+
 };
 
 //----------------------------------------------------------------------------//
@@ -310,10 +334,34 @@ template <typename Data_T>
 class MIPDenseField : public MIPField<DenseField<Data_T> >
 {
   public:
-    virtual FieldBase::Ptr clone() const
+
+  // Typedefs ------------------------------------------------------------------
+
+  typedef boost::intrusive_ptr<MIPDenseField> Ptr;
+
+  // RTTI replacement ----------------------------------------------------------
+
+  typedef MIPDenseField<Data_T> class_type;
+  DEFINE_FIELD_RTTI_CONCRETE_CLASS;
+
+  static const char *staticClassType()
+  {
+    static const std::string classType = std::string("MIPDenseField<") +
+      DataTypeTraits<Data_T>::name() + ">";
+    return classType.c_str();
+  }
+
+  // From FieldBase ------------------------------------------------------------
+
+  virtual FieldBase::Ptr clone() const
   { 
     return FieldBase::Ptr(new MIPDenseField(*this));
   }
+
+protected:
+
+  typedef MIPField<DenseField<Data_T> > base;
+
 };
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 4ce2b8d9246bea715817a63abc7dd62f3c1051a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:45 +0000
Subject: [PATCH 61/61] fix: layers of a file that was written again came from
 the cache of its earlier contents

---
 export/Field3DFile.h     |  2 ++
 export/Field3DFileHDF5.h |  9 ++++++---
 export/FieldCache.h      |  8 ++++++++
 src/Field3DFile.cpp      |  6 ++++--
 src/Field3DFileHDF5.cpp  |  1 +
 src/FieldCache.cpp       | 25 +++++++++++++++++++++++++
 6 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/export/Field3DFile.h b/export/Field3DFile.h
index 97c1bb2..9190e38 100644
--- a/export/Field3DFile.h
+++ b/export/Field3DFile.h
@@ -599,6 +599,8 @@ private:
 
   //! Filename, only to be set by open().
   std::string m_filename;
+  //! Name under which the file's layers are cached, only to be set by open().
+  std::string m_cacheFilename;
   //! Pointer to the Ogawa archive
   boost::shared_ptr<Alembic::Ogawa::IArchive> m_archive;
   //! Pointer to root group
diff --git a/export/Field3DFileHDF5.h b/export/Field3DFileHDF5.h
index f1bc3b9..c01d5a1 100644
--- a/export/Field3DFileHDF5.h
+++ b/export/Field3DFileHDF5.h
@@ -734,7 +734,9 @@ private:
   // Data members --------------------------------------------------------------
 
   //! Filename, only to be set by open().
-  std::string m_filename;  
+  std::string m_filename;
+  //! Name under which the file's layers are cached, only to be set by open().
+  std::string m_cacheFilename;  
 
 };
 
@@ -1104,7 +1106,8 @@ Field3DInputFileHDF5::readLayer(const std::string &intPartitionName,
   // Check the cache
 
   FieldCache<Data_T> &cache       = FieldCache<Data_T>::singleton();
-  FieldPtr            cachedField = cache.getCachedField(m_filename, layerPath);
+  FieldPtr            cachedField = cache.getCachedField(m_cacheFilename, 
+                                                         layerPath);
 
   if (cachedField) {
     return cachedField;
@@ -1145,7 +1148,7 @@ Field3DInputFileHDF5::readLayer(const std::string &intPartitionName,
 
   // Cache the field for future use
   if (field) {
-    cache.cacheField(field, m_filename, layerPath);
+    cache.cacheField(field, m_cacheFilename, layerPath);
   }
 
   return field;
diff --git a/export/FieldCache.h b/export/FieldCache.h
index 4e7c358..5cbebb7 100644
--- a/export/FieldCache.h
+++ b/export/FieldCache.h
@@ -58,6 +58,14 @@
 
 FIELD3D_NAMESPACE_OPEN
 
+//----------------------------------------------------------------------------//
+// Utility functions
+//----------------------------------------------------------------------------//
+
+//! Returns the name under which the layers of the given file are cached. It
+//! tells apart the successive contents of a file that is written again.
+FIELD3D_API std::string cacheFilename(const std::string &filename);
+
 //----------------------------------------------------------------------------//
 // FieldCache
 //----------------------------------------------------------------------------//
diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 5bbd415..ed8c5a6 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -759,6 +759,7 @@ bool Field3DInputFile::open(const string &filename)
 
   // Record filename
   m_filename = filename;
+  m_cacheFilename = cacheFilename(filename);
 
   try {
 
@@ -1664,7 +1665,8 @@ Field3DInputFile::readLayer(const std::string &intPartitionName,
   // Check the cache
 
   FieldCache<Data_T> &cache       = FieldCache<Data_T>::singleton();
-  FieldPtr            cachedField = cache.getCachedField(m_filename, layerPath);
+  FieldPtr            cachedField = cache.getCachedField(m_cacheFilename, 
+                                                         layerPath);
 
   if (cachedField) {
     return cachedField;
@@ -1693,7 +1695,7 @@ Field3DInputFile::readLayer(const std::string &intPartitionName,
 
   // Cache the field for future use
   if (field) {
-    cache.cacheField(field, m_filename, layerPath);
+    cache.cacheField(field, m_cacheFilename, layerPath);
   }
 
   return field;
diff --git a/src/Field3DFileHDF5.cpp b/src/Field3DFileHDF5.cpp
index 21bf6df..4d4f7c6 100644
--- a/src/Field3DFileHDF5.cpp
+++ b/src/Field3DFileHDF5.cpp
@@ -598,6 +598,7 @@ bool Field3DInputFileHDF5::open(const string &filename)
 
   // Record filename
   m_filename = filename;
+  m_cacheFilename = cacheFilename(filename);
 
   try {
 
diff --git a/src/FieldCache.cpp b/src/FieldCache.cpp
index a479e09..8f440f6 100644
--- a/src/FieldCache.cpp
+++ b/src/FieldCache.cpp
@@ -43,12 +43,37 @@
 
 #include "FieldCache.h"
 
+#include <sstream>
+
+#include <sys/types.h>
+#include <sys/stat.h>
+
 #include "Traits.h"
 
 //----------------------------------------------------------------------------//
 
 FIELD3D_NAMESPACE_OPEN
 
+//----------------------------------------------------------------------------//
+// Utility functions
+//----------------------------------------------------------------------------//
+
+std::string cacheFilename(const std::string &filename)
+{
+  struct stat info;
+  if (stat(filename.c_str(), &info) != 0) {
+    return filename;
+  }
+
+  std::ostringstream name;
+  name << filename << "|" << info.st_dev << "|" << info.st_ino << "|"
+       << info.st_size << "|" << info.st_mtime;
+#ifdef __linux__
+  name << "." << info.st_mtim.tv_nsec;
+#endif
+  return name.str();
+}
+
 //----------------------------------------------------------------------------//
 // FieldCache static member instantiation
 //----------------------------------------------------------------------------//
-- 
2.43.0

