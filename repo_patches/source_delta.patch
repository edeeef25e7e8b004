From 2481ec989289bcb30887758f8a37fb7284569b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 01/49] fix: continuousBounds keeps voxel indices above 2^24
 exact

The box corners went through float, so indices that float cannot represent
were rounded and voxels at the ends of the box got lost.
---
 export/Field.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index 51fd35d..51235d6 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -1111,12 +1111,12 @@ inline V3d discToCont(const V3i &discCoord)
 inline Box3d continuousBounds(const Box3i &bbox)
 {
   Box3d result;
-  result.min.x = static_cast<float>(bbox.min.x);
-  result.min.y = static_cast<float>(bbox.min.y);
-  result.min.z = static_cast<float>(bbox.min.z);
-  result.max.x = static_cast<float>(bbox.max.x + 1);
-  result.max.y = static_cast<float>(bbox.max.y + 1);
-  result.max.z = static_cast<float>(bbox.max.z + 1);
+  result.min.x = static_cast<double>(bbox.min.x);
+  result.min.y = static_cast<double>(bbox.min.y);
+  result.min.z = static_cast<double>(bbox.min.z);
+  result.max.x = static_cast<double>(bbox.max.x + 1);
+  result.max.y = static_cast<double>(bbox.max.y + 1);
+  result.max.z = static_cast<double>(bbox.max.z + 1);
   return result;
 }
 
-- 
2.43.0


From f70fae8ef5ef04af2bf2536f5848fee7e7b641cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 02/49] fix: discreteBounds rounds outwards before converting
 to int

clampForType<double, int>() truncates towards zero, so the floor() and ceil()
calls saw integers: a lower bound of -0.5 became voxel 0 and voxel -1, which
the box touches, was lost.
---
 export/Field.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/export/Field.h b/export/Field.h
index 51235d6..f78f8c7 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -1131,12 +1131,12 @@ inline Box3i discreteBounds(const Box3d &bbox)
   using std::ceil;
 
   Box3i result;
-  result.min.x = static_cast<int>(floor(clampForType<double, int>(bbox.min.x)));
-  result.min.y = static_cast<int>(floor(clampForType<double, int>(bbox.min.y)));
-  result.min.z = static_cast<int>(floor(clampForType<double, int>(bbox.min.z)));
-  result.max.x = static_cast<int>(ceil(clampForType<double, int>(bbox.max.x)));
-  result.max.y = static_cast<int>(ceil(clampForType<double, int>(bbox.max.y)));
-  result.max.z = static_cast<int>(ceil(clampForType<double, int>(bbox.max.z)));
+  result.min.x = clampForType<double, int>(floor(bbox.min.x));
+  result.min.y = clampForType<double, int>(floor(bbox.min.y));
+  result.min.z = clampForType<double, int>(floor(bbox.min.z));
+  result.max.x = clampForType<double, int>(ceil(bbox.max.x));
+  result.max.y = clampForType<double, int>(ceil(bbox.max.y));
+  result.max.z = clampForType<double, int>(ceil(bbox.max.z));
   return result;
 }
 
-- 
2.43.0


From be574c292dd6f2359a74e1082e04840e8e128a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 03/49] fix: clampForType clamps values equal to the rounded
 limit

When the limit of the target type is not representable in the source type
(float to int) it is rounded up, and a value equal to it passed the check and
overflowed the conversion.
---
 export/Types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/export/Types.h b/export/Types.h
index fd8f29f..fba0d99 100644
--- a/export/Types.h
+++ b/export/Types.h
@@ -106,10 +106,10 @@ To_T clampForType(const From_T v)
   const To_T   highestTo = std::numeric_limits<To_T>::max();
   const From_T highest   = static_cast<From_T>(highestTo);
   // Perform check
-  if (v < lowest) {
-    return lowest;
-  } else if (v > highest) {
-    return highest;
+  if (v <= lowest) {
+    return lowestTo;
+  } else if (v >= highest) {
+    return highestTo;
   }
   return v;
 }
-- 
2.43.0


From b844f4ff065547539a49de862eac44f5f1a23fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:54 +0000
Subject: [PATCH 04/49] fix: FieldBase takes part in the checked cast chain

FieldBase did not define matchRTTI(), so field_dynamic_cast<FieldBase>() on a
field always failed although every field derives from FieldBase.
---
 export/Field.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/export/Field.h b/export/Field.h
index f78f8c7..5e0e8d4 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -115,6 +115,8 @@ public:
 
   // RTTI replacement ----------------------------------------------------------
 
+  DEFINE_FIELD_RTTI_ABSTRACT_CLASS;
+
   static const char *staticClassName()
   {
     return "FieldBase";
@@ -174,6 +176,11 @@ public:
 
  private:
 
+  // Typedefs ------------------------------------------------------------------
+
+  //! Convenience typedef for referring to base class
+  typedef RefBase base;
+
   // Private data members ------------------------------------------------------
 
   //! metadata
-- 
2.43.0


From dbf3642b72d572770d2fd06b940f4421ea22f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:46 +0000
Subject: [PATCH 05/49] fix: MACField::copyMAC and MACFieldUtil.h compile when
 used

---
 export/MACField.h     | 2 +-
 export/MACFieldUtil.h | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/export/MACField.h b/export/MACField.h
index d75ef9a..636149e 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -249,7 +249,7 @@ public:
   //! be re-implemented using proper iterators over the field
   void copyMAC(typename MACField::Ptr other)
   {
-    matchDefinition(other);
+    this->matchDefinition(other);
     std::copy(other->m_u.begin(), other->m_u.end(), m_u.begin());
     std::copy(other->m_v.begin(), other->m_v.end(), m_v.begin());
     std::copy(other->m_w.begin(), other->m_w.end(), m_w.begin());
diff --git a/export/MACFieldUtil.h b/export/MACFieldUtil.h
index 9605c11..ee40a36 100644
--- a/export/MACFieldUtil.h
+++ b/export/MACFieldUtil.h
@@ -45,6 +45,8 @@
 #ifndef _INCLUDED_Field3D_MACFieldUtil_H_
 #define _INCLUDED_Field3D_MACFieldUtil_H_
 
+#include <cfloat>
+
 #include "MACField.h"
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 4c630e53934855946e071f7abcd06e3e4657f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:22 +0000
Subject: [PATCH 06/49] fix: MACField sizes and indices are computed in size_t

---
 export/MACField.h | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/export/MACField.h b/export/MACField.h
index 636149e..1fe0103 100644
--- a/export/MACField.h
+++ b/export/MACField.h
@@ -312,15 +312,15 @@ public:
   //! Size of U grid along each axis
   V3i m_uSize;
   //! Size of xy slice for u component
-  int m_uSizeXY;
+  size_t m_uSizeXY;
   //! Size of V grid along each axis
   V3i m_vSize;
   //! Size of xy slice for v component
-  int m_vSizeXY;
+  size_t m_vSizeXY;
   //! Size of W grid along each axis
   V3i m_wSize;
   //! Size of xy slice for w component
-  int m_wSizeXY;
+  size_t m_wSizeXY;
 
   //! Dummy storage of a temp value that lvalue() can write to
   mutable Data_T m_dummy;
@@ -674,15 +674,15 @@ void MACField<Data_T>::sizeChanged()
   m_wSize = baseSize + V3i(0, 0, 1);
 
   // Calculate the size of each z slice
-  m_uSizeXY = m_uSize.x * m_uSize.y;
-  m_vSizeXY = m_vSize.x * m_vSize.y;
-  m_wSizeXY = m_wSize.x * m_wSize.y;
+  m_uSizeXY = static_cast<size_t>(m_uSize.x) * m_uSize.y;
+  m_vSizeXY = static_cast<size_t>(m_vSize.x) * m_vSize.y;
+  m_wSizeXY = static_cast<size_t>(m_wSize.x) * m_wSize.y;
 
   // Allocate memory
   try {
-    m_u.resize(m_uSize.x * m_uSize.y * m_uSize.z);
-    m_v.resize(m_vSize.x * m_vSize.y * m_vSize.z);
-    m_w.resize(m_wSize.x * m_wSize.y * m_wSize.z);
+    m_u.resize(m_uSizeXY * m_uSize.z);
+    m_v.resize(m_vSizeXY * m_vSize.z);
+    m_w.resize(m_wSizeXY * m_wSize.z);
   }
   catch (std::bad_alloc &) {
     throw Exc::MemoryException("Couldn't allocate MACField of size " + 
@@ -707,7 +707,7 @@ MACField<Data_T>::u(int i, int j, int k) const
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return m_u[i + j * m_uSize.x + k * m_uSizeXY];
+  return m_u[i + static_cast<size_t>(j) * m_uSize.x + k * m_uSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -726,7 +726,7 @@ MACField<Data_T>::u(int i, int j, int k)
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return m_u[i + j * m_uSize.x + k * m_uSizeXY];
+  return m_u[i + static_cast<size_t>(j) * m_uSize.x + k * m_uSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -745,7 +745,7 @@ MACField<Data_T>::v(int i, int j, int k) const
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return m_v[i + j * m_vSize.x + k * m_vSizeXY];
+  return m_v[i + static_cast<size_t>(j) * m_vSize.x + k * m_vSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -764,7 +764,7 @@ MACField<Data_T>::v(int i, int j, int k)
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return m_v[i + j * m_vSize.x + k * m_vSizeXY];
+  return m_v[i + static_cast<size_t>(j) * m_vSize.x + k * m_vSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -783,7 +783,7 @@ MACField<Data_T>::w(int i, int j, int k) const
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return m_w[i + j * m_wSize.x + k * m_wSizeXY];
+  return m_w[i + static_cast<size_t>(j) * m_wSize.x + k * m_wSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -802,7 +802,7 @@ MACField<Data_T>::w(int i, int j, int k)
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return m_w[i + j * m_wSize.x + k * m_wSizeXY];
+  return m_w[i + static_cast<size_t>(j) * m_wSize.x + k * m_wSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -923,7 +923,7 @@ MACField<Data_T>::uPtr(int i, int j, int k) const
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return &m_u[i + j * m_uSize.x + k * m_uSizeXY];
+  return &m_u[i + static_cast<size_t>(j) * m_uSize.x + k * m_uSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -936,7 +936,7 @@ MACField<Data_T>::uPtr(int i, int j, int k)
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return &m_u[i + j * m_uSize.x + k * m_uSizeXY];
+  return &m_u[i + static_cast<size_t>(j) * m_uSize.x + k * m_uSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -949,7 +949,7 @@ MACField<Data_T>::vPtr(int i, int j, int k) const
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return &m_v[i + j * m_vSize.x + k * m_vSizeXY];
+  return &m_v[i + static_cast<size_t>(j) * m_vSize.x + k * m_vSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -962,7 +962,7 @@ MACField<Data_T>::vPtr(int i, int j, int k)
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return &m_v[i + j * m_vSize.x + k * m_vSizeXY];
+  return &m_v[i + static_cast<size_t>(j) * m_vSize.x + k * m_vSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -975,7 +975,7 @@ MACField<Data_T>::wPtr(int i, int j, int k) const
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return &m_w[i + j * m_wSize.x + k * m_wSizeXY];
+  return &m_w[i + static_cast<size_t>(j) * m_wSize.x + k * m_wSizeXY];
 }
 
 //----------------------------------------------------------------------------//
@@ -988,7 +988,7 @@ MACField<Data_T>::wPtr(int i, int j, int k)
   i -= base::m_dataWindow.min.x;
   j -= base::m_dataWindow.min.y;
   k -= base::m_dataWindow.min.z;
-  return &m_w[i + j * m_wSize.x + k * m_wSizeXY];
+  return &m_w[i + static_cast<size_t>(j) * m_wSize.x + k * m_wSizeXY];
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 8a02a8b90800e99ef4c9263bca315fc7e894b6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:23 +0000
Subject: [PATCH 07/49] fix: cell-centred to MAC conversion inverts multi-axis
 rotations

---
 export/MACFieldUtil.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/export/MACFieldUtil.h b/export/MACFieldUtil.h
index ee40a36..781f01e 100644
--- a/export/MACFieldUtil.h
+++ b/export/MACFieldUtil.h
@@ -162,7 +162,10 @@ void convertCellCenteredToMAC(typename Field_T::Ptr cc,
     M44d localToWorld = mapping->localToWorld();
     V3d scale, rot, trans, shear;
     if (FIELD3D_EXTRACT_SHRT(localToWorld, scale, shear, rot, trans, false)) {
-      wsToSsMtx.rotate(-rot);
+      // The inverse rotation; negated Euler angles only invert single-axis
+      // rotations
+      wsToSsMtx.rotate(rot);
+      wsToSsMtx.transpose();
       rotateVector = true;
     }
   }
-- 
2.43.0


From 78b660de4de4ae8eea2bda6fbe8e174ca3214648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 08/49] fix: SparseField block_iterator boxes include the data
 window offset

---
 export/SparseField.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index e8ac64b..11771c4 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -1263,7 +1263,8 @@ private:
   {
     Box3i box;
     int blockSize = m_field.blockSize();
-    box.min = V3i(x * blockSize, y * blockSize, z * blockSize);
+    box.min = V3i(x * blockSize, y * blockSize, z * blockSize) + 
+      m_field.dataWindow().min;
     box.max = box.min + V3i(blockSize - 1, blockSize - 1, blockSize - 1);
     // Clamp the box
     box.min = FIELD3D_CLIP(box.min, m_field.dataWindow());
-- 
2.43.0


From 015d4e6ca53799580f0ff62cd04da4f87a0d4b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:04 +0000
Subject: [PATCH 09/49] fix: SparseField const_iterator finds demand-loaded
 voxels in offset data windows

---
 export/SparseField.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 11771c4..cc30f18 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -962,8 +962,9 @@ class SparseField<Data_T>::const_iterator
       m_manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return *m_p;
@@ -975,8 +976,9 @@ class SparseField<Data_T>::const_iterator
       manager->activateBlock<Data_T>(m_field->m_fileId, m_blockId);
       m_blockIsActivated = true;
       const Block &block = m_field->m_blocks[m_blockId];
-      int vi, vj, vk;
-      m_field->getVoxelInBlock(x, y, z, vi, vj, vk);
+      int i = x, j = y, k = z, vi, vj, vk;
+      m_field->applyDataWindowOffset(i, j, k);
+      m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
       m_p = &block.value(vi, vj, vk, m_blockOrder);
     }
     return m_p;
-- 
2.43.0


From daee4dd8947d07566dcb65dfa911637bb73f51dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 10/49] fix: assigning a field clones the mapping instead of
 sharing it

---
 export/Field.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/export/Field.h b/export/Field.h
index 5e0e8d4..96b1515 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -247,6 +247,10 @@ public:
   //! \todo OSS Go over the copy constructing - is it implemented right? 8hr
   FieldRes(const FieldRes &src);
 
+  //! Assignment operator. As for the copy constructor, the mapping is cloned,
+  //! since each field owns (and resizes) its own mapping.
+  FieldRes& operator=(const FieldRes &src);
+
   // Main methods --------------------------------------------------------------
 
   //! Returns the extents of the data. This signifies the relevant area that
@@ -346,7 +350,19 @@ inline FieldRes::FieldRes(const FieldRes &src)
   // FieldBase(src);
   // Copy self
   *this = src;
-  m_mapping = src.mapping()->clone();
+}
+
+//----------------------------------------------------------------------------//
+
+inline FieldRes& FieldRes::operator=(const FieldRes &src)
+{
+  if (this != &src) {
+    base::operator=(src);
+    m_extents = src.m_extents;
+    m_dataWindow = src.m_dataWindow;
+    m_mapping = src.m_mapping->clone();
+  }
+  return *this;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From f8349c2e1b41781fa458184aed6d5c616581754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 11/49] fix: FieldRes::voxelCount computes the product in
 size_t

---
 export/Field.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/Field.h b/export/Field.h
index 96b1515..c00425c 100644
--- a/export/Field.h
+++ b/export/Field.h
@@ -300,7 +300,7 @@ public:
   virtual size_t voxelCount() const
   { 
     V3i res = m_dataWindow.size() + V3i(1);
-    return res.x * res.y * res.z;
+    return static_cast<size_t>(res.x) * res.y * res.z;
   }
 
 protected:
-- 
2.43.0


From 331db8a422e2ad969ebcd311496f66a01b71b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 12/49] fix: cubic interpolators clamp the sample point to the
 data window instead of to zero

---
 export/FieldInterp.h | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/export/FieldInterp.h b/export/FieldInterp.h
index 9a7c701..7469a54 100644
--- a/export/FieldInterp.h
+++ b/export/FieldInterp.h
@@ -654,9 +654,10 @@ Data_T CubicFieldInterp<Data_T>::sample(const Field<Data_T> &data,
   // Voxel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
+  const V3d minVsP = V3d(data.dataWindow().min) + V3d(0.5);
+  V3d clampedVsP(std::max(minVsP.x, vsP.x),
+                 std::max(minVsP.y, vsP.y),
+                 std::max(minVsP.z, vsP.z));
   FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
 
   // Lower left corner
@@ -1088,9 +1089,10 @@ CubicGenericFieldInterp<Field_T>::sample(const Field_T &data,
   // Pixel centers are at .5 coordinates
   // NOTE: Don't use contToDisc for this, we're looking for sample
   // point locations, not coordinate shifts.
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
+  const V3d minVsP = V3d(data.dataWindow().min) + V3d(0.5);
+  V3d clampedVsP(std::max(minVsP.x, vsP.x),
+                 std::max(minVsP.y, vsP.y),
+                 std::max(minVsP.z, vsP.z));
   FIELD3D_VEC3_T<double> p(clampedVsP - FIELD3D_VEC3_T<double>(0.5));
 
   const Box3i &dataWindow = data.dataWindow();
@@ -1217,10 +1219,11 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // X component ---
 
-  V3d clampedVsP(std::max(0.5, vsP.x),
-                 std::max(0.5, vsP.y),
-                 std::max(0.5, vsP.z));
-  FIELD3D_VEC3_T<double> p(vsP.x,
+  const V3d minVsP = V3d(data.dataWindow().min) + V3d(0.5);
+  V3d clampedVsP(std::max(minVsP.x, vsP.x),
+                 std::max(minVsP.y, vsP.y),
+                 std::max(minVsP.z, vsP.z));
+  FIELD3D_VEC3_T<double> p(std::max(minVsP.x - 0.5, vsP.x),
                            clampedVsP.y - 0.5,
                            clampedVsP.z - 0.5);
 
@@ -1329,7 +1332,8 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Y component ---
 
-  p.setValue(clampedVsP.x - 0.5, vsP.y , clampedVsP.z - 0.5);
+  p.setValue(clampedVsP.x - 0.5, std::max(minVsP.y - 0.5, vsP.y),
+             clampedVsP.z - 0.5);
 
   // Lower left corner
   c.x = static_cast<int>(floor(p.x));
@@ -1434,7 +1438,8 @@ Data_T CubicMACFieldInterp<Data_T>::sample(const MACField<Data_T> &data,
 
   // Z component ---
 
-  p.setValue(clampedVsP.x - 0.5 , clampedVsP.y - 0.5, vsP.z);
+  p.setValue(clampedVsP.x - 0.5 , clampedVsP.y - 0.5,
+             std::max(minVsP.z - 0.5, vsP.z));
 
   // Lower left corner
   c.x = static_cast<int>(floor(p.x));
-- 
2.43.0


From 568408effafad8965b431fef2c2ca37f418bc395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 13/49] fix: mappings that differ only in shear are not
 identical

---
 src/FieldMapping.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index b1f1a1f..0762886 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -97,6 +97,7 @@ namespace {
       return false;
     }
     if (!s1.equalWithRelError(s2, tolerance) ||
+        !sh1.equalWithAbsError(sh2, tolerance) ||
         !r1.equalWithAbsError(r2, tolerance) ||
         !t1.equalWithRelError(t2, tolerance)) {
       return false;
-- 
2.43.0


From f1790871ed060ffc73c4b1112670f89af86629c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 14/49] fix: frustum mapping built from extents initialises its
 slice distribution and state

---
 src/FieldMapping.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index 0762886..fc4dba7 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -432,7 +432,9 @@ FrustumFieldMapping::FrustumFieldMapping()
 //----------------------------------------------------------------------------//
 
 FrustumFieldMapping::FrustumFieldMapping(const Box3i &extents)
-  : FieldMapping(extents)
+  : FieldMapping(extents),
+    m_zDistribution(PerspectiveDistribution),
+    m_defaultState(true)
 { 
   reset();
 }
-- 
2.43.0


From 13dfcb0fe115c9704d1f0dc7cfce2f0fc793112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 15/49] fix: clearing a frustum mapping's curves includes the
 screen-to-world curve

---
 src/FieldMapping.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMapping.cpp b/src/FieldMapping.cpp
index fc4dba7..48eddaa 100644
--- a/src/FieldMapping.cpp
+++ b/src/FieldMapping.cpp
@@ -789,6 +789,7 @@ void FrustumFieldMapping::getLocalToVoxelMatrix(M44d &result)
 
 void FrustumFieldMapping::clearCurves()
 {
+  m_ssToWsCurve.clear();
   m_lpsToWsCurve.clear();
   m_csToWsCurve.clear();
   m_nearCurve.clear();
-- 
2.43.0


From 7f802863e106e9a183c2e82e355e7d60d14a846f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:52 +0000
Subject: [PATCH 16/49] fix: DenseField::numGrains computes the scanline count
 in size_t

---
 export/DenseField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/DenseField.h b/export/DenseField.h
index 740a663..ba51671 100644
--- a/export/DenseField.h
+++ b/export/DenseField.h
@@ -466,7 +466,7 @@ size_t DenseField<Data_T>::numGrains() const
   // Grain resolution
   const V3i res = base::m_dataWindow.size() + V3i(1);
   // Num grains is Y * Z
-  return res.y * res.z;
+  return static_cast<size_t>(res.y) * res.z;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 1e90ddc7a2a4d7fcb6130fba6be4c9dcd75e4adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 17/49] fix: IStreams: an archive of an unsupported version is
 not valid

---
 src/IStreams.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index a200dac..459aed9 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -105,6 +105,7 @@ IStreams::IStreams(const std::string & iFileName, std::size_t iNumStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         filestream->close();
         delete filestream;
@@ -125,6 +126,7 @@ IStreams::IStreams(const std::vector< std::istream * > & iStreams) :
     init();
     if (!mData->valid || mData->version != 1)
     {
+        mData->valid = false;
         mData->streams.clear();
         return;
     }
-- 
2.43.0


From c99ba2245ebad3a15ca08fa7ed321b90910d5bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 18/49] fix: IData::read and OData::rewrite bounds checks no
 longer overflow

---
 src/IData.cpp | 3 ++-
 src/OData.cpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/IData.cpp b/src/IData.cpp
index e9c504d..5050f52 100644
--- a/src/IData.cpp
+++ b/src/IData.cpp
@@ -88,7 +88,8 @@ void IData::read(Alembic::Util::uint64_t iSize, void * iData,
                  Alembic::Util::uint64_t iOffset, std::size_t iThreadId)
 {
     // don't read anything if we will read beyond our buffer
-    if (iSize == 0 || mData->size == 0 || iOffset + iSize > mData->size)
+    if (iSize == 0 || mData->size == 0 || iSize > mData->size ||
+        iOffset > mData->size - iSize)
     {
         return;
     }
diff --git a/src/OData.cpp b/src/OData.cpp
index acb7dd6..79ed02f 100644
--- a/src/OData.cpp
+++ b/src/OData.cpp
@@ -87,7 +87,7 @@ void OData::rewrite(Alembic::Util::uint64_t iSize, void * iData,
     // don't write anything if we will write beyond our buffer or the
     // stream is invalid
     if (!mData->stream || iSize == 0 || mData->size == 0 ||
-        iOffset + iSize > mData->size)
+        iSize > mData->size || iOffset > mData->size - iSize)
     {
         return;
     }
-- 
2.43.0


From dd62ab29b0afa10eab521842ae55e253f96720c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 19/49] fix: IGroup and IData check sizes found in the file
 against the size of the archive

---
 include/IStreams.h |  4 ++++
 src/IData.cpp      |  9 ++++++++-
 src/IGroup.cpp     | 11 ++++++++++-
 src/IStreams.cpp   | 16 ++++++++++++++++
 4 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/IStreams.h b/include/IStreams.h
index 3383b88..79adb75 100644
--- a/include/IStreams.h
+++ b/include/IStreams.h
@@ -55,6 +55,10 @@ public:
     bool isFrozen();
     Alembic::Util::uint16_t getVersion();
 
+    // number of bytes from the start of the archive to the end of its shortest
+    // stream, anything claiming to reach further is corrupt
+    Alembic::Util::uint64_t getSize();
+
     // locks on the threadId, seeks to iPos, and reads iSize bytes into oBuf
     void read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
               Alembic::Util::uint64_t iSize, void * oBuf);
diff --git a/src/IData.cpp b/src/IData.cpp
index 5050f52..0cf2751 100644
--- a/src/IData.cpp
+++ b/src/IData.cpp
@@ -80,7 +80,14 @@ IData::IData(IStreamsPtr iStreams,
     if ( mData->pos != 0 )
     {
         mData->streams->read(iThreadId, mData->pos, 8, &size);
-        mData->size = size;
+
+        // a block that reaches beyond the end of the archive is corrupt, treat
+        // it as empty
+        Alembic::Util::uint64_t end = mData->streams->getSize();
+        if (end >= 8 && mData->pos <= end - 8 && size <= end - 8 - mData->pos)
+        {
+            mData->size = size;
+        }
     }
 }
 
diff --git a/src/IGroup.cpp b/src/IGroup.cpp
index 476914e..40bbb0a 100644
--- a/src/IGroup.cpp
+++ b/src/IGroup.cpp
@@ -76,12 +76,21 @@ IGroup::IGroup(IStreamsPtr iStreams,
     mData->pos = iPos;
     mData->streams->read(iThreadIndex, iPos, 8, &mData->numChildren);
 
+    // a group that reaches beyond the end of the archive is corrupt, treat it
+    // as empty
+    Alembic::Util::uint64_t end = mData->streams->getSize();
+    if (end < 8 || iPos > end - 8 ||
+        mData->numChildren > (end - 8 - iPos) / 8)
+    {
+        mData->numChildren = 0;
+    }
+
     // 0 should NOT have been written, this groups should have been the
     // special EMPTY_GROUP instead
 
     // read all our child indices, unless we are light and have more than 8
     // children
-    if (!iLight || mData->numChildren < 9)
+    if (mData->numChildren != 0 && (!iLight || mData->numChildren < 9))
     {
         mData->childVec.resize(mData->numChildren);
         mData->streams->read(iThreadIndex, iPos + 8, mData->numChildren * 8,
diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index 459aed9..c616696 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -50,6 +50,7 @@ public:
         valid = false;
         frozen = false;
         version = 0;
+        size = 0;
     }
 
     ~PrivateData()
@@ -82,6 +83,7 @@ public:
     bool valid;
     bool frozen;
     Alembic::Util::uint16_t version;
+    Alembic::Util::uint64_t size;
 };
 
 IStreams::IStreams(const std::string & iFileName, std::size_t iNumStreams) :
@@ -161,6 +163,15 @@ void IStreams::init()
     {
         char header[16] = {0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
         mData->offsets.push_back(mData->streams[i]->tellg());
+        mData->streams[i]->seekg(0, std::ios_base::end);
+        Alembic::Util::uint64_t size =
+            static_cast<Alembic::Util::uint64_t>(mData->streams[i]->tellg()) -
+            mData->offsets[i];
+        mData->streams[i]->seekg(mData->offsets[i]);
+        if (i == 0 || size < mData->size)
+        {
+            mData->size = size;
+        }
         mData->streams[i]->read(header, 16);
         std::string magicStr(header, 5);
         if (magicStr != "Ogawa")
@@ -213,6 +224,11 @@ Alembic::Util::uint16_t IStreams::getVersion()
     return mData->version;
 }
 
+Alembic::Util::uint64_t IStreams::getSize()
+{
+    return mData->size;
+}
+
 void IStreams::read(std::size_t iThreadId, Alembic::Util::uint64_t iPos,
                     Alembic::Util::uint64_t iSize, void * oBuf)
 {
-- 
2.43.0


From 2fe5386b6c3232283c911ecb1db93181a5e4621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:47 +0000
Subject: [PATCH 20/49] fix: Og readers handle a missing data child instead of
 dereferencing null

---
 include/OgUtil.h | 4 ++++
 src/OgIGroup.cpp | 4 +++-
 src/OgUtil.cpp   | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/OgUtil.h b/include/OgUtil.h
index 07254c7..b56e5ac 100644
--- a/include/OgUtil.h
+++ b/include/OgUtil.h
@@ -107,6 +107,10 @@ bool readData(Alembic::Ogawa::IGroupPtr group, const size_t idx,
 {
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  // Check that we got something
+  if (!data) {
+    return false;
+  }
   // Check data length
   const size_t sizeLength = sizeof(T);
   const size_t length = data->getSize();
diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 7884102..7740afc 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -281,7 +281,9 @@ OgIGroup::OgIGroup(Alembic::Ogawa::IGroupPtr group)
   : OgIBase(group)
 {
   validate();
-  getGroupName(m_group, m_name);
+  if (m_group) {
+    getGroupName(m_group, m_name);
+  }
 }
 
 //----------------------------------------------------------------------------//
diff --git a/src/OgUtil.cpp b/src/OgUtil.cpp
index dee855a..21387b6 100644
--- a/src/OgUtil.cpp
+++ b/src/OgUtil.cpp
@@ -68,6 +68,10 @@ OgDataType readDataType(Alembic::Ogawa::IGroupPtr group, const size_t idx)
   OgDataType dataType;;
   // Grab data
   Alembic::Ogawa::IDataPtr data = group->getData(idx, OGAWA_THREAD);
+  // Check that we got something
+  if (!data) {
+    return F3DInvalidDataType;
+  }
   // Check data length
   const size_t sizeLength = sizeof(OgDataType);
   const size_t length = data->getSize();
-- 
2.43.0


From 5b5fc86583910e2609100bd21f47641457441f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 21/49] fix: field readers check dataset sizes against the
 field before reading into it

---
 include/OgSparseDataReader.h | 13 ++++++++++++-
 src/DenseFieldIO.cpp         |  6 ++++++
 src/SparseFieldIO.cpp        | 10 ++++++++++
 3 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/OgSparseDataReader.h b/include/OgSparseDataReader.h
index 62fa967..e5b7740 100644
--- a/include/OgSparseDataReader.h
+++ b/include/OgSparseDataReader.h
@@ -189,6 +189,12 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
 
     // Length of compressed data
     const uint64_t length = m_cDataset.dataSize(idx, m_threadId);
+    // Check that it fits the compression cache
+    if (length > m_compressionCache.size()) {
+      std::cout << "ERROR in readBlock: compressed block is too large: "
+                << length << std::endl;
+      return;
+    }
     // Read data into compression cache
     m_cDataset.getData(idx, &m_compressionCache[0], m_threadId);
     // Target location
@@ -206,7 +212,12 @@ void OgSparseDataReader<Data_T>::readBlock(const size_t idx, Data_T *result)
 
   } else {
 
-    m_dataset.getData(idx, result, OGAWA_THREAD);
+    // Check that the element holds exactly one block
+    if (m_dataset.dataSize(idx, m_threadId) != m_numVoxels) {
+      std::cout << "ERROR in readBlock: block size mismatch" << std::endl;
+      return;
+    }
+    m_dataset.getData(idx, result, m_threadId);
 
   }
 }
diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index f178391..c001273 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -573,6 +573,12 @@ DenseFieldIO::readData(const OgIGroup &layerGroup, const Box3i &extents,
                                  "the dataset.");
   }
 
+  // Check that the dataset holds one value per voxel
+  if (data.dataSize(0, OGAWA_THREAD) != field->voxelCount()) {
+    throw Exc::ReadDataException("DenseFieldIO::readData() found a dataset "
+                                 "of the wrong size.");
+  }
+
   // Read the data
   if (!data.getData(0, &(*field->begin()), OGAWA_THREAD)) {
     throw Exc::ReadDataException("DenseFieldIO::readData() couldn't read "
diff --git a/src/SparseFieldIO.cpp b/src/SparseFieldIO.cpp
index 44f266b..a0e9d9a 100644
--- a/src/SparseFieldIO.cpp
+++ b/src/SparseFieldIO.cpp
@@ -781,6 +781,11 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
     if (!isAllocatedData.isValid()) {
       throw MissingGroupException("Couldn't find block_is_allocated_data: ");
     }
+    if (isAllocatedData.dataSize(0, OGAWA_THREAD) != 
+        static_cast<uint64_t>(numBlocks)) {
+      throw ReadDataException("Block count mismatch in "
+                              "block_is_allocated_data");
+    }
     isAllocatedData.getData(0, &isAllocated[0], OGAWA_THREAD);
     // Allocate the blocks and set up the block mapping array
     for (size_t i = 0, nextBlockOnDisk = 0; i < numBlocks; ++i) {
@@ -804,6 +809,11 @@ SparseFieldIO::readData(const OgIGroup &location, const Box3i &extents,
     if (!emptyValueData.isValid()) {
       throw MissingGroupException("Couldn't find block_empty_value_data: ");
     }
+    if (emptyValueData.dataSize(0, OGAWA_THREAD) != 
+        static_cast<uint64_t>(numBlocks)) {
+      throw ReadDataException("Block count mismatch in "
+                              "block_empty_value_data");
+    }
     emptyValueData.getData(0, &emptyValue[0], OGAWA_THREAD);
     // Fill in the field
     for (size_t i = 0; i < numBlocks; ++i) {
-- 
2.43.0


From a5aab96641297ffc838a88ad170bc9a4ffdab233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 22/49] fix: OGroup: adding an empty data block adds one child,
 not two

---
 src/OGroup.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/OGroup.cpp b/src/OGroup.cpp
index fbfebb1..1cc5eb9 100644
--- a/src/OGroup.cpp
+++ b/src/OGroup.cpp
@@ -105,7 +105,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iSize, const void * iData)
 
     if (iSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
@@ -151,7 +150,6 @@ ODataPtr OGroup::createData(Alembic::Util::uint64_t iNumData,
 
     if (totalSize == 0)
     {
-        mData->childVec.push_back(EMPTY_DATA);
         child.reset(new OData());
         return child;
     }
-- 
2.43.0


From 8e3514ab4316db696f03f7adabe8bb6b3cd0c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:52 +0000
Subject: [PATCH 23/49] fix: OgIDataset::getData reads only the whole elements
 that dataSize reports

---
 include/OgIDataset.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/OgIDataset.h b/include/OgIDataset.h
index c94bb5e..70fcfe4 100644
--- a/include/OgIDataset.h
+++ b/include/OgIDataset.h
@@ -199,8 +199,10 @@ bool OgIDataset<T>::getData(const size_t index, T *data,
   if (!idata) {
     return false;
   }
-  // Get the length
-  Alembic::Util::uint64_t dataSize = idata->getSize();
+  // Get the length. Only whole elements are read, which is what dataSize()
+  // reports
+  Alembic::Util::uint64_t dataSize = 
+    idata->getSize() / sizeof(T) * sizeof(T);
   // Read the data
   idata->read(dataSize, data, 0, threadId);
   // Done
-- 
2.43.0


From 028e27606a9d92b9582e2266f152f48c57ca8cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 24/49] fix: IStreams: version bytes are unsigned

---
 src/IStreams.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/IStreams.cpp b/src/IStreams.cpp
index c616696..3011a16 100644
--- a/src/IStreams.cpp
+++ b/src/IStreams.cpp
@@ -182,7 +182,9 @@ void IStreams::init()
             return;
         }
         bool frozen = (header[5] == char(0xff));
-        Alembic::Util::uint16_t version = (header[6] << 8) | header[7];
+        Alembic::Util::uint16_t version =
+            (static_cast<unsigned char>(header[6]) << 8) |
+            static_cast<unsigned char>(header[7]);
         Alembic::Util::uint64_t groupPos =
             *((Alembic::Util::uint64_t *)(&(header[8])));
 
-- 
2.43.0


From 7d292d7c21f79c2d90e35b5f1b2e987c71e86b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:38 +0000
Subject: [PATCH 25/49] fix: FrustumFieldMappingIO: read the number of samples
 from Ogawa files

---
 src/FieldMappingIO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FieldMappingIO.cpp b/src/FieldMappingIO.cpp
index 5912074..f51a8f9 100644
--- a/src/FieldMappingIO.cpp
+++ b/src/FieldMappingIO.cpp
@@ -427,6 +427,7 @@ FrustumFieldMappingIO::read(const OgIGroup &mappingGroup)
                  k_frustumMappingNumSamples);
       return FieldMapping::Ptr();
     }
+    numSamples = numSamplesAttr.value();
   } catch (...) {
     //do nothing
   }
-- 
2.43.0


From 977cd320882bae44b7ed03ba944370608e095093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:02 +0000
Subject: [PATCH 26/49] fix: OgIGroup::findAttribute: find attributes of
 different types under one name

---
 include/OgIGroup.h |  8 +++++++-
 src/OgIGroup.cpp   | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/include/OgIGroup.h b/include/OgIGroup.h
index d9e3875..62aea01 100644
--- a/include/OgIGroup.h
+++ b/include/OgIGroup.h
@@ -101,6 +101,11 @@ private:
   Alembic::Ogawa::IGroupPtr findGroup(const std::string &name,
                                       const OgGroupType groupType) const;
 
+  //! Finds the ogawa-level group of an attribute of the given data type. 
+  //! Attributes of different data types may share a name.
+  Alembic::Ogawa::IGroupPtr findAttributeGroup(const std::string &name,
+                                               const OgDataType dataType) const;
+
   //! Recursively finds an ogawa-level group
   Alembic::Ogawa::IGroupPtr recursiveFindGroup
   (const std::string &name, const OgGroupType groupType) const;
@@ -120,7 +125,8 @@ private:
 template <typename T>
 OgIAttribute<T> OgIGroup::findAttribute(const std::string &name) const
 {
-  Alembic::Ogawa::IGroupPtr group = findGroup(name, F3DAttributeType);
+  Alembic::Ogawa::IGroupPtr group = 
+    findAttributeGroup(name, OgawaTypeTraits<T>::typeEnum());
 
   if (group) {
     return OgIAttribute<T>(group);
diff --git a/src/OgIGroup.cpp b/src/OgIGroup.cpp
index 7740afc..15704d7 100644
--- a/src/OgIGroup.cpp
+++ b/src/OgIGroup.cpp
@@ -133,6 +133,39 @@ OgIGroup::findGroup(const std::string &path,
 
 //----------------------------------------------------------------------------//
 
+Alembic::Ogawa::IGroupPtr 
+OgIGroup::findAttributeGroup(const std::string &name,
+                             const OgDataType dataType) const
+{
+  // If not valid, return non-valid group
+  if (!isValid()) {
+    return Alembic::Ogawa::IGroupPtr();
+  }
+  // Check all children
+  for (size_t i = OGAWA_START_ID, end = m_group->getNumChildren(); 
+       i < end; ++i) {
+    // Is it an Ogawa group? If not, continue
+    if (!m_group->isChildGroup(i)) {
+      continue;
+    }
+    // Grab the ogawa group
+    Alembic::Ogawa::IGroupPtr group = 
+      m_group->getGroup(i, false, OGAWA_THREAD);
+    // Check name, group type and data type
+    std::string groupName;
+    OgGroupType type;
+    if (readString(group, 0, groupName) && groupName == name &&
+        readData(group, 1, type) && type == F3DAttributeType &&
+        readDataType(group, 2) == dataType) {
+      return group;
+    }
+  }
+  // Not a child of this group. The name may be a path
+  return findGroup(name, F3DAttributeType);
+}
+
+//----------------------------------------------------------------------------//
+
 Alembic::Ogawa::IGroupPtr 
 OgIGroup::recursiveFindGroup(const std::string &path,
                              const OgGroupType groupType) const
-- 
2.43.0


From 6e4b6c814348e7b2ef5190f31dd361cc4820b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 27/49] fix: DenseFieldIO: fields of one scalar voxel can be
 written to HDF5

---
 src/DenseFieldIO.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DenseFieldIO.cpp b/src/DenseFieldIO.cpp
index c001273..191f415 100644
--- a/src/DenseFieldIO.cpp
+++ b/src/DenseFieldIO.cpp
@@ -390,7 +390,9 @@ bool DenseFieldIO::writeInternal(hid_t layerGroup,
 
   // Make sure chunk size isn't too big.
   hsize_t preferredChunkSize = 4096 * 16;
-  const hsize_t chunkSize = std::min(preferredChunkSize, totalSize[0] / 2);
+  const hsize_t chunkSize = 
+    std::max(static_cast<hsize_t>(1), 
+             std::min(preferredChunkSize, totalSize[0] / 2));
 
   Box3i ext(field->extents()), dw(field->dataWindow());
 
-- 
2.43.0


From 23fd2e81781149701986a799db3e45d9864d379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 28/49] fix: Field3DOutputFile::writeLayer: report fields that
 could not be written

---
 src/Field3DFile.cpp | 6 +++++-
 src/MACFieldIO.cpp  | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index e6caced..5ccaee4 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -1500,7 +1500,11 @@ bool Field3DOutputFile::writeLayer(const std::string &userPartitionName,
   writeMetadata(ogMetadata, field);
 
   // Write field data
-  writeField(ogLayer, field);
+  if (!writeField(ogLayer, field)) {
+    Msg::print(Msg::SevWarning, "Couldn't write field data for layer: " + 
+               layerName);
+    return false;
+  }
 
   // Add to partition
 
diff --git a/src/MACFieldIO.cpp b/src/MACFieldIO.cpp
index fd48105..022dff2 100644
--- a/src/MACFieldIO.cpp
+++ b/src/MACFieldIO.cpp
@@ -206,7 +206,8 @@ MACFieldIO::write(hid_t layerGroup, FieldBase::Ptr field)
 bool
 MACFieldIO::write(OgOGroup & /* layerGroup */ , FieldBase::Ptr /* field */)
 {
-  return true;
+  // MAC fields are not supported in Ogawa files
+  return false;
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 2c4a6e4565caf53721244f88853eea4a04f52871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 29/49] fix: Field3DFile: reusing a file object starts from
 scratch

---
 src/Field3DFile.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Field3DFile.cpp b/src/Field3DFile.cpp
index 5ccaee4..65a47f2 100644
--- a/src/Field3DFile.cpp
+++ b/src/Field3DFile.cpp
@@ -715,6 +715,11 @@ bool Field3DInputFile::open(const string &filename)
 {
   clear();
 
+  // Nothing from a previously opened file may remain
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  m_metadata = FieldMetadata(this);
+
   bool success = true;
 
   // Record filename
@@ -976,6 +981,12 @@ Field3DOutputFile::~Field3DOutputFile()
 
 bool Field3DOutputFile::create(const string &filename, CreateMode cm)
 {
+  // Nothing from a previously created file may remain
+  clear();
+  m_hdf5.reset();
+  m_hdf5Base.reset();
+  m_partitionCount.clear();
+
   if (!ms_doOgawa) {
     m_hdf5.reset(new Field3DOutputFileHDF5);
     m_hdf5Base = m_hdf5;
-- 
2.43.0


From c1b67148f4abf2e4928a9de0b5fb12f7d777fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:58 +0000
Subject: [PATCH 30/49] fix: SparseField: replacing the blocks of a
 demand-loaded field detaches it from the cache

---
 export/SparseField.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index cc30f18..1ad9f7a 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -588,6 +588,7 @@ public:
   {
     // Call base class
     base::sizeChanged();
+    detachFromCache();
     setupBlocks();
   }
 
@@ -599,6 +600,10 @@ public:
   //! Initializes the block structure. Will clear any existing data
   void setupBlocks();
 
+  //! Removes the field's blocks from the dynamic loading cache (if they are
+  //! managed by it). Must be called before the blocks are replaced.
+  void detachFromCache();
+
   //! Deallocated the data of the given block and sets its empty value
   void deallocBlock(Block &block, const Data_T &emptyValue);
 
@@ -1291,7 +1296,8 @@ SparseField<Data_T>::SparseField()
   : base(),
     m_blockOrder(BLOCK_ORDER),
     m_blocks(NULL),
-    m_fileManager(NULL)
+    m_fileManager(NULL),
+    m_fileId(-1)
 {
   setupBlocks();
 }
@@ -1303,7 +1309,8 @@ SparseField<Data_T>::SparseField(const SparseField<Data_T> &o)
  : base(o),
    m_blockOrder(o.m_blockOrder),
    m_blocks(NULL),
-   m_fileManager(o.m_fileManager)
+   m_fileManager(NULL),
+   m_fileId(-1)
 {
   copySparseField(o);
 }
@@ -1332,6 +1339,7 @@ SparseField<Data_T>::operator=(const SparseField<Data_T> &o)
 {
   if (this != &o) {
     this->base::operator=(o);
+    detachFromCache();
     copySparseField(o);
   }
   return *this;
@@ -1339,6 +1347,18 @@ SparseField<Data_T>::operator=(const SparseField<Data_T> &o)
 
 //----------------------------------------------------------------------------//
 
+template <class Data_T>
+void SparseField<Data_T>::detachFromCache()
+{
+  if (m_fileManager && m_fileId >= 0) {
+    m_fileManager->removeFieldFromCache<Data_T>(m_fileId);
+  }
+  m_fileManager = NULL;
+  m_fileId = -1;
+}
+
+//----------------------------------------------------------------------------//
+
 template <class Data_T>
 void
 SparseField<Data_T>::copySparseField(const SparseField<Data_T> &o)
@@ -1455,6 +1475,7 @@ template <class Data_T>
 void SparseField<Data_T>::clear(const Data_T &value)
 {
   // If we're clearing, we can get rid of all current blocks
+  detachFromCache();
   setupBlocks();
   Block *p = m_blocks, *end = m_blocks + m_numBlocks;
   while (p != end) {
@@ -1469,6 +1490,7 @@ template <class Data_T>
 void SparseField<Data_T>::setBlockOrder(int order)
 {
   m_blockOrder = order;
+  detachFromCache();
   setupBlocks();
 }
 
-- 
2.43.0


From 4aebfab8fd12613b37ae5b7e361b33aec5e3868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 31/49] fix: SparseField::const_iterator: copies hold their own
 block reference

---
 export/SparseField.h | 56 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/export/SparseField.h b/export/SparseField.h
index 1ad9f7a..cf6f898 100644
--- a/export/SparseField.h
+++ b/export/SparseField.h
@@ -911,12 +911,47 @@ class SparseField<Data_T>::const_iterator
     m_manager = m_field->m_fileManager;
     setupNextBlock(x, y, z);
   }
-  ~const_iterator() {
-    if (m_manager && m_blockId >= 0 &&
-        m_blockId < static_cast<int>(m_field->m_numBlocks)) {
-      if (m_field->m_blocks[m_blockId].isAllocated)
+  const_iterator(const const_iterator &o)
+    : x(o.x), y(o.y), z(o.z),
+      m_p(o.m_p), m_isEmptyBlock(o.m_isEmptyBlock), 
+      m_blockIsActivated(o.m_blockIsActivated),
+      m_blockStepsTicker(o.m_blockStepsTicker), m_blockOrder(o.m_blockOrder),
+      m_blockI(o.m_blockI), m_blockJ(o.m_blockJ), m_blockK(o.m_blockK),
+      m_blockId(o.m_blockId), m_window(o.m_window), m_field(o.m_field),
+      m_manager(o.m_manager)
+  {
+    if (holdsBlockRef())
+      m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+  }
+  const_iterator& operator = (const const_iterator &o)
+  {
+    if (this != &o) {
+      if (o.holdsBlockRef())
+        o.m_manager->template incBlockRef<Data_T>(o.m_field->m_fileId, 
+                                                  o.m_blockId);
+      if (holdsBlockRef())
         m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+      x = o.x; 
+      y = o.y; 
+      z = o.z;
+      m_p = o.m_p;
+      m_isEmptyBlock = o.m_isEmptyBlock;
+      m_blockIsActivated = o.m_blockIsActivated;
+      m_blockStepsTicker = o.m_blockStepsTicker;
+      m_blockOrder = o.m_blockOrder;
+      m_blockI = o.m_blockI; 
+      m_blockJ = o.m_blockJ; 
+      m_blockK = o.m_blockK;
+      m_blockId = o.m_blockId;
+      m_window = o.m_window;
+      m_field = o.m_field;
+      m_manager = o.m_manager;
     }
+    return *this;
+  }
+  ~const_iterator() {
+    if (holdsBlockRef())
+      m_manager->decBlockRef<Data_T>(m_field->m_fileId, m_blockId);
   }
   const const_iterator& operator ++ ()
   {
@@ -1002,6 +1037,14 @@ private:
 
   // Convenience methods -------------------------------------------------------
 
+  //! Whether this iterator holds a reference to its (managed) block
+  bool holdsBlockRef() const
+  {
+    return m_manager && m_blockId >= 0 &&
+      m_blockId < static_cast<int>(m_field->m_numBlocks) &&
+      m_field->m_blocks[m_blockId].isAllocated;
+  }
+
   void setupNextBlock(int i, int j, int k)
   {
     m_field->applyDataWindowOffset(i, j, k);
@@ -1024,8 +1067,9 @@ private:
     m_field->getVoxelInBlock(i, j, k, vi, vj, vk);
     m_blockStepsTicker = vi;
     if (block.isAllocated) {
-      if (m_manager && oldBlockId != m_blockId && m_blockId >= 0) {
-        m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
+      if (m_manager) {
+        if (oldBlockId != m_blockId && m_blockId >= 0)
+          m_manager->incBlockRef<Data_T>(m_field->m_fileId, m_blockId);
         // this is a managed field, so the block may not be loaded
         // yet, so don't bother setting m_p yet (it'll get set in the
         // * and -> operators when the block is activated)
-- 
2.43.0


From ec63e1a649a5d1416de9aa4eb1297b190e5e7a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:43 +0000
Subject: [PATCH 32/49] fix: SparseFileManager::deallocateBlocks: stop when
 every cached block is in use

---
 src/SparseFile.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/SparseFile.cpp b/src/SparseFile.cpp
index 4110a0e..1430f8f 100644
--- a/src/SparseFile.cpp
+++ b/src/SparseFile.cpp
@@ -161,8 +161,12 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
 {
   boost::mutex::scoped_lock lock_A(m_mutex);
 
+  // Each unused block gets a second chance, so once two full passes over the
+  // cache haven't freed anything, all blocks are in use.
+  size_t stepsLeft = 2 * m_blockCacheList.size();
+
   while (m_blockCacheList.begin() != m_blockCacheList.end() &&
-         m_maxMemUseInBytes-m_memUse < bytesNeeded) {
+         m_maxMemUseInBytes-m_memUse < bytesNeeded && stepsLeft-- > 0) {
 
     if (m_nextBlock == m_blockCacheList.end())
       m_nextBlock = m_blockCacheList.begin();
@@ -177,36 +181,42 @@ void SparseFileManager::deallocateBlocks(int64_t bytesNeeded)
     case DataTypeHalf:
       bytesFreed = deallocateBlock<half>(cb);
       if (bytesFreed > 0) {
+        stepsLeft = 2 * m_blockCacheList.size();
         continue;
       }
       break;
     case DataTypeFloat:
       bytesFreed = deallocateBlock<float>(cb);
       if (bytesFreed > 0) {
+        stepsLeft = 2 * m_blockCacheList.size();
         continue;
       }
       break;
     case DataTypeDouble:
       bytesFreed = deallocateBlock<double>(cb);
       if (bytesFreed > 0) {
+        stepsLeft = 2 * m_blockCacheList.size();
         continue;
       }
       break;
     case DataTypeVecHalf:
       bytesFreed = deallocateBlock<V3h>(cb);
       if (bytesFreed > 0) {
+        stepsLeft = 2 * m_blockCacheList.size();
         continue;
       }
       break;
     case DataTypeVecFloat:
       bytesFreed = deallocateBlock<V3f>(cb);
       if (bytesFreed > 0) {
+        stepsLeft = 2 * m_blockCacheList.size();
         continue;
       }
       break;
     case DataTypeVecDouble:
       bytesFreed = deallocateBlock<V3d>(cb);
       if (bytesFreed > 0) {
+        stepsLeft = 2 * m_blockCacheList.size();
         continue;
       }
       break;
-- 
2.43.0


From 938b2e8f186a9dd4092ecfe6569d75a23b99e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 33/49] fix: resample, makeMIP: target voxels that aren't
 written to are zero

---
 export/MIPUtil.h  | 2 ++
 export/Resample.h | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index ab15b7b..73b3ce7 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -373,6 +373,8 @@ namespace detail {
 
     // Resize new field
     tgt.setSize(res);
+    // Voxels that aren't written to are zero
+    tgt.clear(typename Field_T::value_type(0.0f));
     
     // Determine granularity
     const size_t blockSize = threadingBlockSize(src);
diff --git a/export/Resample.h b/export/Resample.h
index dd3abe9..1b29767 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -424,8 +424,9 @@ namespace detail {
     // Check if we're up-res'ing
     const bool doUpres = newRes[dim] > srcRes[dim] ? 1 : 0;
 
-    // Resize the target
+    // Resize the target, and make sure voxels that aren't written to are zero
     tgt.setSize(newRes);
+    tgt.clear(T(0.0f));
 
     // For each output voxel
     for (int k = 0; k < newRes.z; ++k) {
-- 
2.43.0


From b96c740986c6ad9f74b1c6419ce73893cdf51e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 34/49] fix: MIP offsets: don't shift negative values to the
 left

---
 export/MIPField.h | 6 +++---
 src/MIPUtil.cpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/export/MIPField.h b/export/MIPField.h
index 51342f2..9132fd4 100644
--- a/export/MIPField.h
+++ b/export/MIPField.h
@@ -602,9 +602,9 @@ void MIPField<Field_T>::getVsMIPCoord(const V3f &vsP, const size_t level,
   const V3i &mipOff = base::mipOffset();
 
   // Compute offset of current level 
-  const V3i offset((mipOff.x >> level) << level, 
-                   (mipOff.y >> level) << level, 
-                   (mipOff.z >> level) << level);
+  const V3i offset((mipOff.x >> level) * (1 << level), 
+                   (mipOff.y >> level) * (1 << level), 
+                   (mipOff.z >> level) * (1 << level));
 
   // Difference between current offset and base offset is num voxels
   // to offset current level by 
diff --git a/src/MIPUtil.cpp b/src/MIPUtil.cpp
index 886d6b8..6fa6d98 100644
--- a/src/MIPUtil.cpp
+++ b/src/MIPUtil.cpp
@@ -94,9 +94,9 @@ namespace detail {
     const V3i   res    = extents.size() + V3i(1);
       
     // Compute offset of current level 
-    const V3i offset((mipOff.x >> level) << level, 
-                     (mipOff.y >> level) << level, 
-                     (mipOff.z >> level) << level);
+    const V3i offset((mipOff.x >> level) * (1 << level), 
+                     (mipOff.y >> level) * (1 << level), 
+                     (mipOff.z >> level) * (1 << level));
 
     // Difference between current offset and base offset is num voxels
     // to offset current level by 
-- 
2.43.0


From e917d796145572c3fdc4ff4448c48bfa6e41726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:11 +0000
Subject: [PATCH 35/49] fix: makeMIP: refuse bases whose window doesn't start
 at zero

---
 export/MIPUtil.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 73b3ce7..c021390 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -500,7 +500,9 @@ makeMIP(const typename MIPField_T::NestedType &base, const int minSize,
   typedef typename MIPField_T::Ptr           MIPPtr;
   typedef std::vector<typename Src_T::Ptr>   SrcVec;
 
-  if (base.extents() != base.dataWindow()) {
+  // Filtering assumes that the base starts at the origin
+  if (base.extents() != base.dataWindow() || 
+      base.dataWindow().min != V3i(0)) {
     return MIPPtr();
   }
   
-- 
2.43.0


From bbfe0500329f2c419870096542d9293553b0959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 36/49] fix: makeMIP: levels of pyramids with an offset cover
 the whole previous level

---
 export/MIPUtil.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index c021390..12cefb4 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -432,15 +432,14 @@ namespace detail {
                   (offset.y % 2 == 0) ? 0 : 1,
                   (offset.z % 2 == 0) ? 0 : 1);
 
-    // Compute new res
-    const Box3i baseDw  = base.dataWindow();
-    const V3i   baseRes = baseDw.size() + V3i(1);
-    const V3i   newRes  = mipResolution(baseRes, level, add);
-
     // Source res
     const Box3i srcDw  = src.dataWindow();
     const V3i   srcRes = srcDw.size() + V3i(1);
 
+    // Compute new res. The (possibly padded) source must be covered entirely,
+    // including the padding that earlier levels may have added
+    const V3i   newRes = mipResolution(srcRes + add, 1, V3i(0));
+
     // Temporary field for y component
     Field_T tmp;
 
-- 
2.43.0


From 1eb78c0af9e9ac98bbfcda79d3a584fa507393c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:15 +0000
Subject: [PATCH 37/49] fix: makeMIP: threads don't share the sparse blocks of
 the target

---
 export/MIPUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index 12cefb4..fbecc83 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -377,7 +377,8 @@ namespace detail {
     tgt.clear(typename Field_T::value_type(0.0f));
     
     // Determine granularity
-    const size_t blockSize = threadingBlockSize(src);
+    // ... based on the target, so that no two threads write to the same block
+    const size_t blockSize = threadingBlockSize(tgt);
 
     // Build block list
     std::vector<Box3i> blocks;
-- 
2.43.0


From 7ab56863b4b92dad237c792754d8a7c51712f60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:18 +0000
Subject: [PATCH 38/49] fix: makeMIP: blocks under the filter's support are not
 skipped as empty

---
 export/MIPUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/export/MIPUtil.h b/export/MIPUtil.h
index fbecc83..8ddb03b 100644
--- a/export/MIPUtil.h
+++ b/export/MIPUtil.h
@@ -138,7 +138,8 @@ namespace detail {
                        const Box3i &tgtBox, const float support,
                        const size_t dim)
   {
-    const int intSupport = static_cast<int>(std::ceil(support * 0.5));
+    // Support is in target space
+    const int intSupport = static_cast<int>(std::ceil(support));
     const int pad        = std::max(0, intSupport);
     Box3i     tgtBoxPad  = tgtBox;
     tgtBoxPad.min[dim]  -= pad;
-- 
2.43.0


From 9cc6e940e06976e55eaa79384f608348308a712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 39/49] fix: FieldGroup::sampleMultiple/sampleMIPMultiple count
 hits per point (they did not compile)

---
 export/FieldGroup.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 6266d18..ded647d 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -765,9 +765,10 @@ FieldGroup<BaseTypeList_T, Dims_T>::sampleMultiple(const size_t n,
                                                    const float *wsP,
                                                    float *result) const
 {
-  size_t numHits = 0;
+  // One hit counter per point
+  std::vector<size_t> numHits(n + 1, 0);
 
-  SampleMultiple op(n, wsP, result, numHits);
+  SampleMultiple op(n, wsP, result, &numHits[0]);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
 }
@@ -797,9 +798,10 @@ FieldGroup<BaseTypeList_T, Dims_T>::sampleMIPMultiple(const size_t n,
                                                       const float *wsSpotSize, 
                                                       float *result) const
 {
-  size_t numHits = 0;
+  // One hit counter per point
+  std::vector<size_t> numHits(n + 1, 0);
 
-  SampleMIPMultiple op(n, wsP, wsSpotSize, result, numHits);
+  SampleMIPMultiple op(n, wsP, wsSpotSize, result, &numHits[0]);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
 }
-- 
2.43.0


From be7ea37354f458e09ad02e14eb9e41c20c0ce828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 40/49] fix: FieldGroup::intersects compiles

---
 export/FieldGroup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index ded647d..e207cc1 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -1458,7 +1458,7 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::PointIsect
 private:
   // Data members
   V3d  m_wsP;
-  bool m_doesIntersect;
+  mutable bool m_doesIntersect;
 };
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From d18a26273ba5c746522785d2b00e9dbb223b9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 41/49] fix: MIPFieldWrapper: the world bounds optimization
 starts switched off

---
 export/FieldWrapper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/export/FieldWrapper.h b/export/FieldWrapper.h
index b54c2b8..8be2423 100644
--- a/export/FieldWrapper.h
+++ b/export/FieldWrapper.h
@@ -168,6 +168,7 @@ struct MIPFieldWrapper
       vsBounds(continuousBounds(f->dataWindow())),
       worldScale(1.0), 
       doOsToWs(false),
+      doWsBoundsOptimization(false),
       valueRemapOp(NULL)
   { 
     interp = interpPtr.get();
-- 
2.43.0


From bef01b567b1b0960f4336a4e423cd70b14389687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 42/49] fix: FieldSampler::getMinMax: a field outside the box
 doesn't end the query

---
 export/FieldSampler.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/export/FieldSampler.h b/export/FieldSampler.h
index d6ab3b2..4816c53 100644
--- a/export/FieldSampler.h
+++ b/export/FieldSampler.h
@@ -339,9 +339,9 @@ struct FieldSampler
           worldToVoxel(f[field].mapping, wsBounds, vsBounds);
         }
         dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
-        // Early termination if no intersection
+        // Skip the field if no intersection
         if (!dw.intersects(dvsBounds)) {
-          return;
+          continue;
         }
       }
       for (int k = dvsBounds.min.z; k <= dvsBounds.max.z; ++k) {
@@ -381,9 +381,9 @@ struct FieldSampler
           worldToVoxel(f[field].mapping, wsBounds, vsBounds);
         }
         dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
-        // Early termination if no intersection
+        // Skip the field if no intersection
         if (!dw.intersects(dvsBounds)) {
-          return;
+          continue;
         }
       }
       for (int k = dvsBounds.min.z; k <= dvsBounds.max.z; ++k) {
-- 
2.43.0


From 79acf3e6d21332adb455a383444916e5041ee7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 43/49] fix: FieldSampler::getMinMax: include the voxels that
 interpolation reads below the box

---
 export/FieldSampler.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/export/FieldSampler.h b/export/FieldSampler.h
index 4816c53..1f20b7e 100644
--- a/export/FieldSampler.h
+++ b/export/FieldSampler.h
@@ -89,6 +89,15 @@ struct FieldSampler
   typedef typename Field_T::value_type                  Data_T;
   typedef typename detail::ScalarOrVector<Dims_T>::type Input_T;
 
+  //! Voxels that interpolation at the points of the given voxel space bounds
+  //! can read.
+  static Box3i interpBounds(const Box3d &vsBounds)
+  {
+    // Interpolation reads the voxel centers on both sides of a point, i.e.
+    // half a voxel further down than the voxel the point is in.
+    return discreteBounds(Box3d(vsBounds.min - V3d(0.5), vsBounds.max));
+  }
+
   // Ordinary fields
   static void sample(const WrapperVec_T &f, const V3d &wsP, float *value, 
                      size_t &numHits)
@@ -338,7 +347,7 @@ struct FieldSampler
         } else {
           worldToVoxel(f[field].mapping, wsBounds, vsBounds);
         }
-        dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
+        dvsBounds = clipBounds(interpBounds(vsBounds), dw);
         // Skip the field if no intersection
         if (!dw.intersects(dvsBounds)) {
           continue;
@@ -380,7 +389,7 @@ struct FieldSampler
         } else {
           worldToVoxel(f[field].mapping, wsBounds, vsBounds);
         }
-        dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
+        dvsBounds = clipBounds(interpBounds(vsBounds), dw);
         // Skip the field if no intersection
         if (!dw.intersects(dvsBounds)) {
           continue;
@@ -433,7 +442,7 @@ struct FieldSampler
             worldToVoxel(f[field].field->mipLevel(level)->mapping().get(), 
                          wsBounds, vsBounds);
           }
-          dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
+          dvsBounds = clipBounds(interpBounds(vsBounds), dw);
           // If size of dvsBounds is <= 2, stop
           Imath::V3i size = dvsBounds.size();
           if (std::max(size.x, std::max(size.y, size.z)) <= 2) {
-- 
2.43.0


From 92e1cd689bcb52eef36b0c757b95079694544432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:11 +0000
Subject: [PATCH 44/49] fix: FieldGroup: MemSize::result returns the size
 (header did not compile with clang)

---
 export/FieldGroup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index e207cc1..4bcf394 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -1415,7 +1415,7 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::MemSize
   }
   //! Result
   long long int result() const
-  { return m_memSize; }
+  { return *m_memSize; }
   // Data members
   long long int *m_memSize;
 };
-- 
2.43.0


From 29be24391e3ccc9acb5b34f81042c017799433dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:57 +0000
Subject: [PATCH 45/49] fix: FieldGroup: field counts survive fusion::for_each
 copying its functor

---
 export/FieldGroup.h | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 4bcf394..7367d16 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -602,12 +602,13 @@ FieldGroup<BaseTypeList_T, Dims_T>::setupMinMax
     fusion::for_each(m_mipSparseMax, op);
   }
   // Check if we have pre-filtered fields
-  CountFields countMinOp, countMaxOp;
+  size_t countMin = 0, countMax = 0;
+  CountFields countMinOp(countMin), countMaxOp(countMax);
   fusion::for_each(m_mipDenseMin, countMinOp);
   fusion::for_each(m_mipDenseMax, countMaxOp);
   fusion::for_each(m_mipSparseMin, countMinOp);
   fusion::for_each(m_mipSparseMax, countMaxOp);
-  if (countMinOp.count > 0 && countMaxOp.count > 0) {
+  if (countMin > 0 && countMax > 0) {
     m_hasPrefiltMinMax = true;
   }
 }
@@ -688,12 +689,13 @@ template <typename BaseTypeList_T, int Dims_T>
 size_t 
 FieldGroup<BaseTypeList_T, Dims_T>::size() const
 {
-  CountFields op;
+  size_t count = 0;
+  CountFields op(count);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
-  return op.count;
+  return count;
 }
 
 //------------------------------------------------------------------------------
@@ -702,10 +704,11 @@ template <typename BaseTypeList_T, int Dims_T>
 size_t 
 FieldGroup<BaseTypeList_T, Dims_T>::sizeMIP() const
 {
-  CountFields op;
+  size_t count = 0;
+  CountFields op(count);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
-  return op.count;
+  return count;
 }
 
 //------------------------------------------------------------------------------
@@ -979,15 +982,15 @@ template <typename BaseTypeList_T, int Dims_T>
 struct FieldGroup<BaseTypeList_T, Dims_T>::CountFields
 {
   //! Ctor
-  CountFields()
-    : count(0)
+  CountFields(size_t &count)
+    : m_count(count)
   { }
   //! Functor
   template <typename T>
   void operator()(const T &vec) const
-  { count += vec.size(); }
+  { m_count += vec.size(); }
   // Data members
-  mutable int count;
+  size_t &m_count;
 };
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From e93c2474f3ab133298590ac41359214f59c20966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:58 +0000
Subject: [PATCH 46/49] fix: FieldGroup::intersects reports a hit

---
 export/FieldGroup.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/export/FieldGroup.h b/export/FieldGroup.h
index 7367d16..5caea28 100644
--- a/export/FieldGroup.h
+++ b/export/FieldGroup.h
@@ -830,12 +830,13 @@ template <typename BaseTypeList_T, int Dims_T>
 bool
 FieldGroup<BaseTypeList_T, Dims_T>::intersects(const V3d &wsP) const
 {
-  PointIsect op(wsP);
+  bool doesIntersect = false;
+  PointIsect op(wsP, doesIntersect);
   fusion::for_each(m_dense, op);
   fusion::for_each(m_sparse, op);
   fusion::for_each(m_mipDense, op);
   fusion::for_each(m_mipSparse, op);
-  return op.result();
+  return doesIntersect;
 }
 
 //------------------------------------------------------------------------------
@@ -1429,8 +1430,8 @@ template <typename BaseTypeList_T, int Dims_T>
 struct FieldGroup<BaseTypeList_T, Dims_T>::PointIsect
 {
   //! Ctor
-  PointIsect(const V3d &wsP)
-    : m_wsP(wsP), m_doesIntersect(false)
+  PointIsect(const V3d &wsP, bool &doesIntersect)
+    : m_wsP(wsP), m_doesIntersect(doesIntersect)
   { }
   //! Functor
   template <typename T>
@@ -1461,7 +1462,7 @@ struct FieldGroup<BaseTypeList_T, Dims_T>::PointIsect
 private:
   // Data members
   V3d  m_wsP;
-  mutable bool m_doesIntersect;
+  bool &m_doesIntersect;
 };
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From 4a3c990a5abb875a6c108db96c3982c2c8789528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 47/49] fix: resample: fields one voxel thick are resampled

---
 export/Resample.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/export/Resample.h b/export/Resample.h
index 1b29767..9ce38d1 100644
--- a/export/Resample.h
+++ b/export/Resample.h
@@ -516,7 +516,7 @@ namespace detail {
   
     typedef typename Field_T::value_type T;
 
-    if (!src.dataWindow().hasVolume()) {
+    if (src.dataWindow().isEmpty()) {
       return false;
     }
 
-- 
2.43.0


From 9f279533a55bf932f8b5677750f6341464b6cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:06 +0000
Subject: [PATCH 48/49] fix: prefiltered min/max left out voxels that
 interpolation inside the box reads when the finest level is slightly coarser
 than the field

---
 export/FieldSampler.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/export/FieldSampler.h b/export/FieldSampler.h
index 1f20b7e..1127a08 100644
--- a/export/FieldSampler.h
+++ b/export/FieldSampler.h
@@ -442,7 +442,12 @@ struct FieldSampler
             worldToVoxel(f[field].field->mipLevel(level)->mapping().get(), 
                          wsBounds, vsBounds);
           }
-          dvsBounds = clipBounds(interpBounds(vsBounds), dw);
+          // Interpolating the original field reads voxels up to one voxel away,
+          // i.e. at most one voxel of the (smaller) finest prefiltered level
+          const V3d pad(1.0 / (static_cast<size_t>(1) << level));
+          vsBounds.min -= pad;
+          vsBounds.max += pad;
+          dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
           // If size of dvsBounds is <= 2, stop
           Imath::V3i size = dvsBounds.size();
           if (std::max(size.x, std::max(size.y, size.z)) <= 2) {
-- 
2.43.0


From d9af35b99c2aa392c40fe47cdc13224138979755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 49/49] fix: prefiltered min/max pads by a fine voxel in the
 actual level sizes

Level sizes are rounded up, so a voxel of the finest level may be more than
1/2^level of a voxel of a coarser level (3 voxels become 2).
---
 export/FieldSampler.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/export/FieldSampler.h b/export/FieldSampler.h
index 1127a08..a86443e 100644
--- a/export/FieldSampler.h
+++ b/export/FieldSampler.h
@@ -443,8 +443,11 @@ struct FieldSampler
                          wsBounds, vsBounds);
           }
           // Interpolating the original field reads voxels up to one voxel away,
-          // i.e. at most one voxel of the (smaller) finest prefiltered level
-          const V3d pad(1.0 / (static_cast<size_t>(1) << level));
+          // i.e. at most one voxel of the (smaller) finest prefiltered level.
+          // Level sizes are rounded, so measure that voxel in the actual sizes
+          const Box3i fineDw = f[field].field->mipLevel(0)->dataWindow();
+          const V3d pad = V3d(dw.size() + V3i(1)) / 
+            V3d(fineDw.size() + V3i(1));
           vsBounds.min -= pad;
           vsBounds.max += pad;
           dvsBounds = clipBounds(discreteBounds(vsBounds), dw);
-- 
2.43.0

