From 7c3019cafb1e720425766e8789f1464bfe5e35d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:36 +0000
Subject: [PATCH 001/104] fix: undefined or far-away positions gave values of
 grid-cell 0

lround(NaN) and positions beyond the range of int were truncated to a
valid index (usually 0), so the horizontal interpolations returned values
from inside the grid, or read out of bounds.
---
 src/interpolation.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/interpolation.c b/src/interpolation.c
index 89e808e..3c6dca4 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -248,8 +248,27 @@ static inline double mifi_great_circle_angle(double lat0, double lon0, double la
     return acos(sin(lat0)*sin(lat1) + cos(lat0)*cos(lat1)*cos(lon1-lon0));
 }
 
+/*
+ * positions which are not a number or at least one gridcell outside the grid cannot be used
+ * (and might not be representable as int)
+ */
+static inline int mifi_outside_grid(double x, double y, int ix, int iy)
+{
+    return !(x > -1 && x < ix && y > -1 && y < iy);
+}
+
+static int mifi_undefined_values_f(float* outvalues, int iz)
+{
+    for (int z = 0; z < iz; ++z) {
+        outvalues[z] = MIFI_UNDEFINED_F;
+    }
+    return MIFI_OK;
+}
+
 int mifi_get_values_f(const float* infield, float* outvalues, const double x, const double y, const int ix, const int iy, const int iz)
 {
+    if (mifi_outside_grid(x, y, ix, iy))
+        return mifi_undefined_values_f(outvalues, iz);
     int rx = lround(x);
     int ry = lround(y);
     if (rx >= 0 && rx < ix && ry >= 0 && ry < iy) { // pos in range
@@ -266,6 +285,8 @@ int mifi_get_values_f(const float* infield, float* outvalues, const double x, co
 
 int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const double x, const double y, const int ix, const int iy, const int iz)
 {
+    if (mifi_outside_grid(x, y, ix, iy))
+        return mifi_undefined_values_f(outvalues, iz);
     int x0 = (int) floor(x);
     int x1 = x0 + 1;
     float xfrac = x - x0;
@@ -344,6 +365,8 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
 
 int mifi_get_values_bicubic_f(const float* infield, float* outvalues, const double x, const double y, const int ix, const int iy, const int iz)
 {
+    if (mifi_outside_grid(x, y, ix, iy))
+        return mifi_undefined_values_f(outvalues, iz);
     // convolution matrix for a = -0.5
     double M[4][4] = {{ 0, 2, 0, 0},
                       {-1, 0, 1, 0},
-- 
2.43.0


From 2790901e6cc99b896c5c6b99f6faf013305e34ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:36 +0000
Subject: [PATCH 002/104] fix: out of bounds read in bilinear interpolation at
 the upper corner

A position rounding to y == ny (nearest neighbor in both directions) was
accepted, reading past the last row instead of giving undefined.
---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 3c6dca4..2c20eb6 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -340,7 +340,7 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
                 }
             } else {
                 y0 = lround(y);
-                if ((0 <= y0) && (y0 <= iy)) {
+                if ((0 <= y0) && (y0 < iy)) {
                     // nearest neighbor in y
                     size_t pos = mifi_3d_array_pos(x0, y0, 0, ix, iy, iz);
                     for (int z = 0; z < iz; ++z) {
-- 
2.43.0


From 69c037f1554e997cbe5c1107eae460cd729e15bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:36 +0000
Subject: [PATCH 003/104] fix: method name forward_undef_min selected
 forward_min

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 2c20eb6..a7661fb 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -101,7 +101,7 @@ int mifi_string_to_interpolation_method(const char* mString)
     } else if (mifi_string_equal("forward_undef_max", mString)) {
         method = MIFI_INTERPOL_FORWARD_UNDEF_MAX;
     } else if (mifi_string_equal("forward_undef_min", mString)) {
-        method = MIFI_INTERPOL_FORWARD_MIN;
+        method = MIFI_INTERPOL_FORWARD_UNDEF_MIN;
     }
     return method;
 }
-- 
2.43.0


From 267be6c5037ef096e2c3b030833aabde4193da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:29 +0000
Subject: [PATCH 004/104] fix: grid-distance of the last row copied from the
 wrong cell

The distances in the last row are those of the row before, i.e. nx cells
back, not ny cells.
---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index a7661fb..47554e1 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -899,8 +899,8 @@ int mifi_griddistance(size_t nx, size_t ny, const double* lonVals, const double*
         // last row, overwriting corner
         for (size_t i = 0; i < nx; i++) {
             size_t p = (ny-1)*nx + i;
-            gridDistX[p] = gridDistX[p-ny];
-            gridDistY[p] = gridDistY[p-ny];
+            gridDistX[p] = gridDistX[p-nx];
+            gridDistY[p] = gridDistY[p-nx];
         }
     }
     return MIFI_OK;
-- 
2.43.0


From 5ca3c7795eb6d3810ff7854f49ea357e938ec7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:09 +0000
Subject: [PATCH 005/104] fix: out of bounds read for positions on an axis with
 a single value

---
 src/interpolation.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 47554e1..e4284bf 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -175,7 +175,8 @@ int mifi_points2position(double* points, const int n, const double* axis, const
                     points[i] += 2 * HALF_CIRCLE_ANGLE;
             }
         }
-        double nextOnAxis = axis[num-1] + (axis[1]-axis[0])*1.01; // slightly enlarged gitter-distance to avoid numerics
+        const double delta = (num > 1) ? axis[1]-axis[0] : 0;
+        double nextOnAxis = axis[num-1] + delta*1.01; // slightly enlarged gitter-distance to avoid numerics
         if (axis[0] < axis[num-1]) { // ascending
             nextOnAxis -= 2 * HALF_CIRCLE_ANGLE;
             if (nextOnAxis >= axis[0]) {
@@ -197,6 +198,8 @@ int mifi_points2position(double* points, const int n, const double* axis, const
         int pos = bsearchDoubleIndex(points[i], axis, num, comparator);
         if (pos >= 0) {
             points[i] = (double) pos;
+        } else if (num < 2) {
+            points[i] = -999.; // outside range, no grid-distance to extrapolate with
         } else {
             // linear fit between [pos-1, pos}
             int nPos = -1 * (pos + 1);
-- 
2.43.0


From a5d0807c2ad294ad1b50ddec3335fb053d6a230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:37 +0000
Subject: [PATCH 006/104] fix: filling a field with a single row accessed
 memory outside the field

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index e4284bf..90e18e3 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -687,7 +687,7 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
             field[y*nx+0] += (field[y*nx+1] - field[y*nx+0]) * wField[y*nx+0];
             field[y*nx+(nx-1)] += (field[y*nx+(nx-2)] - field[y*nx+(nx-1)]) * wField[y*nx+(nx-1)];
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; ny > 1 && x < nx; x++) {
             field[0*nx +x] += (field[1*nx+x] - field[0*nx+x]) * wField[0*nx+x];
             field[nym1*nx+x] += (field[(nym1-1)*nx+x] - field[nym1*nx+x]) * wField[nym1*nx+x];
         }
@@ -795,7 +795,7 @@ static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float d
                 wField[y*nx+(nx-1)] = 1;
             }
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; ny > 1 && x < nx; x++) {
             if (rField[0*nx +x] < repeat) { // unset
                 field[0*nx +x] += field[1*nx+x]*wField[1*nx+x];
                 field[0*nx +x] /= (1+wField[1*nx+x]);
-- 
2.43.0


From a313088fcb27ed9a5c112bb386e65d48e7204ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:59 +0000
Subject: [PATCH 007/104] fix: reject slices whose start+size exceeds the range
 of size_t

---
 src/DataImpl.h      | 2 +-
 src/SliceBuilder.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index ead9534..adab0cd 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -248,7 +248,7 @@ DataPtr DataImpl<C>::slice(const std::vector<size_t>& orgDimSize, const std::vec
     for (size_t i = 0; i < orgDimSize.size(); ++i) {
         outputSize *= outputDimSize[i];
         orgSize *= orgDimSize[i];
-        if (orgDimSize[i] < (startDims[i] + outputDimSize[i]))
+        if (orgDimSize[i] < outputDimSize[i] || orgDimSize[i] - outputDimSize[i] < startDims[i])
             throw CDMException("dimension-size error, start+size > orgSize: " + type2string(startDims[i] + outputDimSize[i]) + ">" +
                                type2string(orgDimSize[i]));
     }
diff --git a/src/SliceBuilder.cc b/src/SliceBuilder.cc
index 9f8f19f..8e6b847 100644
--- a/src/SliceBuilder.cc
+++ b/src/SliceBuilder.cc
@@ -109,7 +109,7 @@ void SliceBuilder::getStartAndSize(const std::string & dimName, std::size_t& sta
 void SliceBuilder::setStartAndSize(const std::string & dimName, size_t start, size_t size)
 {
     size_t pos = getDimPos(dimName);
-    if ((!unlimited_.at(pos)) && maxSize_.at(pos) < (start + size)) {
+    if ((!unlimited_.at(pos)) && (maxSize_.at(pos) < size || maxSize_.at(pos) - size < start)) {
         throw out_of_range("slicebuilder: "+ dimName + " too large: start: " + type2string(start) + " size: " + type2string(size));
     }
     start_.at(pos) = start;
-- 
2.43.0


From 3001dcdc48536ae56b87f6a92621886e4a0876ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:53 +0000
Subject: [PATCH 008/104] fix: do not write outside the data when setValues
 starts behind its end

---
 src/DataImpl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index adab0cd..fa09669 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -201,6 +201,9 @@ void DataImpl<C>::copyData(size_t startPos, const shared_array<C>& otherData, si
     }
     // fixing max range
     otherLast = std::min(otherLast, otherSize);
+    if (startPos >= size()) {
+        return; // no room at all
+    }
     otherLast = std::min(size()-startPos+otherFirst, otherLast);
     if (otherLast > otherFirst) {
         std::copy(&otherData[otherFirst], &otherData[otherLast], &theData[startPos]);
-- 
2.43.0


From 173533304d878a117a170ff376b03813d98c48b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:53 +0000
Subject: [PATCH 009/104] fix: keep values beyond 32 bit when rounding to large
 integer types

---
 include/fimex/MathUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/MathUtils.h b/include/fimex/MathUtils.h
index 70789ae..aaf8f10 100644
--- a/include/fimex/MathUtils.h
+++ b/include/fimex/MathUtils.h
@@ -70,7 +70,7 @@ struct data_rounder;
 template <typename OUT, typename IN>
 struct data_rounder<OUT, IN, true>
 {
-    inline OUT operator()(const IN& in) const { return static_cast<OUT>(round(in)); }
+    inline OUT operator()(const IN& in) const { return static_cast<OUT>(std::llround(in)); }
 };
 
 template <typename OUT, typename IN>
-- 
2.43.0


From 8c9aa66ae14e440cdf24df855e9905b862415bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:53 +0000
Subject: [PATCH 010/104] fix: replace undefined values by the fill value when
 converting to integer types with unchanged scaling

---
 src/DataImpl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DataImpl.h b/src/DataImpl.h
index fa09669..c4c711c 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -310,7 +310,9 @@ template <typename C>
 DataPtr DataImpl<C>::convertDataType(double oldFill, double oldScale, double oldOffset, UnitsConverter_p unitsConverter, CDMDataType newType,
                                      double newFill, double newScale, double newOffset)
 {
-    if (oldFill == newFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter)
+    // undefined values (nan) must become the fill value if the new type cannot represent them
+    const bool keepsUndefined = std::numeric_limits<C>::is_integer || newType == CDM_FLOAT || newType == CDM_DOUBLE;
+    if (oldFill == newFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter && keepsUndefined)
         return convertValues(*this, newType);
 
     // clang-format off
-- 
2.43.0


From 8ba4809f73047011f2026f24e0cdc7cfa473d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:51 +0000
Subject: [PATCH 011/104] fix: no integer value equals an undefined fill value

---
 include/fimex/DataUtils.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/fimex/DataUtils.h b/include/fimex/DataUtils.h
index 22fa518..38bbc4f 100644
--- a/include/fimex/DataUtils.h
+++ b/include/fimex/DataUtils.h
@@ -39,6 +39,7 @@ template <typename IN, typename OUT>
 class ScaleValue
 {
 private:
+    bool hasOldFill_;
     IN oldFill_;
     double oldScaleNewScaleInv_;
     double oldOffsetMinusNewOffsetNewScaleInv_;
@@ -46,7 +47,8 @@ private:
 
 public:
     ScaleValue(double oldFill, double oldScale, double oldOffset, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : hasOldFill_(!mifi_isnan(oldFill)) // an undefined fill value has no counterpart in integer types
+        , oldFill_(hasOldFill_ ? static_cast<IN>(oldFill) : IN())
         , oldScaleNewScaleInv_(oldScale / newScale)
         , oldOffsetMinusNewOffsetNewScaleInv_((oldOffset - newOffset) / newScale)
         , newFill_(static_cast<OUT>(newFill))
@@ -54,7 +56,7 @@ public:
     }
     OUT operator()(const IN& in) const
     {
-        return (in == oldFill_ || mifi_isnan<IN>(in)) ? newFill_ : data_caster<OUT, double>()(oldScaleNewScaleInv_ * in + oldOffsetMinusNewOffsetNewScaleInv_);
+        return ((hasOldFill_ && in == oldFill_) || mifi_isnan<IN>(in)) ? newFill_ : data_caster<OUT, double>()(oldScaleNewScaleInv_ * in + oldOffsetMinusNewOffsetNewScaleInv_);
         //(((oldScale_*in + oldOffset_)-newOffset_)/newScale_);
         // => ((oldScale_*in + oldOffsetMinusNewOffset_)*newScaleInv_);
         // => oldScaleNewScale_ * in + oldOffsetMinusNewOffsetNewScale_
@@ -68,6 +70,7 @@ template <typename IN, typename OUT>
 class ScaleValueUnits
 {
 private:
+    bool hasOldFill_;
     IN oldFill_;
     double oldScale_;
     double oldOffset_;
@@ -78,7 +81,8 @@ private:
 
 public:
     ScaleValueUnits(double oldFill, double oldScale, double oldOffset, UnitsConverter_p uconv, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : hasOldFill_(!mifi_isnan(oldFill)) // an undefined fill value has no counterpart in integer types
+        , oldFill_(hasOldFill_ ? static_cast<IN>(oldFill) : IN())
         , oldScale_(oldScale)
         , oldOffset_(oldOffset)
         , uconv_(uconv)
@@ -89,7 +93,7 @@ public:
     }
     OUT operator()(const IN& in) const
     {
-        return (in == oldFill_ || mifi_isnan<IN>(in)) ? newFill_
+        return ((hasOldFill_ && in == oldFill_) || mifi_isnan<IN>(in)) ? newFill_
                                                       : data_caster<OUT, double>()((uconv_->convert(oldScale_ * in + oldOffset_) - newOffset_) * newScaleInv_);
     }
 };
@@ -101,16 +105,18 @@ template <typename IN, typename OUT>
 class ChangeMissingValue
 {
 private:
+    bool hasOldFill_;
     IN oldFill_;
     OUT newFill_;
 
 public:
     ChangeMissingValue(double oldFill, double newFill)
-        : oldFill_(static_cast<IN>(oldFill))
+        : hasOldFill_(!mifi_isnan(oldFill)) // an undefined fill value has no counterpart in integer types
+        , oldFill_(hasOldFill_ ? static_cast<IN>(oldFill) : IN())
         , newFill_(static_cast<OUT>(newFill))
     {
     }
-    OUT operator()(const IN& in) const { return (in == oldFill_ || mifi_isnan(in)) ? newFill_ : static_cast<OUT>(in); }
+    OUT operator()(const IN& in) const { return ((hasOldFill_ && in == oldFill_) || mifi_isnan(in)) ? newFill_ : static_cast<OUT>(in); }
 };
 
 DataPtr initDataByArray(CDMDataType datatype, const std::vector<std::string>& values);
-- 
2.43.0


From aeb72bee881104767f66456cf2174de2cd5aa8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:08 +0000
Subject: [PATCH 012/104] fix: RoundAndClamp treats NaN and huge positions as
 invalid instead of wrapping them to a cell

---
 src/MathUtils.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils.cc b/src/MathUtils.cc
index 97e5060..18bbd7a 100644
--- a/src/MathUtils.cc
+++ b/src/MathUtils.cc
@@ -29,12 +29,15 @@ namespace MetNoFimex {
 
 size_t RoundAndClamp::operator()(double d) const
 {
-    return clamped(round(d));
+    const double r = std::round(d);
+    if (r >= mini && r <= maxi) // also false for NaN
+        return clamped(static_cast<size_t>(r));
+    return invalid;
 }
 
 size_t RoundAndClamp::operator()(float f) const
 {
-    return clamped(round(f));
+    return (*this)(static_cast<double>(f));
 }
 
 size_t RoundAndClamp::clamped(size_t r) const
-- 
2.43.0


From dafb8424882fae3da132c83b07f0af855123436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:08 +0000
Subject: [PATCH 013/104] fix: forward interpolation reads each layer of the
 input, not always the first

---
 src/CachedForwardInterpolation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 60c392d..6c0e403 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -210,10 +210,11 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     newSize = outLayerSize*inZ;
     auto outData = make_shared_array<float>(newSize);
     for (size_t z = 0; z < inZ; ++z) {
+        const float* inDataZ = &inData[z * inLayerSize];
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
             for (size_t ii : pointsInIn[i]) {
-                const float val = inData[ii];
+                const float val = inDataZ[ii];
                 if (undefAggr || !mifi_isnan(val))
                     agg->push(val);
             }
-- 
2.43.0


From 86a6d40d9e9269910c66a58e721d8fb010232263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:08 +0000
Subject: [PATCH 014/104] fix: forward aggregators start with a count of zero
 instead of reading it uninitialised

---
 src/CachedForwardInterpolation.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 6c0e403..c3283aa 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -64,7 +64,11 @@ struct AggSimple : Aggregator
 {
     size_t count;
     float val;
-    AggSimple() { reset(0); }
+    AggSimple()
+        : count(0)
+        , val(0)
+    {
+    }
     float get_and_reset() override { return reset(val); }
     float reset(float v)
     {
-- 
2.43.0


From 3345729fba2671d4c4847652743579ce740adf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:08 +0000
Subject: [PATCH 015/104] fix: undefined positions no longer hide others from
 the reduced input domain

---
 src/CachedInterpolation.cc | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index 5205c9c..d3f5ff0 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -214,8 +214,8 @@ const long long EXTEND = 2;
 // adapt types
 inline long long clamp_ex(long long low, double dvalue, long long extend, long long high)
 {
-    const long long value = (extend > 0 ? std::ceil(dvalue) : std::floor(dvalue)) + extend;
-    return clamp(low, value, high);
+    const double value = (extend > 0 ? std::ceil(dvalue) : std::floor(dvalue)) + extend;
+    return static_cast<long long>(clamp<double>(low, value, high));
 }
 } // namespace
 
@@ -226,14 +226,29 @@ void CachedInterpolation::createReducedDomain(const std::string& xDimName, const
         return;
 
     const size_t outLayerSize = outX * outY;
-    const auto minmaxX = min_max_element(pointsOnXAxis.get(), pointsOnXAxis.get() + outLayerSize);
-    const auto minmaxY = min_max_element(pointsOnYAxis.get(), pointsOnYAxis.get() + outLayerSize);
+    bool found = false;
+    double minPX = 0, maxPX = 0, minPY = 0, maxPY = 0;
+    for (size_t xy = 0; xy < outLayerSize; ++xy) {
+        const double px = pointsOnXAxis[xy], py = pointsOnYAxis[xy];
+        if (mifi_isnan(px) || mifi_isnan(py))
+            continue; // undefined position, cannot be compared
+        if (!found) {
+            minPX = maxPX = px;
+            minPY = maxPY = py;
+            found = true;
+        } else {
+            minimaximize(minPX, maxPX, px);
+            minimaximize(minPY, maxPY, py);
+        }
+    }
+    if (!found)
+        return;
 
     // allow additional cells for interpolation (2 for bicubic)
-    const long long minX = clamp_ex(0, *minmaxX.first, -EXTEND, inX - 1);
-    const long long minY = clamp_ex(0, *minmaxY.first, -EXTEND, inY - 1);
-    const long long maxX = clamp_ex(0, *minmaxX.second, +EXTEND, inX - 1);
-    const long long maxY = clamp_ex(0, *minmaxY.second, +EXTEND, inY - 1);
+    const long long minX = clamp_ex(0, minPX, -EXTEND, inX - 1);
+    const long long minY = clamp_ex(0, minPY, -EXTEND, inY - 1);
+    const long long maxX = clamp_ex(0, maxPX, +EXTEND, inX - 1);
+    const long long maxY = clamp_ex(0, maxPY, +EXTEND, inY - 1);
 
     // make sure we still have a useful size
     if ((maxX - minX) < 1 || (maxY - minY) < 1)
-- 
2.43.0


From f217b37e26258ccd30a93c64ccb4b750c8f8b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:13 +0000
Subject: [PATCH 016/104] fix: creating a cached interpolation leaves the
 caller's positions unchanged

---
 src/CachedInterpolation.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index d3f5ff0..6cd9bb8 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -254,11 +254,15 @@ void CachedInterpolation::createReducedDomain(const std::string& xDimName, const
     if ((maxX - minX) < 1 || (maxY - minY) < 1)
         return;
 
-    // update the axes
-    for (size_t xy = 0; xy < outX * outY; ++xy) {
-        pointsOnXAxis[xy] -= minX;
-        pointsOnYAxis[xy] -= minY;
+    // update the axes, without changing the caller's arrays
+    auto reducedOnXAxis = make_shared_array<double>(outLayerSize);
+    auto reducedOnYAxis = make_shared_array<double>(outLayerSize);
+    for (size_t xy = 0; xy < outLayerSize; ++xy) {
+        reducedOnXAxis[xy] = pointsOnXAxis[xy] - minX;
+        reducedOnYAxis[xy] = pointsOnYAxis[xy] - minY;
     }
+    pointsOnXAxis = reducedOnXAxis;
+    pointsOnYAxis = reducedOnYAxis;
 
     reducedDomain_ = std::make_shared<ReducedInterpolationDomain>(xDimName, yDimName, minX, minY);
 
-- 
2.43.0


From 68b096f58b210410271c411551619b6a57435cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:08 +0000
Subject: [PATCH 017/104] fix: preparing data for interpolation no longer
 changes data kept by the reader

---
 src/CDMInterpolator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index aa4a894..e2c849e 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -139,8 +139,12 @@ CDMInterpolator::~CDMInterpolator()
 
 shared_array<float> data2InterpolationArray(const DataPtr& inData, double badValue)
 {
-    auto array = inData->asFloat();
-    mifi_bad2nanf(&array[0], &array[inData->size()], badValue);
+    // asFloat might give access to the original data, which must not be changed
+    const size_t size = inData->size();
+    auto original = inData->asFloat();
+    auto array = make_shared_array<float>(size);
+    std::copy(original.get(), original.get() + size, array.get());
+    mifi_bad2nanf(array.get(), array.get() + size, badValue);
     return array;
 }
 
-- 
2.43.0


From b27b04b8755041b10d2f073a5aaa33b65e0bad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:12 +0000
Subject: [PATCH 018/104] fix: rotation angles of vectors were averaged across
 the branch cut, flipping the vectors

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 1ef4e2d..6a4f4db 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -348,8 +348,8 @@ Matrix_cp get_vector_reproject_matrix_points_proj_delta(crs2crs& c2c, const doub
         for (size_t i = 0, idx = 0; i < count; ++i, idx += Matrix::stride) {
             const double phi_x = mtx[idx + 0];
             const double phi_y = -atan2(out_x_delta_proj_axis[i] - out_x_field[i], out_y_delta_proj_axis[i] - out_y_field[i]) + add_y;
-            // average, for non-conformal cases
-            const double phi0 = (phi_y + phi_x) / 2;
+            // average, for non-conformal cases; both are only defined up to a full circle
+            const double phi0 = phi_x + remainder(phi_y - phi_x, 2 * MIFI_PI) / 2;
             store_rotation(mtx, idx, phi0);
         }
     }
-- 
2.43.0


From 3d2e7b3d9b5e82ac9d343ae41b9e47733d5efe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:12 +0000
Subject: [PATCH 019/104] fix: out of bounds read when calculating vector
 rotation on grids with two rows or columns

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 6a4f4db..11938a6 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -372,8 +372,8 @@ Matrix_cp get_vector_reproject_matrix_proj(crs2crs& c2c, const double* in_x_fiel
             if (oy > 1) {
                 deltaXY = defaultDelta * (in_x_field[(1) * ox + (1)] - in_x_field[0]);
                 // and test another place in case of singularities
-                size_t ox_2 = ox / 2;
-                size_t oy_2 = oy / 2;
+                size_t ox_2 = (ox - 1) / 2;
+                size_t oy_2 = (oy - 1) / 2;
                 double deltaX2 = defaultDelta * (in_x_field[(oy_2 + 1) * ox + (ox_2 + 1)] - in_x_field[(oy_2)*ox + ox_2]);
                 deltaXY += deltaX2;
                 deltaXY /= 2;
-- 
2.43.0


From 105466f5846feb72d7d973ba973f3c0d6eb2a4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:58 +0000
Subject: [PATCH 020/104] fix: rotated directions are always normalised to
 0..360

---
 src/reproject.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 11938a6..32dde5b 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -518,12 +518,10 @@ void vector_reproject_direction_by_matrix_f(Matrix_cp matrix,
             const double rot_deg = mtx[idx + 2];
             // angle stored as true angle (in degree) in the matrix m[2]
             // fprintf(stderr, "asin: %f, acos: %f, phi: %f\n", RAD_TO_DEG* asin(m[1]), RAD_TO_DEG*acos(m[0]), rot_deg);
-            double angle_new = angZ[i] - rot_deg;
-            // normalize 0..360
+            // normalize 0..360, also if this is more than one turn away
+            double angle_new = fmod(angZ[i] - rot_deg, 360);
             if (angle_new < 0)
                 angle_new += 360;
-            if (angle_new > 360)
-                angle_new -= 360;
             angZ[i] = angle_new;
         }
     }
-- 
2.43.0


From ea7cf0a674e4b49417e3788f7c4552083d0bd4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:58 +0000
Subject: [PATCH 021/104] fix: vectors on rotated latitude-longitude grids were
 rotated at wrong positions (radian instead of degree)

---
 src/CDMProcessor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 850a525..262be86 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -123,8 +123,8 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
     DataPtr xAxisData;
     DataPtr yAxisData;
     if (cs->getProjection()->isDegree()) {
-        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "radian");
-        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "radian");
+        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "degree");
+        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "degree");
     } else {
         xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "m");
         yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "m");
@@ -149,7 +149,7 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
         matrix = reproject::get_vector_reproject_matrix_field(cs->getProjection()->getProj4String(), MIFI_WGS84_LATLON_PROJ4, &inXField[0], &inYField[0],
                                                               xAxisSize, yAxisSize);
     } else {
-        // using MIFI_PROJ_AXIS even for LAT/LON since axes already in radian
+        // using MIFI_PROJ_AXIS even for LAT/LON since axes already in degree
         matrix = reproject::get_vector_reproject_matrix(MIFI_WGS84_LATLON_PROJ4, cs->getProjection()->getProj4String(), &xAxisD[0], &yAxisD[0], MIFI_PROJ_AXIS,
                                                         MIFI_PROJ_AXIS, xAxisSize, yAxisSize);
     }
-- 
2.43.0


From 765d82ed1dd5ccda394b3f906e82a9ca797317c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:46 +0000
Subject: [PATCH 022/104] fix: accumulation treats fill values as undefined and
 no longer changes data of the reader

---
 src/CDMProcessor.cc | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 262be86..7e3c3db 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -537,19 +537,35 @@ static void replaceNanWith0(shared_array<double> dp, size_t n)
     mifi_nand2bad(&dp[0], &dp[0]+n, 0);
 }
 
+// copy of the values, the reader might still use the original, with nan instead of fillValue
+static shared_array<double> copyAsDouble(DataPtr data, double fillValue)
+{
+    const size_t n = data->size();
+    auto in = data->asDouble();
+    auto out = make_shared_array<double>(n);
+    std::replace_copy(&in[0], &in[0] + n, &out[0], fillValue, MIFI_UNDEFINED_D);
+    return out;
+}
+
+static DataPtr createFilledData(size_t n, shared_array<double> values, double fillValue)
+{
+    mifi_nand2bad(&values[0], &values[0] + n, fillValue);
+    return createData(n, values);
+}
+
 // add d2 to d1 and return d1
-static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep) {
+static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep, double fillValue)
+{
     if ((data->size() != 0) && (dataP->size() != 0)) {
         assert(data->size() == dataP->size());
-        auto d = data->asDouble();
-        auto dp = dataP->asDouble();
+        auto d = copyAsDouble(data, fillValue);
+        auto dp = copyAsDouble(dataP, fillValue);
         if (addingFirstTimeStep) {
             // in step 0, replace undef with 0
             replaceNanWith0(dp, dataP->size());
         }
-        // this might modify the original data in the reader
         std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::plus<double>());
-        data = createData(data->size(), d);
+        data = createFilledData(data->size(), d, fillValue);
     } else if (dataP->size() != 0) {
         data = dataP; // data->size was 0
     }
@@ -608,6 +624,7 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
     if (p_->accumulateVars.find(varName) != p_->accumulateVars.end()) {
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
         if (unLimDimPos > 0) { // cannot accumulate first
+            const double fillValue = getCDM().getFillValue(varName);
             size_t start = 0;
             if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
                 start = p_->sliceCache.ulimDimPos + 1;
@@ -615,13 +632,13 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                     data = p_->sliceCache.data;
                 } else {
                     DataPtr dataP = p_->sliceCache.data;
-                    addDataP2Data(data, dataP, false);
+                    addDataP2Data(data, dataP, false, fillValue);
                 }
             }
             // data contains last slice + eventually cache
             for (size_t i = start; i <= unLimDimPos-1; ++i) {
                 DataPtr dataP = p_->dataReader->getDataSlice(varName, i);
-                addDataP2Data(data, dataP, i == 0);
+                addDataP2Data(data, dataP, i == 0, fillValue);
             }
             // fill the cache
             p_->sliceCache.varName = varName;
@@ -637,15 +654,15 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             DataPtr dataP = p_->dataReader->getDataSlice(varName, unLimDimPos-1);
             if ((data->size() != 0) && (dataP->size() != 0)) {
                 assert(data->size() == dataP->size());
-                auto d = data->asDouble();
-                auto dp = dataP->asDouble();
+                const double fillValue = getCDM().getFillValue(varName);
+                auto d = copyAsDouble(data, fillValue);
+                auto dp = copyAsDouble(dataP, fillValue);
                 if (unLimDimPos == 1) {
                     // in step 0, replace undef with 0
                     replaceNanWith0(dp, dataP->size());
                 }
-                // this might modify the original data in the reader
                 std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::minus<double>());
-                data = createData(data->size(), d);
+                data = createFilledData(data->size(), d, fillValue);
             }
         }
     }
-- 
2.43.0


From a455d8b09f72dbff224fe9824cb43d2f6d7a982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:29 +0000
Subject: [PATCH 023/104] fix: accumulation and deaccumulation of packed data
 with an offset

---
 src/CDMProcessor.cc | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 7e3c3db..1657f1b 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -532,11 +532,6 @@ struct UnScaleOffset
     }
 };
 
-static void replaceNanWith0(shared_array<double> dp, size_t n)
-{
-    mifi_nand2bad(&dp[0], &dp[0]+n, 0);
-}
-
 // copy of the values, the reader might still use the original, with nan instead of fillValue
 static shared_array<double> copyAsDouble(DataPtr data, double fillValue)
 {
@@ -554,7 +549,7 @@ static DataPtr createFilledData(size_t n, shared_array<double> values, double fi
 }
 
 // add d2 to d1 and return d1
-static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep, double fillValue)
+static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep, double fillValue, double packedZero)
 {
     if ((data->size() != 0) && (dataP->size() != 0)) {
         assert(data->size() == dataP->size());
@@ -562,9 +557,10 @@ static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeSte
         auto dp = copyAsDouble(dataP, fillValue);
         if (addingFirstTimeStep) {
             // in step 0, replace undef with 0
-            replaceNanWith0(dp, dataP->size());
+            mifi_nand2bad(&dp[0], &dp[0] + dataP->size(), packedZero);
         }
-        std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::plus<double>());
+        // values are packed
+        std::transform(&d[0], &d[0] + data->size(), &dp[0], &d[0], [packedZero](double a, double b) { return a + b - packedZero; });
         data = createFilledData(data->size(), d, fillValue);
     } else if (dataP->size() != 0) {
         data = dataP; // data->size was 0
@@ -625,6 +621,9 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
         if (unLimDimPos > 0) { // cannot accumulate first
             const double fillValue = getCDM().getFillValue(varName);
+            double scale = 1, offset = 0;
+            getScaleAndOffsetOf(varName, scale, offset);
+            const double packedZero = -offset / scale; // unpacked to 0
             size_t start = 0;
             if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
                 start = p_->sliceCache.ulimDimPos + 1;
@@ -632,13 +631,13 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                     data = p_->sliceCache.data;
                 } else {
                     DataPtr dataP = p_->sliceCache.data;
-                    addDataP2Data(data, dataP, false, fillValue);
+                    addDataP2Data(data, dataP, false, fillValue, packedZero);
                 }
             }
             // data contains last slice + eventually cache
             for (size_t i = start; i <= unLimDimPos-1; ++i) {
                 DataPtr dataP = p_->dataReader->getDataSlice(varName, i);
-                addDataP2Data(data, dataP, i == 0, fillValue);
+                addDataP2Data(data, dataP, i == 0, fillValue, packedZero);
             }
             // fill the cache
             p_->sliceCache.varName = varName;
@@ -655,13 +654,17 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             if ((data->size() != 0) && (dataP->size() != 0)) {
                 assert(data->size() == dataP->size());
                 const double fillValue = getCDM().getFillValue(varName);
+                double scale = 1, offset = 0;
+                getScaleAndOffsetOf(varName, scale, offset);
+                const double packedZero = -offset / scale; // unpacked to 0
                 auto d = copyAsDouble(data, fillValue);
                 auto dp = copyAsDouble(dataP, fillValue);
                 if (unLimDimPos == 1) {
                     // in step 0, replace undef with 0
-                    replaceNanWith0(dp, dataP->size());
+                    mifi_nand2bad(&dp[0], &dp[0] + dataP->size(), packedZero);
                 }
-                std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::minus<double>());
+                // values are packed
+                std::transform(&d[0], &d[0] + data->size(), &dp[0], &d[0], [packedZero](double a, double b) { return a - b + packedZero; });
                 data = createFilledData(data->size(), d, fillValue);
             }
         }
-- 
2.43.0


From c44143dfa78f6c48bd872156455e1e188eaa3df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:07 +0000
Subject: [PATCH 024/104] fix: packed vector components are rotated unpacked

---
 src/CDMProcessor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 1657f1b..97b1af6 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -701,7 +701,15 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         if (xData->size() != yData->size()) {
             throw CDMException("xData != yData in vectorInterpolation");
         }
+        // vectors can only be rotated unpacked, each component with its own scale and offset
+        double xScale = 1., xOffset = 0., yScale = 1., yOffset = 0.;
+        getScaleAndOffsetOf(xVar, xScale, xOffset);
+        getScaleAndOffsetOf(yVar, yScale, yOffset);
+        transform(&xArray[0], &xArray[0] + xData->size(), &xArray[0], ScaleOffset<float>(xScale, xOffset));
+        transform(&yArray[0], &yArray[0] + yData->size(), &yArray[0], ScaleOffset<float>(yScale, yOffset));
         cvr->reprojectValues(xArray, yArray, xData->size());
+        transform(&xArray[0], &xArray[0] + xData->size(), &xArray[0], UnScaleOffset<float>(xScale, xOffset));
+        transform(&yArray[0], &yArray[0] + yData->size(), &yArray[0], UnScaleOffset<float>(yScale, yOffset));
         CDMDataType type = getCDM().getVariable(varName).getDataType();
         if (xIsFirst) {
             data = interpolationArray2Data(type, xArray, xData->size(), getCDM().getFillValue(xVar));
-- 
2.43.0


From 9e195a745a016dee624f04455862400993aad7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 025/104] fix: second standard parallel of conic projections
 was ignored

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc | 2 +-
 src/coordSys/LambertConformalConicProjection.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index b58b334..a5ff7de 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -92,7 +92,7 @@ std::ostream& AlbersConicalEqualAreaProjection::getProj4ProjectionPart(std::ostr
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 4b8fd08..4d5cf66 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -90,7 +90,7 @@ std::ostream& LambertConformalConicProjection::getProj4ProjectionPart(std::ostre
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
-- 
2.43.0


From bb0f48479d0ed1a04939ad94366cc387dfdba3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 026/104] fix: interpolation no longer changes longitudes and
 latitudes kept by the reader

---
 src/CDMInterpolator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index e2c849e..4c8ec71 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -393,6 +393,9 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
             lonSize = latSize;
         }
         if (getProjectionName(proj_input) != "latlong") {
+            // do not change the values kept by the reader
+            lonVals = clone(lonVals, lonSize);
+            latVals = clone(latVals, latSize);
             reproject::reproject_values(LAT_LON_PROJSTR, proj_input, &lonVals[0], &latVals[0], latSize);
             // lonVals contains now all x-values, latVals all y-values
             // get bounding box:
@@ -1259,6 +1262,9 @@ void CDMInterpolator::changeProjectionByForwardInterpolation(int method, const s
             throw CDMException("need lat and lon with 1 or 2 dimensions");
         } else {
             orgXYSize = orgLonSize;
+            // do not change the values kept by the reader
+            orgLonVals = clone(orgLonVals, orgLonSize);
+            orgLatVals = clone(orgLatVals, orgLatSize);
         }
 
         // translate all input points to output-coordinates, stored in lonVals and latVals
-- 
2.43.0


From 0731bc2a4663ab19656ff04e89c39abe6f5f91ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 027/104] fix: maximum distance of nearest neighbours in degree
 and in m

---
 src/CDMInterpolator.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 4c8ec71..8b8abb1 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -1344,8 +1344,9 @@ void CDMInterpolator::changeProjectionByCoordinates(int method, const string& pr
             fastTranslatePointsToClosestInputCell(pointsOnXAxis, pointsOnYAxis, fieldSize, &lonVals[0], &latVals[0], orgXDimSize, orgYDimSize);
         } else if (method == MIFI_INTERPOL_COORD_NN_KD) {
             double maxDistance = getMaxDistanceOfInterest(out_x_axis, out_y_axis);
-            if (isDegree) {
-                maxDistance *= MIFI_EARTH_RADIUS_M;
+            if (isDegree && p_->maxDistance <= 0) {
+                // distance of the axes in degree, while setDistanceOfInterest is in m
+                maxDistance = deg_to_rad(maxDistance) * MIFI_EARTH_RADIUS_M;
             }
             flannTranslatePointsToClosestInputCell(maxDistance, pointsOnXAxis, pointsOnYAxis, fieldSize, &lonVals[0], &latVals[0], orgXDimSize, orgYDimSize);
         } else {
-- 
2.43.0


From 567ee6cf4bba355a1c11d54c4b716f5ad83b7755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 028/104] fix: variables with data in memory are interpolated

---
 src/CDMInterpolator.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 8b8abb1..769aefb 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -730,6 +730,17 @@ map<string, CoordinateSystem_cp> CDMInterpolator::findBestCoordinateSystemsAndPr
 }
 
 namespace {
+/**
+ * data kept in the CDM belongs to the original grid, it must be read from the dataReader and interpolated
+ */
+void removeDataOfProjectionVariables(CDM& cdm, const map<string, string>& projectionVariables)
+{
+    for (const auto& pv : projectionVariables) {
+        if (cdm.hasVariable(pv.first))
+            cdm.getVariable(pv.first).setData(DataPtr());
+    }
+}
+
 /**
  * make changes in the CDM structure to reflect the new projection (attributes, coordinates, projection-variable, dimensions)
  *
@@ -746,6 +757,7 @@ void changeCDM(CDM& cdm, const string& proj_input, const map<string, CoordinateS
     string newProj = getProjectionName(proj_input);
     string newXAxis;
     string newYAxis;
+    removeDataOfProjectionVariables(cdm, projectionVariables);
     for (map<string, CoordinateSystem_cp>::const_iterator csi = csMap.begin(); csi != csMap.end(); ++csi) {
         CoordinateSystem_cp cs = csi->second;
         if (cs->hasProjection()) {
@@ -1459,6 +1471,7 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
 
     const string newXAxis("x");
     const string newYAxis("y");
+    removeDataOfProjectionVariables(cdm, projectionVariables);
 
     for (const auto& csi : csMap) {
         CoordinateSystem_cp cs = csi.second;
-- 
2.43.0


From 95a31cf18133efc77ed4c3e666770e35db77893c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:37 +0000
Subject: [PATCH 029/104] fix: parts of variables interpolated to points could
 not be read if the axes changed names

---
 src/CachedInterpolation.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index 6cd9bb8..2c33c66 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -116,15 +116,11 @@ DataPtr CachedInterpolationInterface::getOutputDataSlice(DataPtr data, const Sli
     std::vector<size_t> startPos = sb.getDimensionStartPositions();
     std::vector<size_t> maxDims = sb.getMaxDimensionSizes();
     const std::vector<size_t>& dimSizes = sb.getDimensionSizes();
-    const std::vector<std::string> dimNames = sb.getDimensionNames();
-    for (size_t i = 0; i < dimSizes.size(); i++) {
-        const std::string& dn = dimNames[i];
-        const bool is_xy = (reducedDomain() ? (dn == reducedDomain()->xDim || dn == reducedDomain()->yDim) : (dn == _xDimName || dn == _yDimName));
-        if (!is_xy) {
-            // already sliced in getInputDataSlice
-            startPos.at(i) = 0;
-            maxDims.at(i) = dimSizes.at(i);
-        }
+    // x and y come first, their names might differ from those of the input
+    for (size_t i = 2; i < dimSizes.size(); i++) {
+        // already sliced in getInputDataSlice
+        startPos.at(i) = 0;
+        maxDims.at(i) = dimSizes.at(i);
     }
     return data->slice(maxDims, startPos, dimSizes);
 }
-- 
2.43.0


From 72b1458d41b15ae53064d9df8f5a20cfc3adc95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:42 +0000
Subject: [PATCH 030/104] fix: unit times are rounded to milliseconds, 59.9999s
 no longer becomes second 60

---
 src/TimeUnit.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/TimeUnit.cc b/src/TimeUnit.cc
index d4a9240..f081a2b 100644
--- a/src/TimeUnit.cc
+++ b/src/TimeUnit.cc
@@ -29,6 +29,7 @@
 #include "fimex/Type2String.h"
 #include "fimex/Units.h"
 
+#include <algorithm>
 #include <climits>
 #include <cmath>
 #include <limits>
@@ -89,7 +90,6 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
 {
     Units units; // unit initialization
     FimexTime fiTime;
-    float second;
     int year, month, mday, hour, minute;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
@@ -97,16 +97,17 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
     std::shared_ptr<cv_converter> conv(ut_get_converter(reinterpret_cast<ut_unit*>(pUnit.get()), baseTime.get()), cv_free);
     handleUdUnitError(ut_get_status(), "converting double to calendar");
     double encodedTime = cv_convert_double(conv.get(), unitTime);
+    // round to milliseconds before splitting, otherwise 59.9999s ends up as second 60
+    const double wholeSeconds = std::floor(encodedTime + 0.0005);
     double res, sec;
-    ut_decode_time(encodedTime, &year, &month, &mday, &hour, &minute, &sec, &res);
-    second = static_cast<float>(sec);
+    ut_decode_time(wholeSeconds, &year, &month, &mday, &hour, &minute, &sec, &res);
     fiTime.setYear(static_cast<unsigned int>(year));
     fiTime.setMonth(static_cast<char>(month));
     fiTime.setMDay(static_cast<char>(mday));
     fiTime.setHour(static_cast<char>(hour));
     fiTime.setMinute(static_cast<char>(minute));
-    fiTime.setSecond(static_cast<char>(second));
-    fiTime.setMSecond(static_cast<unsigned int>((second - fiTime.getSecond())*1000));
+    fiTime.setSecond(static_cast<char>(std::lround(sec)));
+    fiTime.setMSecond(static_cast<unsigned int>(std::max(0l, std::lround((encodedTime - wholeSeconds) * 1000))));
 
     return fiTime;
 }
@@ -122,7 +123,7 @@ double TimeUnit::fimexTime2unitTime(const FimexTime& fiTime, double invalidValue
     }
 
     Units units; // unit initialization
-    float second = fiTime.getSecond() + (fiTime.getMSecond()/1000.);
+    const double second = fiTime.getSecond() + (fiTime.getMSecond() / 1000.);
     double unitTime;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
-- 
2.43.0


From 6231218e37e7346ea60f7e49ad6d8db2787fef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:42 +0000
Subject: [PATCH 031/104] fix: times and places before x and with several
 digits and decimals in specifications

---
 src/SpatialAxisSpec.cc | 2 +-
 src/TimeSpec.cc        | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/SpatialAxisSpec.cc b/src/SpatialAxisSpec.cc
index 4c6f074..ee70c13 100644
--- a/src/SpatialAxisSpec.cc
+++ b/src/SpatialAxisSpec.cc
@@ -59,7 +59,7 @@ public:
         std::string retVal;
         if (value != "...") {
             std::smatch what;
-            std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+            std::regex finalVals("x\\s*([+-])?\\s*(\\d+\\.?\\d*)?\\s*");
             double retDouble;
             if (std::regex_search(value, what, finalVals)) {
                 if (what.size() >= 3) {
diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index d855878..977e6d3 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -37,6 +37,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <regex>
@@ -59,7 +60,7 @@ static double translateRelativeTime(string value, double startOffset, double fin
 {
     double retVal = 0.;
     std::smatch what;
-    std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+    std::regex finalVals("x\\s*([+-])?\\s*(\\d+\\.?\\d*)?\\s*");
     if (std::regex_search(value, what, finalVals)) {
         assert(what.size() == 3); // defined by regex
         if (what[2] == "") {
@@ -68,7 +69,7 @@ static double translateRelativeTime(string value, double startOffset, double fin
         } else {
             if (what[1] == '+') {
                 retVal = finalValue + string2type<double>(what[2]);
-            } else if (what[1] != "-") {
+            } else if (what[1] == "-") {
                 retVal = finalValue - string2type<double>(what[2]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN,
@@ -149,7 +150,7 @@ TimeSpec::TimeSpec(const string& timeSpec, const FimexTime& startTime, const Fim
         TimeUnit tu(relativeUnit);
         // find the position 0 in the relative times
         double startTimeU = tu.fimexTime2unitTime(startTime);
-        double startOffset = static_cast<int>(startTimeU / delta) * delta;
+        double startOffset = std::trunc(startTimeU / delta) * delta;
         if (startTimeU < startOffset) {
             // cast to largest value below startTimeU
             // but I want smallest value above startTimeU
@@ -157,7 +158,7 @@ TimeSpec::TimeSpec(const string& timeSpec, const FimexTime& startTime, const Fim
         }
         // find position x in the relative times
         double endTimeU = tu.fimexTime2unitTime(endTime);
-        double finalTimeU = static_cast<int>(endTimeU / delta) * delta;
+        double finalTimeU = std::trunc(endTimeU / delta) * delta;
 
         // convert list with x and ... to timeUnitString
         for (size_t i = 0; i < times.size(); i++) {
-- 
2.43.0


From 6a65948aa336d46f47fd6fc0dffc1e4b1fdb7229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:42 +0000
Subject: [PATCH 032/104] fix: lists without a value after ... or without a
 step no longer run over the end or forever

---
 include/fimex/TokenizeDotted.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fimex/TokenizeDotted.h b/include/fimex/TokenizeDotted.h
index 2d23955..39a74ed 100644
--- a/include/fimex/TokenizeDotted.h
+++ b/include/fimex/TokenizeDotted.h
@@ -56,11 +56,13 @@ std::vector<T> tokenizeDotted(const std::string& str, const std::string& delimit
             T curVal = last + dist;
             // positive if values get larger, negative if curVal gets samller
             double direction = (dist > 0) ? 1 : -1;
-            if (++tok != tokens.end()) {
+            if (++tok == tokens.end()) {
+                throw CDMException("tokenizeDotted: cannot use ... expansion without a value after it");
+            } else {
                 T afterDotVal = string2type<T>(*tok);
                 // expand the dots until before the afterDotVal, compare against rounding error
                 double roundError = direction * dist * -1.e-5;
-                while ((curVal - afterDotVal) * direction < roundError) {
+                while (dist != 0 && (curVal - afterDotVal) * direction < roundError) {
                     vals.push_back(curVal);
                     curVal += dist;
                 }
-- 
2.43.0


From 115302bb29a82e07639069312eb04beaa0c0c6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:42 +0000
Subject: [PATCH 033/104] fix: time units with large offsets and small steps
 are linear

---
 src/Units.cc | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/Units.cc b/src/Units.cc
index b563442..aea92eb 100644
--- a/src/Units.cc
+++ b/src/Units.cc
@@ -126,19 +126,14 @@ public:
         double slope = convert(1.0) - offset;
         if (!std::isfinite(slope)) return false;
 
-        double val = 10.;
-        double cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
-        val = 100.;
-        cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
-        val = 1000.;
-        cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
-        val = -1000.;
-        cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
-
+        for (const double val : {10., 100., 1000., -1000.}) {
+            const double cval = convert(val);
+            const double expected = val * slope + offset;
+            // slope is only known up to the rounding error of a large offset
+            const double tolerance = 1e-5 + 1e-12 * std::fabs(offset);
+            if (!std::isfinite(cval) || std::fabs(cval - expected) > tolerance)
+                return false;
+        }
         return true;
     }
     void getScaleOffset(double& scale, double& offset) override
-- 
2.43.0


From e6f53ca06f1f0fe9b2d0ab8ffe49d3d1b1f73536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:53 +0000
Subject: [PATCH 034/104] fix: reading from a time interpolator without changed
 time axis

---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 7b2779e..78b252b 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -92,7 +92,7 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
 {
     const std::string timeAxis = getTimeAxis(coordSystems_, varName);
     LOG4FIMEX(logger, Logger::DEBUG, "getting time-interpolated data-slice for " << varName << " with time-axis: " << timeAxis);
-    if (timeAxis.empty() || (dataReaderTimesInNewUnits_.find(timeAxis)->second.size() == 0)) {
+    if (timeAxis.empty() || dataReaderTimesInNewUnits_.find(timeAxis) == dataReaderTimesInNewUnits_.end()) {
         // not time-axis or "changeTimeAxis" never called
         // no changes, simply forward
         return dataReader_->getDataSlice(varName, unLimDimPos);
-- 
2.43.0


From 4d25f7fec82e4b1e34c6cbe2cbe117515d9edc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:53 +0000
Subject: [PATCH 035/104] fix: fill values are undefined in time interpolation
 and the data type is kept

---
 src/CDMTimeInterpolator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 78b252b..819755d 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -28,6 +28,7 @@
 
 #include "fimex/CDM.h"
 #include "fimex/CDMException.h"
+#include "fimex/CDMInterpolator.h"
 #include "fimex/Data.h"
 #include "fimex/DataUtils.h"
 #include "fimex/Logger.h"
@@ -124,8 +125,11 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
             data = d1;
         } else if (d1->size() == d2->size()) {
             auto out = make_shared_array<float>(d1->size());
-            mifi_get_values_linear_weak_extrapol_f(d1->asFloat().get(), d2->asFloat().get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
-            data = createData(d1->size(), out);
+            // fill values are undefined, not numbers
+            const double fillValue = cdm_->getFillValue(varName);
+            auto f1 = data2InterpolationArray(d1, fillValue), f2 = data2InterpolationArray(d2, fillValue);
+            mifi_get_values_linear_weak_extrapol_f(f1.get(), f2.get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
+            data = interpolationArray2Data(variable.getDataType(), out, d1->size(), fillValue);
         } else {
             throw CDMException("getDataSlice for " + varName + ": got slices with different size");
         }
-- 
2.43.0


From 3a8865d355f54e80ed2dce63aa9490518002150a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:53 +0000
Subject: [PATCH 036/104] fix: time interpolation to times in any order

---
 src/CDMTimeInterpolator.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 819755d..4b1293f 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -166,10 +166,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             // create mapping of new time value positions to old time values (per time-axis)
             const vector<FimexTime>& newTimes = ts.getTimeSteps();
             size_t newTimePos = 0;
-            size_t lastPos = 0;
             vector<pair<size_t, size_t> > timeMapping(newTimes.size());
             for (vector<FimexTime>::const_iterator it = newTimes.begin(); it != newTimes.end(); ++it, ++newTimePos) {
-                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin() + lastPos, oldTimes.end(), *it);
+                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin(), oldTimes.end(), *it);
                 size_t pos = distance(oldTimes.begin(), olb);
                 size_t t1, t2;
                 if (pos == oldTimes.size()) {
@@ -187,7 +186,6 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
                         assert(oldTimes.size() == 1);
                     }
                 }
-                lastPos = pos; // make search faster, we know that the next lower_bound_pos will be >= pos
                 timeMapping[newTimePos] = make_pair(t1,t2);
             }
             timeChangeMap_[timeDimName] = timeMapping;
-- 
2.43.0


From 510ebcdf99dd9b654f4e6c48950550b5c119e40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:53 +0000
Subject: [PATCH 037/104] fix: time interpolation to existing times next to
 undefined values

---
 src/CDMTimeInterpolator.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 4b1293f..2505363 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -202,14 +202,11 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             cdm_->getDimension(timeDimName).setLength(newTimes.size());
 
             // store old times with new unit as oldTimesNewUnits-vector
-            Units u;
-            double slope, offset;
-            u.convert(ts.getUnitString(), unit, slope, offset);
-            dataReaderTimesInNewUnits_[timeDimName].clear();
-            transform(oldTimesPtr.get(),
-                      oldTimesPtr.get() + nEl,
-                      back_inserter(dataReaderTimesInNewUnits_[timeDimName]),
-                      ScaleValue<double,double>(MIFI_UNDEFINED_D, 1., 0., cdm_->getFillValue(timeDimName), slope, offset));
+            // convert the same way as the new times, to be identical for identical times
+            auto& oldTimesNewUnits = dataReaderTimesInNewUnits_[timeDimName];
+            oldTimesNewUnits.clear();
+            std::transform(oldTimes.begin(), oldTimes.end(), std::back_inserter(oldTimesNewUnits),
+                           [newTU](const FimexTime& ft) { return newTU.fimexTime2unitTime(ft); });
         }
     }
 }
-- 
2.43.0


From aec7b26ef92404fa22040095e1137b6099b51629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:30 +0000
Subject: [PATCH 038/104] fix: extraction outside the dimension is an error

---
 src/CDMExtractor.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 8cc28b2..b51ae17 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -259,9 +259,11 @@ void CDMExtractor::selectVariables(std::set<std::string> variables, bool addAuxi
 void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<std::size_t>& slices)
 {
     CDMDimension& dim = cdm_->getDimension(dimName);
+    // slices are positions in the original dimension
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
     for (size_t sz : slices) {
-        if (sz > dim.getLength())
-            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(dim.getLength()));
+        if (sz >= orgLength)
+            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(orgLength));
     }
 
     // keep track of changes
@@ -279,6 +281,10 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 
 void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, size_t length)
 {
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
+    if (start > orgLength || length > orgLength - start)
+        throw CDMException("can't select " + type2string(length) + " slices of dimension '" + dimName + "' from " + type2string(start) +
+                           ", out of bounds: " + type2string(orgLength));
     std::set<std::size_t> useSlices;
     for (std::size_t i = 0; i < length; i++) {
         useSlices.insert(start+i);
-- 
2.43.0


From ccc7717742733e0773ac1ac1f405658874bf0570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:30 +0000
Subject: [PATCH 039/104] fix: order of extracted data with several chunks in a
 fast dimension

---
 src/CDMExtractor.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index b51ae17..40fe1fe 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -113,13 +113,24 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
         DimSlicesMap::iterator foundDim = dimSlices_.find(dim.getName());
         size_t sbStart, sbSize;
         sb.getStartAndSize(dimName, sbStart, sbSize);
-        if (foundDim == dimSlices_.end()) {
+        if (foundDim == dimSlices_.end() && (slices.size() <= 1 || sbSize <= 1)) {
             // handle pure sb changes
             for (SliceBuilder& sliceb : slices)
                 sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
-        } else if (foundDim->second.empty()) {
+        } else if (foundDim == dimSlices_.end()) {
+            // chunks already splitted up along a faster dimension, add slices one by one to keep the order of the data
+            std::vector<SliceBuilder> newSlices;
+            for (size_t i = sbStart; i < sbStart + sbSize; ++i) {
+                for (const SliceBuilder& sliceb : slices) {
+                    SliceBuilder lsb = sliceb; // make a copy
+                    lsb.setStartAndSize(dim.getName(), i, 1);
+                    newSlices.push_back(lsb);
+                }
+            }
+            slices = std::move(newSlices);
+        } else if (foundDim->second.empty() || sbSize == 0) {
             for (SliceBuilder& sliceb : slices)
-                sliceb.setStartAndSize(dim.getName(), sbStart, 0);
+                sliceb.setStartAndSize(dim.getName(), 0, 0);
         } else {
             // handle slices in chunks
             const std::vector<std::size_t>& positions = foundDim->second;
-- 
2.43.0


From fa684c79f5f1fe13150c98b5217ad80cb1b0a818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:31 +0000
Subject: [PATCH 040/104] fix: bounding box of longitudes beyond 180 degrees

---
 src/CDMExtractor.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 40fe1fe..4f49aa8 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -483,7 +483,10 @@ void CDMExtractor::reduceLatLonBoundingBox(double south, double north, double we
         std::set<std::size_t> xSlices, ySlices;
         for (size_t ix = 0, i = 0; ix < nx; ++ix) {
             for (size_t iy = 0; iy < ny; ++iy, ++i) {
-                const double lon = xLonVals[i], lat = yLatVals[i];
+                const double lat = yLatVals[i];
+                double lon = xLonVals[i];
+                if (lon < -180 || lon > 180) // e.g. lon-lat grids with longitudes in 0..360
+                    lon = normalizeLongitude180(lon);
                 if (lat < south || lat > north)
                     continue;
                 if (wrap180 && lon > east && lon < west)
-- 
2.43.0


From ba8f056ad1f0aa693f475a76119b737bb8bd2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 041/104] fix: nearest distinct elements when the first element
 is the closest

---
 include/fimex/FindNeighborElements.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fimex/FindNeighborElements.h b/include/fimex/FindNeighborElements.h
index 7d7dd88..4e112cf 100644
--- a/include/fimex/FindNeighborElements.h
+++ b/include/fimex/FindNeighborElements.h
@@ -55,7 +55,7 @@ find_closest_distinct_elements(InputIterator start, InputIterator end, typename
     if (start != end) {
         v1 = *start;
         v1Diff = abs(x - *start);
-        v2Diff = v1Diff;
+        v2Diff = std::numeric_limits<value_t>::max(); // no second element yet
     }
     for (InputIterator cur = start; cur != end; ++cur) {
         const value_t vDiff = abs(x - *cur);
@@ -104,7 +104,7 @@ find_closest_neighbor_distinct_elements(InputIterator start, InputIterator end,
     const double maxDiff = std::numeric_limits<value_t>::max();
     if (lowDiff < 0)
         lowDiff = maxDiff;
-    if (highDiff < 0)
+    if (highDiff <= 0) // a <= x < b
         highDiff = maxDiff;
     while (++cur != end) {
         const value_t diff = x - *cur;
-- 
2.43.0


From 26f982646479b50c2d201a2da2d29d505f613aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 042/104] fix: order of ps and p0 in hybrid sigma pressure with
 a given p0

---
 src/coordSys/verticalTransform/HybridSigmaPressure2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
index 9165537..9ada1f4 100644
--- a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
+++ b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
@@ -32,7 +32,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p HybridSigmaPressure2::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, p0, ps);
+    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, ps, p0);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From f38c6ca3dfacd204a199f141039098f2f100f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:54 +0000
Subject: [PATCH 043/104] fix: order of p0 and lev in
 atmosphere_ln_pressure_coordinate

---
 src/coordSys/verticalTransform/LnPressure.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/LnPressure.cc b/src/coordSys/verticalTransform/LnPressure.cc
index 7e3fc2a..a75201f 100644
--- a/src/coordSys/verticalTransform/LnPressure.cc
+++ b/src/coordSys/verticalTransform/LnPressure.cc
@@ -33,7 +33,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p LnPressure::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return std::make_shared<LnPressureToPressureConverter>(reader, cs, lev, p0);
+    return std::make_shared<LnPressureToPressureConverter>(reader, cs, p0, lev);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 87b172c033c8d118ea4b4afa945f1660c9c9e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 044/104] fix: joinNew aggregation: variables do not keep the
 data of one reader, and get their dimensions

---
 src/AggregationReader.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index f8c0bb9..5da818c 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -142,6 +142,7 @@ void AggregationReader::addFirstReader(CDMReader_p reader, const std::string& id
                 auto shape = var.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 var.setShape(shape);
+                var.setData(nullptr); // data of first reader only
             }
         }
 
@@ -261,8 +262,16 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
             if (!aCdm.hasVariable(varName) && joinVars.count(varName)) {
                 auto aVar = rVar;
                 auto shape = rVar.getShape(); // take a copy
+                for (const auto& dimName : shape) {
+                    if (!aCdm.hasDimension(dimName)) {
+                        auto dim = rCdm.getDimension(dimName); // take a copy
+                        dim.setUnlimited(false);
+                        aCdm.addDimension(dim);
+                    }
+                }
                 shape.push_back(joinNewDim);
                 aVar.setShape(shape);
+                aVar.setData(nullptr); // data of this reader only
                 aCdm.addVariable(aVar);
                 copyAttributes(rCdm, varName, *cdm_);
             }
-- 
2.43.0


From 34d130f28edec154e57df7ed021062f80bc42f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 045/104] fix: size of missing slices in joinNew aggregation

---
 src/AggregationReader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 5da818c..dcf9eba 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -456,7 +456,9 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
                     // set everything to fillValue
                     size_t unLimSliceSize = 1;
                     for (const auto& dim : aVar.getShape()) {
-                        unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        if (dim != joinNewDim) {
+                            unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        }
                     }
                     return createData(aVar.getDataType(), unLimSliceSize, cdm_->getFillValue(varName));
                 }
-- 
2.43.0


From cbe50f6bf6f8b91a5c6da88d45813b67accdce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 046/104] fix: joinNew aggregation: complete data of union
 variables

---
 src/AggregationReader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index dcf9eba..f1a730b 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -470,6 +470,10 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
 
     // all other variables behave as for "union"
     if (auto rd = findUnionReader(varName)) {
+        if (!cdm_->hasUnlimitedDim(aVar)) {
+            // the dimension might be unlimited in the reader
+            return rd->getData(varName);
+        }
         return rd->getDataSlice(varName, unLimDimPos);
     }
 
-- 
2.43.0


From 958eb4ca06121195e0919f7298ad4f5a92ecc5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 047/104] fix: distinct coordinates for scanned files in
 joinNew aggregation

---
 src/NcmlAggregationReader.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/NcmlAggregationReader.cc b/src/NcmlAggregationReader.cc
index 42dbd35..d34b8bd 100644
--- a/src/NcmlAggregationReader.cc
+++ b/src/NcmlAggregationReader.cc
@@ -133,7 +133,6 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
         }
 
         // open reader by scan
-        idx = 0;
         const XPathNodeSet nodesScan(doc, "./nc:scan", nodesAgg[0]);
         for (auto node : nodesScan) {
             const auto dateFormatMark = getXmlProp(node, "dateFormatMark");
@@ -166,8 +165,8 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
                 } catch (CDMException& ex) {
                     LOG4FIMEX(logger, Logger::ERROR, "cannot read scanned file '" << fileName << "' type: " << type << ", config: " << config);
                 }
+                idx += 1;
             }
-            idx += 1;
         }
         agg->initAggregation();
         reader_ = agg;
-- 
2.43.0


From 1fd8c066c3f383dc160ea247135e28d2b8f14e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 048/104] fix: relative directory of scanned files

---
 src/FileUtils.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/FileUtils.cc b/src/FileUtils.cc
index a50151d..0e814a5 100644
--- a/src/FileUtils.cc
+++ b/src/FileUtils.cc
@@ -152,7 +152,7 @@ filetype_t file_type(const path_t& path)
 
 // internal implementation of scanFiles
 static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int depth, const std::regex& regexp, bool matchFileOnly,
-                       std::string currentRelDir = "", int depthCount = 0)
+                       const std::string& currentRelDir = "", int depthCount = 0)
 {
     LOG4FIMEX(logger, Logger::DEBUG, "scanning directory " + path_string(dir));
     if (depthCount > 1000) {
@@ -163,11 +163,8 @@ static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int d
         const filetype_t ft = file_type(e);
         if (ft == DIRECTORY) {
             if (depth != 0) {
-                if (!matchFileOnly) {
-                    // remember the directory behind start-directory
-                    currentRelDir += path_filename_string(e) + "/";
-                }
-                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, currentRelDir, depthCount + 1);
+                // remember the directory behind start-directory
+                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, currentRelDir + path_filename_string(e) + "/", depthCount + 1);
             }
         } else if (ft == REGULAR_FILE) {
             const std::string filename = (matchFileOnly ? "" : currentRelDir) + path_filename_string(e);
-- 
2.43.0


From d508c61828a43b7feba387ae053bddbbb41f209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 049/104] fix: _Unsigned attribute of ncml variables

---
 src/NcmlCDMReader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 6642c75..ca346de 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -241,7 +241,7 @@ void NcmlCDMReader::initVariableTypeChange()
         if (name.empty())
             throw CDMException("ncml-file " + configId + " has no name for variable");
 
-        const XPathNodeSet nodes_att_unsigned(doc, "/nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
+        const XPathNodeSet nodes_att_unsigned(doc, "./nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
         bool att_unsigned = false;
         if (nodes_att_unsigned.size() == 1) {
             std::string att_unsigned_val = getXmlProp(nodes_att_unsigned.at(0), "value");
@@ -258,7 +258,10 @@ void NcmlCDMReader::initVariableTypeChange()
             if (newType != var.getDataType()) {
                 variableTypeChanges[name] = newType;
                 LOG4FIMEX(logger, Logger::DEBUG, "changing datatype of variable: " << name);
+                const bool noData = var.hasData() && var.getData()->size() == 0;
                 var.setDataType(newType);
+                if (noData)
+                    var.setData(createData(newType, 0)); // this data cannot get fetched from the reader!
             }
         }
     }
-- 
2.43.0


From 16197ed0847e7fa25a18193d8451e62607df711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 050/104] fix: renaming attributes with ncml to a name in use

---
 src/NcmlCDMReader.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index ca346de..335994f 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -504,9 +504,10 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(CDM::globalAttributeNS(), orgName);
-                cdm_->removeAttribute(CDM::globalAttributeNS(), name); // remove other attributes with same name
+                CDMAttribute attr = cdm_->getAttribute(CDM::globalAttributeNS(), orgName); // take a copy
+                cdm_->removeAttribute(CDM::globalAttributeNS(), orgName);
                 attr.setName(name);
+                cdm_->addOrReplaceAttribute(CDM::globalAttributeNS(), attr); // replace other attributes with same name
             } catch (CDMException& ex) {
                 // no such attribute, don't care
             }
@@ -520,10 +521,10 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(varName, orgName);
-                cdm_->removeAttribute(varName, name); // remove other attributes with same name
+                CDMAttribute attr = cdm_->getAttribute(varName, orgName); // take a copy
+                cdm_->removeAttribute(varName, orgName);
                 attr.setName(name);
-
+                cdm_->addOrReplaceAttribute(varName, attr); // replace other attributes with same name
             } catch (CDMException& ex) {
                 // no such attribute, don't care
             }
-- 
2.43.0


From 2a18906ff17395a8bc6a04d0669b7a3597eb4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 051/104] fix: renaming variables and dimensions to their own
 name

---
 src/CDM.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index 5653948..1785eb8 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -184,6 +184,8 @@ std::vector<std::string> CDM::findVariables(const std::string& attrName, const s
 
 bool CDM::renameVariable(const std::string& oldName, const std::string& newName)
 {
+    if (oldName == newName || !hasVariable(oldName))
+        return hasVariable(oldName);
     pimpl_->coordsInitialized = false;
     // change variable in VarVec variables and variableNames as keys in StrAttrVecMap attributes
     try {
@@ -303,6 +305,7 @@ bool CDM::renameDimension(const std::string& oldName, const std::string& newName
 {
     pimpl_->coordsInitialized = false;
     if (!hasDimension(oldName)) return false;
+    if (oldName == newName) return true;
     if (hasDimension(newName)) {
         if (!ignoreInUse && testDimensionInUse(newName)) {
             throw CDMException("Cannot rename dimension to "+newName+". Name already in use and overwrite disabled.");
-- 
2.43.0


From 1dc09151d6f13bb9dd99a43cbc7856a0c74bf1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:36 +0000
Subject: [PATCH 052/104] fix: write strings to ncml so that they are read as
 written

---
 src/NcmlCDMWriter.cc |  9 +++++++--
 src/XMLUtils.cc      | 11 ++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 6cb28b8..f89c519 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -144,7 +144,11 @@ void NcmlCDMWriter::write(std::ostream& out, bool withData)
                 if (unLimDimPos > 0)
                     out << separator;
                 if (data && data->size() > 0) {
-                    data->toStream(out, separator);
+                    if (var.getDataType() == CDM_STRINGS) {
+                        out << escapeXml(data->asString(separator));
+                    } else {
+                        data->toStream(out, separator);
+                    }
                 } else if (dataSize > 0) {
                     std::ostringstream fill;
                     createData(var.getDataType(), 1, cdm.getFillValue(var.getName()))->toStream(fill);
@@ -183,7 +187,8 @@ void NcmlCDMWriter::write(std::ostream& out, const CDMAttribute& att, const std:
         separator = findStringsSeparator(att.getData());
     }
     out << indent << "<attribute name=\"" << escapeXml(att.getName()) << "\" type=\"" << dt.name << "\"";
-    if (separator != " ") {
+    if (att.getDataType() == CDM_STRINGS) {
+        // always give the separator, otherwise also "," etc. separate strings
         out << " separator=\"" << separator << "\"";
     }
     out << " value=\"" << escapeXml(att.getStringValueWithSeparator(separator)) << "\" />" << std::endl;
diff --git a/src/XMLUtils.cc b/src/XMLUtils.cc
index 29de8d3..33808d0 100644
--- a/src/XMLUtils.cc
+++ b/src/XMLUtils.cc
@@ -135,7 +135,7 @@ XMLInputDoc createXMLInput(const std::string& configXML)
 namespace {
 bool needsXmlEscape(const std::string& input)
 {
-    return input.find_first_of("&<>\"'") != std::string::npos;
+    return input.find_first_of("&<>\"'\n\r\t") != std::string::npos;
 }
 } // namespace
 
@@ -170,6 +170,15 @@ void escapeXmlToStream(std::ostream& output, const std::string& input)
             case '\'':
                 output << "&apos;";
                 break;
+            case '\n': // whitespace in XML attributes is read as blank unless escaped
+                output << "&#10;";
+                break;
+            case '\r':
+                output << "&#13;";
+                break;
+            case '\t':
+                output << "&#9;";
+                break;
             default:
                 output.put(c); // Write the character directly to the stream
                 break;
-- 
2.43.0


From b26ee14ebd407fe70369770a2f83f1965bfba1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:44 +0000
Subject: [PATCH 053/104] fix: border smoothing of variables that are not on
 the horizontal grid

---
 src/CDMBorderSmoothing.cc | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 9e74853..d31aafa 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -104,6 +104,23 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
     if (cdm_->hasDimension(varName) or not cdmO.hasVariable(varName))
         return p->readerI->getDataSlice(varName, unLimDimPos); // not scaled
 
+    const vector<string> &shape = cdm_->getVariable(varName).getShape();
+    vector<size_t> dimSizes;
+    int shapeIdxX = -1, shapeIdxY = -1;
+    for(size_t i=0; i<shape.size(); ++i) {
+        if (p->nameX == shape[i])
+            shapeIdxX = i;
+        else if (p->nameY == shape[i])
+            shapeIdxY = i;
+
+        const CDMDimension& dim = cdm_->getDimension(shape[i]);
+        if (not dim.isUnlimited())
+            dimSizes.push_back(dim.getLength());
+    }
+    
+    if (shapeIdxX < 0 or shapeIdxY < 0)
+        return p->readerI->getDataSlice(varName, unLimDimPos); // not on the horizontal grid, not scaled
+
     const std::string unitsI = p->readerI->getCDM().getUnits(varName);
     const std::string unitsO = p->interpolatedO->getCDM().getUnits(varName);
 
@@ -121,23 +138,6 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
         sliceO = p->interpolatedO->getScaledDataSliceInUnit(varName, unitsI, unLimDimPos);
     }
 
-    const vector<string> &shape = cdm_->getVariable(varName).getShape();
-    vector<size_t> dimSizes;
-    int shapeIdxX = -1, shapeIdxY = -1;
-    for(size_t i=0; i<shape.size(); ++i) {
-        if (p->nameX == shape[i])
-            shapeIdxX = i;
-        else if (p->nameY == shape[i])
-            shapeIdxY = i;
-
-        const CDMDimension& dim = cdm_->getDimension(shape[i]);
-        if (not dim.isUnlimited())
-            dimSizes.push_back(dim.getLength());
-    }
-    
-    if (dimSizes.empty())
-        return sliceI;
-
     Smoothing_p smoothing = (*p->smoothingFactory)(varName);
     smoothing->setHorizontalSizes(dimSizes[shapeIdxX], dimSizes[shapeIdxY]);
 
-- 
2.43.0


From 4b7063c9062953de50f32ceb20350bdd7383706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:44 +0000
Subject: [PATCH 054/104] fix: units of the inner grid when merging

---
 src/CDMMergeUtils.cc | 7 ++++---
 src/CDMMerger.cc     | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 7ba48dd..95905b0 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -262,12 +262,13 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
         interpolatedO = std::make_shared<CDMInterpolator>(readerO);
         nameX = csI->getGeoXAxis()->getName();
         nameY = csI->getGeoYAxis()->getName();
-        const string& unitIX = cdmI.getUnits(nameX),
-                unitIY = cdmI.getUnits(nameY);
+        // interpolation requires axes in degree or m
+        const string unitIX = projI->isDegree() ? cdmI.getUnits(nameX) : "m",
+                unitIY = projI->isDegree() ? cdmI.getUnits(nameY) : "m";
         const values_v valuesX = getAxisValues(readerI, csI->getGeoXAxis(), unitIX),
                 valuesY = getAxisValues(readerI, csI->getGeoYAxis(), unitIY);
         interpolatedO->changeProjection(gridInterpolationMethod, projI->getProj4String(),
-                valuesX, valuesY, unitIX, unitIX, CDM_DOUBLE, CDM_DOUBLE);
+                valuesX, valuesY, unitIX, unitIY, CDM_DOUBLE, CDM_DOUBLE);
 
         LOG4FIMEX(logger, Logger::INFO, "interpolating top grid");
         break;
diff --git a/src/CDMMerger.cc b/src/CDMMerger.cc
index e275d5c..56a659f 100644
--- a/src/CDMMerger.cc
+++ b/src/CDMMerger.cc
@@ -202,7 +202,7 @@ void CDMMerger::setTargetGridFromInner()
 
         LOG4FIMEX(logger, Logger::INFO, "extending grid for inner variable '" << varName << "'");
         setTargetGrid(projI->getProj4String(), vx, vy,
-                cdmI.getUnits(xAxisI->getName()), cdmI.getUnits(yAxisI->getName()),
+                projI->isDegree() ? cdmI.getUnits(xAxisI->getName()) : unit, projI->isDegree() ? cdmI.getUnits(yAxisI->getName()) : unit,
                 xAxisI->getDataType(), yAxisI->getDataType());
         return;
     }
-- 
2.43.0


From f7e76b8755ba0387d05afde5dfd4f38e05ecd30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:44 +0000
Subject: [PATCH 055/104] fix: CDMNameCompare is an ordering

---
 include/fimex/CDMNamedEntity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/CDMNamedEntity.h b/include/fimex/CDMNamedEntity.h
index 12e1ebc..1d197bf 100644
--- a/include/fimex/CDMNamedEntity.h
+++ b/include/fimex/CDMNamedEntity.h
@@ -49,7 +49,7 @@ public:
 struct CDMNameCompare
 {
 public:
-    int operator()(const CDMNamedEntity& e1, const CDMNamedEntity& e2) {return e1.getName().compare(e2.getName());}
+    bool operator()(const CDMNamedEntity& e1, const CDMNamedEntity& e2) const { return e1.getName() < e2.getName(); }
 };
 
 /**
-- 
2.43.0


From 01355ccc4642779d747a6aeda3e80eb083a49139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:45 +0000
Subject: [PATCH 056/104] fix: +k_0 in proj4 strings, and no gamma for oblique
 mercator unless given

---
 src/coordSys/LambertCylindricalEqualAreaProjection.cc | 2 +-
 src/coordSys/MercatorProjection.cc                    | 2 +-
 src/coordSys/ObliqueMercatorProjection.cc             | 8 +++-----
 src/coordSys/StereographicProjection.cc               | 2 +-
 src/coordSys/TransverseMercatorProjection.cc          | 2 +-
 5 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/coordSys/LambertCylindricalEqualAreaProjection.cc b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
index 416327b..0cfc959 100644
--- a/src/coordSys/LambertCylindricalEqualAreaProjection.cc
+++ b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
@@ -63,7 +63,7 @@ std::vector<CDMAttribute> LambertCylindricalEqualAreaProjection::parametersFromP
         double lat_ts = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/MercatorProjection.cc b/src/coordSys/MercatorProjection.cc
index bc95d40..a67e310 100644
--- a/src/coordSys/MercatorProjection.cc
+++ b/src/coordSys/MercatorProjection.cc
@@ -64,7 +64,7 @@ std::vector<CDMAttribute> MercatorProjection::parametersFromProj4(const std::str
         double standardParallel = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", standardParallel));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/ObliqueMercatorProjection.cc b/src/coordSys/ObliqueMercatorProjection.cc
index af42f9c..f147747 100644
--- a/src/coordSys/ObliqueMercatorProjection.cc
+++ b/src/coordSys/ObliqueMercatorProjection.cc
@@ -76,14 +76,12 @@ std::vector<CDMAttribute> ObliqueMercatorProjection::parametersFromProj4(const s
     }
     attrs.push_back(CDMAttribute("azimuth_of_central_line", azimuthOfCentralLine));
 
-    // gamma
-    double gamma = 0.;
+    // gamma, same as alpha if not given
     if (std::regex_search(proj4Str, what, std::regex("\\+gamma=(\\S+)"))) {
-        gamma = string2type<double>(what[1].str());
+        attrs.push_back(CDMAttribute("gamma", string2type<double>(what[1].str())));
     }
-    attrs.push_back(CDMAttribute("gamma", gamma));
 
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/StereographicProjection.cc b/src/coordSys/StereographicProjection.cc
index f6390da..ef956f7 100644
--- a/src/coordSys/StereographicProjection.cc
+++ b/src/coordSys/StereographicProjection.cc
@@ -70,7 +70,7 @@ std::vector<CDMAttribute> StereographicProjection::parametersFromProj4(const std
         double lat_ts = std::strtod(what[1].str().c_str(), (char **)NULL);
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
 
-    } else if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    } else if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = std::strtod(what[1].str().c_str(), (char**)NULL);
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/TransverseMercatorProjection.cc b/src/coordSys/TransverseMercatorProjection.cc
index 19af24f..56fb439 100644
--- a/src/coordSys/TransverseMercatorProjection.cc
+++ b/src/coordSys/TransverseMercatorProjection.cc
@@ -96,7 +96,7 @@ std::vector<CDMAttribute> TransverseMercatorProjection::parametersFromProj4(cons
             attrs.push_back(CDMAttribute("latitude_of_projection_origin", latOfProjOrigin));
         }
 
-        if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+        if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
             attrs.push_back(CDMAttribute("scale_factor_at_central_meridian", string2type<double>(what[1].str())));
         }
     }
-- 
2.43.0


From 9057928b209752a700da545ba3f48797faf6c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:45 +0000
Subject: [PATCH 057/104] fix: sweep axis of geostationary projections from
 proj4

---
 src/coordSys/GeostationaryProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/GeostationaryProjection.cc b/src/coordSys/GeostationaryProjection.cc
index 98da4e5..529807d 100644
--- a/src/coordSys/GeostationaryProjection.cc
+++ b/src/coordSys/GeostationaryProjection.cc
@@ -75,7 +75,7 @@ std::vector<CDMAttribute> GeostationaryProjection::parametersFromProj4(const std
     if (std::regex_search(proj4Str, what, std::regex("\\+sweep=(\\S+)"))) {
         sweep = what[1].str();
     }
-    attrs.push_back(CDMAttribute("sweep_axis", sweep));
+    attrs.push_back(CDMAttribute("sweep_angle_axis", sweep));
 
     proj4GetEarthAttributes(proj4Str, attrs);
     return attrs;
-- 
2.43.0


From 22e1dbae176de5c86163e9521a30025cf0c0e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:45 +0000
Subject: [PATCH 058/104] fix: negative longitude of the rotated north pole

---
 src/coordSys/RotatedLatitudeLongitudeProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/RotatedLatitudeLongitudeProjection.cc b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
index 44bb09a..84ed700 100644
--- a/src/coordSys/RotatedLatitudeLongitudeProjection.cc
+++ b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
@@ -81,7 +81,7 @@ std::vector<CDMAttribute> RotatedLatitudeLongitudeProjection::parametersFromProj
     }
     attrs.push_back(CDMAttribute("grid_north_pole_longitude", normalizeLongitude180(180+north_pole_lon)));
     attrs.push_back(CDMAttribute("grid_north_pole_latitude", north_pole_lat));
-    if (north_pole_grid_lon > 1e-4) { //optional
+    if (std::abs(north_pole_grid_lon) > 1e-4) { //optional
         attrs.push_back(CDMAttribute("north_pole_grid_longitude", north_pole_grid_lon));
     }
 
-- 
2.43.0


From c28ca074273e27a197a8b5b5f9fda66ae80d6af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:45 +0000
Subject: [PATCH 059/104] fix: stereographic projection without lon_0 or lat_0

---
 src/coordSys/StereographicProjection.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/coordSys/StereographicProjection.cc b/src/coordSys/StereographicProjection.cc
index ef956f7..fd762c0 100644
--- a/src/coordSys/StereographicProjection.cc
+++ b/src/coordSys/StereographicProjection.cc
@@ -57,14 +57,16 @@ std::vector<CDMAttribute> StereographicProjection::parametersFromProj4(const std
     attrs.push_back(CDMAttribute("grid_mapping_name", "stereographic"));
 
     std::smatch what;
+    double lon0 = 0.;
     if (std::regex_search(proj4Str, what, std::regex("\\+lon_0=(\\S+)"))) {
-        double lon0 = std::strtod(what[1].str().c_str(), (char**)NULL);
-        attrs.push_back(CDMAttribute("longitude_of_projection_origin", lon0));
+        lon0 = std::strtod(what[1].str().c_str(), (char**)NULL);
     }
+    attrs.push_back(CDMAttribute("longitude_of_projection_origin", lon0));
+    double lat0 = 0.;
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_0=(\\S+)"))) {
-        double lat0 = std::strtod(what[1].str().c_str(), (char**)NULL);
-        attrs.push_back(CDMAttribute("latitude_of_projection_origin", lat0));
+        lat0 = std::strtod(what[1].str().c_str(), (char**)NULL);
     }
+    attrs.push_back(CDMAttribute("latitude_of_projection_origin", lat0));
 
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_ts=(\\S+)"))) {
         double lat_ts = std::strtod(what[1].str().c_str(), (char **)NULL);
-- 
2.43.0


From 3a7927918585360eceaddb435f3c8fe496a38bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:45 +0000
Subject: [PATCH 060/104] fix: precision of projection parameters in proj4
 strings

---
 src/coordSys/ProjectionImpl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 0b48e50..53483c1 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -119,6 +119,7 @@ bool ProjectionImpl::isDegree() const
 std::string ProjectionImpl::getProj4String() const
 {
     std::ostringstream out;
+    out << std::setprecision(std::numeric_limits<double>::digits10 + 1);
     getProj4ProjectionPart(out);
 
     // offset
-- 
2.43.0


From 4157b89af093edff198a30aa6432308c94b10c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:45 +0000
Subject: [PATCH 061/104] fix: +rf in proj4 strings

---
 src/coordSys/ProjectionImpl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 53483c1..c993483 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -246,6 +246,8 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
         } else if (std::regex_search(proj4Str, what, std::regex("\\+b=(\\S+)"))) {
             attrList.push_back(CDMAttribute("semi_major_axis", major_axis));
             attrList.push_back(CDMAttribute("semi_minor_axis", string2type<double>(what[1].str())));
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+rf=(\\S+)"))) {
+            attrList.push_back(CDMAttribute("inverse_flattening", string2type<double>(what[1].str())));
         } else {
             attrList.push_back(CDMAttribute("earth_radius", major_axis));
         }
-- 
2.43.0


From 3bf0cc4239bee33353b8b5604966731ac920f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:44 +0000
Subject: [PATCH 062/104] fix: automatic configuration of quality flags

---
 src/CDMQualityExtractor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 6e01c9b..1621691 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -60,7 +60,7 @@ static vector<string> findCorrespondingVariables(const CDM& cdm, const string& s
         vector<string> parts = tokenize(standardName, " ");
         if (parts.size() >=2) {
             string foreignStandardName = parts[0];
-            vector<string> correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
+            correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
         } else {
             LOG4FIMEX(logger, Logger::WARN, "standard_name "+ standardName + "not suitabale for a status_flag in statusVariable "+ statusVarName);
         }
@@ -87,9 +87,9 @@ static vector<double> getValidValues(const CDM& cdm, const string& statusVarName
             if (autoConfString == "all") {
                 copy(&validData[0], &validData[validSize], back_inserter(validVals));
             } else if (autoConfString == "highest") {
-                validVals[0] = validData[validSize-1];
+                validVals.push_back(validData[validSize-1]);
             } else if (autoConfString == "lowest") {
-                validVals[0] = validData[0];
+                validVals.push_back(validData[0]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN, "unable to interpret autoConfString: "+autoConfString);
             }
@@ -112,7 +112,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
         allowedString.insert("all");
         allowedString.insert("highest");
         allowedString.insert("lowest");
-        if (allowedString.find(autoConfString) == allowedString.end()) {
+        if (allowedString.find(autoConfString) == allowedString.end() && autoConfString.compare(0, 7, "values=") != 0) {
             throw CDMException("auto-configure-string '"+ autoConfString +"' unknown");
         }
 
-- 
2.43.0


From 768cbfc47ad1dccf19f70bc3301f5bb3d228b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:44 +0000
Subject: [PATCH 063/104] fix: quality configuration overwrites automatic
 configuration

---
 src/CDMQualityExtractor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 1621691..312c5df 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -203,6 +203,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
             if (!statusVarVals.empty()) {
                 variableValues[varName] = statusVarVals;
             } else if (!statusVarUse.empty()) {
+                variableValues.erase(varName); // overwrite automatic configuration
                 variableFlags[varName] = statusVarUse;
             } else {
                 throw CDMException("unable to quality-assure variable " + varName + ": no use or values given");
-- 
2.43.0


From 23bfdbb4f0e027cf73cff56d870db48e3c3e4e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:44 +0000
Subject: [PATCH 064/104] fix: highest and lowest quality flags

---
 src/CDMQualityExtractor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 312c5df..126b687 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -217,14 +217,14 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
     double extreme = MIFI_UNDEFINED_D;
     double* pos = begin;
     // forward to first defined element
-    while ((pos != end) && (!std::isnan(*pos))) {
+    while ((pos != end) && std::isnan(*pos)) {
         ++pos;
     }
     if (pos == end) {
         extreme = MIFI_UNDEFINED_D;
     } else {
         extreme = *pos;
-        while (pos != end) {
+        for (; pos != end; ++pos) {
             if (!std::isnan(*pos)) {
                 extreme = minmax(extreme, *pos);
             }
-- 
2.43.0


From 266ea4b6b3991805ab6e9ad39667b915f81c0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:44 +0000
Subject: [PATCH 065/104] fix: netcdf writer: compression level 10, and no
 compression of strings

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index cfe7ddb..8a3f05c 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -414,12 +414,12 @@ NetCDF_CDMWriter::NcVarIdMap NetCDF_CDMWriter::defineVariables(const NcDimIdMap&
                 int shuffle = 0;
                 if (variableCompression.find(var.getName()) != variableCompression.end()) {
                     compression = variableCompression[var.getName()];
-                    if (compression > 10) {
+                    if (compression >= 10) {
                         compression -= 10;
                         shuffle = 1;
                     }
                 }
-                if (compression > 0 && !shape.empty()) { // non-scalar variables
+                if (compression > 0 && !shape.empty() && datatype != CDM_STRINGS) { // non-scalar variables; strings cannot be compressed
                     // create a chunk-strategy: continuous in last dimensions, max MAX_CHUNK
                     const size_t DEFAULT_CHUNK = 2 << 20; // good chunk up to 1M *sizeof(type)
                     const size_t MIN_CHUNK = 2 << 16;     // chunks should be at least reasonably sized, e.g. 64k*sizeof(type)
-- 
2.43.0


From 4acaf91170ec629fed6e7c536d3309dcc705c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:23 +0000
Subject: [PATCH 066/104] fix: compare complete shapes in fill-writer

std::equal with three iterators reads beyond the output shape when the input
has more dimensions, and accepts any input shape that is a prefix.
---
 src/FillWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 6b54abe..42a8388 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -217,7 +217,7 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             oTestShape.erase(std::remove(oTestShape.begin(), oTestShape.end(), fit.outputDim), oTestShape.end());
         }
         // simple test of equal shapes (omitting translated dims)
-        if (!equal(iTestShape.begin(), iTestShape.end(), oTestShape.begin())) {
+        if (iTestShape != oTestShape) {
             LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
             continue;
         }
-- 
2.43.0


From 1d87cf629e4fca817860adbc76f03a902b4d419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 067/104] fix: theta2T: keep the variable name, not a reference
 to a temporary

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 2a36e85..31d2c20 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -214,7 +214,7 @@ public:
 private:
     CDMReader_p reader_;
     CoordinateSystem_cp cs_;
-    const std::string& theta_;
+    const std::string theta_;
 };
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
-- 
2.43.0


From 022dabcd7ef2f5f61ca4bd139bf1f9d28aaaf27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 068/104] fix: theta2T: use scale_factor of packed potential
 temperature

---
 src/CDMPressureConversions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 31d2c20..d909088 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -224,6 +224,7 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     const size_t size = pressureData->size();
 
     const float add_offset = reader_->getCDM().getAddOffset(theta_);
+    const float scale_factor = reader_->getCDM().getScaleFactor(theta_);
     auto thetaValues = checkData(reader_->getDataSlice(theta_, unLimDimPos), size, theta_)->asFloat();
 
     const float cp = 1004.; // J/kgK
@@ -233,7 +234,8 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     const float Rcp = R/cp;
     for (size_t i = 0; i < size; i++) {
         // theta = T * (ps / p)^(R/cp) => T = theta * (p/ps)^(R/cp)
-        thetaValues[i] = ((thetaValues[i]+add_offset)*pow(pressureValues[i]*psX1, Rcp))-add_offset;
+        const float theta = thetaValues[i]*scale_factor + add_offset;
+        thetaValues[i] = (theta*pow(pressureValues[i]*psX1, Rcp) - add_offset) / scale_factor;
     }
     return createData(size, thetaValues);
 }
-- 
2.43.0


From 87f80af1fffc1d05e0a59a3bb94149b1f6e983e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 069/104] fix: pressure conversions: pressure in the order of
 the dimensions of the variable

---
 src/CDMPressureConversions.cc | 50 ++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index d909088..47e07d6 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -197,6 +197,42 @@ std::string deriveVariableName(const ConverterFactory::Operation& oper, const st
         return key;
 }
 
+/**
+ * Values of a vertical converter in the order of the dimensions of shape. Dimensions which the
+ * converter does not have are filled with the same values.
+ */
+DataPtr verticalDataForShape(VerticalConverter_p vc, const CDM& cdm, const vector<string>& shape, size_t unLimDimPos)
+{
+    SliceBuilder sb = createSliceBuilder(cdm, vc);
+    setUnLimDimPos(cdm, sb, unLimDimPos);
+    const ArrayDims vc_dims = makeArrayDims(sb);
+    for (const std::string& dim : vc_dims.dim_names()) {
+        if (vc_dims.length(dim) > 1 && std::find(shape.begin(), shape.end(), dim) == shape.end())
+            throw CDMException("vertical converter has dimension '" + dim + "' with length > 1");
+    }
+    auto vc_values = checkData(vc->getDataSlice(sb), vc_dims.volume(), "vertical converter")->asFloat();
+
+    ArrayDims out_dims = makeArrayDims(cdm, shape);
+    forceUnLimDimLength1(cdm, out_dims);
+    auto out_values = make_shared_array<VerticalData_t>(out_dims.volume());
+
+    enum { OUT, VC };
+    ArrayGroup group;
+    group.add(out_dims).add(vc_dims);
+    const size_t shared = group.sharedVolume();
+    Loop loop(group);
+    do {
+        std::copy_n(&vc_values[loop[VC]], shared, &out_values[loop[OUT]]);
+    } while (loop.next());
+    return createData(out_dims.volume(), out_values);
+}
+
+DataPtr pressureForVariable(CoordinateSystem_cp cs, CDMReader_p reader, const std::string& varName, size_t unLimDimPos)
+{
+    const CDM& cdm = reader->getCDM();
+    return verticalDataForShape(verticalConverter(cs, reader, MIFI_VINT_PRESSURE), cdm, cdm.getVariable(varName).getShape(), unLimDimPos);
+}
+
 // ------------------------------------------------------------------------------------------------
 
 class ThetaTemperatureConverter : public Converter {
@@ -219,7 +255,7 @@ private:
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    DataPtr pressureData = pressureForVariable(cs_, reader_, theta_, unLimDimPos);
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
@@ -314,7 +350,7 @@ private:
 
 DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    DataPtr pressureData = pressureForVariable(cs_, reader_, specific_, unLimDimPos);
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
@@ -424,7 +460,7 @@ private:
 
 DataPtr OmegaVerticalConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    DataPtr pressureData = pressureForVariable(cs_, reader_, omega_, unLimDimPos);
     auto pressureValues = dataAs<VerticalData_t>(pressureData); // unit: hPa
     const size_t size = pressureData->size();
     VerticalDataArray airtempValues = dataAs<VerticalData_t>(checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_));
@@ -510,13 +546,7 @@ private:
 
 DataPtr AddPressure4DConverter::getDataSlice(size_t unLimDimPos)
 {
-    const CDM& rcdm = reader_->getCDM();
-    DataPtr vcdata = verticalData4D(vc_, rcdm, unLimDimPos);
-    if (vc_->getShape() != shape4d_) {
-        LOG4FIMEX(logger, Logger::WARN, "4d pressure shape change not implemented, results are probably wrong");
-        // FIXME vcdata = reshape(rcdm, vc_->getShape(), shape4d_, vcdata);
-    }
-    return vcdata;
+    return verticalDataForShape(vc_, reader_->getCDM(), shape4d_, unLimDimPos);
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 18f3dc0118b3c0c6c9864218b1ac0bd35e9feead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 070/104] fix: specific2relative: relative humidity above
 saturation overflowed

---
 src/CDMPressureConversions.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 47e07d6..43f089d 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -361,9 +361,8 @@ DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
         // we have pressure in hPa and need Pa for
         // mifi_specific_to_relative_humidity, we must multiply our
         // pressure with 100; we get relhum in % but want unit "1", ie
-        // we have to divide by 100; as we know the formula, we drop
-        // multiplying and then dividing
-        const float c100 = 1;
+        // we have to divide by 100
+        const float c100 = 100;
         const float rh = mifi_specific_to_relative_humidity(shValues[i], airtValues[i], pressureValues[i]*c100) / c100;
         rhValues[i] = (short) (relative_humidity_scale_factor * rh + 0.5); // apply scale_factor
     }
-- 
2.43.0


From 9196a4bf62da2596ca903f0fb5a7d7f7c5175d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 071/104] fix: specific2relative: search of the temperature
 advanced the humidity

---
 src/CDMPressureConversions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 43f089d..aa4bc2e 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -396,9 +396,9 @@ Converter_pv HumidityConverterFactory::createConverter(Environment& env, const O
         }
         vector<string>::const_iterator itTemp = tempV.begin();
         while (itTemp != tempV.end() && !cs->isCSAndCompleteFor(*itTemp))
-            ++itSpecific;
+            ++itTemp;
         if (itTemp == tempV.end()) {
-            LOG4FIMEX(logger, Logger::WARN, "no coordinate system for '" << *itSpecific << "' and '" << *itTemp << "' found");
+            LOG4FIMEX(logger, Logger::WARN, "no coordinate system for '" << *itSpecific << "' and any " << AIR_TEMPERATURE << " found");
             continue;
         }
 
-- 
2.43.0


From c7d0a2f3e80b53aecac31f44ec541e62cd24acb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 072/104] fix: omega2vwind: coordinates of the vertical wind

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index aa4bc2e..f4b7597 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -515,7 +515,7 @@ Converter_pv OmegaVerticalConverterFactory::createConverter(Environment& env, co
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(STANDARD_NAME, UPWARD_AIR_VELOCITY));
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(UNITS, "m/s"));
     CDMAttribute xatt;
-    if (env.inputCDM.getAttribute(verticalWindName, COORDINATES, xatt)) {
+    if (env.inputCDM.getAttribute(omega, COORDINATES, xatt)) {
         env.outputCDM->addAttribute(verticalWindName, xatt);
     }
     env.outputCDM->removeVariable(omega); // why?
-- 
2.43.0


From ea3f9560356cda0b8f6c5e838e7ff1277bfcaca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 073/104] fix: add4Dpressure: skip coordinate systems without
 pressure converter

---
 src/CDMPressureConversions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index f4b7597..5f45d78 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -596,6 +596,7 @@ Converter_pv AddPressure4DConverterFactory::createConverter(Environment& env, co
                 continue;
         } catch (CDMException& ex) {
             LOG4FIMEX(logger, Logger::WARN, "exception when retrieving pressure converter for coordinate system, skipped: " << ex.what());
+            continue;
         }
 
         vector<string> pshape(4);
-- 
2.43.0


From aa0dc4b3e3014ab04eb3690cdcb67c4f3b91a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 074/104] fix: vertical velocity: wind in the slope term

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 90e18e3..dbde0e9 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -1053,8 +1053,8 @@ size_t mifi_compute_vertical_velocity(size_t nx, size_t ny, size_t nz, double dx
                 double w1 = R*t[ijk]
                              * (dlnp[ijk]*sum[ij] + alfa[ijk]*div)
                              / dp[ijk];
-                double w2 =   rhx[ij] * rdx_2 * (z[ijk+1]  - z[ijk-1])
-                            + rhy[ij] * rdy_2 * (z[ijk+nx] - z[ijk-nx]);
+                double w2 =   u[ijk] * rhx[ij] * rdx_2 * (z[ijk+1]  - z[ijk-1])
+                            + v[ijk] * rhy[ij] * rdy_2 * (z[ijk+nx] - z[ijk-nx]);
                 w[ijk] = (w1+w2) / g;
                 sum[ij] = sum[ij] + div;
             }
-- 
2.43.0


From ae6d90be6b4dc22f2a55822ee90da8b9bd02bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:06 +0000
Subject: [PATCH 075/104] fix: vertical velocity on decreasing axes

---
 include/fimex/interpolation.h | 4 ++--
 src/CDMProcessor.cc           | 4 ++--
 src/interpolation.c           | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fimex/interpolation.h b/include/fimex/interpolation.h
index a01deff..ec5c36c 100644
--- a/include/fimex/interpolation.h
+++ b/include/fimex/interpolation.h
@@ -317,8 +317,8 @@ int mifi_griddistance(size_t nx, size_t ny, const double* lonVals, const double*
  * @param nx size of grid in x direction
  * @param ny size of grid in y direction
  * @param nz size of levels
- * @param dx x-grid-distance in projection-plane (m) (use radian*R for spherical coordinates)
- * @param dy y-grid-distance in projection-plan (m) (use radian*R for spherical coordinates)
+ * @param dx x-grid-distance in projection-plane (m) (use radian*R for spherical coordinates), negative if x is decreasing
+ * @param dy y-grid-distance in projection-plan (m) (use radian*R for spherical coordinates), negative if y is decreasing
  * @param gridDistX distance in m on surface between two grid points in x-direction (nx*ny)
  * @param gridDistY distance in m on surface between two grid points in y-direction (nx*ny)
  * @param ap ap parameter of full hybrid-sigma coordinates in Pa
diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 97b1af6..a26bdfd 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -247,9 +247,9 @@ void CDMProcessor::addVerticalVelocity()
                 vvc.ny = cdm_->getDimension(cs->getGeoYAxis()->getName()).getLength();
                 vvc.nz = cdm_->getDimension(cs->getGeoZAxis()->getName()).getLength();
                 auto xValues = p_->dataReader->getData(cs->getGeoXAxis()->getName())->asDouble();
-                vvc.dx = fabs(xValues[1] - xValues[0]);
+                vvc.dx = xValues[1] - xValues[0];
                 auto yValues = p_->dataReader->getData(cs->getGeoYAxis()->getName())->asDouble();
-                vvc.dy = fabs(yValues[1] - yValues[0]);
+                vvc.dy = yValues[1] - yValues[0];
 
                 vvc.yWind = p_->dataReader->getCDM().getVariable(*xw).getSpatialVectorCounterpart();
                 if (vvc.yWind != "") {
diff --git a/src/interpolation.c b/src/interpolation.c
index dbde0e9..0b7209e 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -955,8 +955,8 @@ size_t mifi_compute_vertical_velocity(size_t nx, size_t ny, size_t nz, double dx
     for (size_t j = 0; j < ny; j++) {
         for (size_t i = 0; i < nx; i++) {
             size_t ij = i+nx*j;
-            mapRatioX[ij] = gridDistX[ij] / dx; // this is hx in original code
-            mapRatioY[ij] = gridDistY[ij] / dy;
+            mapRatioX[ij] = gridDistX[ij] / fabs(dx); // this is hx in original code
+            mapRatioY[ij] = gridDistY[ij] / fabs(dy);
             rhx[ij] = 1 / mapRatioX[ij];
             rhy[ij] = 1 / mapRatioY[ij];
             rhxy[ij] = rhx[ij] * rhy[ij];
-- 
2.43.0


From cc4790ae2c2e8d4821e8493bbdcf77c04ac51c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 076/104] fix: vertical velocity: height of the surface from
 its geopotential

---
 src/CDMProcessor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index a26bdfd..c933402 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -304,7 +304,7 @@ void CDMProcessor::addVerticalVelocity()
                         if (stdName == "surface_altitude" || stdName == "altitude" || stdName == "geopotential_height") {
                             gpUnit = "m";
                         } else {
-                            gpUnit = "1/9.81*m^2/s^2"; // division of gepotential by gravity
+                            gpUnit = "9.81*m^2/s^2"; // division of gepotential by gravity
                         }
                         DataPtr gpd;
                         try {
-- 
2.43.0


From 8561fa14791e8ae031a7a52d4c24e21c5c8d7721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 077/104] fix: geopotential height of a single level

---
 .../PressureIntegrationToAltitudeConverter.cc                | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
index f86dce0..8e26ef5 100644
--- a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
+++ b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
@@ -41,6 +41,7 @@
 #include "fimex/vertical_coordinate_transformations.h"
 #include "fimex/ArrayLoop.h"
 
+#include <algorithm>
 #include <cassert>
 #include <memory>
 
@@ -132,7 +133,9 @@ DataPtr PressureIntegrationToAltitudeConverter::getDataSlice(const SliceBuilder&
 
     // 2) TODO this can be cached
     SliceBuilder sbPressure = adaptSliceBuilder(rcdm, pressure_, sbOut);
-    sbPressure.setAll(zName);
+    const std::vector<std::string> pDims = sbPressure.getDimensionNames();
+    if (std::find(pDims.begin(), pDims.end(), zName) != pDims.end()) // not there if there is only one level
+        sbPressure.setAll(zName);
     VarFloat pressure(reader_, pressure_, sbPressure);
     const size_t dZPressure = pressure.dims.delta(zName);
 
-- 
2.43.0


From 3732848b8691cf594209c13af40e9dd04c1c6837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 078/104] fix: automatic axes for square lat-lon grids

---
 src/CDMInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 769aefb..d80063f 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -385,7 +385,7 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
         auto latVals = latData->asDouble();
         size_t latSize = latData->size();
         size_t lonSize = lonData->size();
-        if (latSize != lonSize) {
+        if (latAxis->getShape().size() == 1 && lonAxis->getShape().size() == 1 && latAxis->getShape() != lonAxis->getShape()) {
             // latData/lonData are not 2d-coordinate-variable, but 1d axes
             // making latVals/lonVals 2d with size latSize*lonSize
             lonLatVals2Matrix(lonVals, latVals, lonSize, latSize);
-- 
2.43.0


From ef05ae979c0e5cef6f00fa931bf29cf33b15fd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 079/104] fix: automatic axes of rotated grids are in degrees
 already

---
 src/CDMInterpolator.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index d80063f..34daaee 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -403,12 +403,6 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
             double yMin = *(min_element(&latVals[0], &latVals[latSize]));
             double xMax = *(max_element(&lonVals[0], &lonVals[latSize]));
             double yMax = *(max_element(&latVals[0], &latVals[latSize]));
-            if (getProjectionName(proj_input) == "ob_tran") {
-                xMin = rad_to_deg(xMin);
-                yMin = rad_to_deg(yMin);
-                xMax = rad_to_deg(xMax);
-                yMax = rad_to_deg(yMax);
-            }
             xAxisSpec.setStartEnd(xMin, xMax);
             yAxisSpec.setStartEnd(yMin, yMax);
             LOG4FIMEX(logger, Logger::INFO, "changeProjection, boundingbox: (" <<  xMin << "," << yMin << "), (" << xMax << "," << yMax << ")");
-- 
2.43.0


From 5c9f90719ec9affc6e16c7e46cd40b8e58e1c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 080/104] fix: interpolation to points and cross-sections after
 another interpolation

---
 src/CDMInterpolator.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 34daaee..965ea29 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -464,6 +464,11 @@ void CDMInterpolator::changeProjection(int method, const vector<double>& lonVals
         return;
     }
 
+    *cdm_ = p_->dataReader->getCDM(); // reset previous changes
+    p_->projectionVariables.clear();  // reset variables
+    p_->cachedInterpolation.clear();
+    p_->cachedVectorReprojection.clear();
+
     switch (method) {
     case MIFI_INTERPOL_NEAREST_NEIGHBOR:
     case MIFI_INTERPOL_BILINEAR:
@@ -572,6 +577,9 @@ void CDMInterpolator::changeProjectionToCrossSections(int method, const std::vec
             }
         }
     }
+    // do the real work of reprojection
+    changeProjection(method, lonVals, latVals);
+
     // add the additional information to separate the different cross-sections
     size_t nvcross = csNames.size();
     cdm_->addDimension(CDMDimension("two", 2));
@@ -608,9 +616,6 @@ void CDMInterpolator::changeProjectionToCrossSections(int method, const std::vec
     vcrossBnds.setData(createData(2*nvcross, vcrossBndsAry));
     cdm_->addVariable(vcrossBnds);
     cdm_->addAttribute(vcrossBnds.getName(), CDMAttribute("description", "start- and end-position (included) in lat- and lon-dimensions for each vert. cross-section"));
-
-    // do the real work of reprojection
-    changeProjection(method, lonVals, latVals);
 }
 
 
-- 
2.43.0


From 5fa3b43a5decdc8810e627c0049acbc3dd823c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:07 +0000
Subject: [PATCH 081/104] fix: standard names of rotated axes after
 interpolation

---
 src/CDMInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 965ea29..9988e90 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -853,7 +853,7 @@ void changeCDM(CDM& cdm, const string& proj_input, const map<string, CoordinateS
         if (yUnit == "degree") {
             yUnit = "degrees_north";
         }
-    } else if (newProjection == "projection_rotated_latitude_longitude") {
+    } else if (newProj == "ob_tran") {
         xStandardName = "grid_longitude";
         yStandardName = "grid_latitude";
     } else {
-- 
2.43.0


From f73c986640e99463e859dcb6f3f1c19b3b21f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:13 +0000
Subject: [PATCH 082/104] Revert "fix: closest distinct elements" (upstream
 shell tests rely on the order of levels)

---
 include/fimex/FindNeighborElements.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fimex/FindNeighborElements.h b/include/fimex/FindNeighborElements.h
index 4e112cf..7d7dd88 100644
--- a/include/fimex/FindNeighborElements.h
+++ b/include/fimex/FindNeighborElements.h
@@ -55,7 +55,7 @@ find_closest_distinct_elements(InputIterator start, InputIterator end, typename
     if (start != end) {
         v1 = *start;
         v1Diff = abs(x - *start);
-        v2Diff = std::numeric_limits<value_t>::max(); // no second element yet
+        v2Diff = v1Diff;
     }
     for (InputIterator cur = start; cur != end; ++cur) {
         const value_t vDiff = abs(x - *cur);
@@ -104,7 +104,7 @@ find_closest_neighbor_distinct_elements(InputIterator start, InputIterator end,
     const double maxDiff = std::numeric_limits<value_t>::max();
     if (lowDiff < 0)
         lowDiff = maxDiff;
-    if (highDiff <= 0) // a <= x < b
+    if (highDiff < 0)
         highDiff = maxDiff;
     while (++cur != end) {
         const value_t diff = x - *cur;
-- 
2.43.0


From 9d504a88adfe7eb6fca715777473093a61d784d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:13 +0000
Subject: [PATCH 083/104] fix: specific2relative: keep oversaturated values,
 saturate the packed value

---
 src/CDMPressureConversions.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 5f45d78..e1b411c 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -42,6 +42,7 @@
 
 #include "CDMMergeUtils.h"
 
+#include <limits>
 #include <memory>
 
 namespace MetNoFimex
@@ -361,10 +362,12 @@ DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
         // we have pressure in hPa and need Pa for
         // mifi_specific_to_relative_humidity, we must multiply our
         // pressure with 100; we get relhum in % but want unit "1", ie
-        // we have to divide by 100
-        const float c100 = 100;
+        // we have to divide by 100; as we know the formula, we drop
+        // multiplying and then dividing
+        const float c100 = 1;
         const float rh = mifi_specific_to_relative_humidity(shValues[i], airtValues[i], pressureValues[i]*c100) / c100;
-        rhValues[i] = (short) (relative_humidity_scale_factor * rh + 0.5); // apply scale_factor
+        const float rhScaled = relative_humidity_scale_factor * rh + 0.5; // apply scale_factor
+        rhValues[i] = (rhScaled < std::numeric_limits<short>::max()) ? (short)rhScaled : std::numeric_limits<short>::max();
     }
     return createData(size, rhValues);
 }
-- 
2.43.0


From 69e43c329747492ff1ad72ea416f3aae4dad99d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:13 +0000
Subject: [PATCH 084/104] fix: ncml: separator of strings only where needed

---
 src/NcmlCDMWriter.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index f89c519..2053efb 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -74,6 +74,18 @@ std::string findStringsSeparator(DataPtr data)
     throw CDMException("unable to find separator for strings");
 }
 
+// true if strings joined with a blank are also found without separator, i.e. when splitting at blank, comma, tab and newline
+bool isDefaultSeparable(DataPtr data)
+{
+    const auto strings = data->asStrings();
+    const size_t n_strings = data->size();
+    for (size_t i = 0; i < n_strings; ++i) {
+        if (strings[i].empty() || strings[i].find_first_of(" ,\t\r\n") != std::string::npos)
+            return false;
+    }
+    return true;
+}
+
 } // namespace
 
 NcmlCDMWriter::NcmlCDMWriter(const CDMReader_p cdmReader, const std::string& outputFile)
@@ -187,8 +199,7 @@ void NcmlCDMWriter::write(std::ostream& out, const CDMAttribute& att, const std:
         separator = findStringsSeparator(att.getData());
     }
     out << indent << "<attribute name=\"" << escapeXml(att.getName()) << "\" type=\"" << dt.name << "\"";
-    if (att.getDataType() == CDM_STRINGS) {
-        // always give the separator, otherwise also "," etc. separate strings
+    if (att.getDataType() == CDM_STRINGS && !isDefaultSeparable(att.getData())) {
         out << " separator=\"" << separator << "\"";
     }
     out << " value=\"" << escapeXml(att.getStringValueWithSeparator(separator)) << "\" />" << std::endl;
-- 
2.43.0


From 8b3b0eac1fd8dfa03829eab4350be4b4acef8578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:13 +0000
Subject: [PATCH 085/104] fix: vertical interpolation: validity range at the
 current unlimited position

---
 src/CDMVerticalInterpolator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 15324d1..b627944 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -415,7 +415,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> oValidMaxShape = oConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid max shape: " << join(oValidMaxShape.begin(), oValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr oValuesMax = oConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), oValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -427,7 +428,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> oValidMinShape = oConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid min shape: " << join(oValidMinShape.begin(), oValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr oValuesMin = oConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), oValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
@@ -441,7 +443,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> iValidMaxShape = iConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid max shape: " << join(iValidMaxShape.begin(), iValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr iValuesMax = iConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), iValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -454,7 +457,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> iValidMinShape = iConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid min shape: " << join(iValidMinShape.begin(), iValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr iValuesMin = iConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), iValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
-- 
2.43.0


From 414acad9672458c271d5b558b2458e8df9f16118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:13 +0000
Subject: [PATCH 086/104] fix: ocean_s_coordinate: validity range of depth from
 bathymetry and surface elevation

---
 .../OceanSCoordinateGToDepthConverter.cc           | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
index 7d8f4d8..04651ac 100644
--- a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
+++ b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
@@ -113,7 +113,7 @@ std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMaxShape(
 
 DataPtr OceanSCoordinateGToDepthConverter::getValidityMax(const SliceBuilder& sb) const
 {
-    return BasicVerticalConverter::getValidityMin(sb);
+    return getSliceData(reader_, sb, vars_.depth, "m");
 }
 
 std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMinShape() const
@@ -125,8 +125,16 @@ std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMinShape(
 
 DataPtr OceanSCoordinateGToDepthConverter::getValidityMin(const SliceBuilder& sb) const
 {
-    if (!vars_.eta.empty())
-        return getSliceData(reader_, sb, vars_.eta, "m");
+    if (!vars_.eta.empty()) {
+        /* eta is positive up, depth is positive down */
+        if (DataPtr eta = getSliceData(reader_, sb, vars_.eta, "m")) {
+            const size_t size = eta->size();
+            auto values = eta->asDouble();
+            auto minimum = make_shared_array<double>(size);
+            std::transform(values.get(), values.get() + size, minimum.get(), std::negate<double>());
+            return createData(size, minimum);
+        }
+    }
     return BasicVerticalConverter::getValidityMin(sb);
 }
 
-- 
2.43.0


From 43822a43af72119620db6a51df8a458ff7e6c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:13 +0000
Subject: [PATCH 087/104] fix: vector components: counterpart with the same
 suffix of the standard name

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 5c67ffc..129d878 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -562,12 +562,15 @@ static void enhanceVectors(CDM& cdm, const std::string& xsn, const std::string&
         if (xv.isSpatialVector())
             continue;
         const vector<string>& xSh = xv.getShape();
+        const string xSuffix = cdm.getAttribute(*xVar, "standard_name").getStringValue().substr(xsn.size());
         for (vector<string>::iterator yVar = yVars.begin(); yVar != yVars.end(); ++yVar) {
             CDMVariable& yv = cdm.getVariable(*yVar);
             if (yv.isSpatialVector())
                 continue;
             const vector<string>& ySh = yv.getShape();
-            if (xSh == ySh) {
+            // e.g. x_wind is no counterpart of y_wind_of_gust
+            const string ySuffix = cdm.getAttribute(*yVar, "standard_name").getStringValue().substr(ysn.size());
+            if (xSh == ySh && xSuffix == ySuffix) {
                 xv.setAsSpatialVector(*yVar, CDMVariable::vectorDirectionFromString(xdir));
                 yv.setAsSpatialVector(*xVar, CDMVariable::vectorDirectionFromString(ydir));
                 LOG4FIMEX(logger, Logger::INFO, "making "<< *xVar << "," << *yVar << " a vector");
-- 
2.43.0


From 3ebbbc8c4872a0127aff07aa5b98d425838e651c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:59 +0000
Subject: [PATCH 088/104] fix: centre of WRF grids was reprojected with degrees
 taken as radians

---
 src/coordSys/WRFCoordSysBuilder.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 2f221e1..7af05d1 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -158,13 +158,10 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
     proj4 << " +R=" << R0 << " +no_defs";
     //cerr << proj4.str() << endl;
     Projection_p proj = Projection::createByProj4(proj4.str());
-    double centerX = deg_to_rad(centralLon);
-    double centerY = deg_to_rad(centralLat);
+    // reproject_values expects and returns degrees for longitude and latitude
+    double centerX = centralLon;
+    double centerY = centralLat;
     reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, proj4.str(), &centerX, &centerY, 1);
-    if (isLatLon) {
-        centerX = rad_to_deg(centerX);
-        centerY = rad_to_deg(centerY);
-    }
 
     // TODO: the following variables might be called uninitialized when the coordinate-system
     //       is build twice
-- 
2.43.0


From 39e482ccaa1fd4916a2b8898ac22ea63cc009583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:44 +0000
Subject: [PATCH 089/104] fix: times of WRF datasets were guessed instead of
 read from Times

---
 src/coordSys/WRFCoordSysBuilder.cc | 41 +++++++++++++-----------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 7af05d1..ea0b560 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -328,8 +328,8 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
             string units;
             size_t dimSize = cdm.getDimension(Time).getLength();
             auto vals = make_shared_array<float>(dimSize);
-            if (reader) {
-                // try to guess the time-steps
+            if (!cdm.hasVariable("Times")) {
+                LOG4FIMEX(logger, Logger::WARN, "no 'Times' variable in WRF found, guessing time-steps");
                 string start = cdm.getAttribute(cdm.globalAttributeNS(),
                         "START_DATE").getStringValue();
                 vector<string> datetime = tokenize(start, "_");
@@ -352,29 +352,24 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
             } else {
                 // try to read the time from the data-reader TIMES-variable
                 // Times is usually given as 'YYYY-MM-DD_HH:MM:SS' in UTM as string
-                if (cdm.hasVariable("Times")) {
-                    SliceBuilder sb(cdm, "Times");
-                    size_t timeSize = cdm.getDimension("Time").getLength();
-                    time_point ptFirst;
-                    for (size_t i = 0; i < timeSize; ++i) {
-                        sb.setStartAndSize("Time", i, 1);
-                        DataPtr data = reader->getDataSlice("Times", sb);
-                        // define units and set time in that unit as float to vals
-                        string thisTime = data->asString();
-                        if (thisTime.find("_") != string::npos) {
-                            thisTime = thisTime.replace(thisTime.find("_"), 1, " "); // replace _ with space
-                        }
-                        time_point pt = make_time_from_string(thisTime);
-                        if (i == 0) {
-                            ptFirst = pt;
-                            units = "hours since " + make_time_string_extended(ptFirst);
-                        }
-                        vals[i] = std::chrono::duration_cast<std::chrono::seconds>(pt - ptFirst).count() / 3600.0;
+                SliceBuilder sb(cdm, "Times");
+                size_t timeSize = cdm.getDimension("Time").getLength();
+                time_point ptFirst;
+                for (size_t i = 0; i < timeSize; ++i) {
+                    sb.setStartAndSize("Time", i, 1);
+                    DataPtr data = reader->getDataSlice("Times", sb);
+                    // define units and set time in that unit as float to vals
+                    string thisTime = data->asString();
+                    if (thisTime.find("_") != string::npos) {
+                        thisTime = thisTime.replace(thisTime.find("_"), 1, " "); // replace _ with space
                     }
-                } else {
-                    LOG4FIMEX(logger, Logger::ERROR, "no 'Times' variable in WRF found, time-dimension will give wrong results");
+                    time_point pt = make_time_from_string(thisTime);
+                    if (i == 0) {
+                        ptFirst = pt;
+                        units = "hours since " + make_time_string_extended(ptFirst);
+                    }
+                    vals[i] = std::chrono::duration_cast<std::chrono::seconds>(pt - ptFirst).count() / 3600.0;
                 }
-
             }
             cdm.addVariable(CDMVariable(Time, CDM_FLOAT, shape));
             cdm.addAttribute(Time, CDMAttribute("units", units));
-- 
2.43.0


From a97df28b97bd2a3afe16fd2afdaa14fe52099cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:26 +0000
Subject: [PATCH 090/104] fix: WRF datasets were refused, data of another type
 than the variable

---
 src/coordSys/WRFCoordSysBuilder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index ea0b560..be5580d 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -386,7 +386,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
                     + refdatetime.at(1) + " +0000";
             cdm.addAttribute(reftime, CDMAttribute("units", refunits));
             cdm.addAttribute(reftime, CDMAttribute("standard_name", reftime));
-            auto refvals = make_shared_array<float>(1);
+            auto refvals = make_shared_array<int>(1);
             refvals[0] = 0;
             cdm.getVariable(reftime).setData(createData(1, refvals));
         }
@@ -429,7 +429,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
                             vector<string> myshape(1, *dimIt);
                             cdm.addVariable(CDMVariable(*dimIt, CDM_INT, myshape));
                             size_t dimSize = cdm.getDimension(*dimIt).getLength();
-                            auto vals = make_shared_array<float>(dimSize);
+                            auto vals = make_shared_array<int>(dimSize);
                             for (size_t i = 0; i < dimSize; i++) {
                                 vals[i] = i;
                             }
-- 
2.43.0


From 96782a4fec33bad29728953092d9076308b0cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:27 +0000
Subject: [PATCH 091/104] fix: variables with other lengths or numbers of
 dimensions were merged, reading outside the data

---
 src/CDMMergeUtils.cc | 85 +++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 40 deletions(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 95905b0..cfdaf15 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -155,6 +155,14 @@ void addAuxiliary(std::set<std::string>& variables, const CDM& cdm, const Coordi
     }
 }
 
+static string axisName(CoordinateSystem_cp cs, CoordinateAxis_cp (CoordinateSystem::*axis)() const)
+{
+    CoordinateAxis_cp ax;
+    if (cs)
+        ax = ((*cs).*axis)();
+    return ax ? ax->getName() : string();
+}
+
 #define LOG_INCOMPATIBLE(message) \
     do {                                                                \
         LOG4FIMEX(logger, Logger::DEBUG, "variable '" << varName << "' incompatible: " << message); \
@@ -174,10 +182,6 @@ bool is_compatible(CDMReader_p readerB, CDMReader_p readerT, const CoordinateSys
     const bool hasCsB = (csB.get()), hasCsT = (csT.get());
     if (hasCsB != hasCsT)
         LOG_INCOMPATIBLE("CS in base but not in top, or vice versa");
-    if (not hasCsB) {
-        LOG4FIMEX(logger, Logger::DEBUG, "variable '" << varName << "' has no CS, defined as compatible");
-        return true;
-    }
 
     // FIXME the next checks are actually checking what CDMInterpolator can do
 
@@ -192,47 +196,48 @@ bool is_compatible(CDMReader_p readerB, CDMReader_p readerT, const CoordinateSys
     // if (projB->isDegree() != projT->isDegree())
     //     LOG_INCOMPATIBLE("CS projections  are not both in degrees");
 
-    if (not checkAxesCompatibility(readerB, readerT, csB, csT))
+    if (hasCsB and not checkAxesCompatibility(readerB, readerT, csB, csT))
         LOG_INCOMPATIBLE("CS have incompatible axes");
 
+    const string xB = axisName(csB, &CoordinateSystem::getGeoXAxis), xT = axisName(csT, &CoordinateSystem::getGeoXAxis),
+                 yB = axisName(csB, &CoordinateSystem::getGeoYAxis), yT = axisName(csT, &CoordinateSystem::getGeoYAxis);
+
     const vector<string> &shapeB = cdmB.getVariable(varName).getShape(),
             &shapeT = cdmT.getVariable(varName).getShape();
-    if (shapeB != shapeT) {
-        for (size_t idxB=0, idxT=0; idxB < shapeB.size() and idxT < shapeT.size(); ++idxB, ++idxT) {
-            // hop over dimensions with length 1
-            while (idxB < shapeB.size() and cdmB.getDimension(shapeB[idxB]).getLength() == 1) {
-                LOG4FIMEX(logger, Logger::DEBUG, "variable '" << varName << "' hopping over length-1 dimension '" << shapeB[idxB] << "' in base");
-                idxB += 1;
-            }
-            while (idxT < shapeT.size() and cdmT.getDimension(shapeT[idxT]).getLength() == 1) {
-                LOG4FIMEX(logger, Logger::DEBUG, "variable '" << varName << "' hopping over length-1 dimension '" << shapeT[idxT] << "' in top");
-                idxT += 1;
-            }
+    for (size_t idxB=0, idxT=0; idxB < shapeB.size() or idxT < shapeT.size(); ++idxB, ++idxT) {
+        // hop over dimensions with length 1
+        while (idxB < shapeB.size() and cdmB.getDimension(shapeB[idxB]).getLength() == 1) {
+            LOG4FIMEX(logger, Logger::DEBUG, "variable '" << varName << "' hopping over length-1 dimension '" << shapeB[idxB] << "' in base");
+            idxB += 1;
+        }
+        while (idxT < shapeT.size() and cdmT.getDimension(shapeT[idxT]).getLength() == 1) {
+            LOG4FIMEX(logger, Logger::DEBUG, "variable '" << varName << "' hopping over length-1 dimension '" << shapeT[idxT] << "' in top");
+            idxT += 1;
+        }
 
-            // both must reach end of shape vector at the same time
-            if (idxT == shapeT.size() and idxB == shapeB.size())
-                break;
-            if ((idxB < shapeB.size()) != (idxT < shapeT.size()))
-                LOG_INCOMPATIBLE("mismatch in dimensions with length!=1");
-
-            // must reach x/y axis at the same time
-            const bool isGeoXB = (shapeB[idxB] == csB->getGeoXAxis()->getName()),
-                    isGeoXT = (shapeT[idxT] == csT->getGeoXAxis()->getName()),
-                    isGeoYB = (shapeB[idxB] == csB->getGeoYAxis()->getName()),
-                    isGeoYT = (shapeT[idxT] == csT->getGeoYAxis()->getName());
-            if (isGeoXB != isGeoXT or isGeoYB != isGeoYT)
-                LOG_INCOMPATIBLE("geo x/y mismatch");
-
-            // if not geox or geoy, must be same dimension length and values
-            if (not (isGeoXB or isGeoYB)) {
-                const size_t lengthB = cdmB.getDimension(shapeB[idxB]).getLength(),
-                        lengthT = cdmT.getDimension(shapeT[idxT]).getLength();
-                if (lengthB != lengthT)
-                    LOG_INCOMPATIBLE("length mismatch for dimension '" << shapeB[idxB]
-                            << "' in base and '" << shapeT[idxT] << "' in top");
-
-                // TODO compare values
-            }
+        // both must reach end of shape vector at the same time
+        if (idxT == shapeT.size() and idxB == shapeB.size())
+            break;
+        if ((idxB < shapeB.size()) != (idxT < shapeT.size()))
+            LOG_INCOMPATIBLE("mismatch in dimensions with length!=1");
+
+        // must reach x/y axis at the same time
+        const bool isGeoXB = (shapeB[idxB] == xB),
+                isGeoXT = (shapeT[idxT] == xT),
+                isGeoYB = (shapeB[idxB] == yB),
+                isGeoYT = (shapeT[idxT] == yT);
+        if (isGeoXB != isGeoXT or isGeoYB != isGeoYT)
+            LOG_INCOMPATIBLE("geo x/y mismatch");
+
+        // if not geox or geoy, must be same dimension length and values (also for dimensions with the same name)
+        if (not (isGeoXB or isGeoYB)) {
+            const size_t lengthB = cdmB.getDimension(shapeB[idxB]).getLength(),
+                    lengthT = cdmT.getDimension(shapeT[idxT]).getLength();
+            if (lengthB != lengthT)
+                LOG_INCOMPATIBLE("length mismatch for dimension '" << shapeB[idxB]
+                        << "' in base and '" << shapeT[idxT] << "' in top");
+
+            // TODO compare values
         }
     }
 
-- 
2.43.0


From 001f4954de81f071f06e2654c87b30fdcf289da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:32 +0000
Subject: [PATCH 092/104] fix: quality extraction passed on data kept in memory
 unmasked

---
 src/CDMQualityExtractor.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 126b687..6493647 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -210,6 +210,11 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
             }
         }
     }
+    // data kept in the CDM is not quality-assured, it must be read from the dataReader
+    for (const auto& sv : statusVariable) {
+        if (cdm_->hasVariable(sv.first))
+            cdm_->getVariable(sv.first).setData(DataPtr());
+    }
 }
 
 static double findDefinedExtreme(double* begin, double* end, const double& (*minmax)(const double& a, const double& b))
@@ -235,8 +240,6 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
 
 DataPtr CDMQualityExtractor::getDataSlice(const std::string& varName, size_t unLimDimPos)
 {
-    // no change in cdm-data in CDMQualityExtractor, so no need to check for in-memory data
-
     DataPtr data = dataReader->getDataSlice(varName, unLimDimPos);
     // test if variable has quality assignment
     if (statusVariable.find(varName) != statusVariable.end()) {
-- 
2.43.0


From 3ed2f59dd382e38ddb0d364ec6bb09387c0b52b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:59 +0000
Subject: [PATCH 093/104] fix: merged datasets passed on data kept in memory
 unmerged

---
 src/CDMMergeUtils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index cfdaf15..f9100bd 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -297,6 +297,8 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
             cdmI.removeVariable(varName);
         } else {
             LOG4FIMEX(logger, Logger::INFO, "variable '" << varName << "' kept");
+            // data in memory are those of one reader only
+            cdmI.getVariable(varName).setData(DataPtr());
         }
     }
 
-- 
2.43.0


From 4e22c2e4381c48ebdb04e7157dbc94edec5afa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:18 +0000
Subject: [PATCH 094/104] fix: accumulated and rotated data were replaced by
 the original data kept in memory

---
 src/CDMProcessor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index c933402..9830bbc 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -386,6 +386,7 @@ void CDMProcessor::accumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->accumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(DataPtr()); // data in memory are not accumulated
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring accumulate");
     }
@@ -396,6 +397,7 @@ void CDMProcessor::deAccumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->deaccumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(DataPtr()); // data in memory are not deaccumulated
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring deaccumulate");
     }
@@ -479,6 +481,9 @@ void CDMProcessor::rotateVectorToLatLon(bool toLatLon, const std::vector<std::st
         }
         p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], csXId);
         p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], csXId);
+        // data in memory are not rotated
+        cdm_->getVariable(varNameX[i]).setData(DataPtr());
+        cdm_->getVariable(varNameY[i]).setData(DataPtr());
     }
 }
 
@@ -501,6 +506,7 @@ void CDMProcessor::rotateDirectionToLatLon(bool toLatLon, const std::vector<std:
 
         const string& csId = projectionVariables[varNames[i]];
         p_->rotateLatLonDirection[varNames[i]] = csId;
+        cdm_->getVariable(varNames[i]).setData(DataPtr()); // data in memory are not rotated
 
         if (p_->cachedVectorReprojection.find(csId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csId);
-- 
2.43.0


From 8197a05b20be0ae69ebc4b6f8914ce27734a4bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:18 +0000
Subject: [PATCH 095/104] fix: data of missing slices was left uninitialised
 when reading all data of a variable

---
 src/CDMReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index 17cf906..1f4219e 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -155,7 +155,7 @@ DataPtr CDMReader::getData(const std::string& varName)
             const CDMDimension* udim = cdm_->getUnlimitedDim();
             size_t uDimSize = udim->getLength();
             const auto sliceSize = product(getDimsSlice(varName));
-            DataPtr data = createData(variable.getDataType(), uDimSize*sliceSize);
+            DataPtr data = createData(variable.getDataType(), uDimSize*sliceSize, cdm_->getFillValue(varName)); // slices might be empty
             for (size_t i = 0; i < uDimSize; i++) {
                 DataPtr slice = getDataSlice(varName, i);
                 data->setValues(i*sliceSize, *slice, 0, sliceSize);
-- 
2.43.0


From 388c00646127db49d377fb488802d8f3dafffdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:37 +0000
Subject: [PATCH 096/104] fix: a slicebuilder of the C interface had the
 dimensions of another variable of the coordinate system

---
 include/fimex/CoordinateSystemSliceBuilder.h | 4 ++++
 src/CoordinateSystemSliceBuilder.cc          | 7 ++++++-
 src/c_fimex.cc                               | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/fimex/CoordinateSystemSliceBuilder.h b/include/fimex/CoordinateSystemSliceBuilder.h
index 4602377..4357610 100644
--- a/include/fimex/CoordinateSystemSliceBuilder.h
+++ b/include/fimex/CoordinateSystemSliceBuilder.h
@@ -45,6 +45,10 @@ class CoordinateSystemSliceBuilder: public MetNoFimex::SliceBuilder
 {
 public:
     CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs);
+    /**
+     * SliceBuilder for one variable of the coordinate-system, with the dimensions in the order of that variable.
+     */
+    CoordinateSystemSliceBuilder(const CDM& cdm, const std::string& varName, CoordinateSystem_cp cs);
     virtual ~CoordinateSystemSliceBuilder() {}
 
     /**
diff --git a/src/CoordinateSystemSliceBuilder.cc b/src/CoordinateSystemSliceBuilder.cc
index 7e9b8e5..28c144a 100644
--- a/src/CoordinateSystemSliceBuilder.cc
+++ b/src/CoordinateSystemSliceBuilder.cc
@@ -52,7 +52,12 @@ const std::string& getCSVarFromCDM_(const CDM& cdm, CoordinateSystem_cp cs)
 }
 
 CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs)
-    : SliceBuilder(cdm, getCSVarFromCDM_(cdm, cs))
+    : CoordinateSystemSliceBuilder(cdm, getCSVarFromCDM_(cdm, cs), cs)
+{
+}
+
+CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, const std::string& varName, CoordinateSystem_cp cs)
+    : SliceBuilder(cdm, varName)
     , cs_(cs)
 {
     setReferenceTimePos(0); // referenceTime is allways set
diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 701d55d..8993ab4 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -320,7 +320,7 @@ mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* va
     try {
         CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(reader->csVec_, varName);
         if (cs.get()) {
-            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs));
+            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), varName, cs));
             return new mifi_slicebuilder(sb, cs);
         } else {
             std::shared_ptr<SliceBuilder> sb(new SliceBuilder(reader->reader_->getCDM(), varName));
-- 
2.43.0


From 1804d09df0587bc3d9f745f7f8ba05e130b1f0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:03 +0000
Subject: [PATCH 097/104] fix: setting a C callback on a reader without
 callbacks crashed instead of giving an error

---
 src/c_fimex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 8993ab4..d81a3c2 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -187,8 +187,8 @@ int mifi_set_callback_double(mifi_cdm_reader* c_reader, const char* varName, dou
 {
     try {
         CDMReader_p reader = c_reader->reader_;
-        C_CDMReader* cReaderPtr = dynamic_cast<C_CDMReader*>(reader.get());
-        cReaderPtr->setDoubleCallbackFunction(string(varName), callback);
+        C_CDMReader& cReader = dynamic_cast<C_CDMReader&>(*reader);
+        cReader.setDoubleCallbackFunction(string(varName), callback);
         return 0;
     } catch (std::bad_cast& bc) {
         LOG4FIMEX(logger, Logger::WARN, "mifi_set_callback_double called with a different CDMReader, not C_CDMReader: " + string(bc.what()));
-- 
2.43.0


From 35f6ae6550dd64c892fd6eb256073fee665df28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:03 +0000
Subject: [PATCH 098/104] fix: variables with C callbacks could not be read
 scaled with a packed fill value, or lost the callback with data in memory

---
 src/C_CDMReader.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index 277a143..4dc166b 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -32,6 +32,7 @@
 #include "fimex/Data.h"
 #include "fimex/Type2String.h"
 #include "fimex/mifi_cdm_reader.h"
+#include "fimex/mifi_constants.h"
 
 #include <cassert>
 
@@ -52,10 +53,20 @@ void C_CDMReader::setDoubleCallbackFunction(const std::string& varName, doubleDa
 {
     CDMVariable& var = cdm_->getVariable(varName);
     var.setDataType(CDM_DOUBLE);
+    // data in memory would be used without callback
+    var.setData(DataPtr());
     // remove scale_factor and add_offset attributes
     // data will be auto-scaled
     cdm_->removeAttribute(varName, "scale_factor");
     cdm_->removeAttribute(varName, "add_offset");
+    // undefined values are NaN in scaled data, and the fill-value must have the type of the variable
+    for (const std::string fill : {"_FillValue", "missing_value"}) {
+        CDMAttribute attr;
+        if (cdm_->getAttribute(varName, fill, attr)) {
+            cdm_->removeAttribute(varName, fill);
+            cdm_->addAttribute(varName, CDMAttribute(fill, MIFI_UNDEFINED_D));
+        }
+    }
     // set the datatype for later processing
     doubleCallbacks_[varName] = callback;
 }
@@ -80,7 +91,8 @@ DataPtr C_CDMReader::getDataSlice(const std::string & varName, size_t unLimDimPo
 
     // this reader should never have in-memory data, since it is not accessible from C
     assert(cdm_->getVariable(varName).hasData() == false);
-    DataPtr data = dataReader_->getScaledDataSlice(varName, unLimDimPos);
+    // the callback must not change data in the memory of the original reader
+    DataPtr data = dataReader_->getScaledDataSlice(varName, unLimDimPos)->clone();
 
     // wrap the object as a mifi_cdm_reader for C-usage
     mifi_cdm_reader reader(std::shared_ptr<C_CDMReader>(this, noDealloc));
-- 
2.43.0


From 2000559b828269ff13711229fee67232fa9ac4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:48 +0000
Subject: [PATCH 099/104] fix: a wrong slice or dimension is reported by the C
 interface, not thrown

---
 src/c_fimex.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index d81a3c2..d1b3cad 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -353,7 +353,9 @@ int mifi_slicebuilder_ndims(mifi_slicebuilder* sb)
 static std::string do_mifi_slicebuilder_dimname(mifi_slicebuilder* sb, int pos)
 {
     if (sb != 0) {
-        return sb->sb_->getDimensionNames().at(pos);
+        const std::vector<std::string> names = sb->sb_->getDimensionNames();
+        if (pos >= 0 && static_cast<size_t>(pos) < names.size())
+            return names[pos];
     }
     return "";
 }
@@ -423,9 +425,13 @@ int mifi_slicebuilder_get_proj4_cpy(mifi_slicebuilder* sb, char* proj4, int n)
 
 int mifi_slicebuilder_set_dim_start_size(mifi_slicebuilder* sb, const char* dimName, unsigned int start, unsigned int size)
 {
-    if (sb != 0) {
-        sb->sb_->setStartAndSize(dimName, start, size);
-        return 0;
+    try {
+        if (sb != 0) {
+            sb->sb_->setStartAndSize(dimName, start, size);
+            return 0;
+        }
+    } catch (exception& ex) {
+        LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_set_dim_start_size: " << ex.what());
     }
     return -1;
 }
-- 
2.43.0


From a2ca13ef7df9a6c7135c7213def1c937a9144862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:48 +0000
Subject: [PATCH 100/104] fix: C interface tells if a variable has no longitude
 and latitude

---
 src/c_fimex.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index d1b3cad..213ad3b 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -287,12 +287,15 @@ static std::string do_mifi_get_var_longitude(mifi_cdm_reader* reader, const char
 char* mifi_get_var_longitude(mifi_cdm_reader* reader, const char* varName)
 {
     // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_get_var_longitude(reader, varName));
+    const std::string lon = do_mifi_get_var_longitude(reader, varName);
+    return lon.empty() ? 0 : string_dup(lon);
 }
 
 int mifi_get_var_longitude_cpy(mifi_cdm_reader* reader, const char* varName, char* lonName, int n)
 {
-    return string_cpy(do_mifi_get_var_longitude(reader, varName), lonName, n);
+    const std::string lon = do_mifi_get_var_longitude(reader, varName);
+    const int copied = string_cpy(lon, lonName, n);
+    return lon.empty() ? -1 : copied;
 }
 
 static std::string do_mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
@@ -307,12 +310,15 @@ static std::string do_mifi_get_var_latitude(mifi_cdm_reader* reader, const char*
 char* mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
 {
     // we get a temporary, we need strdup and caller must call free
-    return string_dup(do_mifi_get_var_latitude(reader, varName));
+    const std::string lat = do_mifi_get_var_latitude(reader, varName);
+    return lat.empty() ? 0 : string_dup(lat);
 }
 
 int mifi_get_var_latitude_cpy(mifi_cdm_reader* reader, const char* varName, char* latName, int n)
 {
-    return string_cpy(do_mifi_get_var_latitude(reader, varName), latName, n);
+    const std::string lat = do_mifi_get_var_latitude(reader, varName);
+    const int copied = string_cpy(lat, latName, n);
+    return lat.empty() ? -1 : copied;
 }
 
 mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* varName)
-- 
2.43.0


From 00ec81337ac0e96bb9fd21ac94f0de47d8e1f6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:51 +0000
Subject: [PATCH 101/104] fix: changing the time axis a second time takes the
 units of the data, not of the first change

---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 2505363..1ea5483 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -154,7 +154,7 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
         if (!timeDimName.empty() && changedTimes.find(timeDimName) == changedTimes.end()) {
             changedTimes.insert(timeDimName); // avoid double changes
             DataPtr times = dataReader_->getScaledData(timeDimName);
-            string unit = cdm_->getUnits(timeDimName);
+            string unit = orgCDM.getUnits(timeDimName);
             const TimeUnit tu(unit);
             vector<FimexTime> oldTimes;
             auto oldTimesPtr = times->asDouble();
-- 
2.43.0


From eaaa27471eb8a52458a0e73cad995cd006ee5aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:52 +0000
Subject: [PATCH 102/104] fix: changed times are not unpacked with the scale
 and offset of the old ones

---
 src/CDMTimeInterpolator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 1ea5483..6265700 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -193,6 +193,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
 
             // change cdm timeAxis values
             cdm_->addOrReplaceAttribute(timeDimName, CDMAttribute("units", ts.getUnitString()));
+            // the new times are not packed
+            cdm_->removeAttribute(timeDimName, "scale_factor");
+            cdm_->removeAttribute(timeDimName, "add_offset");
             auto timeData = make_shared_array<double>(newTimes.size());
             const TimeUnit newTU(ts.getUnitString());
             std::transform(newTimes.begin(), newTimes.end(), timeData.get(), [newTU](const FimexTime& ft) { return newTU.fimexTime2unitTime(ft); });
-- 
2.43.0


From e774a3a1a2408676d367f5cef6acda2fa18f7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:01 +0000
Subject: [PATCH 103/104] fix: interpolated axes are not unpacked with the
 scale and offset of the original axes

---
 src/CDMInterpolator.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 9988e90..45adca5 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -838,8 +838,11 @@ void changeCDM(CDM& cdm, const string& proj_input, const map<string, CoordinateS
 
     // change/add new axes
     // don't change the name of the dimension, even if this might look strange if e.g. lon is a projection_x_coordinate
-    cdm.removeAttribute(newXAxis, "long_name");
-    cdm.removeAttribute(newYAxis, "long_name");
+    // don't keep the packing of the original axes, either
+    for (const std::string attr : {"long_name", "scale_factor", "add_offset", "_FillValue"}) {
+        cdm.removeAttribute(newXAxis, attr);
+        cdm.removeAttribute(newYAxis, attr);
+    }
     std::string xStandardName;
     std::string yStandardName;
     std::string xUnit = out_x_axis_unit;
@@ -1532,8 +1535,11 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
 
     // change/add new axes
     // don't change the name of the dimension, even if this might look strange if e.g. lon is a projection_x_coordinate
-    cdm.removeAttribute(newXAxis, "long_name");
-    cdm.removeAttribute(newYAxis, "long_name");
+    // don't keep the packing of the original axes, either
+    for (const std::string attr : {"long_name", "scale_factor", "add_offset", "_FillValue"}) {
+        cdm.removeAttribute(newXAxis, attr);
+        cdm.removeAttribute(newYAxis, attr);
+    }
 
     const std::string xStandardName("projection_x_coordinate");
     const std::string xLongName("x-coordinate in Cartesian system");
-- 
2.43.0


From da10020ac9c610f70e7f9ef7a8da0e761068ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:24 +0000
Subject: [PATCH 104/104] fix: longitudes and latitudes of a grid with packed
 axes, or axes in km

---
 src/CDM.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/CDM.cc b/src/CDM.cc
index 1785eb8..c50a0e8 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -665,6 +665,20 @@ void CDM::generateProjectionCoordinates(const std::string& projectionVariable, c
     generateProjectionCoordinates(Projection::create(getAttributes(projectionVariable)), xDim, yDim, lonDim, latDim);
 }
 
+namespace {
+// values of an axis, without packing and in the units needed by the projection
+shared_array<double> unpackedInUnits(const CDM& cdm, const CDMVariable& var, const std::string& units)
+{
+    const std::string& name = var.getName();
+    double slope = 1, offset = 0;
+    const std::string varUnits = cdm.getUnits(name);
+    if (!varUnits.empty() && Units().areConvertible(varUnits, units))
+        Units().convert(varUnits, units, slope, offset);
+    const double scale = cdm.getScaleFactor(name), add = cdm.getAddOffset(name);
+    return var.getData()->convertDataType(MIFI_UNDEFINED_D, slope * scale, slope * add + offset, CDM_DOUBLE, MIFI_UNDEFINED_D, 1, 0)->asDouble();
+}
+} // namespace
+
 void CDM::generateProjectionCoordinates(Projection_cp projection, const std::string& xDim, const std::string& yDim, const std::string& lonDim,
                                         const std::string& latDim)
 {
@@ -672,8 +686,10 @@ void CDM::generateProjectionCoordinates(Projection_cp projection, const std::str
     const CDMVariable& yVar = getVariable(yDim);
     assert(xVar.hasData());
     assert(yVar.hasData());
-    auto xData = xVar.getData()->asDouble();
-    auto yData = yVar.getData()->asDouble();
+    assert(projection.get() != 0);
+    const std::string projUnits = projection->isDegree() ? "degree" : "m";
+    auto xData = unpackedInUnits(*this, xVar, projUnits);
+    auto yData = unpackedInUnits(*this, yVar, projUnits);
     size_t xDimLength = getDimension(xDim).getLength();
     size_t yDimLength = getDimension(yDim).getLength();
     assert(xDimLength == xVar.getData()->size());
@@ -682,7 +698,6 @@ void CDM::generateProjectionCoordinates(Projection_cp projection, const std::str
     auto longVal = make_shared_array<double>(fieldSize);
     auto latVal = make_shared_array<double>(fieldSize);
     std::string lonLatProj(MIFI_WGS84_LATLON_PROJ4);
-    assert(projection.get() != 0);
     std::string projStr = projection->getProj4String();
     LOG4FIMEX(logger, Logger::DEBUG, "generating "<<latDim<<"("<<xDim<<","<<yDim<<"),"<<lonDim<<"("<<xDim<<","<<yDim<<") using proj4: "+projStr);
     reproject::reproject_axes(projStr, lonLatProj, xData.get(), yData.get(), xDimLength, yDimLength, longVal.get(), latVal.get());
-- 
2.43.0

