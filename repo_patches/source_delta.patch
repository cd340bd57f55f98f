From e7a16cb003b57d31cf3e90892f9b949e85e4ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:39 +0000
Subject: [PATCH 001/188] fix: convert floating point values to 64-bit integers
 without truncating to 32 bit

round() returned int, so that data of type double or float could not be
converted to CDM_INT64, CDM_UINT64 or CDM_UINT outside the 32-bit range, and
RoundAndClamp accepted undefined and huge positions as index 0.
---
 include/fimex/MathUtils.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/fimex/MathUtils.h b/include/fimex/MathUtils.h
index 70789ae..b76e6c6 100644
--- a/include/fimex/MathUtils.h
+++ b/include/fimex/MathUtils.h
@@ -37,17 +37,17 @@ namespace MetNoFimex {
 /**
  * Round a double to integer.
  */
-inline int round(double num)
+inline long long round(double num)
 {
-    return ::lround(num);
+    return ::llround(num);
 }
 
 /**
  * Round a float to integer.
  */
-inline int round(float num)
+inline long long round(float num)
 {
-    return ::lroundf(num);
+    return ::llroundf(num);
 }
 
 template <typename T>
@@ -70,7 +70,13 @@ struct data_rounder;
 template <typename OUT, typename IN>
 struct data_rounder<OUT, IN, true>
 {
-    inline OUT operator()(const IN& in) const { return static_cast<OUT>(round(in)); }
+    inline OUT operator()(const IN& in) const
+    {
+        // values above the range of "long long" fit only into 64-bit unsigned types, they have no fractional part
+        if (!std::numeric_limits<OUT>::is_signed && sizeof(OUT) >= sizeof(long long) && in >= IN(9223372036854775808.))
+            return static_cast<OUT>(in);
+        return static_cast<OUT>(round(in));
+    }
 };
 
 template <typename OUT, typename IN>
-- 
2.43.0


From a7c8da435366dd71c552e10969855b2ac8b6145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:41 +0000
Subject: [PATCH 002/188] fix: do not treat 0 as missing value in 64-bit
 unsigned data without _FillValue

The default fill values of 64-bit integers are rounded when passed as double,
and casting back is out of range (UINT64, giving 0) or gives a different value (INT64).
---
 include/fimex/DataUtils.h | 47 +++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 9 deletions(-)

diff --git a/include/fimex/DataUtils.h b/include/fimex/DataUtils.h
index 22fa518..3d00d0a 100644
--- a/include/fimex/DataUtils.h
+++ b/include/fimex/DataUtils.h
@@ -30,8 +30,37 @@
 #include "fimex/CDMDataType.h"
 #include "fimex/DataDecl.h"
 
+#include <limits>
+
 namespace MetNoFimex {
 
+/**
+ * Convert a fill value to the type of the data.
+ *
+ * Fill values are passed as double. The fill values of 64-bit integers are not exactly representable
+ * as double, and they may be rounded to a value just outside the range of the integer type.
+ */
+template <typename T>
+inline T castFill(double fill)
+{
+    if (std::numeric_limits<T>::is_integer && sizeof(T) == sizeof(long long)) {
+        if (fill >= static_cast<double>(std::numeric_limits<T>::max()))
+            return std::numeric_limits<T>::max();
+    }
+    return static_cast<T>(fill);
+}
+
+/**
+ * Compare with a fill value that has been obtained from castFill.
+ */
+template <typename T>
+inline bool equalsFill(const T& value, const T& fill)
+{
+    if (std::numeric_limits<T>::is_integer && sizeof(T) == sizeof(long long))
+        return static_cast<double>(value) == static_cast<double>(fill);
+    return value == fill;
+}
+
 /**
  * Scale a value using fill, offset and scale
  */
@@ -46,15 +75,15 @@ private:
 
 public:
     ScaleValue(double oldFill, double oldScale, double oldOffset, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : oldFill_(castFill<IN>(oldFill))
         , oldScaleNewScaleInv_(oldScale / newScale)
         , oldOffsetMinusNewOffsetNewScaleInv_((oldOffset - newOffset) / newScale)
-        , newFill_(static_cast<OUT>(newFill))
+        , newFill_(castFill<OUT>(newFill))
     {
     }
     OUT operator()(const IN& in) const
     {
-        return (in == oldFill_ || mifi_isnan<IN>(in)) ? newFill_ : data_caster<OUT, double>()(oldScaleNewScaleInv_ * in + oldOffsetMinusNewOffsetNewScaleInv_);
+        return (equalsFill(in, oldFill_) || mifi_isnan<IN>(in)) ? newFill_ : data_caster<OUT, double>()(oldScaleNewScaleInv_ * in + oldOffsetMinusNewOffsetNewScaleInv_);
         //(((oldScale_*in + oldOffset_)-newOffset_)/newScale_);
         // => ((oldScale_*in + oldOffsetMinusNewOffset_)*newScaleInv_);
         // => oldScaleNewScale_ * in + oldOffsetMinusNewOffsetNewScale_
@@ -78,18 +107,18 @@ private:
 
 public:
     ScaleValueUnits(double oldFill, double oldScale, double oldOffset, UnitsConverter_p uconv, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : oldFill_(castFill<IN>(oldFill))
         , oldScale_(oldScale)
         , oldOffset_(oldOffset)
         , uconv_(uconv)
-        , newFill_(static_cast<OUT>(newFill))
+        , newFill_(castFill<OUT>(newFill))
         , newScaleInv_(1 / newScale)
         , newOffset_(newOffset)
     {
     }
     OUT operator()(const IN& in) const
     {
-        return (in == oldFill_ || mifi_isnan<IN>(in)) ? newFill_
+        return (equalsFill(in, oldFill_) || mifi_isnan<IN>(in)) ? newFill_
                                                       : data_caster<OUT, double>()((uconv_->convert(oldScale_ * in + oldOffset_) - newOffset_) * newScaleInv_);
     }
 };
@@ -106,11 +135,11 @@ private:
 
 public:
     ChangeMissingValue(double oldFill, double newFill)
-        : oldFill_(static_cast<IN>(oldFill))
-        , newFill_(static_cast<OUT>(newFill))
+        : oldFill_(castFill<IN>(oldFill))
+        , newFill_(castFill<OUT>(newFill))
     {
     }
-    OUT operator()(const IN& in) const { return (in == oldFill_ || mifi_isnan(in)) ? newFill_ : static_cast<OUT>(in); }
+    OUT operator()(const IN& in) const { return (equalsFill(in, oldFill_) || mifi_isnan(in)) ? newFill_ : static_cast<OUT>(in); }
 };
 
 DataPtr initDataByArray(CDMDataType datatype, const std::vector<std::string>& values);
-- 
2.43.0


From f3a58edd746d233419bbad80a49faef5875ef268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:46 +0000
Subject: [PATCH 003/188] fix: renaming a variable or dimension to itself or
 from a missing name must not delete it

---
 src/CDM.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index 5653948..4305ba7 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -185,6 +185,10 @@ std::vector<std::string> CDM::findVariables(const std::string& attrName, const s
 bool CDM::renameVariable(const std::string& oldName, const std::string& newName)
 {
     pimpl_->coordsInitialized = false;
+    if (!hasVariable(oldName))
+        return false;
+    if (oldName == newName)
+        return true;
     // change variable in VarVec variables and variableNames as keys in StrAttrVecMap attributes
     try {
         removeVariable(newName); // make sure none of the same name exists
@@ -303,6 +307,8 @@ bool CDM::renameDimension(const std::string& oldName, const std::string& newName
 {
     pimpl_->coordsInitialized = false;
     if (!hasDimension(oldName)) return false;
+    if (oldName == newName)
+        return true;
     if (hasDimension(newName)) {
         if (!ignoreInUse && testDimensionInUse(newName)) {
             throw CDMException("Cannot rename dimension to "+newName+". Name already in use and overwrite disabled.");
-- 
2.43.0


From 418b9a4a4432f3cf8ac18b033875e6ba26115f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:15 +0000
Subject: [PATCH 004/188] fix: join extracted slices in data order when an
 outer dimension is not reduced

---
 src/CDMExtractor.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 8cc28b2..32fe062 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -113,7 +113,18 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
         DimSlicesMap::iterator foundDim = dimSlices_.find(dim.getName());
         size_t sbStart, sbSize;
         sb.getStartAndSize(dimName, sbStart, sbSize);
-        if (foundDim == dimSlices_.end()) {
+        if (foundDim == dimSlices_.end() && slices.size() > 1 && sbSize > 1) {
+            // a faster varying dimension has been splitted up, the slices must be joined in the order of the data
+            std::vector<SliceBuilder> newSlices;
+            for (size_t i = sbStart; i < sbStart + sbSize; ++i) {
+                for (const SliceBuilder& sliceb : slices) {
+                    SliceBuilder lsb = sliceb; // make a copy
+                    lsb.setStartAndSize(dim.getName(), i, 1);
+                    newSlices.push_back(lsb);
+                }
+            }
+            slices = std::move(newSlices);
+        } else if (foundDim == dimSlices_.end()) {
             // handle pure sb changes
             for (SliceBuilder& sliceb : slices)
                 sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
-- 
2.43.0


From 165006d5f876d70b0790d9c303e8029dae1e06e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:15 +0000
Subject: [PATCH 005/188] fix: check extracted positions against the bounds of
 the original dimension

---
 src/CDMExtractor.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 32fe062..eb93374 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -270,9 +270,10 @@ void CDMExtractor::selectVariables(std::set<std::string> variables, bool addAuxi
 void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<std::size_t>& slices)
 {
     CDMDimension& dim = cdm_->getDimension(dimName);
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
     for (size_t sz : slices) {
-        if (sz > dim.getLength())
-            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(dim.getLength()));
+        if (sz >= orgLength)
+            throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(orgLength));
     }
 
     // keep track of changes
@@ -290,6 +291,10 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 
 void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, size_t length)
 {
+    const size_t orgLength = dataReader_->getCDM().getDimension(dimName).getLength();
+    if (start > orgLength || length > orgLength - start)
+        throw CDMException("can't reduce dimension '" + dimName + "' to start " + type2string(start) + " and length " + type2string(length) +
+                           ", out of bounds: " + type2string(orgLength));
     std::set<std::size_t> useSlices;
     for (std::size_t i = 0; i < length; i++) {
         useSlices.insert(start+i);
-- 
2.43.0


From f6edc71cc92a4288574f6464909f9fae34fbdcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:15 +0000
Subject: [PATCH 006/188] fix: use the second standard parallel of conic
 projections

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc | 2 +-
 src/coordSys/LambertConformalConicProjection.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index b58b334..a5ff7de 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -92,7 +92,7 @@ std::ostream& AlbersConicalEqualAreaProjection::getProj4ProjectionPart(std::ostr
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 4b8fd08..4d5cf66 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -90,7 +90,7 @@ std::ostream& LambertConformalConicProjection::getProj4ProjectionPart(std::ostre
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
-- 
2.43.0


From f2bf00df1008b7e075c52e3f95059975cb96c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 007/188] fix: reading an empty slice of a reduced dimension
 must not return data

---
 src/CDMExtractor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index eb93374..2009150 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -128,7 +128,7 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
             // handle pure sb changes
             for (SliceBuilder& sliceb : slices)
                 sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
-        } else if (foundDim->second.empty()) {
+        } else if (foundDim->second.empty() || sbSize == 0) {
             for (SliceBuilder& sliceb : slices)
                 sliceb.setStartAndSize(dim.getName(), sbStart, 0);
         } else {
-- 
2.43.0


From 7ff14842b2d5d1e3d5c3d8932312e3ba1a3cd1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:06 +0000
Subject: [PATCH 008/188] fix: bounding box extraction from grids with
 longitudes above 180 degrees

---
 src/CDMExtractor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 2009150..259c258 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -482,9 +482,10 @@ void CDMExtractor::reduceLatLonBoundingBox(double south, double north, double we
         std::set<std::size_t> xSlices, ySlices;
         for (size_t ix = 0, i = 0; ix < nx; ++ix) {
             for (size_t iy = 0; iy < ny; ++iy, ++i) {
-                const double lon = xLonVals[i], lat = yLatVals[i];
+                const double lat = yLatVals[i];
                 if (lat < south || lat > north)
                     continue;
+                const double lon = normalizeLongitude180(xLonVals[i]);
                 if (wrap180 && lon > east && lon < west)
                     continue;
                 else if (!wrap180 && (lon < west || lon > east))
-- 
2.43.0


From 1a837d8f2de1979d46a8fcf36ba8310b75aa4855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:15 +0000
Subject: [PATCH 009/188] fix: write all projection parameters to the proj4
 string with full precision

---
 src/coordSys/ProjectionImpl.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 0b48e50..53483c1 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -119,6 +119,7 @@ bool ProjectionImpl::isDegree() const
 std::string ProjectionImpl::getProj4String() const
 {
     std::ostringstream out;
+    out << std::setprecision(std::numeric_limits<double>::digits10 + 1);
     getProj4ProjectionPart(out);
 
     // offset
-- 
2.43.0


From b8cca26f4a5138f8865ef18071df54999e32b0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:34 +0000
Subject: [PATCH 010/188] fix: sort projection parameters by name so that
 equality does not depend on their order

---
 src/coordSys/ProjectionImpl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 53483c1..32a2d79 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -205,7 +205,7 @@ std::string ProjectionImpl::toString() const
     std::ostringstream buffer;
     buffer << getName() << ":";
     vector<CDMAttribute> pars = getParameters();
-    stable_sort(pars.begin(), pars.end(), CDMNameCompare());
+    stable_sort(pars.begin(), pars.end(), [](const CDMAttribute& a, const CDMAttribute& b) { return a.getName() < b.getName(); });
     for (const CDMAttribute& par : pars) {
         buffer << par.getName() << "=" << par.getStringValue() << ";";
     }
-- 
2.43.0


From 3943335c6feb127ca6d91580fa605bab205b2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:34 +0000
Subject: [PATCH 011/188] fix: accept +k_0 as scale factor in proj4 strings

---
 src/coordSys/LambertCylindricalEqualAreaProjection.cc | 2 +-
 src/coordSys/MercatorProjection.cc                    | 2 +-
 src/coordSys/ObliqueMercatorProjection.cc             | 2 +-
 src/coordSys/StereographicProjection.cc               | 2 +-
 src/coordSys/TransverseMercatorProjection.cc          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coordSys/LambertCylindricalEqualAreaProjection.cc b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
index 416327b..0cfc959 100644
--- a/src/coordSys/LambertCylindricalEqualAreaProjection.cc
+++ b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
@@ -63,7 +63,7 @@ std::vector<CDMAttribute> LambertCylindricalEqualAreaProjection::parametersFromP
         double lat_ts = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/MercatorProjection.cc b/src/coordSys/MercatorProjection.cc
index bc95d40..a67e310 100644
--- a/src/coordSys/MercatorProjection.cc
+++ b/src/coordSys/MercatorProjection.cc
@@ -64,7 +64,7 @@ std::vector<CDMAttribute> MercatorProjection::parametersFromProj4(const std::str
         double standardParallel = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", standardParallel));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/ObliqueMercatorProjection.cc b/src/coordSys/ObliqueMercatorProjection.cc
index af42f9c..f49acdf 100644
--- a/src/coordSys/ObliqueMercatorProjection.cc
+++ b/src/coordSys/ObliqueMercatorProjection.cc
@@ -83,7 +83,7 @@ std::vector<CDMAttribute> ObliqueMercatorProjection::parametersFromProj4(const s
     }
     attrs.push_back(CDMAttribute("gamma", gamma));
 
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/StereographicProjection.cc b/src/coordSys/StereographicProjection.cc
index f6390da..ef956f7 100644
--- a/src/coordSys/StereographicProjection.cc
+++ b/src/coordSys/StereographicProjection.cc
@@ -70,7 +70,7 @@ std::vector<CDMAttribute> StereographicProjection::parametersFromProj4(const std
         double lat_ts = std::strtod(what[1].str().c_str(), (char **)NULL);
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
 
-    } else if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    } else if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = std::strtod(what[1].str().c_str(), (char**)NULL);
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/TransverseMercatorProjection.cc b/src/coordSys/TransverseMercatorProjection.cc
index 19af24f..56fb439 100644
--- a/src/coordSys/TransverseMercatorProjection.cc
+++ b/src/coordSys/TransverseMercatorProjection.cc
@@ -96,7 +96,7 @@ std::vector<CDMAttribute> TransverseMercatorProjection::parametersFromProj4(cons
             attrs.push_back(CDMAttribute("latitude_of_projection_origin", latOfProjOrigin));
         }
 
-        if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+        if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
             attrs.push_back(CDMAttribute("scale_factor_at_central_meridian", string2type<double>(what[1].str())));
         }
     }
-- 
2.43.0


From a004e62549eee6272d51f9836de3dc6c2a5f31a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:34 +0000
Subject: [PATCH 012/188] fix: handle +rf in proj4 earth figures

---
 src/coordSys/Projection.cc     | 1 +
 src/coordSys/ProjectionImpl.cc | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/coordSys/Projection.cc b/src/coordSys/Projection.cc
index f70eb71..5376c86 100644
--- a/src/coordSys/Projection.cc
+++ b/src/coordSys/Projection.cc
@@ -215,6 +215,7 @@ std::string replaceProj4Earthfigure(const std::string& proj4, const std::string&
         if (parts.at(i).find("+b=") != string::npos) continue;
         if (parts.at(i).find("+e=") != string::npos) continue;
         if (parts.at(i).find("+R=") != string::npos) continue;
+        if (parts.at(i).find("+rf=") != string::npos) continue;
         if (parts.at(i).find("+ellps=") != string::npos) continue;
         if (parts.at(i).find("+datum=") != string::npos) continue;
         newParts.push_back(parts.at(i));
diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 32a2d79..6926e6d 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -246,6 +246,8 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
         } else if (std::regex_search(proj4Str, what, std::regex("\\+b=(\\S+)"))) {
             attrList.push_back(CDMAttribute("semi_major_axis", major_axis));
             attrList.push_back(CDMAttribute("semi_minor_axis", string2type<double>(what[1].str())));
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+rf=(\\S+)"))) {
+            attrList.push_back(CDMAttribute("inverse_flattening", string2type<double>(what[1].str())));
         } else {
             attrList.push_back(CDMAttribute("earth_radius", major_axis));
         }
-- 
2.43.0


From 0a118989344344628cacec980cdf8a4b0f4cbbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:55 +0000
Subject: [PATCH 013/188] fix: write the sweep axis of geostationary
 projections with its CF name

---
 src/coordSys/GeostationaryProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/GeostationaryProjection.cc b/src/coordSys/GeostationaryProjection.cc
index 98da4e5..529807d 100644
--- a/src/coordSys/GeostationaryProjection.cc
+++ b/src/coordSys/GeostationaryProjection.cc
@@ -75,7 +75,7 @@ std::vector<CDMAttribute> GeostationaryProjection::parametersFromProj4(const std
     if (std::regex_search(proj4Str, what, std::regex("\\+sweep=(\\S+)"))) {
         sweep = what[1].str();
     }
-    attrs.push_back(CDMAttribute("sweep_axis", sweep));
+    attrs.push_back(CDMAttribute("sweep_angle_axis", sweep));
 
     proj4GetEarthAttributes(proj4Str, attrs);
     return attrs;
-- 
2.43.0


From 45824b8e46893a973fc49ccd76743313705004eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:15 +0000
Subject: [PATCH 014/188] fix: keep negative north_pole_grid_longitude of
 rotated projections

---
 src/coordSys/RotatedLatitudeLongitudeProjection.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/RotatedLatitudeLongitudeProjection.cc b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
index 44bb09a..ae6f827 100644
--- a/src/coordSys/RotatedLatitudeLongitudeProjection.cc
+++ b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
@@ -29,6 +29,7 @@
 #include "fimex/MathUtils.h"
 #include "fimex/String2Type.h"
 
+#include <cmath>
 #include <regex>
 
 namespace MetNoFimex {
@@ -81,7 +82,7 @@ std::vector<CDMAttribute> RotatedLatitudeLongitudeProjection::parametersFromProj
     }
     attrs.push_back(CDMAttribute("grid_north_pole_longitude", normalizeLongitude180(180+north_pole_lon)));
     attrs.push_back(CDMAttribute("grid_north_pole_latitude", north_pole_lat));
-    if (north_pole_grid_lon > 1e-4) { //optional
+    if (std::abs(north_pole_grid_lon) > 1e-4) { //optional
         attrs.push_back(CDMAttribute("north_pole_grid_longitude", north_pole_grid_lon));
     }
 
-- 
2.43.0


From 133c3182bd50d6e82f26b54d0c79fd32f1952426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:15 +0000
Subject: [PATCH 015/188] fix: do not set gamma of oblique mercator projections
 to 0 if it is not given

---
 src/coordSys/ObliqueMercatorProjection.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/coordSys/ObliqueMercatorProjection.cc b/src/coordSys/ObliqueMercatorProjection.cc
index f49acdf..90a10e5 100644
--- a/src/coordSys/ObliqueMercatorProjection.cc
+++ b/src/coordSys/ObliqueMercatorProjection.cc
@@ -77,11 +77,9 @@ std::vector<CDMAttribute> ObliqueMercatorProjection::parametersFromProj4(const s
     attrs.push_back(CDMAttribute("azimuth_of_central_line", azimuthOfCentralLine));
 
     // gamma
-    double gamma = 0.;
     if (std::regex_search(proj4Str, what, std::regex("\\+gamma=(\\S+)"))) {
-        gamma = string2type<double>(what[1].str());
+        attrs.push_back(CDMAttribute("gamma", string2type<double>(what[1].str())));
     }
-    attrs.push_back(CDMAttribute("gamma", gamma));
 
     if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
-- 
2.43.0


From 1f88f35797f4a59f9b30cc54f49866a196ad20be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:54 +0000
Subject: [PATCH 016/188] fix: forward_undef_min selected forward_min

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 89e808e..5874728 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -101,7 +101,7 @@ int mifi_string_to_interpolation_method(const char* mString)
     } else if (mifi_string_equal("forward_undef_max", mString)) {
         method = MIFI_INTERPOL_FORWARD_UNDEF_MAX;
     } else if (mifi_string_equal("forward_undef_min", mString)) {
-        method = MIFI_INTERPOL_FORWARD_MIN;
+        method = MIFI_INTERPOL_FORWARD_UNDEF_MIN;
     }
     return method;
 }
-- 
2.43.0


From 1f2c445686d1a1dbfa13ea808a0ad350b1fac523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:54 +0000
Subject: [PATCH 017/188] fix: bilinear interpolation read beyond the last row
 at the corner of the grid

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 5874728..b9b30be 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -319,7 +319,7 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
                 }
             } else {
                 y0 = lround(y);
-                if ((0 <= y0) && (y0 <= iy)) {
+                if ((0 <= y0) && (y0 < iy)) {
                     // nearest neighbor in y
                     size_t pos = mifi_3d_array_pos(x0, y0, 0, ix, iy, iz);
                     for (int z = 0; z < iz; ++z) {
-- 
2.43.0


From 026d6d31e1402e4578bbbe746d7f2230af1bb8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:54 +0000
Subject: [PATCH 018/188] fix: grid distance of the last row must be taken from
 the row above

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index b9b30be..b18a63b 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -876,8 +876,8 @@ int mifi_griddistance(size_t nx, size_t ny, const double* lonVals, const double*
         // last row, overwriting corner
         for (size_t i = 0; i < nx; i++) {
             size_t p = (ny-1)*nx + i;
-            gridDistX[p] = gridDistX[p-ny];
-            gridDistY[p] = gridDistY[p-ny];
+            gridDistX[p] = gridDistX[p-nx];
+            gridDistY[p] = gridDistY[p-nx];
         }
     }
     return MIFI_OK;
-- 
2.43.0


From 6c782edbf63ffb5fe7284e5de2c2eeed2509e3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:54 +0000
Subject: [PATCH 019/188] fix: great circle angle of identical points must not
 be NaN

---
 src/interpolation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index b18a63b..602d612 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -245,7 +245,9 @@ int mifi_3d_array_position(int x, int y, int z, int ix, int iy, int iz)
  */
 static inline double mifi_great_circle_angle(double lat0, double lon0, double lat1, double lon1)
 {
-    return acos(sin(lat0)*sin(lat1) + cos(lat0)*cos(lat1)*cos(lon1-lon0));
+    const double c = sin(lat0)*sin(lat1) + cos(lat0)*cos(lat1)*cos(lon1-lon0);
+    // rounding might lead to values slightly outside [-1,1]
+    return acos(c > 1 ? 1 : (c < -1 ? -1 : c));
 }
 
 int mifi_get_values_f(const float* infield, float* outvalues, const double x, const double y, const int ix, const int iy, const int iz)
-- 
2.43.0


From bcb2c343be37c258547f685eb76135f089827bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:07 +0000
Subject: [PATCH 020/188] fix: filling undefined values of a field with a
 single row accessed memory outside the field

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 602d612..2168713 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -663,7 +663,7 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
             field[y*nx+0] += (field[y*nx+1] - field[y*nx+0]) * wField[y*nx+0];
             field[y*nx+(nx-1)] += (field[y*nx+(nx-2)] - field[y*nx+(nx-1)]) * wField[y*nx+(nx-1)];
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; x < nx && ny > 1; x++) { // single rows have no neighboring row
             field[0*nx +x] += (field[1*nx+x] - field[0*nx+x]) * wField[0*nx+x];
             field[nym1*nx+x] += (field[(nym1-1)*nx+x] - field[nym1*nx+x]) * wField[nym1*nx+x];
         }
@@ -771,7 +771,7 @@ static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float d
                 wField[y*nx+(nx-1)] = 1;
             }
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; x < nx && ny > 1; x++) { // single rows have no neighboring row
             if (rField[0*nx +x] < repeat) { // unset
                 field[0*nx +x] += field[1*nx+x]*wField[1*nx+x];
                 field[0*nx +x] /= (1+wField[1*nx+x]);
-- 
2.43.0


From e9a8454da82b2bad31cea0e364f7031165a5eea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:07 +0000
Subject: [PATCH 021/188] fix: finding positions on an axis with a single
 element read beyond the axis

---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 2168713..3d32027 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -175,7 +175,7 @@ int mifi_points2position(double* points, const int n, const double* axis, const
                     points[i] += 2 * HALF_CIRCLE_ANGLE;
             }
         }
-        double nextOnAxis = axis[num-1] + (axis[1]-axis[0])*1.01; // slightly enlarged gitter-distance to avoid numerics
+        double nextOnAxis = axis[num-1] + (num > 1 ? axis[1]-axis[0] : 0)*1.01; // slightly enlarged gitter-distance to avoid numerics
         if (axis[0] < axis[num-1]) { // ascending
             nextOnAxis -= 2 * HALF_CIRCLE_ANGLE;
             if (nextOnAxis >= axis[0]) {
@@ -190,7 +190,7 @@ int mifi_points2position(double* points, const int n, const double* axis, const
     }
 
     for (int i = 0; i < n; i++) {
-        if (!isfinite(points[i])) {
+        if (!isfinite(points[i]) || (num == 1 && points[i] != axis[0])) { // cell-size unknown on axis with one element
             points[i] = -999.; // outside range
             continue;
         }
-- 
2.43.0


From a8b48e9c0299c0f050d2fe7ebe415be71fd6023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:06 +0000
Subject: [PATCH 022/188] fix: undefined values at the border were left at the
 mean if no inner value is undefined

---
 src/interpolation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 3d32027..fa40287 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -635,7 +635,8 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
         }
 
         // Test convergence now and then (slow test loop)
-        if ((n < (maxLoop-5)) &&
+        // not in the first loop, the borders have to be adjusted at least once
+        if ((n > 0) && (n < (maxLoop-5)) &&
             (n%10 == 0)) {
             float crtest = crit*corrEff;
             size_t nbad = 0;
-- 
2.43.0


From 834e7efb3d811fa5032e3314b6c1049f4de760e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:38 +0000
Subject: [PATCH 023/188] fix: vector reprojection to grids with two rows or
 columns read outside the grid

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 1ef4e2d..baaf4c0 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -372,8 +372,8 @@ Matrix_cp get_vector_reproject_matrix_proj(crs2crs& c2c, const double* in_x_fiel
             if (oy > 1) {
                 deltaXY = defaultDelta * (in_x_field[(1) * ox + (1)] - in_x_field[0]);
                 // and test another place in case of singularities
-                size_t ox_2 = ox / 2;
-                size_t oy_2 = oy / 2;
+                size_t ox_2 = (ox - 1) / 2;
+                size_t oy_2 = (oy - 1) / 2;
                 double deltaX2 = defaultDelta * (in_x_field[(oy_2 + 1) * ox + (ox_2 + 1)] - in_x_field[(oy_2)*ox + ox_2]);
                 deltaXY += deltaX2;
                 deltaXY /= 2;
-- 
2.43.0


From bde98fcfb0c8e7751026d6cea3740453fb910140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:38 +0000
Subject: [PATCH 024/188] fix: averaging of vector rotation angles must not mix
 angles differing by a full turn

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index baaf4c0..3b1cfdc 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -298,7 +298,7 @@ inline void store_rotation(double* mtx, size_t idx, double phi0)
 {
     mtx[idx + 0] = cos(phi0);
     mtx[idx + 1] = sin(phi0);
-    mtx[idx + 2] = RAD_TO_DEG * phi0;
+    mtx[idx + 2] = RAD_TO_DEG * std::remainder(phi0, 2 * MIFI_PI);
 }
 
 /** useed by get_vector_reproject_matrix_*
@@ -349,7 +349,7 @@ Matrix_cp get_vector_reproject_matrix_points_proj_delta(crs2crs& c2c, const doub
             const double phi_x = mtx[idx + 0];
             const double phi_y = -atan2(out_x_delta_proj_axis[i] - out_x_field[i], out_y_delta_proj_axis[i] - out_y_field[i]) + add_y;
             // average, for non-conformal cases
-            const double phi0 = (phi_y + phi_x) / 2;
+            const double phi0 = phi_x + std::remainder(phi_y - phi_x, 2 * MIFI_PI) / 2;
             store_rotation(mtx, idx, phi0);
         }
     }
-- 
2.43.0


From 316ec7a68505f9e2516ea2bba4b714e1876a96d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:38 +0000
Subject: [PATCH 025/188] fix: vector reprojection must not be undefined
 everywhere if the first grid point cannot be reprojected

---
 src/reproject.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 3b1cfdc..6991805 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -389,7 +389,7 @@ Matrix_cp get_vector_reproject_matrix_proj(crs2crs& c2c, const double* in_x_fiel
             }
         }
     }
-    if (fabs(deltaXY) < 1e-9) {
+    if (!std::isfinite(deltaXY) || fabs(deltaXY) < 1e-9) {
         LOG4FIMEX(logger, Logger::WARN, "tiny deltaXY: " << deltaXY << " possible singularity in vector-reprojection. Using default: " << defaultDelta);
         deltaXY = defaultDelta;
     }
-- 
2.43.0


From 246c053107b80356cbe12cb066e413d1451a6e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:38 +0000
Subject: [PATCH 026/188] fix: forward interpolation used the first layer for
 all layers

---
 src/CachedForwardInterpolation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 60c392d..6c0e403 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -210,10 +210,11 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     newSize = outLayerSize*inZ;
     auto outData = make_shared_array<float>(newSize);
     for (size_t z = 0; z < inZ; ++z) {
+        const float* inDataZ = &inData[z * inLayerSize];
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
             for (size_t ii : pointsInIn[i]) {
-                const float val = inData[ii];
+                const float val = inDataZ[ii];
                 if (undefAggr || !mifi_isnan(val))
                     agg->push(val);
             }
-- 
2.43.0


From a96ce73c1c848d5df8ee0313a15bb0e215474cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:38 +0000
Subject: [PATCH 027/188] fix: forward_undef_min/max/median must propagate
 undefined values

---
 src/CachedForwardInterpolation.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 6c0e403..9aa8a61 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -94,7 +94,7 @@ struct AggMin : AggSimple
 {
     void push(float f) override
     {
-        if (count == 0 || f < val)
+        if (count == 0 || f < val || mifi_isnan(f))
             val = f;
         count += 1;
     }
@@ -104,7 +104,7 @@ struct AggMax : AggSimple
 {
     void push(float f) override
     {
-        if (count == 0 || f > val)
+        if (count == 0 || f > val || mifi_isnan(f))
             val = f;
         count += 1;
     }
@@ -114,14 +114,24 @@ struct AggMedian : Aggregator
 {
     std::vector<float> values;
     AggMedian(size_t n) { values.reserve(n); }
-    void push(float f) override { values.push_back(f); }
+    bool undefined = false;
+    void push(float f) override
+    {
+        if (mifi_isnan(f))
+            undefined = true;
+        else
+            values.push_back(f);
+    }
     float get_and_reset() override;
 };
 
 float AggMedian::get_and_reset()
 {
-    if (values.empty())
+    if (undefined || values.empty()) {
+        undefined = false;
+        values.clear();
         return MIFI_UNDEFINED_F;
+    }
 
     std::nth_element(values.begin(), values.begin() + values.size() / 2, values.end());
     const float median = values[values.size() / 2];
-- 
2.43.0


From ce992bd53938cd7c7535b7da9552f3bcd876dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:56 +0000
Subject: [PATCH 028/188] fix: distance of interest of coord_kdtree
 interpolation to axes in degree

---
 src/CDMInterpolator.cc | 5 +++--
 src/reproject.cc       | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index aa4a894..77cb6fe 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -1334,8 +1334,9 @@ void CDMInterpolator::changeProjectionByCoordinates(int method, const string& pr
             fastTranslatePointsToClosestInputCell(pointsOnXAxis, pointsOnYAxis, fieldSize, &lonVals[0], &latVals[0], orgXDimSize, orgYDimSize);
         } else if (method == MIFI_INTERPOL_COORD_NN_KD) {
             double maxDistance = getMaxDistanceOfInterest(out_x_axis, out_y_axis);
-            if (isDegree) {
-                maxDistance *= MIFI_EARTH_RADIUS_M;
+            if (isDegree && !(p_->maxDistance > 0)) {
+                // derived from axes in degree, setDistanceOfInterest is already in meter
+                maxDistance = deg_to_rad(maxDistance) * MIFI_EARTH_RADIUS_M;
             }
             flannTranslatePointsToClosestInputCell(maxDistance, pointsOnXAxis, pointsOnYAxis, fieldSize, &lonVals[0], &latVals[0], orgXDimSize, orgYDimSize);
         } else {
diff --git a/src/reproject.cc b/src/reproject.cc
index 6991805..bf8b196 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -30,6 +30,7 @@
 
 #include <algorithm>
 #include <memory>
+#include <cmath>
 #include <sstream>
 
 #include "fimex_config.h"
-- 
2.43.0


From e1cc35298092c5800ddf34011a4f6bc3d06ac9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:57 +0000
Subject: [PATCH 029/188] fix: standard_names of the axes when interpolating to
 rotated latitude longitude

---
 src/CDMInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 77cb6fe..29a48f6 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -835,7 +835,7 @@ void changeCDM(CDM& cdm, const string& proj_input, const map<string, CoordinateS
         if (yUnit == "degree") {
             yUnit = "degrees_north";
         }
-    } else if (newProjection == "projection_rotated_latitude_longitude") {
+    } else if (newProj == "ob_tran") { // rotated_latitude_longitude
         xStandardName = "grid_longitude";
         yStandardName = "grid_latitude";
     } else {
-- 
2.43.0


From 9971a1be787aecfb400306a8843c9eabe720c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 030/188] fix: slices of data interpolated to points if the
 input axes are not called x and y

---
 src/CachedInterpolation.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index 5205c9c..f4f73c4 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -116,10 +116,10 @@ DataPtr CachedInterpolationInterface::getOutputDataSlice(DataPtr data, const Sli
     std::vector<size_t> startPos = sb.getDimensionStartPositions();
     std::vector<size_t> maxDims = sb.getMaxDimensionSizes();
     const std::vector<size_t>& dimSizes = sb.getDimensionSizes();
-    const std::vector<std::string> dimNames = sb.getDimensionNames();
     for (size_t i = 0; i < dimSizes.size(); i++) {
-        const std::string& dn = dimNames[i];
-        const bool is_xy = (reducedDomain() ? (dn == reducedDomain()->xDim || dn == reducedDomain()->yDim) : (dn == _xDimName || dn == _yDimName));
+        // x and y are always the two fastest-moving dimensions (see interpolateValues); their names might
+        // differ from those of the input, e.g. when interpolating to a list of points
+        const bool is_xy = (i < 2);
         if (!is_xy) {
             // already sliced in getInputDataSlice
             startPos.at(i) = 0;
-- 
2.43.0


From 916dc67aaef5eb6adfaa3084c1688d638ae38a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 031/188] fix: generate longitude and latitude of grids with
 axes in km

---
 src/CDM.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/CDM.cc b/src/CDM.cc
index 4305ba7..1c75edb 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -28,6 +28,7 @@
 #include "fimex/Logger.h"
 #include "fimex/MathUtils.h"
 #include "fimex/Units.h"
+#include "fimex/UnitsConverter.h"
 #include "fimex/coordSys/CoordinateSystem.h"
 #include "fimex/coordSys/Projection.h"
 #include "fimex/interpolation.h"
@@ -663,6 +664,18 @@ bool CDM::getProjectionAndAxesUnits(std::string& projectionName, std::string& xA
     return retVal;
 }
 
+static shared_array<double> axisValuesInUnit(const Data& data, const std::string& axisUnit, const std::string& unit)
+{
+    auto values = make_shared_array<double>(data.size());
+    std::copy_n(data.asDouble().get(), data.size(), values.get());
+    Units units;
+    if (!axisUnit.empty() && units.areConvertible(axisUnit, unit)) {
+        UnitsConverter_p uc = units.getConverter(axisUnit, unit);
+        std::transform(values.get(), values.get() + data.size(), values.get(), [&uc](double v) { return uc->convert(v); });
+    }
+    return values;
+}
+
 void CDM::generateProjectionCoordinates(const std::string& projectionVariable, const std::string& xDim, const std::string& yDim, const std::string& lonDim, const std::string& latDim)
 {
     generateProjectionCoordinates(Projection::create(getAttributes(projectionVariable)), xDim, yDim, lonDim, latDim);
@@ -675,8 +688,11 @@ void CDM::generateProjectionCoordinates(Projection_cp projection, const std::str
     const CDMVariable& yVar = getVariable(yDim);
     assert(xVar.hasData());
     assert(yVar.hasData());
-    auto xData = xVar.getData()->asDouble();
-    auto yData = yVar.getData()->asDouble();
+    assert(projection.get() != 0);
+    // the axes might be given in other units than those of the projection, e.g. km
+    const std::string projUnit = projection->isDegree() ? "degree" : "m";
+    auto xData = axisValuesInUnit(*xVar.getData(), getUnits(xDim), projUnit);
+    auto yData = axisValuesInUnit(*yVar.getData(), getUnits(yDim), projUnit);
     size_t xDimLength = getDimension(xDim).getLength();
     size_t yDimLength = getDimension(yDim).getLength();
     assert(xDimLength == xVar.getData()->size());
@@ -685,7 +701,6 @@ void CDM::generateProjectionCoordinates(Projection_cp projection, const std::str
     auto longVal = make_shared_array<double>(fieldSize);
     auto latVal = make_shared_array<double>(fieldSize);
     std::string lonLatProj(MIFI_WGS84_LATLON_PROJ4);
-    assert(projection.get() != 0);
     std::string projStr = projection->getProj4String();
     LOG4FIMEX(logger, Logger::DEBUG, "generating "<<latDim<<"("<<xDim<<","<<yDim<<"),"<<lonDim<<"("<<xDim<<","<<yDim<<") using proj4: "+projStr);
     reproject::reproject_axes(projStr, lonLatProj, xData.get(), yData.get(), xDimLength, yDimLength, longVal.get(), latVal.get());
-- 
2.43.0


From 41817d462802e41a65c17a5b3a5c13cc1a00626c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:15 +0000
Subject: [PATCH 032/188] fix: rotation of vectors and directions on rotated
 latitude longitude grids used axes in radian

---
 src/CDMProcessor.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 850a525..0989044 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -123,8 +123,8 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
     DataPtr xAxisData;
     DataPtr yAxisData;
     if (cs->getProjection()->isDegree()) {
-        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "radian");
-        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "radian");
+        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "degree");
+        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "degree");
     } else {
         xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "m");
         yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "m");
@@ -149,7 +149,6 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
         matrix = reproject::get_vector_reproject_matrix_field(cs->getProjection()->getProj4String(), MIFI_WGS84_LATLON_PROJ4, &inXField[0], &inYField[0],
                                                               xAxisSize, yAxisSize);
     } else {
-        // using MIFI_PROJ_AXIS even for LAT/LON since axes already in radian
         matrix = reproject::get_vector_reproject_matrix(MIFI_WGS84_LATLON_PROJ4, cs->getProjection()->getProj4String(), &xAxisD[0], &yAxisD[0], MIFI_PROJ_AXIS,
                                                         MIFI_PROJ_AXIS, xAxisSize, yAxisSize);
     }
-- 
2.43.0


From f22e0ec67f29289f104a4bd22a6681bcf2c5475a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:36 +0000
Subject: [PATCH 033/188] fix: accept compressionLevel 10 as documented in
 cdmWriterConfig.dtd

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index cfe7ddb..cfdd156 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -414,7 +414,7 @@ NetCDF_CDMWriter::NcVarIdMap NetCDF_CDMWriter::defineVariables(const NcDimIdMap&
                 int shuffle = 0;
                 if (variableCompression.find(var.getName()) != variableCompression.end()) {
                     compression = variableCompression[var.getName()];
-                    if (compression > 10) {
+                    if (compression >= 10) { // 10 to 19: shuffling and level 0 to 9
                         compression -= 10;
                         shuffle = 1;
                     }
-- 
2.43.0


From b4d95e33730b25dfa1509955dc464b795a474589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:36 +0000
Subject: [PATCH 034/188] fix: do not compress string variables, netcdf refuses
 it

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index cfdd156..8b789c0 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -419,7 +419,7 @@ NetCDF_CDMWriter::NcVarIdMap NetCDF_CDMWriter::defineVariables(const NcDimIdMap&
                         shuffle = 1;
                     }
                 }
-                if (compression > 0 && !shape.empty()) { // non-scalar variables
+                if (compression > 0 && !shape.empty() && datatype != CDM_STRINGS) { // non-scalar variables, netcdf does not filter strings
                     // create a chunk-strategy: continuous in last dimensions, max MAX_CHUNK
                     const size_t DEFAULT_CHUNK = 2 << 20; // good chunk up to 1M *sizeof(type)
                     const size_t MIN_CHUNK = 2 << 16;     // chunks should be at least reasonably sized, e.g. 64k*sizeof(type)
-- 
2.43.0


From 892564733fbaeded6ca8ba1688522b3024f7e450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:25 +0000
Subject: [PATCH 035/188] fix: report errors when writing data to NetCDF files

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index 8b789c0..646977b 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -722,15 +722,22 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
                 } catch (std::exception& ex) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " while writing variable " << varName);
+                    exceptions = true;
                 } catch (...) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "unknown exception while writing variable " << varName);
+                    exceptions = true;
                 }
             }
         }
 #ifndef HAVE_MPI
         if (unLimDimPos >= 0) {
-            NCMUTEX_LOCKED(ncCheck(nc_sync(ncFile->ncId))); // sync every 'time/unlimited' step (does not work with MPI)
+            int status;
+            NCMUTEX_LOCKED(status = nc_sync(ncFile->ncId)); // sync every 'time/unlimited' step (does not work with MPI)
+            if (status != NC_NOERR) {
+                LOG4FIMEX(logger, Logger::ERROR, "error while writing to file: " << nc_strerror(status));
+                exceptions = true; // no throw from a parallel loop
+            }
         }
 #endif
     }
@@ -748,6 +755,10 @@ void NetCDF_CDMWriter::init()
 
     // write data
     writeData(ncVarIdMap);
+
+    // closing flushes all buffers, i.e. writing might fail here
+    ncFile->isOpen = false;
+    NCMUTEX_LOCKED(ncCheck(nc_close(ncFile->ncId), "closing " + ncFile->filename));
 }
 
 NetCDF_CDMWriter::~NetCDF_CDMWriter() {}
-- 
2.43.0


From ec3bf64798c1ac03d7c90352e434cc07a604b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:25 +0000
Subject: [PATCH 036/188] fix: renaming the unlimited dimension in the NetCDF
 writer configuration

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index 646977b..b66d94b 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -94,12 +94,11 @@ int getNcVersion(int version, XMLDoc_p doc)
     return retVal;
 }
 
-int ncDimId(int ncId, const CDMDimension* unLimDim)
+int ncDimId(int ncId, const std::string& dimName)
 {
-    int unLimDimId = -1;
-    if (unLimDim)
-        NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncId, unLimDim->getName().c_str(), &unLimDimId)));
-    return unLimDimId;
+    int dimId = -1;
+    NCMUTEX_LOCKED(ncCheck(nc_inq_dimid(ncId, dimName.c_str(), &dimId)));
+    return dimId;
 }
 
 void checkDoc(std::unique_ptr<XMLDoc>& doc, const std::string& filename)
@@ -582,7 +581,7 @@ DataPtr NetCDF_CDMWriter::convertData(const CDMVariable& var, DataPtr data)
 void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
 {
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
-    const int unLimDimId = ncDimId(ncFile->ncId, unLimDim);
+    const int unLimDimId = unLimDim ? ncDimId(ncFile->ncId, getDimensionName(unLimDim->getName())) : -1;
     const long long maxUnLim = (unLimDim == 0) ? 0 : unLimDim->getLength();
     const CDM::VarVec& cdmVars = cdm.getVariables();
 
-- 
2.43.0


From a078351375be1c4e51c1752322738bddcd305273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:46 +0000
Subject: [PATCH 037/188] fix: honour _Unsigned attributes of variables in NcML

---
 src/NcmlCDMReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 6642c75..f211637 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -241,7 +241,7 @@ void NcmlCDMReader::initVariableTypeChange()
         if (name.empty())
             throw CDMException("ncml-file " + configId + " has no name for variable");
 
-        const XPathNodeSet nodes_att_unsigned(doc, "/nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
+        const XPathNodeSet nodes_att_unsigned(doc, "./nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
         bool att_unsigned = false;
         if (nodes_att_unsigned.size() == 1) {
             std::string att_unsigned_val = getXmlProp(nodes_att_unsigned.at(0), "value");
-- 
2.43.0


From 8ccdf1043210e41653397db1e786fd24348036fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:46 +0000
Subject: [PATCH 038/188] fix: keep attributes of unsigned type when writing
 and reading NcML

---
 src/NcmlCDMReader.cc | 2 +-
 src/NcmlCDMWriter.cc | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index f211637..4733ea4 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -354,7 +354,7 @@ CDMAttribute createAttributeFromXML(const xmlNodePtr node, const std::string& va
         // default attribute type is "string"
         type = "string";
     }
-    const CDMDataType datatype = datatype_ncml2cdm(type, false);
+    const CDMDataType datatype = datatype_ncml2cdm(type, getXmlProp(node, "isUnsigned") == "true");
     if (datatype == CDM_NAT)
         throw CDMException("cannot create att name='" + name + "' with type '" + type + "'");
 
diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 6cb28b8..af0761d 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -183,6 +183,9 @@ void NcmlCDMWriter::write(std::ostream& out, const CDMAttribute& att, const std:
         separator = findStringsSeparator(att.getData());
     }
     out << indent << "<attribute name=\"" << escapeXml(att.getName()) << "\" type=\"" << dt.name << "\"";
+    if (dt.is_unsigned) {
+        out << " isUnsigned=\"true\"";
+    }
     if (separator != " ") {
         out << " separator=\"" << separator << "\"";
     }
-- 
2.43.0


From 7ae8270402943c79921c192f921f57731b67c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:46 +0000
Subject: [PATCH 039/188] fix: write the separator of string lists in NcML
 attributes

---
 src/NcmlCDMWriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index af0761d..8176568 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -186,7 +186,8 @@ void NcmlCDMWriter::write(std::ostream& out, const CDMAttribute& att, const std:
     if (dt.is_unsigned) {
         out << " isUnsigned=\"true\"";
     }
-    if (separator != " ") {
+    if (att.getDataType() == CDM_STRINGS) {
+        // without separator, the values would be split at comma and any space
         out << " separator=\"" << separator << "\"";
     }
     out << " value=\"" << escapeXml(att.getStringValueWithSeparator(separator)) << "\" />" << std::endl;
-- 
2.43.0


From e64a1e25837af4520e59350e160f53a43b3c1b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:46 +0000
Subject: [PATCH 040/188] fix: keep newlines and tabs in XML attribute values

---
 src/XMLUtils.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/XMLUtils.cc b/src/XMLUtils.cc
index 29de8d3..ce319e3 100644
--- a/src/XMLUtils.cc
+++ b/src/XMLUtils.cc
@@ -135,7 +135,7 @@ XMLInputDoc createXMLInput(const std::string& configXML)
 namespace {
 bool needsXmlEscape(const std::string& input)
 {
-    return input.find_first_of("&<>\"'") != std::string::npos;
+    return input.find_first_of("&<>\"'\n\r\t") != std::string::npos;
 }
 } // namespace
 
@@ -170,6 +170,16 @@ void escapeXmlToStream(std::ostream& output, const std::string& input)
             case '\'':
                 output << "&apos;";
                 break;
+            // literal newlines and tabs are replaced by spaces when reading an xml attribute
+            case '\n':
+                output << "&#10;";
+                break;
+            case '\r':
+                output << "&#13;";
+                break;
+            case '\t':
+                output << "&#9;";
+                break;
             default:
                 output.put(c); // Write the character directly to the stream
                 break;
-- 
2.43.0


From fc61af0aaac751911c949ed029b57f51d5101540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:46 +0000
Subject: [PATCH 041/188] fix: read infinite and negative nan values as written
 by type2string

---
 include/fimex/String2Type.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fimex/String2Type.h b/include/fimex/String2Type.h
index 8eea097..dcbbada 100644
--- a/include/fimex/String2Type.h
+++ b/include/fimex/String2Type.h
@@ -67,8 +67,14 @@ T string2type(const std::string& s)
     bool ok = !s.empty();
 
     if (std::is_arithmetic<T>() && ok) {
-        if (std::is_floating_point<T>() && s == "nan") {
-            return std::numeric_limits<T>::quiet_NaN();
+        if (std::is_floating_point<T>()) {
+            // as written by type2string
+            if (s == "nan" || s == "-nan")
+                return std::numeric_limits<T>::quiet_NaN();
+            if (s == "inf")
+                return std::numeric_limits<T>::infinity();
+            if (s == "-inf")
+                return -std::numeric_limits<T>::infinity();
         }
         const char c = s[0];
         ok = (c == '-') || (std::is_floating_point<T>() && c == '.') || std::isdigit(c);
-- 
2.43.0


From dd031544d17dacbaeaaeb430505433e65de62895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 042/188] fix: do not write empty values elements to NcML, they
 cannot be read

---
 src/NcmlCDMWriter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 8176568..264951d 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -114,7 +114,12 @@ void NcmlCDMWriter::write(std::ostream& out, bool withData)
     const long long maxUnLim = (unLimDim ? unLimDim->getLength() : 0);
     for (const auto& var : cdm.getVariables()) {
         out << std::endl;
-        const bool writeData = withData && (var.getDataType() != CDM_NAT);
+        bool writeData = withData && (var.getDataType() != CDM_NAT);
+        for (const auto& d : var.getShape()) {
+            // an empty values element cannot be read
+            if (cdm.getDimension(d).getLength() == 0)
+                writeData = false;
+        }
         write(out, var, cdm.getAttributes(var.getName()), !writeData);
         if (writeData) {
             size_t dataSize = 1;
-- 
2.43.0


From 70ccfef61158cf4c3a419ef0f740a3814c58e158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 043/188] fix: writing and reading text variables in NcML

---
 src/NcmlCDMReader.cc |  3 +++
 src/NcmlCDMWriter.cc | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 4733ea4..bdae9ea 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -304,6 +304,9 @@ void NcmlCDMReader::initVariableDataChange()
                     array[i] = array[0] + i * step;
                 }
                 var.setData(convertValues(*createData(dataSize, array), var.getDataType()));
+            } else if (var.getDataType() == CDM_STRING && values_content.size() == dataSize) {
+                // text, one character for each position
+                var.setData(createData(values_content));
             } else {
                 const auto values_list = split_ncml_values(values_content, getXmlProp(node, "separator"));
 
diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 264951d..d866fa8 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -131,7 +131,9 @@ void NcmlCDMWriter::write(std::ostream& out, bool withData)
 
             std::string separator = " ";
             out << "<values";
-            if (var.getDataType() == CDM_STRINGS) {
+            if (var.getDataType() == CDM_STRING) {
+                separator = "";
+            } else if (var.getDataType() == CDM_STRINGS) {
                 separator = "---NEXT-NCML-STRING---";
                 out << " separator=\"" << separator << "\" ";
             }
@@ -149,7 +151,11 @@ void NcmlCDMWriter::write(std::ostream& out, bool withData)
                 if (unLimDimPos > 0)
                     out << separator;
                 if (data && data->size() > 0) {
-                    data->toStream(out, separator);
+                    const bool isText = data->getDataType() == CDM_STRING || data->getDataType() == CDM_STRINGS;
+                    if (isText)
+                        escapeXmlToStream(out, data->asString(separator));
+                    else
+                        data->toStream(out, separator);
                 } else if (dataSize > 0) {
                     std::ostringstream fill;
                     createData(var.getDataType(), 1, cdm.getFillValue(var.getName()))->toStream(fill);
-- 
2.43.0


From b30a056b3d65b47d8b19586c6febf07300710a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:44 +0000
Subject: [PATCH 044/188] fix: NcML values with start and increment for a
 variable without values

---
 src/NcmlCDMReader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index bdae9ea..4326e7f 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -298,10 +298,10 @@ void NcmlCDMReader::initVariableDataChange()
                 LOG_ERROR_THROW("values element must have either 'start' and 'increment' or a value list as content");
             } else if (have_start_inc) {
                 shared_array<double> array(new double[dataSize]);
-                array[0] = string2type<double>(start);
+                const double first = string2type<double>(start);
                 const double step = string2type<double>(increment);
-                for (size_t i = 1; i < dataSize; ++i) {
-                    array[i] = array[0] + i * step;
+                for (size_t i = 0; i < dataSize; ++i) {
+                    array[i] = first + i * step;
                 }
                 var.setData(convertValues(*createData(dataSize, array), var.getDataType()));
             } else if (var.getDataType() == CDM_STRING && values_content.size() == dataSize) {
-- 
2.43.0


From c162a58c8bb9b382a0aeb5136c9cbc57bd21fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:09 +0000
Subject: [PATCH 045/188] fix: renaming attributes in NcML to the name of
 another attribute or the same name

---
 src/NcmlCDMReader.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 4326e7f..a677538 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -504,9 +504,10 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(CDM::globalAttributeNS(), orgName);
-                cdm_->removeAttribute(CDM::globalAttributeNS(), name); // remove other attributes with same name
-                attr.setName(name);
+                cdm_->getAttribute(CDM::globalAttributeNS(), orgName); // throws if there is no such attribute
+                if (name != orgName)
+                    cdm_->removeAttribute(CDM::globalAttributeNS(), name); // remove other attributes with same name
+                cdm_->getAttribute(CDM::globalAttributeNS(), orgName).setName(name);
             } catch (CDMException& ex) {
                 // no such attribute, don't care
             }
@@ -520,10 +521,10 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(varName, orgName);
-                cdm_->removeAttribute(varName, name); // remove other attributes with same name
-                attr.setName(name);
-
+                cdm_->getAttribute(varName, orgName); // throws if there is no such attribute
+                if (name != orgName)
+                    cdm_->removeAttribute(varName, name); // remove other attributes with same name
+                cdm_->getAttribute(varName, orgName).setName(name);
             } catch (CDMException& ex) {
                 // no such attribute, don't care
             }
-- 
2.43.0


From aa6a1e8540b5e51c694cc8af64ccabbb1b4f4bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:15 +0000
Subject: [PATCH 046/188] fix: NcML changes of type or shape of variables with
 data in memory

---
 src/NcmlCDMReader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index a677538..b5b49c6 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -226,6 +226,8 @@ void NcmlCDMReader::initVariableShapeChange()
             const std::vector<std::string> old_shape = var.getShape(); // no reference as it will be replaced
             const std::vector<std::string> fimex_shape = fimexShapeFromXmlNode(node);
             var.setShape(fimex_shape);
+            if (fimex_shape != old_shape)
+                var.setData(DataPtr()); // data in memory has the old shape, read it from the dataReader
             LOG4FIMEX(logger, Logger::DEBUG,
                       "changing shape of variable: " << name << " from " << join(old_shape.begin(), old_shape.end(), ",") << " to "
                                                      << join(fimex_shape.begin(), fimex_shape.end(), ","));
@@ -259,6 +261,8 @@ void NcmlCDMReader::initVariableTypeChange()
                 variableTypeChanges[name] = newType;
                 LOG4FIMEX(logger, Logger::DEBUG, "changing datatype of variable: " << name);
                 var.setDataType(newType);
+                if (var.hasData() && var.getData()->size() > 0)
+                    var.setData(DataPtr()); // data in memory has the old type, read it from the dataReader
             }
         }
     }
-- 
2.43.0


From 68c4434f6774b2b63bc114cbf4bc4c10be3993e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:34 +0000
Subject: [PATCH 047/188] fix: NcML making a renamed dimension unlimited read
 the data of the wrong variable

---
 src/NcmlCDMReader.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index b5b49c6..af9ae51 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -469,9 +469,6 @@ void NcmlCDMReader::initDimensionUnlimited()
 {
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:dimension[@isUnlimited]")) {
         std::string name = getXmlProp(node, "name");
-        std::string orgName = getXmlProp(node, "orgName");
-        if (orgName.empty())
-            orgName = name;
         std::string isUnlimited = getXmlProp(node, "isUnlimited");
         if (cdm_->hasDimension(name)) {
             CDMDimension& dim = cdm_->getDimension(name);
@@ -482,7 +479,8 @@ void NcmlCDMReader::initDimensionUnlimited()
                     if (cdm_->hasVariable(name)) {
                         CDMVariable& var = cdm_->getVariable(name);
                         if (!var.hasData()) {
-                            var.setData(dataReader->getData(orgName));
+                            // variables are not renamed yet
+                            var.setData(dataReader->getData(name));
                         }
                     }
                 }
-- 
2.43.0


From 2a0cb9db7efc344ff96696821b19e75f713e27e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 048/188] fix: size of missing records in joinNew aggregations

---
 src/AggregationReader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index f8c0bb9..905ec9a 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -447,7 +447,9 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
                     // set everything to fillValue
                     size_t unLimSliceSize = 1;
                     for (const auto& dim : aVar.getShape()) {
-                        unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        if (dim != joinNewDim) {
+                            unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        }
                     }
                     return createData(aVar.getDataType(), unLimSliceSize, cdm_->getFillValue(varName));
                 }
-- 
2.43.0


From 2a4988d3071347583c823aef28ccb2fc71a0e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:59 +0000
Subject: [PATCH 049/188] fix: joinNew aggregation of variables with data in
 memory

---
 src/AggregationReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 905ec9a..f1bb75b 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -142,6 +142,7 @@ void AggregationReader::addFirstReader(CDMReader_p reader, const std::string& id
                 auto shape = var.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 var.setShape(shape);
+                var.setData(nullptr); // data of this reader only
             }
         }
 
@@ -263,6 +264,7 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
                 auto shape = rVar.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 aVar.setShape(shape);
+                aVar.setData(nullptr); // data of this reader only
                 aCdm.addVariable(aVar);
                 copyAttributes(rCdm, varName, *cdm_);
             }
-- 
2.43.0


From 4b35e8f9d1ac9debfe94f08552f110cdee0f553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:36 +0000
Subject: [PATCH 050/188] fix: joinNew aggregation returned only the first
 record of variables that are not joined

---
 src/AggregationReader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index f1bb75b..574603a 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -463,6 +463,10 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
 
     // all other variables behave as for "union"
     if (auto rd = findUnionReader(varName)) {
+        if (!cdm_->hasUnlimitedDim(aVar)) {
+            // the dimension might be unlimited in rd, but not here (joinNew)
+            return rd->getData(varName);
+        }
         return rd->getDataSlice(varName, unLimDimPos);
     }
 
-- 
2.43.0


From 3825583e86edba30ff714614563ec2e1b6f59ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:36 +0000
Subject: [PATCH 051/188] fix: missing records must be read as fill values

---
 src/CDMReader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index 17cf906..c4df423 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -155,10 +155,11 @@ DataPtr CDMReader::getData(const std::string& varName)
             const CDMDimension* udim = cdm_->getUnlimitedDim();
             size_t uDimSize = udim->getLength();
             const auto sliceSize = product(getDimsSlice(varName));
-            DataPtr data = createData(variable.getDataType(), uDimSize*sliceSize);
+            DataPtr data = createData(variable.getDataType(), uDimSize*sliceSize, cdm_->getFillValue(varName));
             for (size_t i = 0; i < uDimSize; i++) {
                 DataPtr slice = getDataSlice(varName, i);
-                data->setValues(i*sliceSize, *slice, 0, sliceSize);
+                if (slice && slice->size() != 0)
+                    data->setValues(i*sliceSize, *slice, 0, sliceSize);
             }
             return data;
         } else {
-- 
2.43.0


From e2945be26af0198ed31f9422774afe9fbee059f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:19 +0000
Subject: [PATCH 052/188] fix: data filled with the default fill value of
 64-bit unsigned variables was 0

---
 include/fimex/MathUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/MathUtils.h b/include/fimex/MathUtils.h
index b76e6c6..12608d9 100644
--- a/include/fimex/MathUtils.h
+++ b/include/fimex/MathUtils.h
@@ -74,7 +74,7 @@ struct data_rounder<OUT, IN, true>
     {
         // values above the range of "long long" fit only into 64-bit unsigned types, they have no fractional part
         if (!std::numeric_limits<OUT>::is_signed && sizeof(OUT) >= sizeof(long long) && in >= IN(9223372036854775808.))
-            return static_cast<OUT>(in);
+            return in < IN(18446744073709551616.) ? static_cast<OUT>(in) : std::numeric_limits<OUT>::max();
         return static_cast<OUT>(round(in));
     }
 };
-- 
2.43.0


From 57965e13c82ac4a9ab19b5637ad972c75acb0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:13 +0000
Subject: [PATCH 053/188] fix: joinNew aggregation of variables with dimensions
 that the first reader does not have

---
 src/AggregationReader.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 574603a..5f81b35 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -260,6 +260,20 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
         for (const auto& rVar : rCdm.getVariables()) {
             const auto& varName = rVar.getName();
             if (!aCdm.hasVariable(varName) && joinVars.count(varName)) {
+                bool dimsOk = true;
+                for (const auto& rDimName : rVar.getShape()) {
+                    if (!aCdm.hasDimension(rDimName)) {
+                        auto aDim = rCdm.getDimension(rDimName);
+                        aDim.setUnlimited(false);
+                        aCdm.addDimension(aDim);
+                    } else if (aCdm.getDimension(rDimName).getLength() != rCdm.getDimension(rDimName).getLength()) {
+                        dimsOk = false;
+                        LOG4FIMEX(logger, Logger::DEBUG, "dim '" << rDimName << "' from reader '" << id << "' has length mismatch");
+                    }
+                }
+                if (!dimsOk)
+                    continue;
+
                 auto aVar = rVar;
                 auto shape = rVar.getShape(); // take a copy
                 shape.push_back(joinNewDim);
-- 
2.43.0


From c5cedfab7ececee1caefc59ddc0b671498630159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:14 +0000
Subject: [PATCH 054/188] fix: scanned files of joinNew aggregations all had
 the same coordinate value

---
 src/NcmlAggregationReader.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/NcmlAggregationReader.cc b/src/NcmlAggregationReader.cc
index 42dbd35..eaaa2f8 100644
--- a/src/NcmlAggregationReader.cc
+++ b/src/NcmlAggregationReader.cc
@@ -133,7 +133,6 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
         }
 
         // open reader by scan
-        idx = 0;
         const XPathNodeSet nodesScan(doc, "./nc:scan", nodesAgg[0]);
         for (auto node : nodesScan) {
             const auto dateFormatMark = getXmlProp(node, "dateFormatMark");
@@ -163,11 +162,11 @@ NcmlAggregationReader::NcmlAggregationReader(const XMLInput& ncml)
                     if (aggJoinNew)
                         coordValue = "location_" + type2string(idx);
                     agg->addReader(CDMFileReaderFactory::create(type, fileName, config), fileName, coordValue);
+                    idx += 1;
                 } catch (CDMException& ex) {
                     LOG4FIMEX(logger, Logger::ERROR, "cannot read scanned file '" << fileName << "' type: " << type << ", config: " << config);
                 }
             }
-            idx += 1;
         }
         agg->initAggregation();
         reader_ = agg;
-- 
2.43.0


From 2773d5acb2f43ec74d9dcb83202eed3493e7f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:09 +0000
Subject: [PATCH 055/188] fix: accumulation must not change the data of the
 reader

---
 src/CDMProcessor.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 0989044..89cc880 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -540,13 +540,13 @@ static void replaceNanWith0(shared_array<double> dp, size_t n)
 static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep) {
     if ((data->size() != 0) && (dataP->size() != 0)) {
         assert(data->size() == dataP->size());
-        auto d = data->asDouble();
-        auto dp = dataP->asDouble();
+        // clone, as asDouble might give access to the original data in the reader
+        auto d = data->clone()->asDouble();
+        auto dp = dataP->clone()->asDouble();
         if (addingFirstTimeStep) {
             // in step 0, replace undef with 0
             replaceNanWith0(dp, dataP->size());
         }
-        // this might modify the original data in the reader
         std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::plus<double>());
         data = createData(data->size(), d);
     } else if (dataP->size() != 0) {
@@ -636,13 +636,13 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             DataPtr dataP = p_->dataReader->getDataSlice(varName, unLimDimPos-1);
             if ((data->size() != 0) && (dataP->size() != 0)) {
                 assert(data->size() == dataP->size());
-                auto d = data->asDouble();
-                auto dp = dataP->asDouble();
+                // clone, as asDouble might give access to the original data in the reader
+                auto d = data->clone()->asDouble();
+                auto dp = dataP->clone()->asDouble();
                 if (unLimDimPos == 1) {
                     // in step 0, replace undef with 0
                     replaceNanWith0(dp, dataP->size());
                 }
-                // this might modify the original data in the reader
                 std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::minus<double>());
                 data = createData(data->size(), d);
             }
-- 
2.43.0


From cd26489690a771280fc326f29b6bbd7391d9523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 056/188] fix: accumulation with a missing record must treat
 undefined values in the first record as others

---
 src/CDMProcessor.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 89cc880..4359c64 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -538,19 +538,21 @@ static void replaceNanWith0(shared_array<double> dp, size_t n)
 
 // add d2 to d1 and return d1
 static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep) {
-    if ((data->size() != 0) && (dataP->size() != 0)) {
+    if (dataP->size() == 0)
+        return;
+    // clone, as asDouble might give access to the original data in the reader
+    auto dp = dataP->clone()->asDouble();
+    if (addingFirstTimeStep) {
+        // in step 0, replace undef with 0
+        replaceNanWith0(dp, dataP->size());
+    }
+    if (data->size() != 0) {
         assert(data->size() == dataP->size());
-        // clone, as asDouble might give access to the original data in the reader
         auto d = data->clone()->asDouble();
-        auto dp = dataP->clone()->asDouble();
-        if (addingFirstTimeStep) {
-            // in step 0, replace undef with 0
-            replaceNanWith0(dp, dataP->size());
-        }
         std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::plus<double>());
         data = createData(data->size(), d);
-    } else if (dataP->size() != 0) {
-        data = dataP; // data->size was 0
+    } else {
+        data = createData(dataP->size(), dp);
     }
 }
 
-- 
2.43.0


From a35b43076c68404d7882f018dc67633f5cc2e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:13 +0000
Subject: [PATCH 057/188] fix: accumulation of variables with data in memory

---
 src/CDMProcessor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 4359c64..8a549f5 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -385,6 +385,7 @@ void CDMProcessor::accumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->accumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(DataPtr()); // data in memory is not accumulated
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring accumulate");
     }
@@ -395,6 +396,7 @@ void CDMProcessor::deAccumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->deaccumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(DataPtr()); // data in memory is not deaccumulated
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring deaccumulate");
     }
-- 
2.43.0


From 44dc708b768d6e1dc481ffe3601321c3b7969e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:50 +0000
Subject: [PATCH 058/188] fix: interpolation of variables with data in memory

---
 src/CDMInterpolator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 29a48f6..b1d2912 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -710,6 +710,11 @@ map<string, CoordinateSystem_cp> CDMInterpolator::findBestCoordinateSystemsAndPr
         LOG4FIMEX(logger, Logger::WARN, "removing variable " << *iv << " since it is not compatible with the reprojected coordinates");
         cdm_->removeVariable(*iv);
     }
+    for (const auto& pv : p_->projectionVariables) {
+        // data in memory is not interpolated, get it from the dataReader
+        if (cdm_->hasVariable(pv.first))
+            cdm_->getVariable(pv.first).setData(DataPtr());
+    }
     if (logger->isEnabledFor(Logger::DEBUG)) {
         vector<string> pVars;
         pVars.reserve(p_->projectionVariables.size());
-- 
2.43.0


From 7c930218b5bffb31a4219cc280c5a18a50199f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:50 +0000
Subject: [PATCH 059/188] fix: rotation of vectors and directions with data in
 memory

---
 src/CDMProcessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 8a549f5..2b27063 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -478,6 +478,9 @@ void CDMProcessor::rotateVectorToLatLon(bool toLatLon, const std::vector<std::st
             assert(itCS != coordSysMap.end());
             p_->cachedVectorReprojection[csXId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
         }
+        // data in memory is not rotated
+        cdm_->getVariable(varNameX[i]).setData(DataPtr());
+        cdm_->getVariable(varNameY[i]).setData(DataPtr());
         p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], csXId);
         p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], csXId);
     }
@@ -502,6 +505,7 @@ void CDMProcessor::rotateDirectionToLatLon(bool toLatLon, const std::vector<std:
 
         const string& csId = projectionVariables[varNames[i]];
         p_->rotateLatLonDirection[varNames[i]] = csId;
+        cdm_->getVariable(varNames[i]).setData(DataPtr()); // data in memory is not rotated
 
         if (p_->cachedVectorReprojection.find(csId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csId);
-- 
2.43.0


From 06d434d951a5bd9d35a96f8327e55e370c766b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:09 +0000
Subject: [PATCH 060/188] fix: hybrid sigma coordinates with a, b, p0 used p0
 as the surface pressure

HybridSigmaToPressureConverter::createConverter takes ps before p0.
---
 src/coordSys/verticalTransform/HybridSigmaPressure2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
index 9165537..9ada1f4 100644
--- a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
+++ b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
@@ -32,7 +32,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p HybridSigmaPressure2::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, p0, ps);
+    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, ps, p0);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From ab02157bf401a9e488ba4dde2da6f2000d452ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:05 +0000
Subject: [PATCH 061/188] fix: ln pressure coordinates with level and reference
 pressure interchanged

LnPressureToPressureConverter takes p0 before the level.
---
 src/coordSys/verticalTransform/LnPressure.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/LnPressure.cc b/src/coordSys/verticalTransform/LnPressure.cc
index 7e3fc2a..a75201f 100644
--- a/src/coordSys/verticalTransform/LnPressure.cc
+++ b/src/coordSys/verticalTransform/LnPressure.cc
@@ -33,7 +33,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p LnPressure::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return std::make_shared<LnPressureToPressureConverter>(reader, cs, lev, p0);
+    return std::make_shared<LnPressureToPressureConverter>(reader, cs, p0, lev);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 4f52c74e8cd798eb2669c17dec8911c9f24b2cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:43 +0000
Subject: [PATCH 062/188] fix: altitude by integrating pressure with a single
 level

---
 .../PressureIntegrationToAltitudeConverter.cc                 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
index f86dce0..2bec526 100644
--- a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
+++ b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
@@ -132,7 +132,9 @@ DataPtr PressureIntegrationToAltitudeConverter::getDataSlice(const SliceBuilder&
 
     // 2) TODO this can be cached
     SliceBuilder sbPressure = adaptSliceBuilder(rcdm, pressure_, sbOut);
-    sbPressure.setAll(zName);
+    const std::vector<std::string> pressureDims = sbPressure.getDimensionNames();
+    if (std::find(pressureDims.begin(), pressureDims.end(), zName) != pressureDims.end()) // pressure has no z dimension if there is only one level
+        sbPressure.setAll(zName);
     VarFloat pressure(reader_, pressure_, sbPressure);
     const size_t dZPressure = pressure.dims.delta(zName);
 
-- 
2.43.0


From 703142f47f99811f1e67d268f8a2ab1ecfaf282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:31 +0000
Subject: [PATCH 063/188] fix: read past the end of pressure data when
 integrating over undefined columns

The loop searching a column with defined pressure included the vertical
dimension, adding the length of the column at every level.
---
 .../verticalTransform/PressureIntegrationToAltitudeConverter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
index 2bec526..d5c84e9 100644
--- a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
+++ b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
@@ -142,8 +142,8 @@ DataPtr PressureIntegrationToAltitudeConverter::getDataSlice(const SliceBuilder&
     {
         ArrayDims dimsP = pressure.dims;
         ArrayGroup groupP;
+        set_not_shared(zName, dimsP); // before adding to the group, otherwise the loop includes z
         groupP.add(dimsP);
-        set_not_shared(zName, dimsP);
         groupP.minimizeShared(0);
         LOG4FIMEX(logger, Logger::DEBUG, "groupP rank=" << groupP.rank());
         Loop loopP(groupP);
-- 
2.43.0


From 1974e7406ea01486e15b94c556831b53ef76c59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:49 +0000
Subject: [PATCH 064/188] fix: geopotential height where the altitude has
 another shape than the temperature

The slice of the temperature was applied to the altitude converter, whose
dimensions may be fewer or in another order, e.g. levels of pressure only.
---
 src/CDMProcessor.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 2b27063..b8622a9 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -26,6 +26,7 @@
 
 #include "fimex/CDMProcessor.h"
 
+#include "fimex/ArrayLoop.h"
 #include "fimex/CDM.h"
 #include "fimex/CDMException.h"
 #include "fimex/CDMInterpolator.h"
@@ -39,6 +40,7 @@
 #include "fimex/coordSys/CoordinateSystem.h"
 #include "fimex/coordSys/verticalTransform/HybridSigmaPressure1.h"
 #include "fimex/coordSys/verticalTransform/VerticalConverter.h"
+#include "fimex/coordSys/verticalTransform/VerticalTransformationUtils.h"
 #include "fimex/interpolation.h"
 
 #include "fimex/reproject.h"
@@ -606,7 +608,23 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             if (cdm_->getVariable(p_->geopotentialHeightTemperatureVar).checkDimension(unlimDim->getName()))
                 sb.setStartAndSize(unlimDim->getName(), unLimDimPos, 1);
         }
-        data = p_->altitudeConverter->getDataSlice(sb);
+        // the shape of the converter may differ from the shape of the temperature
+        const SliceBuilder sbAltitude = adaptSliceBuilder(p_->dataReader->getCDM(), p_->altitudeConverter, sb);
+        if (DataPtr altitude = p_->altitudeConverter->getDataSlice(sbAltitude)) {
+            const ArrayDims iDims = makeArrayDims(sbAltitude), oDims = makeArrayDims(sb);
+            ArrayGroup group;
+            group.add(oDims).add(iDims);
+            group.minimizeShared(0);
+            auto iAltitude = altitude->asFloat();
+            auto oAltitude = make_shared_array<float>(oDims.volume());
+            Loop loop(group);
+            do {
+                oAltitude[loop[0]] = iAltitude[loop[1]];
+            } while (loop.next());
+            data = createData(oDims.volume(), oAltitude);
+        } else {
+            data = createData(CDM_FLOAT, 0);
+        }
     } else { // other variables
         data = p_->dataReader->getDataSlice(varName, unLimDimPos);
     }
-- 
2.43.0


From 268c5710d5b3c1e3a4e3bc14c821892431e7a53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:48 +0000
Subject: [PATCH 065/188] fix: neighbour levels for the first level,
 extrapolation and nearest neighbour

find_closest_neighbor_distinct_elements returned twice the same element if x
is equal to the first element, and the lower instead of the closer element
first, find_closest_distinct_elements returned twice the same element if the
first element is the closest one.
---
 include/fimex/FindNeighborElements.h | 52 +++++++++++++++-------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/include/fimex/FindNeighborElements.h b/include/fimex/FindNeighborElements.h
index 7d7dd88..60a857a 100644
--- a/include/fimex/FindNeighborElements.h
+++ b/include/fimex/FindNeighborElements.h
@@ -26,6 +26,8 @@
 
 #include "min_max.h"
 
+#include <algorithm>
+#include <cmath>
 #include <iterator>
 #include <limits>
 #include <utility>
@@ -51,32 +53,35 @@ find_closest_distinct_elements(InputIterator start, InputIterator end, typename
     typedef typename std::iterator_traits<InputIterator>::value_type value_t;
     typename iterator_traits<InputIterator>::difference_type retVal1 = 0;
     typename iterator_traits<InputIterator>::difference_type retVal2 = 0;
-    value_t v1, v1Diff, v2Diff;
-    if (start != end) {
-        v1 = *start;
-        v1Diff = abs(x - *start);
-        v2Diff = v1Diff;
-    }
+    value_t v1 = value_t(), v1Diff = value_t(), v2Diff = value_t();
+    bool found1 = false, found2 = false;
     for (InputIterator cur = start; cur != end; ++cur) {
         const value_t vDiff = abs(x - *cur);
-        if (vDiff <= v2Diff) {
-            if (vDiff < v1Diff) {
+        if (vDiff != vDiff)
+            continue; // undefined element
+        if (!found1 || vDiff < v1Diff) {
+            if (found1) {
                 retVal2 = retVal1;
                 v2Diff = v1Diff;
-                v1 = *cur;
-                retVal1 = distance(start, cur);
-                v1Diff = vDiff;
-            } else if (*cur != v1) {
-                retVal2 = distance(start, cur);
-                v2Diff = vDiff;
+                found2 = true;
             }
+            v1 = *cur;
+            retVal1 = distance(start, cur);
+            v1Diff = vDiff;
+            found1 = true;
+        } else if (*cur != v1 && (!found2 || vDiff <= v2Diff)) {
+            retVal2 = distance(start, cur);
+            v2Diff = vDiff;
+            found2 = true;
         } // else nothing to be done
     }
+    if (!found2)
+        retVal2 = retVal1;
     return make_pair(retVal1, retVal2);
 }
 
 /**
- * Find closest distinct neighbor elements in an unordered list, with a <= x < b
+ * Find closest distinct neighbor elements in an unordered list, with a <= x < b or b <= x < a
  * It might extrapolate if x is smaller than all elements (or x > all elements) and
  * fall back to find_closest_distinct_elements()
  *
@@ -98,20 +103,15 @@ find_closest_neighbor_distinct_elements(InputIterator start, InputIterator end,
     typedef typename std::iterator_traits<InputIterator>::value_type value_t;
     InputIterator lowest = start;
     InputIterator highest = start;
-    InputIterator cur = start;
-    value_t lowDiff = x - *cur;
-    value_t highDiff = -lowDiff;
-    const double maxDiff = std::numeric_limits<value_t>::max();
-    if (lowDiff < 0)
-        lowDiff = maxDiff;
-    if (highDiff < 0)
-        highDiff = maxDiff;
-    while (++cur != end) {
+    const value_t maxDiff = std::numeric_limits<value_t>::max();
+    value_t lowDiff = maxDiff;
+    value_t highDiff = maxDiff;
+    for (InputIterator cur = start; cur != end; ++cur) {
         const value_t diff = x - *cur;
         if (diff >= 0) {
             if (minimize(lowDiff, diff))
                 lowest = cur;
-        } else {
+        } else if (diff < 0) {
             if (minimize(highDiff, -diff))
                 highest = cur;
         }
@@ -121,6 +121,8 @@ find_closest_neighbor_distinct_elements(InputIterator start, InputIterator end,
         return find_closest_distinct_elements(start, end, x);
     }
 
+    if (highDiff < lowDiff)
+        std::swap(lowest, highest); // a must be closer than b
     return std::make_pair(std::distance(start, lowest), std::distance(start, highest));
 }
 
-- 
2.43.0


From d88b8977d5807b67782fab8dd7c5180f96c782f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:23 +0000
Subject: [PATCH 066/188] fix: range of valid depths for ocean s coordinates

Depth is positive down: it reaches from -eta at the surface to the sea floor
depth, which had not been used.
---
 .../OceanSCoordinateGToDepthConverter.cc           | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
index 7d8f4d8..eda9660 100644
--- a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
+++ b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
@@ -113,7 +113,7 @@ std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMaxShape(
 
 DataPtr OceanSCoordinateGToDepthConverter::getValidityMax(const SliceBuilder& sb) const
 {
-    return BasicVerticalConverter::getValidityMin(sb);
+    return getSliceData(reader_, sb, vars_.depth, "m");
 }
 
 std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMinShape() const
@@ -125,8 +125,16 @@ std::vector<std::string> OceanSCoordinateGToDepthConverter::getValidityMinShape(
 
 DataPtr OceanSCoordinateGToDepthConverter::getValidityMin(const SliceBuilder& sb) const
 {
-    if (!vars_.eta.empty())
-        return getSliceData(reader_, sb, vars_.eta, "m");
+    if (!vars_.eta.empty()) {
+        DataPtr etaData = getSliceData(reader_, sb, vars_.eta, "m");
+        if (!etaData)
+            return etaData;
+        // eta is positive up, depth is positive down
+        auto eta = etaData->asDouble();
+        auto surface = make_shared_array<double>(etaData->size());
+        std::transform(eta.get(), eta.get() + etaData->size(), surface.get(), std::negate<double>());
+        return createData(etaData->size(), surface);
+    }
     return BasicVerticalConverter::getValidityMin(sb);
 }
 
-- 
2.43.0


From 3f735e2d7ff1684c70412cd62a59e54539bfcf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 067/188] fix: vertical interpolation used the valid range of
 the first record for all records

---
 src/CDMVerticalInterpolator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 15324d1..b627944 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -415,7 +415,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> oValidMaxShape = oConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid max shape: " << join(oValidMaxShape.begin(), oValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr oValuesMax = oConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), oValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -427,7 +428,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> oValidMinShape = oConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid min shape: " << join(oValidMinShape.begin(), oValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr oValuesMin = oConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), oValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
@@ -441,7 +443,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> iValidMaxShape = iConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid max shape: " << join(iValidMaxShape.begin(), iValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr iValuesMax = iConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), iValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -454,7 +457,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> iValidMinShape = iConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid min shape: " << join(iValidMinShape.begin(), iValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr iValuesMin = iConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), iValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
-- 
2.43.0


From 65529d24403f9ef6e5d247484c698b92129bf4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:00 +0000
Subject: [PATCH 068/188] fix: uninitialized values from logarithmic vertical
 interpolation of negative levels

---
 src/CDMVerticalInterpolator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index b627944..b5dcdd8 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -540,7 +540,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
                     const size_t idataZ1  = loop[IN] + idataZdelta * pos.second;
                     const float valueI0 = iData[idataZ0], valueI1 = iData[idataZ1];
                     const float verticalI0 = *(ivertical0 + pos.first), verticalI1 = *(ivertical0 + pos.second);
-                    intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOut);
+                    if (intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOut) != MIFI_OK)
+                        *interpolated = MIFI_UNDEFINED_F; // e.g. logarithm of a negative level
                 } else {
                     // find_closest_neighbor_distinct_elements failed
                     *interpolated = MIFI_UNDEFINED_F;
-- 
2.43.0


From dc04cbbc1809129701486e7f77ff5ff011eb84d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:38 +0000
Subject: [PATCH 069/188] fix: vertical interpolation of records without data

---
 src/CDMVerticalInterpolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index b5dcdd8..aaa5a58 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -480,6 +480,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
     const size_t overticalZdelta = soVertical.delta(geoZo);
 
     DataPtr data = dataReader_->getDataSlice(varName, unLimDimPos);
+    if (data->size() == 0)
+        return data; // no data in this record
     const double badValue = cdm_->getFillValue(varName);
     auto iData = data2InterpolationArray(data, badValue);
     const size_t oSize = soData.volume();
-- 
2.43.0


From cb032b802f3fc126097b50dc8ac290c4d7cbd4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:50 +0000
Subject: [PATCH 070/188] fix: endless recursion in vertical interpolation to
 an axis

With a field of the vertical type, e.g. air_pressure, on the old axis, the
levels of the new axis were taken from this field, which is interpolated
itself.
---
 src/CDMVerticalInterpolator.cc | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index aaa5a58..5657a89 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -118,6 +118,30 @@ void replaceZaxis(CDM& cdm, CoordinateSystem_cp cs, const std::string& varName,
     }
 }
 
+/**
+ * Reader with the changed shapes. Interpolated variables cannot be used to find the levels they
+ * are interpolated to, e.g. air_pressure, therefore they do not have a standard_name.
+ */
+class AxisReader : public CDMReader
+{
+public:
+    AxisReader(CDMReader_p dataReader, const CDM& cdm, const CoordinateSystem_cp_v& changeCoordSys)
+        : dataReader_(dataReader)
+    {
+        *cdm_ = cdm;
+        for (const auto& var : cdm.getVariables()) {
+            if (findCompleteCoordinateSystemFor(changeCoordSys, var.getName()))
+                cdm_->removeAttribute(var.getName(), "standard_name");
+        }
+    }
+
+    using CDMReader::getDataSlice;
+    DataPtr getDataSlice(const std::string& varName, size_t unLimDimPos) override { return dataReader_->getDataSlice(varName, unLimDimPos); }
+
+private:
+    CDMReader_p dataReader_;
+};
+
 } // namespace
 
 using namespace std;
@@ -366,10 +390,10 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
     VerticalConverter_p oConverter;
     DataPtr oVerticalData;
     if (pimpl_->interpolateToAxis) {
-        CDMReader_p self(this, [](CDMReader*) { }); // FIXME hack to avoid adding enable_shared_from_this
-        const CoordinateSystem_cp_v coordSys = listCoordinateSystems(self);
+        CDMReader_p axisReader = std::make_shared<AxisReader>(dataReader_, *cdm_, pimpl_->changeCoordSys);
+        const CoordinateSystem_cp_v coordSys = listCoordinateSystems(axisReader);
         const auto cs = findCompleteCoordinateSystemFor(coordSys, varName);
-        oConverter = verticalConverter(cs, self, pimpl_->verticalType);
+        oConverter = verticalConverter(cs, axisReader, pimpl_->verticalType);
         oVerticalData = verticalData4D(oConverter, *cdm_, unLimDimPos);
     } else if (pimpl_->templateCS) {
         oConverter = verticalConverter(pimpl_->templateCS, dataReader_, pimpl_->verticalType);
-- 
2.43.0


From 22d3684d5d807baa5bdda248776fd26ec94f0642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:50 +0000
Subject: [PATCH 071/188] fix: crash in vertical interpolation if no level is
 defined

---
 src/CDMVerticalInterpolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 5657a89..27bcc5d 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -509,6 +509,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
     const double badValue = cdm_->getFillValue(varName);
     auto iData = data2InterpolationArray(data, badValue);
     const size_t oSize = soData.volume();
+    if (!iVerticalData || (oConverter && !oVerticalData)) // no levels, e.g. surface pressure undefined
+        return createData(getCDM().getVariable(varName).getDataType(), oSize, badValue);
     auto oData = make_shared_array<float>(oSize);
     auto iVerticalValues = iVerticalData->asFloat();
     shared_array<float> oVerticalValues;
-- 
2.43.0


From f978682f59c67bc4f439ac757fe21a00813fa798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:52 +0000
Subject: [PATCH 072/188] fix: crash or endless loop expanding ... without end
 or step

---
 include/fimex/TokenizeDotted.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fimex/TokenizeDotted.h b/include/fimex/TokenizeDotted.h
index 2d23955..567e9e8 100644
--- a/include/fimex/TokenizeDotted.h
+++ b/include/fimex/TokenizeDotted.h
@@ -56,11 +56,13 @@ std::vector<T> tokenizeDotted(const std::string& str, const std::string& delimit
             T curVal = last + dist;
             // positive if values get larger, negative if curVal gets samller
             double direction = (dist > 0) ? 1 : -1;
-            if (++tok != tokens.end()) {
+            if (++tok == tokens.end()) {
+                throw CDMException("tokenizeDotted: cannot use ... expansion without a value behind it");
+            } else {
                 T afterDotVal = string2type<T>(*tok);
                 // expand the dots until before the afterDotVal, compare against rounding error
                 double roundError = direction * dist * -1.e-5;
-                while ((curVal - afterDotVal) * direction < roundError) {
+                while (dist != 0 && (curVal - afterDotVal) * direction < roundError) {
                     vals.push_back(curVal);
                     curVal += dist;
                 }
-- 
2.43.0


From 56d5f67608e055a0bf48ca4f7477e842956394b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:52 +0000
Subject: [PATCH 073/188] fix: relative times and axes with x-d, decimals, or
 before the origin

---
 src/SpatialAxisSpec.cc | 12 ++++--------
 src/TimeSpec.cc        | 14 +++++---------
 2 files changed, 9 insertions(+), 17 deletions(-)

diff --git a/src/SpatialAxisSpec.cc b/src/SpatialAxisSpec.cc
index 4c6f074..40eedb5 100644
--- a/src/SpatialAxisSpec.cc
+++ b/src/SpatialAxisSpec.cc
@@ -33,6 +33,7 @@
 #include "fimex/Units.h"
 
 #include <algorithm>
+#include <cmath>
 #include <iterator>
 #include <regex>
 #include <vector>
@@ -59,7 +60,7 @@ public:
         std::string retVal;
         if (value != "...") {
             std::smatch what;
-            std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+            std::regex finalVals("x\\s*([+-])?\\s*(\\d+\\.?\\d*)?\\s*");
             double retDouble;
             if (std::regex_search(value, what, finalVals)) {
                 if (what.size() >= 3) {
@@ -134,15 +135,10 @@ void SpatialAxisSpec::init()
         Units units;
         // find the position 0 in the relative times
         double startU = start; // TODO check unit
-        double startOffset = static_cast<int> (startU / delta) * delta;
-        if (startU < startOffset) {
-            // cast to largest value below startU
-            // but I want smallest value above startU
-            startOffset += delta;
-        }
+        double startOffset = std::floor(startU / delta + 1e-6) * delta;
         // find position x in the relative times
         double endU = end; // TODO check unit
-        double finalU = static_cast<int> (endU / delta) * delta;
+        double finalU = std::floor(endU / delta + 1e-6) * delta;
         transform(places.begin(), places.end(), places.begin(),
                 TranslateRelativePlace(startOffset, finalU));
         string absolutPlaces = join(places.begin(), places.end(), ",");
diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index d855878..a628606 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -37,6 +37,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <regex>
@@ -59,7 +60,7 @@ static double translateRelativeTime(string value, double startOffset, double fin
 {
     double retVal = 0.;
     std::smatch what;
-    std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+    std::regex finalVals("x\\s*([+-])?\\s*(\\d+\\.?\\d*)?\\s*");
     if (std::regex_search(value, what, finalVals)) {
         assert(what.size() == 3); // defined by regex
         if (what[2] == "") {
@@ -68,7 +69,7 @@ static double translateRelativeTime(string value, double startOffset, double fin
         } else {
             if (what[1] == '+') {
                 retVal = finalValue + string2type<double>(what[2]);
-            } else if (what[1] != "-") {
+            } else if (what[1] == '-') {
                 retVal = finalValue - string2type<double>(what[2]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN,
@@ -149,15 +150,10 @@ TimeSpec::TimeSpec(const string& timeSpec, const FimexTime& startTime, const Fim
         TimeUnit tu(relativeUnit);
         // find the position 0 in the relative times
         double startTimeU = tu.fimexTime2unitTime(startTime);
-        double startOffset = static_cast<int>(startTimeU / delta) * delta;
-        if (startTimeU < startOffset) {
-            // cast to largest value below startTimeU
-            // but I want smallest value above startTimeU
-            startOffset += delta;
-        }
+        double startOffset = std::floor(startTimeU / delta + 1e-6) * delta;
         // find position x in the relative times
         double endTimeU = tu.fimexTime2unitTime(endTime);
-        double finalTimeU = static_cast<int>(endTimeU / delta) * delta;
+        double finalTimeU = std::floor(endTimeU / delta + 1e-6) * delta;
 
         // convert list with x and ... to timeUnitString
         for (size_t i = 0; i < times.size(); i++) {
-- 
2.43.0


From 91ed5e1244541982e2964b847a14f898c8f7d1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:52 +0000
Subject: [PATCH 074/188] fix: calendar times are up to a millisecond early, or
 have 60 seconds

---
 src/TimeUnit.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/TimeUnit.cc b/src/TimeUnit.cc
index d4a9240..9b1d5a1 100644
--- a/src/TimeUnit.cc
+++ b/src/TimeUnit.cc
@@ -89,7 +89,6 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
 {
     Units units; // unit initialization
     FimexTime fiTime;
-    float second;
     int year, month, mday, hour, minute;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
@@ -98,15 +97,15 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
     handleUdUnitError(ut_get_status(), "converting double to calendar");
     double encodedTime = cv_convert_double(conv.get(), unitTime);
     double res, sec;
-    ut_decode_time(encodedTime, &year, &month, &mday, &hour, &minute, &sec, &res);
-    second = static_cast<float>(sec);
+    // round to milliseconds
+    ut_decode_time(encodedTime + 0.0005, &year, &month, &mday, &hour, &minute, &sec, &res);
     fiTime.setYear(static_cast<unsigned int>(year));
     fiTime.setMonth(static_cast<char>(month));
     fiTime.setMDay(static_cast<char>(mday));
     fiTime.setHour(static_cast<char>(hour));
     fiTime.setMinute(static_cast<char>(minute));
-    fiTime.setSecond(static_cast<char>(second));
-    fiTime.setMSecond(static_cast<unsigned int>((second - fiTime.getSecond())*1000));
+    fiTime.setSecond(static_cast<char>(sec));
+    fiTime.setMSecond(static_cast<unsigned int>((sec - fiTime.getSecond())*1000));
 
     return fiTime;
 }
@@ -122,7 +121,7 @@ double TimeUnit::fimexTime2unitTime(const FimexTime& fiTime, double invalidValue
     }
 
     Units units; // unit initialization
-    float second = fiTime.getSecond() + (fiTime.getMSecond()/1000.);
+    double second = fiTime.getSecond() + (fiTime.getMSecond()/1000.);
     double unitTime;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
-- 
2.43.0


From c3c3cdcf90b80201d9ed83d2d5cea62d6c16198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:52 +0000
Subject: [PATCH 075/188] fix: overflow for times before 1678 and after 2261

---
 src/TimeUtils.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/TimeUtils.cc b/src/TimeUtils.cc
index 5332e7b..45a4344 100644
--- a/src/TimeUtils.cc
+++ b/src/TimeUtils.cc
@@ -69,8 +69,7 @@ time_point make_time_from_string(const std::string& iso9601)
 
 time_point make_time_from_timet(long timet)
 {
-    std::chrono::system_clock::time_point t = std::chrono::system_clock::from_time_t(static_cast<std::time_t>(timet));
-    return std::chrono::time_point_cast<std::chrono::seconds>(t);
+    return time_point(time_duration(timet));
 }
 
 static std::string make_time_string(const time_point& tp, const char* fmt)
@@ -78,7 +77,7 @@ static std::string make_time_string(const time_point& tp, const char* fmt)
     if (is_invalid_time_point(tp))
         return "invalid-date-time";
 
-    const time_t tt = std::chrono::system_clock::to_time_t(tp);
+    const time_t tt = tp.time_since_epoch().count();
     const tm utc = *std::gmtime(&tt);
     char buf[64];
     snprintf(buf, sizeof(buf), fmt, 1900 + utc.tm_year, 1 + utc.tm_mon, utc.tm_mday, utc.tm_hour, utc.tm_min, utc.tm_sec);
@@ -124,7 +123,7 @@ FimexTime fromTimePoint(const time_point& tp)
     if (is_invalid_time_point(tp))
         return FimexTime();
 
-    const time_t tt = std::chrono::system_clock::to_time_t(tp);
+    const time_t tt = tp.time_since_epoch().count();
     const tm utc = *std::gmtime(&tt);
     return FimexTime(1900 + utc.tm_year, 1 + utc.tm_mon, utc.tm_mday, utc.tm_hour, utc.tm_min, utc.tm_sec);
 }
-- 
2.43.0


From 7b56ddeeb483c4d4929b9a661bcb693406191838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:52 +0000
Subject: [PATCH 076/188] fix: linear unit conversions with large factors or
 offsets are refused

---
 src/Units.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Units.cc b/src/Units.cc
index b563442..3f8ca8a 100644
--- a/src/Units.cc
+++ b/src/Units.cc
@@ -33,6 +33,7 @@
 #include "udunits2.h"
 #include "converter.h"
 
+#include <algorithm>
 #include <cmath>
 
 namespace MetNoFimex {
@@ -125,19 +126,21 @@ public:
         if (!std::isfinite(offset)) return false;
         double slope = convert(1.0) - offset;
         if (!std::isfinite(slope)) return false;
+        // rounding errors grow with the values
+        const double tolerance = std::max(1e-5, 1e-9 * (std::fabs(offset) + 1000 * std::fabs(slope)));
 
         double val = 10.;
         double cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
+        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > tolerance)) return false;
         val = 100.;
         cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
+        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > tolerance)) return false;
         val = 1000.;
         cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
+        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > tolerance)) return false;
         val = -1000.;
         cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
+        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > tolerance)) return false;
 
         return true;
     }
-- 
2.43.0


From fdea71b093fc78dc0c583d15b97742d27451d55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:52 +0000
Subject: [PATCH 077/188] fix: parsed time with 1000 milliseconds

---
 src/FimexTime.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FimexTime.cc b/src/FimexTime.cc
index 383403f..b09caf9 100644
--- a/src/FimexTime.cc
+++ b/src/FimexTime.cc
@@ -27,6 +27,7 @@
 #include "fimex/TimeUtils.h"
 #include "fimex/TokenizeDotted.h"
 
+#include <algorithm>
 #include <climits>
 #include <cmath>
 #include <limits>
@@ -132,7 +133,7 @@ bool FimexTime::parseISO8601(const std::string& isoStr)
         vector<string> seconds = tokenize(time[2], ".");
         int milliSecs = 0;
         if (seconds.size() > 1) {
-            milliSecs = std::round(string2type<double>("." + seconds[1]) * 1000);
+            milliSecs = std::min(999, static_cast<int>(std::round(string2type<double>("." + seconds[1]) * 1000)));
         }
         setTime(date[0], date[1], date[2], string2type<short>(time[0]), string2type<short>(time[1]), string2type<short>(seconds[0]), milliSecs);
         return true;
-- 
2.43.0


From 117667ed0d51ed1569efd35a199b500b44b8b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:51 +0000
Subject: [PATCH 078/188] fix: time specification with an additional time from
 rounding errors

---
 src/TimeSpec.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index a628606..7de09ef 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -133,7 +133,8 @@ TimeSpec::TimeSpec(const string& timeSpec, const FimexTime& startTime, const Fim
 
     if (relativeUnit == "") {
         // convert all times to double using tu and using tokenizeDotted
-        const TimeUnit tu(outputUnit); // all times should be representable in outputUnit
+        TimeUnit checkUnit(outputUnit); // all times should be representable in outputUnit
+        const TimeUnit tu("seconds since 1970-01-01 00:00:00"); // steps are whole numbers in this unit
         string timeDoubles = timeString2timeUnitString(timeStepStr, tu);
         vector<double> timeDoubleVec = tokenizeDotted<double>(timeDoubles, ",");
         // add the times as fimexTimes to timeSteps
-- 
2.43.0


From b50e02df2bb5be2d4f8dd19b34932a860993805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 079/188] fix: crash reading from a time interpolator before
 changeTimeAxis

---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 7b2779e..e0b88bc 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -92,7 +92,7 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
 {
     const std::string timeAxis = getTimeAxis(coordSystems_, varName);
     LOG4FIMEX(logger, Logger::DEBUG, "getting time-interpolated data-slice for " << varName << " with time-axis: " << timeAxis);
-    if (timeAxis.empty() || (dataReaderTimesInNewUnits_.find(timeAxis)->second.size() == 0)) {
+    if (timeAxis.empty() || (dataReaderTimesInNewUnits_.find(timeAxis) == dataReaderTimesInNewUnits_.end())) {
         // not time-axis or "changeTimeAxis" never called
         // no changes, simply forward
         return dataReader_->getDataSlice(varName, unLimDimPos);
-- 
2.43.0


From ff1b1d3981cd2721419e0216b023d1fd3425d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 080/188] fix: wrong times if changeTimeAxis is called again

---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index e0b88bc..d2a9ab9 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -150,7 +150,7 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
         if (!timeDimName.empty() && changedTimes.find(timeDimName) == changedTimes.end()) {
             changedTimes.insert(timeDimName); // avoid double changes
             DataPtr times = dataReader_->getScaledData(timeDimName);
-            string unit = cdm_->getUnits(timeDimName);
+            string unit = orgCDM.getUnits(timeDimName);
             const TimeUnit tu(unit);
             vector<FimexTime> oldTimes;
             auto oldTimesPtr = times->asDouble();
-- 
2.43.0


From f33875a5477c2571725edfee782d7e196ea61980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 081/188] fix: interpolated times read with the packing of the
 old time axis

---
 src/CDMTimeInterpolator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index d2a9ab9..baf1d93 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -196,6 +196,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             std::transform(newTimes.begin(), newTimes.end(), timeData.get(), [newTU](const FimexTime& ft) { return newTU.fimexTime2unitTime(ft); });
             auto& timeVar = cdm_->getVariable(timeDimName);
             timeVar.setDataType(CDM_DOUBLE);
+            cdm_->removeAttribute(timeDimName, "scale_factor");
+            cdm_->removeAttribute(timeDimName, "add_offset");
+            cdm_->removeAttribute(timeDimName, "_FillValue");
             timeVar.setData(createData(newTimes.size(), timeData));
             cdm_->getDimension(timeDimName).setLength(newTimes.size());
 
-- 
2.43.0


From 699a91bb56725d9721bf8dc60d441919978dd6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 082/188] fix: time interpolation to times in any order

---
 src/CDMTimeInterpolator.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index baf1d93..0f4714d 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -162,10 +162,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             // create mapping of new time value positions to old time values (per time-axis)
             const vector<FimexTime>& newTimes = ts.getTimeSteps();
             size_t newTimePos = 0;
-            size_t lastPos = 0;
             vector<pair<size_t, size_t> > timeMapping(newTimes.size());
             for (vector<FimexTime>::const_iterator it = newTimes.begin(); it != newTimes.end(); ++it, ++newTimePos) {
-                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin() + lastPos, oldTimes.end(), *it);
+                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin(), oldTimes.end(), *it);
                 size_t pos = distance(oldTimes.begin(), olb);
                 size_t t1, t2;
                 if (pos == oldTimes.size()) {
@@ -183,7 +182,6 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
                         assert(oldTimes.size() == 1);
                     }
                 }
-                lastPos = pos; // make search faster, we know that the next lower_bound_pos will be >= pos
                 timeMapping[newTimePos] = make_pair(t1,t2);
             }
             timeChangeMap_[timeDimName] = timeMapping;
-- 
2.43.0


From 4983ad52c8b04deeab0f56d401662b14b4af9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:03 +0000
Subject: [PATCH 083/188] fix: time interpolation with fill values and of
 integers, no change at original times

---
 src/CDMTimeInterpolator.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 0f4714d..22fde7e 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -118,14 +118,18 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
         DataPtr d2 = dataReader_->getDataSlice(varName, orgTimes.second);
         LOG4FIMEX(logger, Logger::DEBUG, "interpolation between " << d1Time << " and " << d2Time << " at " << currentTime);
         // convert if both slices are defined, otherwise, simply use the defined one or return undefined
-        if (d1->size() == 0) {
+        if (d1->size() == 0 || orgTimes.first == orgTimes.second) {
             data = d2;
         } else if (d2->size() == 0) {
             data = d1;
         } else if (d1->size() == d2->size()) {
+            const double fill = cdm_->getFillValue(varName);
+            auto f1 = d1->asFloat(), f2 = d2->asFloat();
+            mifi_bad2nanf(f1.get(), f1.get() + d1->size(), fill);
+            mifi_bad2nanf(f2.get(), f2.get() + d2->size(), fill);
             auto out = make_shared_array<float>(d1->size());
-            mifi_get_values_linear_weak_extrapol_f(d1->asFloat().get(), d2->asFloat().get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
-            data = createData(d1->size(), out);
+            mifi_get_values_linear_weak_extrapol_f(f1.get(), f2.get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
+            data = createData(d1->size(), out)->convertDataType(MIFI_UNDEFINED_F, 1., 0., variable.getDataType(), fill, 1., 0.);
         } else {
             throw CDMException("getDataSlice for " + varName + ": got slices with different size");
         }
@@ -172,7 +176,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
                     pos--;
                 }
                 t2 = pos;
-                if (pos != 0) {
+                if (oldTimes[pos] == *it) {
+                    t1 = pos; // no interpolation needed
+                } else if (pos != 0) {
                     t1 = pos-1;
                 } else { // extrapolation at beginning
                     t1 = pos;
-- 
2.43.0


From fc0febebb2f82528a03823f8758977cf11d94a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:30 +0000
Subject: [PATCH 084/188] fix: crash or scaled values reading variables without
 x and y from border smoothing

---
 src/CDMBorderSmoothing.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 9e74853..c61d44e 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -104,6 +104,10 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
     if (cdm_->hasDimension(varName) or not cdmO.hasVariable(varName))
         return p->readerI->getDataSlice(varName, unLimDimPos); // not scaled
 
+    const vector<string>& shape = cdm_->getVariable(varName).getShape();
+    if (std::find(shape.begin(), shape.end(), p->nameX) == shape.end() or std::find(shape.begin(), shape.end(), p->nameY) == shape.end())
+        return p->readerI->getDataSlice(varName, unLimDimPos); // no border, not scaled
+
     const std::string unitsI = p->readerI->getCDM().getUnits(varName);
     const std::string unitsO = p->interpolatedO->getCDM().getUnits(varName);
 
@@ -121,7 +125,6 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
         sliceO = p->interpolatedO->getScaledDataSliceInUnit(varName, unitsI, unLimDimPos);
     }
 
-    const vector<string> &shape = cdm_->getVariable(varName).getShape();
     vector<size_t> dimSizes;
     int shapeIdxX = -1, shapeIdxY = -1;
     for(size_t i=0; i<shape.size(); ++i) {
@@ -135,9 +138,6 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
             dimSizes.push_back(dim.getLength());
     }
     
-    if (dimSizes.empty())
-        return sliceI;
-
     Smoothing_p smoothing = (*p->smoothingFactory)(varName);
     smoothing->setHorizontalSizes(dimSizes[shapeIdxX], dimSizes[shapeIdxY]);
 
-- 
2.43.0


From 74c84d5e0deed9b27d00ca48906bbbfa6b518466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:30 +0000
Subject: [PATCH 085/188] fix: crash merging records missing in one of the
 readers

---
 src/CDMBorderSmoothing.cc | 10 ++++++++++
 src/CDMOverlay.cc         | 19 ++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index c61d44e..2b71b1a 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -138,6 +138,16 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
             dimSizes.push_back(dim.getLength());
     }
     
+    if (sliceI->size() == 0 and sliceO->size() == 0)
+        return createData(cdm_->getVariable(varName).getDataType(), 0);
+    // all values of a missing record are undefined
+    if (sliceI->size() == 0)
+        sliceI = createData(CDM_DOUBLE, sliceO->size(), MIFI_UNDEFINED_D);
+    if (sliceO->size() == 0)
+        sliceO = createData(CDM_DOUBLE, sliceI->size(), MIFI_UNDEFINED_D);
+    if (sliceI->size() != sliceO->size())
+        THROW("sizes of inner and outer data differ for variable '" << varName << "'");
+
     Smoothing_p smoothing = (*p->smoothingFactory)(varName);
     smoothing->setHorizontalSizes(dimSizes[shapeIdxX], dimSizes[shapeIdxY]);
 
diff --git a/src/CDMOverlay.cc b/src/CDMOverlay.cc
index 74a9fb4..9ab9041 100644
--- a/src/CDMOverlay.cc
+++ b/src/CDMOverlay.cc
@@ -47,6 +47,7 @@ struct CDMOverlayPrivate {
     CDMReader_p readerB;
     CDMReader_p readerT;
     CDMInterpolator_p interpolatedB;
+    std::string nameX, nameY;
 
     CDM init(int gridInterpolationMethod, bool keepOuterVariables);
 };
@@ -86,6 +87,17 @@ DataPtr overlayDataSlices(T fillT, T fillB, DataPtr sliceT, DataPtr sliceB)
     }
     return createData(sliceB->size(), valuesB);
 }
+
+// all values of a missing record are undefined
+void checkSlices(DataPtr& sliceT, DataPtr& sliceB, double fillT, double fillB, const std::string& varName)
+{
+    if (sliceT->size() == 0)
+        sliceT = createData(sliceT->getDataType(), sliceB->size(), fillT);
+    if (sliceB->size() == 0)
+        sliceB = createData(sliceB->getDataType(), sliceT->size(), fillB);
+    if (sliceT->size() != sliceB->size())
+        THROW("sizes of top and base data differ for variable '" << varName << "'");
+}
 } // namespace
 
 DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
@@ -108,6 +120,10 @@ DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
     if (not cdmB.hasVariable(varName))
         THROW("variable '" << varName << "' unknown in base");
 
+    const vector<string>& shape = cdmT.getVariable(varName).getShape();
+    if (std::find(shape.begin(), shape.end(), p->nameX) == shape.end() || std::find(shape.begin(), shape.end(), p->nameY) == shape.end())
+        return p->readerT->getDataSlice(varName, unLimDimPos); // not on the grid, nothing to overlay
+
     const std::string unitsT = cdmT.getUnits(varName);
     const std::string unitsB = cdmB.getUnits(varName);
 
@@ -121,6 +137,7 @@ DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
     {
         DataPtr sliceT = p->readerT->getDataSlice(varName, unLimDimPos);
         DataPtr sliceB = p->interpolatedB->getDataSlice(varName, unLimDimPos);
+        checkSlices(sliceT, sliceB, cdmT.getFillValue(varName), cdmB.getFillValue(varName), varName);
         if (dtT == CDM_FLOAT) {
             LOG4FIMEX(logger, Logger::DEBUG, "overlay using float without scaling");
             return overlayDataSlices<float>(cdmT.getFillValue(varName), cdmB.getFillValue(varName), sliceT, sliceB);
@@ -145,6 +162,7 @@ DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
         sliceB = p->interpolatedB->getScaledDataSliceInUnit(varName, unitsT, unLimDimPos);
     }
 
+    checkSlices(sliceT, sliceB, MIFI_UNDEFINED_D, MIFI_UNDEFINED_D, varName);
     for (size_t i=0; i<sliceB->size(); ++i) {
       const double valueT = sliceT->getDouble(i);
       if (not mifi_isnan(valueT))
@@ -162,7 +180,6 @@ DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
 
 CDM CDMOverlayPrivate::init(int gridInterpolationMethod, bool keepOuterVariables)
 {
-    string nameX, nameY;
     return makeMergedCDM(readerT, readerB, gridInterpolationMethod, interpolatedB, nameX, nameY, keepOuterVariables);
 }
 
-- 
2.43.0


From 6b4203924aa8ee26ae1dea21452b471548b7f683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:30 +0000
Subject: [PATCH 086/188] fix: linear smoothing accepts negative widths

---
 src/CDMBorderSmoothing.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 2b71b1a..fe523e5 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -206,6 +206,8 @@ CDMBorderSmoothing::SmoothingFactory_p createSmoothingFactory(const std::string&
             try {
                 int transition = string2type<int>(what[1]);
                 int border = string2type<int>(what[2]);
+                if (transition <= 0 || border < 0)
+                    throw CDMException("invalid width for linear smoothing: '" + specification + "'");
                 return std::make_shared<CDMBorderSmoothing_LinearFactory>(transition, border);
             } catch (string2type_error& ex) {
                 throw CDMException("problem parsing parameters for linear smoothing: '" + specification + "', error is: " + ex.what());
-- 
2.43.0


From b0d36da8d01c81547baceabb87d5c5891d66e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:30 +0000
Subject: [PATCH 087/188] fix: merged grid wrong if axes of the inner grid are
 not in m, or have different units

---
 src/CDMMergeUtils.cc |  2 +-
 src/CDMMerger.cc     | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 7ba48dd..0e00983 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -267,7 +267,7 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
         const values_v valuesX = getAxisValues(readerI, csI->getGeoXAxis(), unitIX),
                 valuesY = getAxisValues(readerI, csI->getGeoYAxis(), unitIY);
         interpolatedO->changeProjection(gridInterpolationMethod, projI->getProj4String(),
-                valuesX, valuesY, unitIX, unitIX, CDM_DOUBLE, CDM_DOUBLE);
+                valuesX, valuesY, unitIX, unitIY, CDM_DOUBLE, CDM_DOUBLE);
 
         LOG4FIMEX(logger, Logger::INFO, "interpolating top grid");
         break;
diff --git a/src/CDMMerger.cc b/src/CDMMerger.cc
index e275d5c..8a96b91 100644
--- a/src/CDMMerger.cc
+++ b/src/CDMMerger.cc
@@ -72,7 +72,7 @@ struct CDMMergerPrivate {
     CDM makeCDM(const string& tproj, const values_v& tx, const values_v& ty,
             const std::string& tx_unit, const std::string& ty_unit,
             const CDMDataType& tx_type, const CDMDataType& ty_type);
-    values_v extendInnerAxis(CoordinateAxis_cp axisI, CoordinateAxis_cp axisO, const char* unit);
+    values_v extendInnerAxis(CoordinateAxis_cp axisI, CoordinateAxis_cp axisO, const std::string& unit);
 };
 
 // ========================================================================
@@ -196,13 +196,13 @@ void CDMMerger::setTargetGridFromInner()
 
         CoordinateAxis_cp xAxisI = csI->getGeoXAxis(), yAxisI = csI->getGeoYAxis();
 
-        const char* unit = projI->isDegree() ? "degree" : "m";
-        const values_v vx = p->extendInnerAxis(xAxisI, csO->getGeoXAxis(), unit);
-        const values_v vy = p->extendInnerAxis(yAxisI, csO->getGeoYAxis(), unit);
+        const string unitX = cdmI.getUnits(xAxisI->getName()), unitY = cdmI.getUnits(yAxisI->getName());
+        const values_v vx = p->extendInnerAxis(xAxisI, csO->getGeoXAxis(), unitX);
+        const values_v vy = p->extendInnerAxis(yAxisI, csO->getGeoYAxis(), unitY);
 
         LOG4FIMEX(logger, Logger::INFO, "extending grid for inner variable '" << varName << "'");
         setTargetGrid(projI->getProj4String(), vx, vy,
-                cdmI.getUnits(xAxisI->getName()), cdmI.getUnits(yAxisI->getName()),
+                unitX, unitY,
                 xAxisI->getDataType(), yAxisI->getDataType());
         return;
     }
@@ -241,7 +241,7 @@ CDM CDMMergerPrivate::makeCDM(const string& proj, const values_v& tx, const valu
 
 // ------------------------------------------------------------------------
 
-values_v CDMMergerPrivate::extendInnerAxis(CoordinateAxis_cp axisI, CoordinateAxis_cp axisO, const char* unit)
+values_v CDMMergerPrivate::extendInnerAxis(CoordinateAxis_cp axisI, CoordinateAxis_cp axisO, const std::string& unit)
 {
     const string &nameI = axisI->getName(), &nameO = axisO->getName();
 
-- 
2.43.0


From d5884fe6c60bfd89764a44e087f5ca0c9d6b3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:55 +0000
Subject: [PATCH 088/188] fix: data in memory is not merged

---
 src/CDMMergeUtils.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 0e00983..bffa559 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -291,6 +291,8 @@ CDM makeMergedCDM(CDMReader_p readerI, CDMReader_p& readerO, int gridInterpolati
             cdmI.removeVariable(varName);
         } else {
             LOG4FIMEX(logger, Logger::INFO, "variable '" << varName << "' kept");
+            if (varI.hasData() && varI.checkDimension(nameX) && varI.checkDimension(nameY))
+                cdmI.getVariable(varName).setData(DataPtr()); // data in memory is not merged
         }
     }
 
-- 
2.43.0


From 370b5629ca58e3e7bb51a58e504e3c596acdd3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:55 +0000
Subject: [PATCH 089/188] fix: changing projection to axes in other units than
 m uses wrong positions

---
 src/CDMInterpolator.cc | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index b1d2912..00890c6 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -40,6 +40,7 @@
 #include "fimex/SpatialAxisSpec.h"
 #include "fimex/StringUtils.h"
 #include "fimex/Type2String.h"
+#include "fimex/Units.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
 #include "fimex/coordSys/Projection.h"
@@ -119,6 +120,20 @@ bool unitIsDegree(const std::string& out_x_axis_unit, const std::string& out_y_a
     static const std::regex degree(".*degree.*");
     return std::regex_match(out_x_axis_unit, degree) || std::regex_match(out_y_axis_unit, degree);
 }
+
+// projections are calculated in m, unless told otherwise in the proj-string
+bool axisToMeter(const std::string& proj, std::vector<double>& values, std::string& unit)
+{
+    Units units;
+    if (unit == "m" || !units.areConvertible(unit, "m") || proj.find("units=") != std::string::npos || proj.find("to_meter=") != std::string::npos)
+        return false;
+    double slope, offset;
+    units.convert(unit, "m", slope, offset);
+    for (double& v : values)
+        v = slope * v + offset;
+    unit = "m";
+    return true;
+}
 } // namespace
 
 CDMInterpolator::CDMInterpolator(CDMReader_p dataReader)
@@ -429,6 +444,16 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
     if (out_x_axis_type == CDM_NAT || out_y_axis_type == CDM_NAT) {
         throw CDMException("axis type of interpolation not well defined");
     }
+
+    vector<double> x_axis_m(out_x_axis), y_axis_m(out_y_axis);
+    string x_unit_m(out_x_axis_unit), y_unit_m(out_y_axis_unit);
+    const bool xToMeter = axisToMeter(proj_input, x_axis_m, x_unit_m), yToMeter = axisToMeter(proj_input, y_axis_m, y_unit_m);
+    if (xToMeter || yToMeter) {
+        LOG4FIMEX(logger, Logger::INFO, "converting axes of new projection from '" << out_x_axis_unit << "', '" << out_y_axis_unit << "' to 'm'");
+        changeProjection(method, proj_input, x_axis_m, y_axis_m, x_unit_m, y_unit_m, out_x_axis_type, out_y_axis_type);
+        return;
+    }
+
     *cdm_ = p_->dataReader->getCDM(); // reset previous changes
     p_->projectionVariables.clear(); // reset variables
     switch (method) {
-- 
2.43.0


From 7ac6225dae61677ac6ea64552acf2ac23a2d169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:56 +0000
Subject: [PATCH 090/188] fix: automatic configuration of the quality extractor
 has no effect or crashes

---
 src/CDMQualityExtractor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 6e01c9b..1719deb 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -60,7 +60,7 @@ static vector<string> findCorrespondingVariables(const CDM& cdm, const string& s
         vector<string> parts = tokenize(standardName, " ");
         if (parts.size() >=2) {
             string foreignStandardName = parts[0];
-            vector<string> correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
+            correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
         } else {
             LOG4FIMEX(logger, Logger::WARN, "standard_name "+ standardName + "not suitabale for a status_flag in statusVariable "+ statusVarName);
         }
@@ -87,9 +87,9 @@ static vector<double> getValidValues(const CDM& cdm, const string& statusVarName
             if (autoConfString == "all") {
                 copy(&validData[0], &validData[validSize], back_inserter(validVals));
             } else if (autoConfString == "highest") {
-                validVals[0] = validData[validSize-1];
+                validVals.push_back(*max_element(&validData[0], &validData[validSize]));
             } else if (autoConfString == "lowest") {
-                validVals[0] = validData[0];
+                validVals.push_back(*min_element(&validData[0], &validData[validSize]));
             } else {
                 LOG4FIMEX(logger, Logger::WARN, "unable to interpret autoConfString: "+autoConfString);
             }
@@ -112,7 +112,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
         allowedString.insert("all");
         allowedString.insert("highest");
         allowedString.insert("lowest");
-        if (allowedString.find(autoConfString) == allowedString.end()) {
+        if (allowedString.find(autoConfString) == allowedString.end() && autoConfString.find("values=") != 0) {
             throw CDMException("auto-configure-string '"+ autoConfString +"' unknown");
         }
 
-- 
2.43.0


From 1401643c0a4eba2fa1488b9340e2df904b438c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:56 +0000
Subject: [PATCH 091/188] fix: endless loop in quality extractor with highest
 or lowest

---
 src/CDMQualityExtractor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 1719deb..cda7c43 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -216,7 +216,7 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
     double extreme = MIFI_UNDEFINED_D;
     double* pos = begin;
     // forward to first defined element
-    while ((pos != end) && (!std::isnan(*pos))) {
+    while ((pos != end) && std::isnan(*pos)) {
         ++pos;
     }
     if (pos == end) {
@@ -227,6 +227,7 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
             if (!std::isnan(*pos)) {
                 extreme = minmax(extreme, *pos);
             }
+            ++pos;
         }
     }
     return extreme;
-- 
2.43.0


From 910fbb37e075f38b7c9508d38f006398a6dae3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:56 +0000
Subject: [PATCH 092/188] fix: use in config-file of quality extractor does not
 overwrite automatic configuration

---
 src/CDMQualityExtractor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index cda7c43..e378674 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -203,6 +203,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
             if (!statusVarVals.empty()) {
                 variableValues[varName] = statusVarVals;
             } else if (!statusVarUse.empty()) {
+                variableValues.erase(varName); // from autoConfString
                 variableFlags[varName] = statusVarUse;
             } else {
                 throw CDMException("unable to quality-assure variable " + varName + ": no use or values given");
-- 
2.43.0


From 7dd8684ba96a3d0f7a51c11a85a2bd91cbef665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:05 +0000
Subject: [PATCH 093/188] fix: quality extractor changes data of its input, and
 ignores data in memory

---
 src/CDMQualityExtractor.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index e378674..509c72b 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -210,6 +210,10 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
             }
         }
     }
+    for (const auto& sv : statusVariable) {
+        if (cdm_->hasVariable(sv.first))
+            cdm_->getVariable(sv.first).setData(DataPtr()); // data in memory is not quality-assured
+    }
 }
 
 static double findDefinedExtreme(double* begin, double* end, const double& (*minmax)(const double& a, const double& b))
@@ -236,11 +240,10 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
 
 DataPtr CDMQualityExtractor::getDataSlice(const std::string& varName, size_t unLimDimPos)
 {
-    // no change in cdm-data in CDMQualityExtractor, so no need to check for in-memory data
-
     DataPtr data = dataReader->getDataSlice(varName, unLimDimPos);
     // test if variable has quality assignment
     if (statusVariable.find(varName) != statusVariable.end()) {
+        data = data->clone(); // the data changed below might be kept by dataReader
         const string& statusVar = statusVariable[varName];
         DataPtr statusData;
         const std::map<std::string, CDMReader_p>::iterator sit = statusReaders.find(varName);
@@ -278,6 +281,8 @@ DataPtr CDMQualityExtractor::getDataSlice(const std::string& varName, size_t unL
         }
         const double sizeRatio = double(sizeD)/sizeS;
         if (sizeRatio == int(sizeRatio) && sizeRatio >= 1) {
+            if (statusData->getDataType() == CDM_DOUBLE)
+                statusData = statusData->clone(); // the values of sd are changed
             auto sd = statusData->asDouble();
             vector<double> useVals;
             if (variableValues.find(varName) != variableValues.end()) {
-- 
2.43.0


From 1b13850aa158288235e63fa8bb49e0e81fb6f7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:56 +0000
Subject: [PATCH 094/188] fix: FillWriter stored data as they are packed in the
 input, also if the file uses another packing or unit

---
 src/FillWriter.cc | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 6b54abe..804ba73 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -27,14 +27,17 @@
 #include "fimex/FillWriter.h"
 
 #include "fimex/CDM.h"
+#include "fimex/CDMAttribute.h"
 #include "fimex/CDMException.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
 #include "fimex/SliceBuilder.h"
 #include "fimex/TokenizeDotted.h"
+#include "fimex/Units.h"
 #include "fimex/XMLUtils.h"
 
 #include <algorithm>
+#include <cmath>
 #include <map>
 #include <set>
 #include <utility>
@@ -109,6 +112,27 @@ std::string findFirstUnusableDimension(const std::set<std::string>& unusableDims
     }
     return std::string();
 }
+
+double getNumericAttribute(const CDM& cdm, const std::string& varName, const std::string& attName, double defaultValue)
+{
+    CDMAttribute attr;
+    return cdm.getAttribute(varName, attName, attr) ? attr.getData()->asDouble()[0] : defaultValue;
+}
+
+//! check if a stored number means the same in both files
+bool isSamePacking(const CDM& iCdm, const CDM& oCdm, const std::string& varName)
+{
+    return getNumericAttribute(iCdm, varName, "scale_factor", 1) == getNumericAttribute(oCdm, varName, "scale_factor", 1) &&
+           getNumericAttribute(iCdm, varName, "add_offset", 0) == getNumericAttribute(oCdm, varName, "add_offset", 0) &&
+           iCdm.getFillValue(varName) == oCdm.getFillValue(varName);
+}
+
+//! check if the numbers of the input need to be converted to the unit of the output
+bool isDifferentUnit(const CDM& iCdm, const CDM& oCdm, const std::string& varName)
+{
+    const std::string iUnits = iCdm.getUnits(varName), oUnits = oCdm.getUnits(varName);
+    return !iUnits.empty() && !oUnits.empty() && iUnits != oUnits && Units().areConvertible(iUnits, oUnits);
+}
 } // namespace
 
 FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configFileName)
@@ -134,13 +158,17 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
         }
         if (iCdm.hasVariable(iDim.getName()) && oCdm.hasVariable(oDimsIt->getName())) {
             // rewrite coordinate-variables
-            auto iDimData = in->getScaledData(iDim.getName())->asDouble();
+            const bool differentUnit = isDifferentUnit(iCdm, oCdm, iDim.getName());
+            auto iDimData = (differentUnit ? in->getScaledDataInUnit(iDim.getName(), oCdm.getUnits(iDim.getName())) : in->getScaledData(iDim.getName()))->asDouble();
             auto oDimData = io->getScaledData(iDim.getName())->asDouble();
             size_t changes = 0;
             size_t unLimCount = 0;
             map<size_t, size_t> currentSlices;
             for (size_t i = 0; i < iDim.getLength(); ++i) {
-                double* found = find(&oDimData[0], &oDimData[0] + oDimsIt->getLength(), iDimData[i]);
+                // the unit-conversion is not exact
+                const double eps = differentUnit ? 1e-10 * std::max(1., std::abs(iDimData[i])) : 0;
+                double* found = find_if(&oDimData[0], &oDimData[0] + oDimsIt->getLength(),
+                                        [&](double o) { return o == iDimData[i] || std::abs(o - iDimData[i]) < eps; });
                 size_t oPos = distance(&oDimData[0], found);
                 if (oPos == oDimsIt->getLength()) {
                     // not found, put at first position after output
@@ -272,8 +300,13 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
         LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with " << slices.size() << " slices");
         for (const auto& slice : slices) {
             LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with:  " << endl << slice.first << endl << slice.second);
-            DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
-            io->putDataSlice(iv.getName(), slice.second, inData);
+            if (isDifferentUnit(iCdm, oCdm, iv.getName())) {
+                io->putScaledDataSliceInUnit(iv.getName(), iCdm.getUnits(iv.getName()), slice.second, in->getScaledDataSlice(iv.getName(), slice.first));
+            } else if (!isSamePacking(iCdm, oCdm, iv.getName())) {
+                io->putScaledDataSlice(iv.getName(), slice.second, in->getScaledDataSlice(iv.getName(), slice.first));
+            } else {
+                io->putDataSlice(iv.getName(), slice.second, in->getDataSlice(iv.getName(), slice.first));
+            }
         }
     }
     if (!unusableIDims.empty())
-- 
2.43.0


From 0abdc79d2bd1000ed8946aa82e4dfae6aaca36e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:56 +0000
Subject: [PATCH 095/188] fix: FillWriter regarded variables with a different
 number of dimensions as having the same shape

---
 src/FillWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 804ba73..5f484bd 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -245,7 +245,7 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             oTestShape.erase(std::remove(oTestShape.begin(), oTestShape.end(), fit.outputDim), oTestShape.end());
         }
         // simple test of equal shapes (omitting translated dims)
-        if (!equal(iTestShape.begin(), iTestShape.end(), oTestShape.begin())) {
+        if (iTestShape != oTestShape) {
             LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
             continue;
         }
-- 
2.43.0


From 41d6687cf4abc2d3b05ff80c3048d78814fdf6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:51 +0000
Subject: [PATCH 096/188] fix: FillWriter ended the program on errors, since
 exceptions left the parallel loop

---
 src/FillWriter.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 5f484bd..a546141 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -38,6 +38,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <map>
 #include <set>
 #include <utility>
@@ -218,10 +219,12 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
     // process variables
     const auto iVars = iCdm.getVariables();
     const int varVecSize = iVars.size();
+    std::exception_ptr error; // first error while processing variables
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
     for (int iVar = 0; iVar < varVecSize; iVar++) {
+        try { // exceptions must not leave the parallel region
         const auto& iv = iVars.at(iVar);
         LOG4FIMEX(logger, Logger::DEBUG, "processing variable  '" << iv.getName() << "'");
         if (!oCdm.hasVariable(iv.getName())) {
@@ -308,7 +311,16 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
                 io->putDataSlice(iv.getName(), slice.second, in->getDataSlice(iv.getName(), slice.first));
             }
         }
+        } catch (...) {
+#ifdef _OPENMP
+#pragma omp critical(fillWriterError)
+#endif
+            if (!error)
+                error = std::current_exception();
+        }
     }
+    if (error)
+        std::rethrow_exception(error);
     if (!unusableIDims.empty())
         throw CDMException("FillWriter finished with errors in dimension-mapping");
 }
-- 
2.43.0


From 344d3cfc515852d7ad98232486ddb3c359031e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 097/188] fix: theta2T used the name of the variable after it
 was freed

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 2a36e85..e98fe0f 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -214,7 +214,7 @@ public:
 private:
     CDMReader_p reader_;
     CoordinateSystem_cp cs_;
-    const std::string& theta_;
+    std::string theta_;
 };
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
-- 
2.43.0


From b2b0c0d9ac30f26225cd3188c7861664da63a12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 098/188] fix: specific2relative ran over the end of the list
 if the first temperature is on other levels

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index e98fe0f..8c51a73 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -359,7 +359,7 @@ Converter_pv HumidityConverterFactory::createConverter(Environment& env, const O
         }
         vector<string>::const_iterator itTemp = tempV.begin();
         while (itTemp != tempV.end() && !cs->isCSAndCompleteFor(*itTemp))
-            ++itSpecific;
+            ++itTemp;
         if (itTemp == tempV.end()) {
             LOG4FIMEX(logger, Logger::WARN, "no coordinate system for '" << *itSpecific << "' and '" << *itTemp << "' found");
             continue;
-- 
2.43.0


From 28ba90ca17c38c83b3975c926cef6903e90cdafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 099/188] fix: specific2relative did not limit the humidity,
 and large values became negative

---
 src/CDMPressureConversions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 8c51a73..31a804f 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -323,9 +323,9 @@ DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
         // we have pressure in hPa and need Pa for
         // mifi_specific_to_relative_humidity, we must multiply our
         // pressure with 100; we get relhum in % but want unit "1", ie
-        // we have to divide by 100; as we know the formula, we drop
-        // multiplying and then dividing
-        const float c100 = 1;
+        // we have to divide by 100; this must not be simplified as the
+        // result is limited to 100%
+        const float c100 = 100;
         const float rh = mifi_specific_to_relative_humidity(shValues[i], airtValues[i], pressureValues[i]*c100) / c100;
         rhValues[i] = (short) (relative_humidity_scale_factor * rh + 0.5); // apply scale_factor
     }
-- 
2.43.0


From f69780fd124626bf2a722ae8c3b6ccb3262ab71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 100/188] fix: CDMPressureConversions mixed up the points if
 the pressure has not the dimensions of the variable, in the same order

---
 src/CDMPressureConversions.cc | 62 ++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 31a804f..80f1573 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -42,6 +42,7 @@
 
 #include "CDMMergeUtils.h"
 
+#include <algorithm>
 #include <memory>
 
 namespace MetNoFimex
@@ -199,6 +200,42 @@ std::string deriveVariableName(const ConverterFactory::Operation& oper, const st
 
 // ------------------------------------------------------------------------------------------------
 
+/**
+ * fetch the pressure for each value of a slice
+ * @param pressure converter to pressure, might have less dimensions or another order of dimensions
+ * @param sb slice of the data
+ * @return pressure (hPa), in the shape of sb
+ */
+VerticalDataArray pressureForSlice(CDMReader_p reader, VerticalConverter_p pressure, const SliceBuilder& sb)
+{
+    VarFloat p(reader, pressure, sb);
+    if (!p)
+        throw CDMException("no pressure data");
+    ArrayDims outDims = makeArrayDims(sb);
+    auto out = make_shared_array<VerticalData_t>(outDims.volume());
+
+    enum { OUT, P };
+    ArrayGroup group;
+    group.add(outDims).add(p.dims);
+    const size_t shared = group.sharedVolume();
+    Loop loop(group);
+    do {
+        std::copy_n(&p.values[loop[P]], shared, &out[loop[OUT]]);
+    } while (loop.next());
+    return out;
+}
+
+//! fetch the pressure (hPa) for each value of a variable, at one position of the unlimited dimension
+VerticalDataArray pressureForVariable(CDMReader_p reader, CoordinateSystem_cp cs, const std::string& varName, size_t unLimDimPos, size_t& size)
+{
+    SliceBuilder sb(reader->getCDM(), varName);
+    setUnLimDimPos(reader->getCDM(), sb, unLimDimPos);
+    size = makeArrayDims(sb).volume();
+    return pressureForSlice(reader, verticalConverter(cs, reader, MIFI_VINT_PRESSURE), sb);
+}
+
+// ------------------------------------------------------------------------------------------------
+
 class ThetaTemperatureConverter : public Converter {
 public:
     ThetaTemperatureConverter(const std::string& temperature, CDMReader_p reader, CoordinateSystem_cp cs, const std::string& theta)
@@ -219,9 +256,8 @@ private:
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
-    auto pressureValues = dataAs<VerticalData_t>(pressureData);
-    const size_t size = pressureData->size();
+    size_t size;
+    auto pressureValues = pressureForVariable(reader_, cs_, theta_, unLimDimPos, size);
 
     const float add_offset = reader_->getCDM().getAddOffset(theta_);
     auto thetaValues = checkData(reader_->getDataSlice(theta_, unLimDimPos), size, theta_)->asFloat();
@@ -312,9 +348,8 @@ private:
 
 DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
-    auto pressureValues = dataAs<VerticalData_t>(pressureData);
-    const size_t size = pressureData->size();
+    size_t size;
+    auto pressureValues = pressureForVariable(reader_, cs_, specific_, unLimDimPos, size);
 
     auto shValues = checkData(reader_->getScaledDataSliceInUnit(specific_, "1", unLimDimPos), size, specific_)->asFloat();
     auto airtValues = checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_)->asFloat();
@@ -422,9 +457,8 @@ private:
 
 DataPtr OmegaVerticalConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
-    auto pressureValues = dataAs<VerticalData_t>(pressureData); // unit: hPa
-    const size_t size = pressureData->size();
+    size_t size;
+    auto pressureValues = pressureForVariable(reader_, cs_, omega_, unLimDimPos, size); // unit: hPa
     VerticalDataArray airtempValues = dataAs<VerticalData_t>(checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_));
     VerticalDataArray omegaValues = dataAs<VerticalData_t>(checkData(reader_->getScaledDataSliceInUnit(omega_, "hPa/s", unLimDimPos), size, omega_));
 
@@ -508,13 +542,9 @@ private:
 
 DataPtr AddPressure4DConverter::getDataSlice(size_t unLimDimPos)
 {
-    const CDM& rcdm = reader_->getCDM();
-    DataPtr vcdata = verticalData4D(vc_, rcdm, unLimDimPos);
-    if (vc_->getShape() != shape4d_) {
-        LOG4FIMEX(logger, Logger::WARN, "4d pressure shape change not implemented, results are probably wrong");
-        // FIXME vcdata = reshape(rcdm, vc_->getShape(), shape4d_, vcdata);
-    }
-    return vcdata;
+    SliceBuilder sb = createSliceBuilder(reader_->getCDM(), shape4d_);
+    setUnLimDimPos(reader_->getCDM(), sb, unLimDimPos);
+    return createData(makeArrayDims(sb).volume(), pressureForSlice(reader_, vc_, sb));
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 5fad8004f283f2afe040f0a701146cad5fc6dda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:32 +0000
Subject: [PATCH 101/188] fix: add4Dpressure used a coordinate system which it
 had skipped

---
 src/CDMPressureConversions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 80f1573..0529fed 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -595,6 +595,7 @@ Converter_pv AddPressure4DConverterFactory::createConverter(Environment& env, co
                 continue;
         } catch (CDMException& ex) {
             LOG4FIMEX(logger, Logger::WARN, "exception when retrieving pressure converter for coordinate system, skipped: " << ex.what());
+            continue;
         }
 
         vector<string> pshape(4);
-- 
2.43.0


From 9bfdb9bdcb6413ae9434e0d2147322e42dd1b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:04 +0000
Subject: [PATCH 102/188] fix: theta2T ignored scale_factor, fill-value and
 unit of the potential temperature

---
 src/CDMPressureConversions.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 0529fed..acfac35 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -259,8 +259,7 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     size_t size;
     auto pressureValues = pressureForVariable(reader_, cs_, theta_, unLimDimPos, size);
 
-    const float add_offset = reader_->getCDM().getAddOffset(theta_);
-    auto thetaValues = checkData(reader_->getDataSlice(theta_, unLimDimPos), size, theta_)->asFloat();
+    auto thetaValues = checkData(reader_->getScaledDataSliceInUnit(theta_, "K", unLimDimPos), size, theta_)->asFloat();
 
     const float cp = 1004.; // J/kgK
     const float R = MIFI_GAS_CONSTANT / MIFI_MOLAR_MASS_DRY_AIR; // J/K
@@ -269,7 +268,7 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     const float Rcp = R/cp;
     for (size_t i = 0; i < size; i++) {
         // theta = T * (ps / p)^(R/cp) => T = theta * (p/ps)^(R/cp)
-        thetaValues[i] = ((thetaValues[i]+add_offset)*pow(pressureValues[i]*psX1, Rcp))-add_offset;
+        thetaValues[i] *= pow(pressureValues[i] * psX1, Rcp);
     }
     return createData(size, thetaValues);
 }
@@ -306,15 +305,17 @@ Converter_pv ThetaTemperatureConverterFactory::createConverter(Environment& env,
 
         const CDMVariable& vTheta = env.inputCDM.getVariable(*itTheta);
         const vector<string>& shape = vTheta.getShape();
-        const CDMDataType thetaType = vTheta.getDataType();
-        env.outputCDM->addVariable(CDMVariable(temperature, thetaType, shape));
+        env.outputCDM->addVariable(CDMVariable(temperature, CDM_FLOAT, shape));
 
         const vector<CDMAttribute> thetaAtts = env.inputCDM.getAttributes(*itTheta);
         for (vector<CDMAttribute>::const_iterator it = thetaAtts.begin(); it != thetaAtts.end(); ++it) {
-            if (it->getName() != STANDARD_NAME && it->getName() != LONG_NAME) {
+            const string& aname = it->getName();
+            if (aname != STANDARD_NAME && aname != LONG_NAME && aname != UNITS && aname != SCALE_FACTOR && aname != ADD_OFFSET && aname != FILL_VALUE &&
+                aname != VALID_MIN && aname != VALID_MAX && aname != VALID_RANGE) {
                 env.outputCDM->addAttribute(temperature, *it);
             }
         }
+        env.outputCDM->addAttribute(temperature, CDMAttribute(UNITS, "K"));
         env.outputCDM->addAttribute(temperature, CDMAttribute(STANDARD_NAME, AIR_TEMPERATURE));
         env.outputCDM->removeVariable(*itTheta); // why?
 
-- 
2.43.0


From 173ee1541b3739239a9c9e8baef9c4a3de2f7134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:04 +0000
Subject: [PATCH 103/188] fix: omega2vwind lost the coordinates and the
 projection

---
 src/CDMPressureConversions.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index acfac35..f2a9b51 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -78,6 +78,7 @@ typedef std::map<std::string, std::string> string_string_m;
 
 const string ADD_OFFSET = "add_offset";
 const string COORDINATES = "coordinates";
+const string GRID_MAPPING = "grid_mapping";
 const string LONG_NAME = "long_name";
 const string SCALE_FACTOR = "scale_factor";
 const string STANDARD_NAME = "standard_name";
@@ -512,9 +513,11 @@ Converter_pv OmegaVerticalConverterFactory::createConverter(Environment& env, co
     env.outputCDM->addVariable(CDMVariable(verticalWindName, CDM_FLOAT, shape));
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(STANDARD_NAME, UPWARD_AIR_VELOCITY));
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(UNITS, "m/s"));
-    CDMAttribute xatt;
-    if (env.inputCDM.getAttribute(verticalWindName, COORDINATES, xatt)) {
-        env.outputCDM->addAttribute(verticalWindName, xatt);
+    for (const auto& name : {COORDINATES, GRID_MAPPING}) {
+        CDMAttribute xatt;
+        if (env.inputCDM.getAttribute(omega, name, xatt)) {
+            env.outputCDM->addAttribute(verticalWindName, xatt);
+        }
     }
     env.outputCDM->removeVariable(omega); // why?
 
-- 
2.43.0


From 4fc1e5578cb983b5bef422c6f77a0bf793eea29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:29 +0000
Subject: [PATCH 104/188] fix: exceptions left the C interface when restricting
 a slice-builder

---
 src/c_fimex.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 701d55d..78782d3 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -353,7 +353,9 @@ int mifi_slicebuilder_ndims(mifi_slicebuilder* sb)
 static std::string do_mifi_slicebuilder_dimname(mifi_slicebuilder* sb, int pos)
 {
     if (sb != 0) {
-        return sb->sb_->getDimensionNames().at(pos);
+        const vector<string> names = sb->sb_->getDimensionNames();
+        if (pos >= 0 && static_cast<size_t>(pos) < names.size())
+            return names[pos];
     }
     return "";
 }
@@ -424,8 +426,13 @@ int mifi_slicebuilder_get_proj4_cpy(mifi_slicebuilder* sb, char* proj4, int n)
 int mifi_slicebuilder_set_dim_start_size(mifi_slicebuilder* sb, const char* dimName, unsigned int start, unsigned int size)
 {
     if (sb != 0) {
-        sb->sb_->setStartAndSize(dimName, start, size);
-        return 0;
+        try {
+            sb->sb_->setStartAndSize(dimName, start, size);
+            return 0;
+        } catch (exception& ex) {
+            LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_set_dim_start_size: " << ex.what());
+            return -2;
+        }
     }
     return -1;
 }
-- 
2.43.0


From d9acd203242ab391590b39f9ef81f3af860220e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:29 +0000
Subject: [PATCH 105/188] fix: mifi_get_var_longitude_cpy and
 mifi_get_var_latitude_cpy did not return -1 if there is none

---
 src/c_fimex.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 78782d3..186d142 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -292,7 +292,8 @@ char* mifi_get_var_longitude(mifi_cdm_reader* reader, const char* varName)
 
 int mifi_get_var_longitude_cpy(mifi_cdm_reader* reader, const char* varName, char* lonName, int n)
 {
-    return string_cpy(do_mifi_get_var_longitude(reader, varName), lonName, n);
+    const std::string lon = do_mifi_get_var_longitude(reader, varName);
+    return lon.empty() ? -1 : string_cpy(lon, lonName, n);
 }
 
 static std::string do_mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
@@ -312,7 +313,8 @@ char* mifi_get_var_latitude(mifi_cdm_reader* reader, const char* varName)
 
 int mifi_get_var_latitude_cpy(mifi_cdm_reader* reader, const char* varName, char* latName, int n)
 {
-    return string_cpy(do_mifi_get_var_latitude(reader, varName), latName, n);
+    const std::string lat = do_mifi_get_var_latitude(reader, varName);
+    return lat.empty() ? -1 : string_cpy(lat, latName, n);
 }
 
 mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* varName)
-- 
2.43.0


From fe5726c0c33ad752a202c15c35a461ccce7c7686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:29 +0000
Subject: [PATCH 106/188] fix: mifi_set_callback_double crashed for readers
 which are not a C_CDMReader

---
 src/c_fimex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 186d142..198d8fd 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -187,8 +187,8 @@ int mifi_set_callback_double(mifi_cdm_reader* c_reader, const char* varName, dou
 {
     try {
         CDMReader_p reader = c_reader->reader_;
-        C_CDMReader* cReaderPtr = dynamic_cast<C_CDMReader*>(reader.get());
-        cReaderPtr->setDoubleCallbackFunction(string(varName), callback);
+        C_CDMReader& cReader = dynamic_cast<C_CDMReader&>(*reader);
+        cReader.setDoubleCallbackFunction(string(varName), callback);
         return 0;
     } catch (std::bad_cast& bc) {
         LOG4FIMEX(logger, Logger::WARN, "mifi_set_callback_double called with a different CDMReader, not C_CDMReader: " + string(bc.what()));
-- 
2.43.0


From 8253689fc8e6217999acd9f7e0b736ae325b6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:29 +0000
Subject: [PATCH 107/188] fix: mifi_new_slicebuilder used the dimensions of
 another variable in the same coordinate-system

---
 include/fimex/CoordinateSystemSliceBuilder.h | 7 +++++++
 src/CoordinateSystemSliceBuilder.cc          | 7 ++++++-
 src/c_fimex.cc                               | 2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/fimex/CoordinateSystemSliceBuilder.h b/include/fimex/CoordinateSystemSliceBuilder.h
index 4602377..ec4d825 100644
--- a/include/fimex/CoordinateSystemSliceBuilder.h
+++ b/include/fimex/CoordinateSystemSliceBuilder.h
@@ -44,7 +44,14 @@ namespace MetNoFimex
 class CoordinateSystemSliceBuilder: public MetNoFimex::SliceBuilder
 {
 public:
+    /**
+     * Slices for the first variable belonging to the coordinate-system.
+     */
     CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs);
+    /**
+     * Slices for a specific variable belonging to the coordinate-system, i.e. with the dimensions in the order of this variable.
+     */
+    CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName);
     virtual ~CoordinateSystemSliceBuilder() {}
 
     /**
diff --git a/src/CoordinateSystemSliceBuilder.cc b/src/CoordinateSystemSliceBuilder.cc
index 7e9b8e5..0f174c5 100644
--- a/src/CoordinateSystemSliceBuilder.cc
+++ b/src/CoordinateSystemSliceBuilder.cc
@@ -52,7 +52,12 @@ const std::string& getCSVarFromCDM_(const CDM& cdm, CoordinateSystem_cp cs)
 }
 
 CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs)
-    : SliceBuilder(cdm, getCSVarFromCDM_(cdm, cs))
+    : CoordinateSystemSliceBuilder(cdm, cs, getCSVarFromCDM_(cdm, cs))
+{
+}
+
+CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName)
+    : SliceBuilder(cdm, varName)
     , cs_(cs)
 {
     setReferenceTimePos(0); // referenceTime is allways set
diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 198d8fd..db9ba61 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -322,7 +322,7 @@ mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* va
     try {
         CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(reader->csVec_, varName);
         if (cs.get()) {
-            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs));
+            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs, varName));
             return new mifi_slicebuilder(sb, cs);
         } else {
             std::shared_ptr<SliceBuilder> sb(new SliceBuilder(reader->reader_->getCDM(), varName));
-- 
2.43.0


From fe6958fd35d216c13e4d62d8ab489e01165c3e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:29 +0000
Subject: [PATCH 108/188] fix: mifi_write_scaled_double_dataslice did not
 accept data without unit

---
 src/c_fimex.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index db9ba61..28ff0e7 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -521,7 +521,12 @@ int mifi_write_scaled_double_dataslice(mifi_cdm_reader* rwreader, const char* va
     try {
         shared_array<double> dptr(data, null_deleter());
         DataPtr d = createData(size, dptr);
-        rw->putScaledDataSliceInUnit(varName, units, *(sb->sb_), d);
+        const string unitStr(units);
+        if (unitStr != "") {
+            rw->putScaledDataSliceInUnit(varName, unitStr, *(sb->sb_), d);
+        } else {
+            rw->putScaledDataSlice(varName, *(sb->sb_), d);
+        }
         return 0;
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_write_scaled_double_dataslice: " << ex.what());
-- 
2.43.0


From 939986e92604f69d5e0844c1133e56d26b35d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:46 +0000
Subject: [PATCH 109/188] fix: values from C-callbacks were compared to the
 fill-value of the packed data

---
 src/C_CDMReader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index 277a143..71f9de2 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -52,10 +52,12 @@ void C_CDMReader::setDoubleCallbackFunction(const std::string& varName, doubleDa
 {
     CDMVariable& var = cdm_->getVariable(varName);
     var.setDataType(CDM_DOUBLE);
-    // remove scale_factor and add_offset attributes
-    // data will be auto-scaled
+    // remove scale_factor, add_offset and fill-value attributes
+    // data will be auto-scaled, with undefined values as nan
     cdm_->removeAttribute(varName, "scale_factor");
     cdm_->removeAttribute(varName, "add_offset");
+    cdm_->removeAttribute(varName, "_FillValue");
+    cdm_->removeAttribute(varName, "missing_value");
     // set the datatype for later processing
     doubleCallbacks_[varName] = callback;
 }
-- 
2.43.0


From 117eb291a6e634812da4de18024d34861307f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:58 +0000
Subject: [PATCH 110/188] fix: C-callbacks were not called for variables with
 data in memory

---
 src/C_CDMReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index 71f9de2..a9c9f7c 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -58,6 +58,8 @@ void C_CDMReader::setDoubleCallbackFunction(const std::string& varName, doubleDa
     cdm_->removeAttribute(varName, "add_offset");
     cdm_->removeAttribute(varName, "_FillValue");
     cdm_->removeAttribute(varName, "missing_value");
+    // data in memory would be used instead of the callback
+    var.setData(DataPtr());
     // set the datatype for later processing
     doubleCallbacks_[varName] = callback;
 }
-- 
2.43.0


From 925dccecd2939d1b15f453f4442a5be9f896e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:18 +0000
Subject: [PATCH 111/188] fix: increments of lon/lat GRIB grids from first to
 last point count n-1 steps and pass 0/360 degrees

Rotated grids divided the extent by the number of points, and grids without
given increments across the date line or 0 degrees got a wrong increment.
---
 src/io/grib/GribFileIndex.cc | 62 ++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index b07fe04..a165e30 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -247,22 +247,25 @@ double lonLatResolutionForEdition(long edition)
     return edition == 1 ? 1e-3 : 1e-6;
 }
 
-GridDefinition getGridDefRegularLL(long edition, grib_handle_p gh)
+//! increments from first to last point, in scan direction
+void getLonLatIncrements(grib_handle_p gh, GridDefinition::Orientation orient, long sizeX, long sizeY, double startX, double startY, double& incrX,
+                         double& incrY)
 {
-    long sizeX, sizeY, ijDirectionIncrementGiven;
-    double startX, startY, incrX, incrY;
-    grib_get(gh, "Ni", sizeX);
-    grib_get(gh, "Nj", sizeY);
-    grib_get(gh, "longitudeOfFirstGridPointInDegrees", startX);
-    grib_get(gh, "latitudeOfFirstGridPointInDegrees", startY);
-
-    GridDefinition::Orientation orient = gribGetGridOrientation(gh);
+    long ijDirectionIncrementGiven;
     grib_get(gh, "ijDirectionIncrementGiven", ijDirectionIncrementGiven);
     double endX, endY;
     grib_get(gh, "longitudeOfLastGridPointInDegrees", endX);
     grib_get(gh, "latitudeOfLastGridPointInDegrees", endY);
-    incrX = (endX - startX) / (sizeX - 1);
-    incrY = (endY - startY) / (sizeY - 1);
+    double lengthX = endX - startX;
+    // longitudes going over 0/360 or +-180 degree
+    if (orient & GridDefinition::ScanStartRight) {
+        if (lengthX > 0)
+            lengthX -= 360;
+    } else if (lengthX < 0) {
+        lengthX += 360;
+    }
+    incrX = (sizeX > 1) ? lengthX / (sizeX - 1) : 0;
+    incrY = (sizeY > 1) ? (endY - startY) / (sizeY - 1) : 0;
     if (ijDirectionIncrementGiven != 0) {
         double incrX1, incrY1;
         grib_get(gh, "iDirectionIncrementInDegrees", incrX1);
@@ -275,12 +278,25 @@ GridDefinition getGridDefRegularLL(long edition, grib_handle_p gh)
         }
         // resolution of ijDirection is 0.001degree in grib1, calculation via first/last point is much more accurate
         if (fabs(incrX1 - incrX) > 0.001) {
-            incrX = incrX1; // strange behaviour, maybe going over 0/360 degree, better to use increment here
+            incrX = incrX1; // strange behaviour, better to use increment here
         }
         if (fabs(incrY1 - incrY) > 0.001) {
-            incrY = incrY1; // strange behaviour, maybe going over 0/360 degree, better to use increment here
+            incrY = incrY1; // strange behaviour, better to use increment here
         }
     }
+}
+
+GridDefinition getGridDefRegularLL(long edition, grib_handle_p gh)
+{
+    long sizeX, sizeY;
+    double startX, startY, incrX, incrY;
+    grib_get(gh, "Ni", sizeX);
+    grib_get(gh, "Nj", sizeY);
+    grib_get(gh, "longitudeOfFirstGridPointInDegrees", startX);
+    grib_get(gh, "latitudeOfFirstGridPointInDegrees", startY);
+
+    GridDefinition::Orientation orient = gribGetGridOrientation(gh);
+    getLonLatIncrements(gh, orient, sizeX, sizeY, startX, startY, incrX, incrY);
 
     string proj = "+proj=longlat " + getEarthsFigure(edition, gh) + " +no_defs";
 
@@ -290,7 +306,7 @@ GridDefinition getGridDefRegularLL(long edition, grib_handle_p gh)
 
 GridDefinition getGridDefRotatedLL(long edition, grib_handle_p gh)
 {
-    long sizeX, sizeY, ijDirectionIncrementGiven;
+    long sizeX, sizeY;
     double startX, startY, incrX, incrY, latRot, lonRot;
     grib_get(gh, "Ni", sizeX);
     grib_get(gh, "Nj", sizeY);
@@ -300,23 +316,7 @@ GridDefinition getGridDefRotatedLL(long edition, grib_handle_p gh)
     grib_get(gh, "latitudeOfSouthernPoleInDegrees", latRot);
 
     GridDefinition::Orientation orient = gribGetGridOrientation(gh);
-    grib_get(gh, "ijDirectionIncrementGiven", ijDirectionIncrementGiven);
-    if (ijDirectionIncrementGiven == 0) {
-        double endX, endY;
-        grib_get(gh, "longitudeOfLastGridPointInDegrees", endX);
-        grib_get(gh, "latitudeOfLastGridPointInDegrees", endY);
-        incrX = (endX - startX) / sizeX;
-        incrY = (endY - startY) / sizeY;
-    } else {
-        grib_get(gh, "iDirectionIncrementInDegrees", incrX);
-        grib_get(gh, "jDirectionIncrementInDegrees", incrY);
-        if (orient & GridDefinition::ScanStartRight) {
-            incrX *= -1;
-        }
-        if (!(orient & GridDefinition::ScanStartBottom)) {
-            incrY *= -1;
-        }
-    }
+    getLonLatIncrements(gh, orient, sizeX, sizeY, startX, startY, incrX, incrY);
 
     ostringstream oss;
     oss << "+proj=ob_tran +o_proj=longlat +lon_0=" << normalizeLongitude180(lonRot) << " +o_lat_p=" << (-1 * latRot);
-- 
2.43.0


From df6044c22fcd747d2b6487898aee632ab1691121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:18 +0000
Subject: [PATCH 112/188] fix: follow the scan direction of projected GRIB
 grids

The axes of lambert, mercator and polar stereographic grids were built with positive
increments even if the message scans in negative direction.
---
 src/io/grib/GribFileIndex.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index a165e30..4aac69e 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -353,6 +353,13 @@ GribMetricDef getGridDefMetric(long /*edition*/, grib_handle_p gh)
         grib_get(gh, "DjInMetres", gmd.incrY);
     }
 
+    const GridDefinition::Orientation orient = gribGetGridOrientation(gh);
+    if (orient & GridDefinition::ScanStartRight) {
+        gmd.incrX *= -1;
+    }
+    if (!(orient & GridDefinition::ScanStartBottom)) {
+        gmd.incrY *= -1;
+    }
     return gmd;
 }
 
-- 
2.43.0


From 405b67b323ff0189f18f061063e9b4f1b679fa04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:18 +0000
Subject: [PATCH 113/188] fix: valid time of GRIB messages with steps in days,
 months or years

The offset was computed but not assigned, so an uninitialised offset was added.
---
 src/io/grib/GribFileIndex.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 4aac69e..58b895d 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -951,7 +951,8 @@ FimexTime GribFileMessage::getValidTime() const
         return reference;
 
     // add step offset
-    std::chrono::seconds timeOffset;
+    std::chrono::seconds timeOffset(0);
+    long months = 0;
     switch (stepUnits_) {
     case 13: timeOffset = std::chrono::seconds(stepEnd_); break;
     case 0:  timeOffset = std::chrono::minutes(stepEnd_); break;
@@ -959,18 +960,25 @@ FimexTime GribFileMessage::getValidTime() const
     case 10: timeOffset = std::chrono::hours(3 * stepEnd_); break;
     case 11: timeOffset = std::chrono::hours(6 * stepEnd_); break;
     case 12: timeOffset = std::chrono::hours(12  *stepEnd_); break;
-    case 2:  date::days(1 * stepEnd_); break;
-    case 3:  date::months(1 * stepEnd_); break;
-    case 4:  date::years(1 * stepEnd_); break;
-    case 5:  date::years(10 * stepEnd_); break;
-    case 6:  date::years(30 * stepEnd_); break;
-    case 7:  date::years(100 * stepEnd_); break;
+    case 2:  timeOffset = date::days(stepEnd_); break;
+    case 3:  months = stepEnd_; break;
+    case 4:  months = 12 * stepEnd_; break;
+    case 5:  months = 10 * 12 * stepEnd_; break;
+    case 6:  months = 30 * 12 * stepEnd_; break;
+    case 7:  months = 100 * 12 * stepEnd_; break;
     default: {
         std::ostringstream msg;
         msg << "unknown stepUnits value " << stepUnits_;
         throw CDMException(msg.str());
     }
     }
+    if (months != 0) {
+        const long m = 12L * reference.getYear() + (reference.getMonth() - 1) + months;
+        auto ymd = date::year(m / 12) / date::month(1 + m % 12) / date::day(reference.getMDay());
+        if (!ymd.ok())
+            ymd = ymd.year() / ymd.month() / date::last;
+        return FimexTime(int(ymd.year()), unsigned(ymd.month()), unsigned(ymd.day()), reference.getHour(), reference.getMinute(), reference.getSecond());
+    }
     return fromTimePoint(asTimePoint(reference) + timeOffset);
 }
 
-- 
2.43.0


From d7dcae2af18ed47a95ce82e6c87a277a17c21643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:18 +0000
Subject: [PATCH 114/188] fix: axes of the oblate earth in GRIB2

The scale factor is a decimal exponent to divide by, and values in km were not converted.
---
 src/io/grib/GribFileIndex.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 58b895d..d86c776 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -156,28 +156,28 @@ std::string getEarthsOblateFigure(grib_handle_p gh, long factorToM)
     grib_get(gh, "scaleFactorOfMajorAxisOfOblateSpheroidEarth", majorFactor);
     grib_get(gh, "scaledValueOfMajorAxisOfOblateSpheroidEarth", majorValue);
     while (majorFactor > 0) {
-        majorValue *= 10;
+        majorValue /= 10;
         majorFactor--;
     }
     while (majorFactor < 0) {
-        majorValue /= 10;
+        majorValue *= 10;
         majorFactor++;
     }
     // transfer km to m
-    majorFactor *= factorToM;
+    majorValue *= factorToM;
 
     grib_get(gh, "scaleFactorOfMinorAxisOfOblateSpheroidEarth", minorFactor);
     grib_get(gh, "scaledValueOfMinorAxisOfOblateSpheroidEarth", minorValue);
     while (minorFactor > 0) {
-        minorValue *= 10;
+        minorValue /= 10;
         minorFactor--;
     }
     while (minorFactor < 0) {
-        minorValue /= 10;
+        minorValue *= 10;
         minorFactor++;
     }
     // transfer (km|m) to m
-    minorFactor *= factorToM;
+    minorValue *= factorToM;
 
     return "+a=" + type2string(majorValue) + " +b=" + type2string(minorValue);
 }
-- 
2.43.0


From b22e7fd57341d3051f3fdb35f6b122d360837c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 115/188] fix: keep the precision of the projection parameters
 in GRIB

They were rounded to 6 digits, GRIB2 gives micro-degrees.
---
 src/io/grib/GribFileIndex.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index d86c776..f9c10f0 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -319,7 +319,7 @@ GridDefinition getGridDefRotatedLL(long edition, grib_handle_p gh)
     getLonLatIncrements(gh, orient, sizeX, sizeY, startX, startY, incrX, incrY);
 
     ostringstream oss;
-    oss << "+proj=ob_tran +o_proj=longlat +lon_0=" << normalizeLongitude180(lonRot) << " +o_lat_p=" << (-1 * latRot);
+    oss << "+proj=ob_tran +o_proj=longlat +lon_0=" << type2string(normalizeLongitude180(lonRot)) << " +o_lat_p=" << type2string(-1 * latRot);
     oss << " " << getEarthsFigure(edition, gh) << " +no_defs";
     string proj = oss.str();
 
@@ -373,7 +373,7 @@ GridDefinition getGridDefMercator(long edition, grib_handle_p gh)
     grib_get(gh, "orientationOfTheGridInDegrees", orientationOfGrid);
 
     ostringstream oss;
-    oss << "+proj=merc +lon_0=" << normalizeLongitude180(orientationOfGrid) << " +lat_ts=" << lat_ts << " ";
+    oss << "+proj=merc +lon_0=" << type2string(normalizeLongitude180(orientationOfGrid)) << " +lat_ts=" << type2string(lat_ts) << " ";
     oss << getEarthsFigure(edition, gh) << " +no_defs";
     string proj = oss.str();
 
@@ -399,8 +399,8 @@ GridDefinition getGridDefLambert(long edition, grib_handle_p gh)
     grib_get(gh, "Latin2InDegrees", lat2);
 
     ostringstream oss;
-    oss << "+proj=lcc +lat_0=" << lat1 << " +lon_0=" << normalizeLongitude180(lonV) << " +lat_1=" << lat1 << " "
-        << " +lat_2=" << lat2 << " ";
+    oss << "+proj=lcc +lat_0=" << type2string(lat1) << " +lon_0=" << type2string(normalizeLongitude180(lonV)) << " +lat_1=" << type2string(lat1) << " "
+        << " +lat_2=" << type2string(lat2) << " ";
     oss << getEarthsFigure(edition, gh) << " +no_defs";
     string proj = oss.str();
 
@@ -436,7 +436,7 @@ GridDefinition getGridDefPolarStereographic(long edition, grib_handle_p gh)
         lat0 = -90.; // southpole
     }
     ostringstream oss;
-    oss << "+proj=stere +lat_0=" << lat0 << " +lon_0=" << normalizeLongitude180(orientationOfGrid) << " +lat_ts=" << lat_ts << " ";
+    oss << "+proj=stere +lat_0=" << lat0 << " +lon_0=" << type2string(normalizeLongitude180(orientationOfGrid)) << " +lat_ts=" << type2string(lat_ts) << " ";
     oss << getEarthsFigure(edition, gh) << " +no_defs";
     string proj = oss.str();
 
-- 
2.43.0


From aeba6913c3888e94e1ce8fd0168cfa2f656b55fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 116/188] fix: read GRIB messages stored by column or with
 alternating direction of rows

The flags were decoded but the values taken as if stored row by row in one direction.
---
 src/io/grib/GribFileIndex.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index f9c10f0..82f7673 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -486,6 +486,32 @@ size_t readGribMessageSize(ChunkReader_p cr, size_t offset)
     return grib_msg_size;
 }
 
+//! order values by row, i.e. x (in scan direction) varies fastest
+void orderByRow(grib_handle_p gh, double* data, size_t data_size)
+{
+    const GridDefinition::Orientation orient = gribGetGridOrientation(gh);
+    const bool vertical = orient & GridDefinition::ScanIsVertical, alternating = orient & GridDefinition::ScanIsAlternating;
+    if (!vertical && !alternating)
+        return;
+
+    long ni, nj;
+    grib_get(gh, "Ni", ni);
+    grib_get(gh, "Nj", nj);
+    if (ni <= 0 || nj <= 0 || size_t(ni) * size_t(nj) != data_size)
+        throw CDMException("number of values does not match the grid of the grib message");
+
+    const std::vector<double> in(data, data + data_size);
+    for (long j = 0; j < nj; ++j) {
+        for (long i = 0; i < ni; ++i) {
+            const long line = vertical ? i : j, line_size = vertical ? nj : ni;
+            long pos = vertical ? j : i;
+            if (alternating && (line % 2) == 1)
+                pos = line_size - 1 - pos;
+            data[j * ni + i] = in[line * line_size + pos];
+        }
+    }
+}
+
 } // namespace
 
 size_t readGribData(ChunkReader_p cr, size_t msg_pos, size_t msg_size, double* data, size_t data_size, double missingValue)
@@ -507,6 +533,7 @@ size_t readGribData(ChunkReader_p cr, size_t msg_pos, size_t msg_size, double* d
     LOG4FIMEX(logger, Logger::DEBUG, "retrieve values");
 #endif
     MIFI_GRIB_CHECK(grib_get_double_array(gh.get(), "values", &data[0], &data_size), 0);
+    orderByRow(gh, data, data_size);
 
     return data_size;
 }
-- 
2.43.0


From 2b7a3ce8e7885f7fd2209075b4c8106df6fbd144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 117/188] fix: report GRIB files with damaged or incomplete
 messages

The size of the message was used unchecked: an unknown edition gave an uninitialised
size, a size of 0 an endless loop.
---
 src/io/grib/GribFileIndex.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 82f7673..235cb3d 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -44,6 +44,7 @@
 #include <date/date.h>
 
 #include <algorithm>
+#include <cstring>
 
 #include <libxml/xmlreader.h>
 #include <libxml/xmlwriter.h>
@@ -470,6 +471,9 @@ size_t readGribMessageSize(ChunkReader_p cr, size_t offset)
 {
     unsigned char buffer[16];
     cr->read(offset, sizeof(buffer), buffer);
+    if (memcmp(buffer, "GRIB", 4) != 0) {
+        throw CDMException("no grib message at byte " + type2string(offset));
+    }
     const char grib_version = buffer[7];
     size_t s0, sn;
     if (grib_version == 1) {
@@ -478,11 +482,16 @@ size_t readGribMessageSize(ChunkReader_p cr, size_t offset)
     } else if (grib_version == 2) {
         s0 = 8;
         sn = 8;
+    } else {
+        throw CDMException("no grib message of edition 1 or 2 at byte " + type2string(offset));
     }
     size_t grib_msg_size = 0;
     for (size_t i = 0; i < sn; ++i) {
         grib_msg_size = (grib_msg_size << 8) | size_t(buffer[s0 + i]);
     }
+    if (grib_msg_size < sizeof(buffer) || offset > cr->size() || grib_msg_size > cr->size() - offset) {
+        throw CDMException("incomplete grib message at byte " + type2string(offset));
+    }
     return grib_msg_size;
 }
 
-- 
2.43.0


From e0c7e8beef61e926abeb4bf50c39b98e1a1ab3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 118/188] fix: slices of GRIB data with some of the levels or
 ensemble members

The messages were placed in the slice as if it had all levels and members, writing
beyond its end.
---
 src/io/grib/GribCDMReader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribCDMReader.cc b/src/io/grib/GribCDMReader.cc
index 4fea314..a60a36a 100644
--- a/src/io/grib/GribCDMReader.cc
+++ b/src/io/grib/GribCDMReader.cc
@@ -246,8 +246,9 @@ DataPtr GribCDMReader::getDataSlice(const std::string& varName, const SliceBuild
                     continue;
                 }
 
-                const size_t idx_data =
-                    ((idx_t - dim_t_start) * dim_l_len * dim_e_len + (idx_l - dim_l_start) * dim_e_len + (idx_e - dim_e_start)) * xySliceSize;
+                const size_t idx_data = (((idx_t - dim_t_start) * (dim_l_end - dim_l_start) + (idx_l - dim_l_start)) * (dim_e_end - dim_e_start) +
+                                         (idx_e - dim_e_start)) *
+                                        xySliceSize;
                 double* data_out = &doubleArray[idx_data];
                 double* grib_out = xyslice ? full_data_array.get() : data_out;
                 size_t dataRead;
-- 
2.43.0


From 1c1b403b97568fc6c8dd01d8df80011dedc3211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 119/188] fix: set spatial vectors from the GRIB reader config

The test was inverted: vectors were not marked, and all others had an empty counterpart.
---
 src/io/grib/GribCDMIndexer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index 62d88e0..61ec194 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -946,7 +946,7 @@ void GribCDMIndexer::initAddVariables(std::shared_ptr<CDM> cdm, std::shared_ptr<
         }
 
         CDMVariable var(varName, vh.second.datatype, shape);
-        if (vh.second.vectorCounterpart.empty()) {
+        if (!vh.second.vectorCounterpart.empty()) {
             var.setAsSpatialVector(vh.second.vectorCounterpart, CDMVariable::vectorDirectionFromString(vh.second.vectorDirection));
         }
         cdm->addVariable(var);
-- 
2.43.0


From d41fd80e0b4071b935ab3382321e998627090bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 120/188] fix: read GRIB variables with constantTime

---
 src/io/grib/GribCDMIndexer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index 61ec194..f07c2ec 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -732,7 +732,7 @@ void GribCDMIndexer::initCreateVarMessages(std::shared_ptr<CDM> cdm, std::shared
         msgs = grib_index_v(size_msgs, invalid_msg);
         const auto& box_time_lev_ens = gm.second;
         for (const auto& items_time_lev_ens : box_time_lev_ens) {
-            const size_t idx_t = find_index(init_->times, items_time_lev_ens.first);
+            const size_t idx_t = init_->varHas.at(varName).has_time ? find_index(init_->times, items_time_lev_ens.first) : 0;
 
             const auto& box_lev_ens = items_time_lev_ens.second;
             for (const auto& items_lev_ens : box_lev_ens) {
-- 
2.43.0


From 3eff6b13e08b77ee489e3ceaa0812e49bd801c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 121/188] fix: allow the last level for extraLevel values of
 GRIB

---
 src/io/grib/GribCDMIndexer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index f07c2ec..feda7a8 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -383,7 +383,7 @@ std::vector<double> GribCDMIndexer::readValuesFromXPath_(std::shared_ptr<CDM> cd
             auto lv = levelData->asUInt();
             for (size_t i = 0; i < levelData->size(); i++) {
                 size_t pos = offset + lv[i];
-                if (pos < pv.size()) {
+                if (pos <= pv.size()) {
                     // using pos-1 due to fortran numbering in grib
                     double value = (pos == 0) ? pv.at(0) : pv[pos - 1];
                     retValues.push_back(value);
-- 
2.43.0


From 2ed7f973b3cb0ee919c7939e9d80a708f7ce8c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:19 +0000
Subject: [PATCH 122/188] fix: replace MIN_DATETIME and MAX_DATETIME in
 attributes of GRIB variables

The attributes in the config were updated after the variables had copied them.
---
 src/io/grib/GribCDMIndexer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index feda7a8..1fd3d64 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -241,8 +241,9 @@ void GribCDMIndexer::build(std::shared_ptr<CDM> cdm, std::shared_ptr<grib_indexe
 
 void GribCDMIndexer::initUpdateTemplatedAttributeValues()
 {
-    for (const auto& vc : init_->config->variable_configs) {
-        for (auto& att : vc->attributes) {
+    // variables have copied their attributes from the config when loading messages
+    for (auto& vh : init_->varHas) {
+        for (auto& att : vh.second.attributes) {
             if (att.getDataType() == CDM_STRING) {
                 const auto val_old = att.getStringValue();
                 const auto val_new = replaceTemplateAttribute(val_old, init_->templateReplacementAttributes);
-- 
2.43.0


From 3757ad0935d1daf1182ce544f55dae26550e4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:26 +0000
Subject: [PATCH 123/188] fix: south polar stereographic GRIB1 grids

---
 src/io/grib/GribFileIndex.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 235cb3d..90eeaf2 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -436,6 +436,7 @@ GridDefinition getGridDefPolarStereographic(long edition, grib_handle_p gh)
     } else {
         lat0 = -90.; // southpole
     }
+    lat_ts = std::copysign(lat_ts, lat0); // on the side of the pole, otherwise proj uses the other pole
     ostringstream oss;
     oss << "+proj=stere +lat_0=" << lat0 << " +lon_0=" << type2string(normalizeLongitude180(orientationOfGrid)) << " +lat_ts=" << type2string(lat_ts) << " ";
     oss << getEarthsFigure(edition, gh) << " +no_defs";
-- 
2.43.0


From 5ab0d45473654d0cb07af3a2b2e98543b1c77ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:47 +0000
Subject: [PATCH 124/188] fix: GRIB1 steps in seconds, quarters or halves of an
 hour

---
 src/io/grib/GribFileIndex.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 90eeaf2..cb239b1 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -632,6 +632,13 @@ GribFileMessage::GribFileMessage(grib_handle_p gh, const std::string& msgURL, lo
         // use indicatorOfUnitOfTimeRange: https://software.ecmwf.int/issues/browse/SUP-1264
         long iouotr = 255;
         grib_get(gh, GK_indicatorOfUnitOfTimeRange, iouotr);
+        if (edition_ == 1) {
+            // code table 4 of GRIB1 differs from the stepUnits of ecCodes
+            if (iouotr == 254)
+                iouotr = 13; // seconds
+            else if (iouotr == 13 || iouotr == 14)
+                iouotr = 0; // quarters or halves of an hour, as minutes
+        }
         if (iouotr != 255)
             grib_set(gh, GK_stepUnits, iouotr);
     }
-- 
2.43.0


From 3969f47b596643db2699dff458501afc6bebf224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:58 +0000
Subject: [PATCH 125/188] fix: read arrays of strings from a protobuf CDM

---
 src/ProtobufCDM.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProtobufCDM.cc b/src/ProtobufCDM.cc
index 55e295d..202bb27 100644
--- a/src/ProtobufCDM.cc
+++ b/src/ProtobufCDM.cc
@@ -164,7 +164,7 @@ DataPtr readData(const fimex_index::CDMData& fdata, const fimex_index::CDM& fcdm
         if (fdata.strings_size() > 0) {
             auto strings = make_shared_array<std::string>(fdata.strings_size());
             for (size_t fsi = 0; fsi < fdata.strings_size(); ++fsi) {
-                strings[fsi] = fcdm.strings(fsi);
+                strings[fsi] = fcdm.strings(fdata.strings(fsi));
             }
             return createData(fdata.strings_size(), strings);
         } else {
-- 
2.43.0


From e740d4c0f2a3c4897cd8c1b0f5e24589cc900bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:58 +0000
Subject: [PATCH 126/188] fix: keep spatial vectors in protobuf indexes

---
 src/ProtobufCDM.cc     |  7 +++++++
 src/protobuf/cdm.proto | 10 ++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/ProtobufCDM.cc b/src/ProtobufCDM.cc
index 202bb27..27f1817 100644
--- a/src/ProtobufCDM.cc
+++ b/src/ProtobufCDM.cc
@@ -77,6 +77,9 @@ void readCDM(MetNoFimex::CDM& cdm, const fimex_index::CDM& fcdm)
         if (DataPtr data = readData(fv.data(), fcdm)) {
             var.setData(data);
         }
+        if (fv.vector_direction() != fimex_index::SPATIAL_VECTOR_NONE) {
+            var.setAsSpatialVector(fcdm.strings(fv.vector_counterpart()), CDMVariable::SpatialVectorDirection(fv.vector_direction()));
+        }
         cdm.addVariable(var);
 #if 0
         std::cerr << "added cdm var '" << var.getName() << "' type=" << var.getDataType() << "\n   shape [";
@@ -207,6 +210,10 @@ void writeCDM(fimex_index::CDM* fcdm, const MetNoFimex::CDM& cdm)
         for (const auto& vs : v.getShape()) {
             fv->add_shape(cdm_strings.add(vs));
         }
+        if (v.isSpatialVector()) {
+            fv->set_vector_direction(fimex_index::SpatialVectorDirection(v.getSpatialVectorDirection()));
+            fv->set_vector_counterpart(cdm_strings.add(v.getSpatialVectorCounterpart()));
+        }
     }
 
     for (const auto& fs : cdm_strings.strings()) {
diff --git a/src/protobuf/cdm.proto b/src/protobuf/cdm.proto
index 2f99ae4..a266906 100644
--- a/src/protobuf/cdm.proto
+++ b/src/protobuf/cdm.proto
@@ -39,11 +39,21 @@ message CDMDimension {
   bool is_unlimited = 3;
 }
 
+enum SpatialVectorDirection {
+  SPATIAL_VECTOR_NONE = 0;
+  SPATIAL_VECTOR_X = 1;
+  SPATIAL_VECTOR_Y = 2;
+  SPATIAL_VECTOR_LON = 3;
+  SPATIAL_VECTOR_LAT = 4;
+}
+
 message CDMVariable {
   uint32 name = 1;
   CDMData data = 2;
   repeated uint32 shape = 3;
   repeated CDMAttribute attributes = 4;
+  SpatialVectorDirection vector_direction = 5;
+  uint32 vector_counterpart = 6; // ignored unless vector_direction is given
 }
 
 message CDM {
-- 
2.43.0


From c4440b13505dd6e12c41f8a4750a10a9a68f7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:35 +0000
Subject: [PATCH 127/188] fix: unit of the pressure levels of GRIB2 in the
 shipped configurations, ecCodes gives levels in hPa

---
 share/etc/cdmGribReaderConfig.xml         | 2 +-
 share/etc/cdmGribReaderConfigArome2_5.xml | 2 +-
 share/etc/cdmGribReaderConfigEC_MAD.xml   | 2 +-
 share/etc/cdmGribReaderConfigGlameps.xml  | 2 +-
 share/etc/cdmGribReaderConfigSMHI.xml     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/share/etc/cdmGribReaderConfig.xml b/share/etc/cdmGribReaderConfig.xml
index ec9f3c1..32dbc61 100644
--- a/share/etc/cdmGribReaderConfig.xml
+++ b/share/etc/cdmGribReaderConfig.xml
@@ -144,7 +144,7 @@
         <attribute name="units" value="hPa" type="string" />
     </grib1>
     <grib2>
-        <attribute name="units" value="Pa" type="string" />
+        <attribute name="units" value="hPa" type="string" />
     </grib2>
 </vertical_axis>
 <vertical_axis id="height_above_msl" name="height_above_msl" grib2_id="102" grib1_id="103" type="float">
diff --git a/share/etc/cdmGribReaderConfigArome2_5.xml b/share/etc/cdmGribReaderConfigArome2_5.xml
index 91f2553..af1b524 100644
--- a/share/etc/cdmGribReaderConfigArome2_5.xml
+++ b/share/etc/cdmGribReaderConfigArome2_5.xml
@@ -146,7 +146,7 @@
         <attribute name="units" value="hPa" type="string" />
     </grib1>
     <grib2>
-        <attribute name="units" value="Pa" type="string" />
+        <attribute name="units" value="hPa" type="string" />
     </grib2>
 </vertical_axis>
 <vertical_axis id="height_above_msl" name="height_above_msl" grib2_id="102" grib1_id="103" type="float">
diff --git a/share/etc/cdmGribReaderConfigEC_MAD.xml b/share/etc/cdmGribReaderConfigEC_MAD.xml
index cbbe6fd..9abd4c1 100644
--- a/share/etc/cdmGribReaderConfigEC_MAD.xml
+++ b/share/etc/cdmGribReaderConfigEC_MAD.xml
@@ -142,7 +142,7 @@
                 <attribute name="units" value="hPa" type="string"/>
             </grib1>
             <grib2>
-                <attribute name="units" value="Pa" type="string"/>
+                <attribute name="units" value="hPa" type="string"/>
             </grib2>
         </vertical_axis>
         <vertical_axis id="height_above_msl" name="height_above_msl" grib2_id="102" grib1_id="103" type="float">
diff --git a/share/etc/cdmGribReaderConfigGlameps.xml b/share/etc/cdmGribReaderConfigGlameps.xml
index 6b4a7dd..f2f918b 100644
--- a/share/etc/cdmGribReaderConfigGlameps.xml
+++ b/share/etc/cdmGribReaderConfigGlameps.xml
@@ -141,7 +141,7 @@
         <attribute name="units" value="hPa" type="string" />
     </grib1>
     <grib2>
-        <attribute name="units" value="Pa" type="string" />
+        <attribute name="units" value="hPa" type="string" />
     </grib2>
 </vertical_axis>
 <vertical_axis id="height_above_msl" name="height_above_msl" grib2_id="102" grib1_id="103" type="float">
diff --git a/share/etc/cdmGribReaderConfigSMHI.xml b/share/etc/cdmGribReaderConfigSMHI.xml
index 41b9723..f4a8243 100644
--- a/share/etc/cdmGribReaderConfigSMHI.xml
+++ b/share/etc/cdmGribReaderConfigSMHI.xml
@@ -130,7 +130,7 @@
         <attribute name="units" value="hPa" type="string" />
     </grib1>
     <grib2>
-        <attribute name="units" value="Pa" type="string" />
+        <attribute name="units" value="hPa" type="string" />
     </grib2>
 </vertical_axis>
 <vertical_axis id="height_above_msl" name="height_above_msl" grib2_id="102" grib1_id="103" type="float">
-- 
2.43.0


From 0d339a247d22c83ba8f1d9d75f3c577020533d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:02 +0000
Subject: [PATCH 128/188] fix: errors of ecCodes while writing GRIB do not end
 the program

---
 src/io/grib/GribApiCDMWriter_Impl1.cc        |  4 ++++
 src/io/grib/GribApiCDMWriter_Impl2.cc        |  4 ++++
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 10 ++++++++++
 src/io/grib/GribApiCDMWriter_ImplAbstract.h  |  7 +++++++
 4 files changed, 25 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index ccea04c..a180932 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -34,6 +34,10 @@
 
 #include <grib_api.h>
 
+// the macro of ecCodes ends the program
+#undef GRIB_CHECK
+#define GRIB_CHECK(error, msg) gribWriteCheck(error, msg)
+
 #include <cmath>
 
 namespace MetNoFimex {
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 8d1f079..82a2594 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -36,6 +36,10 @@
 
 #include <grib_api.h>
 
+// the macro of ecCodes ends the program
+#undef GRIB_CHECK
+#define GRIB_CHECK(error, msg) gribWriteCheck(error, msg)
+
 #include <cassert>
 #include <cmath>
 
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index cb14b7d..3abe588 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -41,6 +41,10 @@
 
 #include <grib_api.h>
 
+// the macro of ecCodes ends the program
+#undef GRIB_CHECK
+#define GRIB_CHECK(error, msg) gribWriteCheck(error, msg)
+
 #include <algorithm>
 #include <cassert>
 #include <cerrno>
@@ -52,6 +56,12 @@ namespace MetNoFimex {
 
 static Logger_p logger = getLogger("fimex.GribApi_CDMWriter");
 
+void gribWriteCheck(int error, const char* msg)
+{
+    if (error)
+        throw CDMException("cannot write grib: " + std::string(grib_get_error_message(error)) + (msg ? std::string("; ") + msg : ""));
+}
+
 /** helper classes Scale and UnScale to transform double vectors */
 class Scale
 {
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.h b/src/io/grib/GribApiCDMWriter_ImplAbstract.h
index 9496477..a80c9a6 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.h
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.h
@@ -38,6 +38,13 @@ struct grib_handle;
 
 namespace MetNoFimex {
 
+/**
+ * exception for errors while writing grib, used by GRIB_CHECK here
+ *
+ * @throw CDMException if error is not 0
+ */
+void gribWriteCheck(int error, const char* msg);
+
 class GribApiCDMWriter_ImplAbstract : public CDMWriter
 {
 public:
-- 
2.43.0


From 9fe1402d2873bd01504d3810969499d18f8342be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:02 +0000
Subject: [PATCH 129/188] fix: report errors of the file system while writing
 GRIB

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 5 +++++
 src/io/grib/GribApiCDMWriter_ImplAbstract.h  | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 3abe588..59380f4 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -93,6 +93,7 @@ GribApiCDMWriter_ImplAbstract::GribApiCDMWriter_ImplAbstract(int gribVersion, CD
     , gribVersion(gribVersion)
     , xmlConfig(config.getXMLDoc())
     , omitEmptyFields(true)
+    , writeFailed(false)
 {
     {
         std::string templXPath("/cdm_gribwriter_config/template_file");
@@ -340,6 +341,9 @@ void GribApiCDMWriter_ImplAbstract::run()
             }
         }
     }
+    gribFile.close();
+    if (writeFailed || !gribFile)
+        throw CDMException("error while writing grib-file");
     for (CDM::VarVec::const_iterator vi = vars.begin(); vi != vars.end(); ++vi) {
         if (usedVariables.find(vi->getName()) == usedVariables.end()) {
             LOG4FIMEX(logger, Logger::DEBUG, "variable not written to grib: " << vi->getName());
@@ -540,6 +544,7 @@ void GribApiCDMWriter_ImplAbstract::writeGribHandleToFile()
     /* get the coded message in a buffer */
     GRIB_CHECK(grib_get_message(gribHandle.get(), &buffer, &size), 0);
     gribFile.write(reinterpret_cast<const char*>(buffer), size);
+    writeFailed = writeFailed || !gribFile;
 }
 
 bool GribApiCDMWriter_ImplAbstract::hasNodePtr(const std::string& varName, std::string& usedXPath)
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.h b/src/io/grib/GribApiCDMWriter_ImplAbstract.h
index a80c9a6..e5bc1c4 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.h
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.h
@@ -130,6 +130,7 @@ protected:
 
 private:
     std::ofstream gribFile;
+    bool writeFailed;
 };
 
 } // namespace MetNoFimex
-- 
2.43.0


From 80facd24cbd91e8c0c279e57a8d33052218f3725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:43 +0000
Subject: [PATCH 130/188] fix: write GRIB steps that are no multiples of the
 first time step

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 27 +++++++++++++++-----
 src/io/grib/GribUtils.cc                     | 13 ++--------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 59380f4..f6008da 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -62,6 +62,23 @@ void gribWriteCheck(int error, const char* msg)
         throw CDMException("cannot write grib: " + std::string(grib_get_error_message(error)) + (msg ? std::string("; ") + msg : ""));
 }
 
+namespace {
+//! largest unit which can represent all steps, in seconds since the reference time
+std::string findStepUnit(const long long* steps, size_t n)
+{
+    unsigned long long divisor = 0;
+    for (size_t i = 0; i < n; ++i) {
+        unsigned long long s = steps[i] < 0 ? -steps[i] : steps[i];
+        while (s != 0) {
+            const unsigned long long r = divisor % s;
+            divisor = s;
+            s = r;
+        }
+    }
+    return divisor == 0 ? "h" : gribSeconds2stepUnits(divisor);
+}
+} // namespace
+
 /** helper classes Scale and UnScale to transform double vectors */
 class Scale
 {
@@ -248,9 +265,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                 TimeUnit tu(ss.str());
                 std::transform(&timesA[0], &timesA[0] + times->size(), std::back_inserter(vTimes),
                                std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
-                if (times->size() > 1) {
-                    stepUnit = gribSeconds2stepUnits(timesA[1] - timesA[0]);
-                }
+                stepUnit = refTimes.at(0).invalid() ? "h" : findStepUnit(&timesA[0], times->size());
                 /* select the first startTime and the size for the time-dimension */
                 sb.setTimeStartAndSize(0, 1); // default is all of ReferenceTimePos
             } else {
@@ -293,9 +308,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                     TimeUnit tu(ss.str());
                     transform(&timesA[0], &timesA[0] + times->size(), back_inserter(vTimes),
                               std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
-                    if (times->size() > 1) {
-                        stepUnit = gribSeconds2stepUnits(timesA[1] - timesA[0]);
-                    }
+                    stepUnit = findStepUnit(&timesA[0], times->size());
                 }
                 size_t vtPos = 0;
                 for (vector<FimexTime>::iterator vTime = vTimes.begin(); vTime != vTimes.end(); ++vTime, ++vtPos) {
@@ -401,7 +414,7 @@ void GribApiCDMWriter_ImplAbstract::setTime(const std::string& varName, const Fi
         const FimexTime& ft = rtime;
         date = ft.getYear() * 10000 + ft.getMonth() * 100 + ft.getMDay();
         time = ft.getHour() * 100 + ft.getMinute();
-        long steps = static_cast<long>(.5 + ((asTimePoint(vTime) - asTimePoint(rtime)).count() / gribStepUnits2seconds(stepUnits)));
+        long steps = static_cast<long>((asTimePoint(vTime) - asTimePoint(rtime)).count()) / static_cast<long>(gribStepUnits2seconds(stepUnits));
         startStep = steps;
         // TODO: step length should be determined by bounds
         endStep = steps;
diff --git a/src/io/grib/GribUtils.cc b/src/io/grib/GribUtils.cc
index c91ed97..e9793c9 100644
--- a/src/io/grib/GribUtils.cc
+++ b/src/io/grib/GribUtils.cc
@@ -111,17 +111,8 @@ std::string gribSeconds2stepUnits(unsigned long seconds)
         throw CDMException("cannot find grib-stepUnits when offset-seconds <= 0");
     }
     std::string stepUnits;
-    if ((seconds % (24UL * 60 * 60 * 365 * 100)) == 0) {
-        stepUnits = "C";
-    } else if ((seconds % (24 * 60 * 60 * 365 * 30)) == 0) {
-        stepUnits = "30Y";
-    } else if ((seconds % (24 * 60 * 60 * 365 * 10)) == 0) {
-        stepUnits = "10Y";
-    } else if ((seconds % (24 * 60 * 60 * 365)) == 0) {
-        stepUnits = "Y";
-    } else if ((seconds % (24 * 60 * 60 * 30)) == 0) {
-        stepUnits = "M";
-    } else if ((seconds % (24 * 60 * 60)) == 0) {
+    // units above day follow the calendar, they are no multiples of seconds
+    if ((seconds % (24 * 60 * 60)) == 0) {
         stepUnits = "D";
     } else if ((seconds % (12 * 60 * 60)) == 0) {
         stepUnits = "12h";
-- 
2.43.0


From 62238791103fc47b7507e8b4011e8b22764f1119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:43 +0000
Subject: [PATCH 131/188] fix: write GRIB with several reference times

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index f6008da..0d94bd3 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -240,7 +240,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                 if ((*varSysIt)->hasAxisType(CoordinateAxis::ReferenceTime)) {
                     CoordinateAxis_cp rtAxis = (*varSysIt)->findAxisOfType(CoordinateAxis::ReferenceTime);
                     DataPtr refTimesD = cdmReader->getScaledDataInUnit(rtAxis->getName(), "seconds since 1970-01-01 00:00:00");
-                    auto refs = refTimesD->asUInt64();
+                    auto refs = refTimesD->asInt64();
                     /* do something with the refTimes and select the wanted Position */
                     size_t refTimePos = 0; /* or whatever you select between 0 (default) and refTimes->size()-1 */
                     sb.setReferenceTimePos(refTimePos);
@@ -296,11 +296,13 @@ void GribApiCDMWriter_ImplAbstract::run()
 
             // loops over ref-times, times, variables and levels
             map<string, string> variableWarnings;
+            const size_t vTimesPerRefTime = vTimes.size();
             size_t rtPos = 0;
             for (const FimexTime& rTime : refTimes) {
                 if (refTimes.size() > 1) {
                     vTimes.clear(); // will be filled anew
                     sb.setReferenceTimePos(rtPos);
+                    sb.setTimeStartAndSize(0, vTimesPerRefTime);
                     stringstream ss;
                     ss << "seconds since " << make_time_string_extended(rTime);
                     DataPtr times = cdmReader->getScaledDataSliceInUnit(tAxis->getName(), ss.str(), sb.getTimeVariableSliceBuilder());
@@ -348,6 +350,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                         }
                     }
                 }
+                rtPos++;
             }
             for (map<string, string>::iterator w = variableWarnings.begin(); w != variableWarnings.end(); ++w) {
                 LOG4FIMEX(logger, Logger::WARN, "unable to write parameter " << w->first << ": " << w->second);
-- 
2.43.0


From 6da678ce6bec53f263f34b6c97f97447cb51bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:34 +0000
Subject: [PATCH 132/188] fix: settings of one GRIB parameter or grid do not
 remain in the following messages

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 0d94bd3..bede64a 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -77,6 +77,13 @@ std::string findStepUnit(const long long* steps, size_t n)
     }
     return divisor == 0 ? "h" : gribSeconds2stepUnits(divisor);
 }
+std::shared_ptr<grib_handle> cloneHandle(const std::shared_ptr<grib_handle>& handle)
+{
+    std::shared_ptr<grib_handle> clone(grib_handle_clone(handle.get()), grib_handle_delete);
+    if (!clone)
+        throw CDMException("unable to clone grib handle");
+    return clone;
+}
 } // namespace
 
 /** helper classes Scale and UnScale to transform double vectors */
@@ -190,6 +197,7 @@ void GribApiCDMWriter_ImplAbstract::run()
     //        LOG4FIMEX(logger, Logger::WARN, "unable to set packingType to " << pType );
     //    }
     setGlobalAttributes();
+    const std::shared_ptr<grib_handle> globalHandle = gribHandle;
 
     // get all coordinate systems from file, usually one, but may be a few (theoretical limit: # of variables)
     CoordinateSystem_cp_v coordSys = listCoordinateSystems(cdmReader);
@@ -214,6 +222,8 @@ void GribApiCDMWriter_ImplAbstract::run()
             if (csVars.empty())
                 continue;
             usedVariables.insert(csVars.begin(), csVars.end());
+            // start afresh, the settings of another projection or parameter must not remain
+            gribHandle = cloneHandle(globalHandle);
             try {
                 // TODO: this would be nicer with varSysIt->getProjection() instead of csVars[0]
                 setProjection(csVars.at(0));
@@ -294,6 +304,8 @@ void GribApiCDMWriter_ImplAbstract::run()
                 sb.setStartAndSize(*dim, 0, 1);
             }
 
+            const std::shared_ptr<grib_handle> gridHandle = gribHandle;
+
             // loops over ref-times, times, variables and levels
             map<string, string> variableWarnings;
             const size_t vTimesPerRefTime = vTimes.size();
@@ -318,13 +330,14 @@ void GribApiCDMWriter_ImplAbstract::run()
                         sb.setTimeStartAndSize(vtPos, 1);
                     }
                     for (vector<string>::iterator var = csVars.begin(); var != csVars.end(); ++var) {
-                        setTime(*var, rTime, *vTime, stepUnit);
                         for (size_t levelPos = 0; levelPos < levels.size(); ++levelPos) {
                             if (zAxis.get() != 0) {
                                 sb.setStartAndSize(zAxis, levelPos, 1);
                             }
                             double levelVal = levels.at(levelPos);
                             try {
+                                gribHandle = cloneHandle(gridHandle);
+                                setTime(*var, rTime, *vTime, stepUnit);
                                 // level and var are dependent due to splitting possibilities
                                 setLevel(*var, levelVal, levelPos);
                                 setParameter(*var, levelVal);
-- 
2.43.0


From cc082dde90b377a365ec9cdd6e834269e316f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:55 +0000
Subject: [PATCH 133/188] fix: polar stereographic grids in GRIB: southern
 ones, scan directions, true latitude, packed first point

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 52 +++++++++++++++++++--------
 src/io/grib/GribApiCDMWriter_Impl2.cc | 52 +++++++++++++++++++--------
 2 files changed, 75 insertions(+), 29 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index a180932..1fea035 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -79,6 +79,7 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             // straight_vertical_longitude_from_pole (polar_stereographic), longitude_of_projection_origin (stereographic)
             double latitudeWhereDxAndDyAreSpecifiedInDegrees = 60.;
             double orientationOfTheGridInDegrees = 0.;
+            bool southPole = false;
             if (projection == "polar_stereographic") {
                 LOG4FIMEX(logger, Logger::INFO, "polar_stereographic projection for" << varName);
                 // get lat_ts fixed
@@ -88,6 +89,12 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
                 if (ait != projAttrs.end()) {
                     orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
                 }
+                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("latitude_of_projection_origin"));
+                if (ait != projAttrs.end())
+                    southPole = ait->getData()->asDouble()[0] < 0;
+                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("standard_parallel"));
+                if (ait != projAttrs.end())
+                    latitudeWhereDxAndDyAreSpecifiedInDegrees = std::fabs(ait->getData()->asDouble()[0]);
             } else {
                 LOG4FIMEX(logger, Logger::INFO, "stereographic projection for" << varName);
                 // test stereographic is +- 90deg latitude (grib knows only polar-stereographic)
@@ -97,17 +104,7 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
                     if (std::fabs(lat) < 89.9995) {
                         throw CDMException("grib doesn't know general stereographic projection: found origin latitude " + type2string(lat));
                     }
-                }
-                // get lat_ts via scale_factor
-                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
-                if (ait != projAttrs.end()) {
-                    double scale = ait->getData()->asDouble()[0];
-                    double x = 2 * scale - 1;
-                    if (x <= 1 || x >= -1) {
-                        latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scale - 1));
-                    } else {
-                        throw CDMException("scale_factor_at_projection_origin not defined properly: abs(2*scale-1) >= 1: " + type2string(x));
-                    }
+                    southPole = lat < 0;
                 }
                 // get lon0
                 ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("longitude_of_projection_origin"));
@@ -115,6 +112,17 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
                     orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
                 }
             }
+            // get lat_ts via scale_factor
+            CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
+            if (ait != projAttrs.end()) {
+                double scale = ait->getData()->asDouble()[0];
+                double x = 2 * scale - 1;
+                if (x <= 1 && x >= -1) {
+                    latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scale - 1));
+                } else {
+                    throw CDMException("scale_factor_at_projection_origin not defined properly: abs(2*scale-1) >= 1: " + type2string(x));
+                }
+            }
             std::string polar_stereographic("polar_stereographic");
             size_t ps_size = polar_stereographic.size();
             GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", polar_stereographic.c_str(), &ps_size), "");
@@ -126,17 +134,31 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             // grib1 doesn't allow to set double values for this! // (grib2 not checked)
             auto xArray = xData->asDouble();
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", static_cast<long>(xArray[1] - xArray[0])), "");
             auto yArray = yData->asDouble();
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", static_cast<long>(yArray[1] - yArray[0])), "");
+            const double dx = xArray[1] - xArray[0], dy = yArray[1] - yArray[0];
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", std::lround(fabs(dx))), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", std::lround(fabs(dy))), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getData(latitude)->asDouble()[0]), "");
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", cdmReader->getData(longitude)->asDouble()[0]), "");
+                GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(latitude, "degree")->asDouble()[0]), "");
+                GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]), "");
             } else {
                 throw CDMException("unable to find latitude/longitude for variable " + varName);
             }
             GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
+            if (southPole)
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCentreFlag", 128), "");
+            if (dy < 0) {
+                // reading north -> south
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
+            } else {
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
+            }
+            if (dx < 0) {
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
+            } else {
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
+            }
             if (std::fabs(latitudeWhereDxAndDyAreSpecifiedInDegrees - 60.) > 1.e-5) {
                 LOG4FIMEX(logger, Logger::ERROR,
                           "grib1 does not support polar_stereographic with lat_ts != 60degree, got " << latitudeWhereDxAndDyAreSpecifiedInDegrees);
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 82a2594..97f08f2 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -101,7 +101,8 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             // straight_vertical_longitude_from_pole (polar_stereographic), longitude_of_projection_origin (stereographic)
             double latitudeWhereDxAndDyAreSpecifiedInDegrees = 90.;
             double orientationOfTheGridInDegrees = 0.;
-            if (projection == "polar_stereograhpic") {
+            bool southPole = false;
+            if (projection == "polar_stereographic") {
                 LOG4FIMEX(logger, Logger::INFO, "polar_stereographic projection for" << varName);
                 // get lat_ts fixed
                 latitudeWhereDxAndDyAreSpecifiedInDegrees = 90.;
@@ -110,6 +111,12 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
                 if (ait != projAttrs.end()) {
                     orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
                 }
+                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("latitude_of_projection_origin"));
+                if (ait != projAttrs.end())
+                    southPole = ait->getData()->asDouble()[0] < 0;
+                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("standard_parallel"));
+                if (ait != projAttrs.end())
+                    latitudeWhereDxAndDyAreSpecifiedInDegrees = std::fabs(ait->getData()->asDouble()[0]);
             } else {
                 LOG4FIMEX(logger, Logger::INFO, "stereographic projection for" << varName);
                 // test stereographic is +- 90deg latitude (grib knows only polar-stereographic)
@@ -119,17 +126,7 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
                     if (std::fabs(lat) < 89.9995) {
                         throw CDMException("grib doesn't know general stereographic projection: found origin latitude " + type2string(lat));
                     }
-                }
-                // get lat_ts via scale_factor
-                ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
-                if (ait != projAttrs.end()) {
-                    double scale = ait->getData()->asDouble()[0];
-                    double x = 2 * scale - 1;
-                    if (x <= 1 || x >= -1) {
-                        latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scale - 1));
-                    } else {
-                        throw CDMException("scale_factor_at_projection_origin not defined properly: abs(2*scale-1) >= 1: " + type2string(x));
-                    }
+                    southPole = lat < 0;
                 }
                 // get lon0
                 ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("longitude_of_projection_origin"));
@@ -137,6 +134,17 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
                     orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
                 }
             }
+            // get lat_ts via scale_factor
+            CDM::AttrVec::iterator ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
+            if (ait != projAttrs.end()) {
+                double scale = ait->getData()->asDouble()[0];
+                double x = 2 * scale - 1;
+                if (x <= 1 && x >= -1) {
+                    latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scale - 1));
+                } else {
+                    throw CDMException("scale_factor_at_projection_origin not defined properly: abs(2*scale-1) >= 1: " + type2string(x));
+                }
+            }
             orientationOfTheGridInDegrees = clamp_lon(orientationOfTheGridInDegrees);
             std::string polar_stereographic("polar_stereographic");
             size_t ps_size = polar_stereographic.size();
@@ -148,9 +156,10 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             const auto xArray = xData->asDouble();
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", (xArray[1] - xArray[0])), "");
             const auto yArray = yData->asDouble();
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", (yArray[1] - yArray[0])), "");
+            const double dx = xArray[1] - xArray[0], dy = yArray[1] - yArray[0];
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", fabs(dx)), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", fabs(dy)), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 double lon = clamp_lon(cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]);
@@ -161,7 +170,22 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
                 throw CDMException("unable to find latitude/longitude for variable " + varName);
             }
             GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
+            if (southPole)
+                latitudeWhereDxAndDyAreSpecifiedInDegrees *= -1;
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeWhereDxAndDyAreSpecifiedInDegrees", latitudeWhereDxAndDyAreSpecifiedInDegrees), "");
+            if (southPole)
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCentreFlag", 128), "");
+            if (dy < 0) {
+                // reading north -> south
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 0), "");
+            } else {
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", 1), "");
+            }
+            if (dx < 0) {
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 1), "");
+            } else {
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", 0), "");
+            }
         } else if (projection == "latitude_longitude") {
             LOG4FIMEX(logger, Logger::INFO, "latlong projection for" << varName);
             std::string latitude, longitude;
-- 
2.43.0


From 917cb5cb763f8da9e233c9482b9093c37e5d4e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:55 +0000
Subject: [PATCH 134/188] fix: rotated GRIB grids with fractional poles; refuse
 a rotation around the pole

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 7 +++++--
 src/io/grib/GribApiCDMWriter_Impl2.cc | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index 1fea035..6cbebe2 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -248,6 +248,9 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             if (ait == projAttrs.end())
                 throw CDMException("grid_north_pole_latitude not found for projection " + proj->toString());
             double northPoleLat = ait->getData()->asDouble()[0];
+            ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("north_pole_grid_longitude"));
+            if (ait != projAttrs.end() && ait->getData()->asDouble()[0] != 0)
+                throw CDMException("north_pole_grid_longitude not supported by GribApiCDMWriter");
 
             double southPoleLat = -1 * northPoleLat;
             while (southPoleLat < -90) {
@@ -267,8 +270,8 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLat)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLon)), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 97f08f2..0dfb943 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -259,6 +259,9 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             if (ait == projAttrs.end())
                 throw CDMException("grid_north_pole_latitude not found for projection " + proj->toString());
             double northPoleLat = ait->getData()->asDouble()[0];
+            ait = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("north_pole_grid_longitude"));
+            if (ait != projAttrs.end() && ait->getData()->asDouble()[0] != 0)
+                throw CDMException("north_pole_grid_longitude not supported by GribApiCDMWriter");
 
             double southPoleLat = -1 * northPoleLat;
             while (southPoleLat < -90) {
@@ -275,8 +278,8 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLat)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLon)), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
-- 
2.43.0


From bb51d9f562008feeaa3e4a6eadb423d92cc19eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:56 +0000
Subject: [PATCH 135/188] fix: southern lambert grids in GRIB, latitude of the
 grid lengths in GRIB2

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 2 ++
 src/io/grib/GribApiCDMWriter_Impl2.cc | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index 6cbebe2..1f79040 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -345,6 +345,8 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin1InDegrees", lat1), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin2InDegrees", lat2), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "LoVInDegrees", lonV), "");
+            if (lat1 < 0)
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCentreFlag", 128), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 GRIB_CHECK(
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 0dfb943..0972dd7 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -343,9 +343,12 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             // GRIB_CHECK(grib_set_double(gribHandle.get(), "LaDInDegrees", lat0), "");
             // avoid unused lat0 warning
             lat0 *= 1.;
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "LaDInDegrees", lat1), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin1InDegrees", lat1), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "Latin2InDegrees", lat2), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "LoVInDegrees", lonV), "");
+            if (lat1 < 0)
+                GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCentreFlag", 128), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 const double lat_1st = cdmReader->getScaledDataInUnit(latitude, "degree")->asDouble()[0];
-- 
2.43.0


From 57c51298c1152500d78f55e229638d17224cfdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:56 +0000
Subject: [PATCH 136/188] fix: GRIB levels are rounded instead of truncated,
 GRIB2 levels with decimals

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 2 +-
 src/io/grib/GribApiCDMWriter_Impl2.cc | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index 1f79040..c9ee8b9 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -418,7 +418,7 @@ void GribApiCDMWriter_Impl1::setLevel(const std::string& varName, double levelVa
     } else {
         throw CDMException("could not find vertical Axis " + verticalAxisXPath + " in " + configFile + ", skipping parameter " + varName);
     }
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "level", static_cast<long>(levelValue)), "setting level");
+    GRIB_CHECK(grib_set_long(gribHandle.get(), "level", std::lround(levelValue)), "setting level");
 }
 
 DataPtr GribApiCDMWriter_Impl1::handleTypeScaleAndMissingData(const std::string& varName, double levelValue, DataPtr inData)
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 0972dd7..96a74b5 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -475,7 +475,11 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
         // hybrid level, no value, just position in pv
         GRIB_CHECK(grib_set_long(gribHandle.get(), "level", levelPos+1), "setting level position");
     } else {
-        GRIB_CHECK(grib_set_long(gribHandle.get(), "level", static_cast<long>(levelValue)), "setting level");
+        const double rounded = std::round(levelValue);
+        if (std::fabs(levelValue - rounded) < 1e-6 * std::max(1., std::fabs(levelValue)))
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "level", static_cast<long>(rounded)), "setting level");
+        else
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "level", levelValue), "setting level");
     }
 }
 
-- 
2.43.0


From 6408960e52ca76dd6ffab2c49e78bbf3475baa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:56 +0000
Subject: [PATCH 137/188] fix: borders of hybrid levels in GRIB2, written out
 of bounds before

---
 src/io/grib/GribApiCDMWriter_Impl2.cc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 96a74b5..37b88fe 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -443,21 +443,26 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
                     throw CDMException("size mismatch between ap and b");
                 }
 
-                // step forward if surface is first level
-                int i0 = 1, di = +1;
-                if (bD[0] < bD[bData->size()-1]) {
-                    // reverse step if surface is last level
-                    i0 = n-1;
-                    di = -1;
-                }
-                // convert from mid-levels to level border, i.e. ml[i] = (lb[i-1]+lb[i])/2
+                // convert from mid-levels to level border, i.e. ml[i] = (lb[i]+lb[i+1])/2
+                // starting from the surface with ap = 0, b = 1
                 // see also GribCDMReader::readValuesFromXPath_ for extraHalvLevels
                 std::vector<double> pv(2*(n + 1), 0);
                 double* pvAp = &pv[0];
                 double* pvB = &pv[n+1];
-                for (int j = 0, i = i0; j < n; j += 1, i += di) {
-                    pvAp[i] = 2*apD[i]-pvAp[i-di];
-                    pvB[i] = 2*bD[i]-pvB[i-di];
+                if (bD[0] < bD[n - 1]) {
+                    // reverse step if surface is last level
+                    pvB[n] = 1;
+                    for (size_t i = n; i > 0; --i) {
+                        pvAp[i - 1] = 2 * apD[i - 1] - pvAp[i];
+                        pvB[i - 1] = 2 * bD[i - 1] - pvB[i];
+                    }
+                } else {
+                    // step forward if surface is first level
+                    pvB[0] = 1;
+                    for (size_t i = 0; i < n; ++i) {
+                        pvAp[i + 1] = 2 * apD[i] - pvAp[i];
+                        pvB[i + 1] = 2 * bD[i] - pvB[i];
+                    }
                 }
 
                 GRIB_CHECK(grib_set_long(gribHandle.get(), "PVPresent", 1), 0);
-- 
2.43.0


From 49d578e4e104ba585da4dbfa790c7f5ab772e020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:56 +0000
Subject: [PATCH 138/188] fix: GRIB parameters which depend on the level, also
 at level 0

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 34 +++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index bede64a..925352c 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -610,26 +610,28 @@ xmlNode* GribApiCDMWriter_ImplAbstract::getNodePtr(const std::string& varName, d
     }
 
     const XPathNodeSet nodes(xmlConfig, usedXPath);
-    if (nodes.size() != 1) {
-        throw CDMException(type2string(nodes.size()) + " entries of '" + varName + "' in grib-config at " + configFile);
-    }
 
-    // find node with corresponding level
-    xmlNodePtr node = nodes[0];
-    const auto level = getXmlProp(node->parent, "level");
-    if (level.empty()) {
-        LOG4FIMEX(logger, Logger::DEBUG, "found parameter without level");
-        return node;
-    }
+    // find nodes with corresponding level
+    std::vector<xmlNodePtr> found;
+    for (xmlNodePtr node : nodes) {
+        const auto level = getXmlProp(node->parent, "level");
+        if (level.empty()) {
+            LOG4FIMEX(logger, Logger::DEBUG, "found parameter without level");
+            found.push_back(node);
+            continue;
+        }
 
-    LOG4FIMEX(logger, Logger::DEBUG, "found parameter with level " << level << " in xml");
-    double xLevelValue = string2type<double>(level);
-    if (std::fabs(levelValue - xLevelValue) < (1e-6 * levelValue)) {
-        LOG4FIMEX(logger, Logger::DEBUG, "level matches value");
-        return node;
+        LOG4FIMEX(logger, Logger::DEBUG, "found parameter with level " << level << " in xml");
+        double xLevelValue = string2type<double>(level);
+        if (std::fabs(levelValue - xLevelValue) <= (1e-6 * std::fabs(levelValue))) {
+            LOG4FIMEX(logger, Logger::DEBUG, "level matches value");
+            found.push_back(node);
+        }
     }
 
-    throw CDMException("found 0 entries in grib-config at " + configFile);
+    if (found.size() != 1)
+        throw CDMException("found " + type2string(found.size()) + " entries of '" + varName + "' in grib-config at " + configFile);
+    return found.front();
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 77b5acbee6d6236b7766ebcbab932c6a03b8b4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:56 +0000
Subject: [PATCH 139/188] fix: values equal to the fill value after unit
 conversion, and NaN, in GRIB files

---
 src/io/grib/GribApiCDMWriter_Impl1.cc        | 3 ++-
 src/io/grib/GribApiCDMWriter_Impl2.cc        | 3 ++-
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index c9ee8b9..6612026 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -426,7 +426,8 @@ DataPtr GribApiCDMWriter_Impl1::handleTypeScaleAndMissingData(const std::string&
     LOG4FIMEX(logger, Logger::DEBUG, "handleTypeScaleAndMissingData(" << varName << ", " << levelValue << ")");
     const CDM& cdm = cdmReader->getCDM();
     double inFillValue = cdm.getFillValue(varName);
-    double outFillValue = inFillValue;
+    // far from all values, the missing values are stored in a bitmap
+    double outFillValue = -1e36;
     GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
     // need bitmap to represent missing values in grib1
     GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 37b88fe..ed65f02 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -493,7 +493,8 @@ DataPtr GribApiCDMWriter_Impl2::handleTypeScaleAndMissingData(const std::string&
     LOG4FIMEX(logger, Logger::DEBUG, "handleTypeScaleAndMissingData(" << varName << ", " << levelValue << ")");
     const CDM& cdm = cdmReader->getCDM();
     double inFillValue = cdm.getFillValue(varName);
-    double outFillValue = inFillValue;
+    // far from all values, the missing values are stored in a bitmap
+    double outFillValue = -1e36;
     // missingValue will not be encoded in message, but in a separate bitmap
     GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
     GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 925352c..f92b977 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -346,7 +346,8 @@ void GribApiCDMWriter_ImplAbstract::run()
                                     auto da = data->asDouble();
                                     bool writeData = true;
                                     if (omitEmptyFields) {
-                                        const size_t countMissing = count(&da[0], &da[0] + data->size(), cdm.getFillValue(*var));
+                                        const double fill = cdm.getFillValue(*var);
+                                        const size_t countMissing = std::count_if(&da[0], &da[0] + data->size(), [fill](double v) { return v == fill || std::isnan(v); });
                                         writeData = (countMissing < data->size());
                                     }
                                     if (writeData) {
-- 
2.43.0


From 54649576ad40cb13267b9d4c8b1c4244b576417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:36 +0000
Subject: [PATCH 140/188] fix: irregular axes are not written as regular GRIB
 grids

---
 src/io/grib/GribApiCDMWriter_Impl1.cc        | 18 +++++++-----------
 src/io/grib/GribApiCDMWriter_Impl2.cc        | 18 +++++++-----------
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 14 ++++++++++++++
 src/io/grib/GribApiCDMWriter_ImplAbstract.h  |  4 ++++
 4 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index 6612026..99aec63 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -133,9 +133,7 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             // grib1 doesn't allow to set double values for this! // (grib2 not checked)
-            auto xArray = xData->asDouble();
-            auto yArray = yData->asDouble();
-            const double dx = xArray[1] - xArray[0], dy = yArray[1] - yArray[0];
+            const double dx = gribRegularStep(xData, cdm.getHorizontalXAxis(varName)), dy = gribRegularStep(yData, cdm.getHorizontalYAxis(varName));
             GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", std::lround(fabs(dx))), "");
             GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", std::lround(fabs(dy))), "");
             std::string latitude, longitude;
@@ -179,8 +177,8 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             double di, dj, lon0, lat0, lonX, latX;
             auto longs = lonData->asDouble();
             auto lats = latData->asDouble();
-            di = longs[1] - longs[0];
-            dj = lats[1] - lats[0];
+            di = gribRegularStep(lonData, lon);
+            dj = gribRegularStep(latData, lat);
             lat0 = lats[0];
             latX = lats[nj - 1];
             lon0 = longs[0];
@@ -228,8 +226,8 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             double di, dj, rlon0, rlat0, rlonX, rlatX;
             auto rlongs = rLonData->asDouble();
             auto rlats = rLatData->asDouble();
-            di = rlongs[1] - rlongs[0];
-            dj = rlats[1] - rlats[0];
+            di = gribRegularStep(rLonData, rotLon);
+            dj = gribRegularStep(rLatData, rotLat);
             rlat0 = rlats[0];
             rlatX = rlats[nj - 1];
             rlon0 = rlongs[0];
@@ -327,10 +325,8 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             const DataPtr yData = cdmReader->getScaledDataInUnit(cdm.getHorizontalYAxis(varName), "m");
             if (xData->size() < 2 || yData->size() < 2)
                 throw CDMException(varName + " variable has to small x-y dimensions, not a grid for GRIB");
-            auto xArray = xData->asDouble();
-            double dx = xArray[1] - xArray[0];
-            auto yArray = yData->asDouble();
-            double dy = yArray[1] - yArray[0];
+            double dx = gribRegularStep(xData, cdm.getHorizontalXAxis(varName));
+            double dy = gribRegularStep(yData, cdm.getHorizontalYAxis(varName));
             std::string typeOfGrid("lambert");
             size_t tog_size = typeOfGrid.size();
             GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index ed65f02..5971e16 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -155,9 +155,7 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
                 throw CDMException(varName + " variable has to small x-y dimensions, not a grid for GRIB");
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
-            const auto xArray = xData->asDouble();
-            const auto yArray = yData->asDouble();
-            const double dx = xArray[1] - xArray[0], dy = yArray[1] - yArray[0];
+            const double dx = gribRegularStep(xData, cdm.getHorizontalXAxis(varName)), dy = gribRegularStep(yData, cdm.getHorizontalYAxis(varName));
             GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", fabs(dx)), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", fabs(dy)), "");
             std::string latitude, longitude;
@@ -201,8 +199,8 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             }
             const auto longs = lonData->asDouble();
             const auto lats = latData->asDouble();
-            const double di = longs[1] - longs[0];
-            const double dj = lats[1] - lats[0];
+            const double di = gribRegularStep(lonData, longitude);
+            const double dj = gribRegularStep(latData, latitude);
             const double lat0 = lats[0];
             const double latX = lats[nj - 1];
             const double lon0 = clamp_lon(longs[0]);
@@ -245,8 +243,8 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             double di, dj, rlon0, rlat0, rlonX, rlatX;
             const auto rlongs = rLonData->asDouble();
             const auto rlats = rLatData->asDouble();
-            di = rlongs[1] - rlongs[0];
-            dj = rlats[1] - rlats[0];
+            di = gribRegularStep(rLonData, rotLon);
+            dj = gribRegularStep(rLatData, rotLat);
             rlat0 = rlats[0];
             rlatX = rlats[nj - 1];
             rlon0 = clamp_lon(rlongs[0]);
@@ -328,10 +326,8 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             const DataPtr yData = cdmReader->getScaledDataInUnit(cdm.getHorizontalYAxis(varName), "m");
             if (xData->size() < 2 || yData->size() < 2)
                 throw CDMException(varName + " variable has too small x-y dimensions, not a grid for GRIB");
-            auto xArray = xData->asDouble();
-            double dx = xArray[1] - xArray[0];
-            auto yArray = yData->asDouble();
-            double dy = yArray[1] - yArray[0];
+            double dx = gribRegularStep(xData, cdm.getHorizontalXAxis(varName));
+            double dy = gribRegularStep(yData, cdm.getHorizontalYAxis(varName));
             std::string typeOfGrid("lambert");
             size_t tog_size = typeOfGrid.size();
             GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", typeOfGrid.c_str(), &tog_size), "");
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index f92b977..23fdb86 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -62,6 +62,20 @@ void gribWriteCheck(int error, const char* msg)
         throw CDMException("cannot write grib: " + std::string(grib_get_error_message(error)) + (msg ? std::string("; ") + msg : ""));
 }
 
+double gribRegularStep(const DataPtr& axisData, const std::string& axis)
+{
+    const size_t n = axisData->size();
+    if (n < 2)
+        throw CDMException("axis " + axis + " too small, not a grid for GRIB");
+    const auto values = axisData->asDouble();
+    const double step = (values[n - 1] - values[0]) / (n - 1);
+    for (size_t i = 1; i < n; ++i) {
+        if (!(std::fabs(values[0] + i * step - values[i]) <= 0.01 * std::fabs(step)))
+            throw CDMException("axis " + axis + " not regular, not a grid for GRIB");
+    }
+    return step;
+}
+
 namespace {
 //! largest unit which can represent all steps, in seconds since the reference time
 std::string findStepUnit(const long long* steps, size_t n)
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.h b/src/io/grib/GribApiCDMWriter_ImplAbstract.h
index e5bc1c4..9db6dda 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.h
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.h
@@ -45,6 +45,10 @@ namespace MetNoFimex {
  */
 void gribWriteCheck(int error, const char* msg);
 
+//! step of a regular axis
+//! @throws CDMException if the axis has less than 2 values, or is not regular, since GRIB stores only the first value and the step
+double gribRegularStep(const DataPtr& axisData, const std::string& axis);
+
 class GribApiCDMWriter_ImplAbstract : public CDMWriter
 {
 public:
-- 
2.43.0


From 4c026fece5e3fd60797d72069ce374b03ae4c725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:37 +0000
Subject: [PATCH 141/188] fix: variables with y as fastest dimension are not
 transposed in GRIB files

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 23fdb86..3a14e56 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -91,6 +91,17 @@ std::string findStepUnit(const long long* steps, size_t n)
     }
     return divisor == 0 ? "h" : gribSeconds2stepUnits(divisor);
 }
+//! check if the y-values of a row are consecutive in the data of the variable
+bool isYFastest(const CDMVariable& var, CoordinateAxis_cp xAxis, CoordinateAxis_cp yAxis)
+{
+    const auto& shape = var.getShape();
+    const auto pos = [&shape](CoordinateAxis_cp axis) {
+        const auto& aShape = axis->getShape();
+        return aShape.size() == 1 ? std::find(shape.begin(), shape.end(), aShape[0]) : shape.end();
+    };
+    return pos(yAxis) < pos(xAxis);
+}
+
 std::shared_ptr<grib_handle> cloneHandle(const std::shared_ptr<grib_handle>& handle)
 {
     std::shared_ptr<grib_handle> clone(grib_handle_clone(handle.get()), grib_handle_delete);
@@ -351,6 +362,8 @@ void GribApiCDMWriter_ImplAbstract::run()
                             double levelVal = levels.at(levelPos);
                             try {
                                 gribHandle = cloneHandle(gridHandle);
+                                if (isYFastest(cdm.getVariable(*var), xAxis, yAxis))
+                                    GRIB_CHECK(grib_set_long(gribHandle.get(), "jPointsAreConsecutive", 1), "setting scanning mode");
                                 setTime(*var, rTime, *vTime, stepUnit);
                                 // level and var are dependent due to splitting possibilities
                                 setLevel(*var, levelVal, levelPos);
-- 
2.43.0


From 5402ec4c1e9aaaf7365a3082a11a1d6f463131ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:37 +0000
Subject: [PATCH 142/188] fix: write GRIB1 when asked for, whatever the file
 name

---
 src/io/grib/GribIoFactory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribIoFactory.cc b/src/io/grib/GribIoFactory.cc
index af8123b..6349877 100644
--- a/src/io/grib/GribIoFactory.cc
+++ b/src/io/grib/GribIoFactory.cc
@@ -173,7 +173,7 @@ void GribIoFactory::createWriter(CDMReader_p input, const std::string& fileTypeN
 
     int gribVersion = 0;
     const std::string ext = getExtension(fileName);
-    if (isGrib2Type(fileTypeName) || isGrib2Type(ext))
+    if (isGrib2Type(fileTypeName) || (fileTypeName != "grb1" && fileTypeName != "grib1" && isGrib2Type(ext)))
         gribVersion = 2;
     else if (isGribType(fileTypeName) || isGribType(ext))
         gribVersion = 1;
-- 
2.43.0


From 7dd7d3f2bf0710d5804020c306703fa2f16b0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:18 +0000
Subject: [PATCH 143/188] fix: seconds of the reference time in GRIB2

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 3a14e56..c55b33a 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -448,6 +448,7 @@ void GribApiCDMWriter_ImplAbstract::setTime(const std::string& varName, const Fi
 {
     // LOG4FIMEX(logger, Logger::DEBUG, "setTime(" << varName << ", " << rtime << ", " << vTime << ")" );
     long date, time, startStep, endStep;
+    const long second = is_invalid_time_point(rtime) ? vTime.getSecond() : rtime.getSecond();
     if (is_invalid_time_point(rtime)) {
         // no reference-time, using time itself as reference-time
         date = vTime.getYear() * 10000 + vTime.getMonth() * 100 + vTime.getMDay();
@@ -469,6 +470,10 @@ void GribApiCDMWriter_ImplAbstract::setTime(const std::string& varName, const Fi
     }
     GRIB_CHECK(grib_set_long(gribHandle.get(), "dataDate", date), "setting dataDate");
     GRIB_CHECK(grib_set_long(gribHandle.get(), "dataTime", time), "setting dataTime");
+    if (gribVersion > 1)
+        GRIB_CHECK(grib_set_long(gribHandle.get(), "second", second), "setting second");
+    else if (second != 0)
+        throw CDMException("grib1 does not support seconds in the reference time");
     size_t sSize = stepUnits.size();
     GRIB_CHECK(grib_set_string(gribHandle.get(), "stepUnits", stepUnits.c_str(), &sSize), "setting stepUnits");
     GRIB_CHECK(grib_set_long(gribHandle.get(), "startStep", startStep), "setting startStep");
-- 
2.43.0


From a89c49c5afa5b050bcb32e076360df953f817b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:17 +0000
Subject: [PATCH 144/188] fix: pressure levels of GRIB2 in the shipped writer
 configurations, ecCodes takes levels in hPa

---
 share/etc/cdmGribWriterConfig.xml         | 4 ++--
 share/etc/cdmGribWriterConfigAromeHRS.xml | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/share/etc/cdmGribWriterConfig.xml b/share/etc/cdmGribWriterConfig.xml
index 52f7ed1..af3ba5e 100644
--- a/share/etc/cdmGribWriterConfig.xml
+++ b/share/etc/cdmGribWriterConfig.xml
@@ -35,11 +35,11 @@
 <vertical_axis unitCompatibleTo="Pa">
    <!-- no standard_name for pressure coord, defined only by unit of hPa -->
    <grib1 id="100" units="hPa" type="short"/>
-   <grib2 id="100" units="Pa" type="double"/>
+   <grib2 id="100" units="hPa" type="double"/>
 </vertical_axis>
 <vertical_axis standard_name="air_pressure">
    <grib1 id="100" units="hPa" type="short"/>
-   <grib2 id="100" units="Pa" type="double"/>
+   <grib2 id="100" units="hPa" type="double"/>
 </vertical_axis>
 <vertical_axis standard_name="atmosphere_sigma_coordinate">
     <grib1 id="107" scale_factor="1e-4" add_offset="0" type="short" />
diff --git a/share/etc/cdmGribWriterConfigAromeHRS.xml b/share/etc/cdmGribWriterConfigAromeHRS.xml
index da51b06..b85de81 100644
--- a/share/etc/cdmGribWriterConfigAromeHRS.xml
+++ b/share/etc/cdmGribWriterConfigAromeHRS.xml
@@ -26,11 +26,11 @@
 <vertical_axis unitCompatibleTo="Pa">
    <!-- no standard_name for pressure coord, defined only by unit of hPa -->
    <grib1 id="100" units="hPa" type="short"/>
-   <grib2 id="100" units="Pa" type="double"/>
+   <grib2 id="100" units="hPa" type="double"/>
 </vertical_axis>
 <vertical_axis standard_name="air_pressure">
    <grib1 id="100" units="hPa" type="short"/>
-   <grib2 id="100" units="Pa" type="double"/>
+   <grib2 id="100" units="hPa" type="double"/>
 </vertical_axis>
 <vertical_axis standard_name="atmosphere_sigma_coordinate">
     <grib1 id="107" scale_factor="1e-4" add_offset="0" type="short" />
-- 
2.43.0


From eecf4d06c5bed93cadaacfe33e739b525428d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:25 +0000
Subject: [PATCH 145/188] fix: positive attribute is not case-sensitive

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 5c67ffc..644f938 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -203,7 +203,7 @@ static CoordinateAxis::AxisType getAxisTypeCF1_x(const CDM& cdm, const string& v
 
     // test 'positive' attribute
     if (cdm.getAttribute(varName, "positive", attr)) {
-        const bool is_up = attr.getStringValue() == "up";
+        const bool is_up = string2lowerCase(attr.getStringValue()) == "up"; // case-insensitive in CF
         if (cdm.getAttribute(varName, "units", attr)) {
             string unit = attr.getStringValue();
             if (uc.areConvertible("m", unit)) {
-- 
2.43.0


From 8d0855f4a83301da883037d3ef3c83eaf671f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:21 +0000
Subject: [PATCH 146/188] fix: an auxiliary coordinate of an axis type in use
 does not hide the coordinate system

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 644f938..0cb0d8c 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -324,6 +324,7 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
     // of axes, CoordinateSystem's less operator makes sure of that in the set
     // the coordinateSystems here are intermediate, since the axes still don't have types
     map<string, CoordinateSystem_p> coordSystems;
+    map<string, set<string> > usedAxes; // axes per variable, without those dropped by the coordinate system
     {
         const CDM::VarVec& vars = cdm.getVariables();
         for (CDM::VarVec::const_iterator varIt = vars.begin(); varIt != vars.end(); ++varIt) {
@@ -334,7 +335,21 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
                 set<string> coords = getCoordinateNamesCF1_x(cdm, *varIt);
                 if (axes.size()) {
                     CoordinateSystem_p cs = std::make_shared<CoordinateSystem>("CF-1.X");
-                    for (set<string>::iterator axis = axes.begin(); axis != axes.end(); ++axis) {
+                    // dimensions before auxiliary axes, the latter may be dropped if the axis type exists
+                    vector<string> orderedAxes;
+                    for (const string& dim : varIt->getShape()) {
+                        if (coords.find(dim) == coords.end())
+                            orderedAxes.push_back(dim);
+                    }
+                    for (const string& dim : varIt->getShape()) {
+                        if (coords.find(dim) != coords.end())
+                            orderedAxes.push_back(dim);
+                    }
+                    for (const string& axis : axes) {
+                        if (find(orderedAxes.begin(), orderedAxes.end(), axis) == orderedAxes.end())
+                            orderedAxes.push_back(axis);
+                    }
+                    for (vector<string>::iterator axis = orderedAxes.begin(); axis != orderedAxes.end(); ++axis) {
                         map<string, CoordinateAxis_p>::iterator foundAxis = coordinateAxes.find(*axis);
                         if (foundAxis != coordinateAxes.end()) {
                             // only dims with variable can be coordinate axis
@@ -348,6 +363,10 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
                         }
                     }
                     coordSystems.insert(make_pair(cs->id(), cs));
+                    set<string>& used = usedAxes[varIt->getName()];
+                    used.insert(varIt->getShape().begin(), varIt->getShape().end());
+                    for (const CoordinateAxis_cp& axis : cs->getAxes())
+                        used.insert(axis->getName());
                 }
             }
         }
@@ -365,7 +384,8 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
             set<string> csAxes;
             transform(csAxesPtr.begin(), csAxesPtr.end(), inserter(csAxes, csAxes.begin()), getPtrName);
             for (CDM::VarVec::const_iterator varIt = vars.begin(); varIt != vars.end(); ++varIt) {
-                set<string> varAxes = getCoordinateAxesNamesCF1_x(cdm, *varIt);
+                map<string, set<string> >::const_iterator used = usedAxes.find(varIt->getName());
+                const set<string> varAxes = (used != usedAxes.end()) ? used->second : getCoordinateAxesNamesCF1_x(cdm, *varIt);
                 // all csAxes part of varAxes
                 bool is_complete = includes(varAxes.begin(), varAxes.end(),
                                             csAxes.begin(), csAxes.end());
-- 
2.43.0


From 4563a5fd5868ceec9fd6b1f379fb85514d9793be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:53 +0000
Subject: [PATCH 147/188] fix: only components of the same quantity make a
 vector

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 0cb0d8c..7135d14 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -582,12 +582,14 @@ static void enhanceVectors(CDM& cdm, const std::string& xsn, const std::string&
         if (xv.isSpatialVector())
             continue;
         const vector<string>& xSh = xv.getShape();
+        const string xRest = cdm.getAttribute(*xVar, "standard_name").getStringValue().substr(xsn.size());
         for (vector<string>::iterator yVar = yVars.begin(); yVar != yVars.end(); ++yVar) {
             CDMVariable& yv = cdm.getVariable(*yVar);
             if (yv.isSpatialVector())
                 continue;
             const vector<string>& ySh = yv.getShape();
-            if (xSh == ySh) {
+            const string yRest = cdm.getAttribute(*yVar, "standard_name").getStringValue().substr(ysn.size());
+            if (xSh == ySh && xRest == yRest) {
                 xv.setAsSpatialVector(*yVar, CDMVariable::vectorDirectionFromString(xdir));
                 yv.setAsSpatialVector(*xVar, CDMVariable::vectorDirectionFromString(ydir));
                 LOG4FIMEX(logger, Logger::INFO, "making "<< *xVar << "," << *yVar << " a vector");
-- 
2.43.0


From 37e0d20523580bb6c0da5bafccfad5df12cb8684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:50 +0000
Subject: [PATCH 148/188] fix: a variable with two axes of a type does not make
 all coordinate systems fail

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 7135d14..e4adc5f 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -349,6 +349,7 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
                         if (find(orderedAxes.begin(), orderedAxes.end(), axis) == orderedAxes.end())
                             orderedAxes.push_back(axis);
                     }
+                    try {
                     for (vector<string>::iterator axis = orderedAxes.begin(); axis != orderedAxes.end(); ++axis) {
                         map<string, CoordinateAxis_p>::iterator foundAxis = coordinateAxes.find(*axis);
                         if (foundAxis != coordinateAxes.end()) {
@@ -362,6 +363,11 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
                             }
                         }
                     }
+                    } catch (CDMException& ex) {
+                        // e.g. two dimensions of the same axis type, this must not affect other variables
+                        LOG4FIMEX(logger, Logger::WARN, "no coordinate system for variable '" << varIt->getName() << "': " << ex.what());
+                        continue;
+                    }
                     coordSystems.insert(make_pair(cs->id(), cs));
                     set<string>& used = usedAxes[varIt->getName()];
                     used.insert(varIt->getShape().begin(), varIt->getShape().end());
-- 
2.43.0


From 39c6bcaeba7c1f8c155297992bc65f871b107c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:51 +0000
Subject: [PATCH 149/188] fix: felt reader reads beyond the list of times for
 the time after the last

---
 src/io/felt/FeltCDMReader2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index eeaa9dc..d440a58 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -628,7 +628,7 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
         return getDataSliceFromMemory(variable, unLimDimPos);
     }
     // only time can be unLimDim
-    if (unLimDimPos > timeVec.size()) {
+    if (cdm_->hasUnlimitedDim(variable) && unLimDimPos >= timeVec.size()) {
         throw CDMException("requested time outside data-region");
     }
 
@@ -710,7 +710,7 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
             for (vector<LevelPair>::const_iterator lit = layerVals.begin(); lit != layerVals.end(); ++lit) {
                 // get the time, if available
                 MetNoFimex::FimexTime t;
-                if (timeVec.size() > 0) {
+                if (unLimDimPos < timeVec.size()) {
                     t = timeVec[unLimDimPos];
                 }
                 // read the slice
-- 
2.43.0


From 4e4caf3b7f8ee1fc4e1b415eca1f9f5edf4b8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:51 +0000
Subject: [PATCH 150/188] fix: felt parameters of type float or double without
 _FillValue show missing points as -32767

---
 src/io/felt/FeltParameters.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io/felt/FeltParameters.cc b/src/io/felt/FeltParameters.cc
index 3f64030..bf5e751 100644
--- a/src/io/felt/FeltParameters.cc
+++ b/src/io/felt/FeltParameters.cc
@@ -247,9 +247,14 @@ double FeltParameters::getParameterFillValue(const std::string& parameterName) c
     std::map<std::string, double>::const_iterator it = parameterFillValueMap.find(parameterName);
     if (it != parameterFillValueMap.end()) {
         return it->second;
-    } else {
-        return ANY_VALUE();
     }
+    // same as the default fill value of a CDM variable without _FillValue
+    const std::string dataType = getParameterDatatype(parameterName);
+    if (dataType == "float")
+        return MIFI_FILL_FLOAT;
+    if (dataType == "double")
+        return MIFI_FILL_DOUBLE;
+    return ANY_VALUE();
 }
 
 std::ostream& operator<<(std::ostream& os, const FeltParameters& fp)
-- 
2.43.0


From 2c47fb1a62f97ca8b61efb6993f4b3e271dfd31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:51 +0000
Subject: [PATCH 151/188] fix: felt parameters with only one ensemble member
 are read as undefined

---
 src/io/felt/FeltCDMReader2.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index d440a58..5686683 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -701,6 +701,13 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
                     }
                 }
                 layerVals = ensembleLayerVals;
+            } else {
+                // variable without ensemble-dimension, but possibly belonging to the only member
+                const vector<short> members = fa->getEnsembleMembers();
+                if (members.size() == 1) {
+                    for (size_t i = 0; i < layerVals.size(); i++)
+                        layerVals[i].second = members[0];
+                }
             }
 
             size_t dataCurrentPos = 0;
-- 
2.43.0


From 39150f879b30a19a354ea5c6953d00b3293eaa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:51 +0000
Subject: [PATCH 152/188] fix: missing parts of truncated felt files are read
 as data

---
 src/io/felt/FeltField.cpp |  2 --
 src/io/felt/FeltFile.cpp  | 28 +++++++++++++++++-----------
 src/io/felt/FeltFile.h    |  3 +++
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/io/felt/FeltField.cpp b/src/io/felt/FeltField.cpp
index 9e5f421..7fb302e 100644
--- a/src/io/felt/FeltField.cpp
+++ b/src/io/felt/FeltField.cpp
@@ -258,8 +258,6 @@ const std::vector<short int>& FeltField::getExtraGeometrySpecification_() const
         int gt = gridType();
         if (gt > 1000) {                 // Otherwise no extra spec
             size_t readSize = gt % 1000; // last three digits is size of appended data
-            extraGridSpec_.resize(readSize);
-
             size_t readFrom = (startingGridBlock() * blockWords) + gridSize() + 20;
             // offset
             if (header_[6] > 1) {
diff --git a/src/io/felt/FeltFile.cpp b/src/io/felt/FeltFile.cpp
index d383994..a6adebc 100644
--- a/src/io/felt/FeltFile.cpp
+++ b/src/io/felt/FeltFile.cpp
@@ -45,8 +45,8 @@ FeltFile::FeltFile(const std::string& file)
     , changeEndianness_(false)
     , feltFile_(new std::ifstream(file, std::ios::binary))
 {
-    word head;
-    feltFile_->read(reinterpret_cast<char*>(&head), sizeof(word));
+    word head = 0;
+    readWords_(&head, 0, 1);
     if (head < 997 or 999 < head)
         changeEndianness_ = true;
 
@@ -178,13 +178,21 @@ void swapByteOrder(word& w)
 
 } // namespace
 
+void FeltFile::readWords_(word* out, size_type fromWord, size_type noOfWords) const
+{
+    // this will allow up to 8.4GB (size_t = 4.2G * word=2)
+    unsigned long long pos = static_cast<unsigned long long>(fromWord) * sizeof(word);
+    feltFile_->clear(); // an earlier read might have failed
+    feltFile_->seekg(pos, ios_base::beg);
+    if (!feltFile_->read(reinterpret_cast<char*>(out), noOfWords * sizeof(word)))
+        throw std::runtime_error("cannot read " + fileName_ + ", file missing or truncated");
+}
+
 FeltFile::Block FeltFile::getBlock_(size_type blockNo) const
 {
     Block ret(new word[blockWords]);
 
-    long long pos = static_cast<long long>(blockNo) * blockWords * sizeof(word);
-    feltFile_->seekg(pos, ios_base::beg);
-    feltFile_->read((char*)ret.get(), blockWords * sizeof(word));
+    readWords_(ret.get(), blockNo * blockWords, blockWords);
     if (changeEndianness_)
         for_each(ret.get(), ret.get() + blockWords, swapByteOrder);
 
@@ -193,13 +201,11 @@ FeltFile::Block FeltFile::getBlock_(size_type blockNo) const
 
 void FeltFile::get_(std::vector<word>& out, size_type fromWord, size_type noOfWords) const
 {
-    out.resize(noOfWords);
-    // this will allow up to 8.4GB (size_t = 4.2G * word=2)
-    unsigned long long pos = static_cast<unsigned long long>(fromWord) * sizeof(word);
-    feltFile_->seekg(pos, ios_base::beg);
-    feltFile_->read((char*)&out[0], noOfWords * sizeof(word));
+    std::vector<word> words(noOfWords);
+    readWords_(words.data(), fromWord, noOfWords);
     if (changeEndianness_)
-        for_each(out.begin(), out.end(), swapByteOrder);
+        for_each(words.begin(), words.end(), swapByteOrder);
+    out.swap(words);
 }
 
 const FeltField& FeltFile::at(size_t idx) const
diff --git a/src/io/felt/FeltFile.h b/src/io/felt/FeltFile.h
index f9895fc..b6514ff 100644
--- a/src/io/felt/FeltFile.h
+++ b/src/io/felt/FeltFile.h
@@ -104,6 +104,9 @@ private:
      */
     void get_(std::vector<word>& out, size_type fromWord, size_type noOfWords) const;
 
+    /// read words as they are in the file, throws std::runtime_error if the file does not contain them
+    void readWords_(word* out, size_type fromWord, size_type noOfWords) const;
+
     const std::string fileName_;
 
     /**
-- 
2.43.0


From 0ebdead60df6daf0a6d2061e938db46a23f6ce47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:00 +0000
Subject: [PATCH 153/188] fix: felt parameter with the global restriction in
 its id is not found

---
 src/io/felt/FeltParameters.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/felt/FeltParameters.cc b/src/io/felt/FeltParameters.cc
index bf5e751..0ecf150 100644
--- a/src/io/felt/FeltParameters.cc
+++ b/src/io/felt/FeltParameters.cc
@@ -64,11 +64,11 @@ FeltParameters::FeltParameters(const std::vector<std::string>& dianaFeltParams,
             }
             paramName = std::regex_replace(paramName, dTypeRegex, "");
         }
-        // remove the global restrictions from the parameter-name
+        // remove the global restrictions from the end of the parameter-name
         // which might be used as ID, too
         string cleanParamName = paramName;
         if (globalRestrictions != "") {
-            cleanParamName = std::regex_replace(paramName, std::regex(":?" + MetNoFimex::regex_escape(globalRestrictions)), "");
+            cleanParamName = std::regex_replace(paramName, std::regex(":?" + MetNoFimex::regex_escape(globalRestrictions) + "$"), "");
         }
 
         // get fillValue and remove from paramName
-- 
2.43.0


From 79533ab24b3ef3eb8df12b9efa8a10b6c27b588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:46 +0000
Subject: [PATCH 154/188] fix: vertical velocity does not vanish without wind

The ascent along sloping model levels is the wind times the gradient of
the levels' geopotential, but the wind was missing in that product.
---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index fa40287..79038b8 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -1030,8 +1030,8 @@ size_t mifi_compute_vertical_velocity(size_t nx, size_t ny, size_t nz, double dx
                 double w1 = R*t[ijk]
                              * (dlnp[ijk]*sum[ij] + alfa[ijk]*div)
                              / dp[ijk];
-                double w2 =   rhx[ij] * rdx_2 * (z[ijk+1]  - z[ijk-1])
-                            + rhy[ij] * rdy_2 * (z[ijk+nx] - z[ijk-nx]);
+                double w2 =   u[ijk] * rhx[ij] * rdx_2 * (z[ijk+1]  - z[ijk-1])
+                            + v[ijk] * rhy[ij] * rdy_2 * (z[ijk+nx] - z[ijk-nx]);
                 w[ijk] = (w1+w2) / g;
                 sum[ij] = sum[ij] + div;
             }
-- 
2.43.0


From 24fa1c0259c54cf314a3064a203299e3628c192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:46 +0000
Subject: [PATCH 155/188] fix: vertical velocity on grids too small for
 centered differences is uninitialized

---
 src/interpolation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/interpolation.c b/src/interpolation.c
index 79038b8..41c58e7 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -892,6 +892,10 @@ size_t mifi_compute_vertical_velocity(size_t nx, size_t ny, size_t nz, double dx
     const double R = MIFI_GAS_CONSTANT / MIFI_MOLAR_MASS_DRY_AIR;  // specific gas constant dry air
     const double g = MIFI_EARTH_GRAVITY; // gravity
 
+    if (nx < 3 || ny < 3 || nz < 1) {
+        return MIFI_ERROR; // centered differences are impossible
+    }
+
     double* mapRatioX = (double*) malloc(nx*ny*sizeof(double));
     double* mapRatioY = (double*) malloc(nx*ny*sizeof(double));
     double* rhx       = (double*) malloc(nx*ny*sizeof(double));
-- 
2.43.0


From 4500be010ed0c40708b59cde1aab2b28d896b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:24 +0000
Subject: [PATCH 156/188] fix: vertical velocity with dimensions beyond x, y, z
 and unlimited time

An ensemble dimension or a time axis which is not unlimited gave too few
values, calculated from the wrong surface pressure.
---
 src/CDMProcessor.cc | 65 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index b8622a9..9ae0b13 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -238,6 +238,11 @@ void CDMProcessor::addVerticalVelocity()
             CoordinateAxis_cp zAxis = cs->getGeoZAxis(); // Z or Lat
             VerticalTransformation_cp vtrans = cs->getVerticalTransformation();
             if (vtrans->getName() == HybridSigmaPressure1::NAME() && vtrans->isComplete()) {
+                const vector<string>& shape = cdm_->getVariable(*xw).getShape();
+                if (shape.size() < 3 || shape[0] != cs->getGeoXAxis()->getName() || shape[1] != cs->getGeoYAxis()->getName() || shape[2] != zAxis->getName()) {
+                    LOG4FIMEX(logger, Logger::WARN, "dimensions of '" << *xw << "' do not start with x,y,z, ignoring");
+                    continue;
+                }
                 VerticalVelocityComps vvc;
                 vvc.xWind = *xw;
                 std::shared_ptr<const HybridSigmaPressure1> vt = std::dynamic_pointer_cast<const HybridSigmaPressure1>(vtrans);
@@ -564,6 +569,18 @@ static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeSte
     }
 }
 
+// read data at a position in some dimensions, other dimensions are read completely
+static DataPtr getScaledDataAtInUnit(CDMReader_p reader, const std::string& varName, const std::string& unit, const map<string, size_t>& position)
+{
+    SliceBuilder sb(reader->getCDM(), varName);
+    for (const std::string& dim : reader->getCDM().getVariable(varName).getShape()) {
+        const auto it = position.find(dim);
+        if (it != position.end())
+            sb.setStartAndSize(dim, it->second, 1);
+    }
+    return reader->getScaledDataSliceInUnit(varName, unit, sb);
+}
+
 DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPos)
 {
     LOG4FIMEX(logger, Logger::DEBUG, "getDataSlice for '" << varName << "' at " << unLimDimPos);
@@ -578,29 +595,47 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
 
         DataPtr zsD = p_->vvComp.geopotData;
         assert(zsD->size() == nx*ny);
-        DataPtr psD = reader->getScaledDataSliceInUnit(p_->vvComp.ps, "Pa", unLimDimPos);
-        assert(psD->size() == nx*ny);
         DataPtr apD = reader->getScaledDataInUnit(p_->vvComp.ap, "Pa");
         assert(apD->size() == nz);
         DataPtr bD = reader->getScaledData(p_->vvComp.b);
         assert(bD->size() == nz);
-        DataPtr uD = reader->getScaledDataSliceInUnit(p_->vvComp.xWind, "m/s", unLimDimPos);
-        assert(uD->size() == nx*ny*nz);
-        DataPtr vD = reader->getScaledDataSliceInUnit(p_->vvComp.yWind, "m/s", unLimDimPos);
-        assert(vD->size() == nx*ny*nz);
-        DataPtr tD = reader->getScaledDataSliceInUnit(p_->vvComp.temp, "K", unLimDimPos);
-        assert(tD->size() == nx*ny*nz);
 
+        // the dimensions after x, y and z, e.g. time or ensemble-member
+        const vector<string>& shape = cdm_->getVariable(varName).getShape();
+        vector<pair<string, pair<size_t, size_t> > > others; // dimension -> begin, end
+        size_t count = 1;
+        for (size_t i = 3; i < shape.size(); ++i) {
+            const CDMDimension& dim = cdm_->getDimension(shape[i]);
+            const size_t begin = dim.isUnlimited() ? unLimDimPos : 0, end = dim.isUnlimited() ? unLimDimPos + 1 : dim.getLength();
+            others.push_back(make_pair(shape[i], make_pair(begin, end)));
+            count *= end - begin;
+        }
 
         // output
-        auto w = make_shared_array<float>(nx * ny * nz);
-        if (MIFI_OK != mifi_compute_vertical_velocity(nx, ny, nz, p_->vvComp.dx, p_->vvComp.dy, p_->vvComp.gridDistX.get(), p_->vvComp.gridDistY.get(),
-                                                      apD->asDouble().get(), bD->asDouble().get(), zsD->asFloat().get(), psD->asFloat().get(),
-                                                      uD->asFloat().get(), vD->asFloat().get(), tD->asFloat().get(), w.get()))
-        {
-            throw CDMException("addVerticalVelocity: cannot calculate mifi_compute_vertical_velocity");
+        auto w = make_shared_array<float>(nx * ny * nz * count);
+        for (size_t c = 0; c < count; ++c) {
+            map<string, size_t> position;
+            size_t rest = c;
+            for (const auto& o : others) {
+                const size_t length = o.second.second - o.second.first;
+                position[o.first] = o.second.first + rest % length;
+                rest /= length;
+            }
+            DataPtr psD = getScaledDataAtInUnit(reader, p_->vvComp.ps, "Pa", position);
+            DataPtr uD = getScaledDataAtInUnit(reader, p_->vvComp.xWind, "m/s", position);
+            DataPtr vD = getScaledDataAtInUnit(reader, p_->vvComp.yWind, "m/s", position);
+            DataPtr tD = getScaledDataAtInUnit(reader, p_->vvComp.temp, "K", position);
+            if (psD->size() != nx * ny || uD->size() != nx * ny * nz || vD->size() != nx * ny * nz || tD->size() != nx * ny * nz) {
+                throw CDMException("addVerticalVelocity: unexpected size of pressure, wind or temperature");
+            }
+            if (MIFI_OK != mifi_compute_vertical_velocity(nx, ny, nz, p_->vvComp.dx, p_->vvComp.dy, p_->vvComp.gridDistX.get(), p_->vvComp.gridDistY.get(),
+                                                          apD->asDouble().get(), bD->asDouble().get(), zsD->asFloat().get(), psD->asFloat().get(),
+                                                          uD->asFloat().get(), vD->asFloat().get(), tD->asFloat().get(), w.get() + c * nx * ny * nz))
+            {
+                throw CDMException("addVerticalVelocity: cannot calculate mifi_compute_vertical_velocity");
+            }
         }
-        data = createData(nx*ny*nz, w);
+        data = createData(nx * ny * nz * count, w);
     } else if (varName == p_->geopotentialHeightVar && p_->altitudeConverter != nullptr) {
         // create a slice-builder from unLimDimPos
         SliceBuilder sb(*cdm_, p_->geopotentialHeightTemperatureVar);
-- 
2.43.0


From 0e9ee3bf49e990102c74fb30187bdd927bc05ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:24 +0000
Subject: [PATCH 157/188] fix: vertical velocity on grids with descending axes

The derivatives along a descending axis, e.g. latitudes from north to
south, had the wrong sign.
---
 src/CDMProcessor.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 9ae0b13..be8777a 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -252,10 +252,14 @@ void CDMProcessor::addVerticalVelocity()
                 vvc.nx = cdm_->getDimension(cs->getGeoXAxis()->getName()).getLength();
                 vvc.ny = cdm_->getDimension(cs->getGeoYAxis()->getName()).getLength();
                 vvc.nz = cdm_->getDimension(cs->getGeoZAxis()->getName()).getLength();
+                if (vvc.nx < 3 || vvc.ny < 3) {
+                    LOG4FIMEX(logger, Logger::WARN, "grid of '" << *xw << "' is too small, ignoring");
+                    continue;
+                }
                 auto xValues = p_->dataReader->getData(cs->getGeoXAxis()->getName())->asDouble();
-                vvc.dx = fabs(xValues[1] - xValues[0]);
+                vvc.dx = xValues[1] - xValues[0];
                 auto yValues = p_->dataReader->getData(cs->getGeoYAxis()->getName())->asDouble();
-                vvc.dy = fabs(yValues[1] - yValues[0]);
+                vvc.dy = yValues[1] - yValues[0];
 
                 vvc.yWind = p_->dataReader->getCDM().getVariable(*xw).getSpatialVectorCounterpart();
                 if (vvc.yWind != "") {
@@ -369,6 +373,13 @@ void CDMProcessor::addVerticalVelocity()
     if (MIFI_OK != mifi_griddistance(nx, ny, lonlon.get(), latlat.get(), gridDistX.get(), gridDistY.get())) {
         throw CDMException("addVerticalVelocity: cannot calculate griddistance");
     }
+    // wind components point along ascending axes, so distances along descending axes are negative
+    for (size_t ij = 0; ij < nx * ny; ++ij) {
+        if (vvcs.at(0).dx < 0)
+            gridDistX[ij] *= -1;
+        if (vvcs.at(0).dy < 0)
+            gridDistY[ij] *= -1;
+    }
     vvcs.at(0).gridDistX = gridDistX;
     vvcs.at(0).gridDistY = gridDistY;
 
-- 
2.43.0


From f5fb865b59fb5f59004475d71a212f143f60baa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:24 +0000
Subject: [PATCH 158/188] fix: vertical velocity uses geopotential height of
 upper levels as surface

The first level of a 3-dimensional geopotential (height) was taken for the
height of the surface.
---
 src/CDMProcessor.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index be8777a..adf510c 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -298,7 +298,9 @@ void CDMProcessor::addVerticalVelocity()
             if (gpCs.get()) {
                 CoordinateAxis_cp gxAxis = gpCs->getGeoXAxis();
                 CoordinateAxis_cp gyAxis = gpCs->getGeoYAxis();
-                if (gxAxis != 0 && gyAxis != 0) {
+                CoordinateAxis_cp gzAxis = gpCs->getGeoZAxis();
+                const bool surface = gzAxis == 0 || !gzAxis->isExplicit() || cdm_->getDimension(gzAxis->getName()).getLength() == 1;
+                if (gxAxis != 0 && gyAxis != 0 && surface) {
                     size_t gxSize = cdm_->getDimension(gxAxis->getName()).getLength();
                     size_t gySize = cdm_->getDimension(gyAxis->getName()).getLength();
                     if (vvcIt->nx == gxSize && vvcIt->ny == gySize) {
-- 
2.43.0


From 1d8998b19f23c1fecab4f08c557f0318767d1340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:24 +0000
Subject: [PATCH 159/188] fix: vertical velocity has no grid_mapping

---
 src/CDMProcessor.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index adf510c..e0c8ec3 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -391,9 +391,12 @@ void CDMProcessor::addVerticalVelocity()
     cdm_->addVariable(uavv);
     cdm_->addAttribute(uav, CDMAttribute("units", "m/s"));
     cdm_->addAttribute(uav, CDMAttribute("standard_name", "upward_air_velocity"));
-    CDMAttribute coords;
-    if (cdm_->getAttribute(vvcs.at(0).xWind, "coordinates", coords)) {
-        cdm_->addAttribute(uav, coords);
+    CDMAttribute attr;
+    if (cdm_->getAttribute(vvcs.at(0).xWind, "coordinates", attr)) {
+        cdm_->addAttribute(uav, attr);
+    }
+    if (cdm_->getAttribute(vvcs.at(0).xWind, "grid_mapping", attr)) {
+        cdm_->addAttribute(uav, attr);
     }
 
     // create a calculation-object for selecting slices
-- 
2.43.0


From 939b4db671a398b7d5094001558b4917430bcae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:31 +0000
Subject: [PATCH 160/188] fix: vertical velocity with levels ordered from the
 surface upwards

The integration started at the wrong end of the column.
---
 src/CDMProcessor.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index e0c8ec3..75bfaf1 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -597,6 +597,15 @@ static DataPtr getScaledDataAtInUnit(CDMReader_p reader, const std::string& varN
     return reader->getScaledDataSliceInUnit(varName, unit, sb);
 }
 
+template <typename T>
+static shared_array<T> reversedLevels(const shared_array<T>& in, size_t layerSize, size_t levels)
+{
+    auto out = make_shared_array<T>(layerSize * levels);
+    for (size_t k = 0; k < levels; ++k)
+        std::copy(&in[0] + k * layerSize, &in[0] + (k + 1) * layerSize, &out[0] + (levels - 1 - k) * layerSize);
+    return out;
+}
+
 DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPos)
 {
     LOG4FIMEX(logger, Logger::DEBUG, "getDataSlice for '" << varName << "' at " << unLimDimPos);
@@ -615,6 +624,12 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         assert(apD->size() == nz);
         DataPtr bD = reader->getScaledData(p_->vvComp.b);
         assert(bD->size() == nz);
+        // the calculation expects the uppermost level first
+        const bool reverse = nz > 1 && bD->asDouble()[0] > bD->asDouble()[nz - 1];
+        if (reverse) {
+            apD = createData(nz, reversedLevels(apD->asDouble(), 1, nz));
+            bD = createData(nz, reversedLevels(bD->asDouble(), 1, nz));
+        }
 
         // the dimensions after x, y and z, e.g. time or ensemble-member
         const vector<string>& shape = cdm_->getVariable(varName).getShape();
@@ -644,12 +659,22 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             if (psD->size() != nx * ny || uD->size() != nx * ny * nz || vD->size() != nx * ny * nz || tD->size() != nx * ny * nz) {
                 throw CDMException("addVerticalVelocity: unexpected size of pressure, wind or temperature");
             }
+            auto u = uD->asFloat(), v = vD->asFloat(), t = tD->asFloat();
+            if (reverse) {
+                u = reversedLevels(u, nx * ny, nz);
+                v = reversedLevels(v, nx * ny, nz);
+                t = reversedLevels(t, nx * ny, nz);
+            }
+            auto wc = make_shared_array<float>(nx * ny * nz);
             if (MIFI_OK != mifi_compute_vertical_velocity(nx, ny, nz, p_->vvComp.dx, p_->vvComp.dy, p_->vvComp.gridDistX.get(), p_->vvComp.gridDistY.get(),
                                                           apD->asDouble().get(), bD->asDouble().get(), zsD->asFloat().get(), psD->asFloat().get(),
-                                                          uD->asFloat().get(), vD->asFloat().get(), tD->asFloat().get(), w.get() + c * nx * ny * nz))
+                                                          u.get(), v.get(), t.get(), wc.get()))
             {
                 throw CDMException("addVerticalVelocity: cannot calculate mifi_compute_vertical_velocity");
             }
+            if (reverse)
+                wc = reversedLevels(wc, nx * ny, nz);
+            std::copy(wc.get(), wc.get() + nx * ny * nz, w.get() + c * nx * ny * nz);
         }
         data = createData(nx * ny * nz * count, w);
     } else if (varName == p_->geopotentialHeightVar && p_->altitudeConverter != nullptr) {
-- 
2.43.0


From 15f93ab90ca229cdc8f96bdd23117912ed7c11bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:29 +0000
Subject: [PATCH 161/188] fix: vertical velocity multiplies the surface
 geopotential by gravity

The height of the surface is the geopotential divided by gravity, i.e. its
value in the unit 9.80665 m^2/s^2, but 1/9.81 m^2/s^2 was used.
---
 src/CDMProcessor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 75bfaf1..1dbe969 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -316,7 +316,7 @@ void CDMProcessor::addVerticalVelocity()
                         if (stdName == "surface_altitude" || stdName == "altitude" || stdName == "geopotential_height") {
                             gpUnit = "m";
                         } else {
-                            gpUnit = "1/9.81*m^2/s^2"; // division of gepotential by gravity
+                            gpUnit = "9.80665*m^2/s^2"; // division of gepotential by gravity, see MIFI_EARTH_GRAVITY
                         }
                         DataPtr gpd;
                         try {
-- 
2.43.0


From 646ddad20b15996e522e6036d88765ae061d9c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:59 +0000
Subject: [PATCH 162/188] fix: felt level axis with configured values has a
 wrong number of values

Level values from the configuration were used even if the file contains
another number of levels.
---
 src/io/felt/FeltCDMReader2.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index 5686683..0e364ff 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -414,6 +414,10 @@ map<short, CDMDimension> FeltCDMReader2::initAddLevelDimensionsFromXML(const XML
         // data needed from level data (i.e. for hybrid_sigma levels)
         vector<double> lv = readValuesFromXPath(doc, xpathLevelString);
         DataPtr data;
+        if (!lv.empty() && lv.size() != static_cast<size_t>(levelSize)) {
+            LOG4FIMEX(logger, Logger::WARN, "configuration has " << lv.size() << " values for " << levelSize << " levels of '" << levelId << "', using levels from file");
+            lv.clear();
+        }
         if (lv.size() > 0) {
             // use values from xml-file
             data = createData(levelDataType, lv.begin(), lv.end());
-- 
2.43.0


From e88c1c5bb1a9137118fe158ce6746b6e22f1545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:18 +0000
Subject: [PATCH 163/188] fix: felt fields with another size than the variable
 overrun the buffer

An assertion, disabled in release builds, was the only check.
---
 src/io/felt/FeltCDMReader2.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index 0e364ff..d52331e 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -733,7 +733,9 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
                 } catch (NoSuchField_Felt_File_Error nsfe) {
                     levelData = createData(variable.getDataType(), xDim * yDim, cdm_->getFillValue(varName));
                 }
-                assert(levelData->size() == (xDim * yDim));
+                if (levelData->size() * layerVals.size() != data->size()) {
+                    throw CDMException("unexpected size of a field of variable " + variable.getName());
+                }
                 data->setValues(dataCurrentPos, *levelData, 0, levelData->size());
                 dataCurrentPos += levelData->size();
             }
-- 
2.43.0


From 67de5aab7c8d443ea3e0c67102f93c198981f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:33 +0000
Subject: [PATCH 164/188] fix: scanning paths mixes up the names of sibling
 directories

---
 src/FileUtils.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FileUtils.cc b/src/FileUtils.cc
index a50151d..2fe94ae 100644
--- a/src/FileUtils.cc
+++ b/src/FileUtils.cc
@@ -152,7 +152,7 @@ filetype_t file_type(const path_t& path)
 
 // internal implementation of scanFiles
 static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int depth, const std::regex& regexp, bool matchFileOnly,
-                       std::string currentRelDir = "", int depthCount = 0)
+                       const std::string& currentRelDir = "", int depthCount = 0)
 {
     LOG4FIMEX(logger, Logger::DEBUG, "scanning directory " + path_string(dir));
     if (depthCount > 1000) {
@@ -163,11 +163,12 @@ static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int d
         const filetype_t ft = file_type(e);
         if (ft == DIRECTORY) {
             if (depth != 0) {
+                std::string relDir;
                 if (!matchFileOnly) {
                     // remember the directory behind start-directory
-                    currentRelDir += path_filename_string(e) + "/";
+                    relDir = currentRelDir + path_filename_string(e) + "/";
                 }
-                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, currentRelDir, depthCount + 1);
+                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, relDir, depthCount + 1);
             }
         } else if (ft == REGULAR_FILE) {
             const std::string filename = (matchFileOnly ? "" : currentRelDir) + path_filename_string(e);
-- 
2.43.0


From fe95c47ace5c7f25602d974cfea35ed4430f8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:33 +0000
Subject: [PATCH 165/188] fix: 64-bit offset and 64-bit data netcdf files are
 not recognized

---
 src/io/netcdf/NetCDFIoFactory.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/io/netcdf/NetCDFIoFactory.cc b/src/io/netcdf/NetCDFIoFactory.cc
index 5f4ddcb..a63fe36 100644
--- a/src/io/netcdf/NetCDFIoFactory.cc
+++ b/src/io/netcdf/NetCDFIoFactory.cc
@@ -61,12 +61,13 @@ bool detectHDF5(const char* magic)
 
 bool detectNetCDF(const char* magic)
 {
-    const char* netcdf = "CDF\001";
-    for (int i = 0; i < 4; i++) {
+    const char* netcdf = "CDF";
+    for (int i = 0; i < 3; i++) {
         if (netcdf[i] != magic[i])
             return false;
     }
-    return true;
+    // classic, 64-bit offset, 64-bit data
+    return magic[3] == '\001' || magic[3] == '\002' || magic[3] == '\005';
 }
 
 bool isNetCDF4Type(const std::string& type)
@@ -119,7 +120,7 @@ size_t NetCDFIoFactory::matchMagicSize()
 
 int NetCDFIoFactory::matchMagic(const char* magic, size_t count)
 {
-    if ((count >= 4 && detectHDF5(magic)) || (count >= 7 && detectNetCDF(magic)))
+    if ((count >= 7 && detectHDF5(magic)) || (count >= 4 && detectNetCDF(magic)))
         return 1;
     return 0;
 }
-- 
2.43.0


From b213272ceab5c8fefb3f5346f09166257e91b735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:33 +0000
Subject: [PATCH 166/188] fix: glob of netcdf files fails for file names with
 spaces or xml characters

---
 src/io/netcdf/NetCDFIoFactory.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/io/netcdf/NetCDFIoFactory.cc b/src/io/netcdf/NetCDFIoFactory.cc
index a63fe36..99ecd68 100644
--- a/src/io/netcdf/NetCDFIoFactory.cc
+++ b/src/io/netcdf/NetCDFIoFactory.cc
@@ -35,12 +35,13 @@
 #include "NetCDF_CDMWriter.h"
 #undef MIFI_IO_READER_SUPPRESS_DEPRECATED
 
+#include "fimex/AggregationReader.h"
 #include "fimex/CDMException.h"
 #include "fimex/FileUtils.h"
 #include "fimex/IoPlugin.h"
 #include "fimex/NcmlCDMReader.h"
 #include "fimex/StringUtils.h"
-#include "fimex/XMLInputString.h"
+#include "fimex/XMLInput.h"
 
 #include <regex>
 #include <set>
@@ -180,15 +181,12 @@ CDMReader_p NetCDFIoFactory::createReader(const std::string& fileTypeName, const
         std::string glob = fileName.substr(globStr.size());
         std::vector<std::string> files;
         globFiles(files, glob);
-        std::ostringstream ncml;
-        ncml << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" << std::endl
-             << "<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">"
-             << "<aggregation type=\"joinExisting\">";
-        for (size_t i = 0; i < files.size(); ++i) {
-            ncml << "<netcdf location=\"" << files.at(i) << "\" />";
+        auto agg = std::make_shared<AggregationReader>("joinExisting");
+        for (const auto& file : files) {
+            agg->addReader(std::make_shared<NetCDF_CDMReader>(file, false), file, "");
         }
-        ncml << "</aggregation></netcdf>";
-        reader = std::make_shared<NcmlCDMReader>(XMLInputString(ncml.str()));
+        agg->initAggregation();
+        reader = agg;
     } else {
         std::string file = fileName;
 
-- 
2.43.0


From b6919c9d1f6de0ef02b7f987d6d7caca0ec87173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:46 +0000
Subject: [PATCH 167/188] fix: netcdf files with file: prefix cannot be opened
 for writing

---
 src/io/netcdf/NetCDFIoFactory.cc | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/io/netcdf/NetCDFIoFactory.cc b/src/io/netcdf/NetCDFIoFactory.cc
index 99ecd68..30ad9dd 100644
--- a/src/io/netcdf/NetCDFIoFactory.cc
+++ b/src/io/netcdf/NetCDFIoFactory.cc
@@ -112,6 +112,14 @@ bool isNetCDFZarrFile(const std::string& file)
     return std::regex_match(file, zarr_file_match, zarr_file);
 }
 
+//! remove file: URL-prefix, except for zarr
+std::string removeFilePrefix(const std::string& file)
+{
+    if (isNetCDFZarrFile(file))
+        return file;
+    return std::regex_replace(file, std::regex("^file:"), "", std::regex_constants::format_first_only);
+}
+
 } // namespace
 
 size_t NetCDFIoFactory::matchMagicSize()
@@ -188,12 +196,7 @@ CDMReader_p NetCDFIoFactory::createReader(const std::string& fileTypeName, const
         agg->initAggregation();
         reader = agg;
     } else {
-        std::string file = fileName;
-
-        // remove file: URL-prefix, except for zarr
-        if (!isNetCDFZarrFile(file)) {
-            file = std::regex_replace(file, std::regex("^file:"), "", std::regex_constants::format_first_only);
-        }
+        std::string file = removeFilePrefix(fileName);
 
         // java-netcdf allows dods: prefix for dods-files while netcdf-C requires http:
         file = std::regex_replace(file, std::regex("^dods:"), "http:", std::regex_constants::format_first_only);
@@ -209,7 +212,7 @@ CDMReaderWriter_p NetCDFIoFactory::createReaderWriter(const std::string&, const
 {
     if (!config.isEmpty())
         throw CDMException("Cannot open writeable NetCDF file with Ncml config: " + config.id());
-    return std::make_shared<NetCDF_CDMReader>(fileName, true);
+    return std::make_shared<NetCDF_CDMReader>(removeFilePrefix(fileName), true);
 }
 
 void NetCDFIoFactory::createWriter(CDMReader_p input, const std::string& fileTypeName, const std::string& fileName, const XMLInput& config)
-- 
2.43.0


From 65091505548a86c24fe09adf64096ea0f1821824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:46 +0000
Subject: [PATCH 168/188] fix: grib index with other file extension is read as
 grib

---
 src/io/grib/GribIoFactory.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribIoFactory.cc b/src/io/grib/GribIoFactory.cc
index 6349877..9af58a9 100644
--- a/src/io/grib/GribIoFactory.cc
+++ b/src/io/grib/GribIoFactory.cc
@@ -56,6 +56,17 @@ bool isGrib2Type(const std::string& type)
     return (type == "grb2" || type == "grib2");
 }
 
+bool isGribProtobufIndex(const std::string& fileName)
+{
+#ifdef HAVE_PROTOBUF
+    std::string magic(getGribProtobufIndexMagicSize(), 0);
+    std::ifstream file(fileName, std::ios::binary);
+    return file.read(&magic[0], magic.size()) && checkGribProtobufIndexMagic(magic.data(), magic.size());
+#else
+    return false;
+#endif
+}
+
 } // namespace
 
 const char FILETYPE_GRBML[] = "grbml";
@@ -133,7 +144,7 @@ CDMReader_p GribIoFactory::createReader(const std::string& fileTypeName, const s
             throw CDMException("config file required for grbml-files");
         }
         return std::make_shared<GribCDMReader>(fileName, configXML, members);
-    } else if (fileTypeName == FILETYPE_GRBFP || getExtension(fileName) == FILETYPE_GRBFP) {
+    } else if (fileTypeName == FILETYPE_GRBFP || getExtension(fileName) == FILETYPE_GRBFP || isGribProtobufIndex(fileName)) {
         return std::make_shared<GribCDMReader>(fileName, configXML);
     } else {
         std::vector<std::string> files;
-- 
2.43.0


From 20cd856735cad4bb5c4882d8a7bc0429f5b11dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:24 +0000
Subject: [PATCH 169/188] fix: python createData of arrays which are not
 contiguous

The elements were read one after the other from memory, so views with steps,
reversed, transposed or Fortran-ordered arrays gave wrong values.
---
 modules/python/pyfimex0_Data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/python/pyfimex0_Data.cc b/modules/python/pyfimex0_Data.cc
index ec9a818..d8b2cba 100644
--- a/modules/python/pyfimex0_Data.cc
+++ b/modules/python/pyfimex0_Data.cc
@@ -99,7 +99,7 @@ py::object Data_values(DataPtr data)
 }
 
 template <class T>
-DataPtr create_NpArrayData(py::array_t<T> nparray)
+DataPtr create_NpArrayData(py::array_t<T, py::array::c_style | py::array::forcecast> nparray)
 {
     py::buffer_info req = nparray.request();
     shared_array<T> arr((T*)req.ptr, py_object_deleter(nparray));
-- 
2.43.0


From 917a270cdeccc0e8c488eae519a8823ce9e80463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:24 +0000
Subject: [PATCH 170/188] fix: python createData never released the array

object::release() does not decrease the reference count.
---
 modules/python/pyfimex0_Data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/python/pyfimex0_Data.cc b/modules/python/pyfimex0_Data.cc
index d8b2cba..1b3462d 100644
--- a/modules/python/pyfimex0_Data.cc
+++ b/modules/python/pyfimex0_Data.cc
@@ -46,7 +46,7 @@ struct py_object_deleter
     void operator()(void*)
     {
         py::gil_scoped_acquire acquire;
-        po_->release();
+        po_.reset();
     }
 
     std::unique_ptr<py::object> po_;
-- 
2.43.0


From f2962c4324a308e05c88fad2d3c52a3e70603428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:24 +0000
Subject: [PATCH 171/188] fix: python createNetCDFWriter version 3 wrote
 netCDF-4 files

---
 modules/python/pyfimex0_CDMWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/python/pyfimex0_CDMWriter.cc b/modules/python/pyfimex0_CDMWriter.cc
index 701b0a1..d5f7290 100644
--- a/modules/python/pyfimex0_CDMWriter.cc
+++ b/modules/python/pyfimex0_CDMWriter.cc
@@ -44,7 +44,7 @@ void createNetCDFWriter_4(CDMReader_p reader, const std::string& filename, const
     if (version != 3 && version != 4)
         throw CDMException("pyfimex createNetCDFWriter only supports version 3 or 4");
 
-    const std::string filetype = (version == 4) ? "nc4" : "netcdf";
+    const std::string filetype = (version == 4) ? "nc4" : "nc3";
     PY_GIL_RELEASE;
     createWriter(reader, filetype, filename, configfile);
 }
-- 
2.43.0


From 168645bc2b6f746bce77bcf688ef12cb9b262582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:20 +0000
Subject: [PATCH 172/188] fix: crash reading scaled data where the reader has
 no data

Aggregations return a null pointer for positions outside of the joined
dimension.
---
 src/CDMReader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index c4df423..376e6cf 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -177,6 +177,9 @@ void CDMReader::getScaleAndOffsetOf(const std::string& varName, double& scale, d
 // handle data scaling using add_offset, scale_factor and _FillValue from the varName variable
 DataPtr CDMReader::scaleDataOf(const std::string& varName, DataPtr data, double unitScale, double unitOffset)
 {
+    if (!data)
+        return data;
+
     // retrieve scale and offset
     double scale, offset;
     getScaleAndOffsetOf(varName, scale, offset);
@@ -194,6 +197,9 @@ DataPtr CDMReader::scaleDataOf(const std::string& varName, DataPtr data, double
 
 DataPtr CDMReader::scaleDataOf(const std::string& varName, DataPtr data, UnitsConverter_p uc)
 {
+    if (!data)
+        return data;
+
     // retrieve scale and offset
     double scale, offset;
     getScaleAndOffsetOf(varName, scale, offset);
-- 
2.43.0


From f590546b7f2b60f97e76f7ca0d57cfcecbbceffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:20 +0000
Subject: [PATCH 173/188] fix: python readers stopped working when only other
 readers used them

The Python part of a reader written in Python was destroyed with its last
Python reference, although an extractor, interpolator, ... still used the
reader, and reading failed with "Tried to call pure virtual function".
---
 modules/python/pyfimex0_AggregationReader.cc       | 6 +++---
 modules/python/pyfimex0_CDMExtractor.cc            | 2 +-
 modules/python/pyfimex0_CDMInterpolator.cc         | 2 +-
 modules/python/pyfimex0_CDMMerger.cc               | 2 +-
 modules/python/pyfimex0_CDMTimeInterpolator.cc     | 2 +-
 modules/python/pyfimex0_CDMVerticalInterpolator.cc | 2 +-
 modules/python/pyfimex0_NcmlCDMReader.cc           | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/modules/python/pyfimex0_AggregationReader.cc b/modules/python/pyfimex0_AggregationReader.cc
index 923207d..dd1ec6e 100644
--- a/modules/python/pyfimex0_AggregationReader.cc
+++ b/modules/python/pyfimex0_AggregationReader.cc
@@ -66,14 +66,14 @@ void addReader3(AggregationReader_p agg, CDMReader_p rd, const std::string& id,
 void pyfimex0_AggregationReader(py::module m)
 {
     py::class_<AggregationReader, AggregationReader_p, CDMReader>(m, "_AggregationReader")
-        .def("addReader", addReader1,
+        .def("addReader", addReader1, py::keep_alive<1, 2>(),
              "Add a reader.\n\n"
              ":param reader: a CDMReader\n")
-        .def("addReader", addReader2,
+        .def("addReader", addReader2, py::keep_alive<1, 2>(),
              "Add a reader.\n\n"
              ":param reader: a CDMReader\n"
              ":param id: optional reader id (for debug messages)\n")
-        .def("addReader", addReader3,
+        .def("addReader", addReader3, py::keep_alive<1, 2>(),
              "Add a reader.\n\n"
              ":param reader: a CDMReader\n"
              ":param id: optional reader id (for debug messages)\n"
diff --git a/modules/python/pyfimex0_CDMExtractor.cc b/modules/python/pyfimex0_CDMExtractor.cc
index 26942f0..45602f5 100644
--- a/modules/python/pyfimex0_CDMExtractor.cc
+++ b/modules/python/pyfimex0_CDMExtractor.cc
@@ -130,5 +130,5 @@ void pyfimex0_CDMExtractor(py::module m)
              " auxiliary variables needed by the selected variables\n\n"
              ":param variables: iterable specifying variables to select\n");
 
-    m.def("createExtractor", createExtractor);
+    m.def("createExtractor", createExtractor, py::keep_alive<0, 1>());
 }
diff --git a/modules/python/pyfimex0_CDMInterpolator.cc b/modules/python/pyfimex0_CDMInterpolator.cc
index 046802f..7ca2505 100644
--- a/modules/python/pyfimex0_CDMInterpolator.cc
+++ b/modules/python/pyfimex0_CDMInterpolator.cc
@@ -130,5 +130,5 @@ void pyfimex0_CDMInterpolator(py::module m)
              ":param lonVals: longitude values in degree\n"
              ":param latVals: latitude values in degree (same size as lonvals)\n");
 
-    m.def("createInterpolator", createInterpolator);
+    m.def("createInterpolator", createInterpolator, py::keep_alive<0, 1>());
 }
diff --git a/modules/python/pyfimex0_CDMMerger.cc b/modules/python/pyfimex0_CDMMerger.cc
index 5758746..0c28c3c 100644
--- a/modules/python/pyfimex0_CDMMerger.cc
+++ b/modules/python/pyfimex0_CDMMerger.cc
@@ -85,5 +85,5 @@ void pyfimex0_CDMMerger(py::module m)
     ;
     // clang-format on
 
-    m.def("createMerger", createMerger);
+    m.def("createMerger", createMerger, py::keep_alive<0, 1>(), py::keep_alive<0, 2>());
 }
diff --git a/modules/python/pyfimex0_CDMTimeInterpolator.cc b/modules/python/pyfimex0_CDMTimeInterpolator.cc
index 8208334..7cca962 100644
--- a/modules/python/pyfimex0_CDMTimeInterpolator.cc
+++ b/modules/python/pyfimex0_CDMTimeInterpolator.cc
@@ -51,5 +51,5 @@ void pyfimex0_CDMTimeInterpolator(py::module m)
              "Change the time-axis from from the one given to a new specification.\n\n"
              ":param timeSpec: string of time-specification\n");
 
-    m.def("createTimeInterpolator", createTimeInterpolator);
+    m.def("createTimeInterpolator", createTimeInterpolator, py::keep_alive<0, 1>());
 }
diff --git a/modules/python/pyfimex0_CDMVerticalInterpolator.cc b/modules/python/pyfimex0_CDMVerticalInterpolator.cc
index 8724e12..f65996d 100644
--- a/modules/python/pyfimex0_CDMVerticalInterpolator.cc
+++ b/modules/python/pyfimex0_CDMVerticalInterpolator.cc
@@ -58,5 +58,5 @@ void pyfimex0_CDMVerticalInterpolator(py::module m)
             ":param igore: if true, ignore validity max, else do not ignore\n")
         ;
 
-    m.def("createVerticalInterpolator", createVerticalInterpolator);
+    m.def("createVerticalInterpolator", createVerticalInterpolator, py::keep_alive<0, 1>());
 }
diff --git a/modules/python/pyfimex0_NcmlCDMReader.cc b/modules/python/pyfimex0_NcmlCDMReader.cc
index 6af88f9..8527b69 100644
--- a/modules/python/pyfimex0_NcmlCDMReader.cc
+++ b/modules/python/pyfimex0_NcmlCDMReader.cc
@@ -77,6 +77,6 @@ void pyfimex0_NcmlCDMReader(py::module m)
 
     m.def("createNcmlReader", createNcmlReader1,
           "Create a NcML reader using sources specified in the ncml file or inline xml.");
-    m.def("createNcmlReader", createNcmlReader2,
+    m.def("createNcmlReader", createNcmlReader2, py::keep_alive<0, 1>(),
           "Create a NcML reader using the specified source and the ncml file or inline xml.");
 }
-- 
2.43.0


From 4a157c8c960364bcf22926c1cde80310793b27fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:00 +0000
Subject: [PATCH 174/188] fix: WRF coordinate systems could not be listed

Variables of type int were given float data, which is an exception.
---
 src/coordSys/WRFCoordSysBuilder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 2f221e1..7f6aed6 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -394,7 +394,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
                     + refdatetime.at(1) + " +0000";
             cdm.addAttribute(reftime, CDMAttribute("units", refunits));
             cdm.addAttribute(reftime, CDMAttribute("standard_name", reftime));
-            auto refvals = make_shared_array<float>(1);
+            auto refvals = make_shared_array<int>(1);
             refvals[0] = 0;
             cdm.getVariable(reftime).setData(createData(1, refvals));
         }
@@ -437,7 +437,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
                             vector<string> myshape(1, *dimIt);
                             cdm.addVariable(CDMVariable(*dimIt, CDM_INT, myshape));
                             size_t dimSize = cdm.getDimension(*dimIt).getLength();
-                            auto vals = make_shared_array<float>(dimSize);
+                            auto vals = make_shared_array<int>(dimSize);
                             for (size_t i = 0; i < dimSize; i++) {
                                 vals[i] = i;
                             }
-- 
2.43.0


From f61e63eb74b2eeb06aa974a656a95276a72dcb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:48 +0000
Subject: [PATCH 175/188] fix: WRF grids were not at their place

reproject_values uses degrees, but the centre of the grid was given in radians.
---
 src/coordSys/WRFCoordSysBuilder.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 7f6aed6..a75446f 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -158,14 +158,9 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
     proj4 << " +R=" << R0 << " +no_defs";
     //cerr << proj4.str() << endl;
     Projection_p proj = Projection::createByProj4(proj4.str());
-    double centerX = deg_to_rad(centralLon);
-    double centerY = deg_to_rad(centralLat);
+    double centerX = centralLon;
+    double centerY = centralLat;
     reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, proj4.str(), &centerX, &centerY, 1);
-    if (isLatLon) {
-        centerX = rad_to_deg(centerX);
-        centerY = rad_to_deg(centerY);
-    }
-
     // TODO: the following variables might be called uninitialized when the coordinate-system
     //       is build twice
 
-- 
2.43.0


From 3bb9b14e76f80e0258fe84bc016bce4cbe4d2416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:48 +0000
Subject: [PATCH 176/188] fix: times of WRF files were guessed although there
 is a 'Times' variable

---
 src/coordSys/WRFCoordSysBuilder.cc | 39 +++++++++++++-----------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index a75446f..5009076 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -326,7 +326,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
             string units;
             size_t dimSize = cdm.getDimension(Time).getLength();
             auto vals = make_shared_array<float>(dimSize);
-            if (reader) {
+            if (!cdm.hasVariable("Times")) {
                 // try to guess the time-steps
                 string start = cdm.getAttribute(cdm.globalAttributeNS(),
                         "START_DATE").getStringValue();
@@ -350,29 +350,24 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
             } else {
                 // try to read the time from the data-reader TIMES-variable
                 // Times is usually given as 'YYYY-MM-DD_HH:MM:SS' in UTM as string
-                if (cdm.hasVariable("Times")) {
-                    SliceBuilder sb(cdm, "Times");
-                    size_t timeSize = cdm.getDimension("Time").getLength();
-                    time_point ptFirst;
-                    for (size_t i = 0; i < timeSize; ++i) {
-                        sb.setStartAndSize("Time", i, 1);
-                        DataPtr data = reader->getDataSlice("Times", sb);
-                        // define units and set time in that unit as float to vals
-                        string thisTime = data->asString();
-                        if (thisTime.find("_") != string::npos) {
-                            thisTime = thisTime.replace(thisTime.find("_"), 1, " "); // replace _ with space
-                        }
-                        time_point pt = make_time_from_string(thisTime);
-                        if (i == 0) {
-                            ptFirst = pt;
-                            units = "hours since " + make_time_string_extended(ptFirst);
-                        }
-                        vals[i] = std::chrono::duration_cast<std::chrono::seconds>(pt - ptFirst).count() / 3600.0;
+                SliceBuilder sb(cdm, "Times");
+                size_t timeSize = cdm.getDimension("Time").getLength();
+                time_point ptFirst;
+                for (size_t i = 0; i < timeSize; ++i) {
+                    sb.setStartAndSize("Time", i, 1);
+                    DataPtr data = reader->getDataSlice("Times", sb);
+                    // define units and set time in that unit as float to vals
+                    string thisTime = data->asString();
+                    if (thisTime.find("_") != string::npos) {
+                        thisTime = thisTime.replace(thisTime.find("_"), 1, " "); // replace _ with space
                     }
-                } else {
-                    LOG4FIMEX(logger, Logger::ERROR, "no 'Times' variable in WRF found, time-dimension will give wrong results");
+                    time_point pt = make_time_from_string(thisTime);
+                    if (i == 0) {
+                        ptFirst = pt;
+                        units = "hours since " + make_time_string_extended(ptFirst);
+                    }
+                    vals[i] = std::chrono::duration_cast<std::chrono::seconds>(pt - ptFirst).count() / 3600.0;
                 }
-
             }
             cdm.addVariable(CDMVariable(Time, CDM_FLOAT, shape));
             cdm.addAttribute(Time, CDMAttribute("units", units));
-- 
2.43.0


From 95aab0def845738d008b44e9c11a943045226714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:24 +0000
Subject: [PATCH 177/188] fix: polar-stereographic WRF grids not centred at the
 pole

WRF projects from the pole (module_llxy.F, set_ps), not from the centre of the
grid; only the scale at TRUELAT1 was that of the polar projection.
---
 src/coordSys/WRFCoordSysBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 5009076..5b58828 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -137,7 +137,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
         proj4 << "+proj=stere";
         {
             double lon0 = (mifi_isnan(standardLon)) ? centralLon : standardLon;
-            double lat0 = (mifi_isnan(centralLat)) ? lat2 : centralLat;
+            double lat0 = (lat1 < 0) ? -90 : 90; // WRF is always polar, in the hemisphere of TRUELAT1
             double k = (1 + fabs(sin(deg_to_rad(lat1)))) / 2.;
             proj4 << " +lon_0="<<lon0<<" +lat_0="<<lat0<<" +k="<<k;
         }
-- 
2.43.0


From 33efeeb5da3f95e88f195acfa91aa8f300b06b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:24 +0000
Subject: [PATCH 178/188] fix: Mercator WRF grids with TRUELAT1 other than 0

DX and DY are true at TRUELAT1 (module_llxy.F, set_merc); PROJ ignores lat_0 for
Mercator.
---
 src/coordSys/WRFCoordSysBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 5b58828..3f0f4d0 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -143,7 +143,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
         }
         break;
     case 3:
-        proj4 << "+proj=merc +lon_0="<<standardLon<<" +lat_0="<<standardLat;
+        proj4 << "+proj=merc +lon_0="<<standardLon<<" +lat_ts="<<lat1;
         break;
     case 6:
         // rotert sperical
-- 
2.43.0


From a503684729e6fcb2b8742085290e5b5fe0b74ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:24 +0000
Subject: [PATCH 179/188] fix: projection parameters of WRF grids with more
 than 6 digits

---
 src/coordSys/WRFCoordSysBuilder.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 3f0f4d0..75f2a1b 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -127,6 +127,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
     double poleLon = findAttributeDouble(cdm, "POLE_LON");
 
     std::stringstream proj4;
+    proj4.precision(12);
     bool isLatLon = false;
     int map_proj = cdm.getAttribute(cdm.globalAttributeNS(), "MAP_PROJ").getData()->asInt()[0];
     switch (map_proj) {
-- 
2.43.0


From 69e6ebf09cf5529684d701878824e48662475537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:50 +0000
Subject: [PATCH 180/188] fix: interpolation of grids sharing one axis, e.g.
 staggered WRF winds

The shared axis was removed although it was the axis of the new grid, and the
interpolation failed.
---
 src/CDMInterpolator.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 00890c6..16af72d 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -769,6 +769,7 @@ void changeCDM(CDM& cdm, const string& proj_input, const map<string, CoordinateS
     string newProj = getProjectionName(proj_input);
     string newXAxis;
     string newYAxis;
+    std::set<std::string> oldAxes; // axes not used any more
     for (map<string, CoordinateSystem_cp>::const_iterator csi = csMap.begin(); csi != csMap.end(); ++csi) {
         CoordinateSystem_cp cs = csi->second;
         if (cs->hasProjection()) {
@@ -805,10 +806,8 @@ void changeCDM(CDM& cdm, const string& proj_input, const map<string, CoordinateS
                 replace(shape.begin(), shape.end(), orgYAxis, newYAxis);
                 cdm.getVariable(v).setShape(shape);
             }
-            cdm.removeVariable(orgXAxis);
-            cdm.removeVariable(orgYAxis);
-            projectionVariables.erase(orgXAxis);
-            projectionVariables.erase(orgYAxis);
+            oldAxes.insert(orgXAxis);
+            oldAxes.insert(orgYAxis);
         }
 
         // remove projection and coordinates (lon lat)
@@ -821,11 +820,14 @@ void changeCDM(CDM& cdm, const string& proj_input, const map<string, CoordinateS
             projectionVariables.erase(latAxis->getName());
             projectionVariables.erase(lonAxis->getName());
         }
-        if (orgXAxis != newXAxis) {
-            cdm.removeDimension(orgXAxis);
-            cdm.removeDimension(orgYAxis);
+    }
+    for (const std::string& axis : oldAxes) {
+        // grids might share one of the axes, e.g. staggered grids
+        if (axis != newXAxis && axis != newYAxis) {
+            cdm.removeVariable(axis);
+            projectionVariables.erase(axis);
+            cdm.removeDimension(axis);
         }
-
     }
     assert(newXAxis.size() != 0);
     assert(newYAxis.size() != 0);
-- 
2.43.0


From e25d3219df64223c4f39af2619b898cbb67b1504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:49 +0000
Subject: [PATCH 181/188] fix: longitude axes crossing 0 or 180 degrees other
 than as -180..180 or 0..360

Points were not found on axes as -190..-170 or 350..370, nor less than half a
grid cell outside of axes starting or ending at 0.
---
 src/interpolation.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 41c58e7..dacb29d 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -161,19 +161,11 @@ int mifi_points2position(double* points, const int n, const double* axis, const
         comparator = descendingDoubleComparator;
 
     if (axis_type == MIFI_LONGITUDE) {
-        // decide if longitude axis is -180 to 180
-        if (axis[0] < 0 || axis[num-1] < 0) {
-            // change points > 180
-            for (int i = 0; i < n; i++) {
-                if (points[i] > HALF_CIRCLE_ANGLE)
-                    points[i] -= 2 * HALF_CIRCLE_ANGLE;
-            }
-        } else {
-            // change negative points (0-360)
-            for (int i = 0; i < n; i++) {
-                if (points[i] < 0)
-                    points[i] += 2 * HALF_CIRCLE_ANGLE;
-            }
+        // move points to at most 180 degrees from the middle of the axis
+        const double middle = (axis[0] + axis[num-1]) / 2;
+        for (int i = 0; i < n; i++) {
+            if (fabs(points[i] - middle) > HALF_CIRCLE_ANGLE)
+                points[i] -= 2 * HALF_CIRCLE_ANGLE * floor((points[i] - middle) / (2 * HALF_CIRCLE_ANGLE) + 0.5);
         }
         double nextOnAxis = axis[num-1] + (num > 1 ? axis[1]-axis[0] : 0)*1.01; // slightly enlarged gitter-distance to avoid numerics
         if (axis[0] < axis[num-1]) { // ascending
-- 
2.43.0


From 561391c88af8ca376014706f7b03e6b6346e1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:25 +0000
Subject: [PATCH 182/188] fix: Fortran crashed, or returned garbage, for names
 at positions that are not there and of closed files

---
 modules/F90/fimex.f90 | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/modules/F90/fimex.f90 b/modules/F90/fimex.f90
index 4090ae5..bef59e9 100644
--- a/modules/F90/fimex.f90
+++ b/modules/F90/fimex.f90
@@ -512,16 +512,19 @@ MODULE Fimex
     CHARACTER(LEN=1024)            :: get_file_ulim_dimension_name
 
     CHARACTER(KIND=C_CHAR), POINTER, DIMENSION(:) :: var_array
+    TYPE(C_PTR)                      :: c_name
     INTEGER                          :: i
 
+    get_file_ulim_dimension_name = ""
     IF ( .not. C_ASSOCIATED(this%io) ) THEN
       RETURN
     ENDIF
-    CALL C_F_POINTER(c_mifi_get_unlimited_dimension_name(this%io), var_array, (/1024/))
-    get_file_ulim_dimension_name = ""
+    c_name = c_mifi_get_unlimited_dimension_name(this%io)
+    IF ( .not. C_ASSOCIATED(c_name) ) RETURN
+    CALL C_F_POINTER(c_name, var_array, (/1024/))
     DO i = 1, 1024
       if (var_array(i) == C_NULL_CHAR) EXIT
-      get_file_ulim_dimension_name(i:i+1) = var_array(i)
+      get_file_ulim_dimension_name(i:i) = var_array(i)
     END DO
     RETURN
   END FUNCTION get_file_ulim_dimension_name
@@ -553,19 +556,22 @@ MODULE Fimex
     CHARACTER(LEN=1024)            :: get_file_dimension_name
 
     CHARACTER(KIND=C_CHAR), POINTER, DIMENSION(:) :: var_array
+    TYPE(C_PTR)                      :: c_name
     INTEGER                          :: i
     INTEGER(KIND=C_LONG_LONG)           :: posT
 
+    get_file_dimension_name = ""
     IF ( .not. C_ASSOCIATED(this%io) ) THEN
       RETURN
     ENDIF
     ! fortran -> c position
     posT = pos - 1
-    CALL C_F_POINTER(c_mifi_get_dimension_name(this%io, posT), var_array, (/1024/))
-    get_file_dimension_name = ""
+    c_name = c_mifi_get_dimension_name(this%io, posT)
+    IF ( .not. C_ASSOCIATED(c_name) ) RETURN
+    CALL C_F_POINTER(c_name, var_array, (/1024/))
     DO i = 1, 1024
       if (var_array(i) == C_NULL_CHAR) EXIT
-      get_file_dimension_name(i:i+1) = var_array(i)
+      get_file_dimension_name(i:i) = var_array(i)
     END DO
     RETURN
   END FUNCTION get_file_dimension_name
@@ -598,19 +604,22 @@ MODULE Fimex
     CHARACTER(LEN=1024)            :: get_variable_name
 
     CHARACTER(KIND=C_CHAR), POINTER, DIMENSION(:) :: var_array
+    TYPE(C_PTR)                      :: c_name
     INTEGER                          :: i
     INTEGER(KIND=C_LONG_LONG)           :: posT
 
+    get_variable_name = ""
     IF ( .not. C_ASSOCIATED(this%io) ) THEN
       RETURN
     ENDIF
     ! fortran -> c position
     posT = pos - 1
-    CALL C_F_POINTER(c_mifi_get_variable_name(this%io, posT), var_array, (/1024/))
-    get_variable_name = ""
+    c_name = c_mifi_get_variable_name(this%io, posT)
+    IF ( .not. C_ASSOCIATED(c_name) ) RETURN
+    CALL C_F_POINTER(c_name, var_array, (/1024/))
     DO i = 1, 1024
       if (var_array(i) == C_NULL_CHAR) EXIT
-      get_variable_name(i:i+1) = var_array(i)
+      get_variable_name(i:i) = var_array(i)
     END DO
     RETURN
   END FUNCTION get_variable_name
@@ -784,11 +793,11 @@ MODULE Fimex
     CHARACTER(LEN=1025)            :: var_array
     INTEGER                        :: i
 
+    get_var_longitude = ""
     IF ( .not. C_ASSOCIATED(this%io) ) THEN
       RETURN
     ENDIF
     i = c_mifi_get_var_longitude(this%io, TRIM(varName)//C_NULL_CHAR, var_array, 1025)
-    get_var_longitude = ""
     IF (i >= 2) THEN
        i = i - 1
        get_var_longitude(1:i) = var_array(1:i)
@@ -810,11 +819,11 @@ MODULE Fimex
     CHARACTER(LEN=1025)            :: var_array
     INTEGER                          :: i
 
+    get_var_latitude = ""
     IF ( .not. C_ASSOCIATED(this%io) ) THEN
       RETURN
     ENDIF
     i = c_mifi_get_var_latitude(this%io, TRIM(varName)//C_NULL_CHAR, var_array, 1025)
-    get_var_latitude = ""
     IF (i >= 2) THEN
        i = i - 1
        get_var_latitude(1:i) = var_array(1:i)
-- 
2.43.0


From a53f83cee32e8d51de90f715461b9ff64e3ebf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:13 +0000
Subject: [PATCH 183/188] fix: EPOCH2DTG of times after January 2038 and before
 December 1901

---
 modules/F90/fimex2d.F90 | 50 +++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/modules/F90/fimex2d.F90 b/modules/F90/fimex2d.F90
index 92ec66e..6343327 100644
--- a/modules/F90/fimex2d.F90
+++ b/modules/F90/fimex2d.F90
@@ -162,21 +162,47 @@ END MODULE
 
 FUNCTION EPOCH2DTG(EPOCH)
   USE FIMEX2D    ,ONLY : RKIND,IKIND
-#ifdef __INTELCOMP
-  USE IFPORT
-#endif
   IMPLICIT NONE
   INTEGER(KIND=IKIND)              :: EPOCH2DTG
   REAL(KIND=RKIND), INTENT(IN)     :: EPOCH
-  CHARACTER(LEN=10)                :: STRING
-  INTEGER(KIND=IKIND),DIMENSION(9) :: GMT
-
-  CALL GMTIME(INT(EPOCH),GMT)
-  WRITE(STRING(1:4),'(I4.4)') GMT(6)+1900
-  WRITE(STRING(5:6),'(I2.2)') GMT(5)+1
-  WRITE(STRING(7:8),'(I2.2)') GMT(4)
-  WRITE(STRING(9:10),'(I2.2)') (GMT(3)*3600+GMT(2)*60+GMT(1))/3600
-  READ(STRING(1:10),'(I10.10)') EPOCH2DTG
+  INTEGER(KIND=IKIND)              :: HOURS,DAYS,YEAR,MONTH
+
+  ! hours fit into IKIND, seconds do not
+  HOURS=FLOOR(EPOCH/3600,KIND=IKIND)
+  DAYS=FLOOR(EPOCH/86400,KIND=IKIND)
+  HOURS=HOURS-24*DAYS
+  YEAR=1970
+  DO WHILE ( DAYS < 0 )
+    YEAR=YEAR-1
+    DAYS=DAYS+YEAR_LENGTH(YEAR)
+  ENDDO
+  DO WHILE ( DAYS >= YEAR_LENGTH(YEAR) )
+    DAYS=DAYS-YEAR_LENGTH(YEAR)
+    YEAR=YEAR+1
+  ENDDO
+  MONTH=1
+  DO WHILE ( DAYS >= MONTH_LENGTH(MONTH,YEAR) )
+    DAYS=DAYS-MONTH_LENGTH(MONTH,YEAR)
+    MONTH=MONTH+1
+  ENDDO
+  EPOCH2DTG=((YEAR*100+MONTH)*100+DAYS+1)*100+HOURS
+
+CONTAINS
+
+  FUNCTION MONTH_LENGTH(MON,YYYY)
+    INTEGER(KIND=IKIND)              :: MONTH_LENGTH
+    INTEGER(KIND=IKIND), INTENT(IN)  :: MON,YYYY
+    INTEGER(KIND=IKIND), PARAMETER   :: LENGTHS(12)=(/31,28,31,30,31,30,31,31,30,31,30,31/)
+    MONTH_LENGTH=LENGTHS(MON)
+    IF ( MON == 2 .AND. YEAR_LENGTH(YYYY) == 366 ) MONTH_LENGTH=29
+  END FUNCTION
+
+  FUNCTION YEAR_LENGTH(YYYY)
+    INTEGER(KIND=IKIND)              :: YEAR_LENGTH
+    INTEGER(KIND=IKIND), INTENT(IN)  :: YYYY
+    YEAR_LENGTH=365
+    IF ( MOD(YYYY,4) == 0 .AND. (MOD(YYYY,100) /= 0 .OR. MOD(YYYY,400) == 0) ) YEAR_LENGTH=366
+  END FUNCTION
 END FUNCTION
 
 SUBROUTINE FI_ERROR(ERROR_STRING)
-- 
2.43.0


From ad2823e5ed5cc076d1ce7c66cc45c13756771ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:55 +0000
Subject: [PATCH 184/188] fix: FI_READ_DIMENSION returned garbage when reading
 failed

---
 modules/F90/fimex2d.F90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/F90/fimex2d.F90 b/modules/F90/fimex2d.F90
index 6343327..baa06c3 100644
--- a/modules/F90/fimex2d.F90
+++ b/modules/F90/fimex2d.F90
@@ -237,6 +237,7 @@ SUBROUTINE FI_READ_DIMENSION(FIO,DIMSIZE,DIMNAME,DIMVALUES,CUNIT)
    ELSE
      IERR=FIO%READ(TRIM(DIMNAME),ZDIMVALUES)
    ENDIF
+   IF ( IERR /= 0 ) CALL FI_ERROR("Can't read dimension "//TRIM(DIMNAME))
    DIMVALUES=ZDIMVALUES
 
 END SUBROUTINE FI_READ_DIMENSION
-- 
2.43.0


From 11735e589d31197ac640003af2e0a9316c3a535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:55 +0000
Subject: [PATCH 185/188] fix: FI_READ_FIELD crashed when asked for the time
 without a step, or to be verbose without a time

---
 modules/F90/fimex2d.F90 | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/F90/fimex2d.F90 b/modules/F90/fimex2d.F90
index baa06c3..3c01e0f 100644
--- a/modules/F90/fimex2d.F90
+++ b/modules/F90/fimex2d.F90
@@ -378,7 +378,7 @@ SUBROUTINE FI_READ_FIELD(FIO,VARNAME,NX,NY,FIELD,STEP,REL,LEVEL,TIME,BASETIME,CU
   REAL(KIND=RKIND)                                           :: BTIME
   INTEGER(KIND=IKIND)                                        :: NDIMS,IERR,I,VERB
   LOGICAL                                                    :: X_GEO,Y_GEO
-  LOGICAL                                                    :: LCONTINUE_ON_ERROR
+  LOGICAL                                                    :: LCONTINUE_ON_ERROR,HAVETIME
 
   VERB=0
   IF (PRESENT(VERBOSITY)) VERB=VERBOSITY
@@ -451,7 +451,11 @@ SUBROUTINE FI_READ_FIELD(FIO,VARNAME,NX,NY,FIELD,STEP,REL,LEVEL,TIME,BASETIME,CU
         ! Create slice builder for time variable
         NDIMS=FIO%GET_DIMENSIONS(DIMNAME_T)
         IF ( NDIMS <= 0 ) CALL FI_ERROR("Can't get dimensions for variable "//TRIM(DIMNAME_T))
-        IERR=FIO%REDUCE_DIMENSION(DIMNAME_T,STEP,1)
+        IF (PRESENT(STEP)) THEN
+          IERR=FIO%REDUCE_DIMENSION(DIMNAME_T,STEP,1)
+        ELSE
+          IERR=FIO%REDUCE_DIMENSION(DIMNAME_T,0,1)
+        ENDIF
         IF ( IERR /= 0 ) CALL FI_ERROR("Can't reduce dimension "//TRIM(DIMNAME_T)//" for time for variable "//TRIM(VARNAME))
         IF ( .NOT.ALLOCATED(ZTIME)) ALLOCATE(ZTIME(1))
         IERR=FIO%READ(TRIM(DIMNAME_T),ZTIME,"seconds since 1970-01-01 00:00:00 +00:00")
@@ -466,7 +470,9 @@ SUBROUTINE FI_READ_FIELD(FIO,VARNAME,NX,NY,FIELD,STEP,REL,LEVEL,TIME,BASETIME,CU
     IF (PRESENT(TIME)) TIME=-1
   ENDIF
   IF ( VERB > 1 ) THEN
-    IF ( TIME > 0 ) THEN
+    HAVETIME=.FALSE.
+    IF (PRESENT(TIME)) HAVETIME=(TIME > 0)
+    IF ( HAVETIME ) THEN
        WRITE(*,*) TRIM(VARNAME),EPOCH2DTG(TIME),MINVAL(FIELD),MAXVAL(FIELD),SUM(REAL(FIELD))/REAL(NX*NY)
     ELSE
        WRITE(*,*) TRIM(VARNAME),MINVAL(FIELD),MAXVAL(FIELD),SUM(REAL(FIELD))/REAL(NX*NY)
-- 
2.43.0


From 942288ef9cc619063f507bf5b11d86a5b8d59017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:55 +0000
Subject: [PATCH 186/188] fix: FIMEX2D did not know depth as vertical axis

---
 modules/F90/fimex2d.F90 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/F90/fimex2d.F90 b/modules/F90/fimex2d.F90
index 3c01e0f..a8f86aa 100644
--- a/modules/F90/fimex2d.F90
+++ b/modules/F90/fimex2d.F90
@@ -248,7 +248,7 @@ SUBROUTINE FI_GET_DIMENSIONS(FIO,VARNAME,NX,NY,NZ,NREL,NTIMES,&
                              BASETIME,VERBOSITY)
   USE FIMEX     ,ONLY : FimexIO,AXIS_GeoX,AXIS_Lon,&
                                 AXIS_GeoY,AXIS_Lat,&
-                                AXIS_GeoZ,AXIS_Pressure,AXIS_Height,&
+                                AXIS_GeoZ,AXIS_Pressure,AXIS_Height,AXIS_Depth,&
                                 AXIS_Time,&
                                 AXIS_realization
   USE FIMEX2D    ,ONLY : RKIND,IKIND
@@ -319,7 +319,7 @@ SUBROUTINE FI_GET_DIMENSIONS(FIO,VARNAME,NX,NY,NZ,NREL,NTIMES,&
             IF (PRESENT(DIMNAME_Y)) DIMNAME_Y=FIO%GET_VAR_LATITUDE(VARNAME)
             IF (PRESENT(Y_GEO)) Y_GEO=.TRUE.
         END SELECT
-      CASE(AXIS_GeoZ,AXIS_Pressure,AXIS_Height)
+      CASE(AXIS_GeoZ,AXIS_Pressure,AXIS_Height,AXIS_Depth)
         IF (PRESENT(NZ)) NZ=VSIZE(I)
         IF (PRESENT(DIMNAME_Z)) DIMNAME_Z=FIO%GET_DIMNAME(I)
       CASE(AXIS_Realization)
-- 
2.43.0


From 4760bc6c483e4c7ef0e0f667e5ded0acd36deb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:43 +0000
Subject: [PATCH 187/188] fix: FIMEX2D fields of variables with y before x were
 mixed up

---
 modules/F90/fimex2d.F90 | 67 ++++++++++++++++++++++++++++++-----------
 1 file changed, 50 insertions(+), 17 deletions(-)

diff --git a/modules/F90/fimex2d.F90 b/modules/F90/fimex2d.F90
index a8f86aa..c458dfb 100644
--- a/modules/F90/fimex2d.F90
+++ b/modules/F90/fimex2d.F90
@@ -140,6 +140,19 @@ MODULE FIMEX2D
       INTEGER(KIND=IKIND),               INTENT(IN),   OPTIONAL  :: VERBOSITY
     END SUBROUTINE
 
+    !> Check if y is before x in the current variable of FIO
+    !! @param FIO the fimex-object, after GET_DIMENSIONS
+    !! @param NDIMS number of dimensions of the current variable
+    !!
+    FUNCTION FI_Y_BEFORE_X(FIO,NDIMS)
+      USE FIMEX     ,ONLY : FimexIO
+      IMPORT                          :: IKIND
+      IMPLICIT NONE
+      LOGICAL                         :: FI_Y_BEFORE_X
+      TYPE(FimexIO),       INTENT(IN) :: FIO
+      INTEGER(KIND=IKIND), INTENT(IN) :: NDIMS
+    END FUNCTION
+
     !> Convert an epoch time to a DTG (YYYYMMDDHH)
     !! @param EPOCH time in seconds since January 1st 1970
     !!
@@ -217,6 +230,30 @@ SUBROUTINE FI_ERROR(ERROR_STRING)
 END SUBROUTINE FI_ERROR
 
 
+FUNCTION FI_Y_BEFORE_X(FIO,NDIMS)
+  USE FIMEX      ,ONLY : FimexIO,AXIS_GeoX,AXIS_Lon,AXIS_GeoY,AXIS_Lat
+  USE FIMEX2D    ,ONLY : IKIND
+  IMPLICIT NONE
+  LOGICAL                                        :: FI_Y_BEFORE_X
+  TYPE(FimexIO),                      INTENT(IN) :: FIO
+  INTEGER(KIND=IKIND),                INTENT(IN) :: NDIMS
+  INTEGER(KIND=IKIND), ALLOCATABLE, DIMENSION(:) :: ATYPES
+  INTEGER(KIND=IKIND)                            :: I
+
+  FI_Y_BEFORE_X=.FALSE.
+  ALLOCATE(ATYPES(NDIMS))
+  IF ( FIO%GET_AXISTYPES(ATYPES) /= 0 ) RETURN
+  DO I = 1, NDIMS
+    SELECT CASE (ATYPES(I))
+      CASE(AXIS_GeoX, AXIS_Lon)
+        RETURN
+      CASE(AXIS_GeoY, AXIS_Lat)
+        FI_Y_BEFORE_X=.TRUE.
+        RETURN
+    END SELECT
+  END DO
+END FUNCTION FI_Y_BEFORE_X
+
 SUBROUTINE FI_READ_DIMENSION(FIO,DIMSIZE,DIMNAME,DIMVALUES,CUNIT)
   USE FIMEX     ,ONLY : FimexIO
   USE FIMEX2D    ,ONLY : RKIND,IKIND
@@ -355,7 +392,7 @@ END SUBROUTINE FI_GET_DIMENSIONS
 
 SUBROUTINE FI_READ_FIELD(FIO,VARNAME,NX,NY,FIELD,STEP,REL,LEVEL,TIME,BASETIME,CUNIT,LCONT_ON_ERROR,VERBOSITY)
   USE FIMEX     ,ONLY : FimexIO
-  USE FIMEX2D    ,ONLY : FI_GET_DIMENSIONS,EPOCH2DTG,XUNDEF,RKIND,IKIND
+  USE FIMEX2D    ,ONLY : FI_GET_DIMENSIONS,FI_Y_BEFORE_X,EPOCH2DTG,XUNDEF,RKIND,IKIND
   IMPLICIT NONE
   TYPE(FimexIO),                     INTENT(INOUT)           :: FIO
   CHARACTER(LEN=*),                  INTENT(IN)              :: VARNAME
@@ -374,7 +411,6 @@ SUBROUTINE FI_READ_FIELD(FIO,VARNAME,NX,NY,FIELD,STEP,REL,LEVEL,TIME,BASETIME,CU
   CHARACTER(LEN=1024)                                        :: DIMNAME_T,DIMNAME_X,DIMNAME_Y,DIMNAME_Z,DIMNAME_R
   REAL(KIND=RKIND),DIMENSION(:),ALLOCATABLE,TARGET           :: ZTIME
   REAL(KIND=8),DIMENSION(:),ALLOCATABLE,TARGET               :: ZFIELD
-  REAL(KIND=8),DIMENSION(:,:),POINTER                        :: ZFIELD2D
   REAL(KIND=RKIND)                                           :: BTIME
   INTEGER(KIND=IKIND)                                        :: NDIMS,IERR,I,VERB
   LOGICAL                                                    :: X_GEO,Y_GEO
@@ -427,7 +463,6 @@ SUBROUTINE FI_READ_FIELD(FIO,VARNAME,NX,NY,FIELD,STEP,REL,LEVEL,TIME,BASETIME,CU
 
   IF (( NX /= NX_VAR ) .OR. ( NY /= NY_VAR )) CALL FI_ERROR("Mismatch in dimensions for variable "//TRIM(VARNAME))
   IF (.NOT.ALLOCATED(ZFIELD)) ALLOCATE(ZFIELD(NX*NY))
-  ALLOCATE(ZFIELD2D(NX,NY))
   FIELD=0.
   IF ( PRESENT (CUNIT)) THEN
     IERR=FIO%READ(VARNAME,ZFIELD,CUNIT)
@@ -436,9 +471,11 @@ SUBROUTINE FI_READ_FIELD(FIO,VARNAME,NX,NY,FIELD,STEP,REL,LEVEL,TIME,BASETIME,CU
     IERR=FIO%READ(VARNAME,ZFIELD)
     IF ( IERR /= 0 ) CALL FI_ERROR("Can't read variable "//TRIM(VARNAME))
   ENDIF
-  ZFIELD2D(1:NX,1:NY) => ZFIELD
-  FIELD(1:NX,1:NY)=REAL(ZFIELD2D(1:NX,1:NY),KIND=RKIND)
-  NULLIFY(ZFIELD2D)
+  IF ( FI_Y_BEFORE_X(FIO,NDIMS) ) THEN
+    FIELD=REAL(TRANSPOSE(RESHAPE(ZFIELD,(/NY,NX/))),KIND=RKIND)
+  ELSE
+    FIELD=REAL(RESHAPE(ZFIELD,(/NX,NY/)),KIND=RKIND)
+  ENDIF
 
   ! Find time in file
   IF ( TRIM(DIMNAME_T) /= "NA" ) THEN
@@ -482,7 +519,7 @@ END SUBROUTINE FI_READ_FIELD
 
 SUBROUTINE FI_WRITE_FIELD(FIO,VARNAME,NX,NY,OUTFIELD,STEP,REL,LEVEL,CUNIT,VERBOSITY)
   USE FIMEX, ONLY                                            : FimexIO
-  USE FIMEX2D, ONLY                                           : FI_GET_DIMENSIONS,RKIND,IKIND
+  USE FIMEX2D, ONLY                                           : FI_GET_DIMENSIONS,FI_Y_BEFORE_X,RKIND,IKIND
   IMPLICIT NONE
   TYPE(FimexIO),                    INTENT(INOUT)           :: FIO
   CHARACTER(len=*),                 INTENT(IN)              :: VARNAME
@@ -494,8 +531,7 @@ SUBROUTINE FI_WRITE_FIELD(FIO,VARNAME,NX,NY,OUTFIELD,STEP,REL,LEVEL,CUNIT,VERBOS
   INTEGER(KIND=IKIND),              INTENT(IN),   OPTIONAL  :: LEVEL
   CHARACTER(LEN=*),                 INTENT(IN),   OPTIONAL  :: CUNIT
   INTEGER(KIND=IKIND),              INTENT(IN),   OPTIONAL  :: VERBOSITY
-  REAL(KIND=RKIND),DIMENSION(NX*NY)                         :: OUTFIELD1D
-  INTEGER(KIND=IKIND)                                       :: NDIMS,IERR,I,II,J,VERB
+  INTEGER(KIND=IKIND)                                       :: NDIMS,IERR,I,VERB
   REAL(KIND=8),DIMENSION(:),ALLOCATABLE,TARGET              :: ZFIELD
   INTEGER(KIND=IKIND)                                       :: NX2,NY2,NZ,NREL,NTIMES
   CHARACTER(LEN=1024)                                       :: DIMNAME_T,DIMNAME_X,DIMNAME_Y,DIMNAME_Z,DIMNAME_R
@@ -547,15 +583,12 @@ SUBROUTINE FI_WRITE_FIELD(FIO,VARNAME,NX,NY,OUTFIELD,STEP,REL,LEVEL,CUNIT,VERBOS
   ENDIF
 
   ! Modify 2D field to 1D
-  II=1
-  DO J=1,NY
-    DO I=1,NX
-      OUTFIELD1D(II)=OUTFIELD(I,J)
-      II=II+1
-    ENDDO
-  ENDDO
   ALLOCATE(ZFIELD(NX*NY))
-  ZFIELD=OUTFIELD1D
+  IF ( FI_Y_BEFORE_X(FIO,NDIMS) ) THEN
+    ZFIELD=RESHAPE(TRANSPOSE(OUTFIELD),(/NX*NY/))
+  ELSE
+    ZFIELD=RESHAPE(OUTFIELD,(/NX*NY/))
+  ENDIF
   IF ( PRESENT (CUNIT)) THEN
     IERR=FIO%WRITE(VARNAME,ZFIELD,CUNIT)
     IF ( IERR /= 0 ) CALL FI_ERROR("Can't write variable "//TRIM(VARNAME))
-- 
2.43.0


From 85254f81725ee6396c7a82936e9551dad4dd15c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:43 +0000
Subject: [PATCH 188/188] fix: FI_WRITE_FIELD wrote fields with x and y swapped

---
 modules/F90/fimex2d.F90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/F90/fimex2d.F90 b/modules/F90/fimex2d.F90
index c458dfb..5b830c8 100644
--- a/modules/F90/fimex2d.F90
+++ b/modules/F90/fimex2d.F90
@@ -582,6 +582,8 @@ SUBROUTINE FI_WRITE_FIELD(FIO,VARNAME,NX,NY,OUTFIELD,STEP,REL,LEVEL,CUNIT,VERBOS
     ENDIF
   ENDIF
 
+  IF (( NX /= NX2 ) .OR. ( NY /= NY2 )) CALL FI_ERROR("Mismatch in dimensions for variable "//TRIM(VARNAME))
+
   ! Modify 2D field to 1D
   ALLOCATE(ZFIELD(NX*NY))
   IF ( FI_Y_BEFORE_X(FIO,NDIMS) ) THEN
-- 
2.43.0

