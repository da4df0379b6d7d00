From 0cb0a5ed058147f1a32ef72d032f4719d1a56a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:12 +0000
Subject: [PATCH 01/65] fix: Minkowski distance of general order threw a size
 error

The coordinate differences are an n-by-2 matrix; storing them in a column
vector made every order other than the two special-cased ones (including
the default order 2) throw.
---
 include/gwmodelpp/spatialweight/MinkwoskiDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
index 2395476..4c49561 100644
--- a/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
+++ b/include/gwmodelpp/spatialweight/MinkwoskiDistance.h
@@ -125,7 +125,7 @@ inline arma::vec MinkwoskiDistance::ManhattonDist(const arma::rowvec& out_loc, c
 
 inline arma::vec MinkwoskiDistance::MinkwoskiDist(const arma::rowvec& out_loc, const arma::mat& in_locs, double p)
 {
-    arma::vec temp = abs(in_locs.each_row() - out_loc);
+    arma::mat temp = abs(in_locs.each_row() - out_loc);
     return pow(sum(pow(temp, p), 1), 1.0 / p);
 }
 
-- 
2.43.0


From 4803f2301ffe0fb5548c4dc871dbedd448cfebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:13 +0000
Subject: [PATCH 02/65] fix: Minkowski order 1 must be the Manhattan distance

The documented metric is (|du|^p + |dv|^p)^(1/p); order 1 returned the
chessboard distance and the chessboard sentinel -1 the Manhattan one.
---
 src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
index 377777a..69bd934 100644
--- a/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
+++ b/src/gwmodelpp/spatialweight/MinkwoskiDistance.cpp
@@ -42,8 +42,8 @@ vec MinkwoskiDistance::distance(uword focus)
                 dp = CoordinateRotate(mParameter->dataPoints, mTheta);
                 rp = CoordinateRotate(mParameter->focusPoints.row(focus), mTheta);
             }
-            if (mPoly == 1.0) return ChessDistance(rp, dp);
-            else if (mPoly == -1.0) return ManhattonDist(rp, dp);
+            if (mPoly == 1.0) return ManhattonDist(rp, dp);
+            else if (mPoly == -1.0) return ChessDistance(rp, dp);
             else return MinkwoskiDist(rp, dp, mPoly);
         }
         else throw std::runtime_error("Target is out of bounds of data points.");
-- 
2.43.0


From 8670583d2d3cf5977571108849623a6e6c0c977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:13 +0000
Subject: [PATCH 03/65] fix: extreme distances of a Minkowski metric used the
 Euclidean distance

maxDistance()/minDistance() called the base calculator directly, so a
Minkowski metric reported Euclidean extremes (and bandwidth search bounds).
---
 src/gwmodelpp/spatialweight/CRSDistance.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSDistance.cpp b/src/gwmodelpp/spatialweight/CRSDistance.cpp
index 0c00116..93e109a 100644
--- a/src/gwmodelpp/spatialweight/CRSDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSDistance.cpp
@@ -137,7 +137,7 @@ double CRSDistance::maxDistance()
     double maxD = 0.0;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = max(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = max(distance(i));
         maxD = d > maxD ? d : maxD;
     }
     return maxD;
@@ -149,7 +149,7 @@ double CRSDistance::minDistance()
     double minD = DBL_MAX;
     for (uword i = 0; i < mParameter->total; i++)
     {
-        double d = min(mCalculator(mParameter->focusPoints.row(i), mParameter->dataPoints));
+        double d = min(distance(i));
         minD = d < minD ? d : minD;
     }
     return minD;
-- 
2.43.0


From 8e5fd0613b53d1b5bcddf56fc7e3b3746a40338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:28 +0000
Subject: [PATCH 04/65] fix: copies of one-dimensional and spatio-temporal
 distances lost their points

Copying or cloning OneDimDistance or CRSSTDistance dropped the parameters
(and dereferenced null for a default-constructed one), so any copied
SpatialWeight threw on first use.
---
 src/gwmodelpp/spatialweight/CRSSTDistance.cpp  | 5 +++--
 src/gwmodelpp/spatialweight/OneDimDistance.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
index 2d69970..dd377e7 100644
--- a/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
+++ b/src/gwmodelpp/spatialweight/CRSSTDistance.cpp
@@ -83,9 +83,10 @@ CRSSTDistance::CRSSTDistance(const CRSSTDistance &distance)
     }
     else throw std::runtime_error("The lambda must be in [0,1].");
     // mLambda = distance.mLambda;
-    mSpatialDistance = distance.mSpatialDistance->clone();
+    if (distance.mSpatialDistance) mSpatialDistance = distance.mSpatialDistance->clone();
     //mSpatialDistance = static_cast<gwm::CRSDistance*>(distance.mSpatialDistance->clone());
-    mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    if (distance.mTemporalDistance) mTemporalDistance = static_cast<gwm::OneDimDistance*>(distance.mTemporalDistance->clone());
+    if (distance.mParameter) mParameter = make_unique<Parameter>(*distance.mParameter);
     mCalculator=distance.mCalculator;
 }
 
diff --git a/src/gwmodelpp/spatialweight/OneDimDistance.cpp b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
index 9e5cbd7..a0e68d4 100644
--- a/src/gwmodelpp/spatialweight/OneDimDistance.cpp
+++ b/src/gwmodelpp/spatialweight/OneDimDistance.cpp
@@ -15,7 +15,10 @@ OneDimDistance::OneDimDistance() : Distance()
 
 OneDimDistance::OneDimDistance(const OneDimDistance &distance) : Distance(distance)
 {
-    
+    if (distance.mParameter)
+    {
+        mParameter = make_unique<Parameter>(*distance.mParameter);
+    }
 }
 
 void OneDimDistance::makeParameter(initializer_list<DistParamVariant> plist)
-- 
2.43.0


From 583e9b8413f80733740e03d24b8bd5a3f79bd271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:43 +0000
Subject: [PATCH 05/65] fix: spatio-temporal distance leaked its component
 distances

CRSSTDistance owns clones of its spatial and temporal distance but had no
destructor, so every copy of a space-time weight leaked both.
---
 include/gwmodelpp/spatialweight/CRSSTDistance.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/gwmodelpp/spatialweight/CRSSTDistance.h b/include/gwmodelpp/spatialweight/CRSSTDistance.h
index 01df73d..0dbddb7 100644
--- a/include/gwmodelpp/spatialweight/CRSSTDistance.h
+++ b/include/gwmodelpp/spatialweight/CRSSTDistance.h
@@ -75,6 +75,12 @@ public:
      */
     CRSSTDistance(const CRSSTDistance& distance);
 
+    virtual ~CRSSTDistance()
+    {
+        delete mSpatialDistance;
+        delete mTemporalDistance;
+    }
+
     Distance * clone() const override
     {
         return new CRSSTDistance(*this);
-- 
2.43.0


From e7048ac95bd9a6205f9c9a53675ec1eb9d233cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:51 +0000
Subject: [PATCH 06/65] fix: variable selection read before the model list when
 no model meets the threshold

---
 src/gwmodelpp/VariableForwardSelector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/VariableForwardSelector.cpp b/src/gwmodelpp/VariableForwardSelector.cpp
index 039acbb..290259f 100644
--- a/src/gwmodelpp/VariableForwardSelector.cpp
+++ b/src/gwmodelpp/VariableForwardSelector.cpp
@@ -65,7 +65,7 @@ vector<pair<vector<size_t>, double> > VariableForwardSelector::sort(vector<pair<
 
 pair<vector<size_t>, double> VariableForwardSelector::select(vector<pair<vector<size_t>, double> > models)
 {
-    for (size_t i = models.size() - 1; i >= 0; i--)
+    for (size_t i = models.size() - 1; i > 0; i--)
     {
         if (models[i - 1].second - models[i].second >= mThreshold)
         {
-- 
2.43.0


From 34d263045412509bf5f17edf5d30ecd846e00124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:10 +0000
Subject: [PATCH 07/65] fix: bandwidth selection leaked its candidate and
 result weights

---
 include/gwmodelpp/BandwidthSelector.h |  2 ++
 src/gwmodelpp/BandwidthSelector.cpp   | 11 ++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/gwmodelpp/BandwidthSelector.h b/include/gwmodelpp/BandwidthSelector.h
index 59f3ba9..dac6562 100644
--- a/include/gwmodelpp/BandwidthSelector.h
+++ b/include/gwmodelpp/BandwidthSelector.h
@@ -4,6 +4,7 @@
 #include <map>
 #include <vector>
 #include <utility>
+#include <memory>
 #include "IBandwidthSelectable.h"
 #include "spatialweight/BandwidthWeight.h"
 
@@ -102,6 +103,7 @@ private:
     BandwidthWeight* mBandwidth;    //!< \~english Bandwidth \~chinese 带宽
     double mLower;  //!< \~english Lower bound \~chinese 下限
     double mUpper;  //!< \~english Upper bound \~chinese 上限
+    std::shared_ptr<BandwidthWeight> mOptimal;  //!< \~english Optimized bandwidth, owned by this object \~chinese 优选后的带宽，由此对象持有
     std::unordered_map<double, double> mBandwidthCriterion; //!< \~english List of criterion values for each bandwidth \~chinese 带宽优选过程中每种带宽对应的指标值列表
 };
 
diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index fbd4767..562205b 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -5,8 +5,10 @@ using namespace gwm;
 
 BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
 {
-    BandwidthWeight* w1 = static_cast<BandwidthWeight*>(mBandwidth->clone());
-    BandwidthWeight* w2 = static_cast<BandwidthWeight*>(mBandwidth->clone());
+    unique_ptr<BandwidthWeight> w1Holder(static_cast<BandwidthWeight*>(mBandwidth->clone()));
+    unique_ptr<BandwidthWeight> w2Holder(static_cast<BandwidthWeight*>(mBandwidth->clone()));
+    BandwidthWeight* w1 = w1Holder.get();
+    BandwidthWeight* w2 = w2Holder.get();
     double xU = mUpper, xL = mLower;
     bool adaptBw = mBandwidth->adaptive();
     const double eps = 1e-4;
@@ -64,11 +66,10 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         xopt = (f1 < f2) ? x1 : x2;
         d1 = f2 - f1;
     }
-    delete w1;
-    delete w2;
     if (s1 == Status::Success && s2 == Status::Success)
     {
-        BandwidthWeight* wopt = new BandwidthWeight();
+        mOptimal = make_shared<BandwidthWeight>();
+        BandwidthWeight* wopt = mOptimal.get();
         wopt->setKernel(mBandwidth->kernel());
         wopt->setAdaptive(mBandwidth->adaptive());
         wopt->setBandwidth(xopt);
-- 
2.43.0


From 873d610e0863477e7978c6a500ac526ff8c2d81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:21 +0000
Subject: [PATCH 08/65] fix: copying an incomplete SpatialWeight or re-setting
 its own weight touched invalid memory

---
 include/gwmodelpp/spatialweight/SpatialWeight.h | 16 ++++++----------
 src/gwmodelpp/spatialweight/SpatialWeight.cpp   |  4 ++--
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/SpatialWeight.h b/include/gwmodelpp/spatialweight/SpatialWeight.h
index 5a35e69..a91625a 100644
--- a/include/gwmodelpp/spatialweight/SpatialWeight.h
+++ b/include/gwmodelpp/spatialweight/SpatialWeight.h
@@ -106,8 +106,8 @@ public:
      */
     SpatialWeight(const SpatialWeight& spatialWeight)
     {
-        mWeight = spatialWeight.mWeight->clone();
-        mDistance = spatialWeight.mDistance->clone();
+        mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+        mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     }
 
     /**
@@ -191,8 +191,7 @@ public:
      */
     void setWeight(Weight& weight)
     {
-        if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        setWeight(&weight);
     }
 
     /**
@@ -210,8 +209,7 @@ public:
      */
     void setWeight(Weight&& weight)
     {
-        if (mWeight) delete mWeight;
-        mWeight = weight.clone();
+        setWeight(&weight);
     }
 
     /**
@@ -283,8 +281,7 @@ public:
      */
     void setDistance(Distance& distance)
     {
-        if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        setDistance(&distance);
     }
 
     /**
@@ -302,8 +299,7 @@ public:
      */
     void setDistance(Distance&& distance)
     {
-        if (mDistance) delete mDistance;
-        mDistance = distance.clone();
+        setDistance(&distance);
     }
 
     /**
diff --git a/src/gwmodelpp/spatialweight/SpatialWeight.cpp b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
index 256f548..de21b3e 100644
--- a/src/gwmodelpp/spatialweight/SpatialWeight.cpp
+++ b/src/gwmodelpp/spatialweight/SpatialWeight.cpp
@@ -28,8 +28,8 @@ SpatialWeight &SpatialWeight::operator=(const SpatialWeight &spatialWeight)
     if (this == &spatialWeight) return *this;
     if (mWeight) delete mWeight;
     if (mDistance) delete mDistance;
-    mWeight = spatialWeight.mWeight->clone();
-    mDistance = spatialWeight.mDistance->clone();
+    mWeight = spatialWeight.mWeight ? spatialWeight.mWeight->clone() : nullptr;
+    mDistance = spatialWeight.mDistance ? spatialWeight.mDistance->clone() : nullptr;
     return *this;
 }
 
-- 
2.43.0


From ba914ec1d8847740555fb51bfb13e793d35f53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:37 +0000
Subject: [PATCH 09/65] fix: the default bandwidth criterion differed from the
 one reported

---
 include/gwmodelpp/GTWR.h           | 2 +-
 include/gwmodelpp/GWRBasic.h       | 2 +-
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/GTWR.h b/include/gwmodelpp/GTWR.h
index 519013c..4ecc0c4 100644
--- a/include/gwmodelpp/GTWR.h
+++ b/include/gwmodelpp/GTWR.h
@@ -621,7 +621,7 @@ protected:
     bool mIsAutoselectLambda = false;//!< \~english Whether need lambda autoselect. \~chinese 是否需要自动优选lambda。
 
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;//!< \~english Bandwidth Selection Criterion Type. \~chinese 默认的带宽优选方式。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionCVSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GTWR::bandwidthSizeCriterionAICSerial;//!< \~english Bandwidth Selection Criterion Function. \~chinese 默认的带宽优选函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;//!< \~english Bandwidth Selection Criterion List. \~chinese 默认的带宽优选参数列表。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
 
diff --git a/include/gwmodelpp/GWRBasic.h b/include/gwmodelpp/GWRBasic.h
index 30665d2..01c768a 100644
--- a/include/gwmodelpp/GWRBasic.h
+++ b/include/gwmodelpp/GWRBasic.h
@@ -744,7 +744,7 @@ protected:
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether to auto select bandwidth. \~chinese 是否自动优选带宽。
     BandwidthSelectionCriterionType mBandwidthSelectionCriterion = BandwidthSelectionCriterionType::AIC;    //!< \~english Type criterion for bandwidth selection. \~chinese 带宽优选的指标值类型。
-    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionCV; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
+    BandwidthSelectionCriterionCalculator mBandwidthSelectionCriterionFunction = &GWRBasic::bandwidthSizeCriterionAIC; //!< \~english Criterion calculator for bandwidth selection. \~chinese 带宽优选的指标计算函数。
     BandwidthCriterionList mBandwidthSelectionCriterionList;    //!< \~english Criterion list of each bandwidth. \~chinese 每种带宽组合对应的指标值。
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
     std::optional<double> mGoldenUpperBounds;
diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index f73cf09..397bbba 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -443,7 +443,7 @@ protected:
     CalWtFunction mCalWtFunction = &GWRGeneralized::PoissonWtSerial;        //!< \~english Calculator for weighting \~chinese 加权函数
 
     bool mIsAutoselectBandwidth = false;    //!< \~english Whether bandwidth optimization is enabled \~chinese 是否进行带宽优选
-    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::AIC;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
+    BandwidthSelectionCriterionType mBandwidthSelectionCriterionType = BandwidthSelectionCriterionType::CV;    //!< \~english Type of criterion for bandwidth optimization \~chinese 带宽优选指标类型
     BandwidthSelectCriterionFunction mBandwidthSelectCriterionFunction = &GWRGeneralized::bandwidthSizeGGWRCriterionCVSerial;   //!< \~english Calculator to get criterion for given bandwidth value \~chinese 用于根据给定带宽值计算指标值的函数
     BandwidthSelector mBandwidthSizeSelector;   //!< \~english Bandwidth size selector \~chinese 带宽选择器
     double mBandwidthLastCriterion = DBL_MAX;   //!< \~english Last criterion for bandwidth selection. \~chinese 上一次带宽优选的有效指标值。
-- 
2.43.0


From 8cb036256758e960056e77338ea2d11606e1568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:12 +0000
Subject: [PATCH 10/65] fix: multithreaded GWR criteria accepted bandwidths
 with singular local models

---
 src/gwmodelpp/GWRBasic.cpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 12720c7..d37a948 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -517,19 +517,20 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
 {
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
-    bool flag = true;
+    bool success = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (flag)
+        if (success)
         {
             vec w = sw.weightVector(i);
             w(i) = 0.0;
-            mat xtw = trans(mX.each_col() % w);
-            mat xtwx = xtw * mX;
-            mat xtwy = xtw * mY;
+            mat xtw = trans(x.each_col() % w);
+            mat xtwx = xtw * x;
+            mat xtwy = xtw * y;
             try
             {
                 mat xtwx_inv = inv_sympd(xtwx);
@@ -538,10 +539,15 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
-                flag = false;
+                except = e;
+                success = false;
             }
         }
     }
+    if (!success)
+    {
+        throw except;
+    }
     return betas.t();
 }
 
@@ -550,13 +556,14 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
-    int flag = true;
+    bool success = true;
+    std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        if (flag)
+        if (success)
         {
             int thread = omp_get_thread_num();
             vec w = sw.weightVector(i);
@@ -575,10 +582,15 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
             catch (const exception& e)
             {
                 GWM_LOG_ERROR(e.what());
-                flag = false;
+                except = e;
+                success = false;
             }
         }
     }
+    if (!success)
+    {
+        throw except;
+    }
     shat = sum(shat_all, 1);
     return betas.t();
 }
-- 
2.43.0


From cfa9776bde5a5da51a71296d82040bee40b9710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:35 +0000
Subject: [PATCH 11/65] fix: cancelling a multithreaded run raced on the status

---
 include/gwmodelpp/Algorithm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gwmodelpp/Algorithm.h b/include/gwmodelpp/Algorithm.h
index 8605ba1..fcc3feb 100644
--- a/include/gwmodelpp/Algorithm.h
+++ b/include/gwmodelpp/Algorithm.h
@@ -1,6 +1,7 @@
 #ifndef ALGORITHM_H
 #define ALGORITHM_H
 
+#include <atomic>
 #include <cfloat>
 #include <memory>
 #include <sstream>
@@ -213,7 +214,7 @@ protected:
 
 protected:
     std::unique_ptr<ITelegram> mTelegram = nullptr; //!< \~english Pointer to the `ITelegram` instance \~chinese 指向 `ITelegram` 实例的指针
-    Status mStatus = Status::Success; //!< \~english Algorithm status \~chinese 算法状态
+    std::atomic<Status> mStatus { Status::Success }; //!< \~english Algorithm status \~chinese 算法状态
 };
 
 }
-- 
2.43.0


From 35a74da51caf4c04628f29a382ce62f2fe403651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:25 +0000
Subject: [PATCH 12/65] fix: rounding took adaptive bandwidth candidates
 outside the search bounds

---
 src/gwmodelpp/BandwidthSelector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/BandwidthSelector.cpp b/src/gwmodelpp/BandwidthSelector.cpp
index 562205b..9252db7 100644
--- a/src/gwmodelpp/BandwidthSelector.cpp
+++ b/src/gwmodelpp/BandwidthSelector.cpp
@@ -44,7 +44,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xL = x2;
             x2 = x1;
-            x1 = adaptBw ? round(xL + d) : (xL + d);
+            x1 = adaptBw ? min(round(xL + d), mUpper) : (xL + d);
             f2 = f1;
             w1->setBandwidth(x1);
             s1 = instance->getCriterion(w1, f1);
@@ -55,7 +55,7 @@ BandwidthWeight* BandwidthSelector::optimize(IBandwidthSelectable* instance)
         {
             xU = x1;
             x1 = x2;
-            x2 = adaptBw ? floor(xU - d) : (xU - d);
+            x2 = adaptBw ? max(floor(xU - d), mLower) : (xU - d);
             f1 = f2;
             w2->setBandwidth(x2);
             s2 = instance->getCriterion(w2, f2);
-- 
2.43.0


From a7a6fcb2132e1d43b1e1831609f5786e455b9334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:35 +0000
Subject: [PATCH 13/65] fix: robust GWR ignored the user's bandwidth search
 bounds

---
 src/gwmodelpp/GWRRobust.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 2dfb292..4436e71 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -62,8 +62,8 @@ mat GWRRobust::fit()
     {
         GWM_LOG_STAGE("Bandwidth selection");
         BandwidthWeight* bw0 = mSpatialWeight.weight<BandwidthWeight>();
-        double lower = bw0->adaptive() ? 20 : 0.0;
-        double upper = bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance();
+        double lower = mGoldenLowerBounds.value_or(bw0->adaptive() ? 20 : 0.0);
+        double upper = mGoldenUpperBounds.value_or(bw0->adaptive() ? nDp : mSpatialWeight.distance()->maxDistance());
         
         GWM_LOG_INFO(IBandwidthSelectable::infoBandwidthCriterion(bw0));
         BandwidthSelector selector(bw0, lower, upper);
-- 
2.43.0


From cb29c4db44811ec96925439f3418d40902e3a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:22 +0000
Subject: [PATCH 14/65] fix: robust GWR started with an uninitialised filter
 flag

---
 include/gwmodelpp/GWRRobust.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index e22256c..d976aaa 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -128,7 +128,7 @@ protected:
     void createPredictionDistanceParameter(const arma::mat& locations);
 
 private:
-    bool mFiltered; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
+    bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
     arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
-- 
2.43.0


From 0f0c01b486b1e7577c8b611d7f9edc90e54e1575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 15/65] fix: scalable GWR with CV and at most 50 neighbours
 read past the neighbour table

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 00d1325..5996d4a 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -313,11 +313,11 @@ mat GWRScalable::predict(const mat& locations)
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>(min<uword>(50, nBw), mDpNNDists.n_cols) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>(min<uword>(50, nBw), mDpNNDists.n_cols) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
@@ -477,11 +477,11 @@ mat GWRScalable::fit()
     switch (bandwidth->kernel())
     {
     case BandwidthWeight::KernelFunctionType::Gaussian:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / sqrt(3);
+        band0 = median(mDpNNDists.col(min<uword>(min<uword>(50, nBw), mDpNNDists.n_cols) - 1)) / sqrt(3);
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
-        band0 = median(mDpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
+        band0 = median(mDpNNDists.col(min<uword>(min<uword>(50, nBw), mDpNNDists.n_cols) - 1)) / 3;
         mG0 = exp(-pow(mDpNNDists / band0, 2));
         break;
     default:
-- 
2.43.0


From e390de865d57a332d33f87bed896309c51d705b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 16/65] fix: cancelled scalable prediction returned a table
 with one column per observation

---
 src/gwmodelpp/GWRScalable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 5996d4a..90c5a91 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -303,7 +303,7 @@ mat GWRScalable::predict(const mat& locations)
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
-    arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_rows, nBw = (uword)bandwidth->bandwidth();
+    arma::uword nDp = mX.n_rows, nRp = locations.n_rows, nVar = mX.n_cols, nBw = (uword)bandwidth->bandwidth();
     if (nBw >= nDp) 
     {
         nBw = nDp - 1;
-- 
2.43.0


From a18102c2665b3de86cb9ffdf84590a79908dde04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:36 +0000
Subject: [PATCH 17/65] fix: density regression scaled and rounded fixed
 bandwidths as if they were neighbour counts

---
 src/gwmodelpp/GWDR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e845b65..1a71631 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -771,7 +771,7 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     for (size_t m = 0; m < bandwidths.size(); m++)
     {
         double pbw = abs(gsl_vector_get(bws, m));
-        bandwidths[m]->setBandwidth(pbw * nFeature);
+        bandwidths[m]->setBandwidth(bandwidths[m]->adaptive() ? pbw * nFeature : pbw);
     }
     return instance->bandwidthCriterion(bandwidths);
 }
@@ -829,7 +829,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             double pbw = abs(gsl_vector_get(minimizer->x, m));
             // pbw = (pbw > 1.0 ? 1.0 : pbw);
-            mBandwidths[m]->setBandwidth(round(pbw * featureCount));
+            mBandwidths[m]->setBandwidth(mBandwidths[m]->adaptive() ? round(pbw * featureCount) : pbw);
         }
     }
     gsl_multimin_fminimizer_free(minimizer);
-- 
2.43.0


From 1ffd3a3a629df7c8aa014285f0972aba58b876fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:36 +0000
Subject: [PATCH 18/65] fix: density regression bandwidth search failed on
 candidates below one neighbour

---
 src/gwmodelpp/GWDR.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 1a71631..681b175 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -771,7 +771,9 @@ double GWDRBandwidthOptimizer::criterion_function(const gsl_vector* bws, void* p
     for (size_t m = 0; m < bandwidths.size(); m++)
     {
         double pbw = abs(gsl_vector_get(bws, m));
-        bandwidths[m]->setBandwidth(bandwidths[m]->adaptive() ? pbw * nFeature : pbw);
+        double bw = bandwidths[m]->adaptive() ? pbw * nFeature : pbw;
+        if (bandwidths[m]->adaptive() && bw < 1.0) return DBL_MAX;
+        bandwidths[m]->setBandwidth(bw);
     }
     return instance->bandwidthCriterion(bandwidths);
 }
-- 
2.43.0


From effea0b6e343d581cb874d47fe6f4820ab949e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:55 +0000
Subject: [PATCH 19/65] fix: multithreaded density regression ignored singular
 local models

---
 src/gwmodelpp/GWDR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 681b175..e813c44 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -304,6 +304,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
             {
                 GWM_LOG_ERROR(e.what());
                 except = e;
+                success = false;
             }
         }
         GWM_LOG_PROGRESS(i + 1, nDp);
-- 
2.43.0


From 3d2b4ad3e9971072f66850cbfda1f77640a3aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:52 +0000
Subject: [PATCH 20/65] fix: running discriminant analysis twice treated the
 data as separate prediction points

---
 src/gwmodelpp/GWDA.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 1dfe708..0b687af 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -35,14 +35,6 @@ void GWDA::run()
     }
     // vec lev = levels(mY);
     mHasPredict = !(mprX.is_empty() && mprY.empty());
-    if (mprX.is_empty())
-    {
-        mprX = mX;
-    }
-    if (mprY.empty())
-    {
-        mprY = mY;
-    }
     (this->*mDiscriminantAnalysisFunction)();
     uword NV = mRes.n_cols;
     vec correct(mY.size(), fill::zeros);
@@ -105,11 +97,11 @@ void GWDA::discriminantAnalysisSerial()
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 
@@ -128,11 +120,11 @@ void GWDA::discriminantAnalysisOmp()
     }
     if (mIsWqda)
     {
-        mRes = wqda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
     else
     {
-        mRes = wlda(mX, mY, wt, mprX, mHascov, mHasmean, mHasprior);
+        mRes = wlda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
     }
 }
 #endif
-- 
2.43.0


From 97028c0bcdd7cc87dc3c7053cdd8e6ee8accfbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:52 +0000
Subject: [PATCH 21/65] fix: multithreaded discriminant analysis did not leave
 out the point being classified

---
 src/gwmodelpp/GWDA.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 0b687af..e5f5e78 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -118,6 +118,7 @@ void GWDA::discriminantAnalysisOmp()
     {
         wt.col(i) = mSpatialWeight.weightVector(i);
     }
+    if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
         mRes = wqda(mX, mY, wt, mHasPredict ? mprX : mX, mHascov, mHasmean, mHasprior);
-- 
2.43.0


From 33a1d32e8ee49a50c76676e5e1909c1fa34cb4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:52 +0000
Subject: [PATCH 22/65] fix: quadratic discriminant analysis failed without
 localised mean, covariance or prior

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index e5f5e78..e9bf06f 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -214,10 +214,10 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
 {
     vector<string> lev = levels(y);
     uword m = lev.size();
-    // uword nDp = x.n_rows;
+    uword nDp = x.n_rows;
     uword nPr = xpr.n_rows;
     mat wtOnes;
-    // wtOnes.ones(nDp, nPr);
+    wtOnes.ones(nDp, nPr);
     vector<mat> xg = splitX(x, y);
     vector<vec> prior;
     mat wti; //(nDp, nPr, fill::zeros);
-- 
2.43.0


From 2d2012bfa3dc302026660cca5bb24a68e66baf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:52 +0000
Subject: [PATCH 23/65] fix: discriminant analysis probabilities favoured the
 least likely group and could overflow

---
 src/gwmodelpp/GWDA.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index e9bf06f..13ff91a 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -47,16 +47,11 @@ void GWDA::run()
     }
     uvec correctCount = find(correct == 1);
     mCorrectRate = (double)correctCount.n_rows / nRp;
-    mat tmp = mRes.cols(0, NV - 1);
-    for (uword i = 0; i < NV - 1; i++)
-    {
-        vec tempi = tmp.col(i);
-        tmp.col(i) = exp(tempi);
-    }
+    mat tmp = exp(-(mRes.each_col() - min(mRes, 1)));
     mat probs = tmp.each_col() / sum(tmp, 1); // / sum(tmp, 1);
     vec pmax = max(probs, 1);
     // double pnorm=0;
-    vec p = vec(NV - 1, fill::ones) / (NV - 1.0);
+    vec p = vec(NV, fill::ones) / double(NV);
     double entMax = shannonEntropy(p);
     vec entropy(nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
-- 
2.43.0


From 7f4114e6d44a8aabc7ac5212864835bf217370a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:36 +0000
Subject: [PATCH 24/65] fix: multiscale GWR had no search range for fixed
 bandwidths with a given starting value

---
 src/gwmodelpp/GWRMultiscale.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 3e03f4a..8f45a22 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -197,6 +197,11 @@ mat GWRMultiscale::fit()
     for (uword i = 0; i < nVar ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
+        if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
+        {
+            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
+            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
+        }
         if (mBandwidthInitilize[i] == BandwidthInitilizeType::Null)
         {
             mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -204,9 +209,6 @@ mat GWRMultiscale::fit()
             mXi = mX.col(i);
             BandwidthWeight* bw0 = bandwidth(i);
             bool adaptive = bw0->adaptive();
-            mMaxDistances[i] = mSpatialWeights[i].distance()->maxDistance();
-            mMinDistances[i] = mSpatialWeights[i].distance()->minDistance();
-
             GWM_LOG_INFO(string(GWM_LOG_TAG_MGWR_INITIAL_BW) + to_string(i));
             BandwidthSelector selector;
             selector.setBandwidth(bw0);
-- 
2.43.0


From e2ee85e072600f122c385f84f3ed559a7ff1804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:36 +0000
Subject: [PATCH 25/65] fix: multiscale GWR over MPI lost negative coefficients
 when merging workers

---
 src/gwmodelpp/GWRMultiscale.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 8f45a22..15b2aa9 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -952,7 +952,7 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
     mat S;
     vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
     vec beta(nDp);
-    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
+    MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
     {
         mat SArrayi = mSArray.slice(var) - mS0;
@@ -987,7 +987,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarCVMpi(BandwidthWeight* bandwidthW
     GWM_MPI_MASTER_BEGIN
     betas_all = vec(size(betas));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     vec residual = mYi - mXi % betas_all;
     cv = sum(residual % residual);
@@ -1028,7 +1028,7 @@ double GWRMultiscale::bandwidthSizeCriterionVarAICMpi(BandwidthWeight* bandwidth
     betas_all = vec(size(betas));
     shat_all = vec(size(shat));
     GWM_MPI_MASTER_END
-    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_MAX, 0, MPI_COMM_WORLD);
+    MPI_Reduce(betas.memptr(), betas_all.memptr(), betas.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     MPI_Reduce(shat.memptr(), shat_all.memptr(), shat.n_elem, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
     GWM_MPI_MASTER_BEGIN
     aic = GWRBasic::AICc(mXi, mYi, betas_all, shat_all);
-- 
2.43.0


From 7cff82789bb5c346b63a2f9c7d99b91d620fd0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:36 +0000
Subject: [PATCH 26/65] fix: multiscale GWR reported an uninitialised AIC

---
 src/gwmodelpp/GWRMultiscale.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 15b2aa9..b736f52 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -63,12 +63,14 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
     double trStS = shat(1);
     double enp = 2 * trS - trStS;
     double edf = nDp - 2 * trS + trStS;
+    double AIC = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp + trS;
     double AICc = nDp * log(sigmaHat21) + nDp * log(2 * M_PI) + nDp * ((nDp + trS) / (nDp - 2 - trS));
     double adjustRsquare = 1 - (1 - Rsquare) * (nDp - 1) / (edf - 1);
 
     // 保存结果
     RegressionDiagnostic diagnostic;
     diagnostic.RSS = RSSg;
+    diagnostic.AIC = AIC;
     diagnostic.AICc = AICc;
     diagnostic.ENP = enp;
     diagnostic.EDF = edf;
-- 
2.43.0


From e0cbd6a4d13467d4e9a27206d2332787dc0a0512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:36 +0000
Subject: [PATCH 27/65] fix: fitting a multiscale model switched off bandwidth
 selection for later fits

---
 src/gwmodelpp/GWRMultiscale.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index b736f52..7341e8a 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -306,6 +306,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
     // ***********************************************************
     GWM_LOG_MGWR_BACKFITTING("Selecting the optimum bandwidths for each independent variable");
     uvec bwChangeNo(nVar, fill::zeros);
+    vector<BandwidthInitilizeType> bandwidthInitilize = mBandwidthInitilize;
     vec resid = mY - Fitted(mX, betas);
     double RSS0 = sum(resid % resid), RSS1 = DBL_MAX;
     double criterion = DBL_MAX;
@@ -319,7 +320,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
             mXi = mX.col(i);
             vec fi = betas.col(i) % mX.col(i);
             mYi = resid + fi;
-            if (mBandwidthInitilize[i] != BandwidthInitilizeType::Specified)
+            if (bandwidthInitilize[i] != BandwidthInitilizeType::Specified)
             {
                 GWM_LOG_MGWR_BACKFITTING("#variable-bandwidth-selection " + to_string(i));
                 mBandwidthSizeCriterion = bandwidthSizeCriterionVar(mBandwidthSelectionApproach[i]);
@@ -349,7 +350,7 @@ mat GWRMultiscale::backfitting(const mat& betas0)
                     bwChangeNo(i) += 1;
                     if (bwChangeNo(i) >= mBandwidthSelectRetryTimes)
                     {
-                        mBandwidthInitilize[i] = BandwidthInitilizeType::Specified;
+                        bandwidthInitilize[i] = BandwidthInitilizeType::Specified;
                         vbs_args.push_back("true");
                     }
                     else
-- 
2.43.0


From 0e37b302b88288095cd8472ac6677e088e88a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:08 +0000
Subject: [PATCH 28/65] fix: multithreaded multiscale criteria accepted
 bandwidths with singular local models

---
 src/gwmodelpp/GWRMultiscale.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 7341e8a..ca6faf8 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -713,6 +713,10 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
             }
         }
     }
+    if (!flag)
+    {
+        throw std::runtime_error("A local model is singular.");
+    }
     return beta;
 }
 
@@ -750,6 +754,10 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
             }
         }
     }
+    if (!flag)
+    {
+        throw std::runtime_error("A local model is singular.");
+    }
     shat = sum(shat_all, 1);
     return betas;
 }
-- 
2.43.0


From 27580599ca8319e00630c7d8cd71b7e7542914cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:00 +0000
Subject: [PATCH 29/65] fix: multithreaded fits that do not store the hat
 matrix raced on its placeholder row

---
 src/gwmodelpp/GTWR.cpp           | 2 +-
 src/gwmodelpp/GWDR.cpp           | 2 +-
 src/gwmodelpp/GWRBasic.cpp       | 4 ++--
 src/gwmodelpp/GWRGeneralized.cpp | 4 ++--
 src/gwmodelpp/GWRRobust.cpp      | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 6de7ba3..24eaf7d 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -350,7 +350,7 @@ mat GTWR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qDiag
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch (const exception& e)
             {
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index e813c44..ba2b341 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -298,7 +298,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
                 onei(i) = 1;
                 mat p = (onei - si).t();
                 qdiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch(const std::exception& e)
             {
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index d37a948..b1396ad 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -491,8 +491,8 @@ mat GWRBasic::fitCoreOmp(const mat& x, const vec& y, const SpatialWeight& sw)
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                mS.row(isStoreS() ? (i - workRange.first) : 0) = si;
-                mC.slice(isStoreC() ? (i - workRange.first) : 0) = ci;
+                if (isStoreS()) mS.row(i - workRange.first) = si;
+                if (isStoreC()) mC.slice(i - workRange.first) = ci;
             }
             catch (const exception& e)
             {
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 1b95a86..8424ede 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -338,7 +338,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                     vec gwsi = gwFit(x, myAdj, wi % mWt2, i, ci, s_ri);
                     betas.col(i) = gwsi;
                     mat invwt2 = 1.0 / mWt2;
-                    S.row(isStoreS ? i : 0) = s_ri;
+                    if (isStoreS) S.row(i) = s_ri;
                     mat temp = mat(ci.n_rows, ci.n_cols);
                     for (int j = 0; (uword)j < ci.n_rows; j++)
                     {
@@ -434,7 +434,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                     vec gwsi = gwFit(x, myAdj, wi % mWt2, i, ci, s_ri);
                     betas.col(i) = gwsi;
                     mat invwt2 = 1.0 / mWt2;
-                    S.row(isStoreS ? i : 0) = s_ri;
+                    if (isStoreS) S.row(i) = s_ri;
                     mat temp = mat(ci.n_rows, ci.n_cols);
                     for (int j = 0; (uword)j < ci.n_rows; j++)
                     {
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 4436e71..b80cbd1 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -200,7 +200,7 @@ mat GWRRobust::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec&
                 vec p = - si.t();
                 p(i) += 1.0;
                 qDiag_all.col(thread) += p % p;
-                S.row(isStoreS() ? i : 0) = si;
+                if (isStoreS()) S.row(i) = si;
             }
             catch (const exception& e)
             {
-- 
2.43.0


From 10cf310d6b4c3e98fa3b52211f189f00ff264be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:45 +0000
Subject: [PATCH 30/65] fix: failing local models raced on the failure flag of
 multithreaded fits

---
 src/gwmodelpp/GTWR.cpp           | 8 ++++----
 src/gwmodelpp/GWDR.cpp           | 6 +++---
 src/gwmodelpp/GWRBasic.cpp       | 8 ++++----
 src/gwmodelpp/GWRGeneralized.cpp | 4 ++--
 src/gwmodelpp/GWRMultiscale.cpp  | 6 +++---
 src/gwmodelpp/GWRRobust.cpp      | 2 +-
 6 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 24eaf7d..b1fc87d 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -284,7 +284,7 @@ mat GTWR::predictOmp(const mat& locations, const mat& x, const vec& y)
 {
     uword nRp = locations.n_rows, nVar = x.n_cols;
     mat betas(nVar, nRp, arma::fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nRp; i++)
@@ -325,7 +325,7 @@ mat GTWR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qDiag
     S = mat(isStoreS() ? nDp : 1, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     mat qDiag_all(nDp, mOmpThreadNum, fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nDp; i++)
@@ -377,7 +377,7 @@ double GTWR::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwidthWeight)
     uword nDp = mCoords.n_rows;
     vec shat(2, fill::zeros);
     vec cv_all(mOmpThreadNum, fill::zeros);
-    bool flag = true;
+    std::atomic<bool> flag(true);
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nDp; i++)
     {
@@ -423,7 +423,7 @@ double GTWR::bandwidthSizeCriterionAICOmp(BandwidthWeight* bandwidthWeight)
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
-    bool flag = true;
+    std::atomic<bool> flag(true);
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nDp; i++)
     {
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index ba2b341..5cf826b 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -164,7 +164,7 @@ mat GWDR::predictOmp(const mat& locations, const mat& x, const vec& y)
 {
     uword nDp = locations.n_rows, nVar = mX.n_cols;
     mat betas(nVar, nDp, arma::fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nDp; i++)
@@ -265,7 +265,7 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
     mat rowsumSE(nDp, 1, arma::fill::ones);
     mat s_hat_all(2, mOmpThreadNum, arma::fill::zeros);
     mat qdiag_all(nDp, mOmpThreadNum, arma::fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nDp; i++)
@@ -472,7 +472,7 @@ double GWDR::bandwidthCriterionAICOmp(const vector<BandwidthWeight*>& bandwidths
     uword nDp = mCoords.n_rows, nDim = mCoords.n_cols, nVar = mX.n_cols;
     mat betas(nVar, nDp, arma::fill::zeros);
     vec trS_all(mOmpThreadNum, arma::fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nDp; i++)
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index b1396ad..c265037 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -422,7 +422,7 @@ mat GWRBasic::predictOmp(const mat& locations, const mat& x, const vec& y)
 {
     uword nRp = locations.n_rows, nVar = x.n_cols;
     mat betas(nVar, nRp, arma::fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nRp; i++)
@@ -466,7 +466,7 @@ mat GWRBasic::fitCoreOmp(const mat& x, const vec& y, const SpatialWeight& sw)
     mC = cube(nVar, nDp, isStoreC() ? rangeSize : 1, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     mat qDiag_all(nDp, mOmpThreadNum, fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -517,7 +517,7 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
 {
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
@@ -556,7 +556,7 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 8424ede..c58a907 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -316,7 +316,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
     }
     // emit message(tr("Calibrating GGWR model..."));
     // emit tick(0, nDp);
-    bool isAllCorrect = true;
+    std::atomic<bool> isAllCorrect(true);
     exception except;
     bool isStoreS = (nDp <= 8192);
     mat S(isStoreS ? nDp : 1, nDp, fill::zeros);
@@ -411,7 +411,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
     vec mu = (this->*mCalWtFunction)(x, y, mWtMat1);
     // emit message(tr("Calibrating GGWR model..."));
     // emit tick(0, nDp);
-    bool isAllCorrect = true;
+    std::atomic<bool> isAllCorrect(true);
     exception except;
     bool isStoreS = (nDp <= 8192);
     mat S(isStoreS ? nDp : 1, nDp, fill::zeros);
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index ca6faf8..0600827 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -621,7 +621,7 @@ vec GWRMultiscale::fitVarCoreOmp(const vec &x, const vec &y, const SpatialWeight
 {
     uword nDp = mCoords.n_rows;
     mat betas(1, nDp, fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
     if (mHasHatMatrix)
@@ -688,7 +688,7 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
 {
     uword nDp = mCoords.n_rows;
     vec beta(nDp, fill::zeros);
-    bool flag = true;
+    std::atomic<bool> flag(true);
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
@@ -725,7 +725,7 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
     uword nDp = mCoords.n_rows;
     vec betas(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
-    bool flag = true;
+    std::atomic<bool> flag(true);
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = workRange.first; i < workRange.second; i++)
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index b80cbd1..bb5b53d 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -175,7 +175,7 @@ mat GWRRobust::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec&
     S = mat(isStoreS() ? nDp : 1, nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
     mat qDiag_all(nDp, mOmpThreadNum, fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)nDp; i++)
-- 
2.43.0


From 42ca70f7721213b3024f4bea6aa8f16d7d8ce3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 31/65] fix: multithreaded prediction with local collinearity
 GWR aborted the program

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 785dc24..90bdb05 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -475,13 +475,11 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
 
 mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, const vec& y)
 {
-    uword nRp = locations.n_rows, nVar = mX.size() + 1;
+    uword nRp = locations.n_rows, nVar = x.n_cols;
     mat betas(nRp, nVar, fill::zeros);
     vec localcn(nRp, fill::zeros);
     vec locallambda(nRp, fill::zeros);
     vec hatrow(nRp, fill::zeros);
-
-    mat shat_all(2, mOmpThreadNum, fill::zeros);
     //int current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
@@ -514,9 +512,6 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
         betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
-    vec shat = sum(shat_all,1);
-    this->mTrS = sum(shat.row(0));
-    this->mTrStS = sum(shat.row(1));
     return betas;
 }
 #endif
-- 
2.43.0


From 9a0520cccb95058945c0d4df983b0b3568e54abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 32/65] fix: refitting local collinearity GWR accumulated the
 hat matrix traces

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 90bdb05..98549cf 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -334,6 +334,8 @@ mat GWRLocalCollinearity::fitSerial(const mat& x, const vec& y)
     vec localcn(nDp, fill::zeros);
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
+    this->mTrS = 0.0;
+    this->mTrStS = 0.0;
     for(uword i=0;i<nDp ;i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-- 
2.43.0


From 5bd5d38bd0eb8fb33348ae6a9852a77f097fca75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:14 +0000
Subject: [PATCH 33/65] fix: multithreaded local collinearity GWR raced on
 shared counters

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index 98549cf..bc432b7 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -275,7 +275,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     //取mX不含第一列的部分
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
-    uword current = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
@@ -308,7 +307,6 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
             }
         }
         betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
-        current++;
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -465,8 +463,6 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
         rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
         shat_all(0, thread) += hatrow(i);
         shat_all(1, thread) += sum(hatrow % hatrow);
-        this->mTrS += hatrow(i);
-        this->mTrStS += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     vec shat = sum(shat_all,1);
-- 
2.43.0


From efa0b4313e78781d53acd5bfb3e6ca1b6765fac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:25 +0000
Subject: [PATCH 34/65] fix: local collinearity GWR aborted on bandwidths whose
 local models cannot be solved

---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 263 +++++++++++++++----------
 1 file changed, 154 insertions(+), 109 deletions(-)

diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index bc432b7..dc0f99c 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -215,33 +215,41 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVSerial(BandwidthWeight* ban
     for (uword i = 0; i < n ; i++)
     {
         GWM_LOG_STOP_BREAK(mStatus);
-        vec distvi = mSpatialWeight.distance()->distance(i);
-        vec wgt = bandwidthWeight->weight(distvi);
-        //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
-        wgt(i) = 0;
-        mat wgtspan(1,mXnot1.n_cols,fill::ones);
-        mat wgtspan1(1,mX.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wgt * wgtspan);
-        //计算x1w
-        mat x1w = mX % (wgt * wgtspan1);
-        //计算用于SVD分解的矩阵
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+        try
+        {
+            vec distvi = mSpatialWeight.distance()->distance(i);
+            vec wgt = bandwidthWeight->weight(distvi);
+            //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
+            wgt(i) = 0;
+            mat wgtspan(1,mXnot1.n_cols,fill::ones);
+            mat wgtspan1(1,mX.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wgt * wgtspan);
+            //计算x1w
+            mat x1w = mX % (wgt * wgtspan1);
+            //计算用于SVD分解的矩阵
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            return DBL_MAX;
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -275,38 +283,47 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     //取mX不含第一列的部分
     mat mXnot1 = mX.cols(1, mX.n_cols - 1);
     //主循环
+    std::atomic<bool> success(true);
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i <(int) n; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        //int thread = omp_get_thread_num();
-        vec distvi = mSpatialWeight.distance()->distance(i);
-        vec wgt = bandwidthWeight->weight(distvi);
-        //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
-        wgt(i) = 0;
-        mat wgtspan(1,mXnot1.n_cols,fill::ones);
-        mat wgtspan1(1,mX.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wgt * wgtspan);
-        //计算x1w
-        mat x1w = mX % (wgt * wgtspan1);
-        //计算用于SVD分解的矩阵
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //赋值操作
-        //S.print();
-        //qDebug() << S(m);
-        localcn(i)=S(0)/S(m-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+        try
+        {
+            //int thread = omp_get_thread_num();
+            vec distvi = mSpatialWeight.distance()->distance(i);
+            vec wgt = bandwidthWeight->weight(distvi);
+            //vec wgt = mSpatialWeight.spatialWeight(mDataPoints.row(i),mDataPoints);
+            wgt(i) = 0;
+            mat wgtspan(1,mXnot1.n_cols,fill::ones);
+            mat wgtspan1(1,mX.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wgt * wgtspan);
+            //计算x1w
+            mat x1w = mX % (wgt * wgtspan1);
+            //计算用于SVD分解的矩阵
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //赋值操作
+            //S.print();
+            //qDebug() << S(m);
+            localcn(i)=S(0)/S(m-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(m-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wgt,locallambda(i)) );
     }
     //yhat赋值
     //vec mYHat = fitted(mX,betas);
@@ -315,7 +332,7 @@ double GWRLocalCollinearity::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwi
     vec residual = mY - yhat;
     //计算cv
     double cv = sum(residual % residual);
-    if (mStatus == Status::Success && isfinite(cv))
+    if (mStatus == Status::Success && success && isfinite(cv))
     {
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - cv)));
         mBandwidthLastCriterion = cv;
@@ -424,47 +441,61 @@ mat GWRLocalCollinearity::fitOmp(const mat& x, const vec& y)
     vec locallambda(nDp, fill::zeros);
     vec hatrow(nDp, fill::zeros);
     mat shat_all(2, mOmpThreadNum, fill::zeros);
-    //int current = 0;
+    std::atomic<bool> success(true);
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nDp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        int thread = omp_get_thread_num();
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        try
+        {
+            int thread = omp_get_thread_num();
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+            //如果没有给regressionpoint
+            mat xm = x;
+            mat xtw = trans(x % (wi * wispan1));
+            mat xtwx = xtw * x;
+            mat xtwxinv = inv(xtwx);
+            rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
+            shat_all(0, thread) += hatrow(i);
+            shat_all(1, thread) += sum(hatrow % hatrow);
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
-        //如果没有给regressionpoint
-        mat xm = x;
-        mat xtw = trans(x % (wi * wispan1));
-        mat xtwx = xtw * x;
-        mat xtwxinv = inv(xtwx);
-        rowvec hatrow = x1w.row(i) * xtwxinv * trans(x1w);
-        shat_all(0, thread) += hatrow(i);
-        shat_all(1, thread) += sum(hatrow % hatrow);
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
+    if (!success)
+    {
+        throw except;
+    }
     vec shat = sum(shat_all,1);
     this->mTrS = sum(shat.row(0));
     this->mTrStS = sum(shat.row(1));
@@ -478,38 +509,52 @@ mat GWRLocalCollinearity::predictOmp(const arma::mat &locations, const mat& x, c
     vec localcn(nRp, fill::zeros);
     vec locallambda(nRp, fill::zeros);
     vec hatrow(nRp, fill::zeros);
-    //int current = 0;
+    std::atomic<bool> success(true);
+    std::exception except;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for(int i=0;i <(int)nRp;i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        vec wi = mSpatialWeight.weightVector(i);
-        //计算xw
-        //取mX不含第一列的部分
-        mat mXnot1 = x.cols(1, x.n_cols - 1);
-        mat wispan(1,mXnot1.n_cols,fill::ones);
-        mat wispan1(1,x.n_cols,fill::ones);
-        //计算xw
-        mat xw = mXnot1 % (wi * wispan);
-        //计算x1w
-        mat x1w = x % (wi * wispan1);
-        //计算svd.x
-        //mat U,V均为正交矩阵，S为奇异值构成的列向量
-        mat U,V;
-        colvec S;
-        svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
-        //qDebug() << mX.n_cols;
-        //赋值操作
-        localcn(i)=S(0)/S(x.n_cols-1);
-        locallambda(i) = mLambda;
-        if(mLambdaAdjust){
-            if(localcn(i)>mCnThresh){
-                locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+        try
+        {
+            vec wi = mSpatialWeight.weightVector(i);
+            //计算xw
+            //取mX不含第一列的部分
+            mat mXnot1 = x.cols(1, x.n_cols - 1);
+            mat wispan(1,mXnot1.n_cols,fill::ones);
+            mat wispan1(1,x.n_cols,fill::ones);
+            //计算xw
+            mat xw = mXnot1 % (wi * wispan);
+            //计算x1w
+            mat x1w = x % (wi * wispan1);
+            //计算svd.x
+            //mat U,V均为正交矩阵，S为奇异值构成的列向量
+            mat U,V;
+            colvec S;
+            svd(U,S,V,x1w.each_row() / sqrt(sum(x1w % x1w, 0)));
+            //qDebug() << mX.n_cols;
+            //赋值操作
+            localcn(i)=S(0)/S(x.n_cols-1);
+            locallambda(i) = mLambda;
+            if(mLambdaAdjust){
+                if(localcn(i)>mCnThresh){
+                    locallambda(i) = (S(0) - mCnThresh*S(x.n_cols-1)) / (mCnThresh - 1);
+                }
             }
+            betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            except = e;
+            success = false;
         }
-        betas.row(i) = trans( ridgelm(wi,locallambda(i)) );
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
+    if (!success)
+    {
+        throw except;
+    }
     return betas;
 }
 #endif
-- 
2.43.0


From 4716f2e625247e4a2c2e49a7be5c9db83fe52876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:11 +0000
Subject: [PATCH 35/65] fix: multithreaded generalised GWR used one thread's
 share of the trace in its criterion

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index c58a907..e6240cb 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -750,7 +750,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
 
     if (mStatus == Status::Success && S.is_finite())
     {
-        double trs = double(trS(0));
+        double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - AICc)));
         mBandwidthLastCriterion = AICc;
-- 
2.43.0


From 2bb463b7ad74c43f5050436849bab558941db886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:11 +0000
Subject: [PATCH 36/65] fix: generalised GWR without the hat matrix failed or
 returned zeros

---
 src/gwmodelpp/GWRGeneralized.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index e6240cb..a3910f2 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -274,7 +274,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                 betas.col(i) = gwsi;
             }
             catch (const exception& e)
@@ -377,7 +377,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
                     betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
@@ -469,8 +469,8 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
                 try
                 {
                     vec wi = mWtMat2.col(i);
-                    vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                    mBetas.col(i) = gwsi;
+                    vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                    betas.col(i) = gwsi;
                     // emit tick(current++, nRp);
                 }
                 catch (const exception& e)
@@ -545,8 +545,8 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
             try
             {
                 vec wi = mWtMat2.col(i);
-                vec gwsi = gwPredict(x, myAdj, wi * mWt2);
-                mBetas.col(i) = gwsi;
+                vec gwsi = gwPredict(x, myAdj, wi % mWt2);
+                betas.col(i) = gwsi;
                 // emit tick(i, nRp);
             }
             catch (const exception& e)
-- 
2.43.0


From f875a51088d443b603cb18c9e302d9ca580e4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:25 +0000
Subject: [PATCH 37/65] fix: generalised GWR leaked its global model

---
 include/gwmodelpp/GeneralizedLinearModel.h | 3 ++-
 include/gwmodelpp/LinearModel.h            | 2 ++
 src/gwmodelpp/GeneralizedLinearModel.cpp   | 4 ++--
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/GeneralizedLinearModel.h b/include/gwmodelpp/GeneralizedLinearModel.h
index 719968f..7cc6909 100644
--- a/include/gwmodelpp/GeneralizedLinearModel.h
+++ b/include/gwmodelpp/GeneralizedLinearModel.h
@@ -1,6 +1,7 @@
 #ifndef GENERALIZEDLINEARMODEL_H
 #define GENERALIZEDLINEARMODEL_H
 
+#include <memory>
 #include "armadillo_config.h"
 #include "LinearModel.h"
 #include "GWRGeneralized.h"
@@ -23,7 +24,7 @@ protected:
     int mMaxit;
     bool mIntercept;
     arma::mat mOffset;
-    LinearModel* mModel;
+    std::unique_ptr<LinearModel> mModel;
 
     arma::mat mMuStart;
     double mDev;
diff --git a/include/gwmodelpp/LinearModel.h b/include/gwmodelpp/LinearModel.h
index e977b42..7a05c4a 100644
--- a/include/gwmodelpp/LinearModel.h
+++ b/include/gwmodelpp/LinearModel.h
@@ -9,6 +9,8 @@ namespace gwm
 class LinearModel
 {
 public:
+    virtual ~LinearModel() = default;
+
     virtual arma::mat initialize() = 0;
     virtual arma::mat variance(arma::mat mu) = 0;
     virtual arma::mat linkinv(arma::mat eta) = 0;
diff --git a/src/gwmodelpp/GeneralizedLinearModel.cpp b/src/gwmodelpp/GeneralizedLinearModel.cpp
index e49492d..337816c 100644
--- a/src/gwmodelpp/GeneralizedLinearModel.cpp
+++ b/src/gwmodelpp/GeneralizedLinearModel.cpp
@@ -31,12 +31,12 @@ void GeneralizedLinearModel::fit(){
     }
     if(mFamily == GWRGeneralized::Family::Poisson){
         //初始化模型
-        mModel = new PoissonModel();
+        mModel.reset(new PoissonModel());
         mModel->setY(mY);
         mModel->setWeight(mWeight);
     }
     else{
-        mModel = new BinomialModel();
+        mModel.reset(new BinomialModel());
         mModel->setY(mY);
         mModel->setWeight(mWeight);
     }
-- 
2.43.0


From 6de5fb7591ef828e235a0621833b928c8af9b5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:15 +0000
Subject: [PATCH 38/65] fix: generalised GWR bandwidth search aborted on
 candidates whose local models cannot be solved

---
 include/gwmodelpp/GWRGeneralized.h | 10 ++++++-
 src/gwmodelpp/GWRGeneralized.cpp   | 46 +++++++++++++++++++++---------
 2 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 397bbba..ad7308d 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -128,7 +128,15 @@ public:
 public: // IBandwidthSizeSelectable interface
     Status getCriterion(BandwidthWeight *bandwidthWeight, double& criterion) override
     {
-        criterion = (this->*mBandwidthSelectCriterionFunction)(bandwidthWeight);
+        try
+        {
+            criterion = (this->*mBandwidthSelectCriterionFunction)(bandwidthWeight);
+        }
+        catch (const std::exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            criterion = DBL_MAX;
+        }
         return mStatus;
     }
 
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index a3910f2..519ae95 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -617,6 +617,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
     uword n = mCoords.n_rows;
     vec cv = vec(n);
     mat wt = mat(n, n);
+    std::atomic<bool> success(true);
     //int current1 = 0, current2 = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
@@ -641,16 +642,24 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (true)
         {
-            mat wi = wt.col(i) % mWt2;
-            vec gwsi = gwPredict(mX, myAdj, wi);
-            mat yhatnoi = mX.row(i) * gwsi;
-            if (mFamily == GWRGeneralized::Family::Poisson)
+            try
             {
-                cv.row(i) = mY.row(i) - exp(yhatnoi);
+                mat wi = wt.col(i) % mWt2;
+                vec gwsi = gwPredict(mX, myAdj, wi);
+                mat yhatnoi = mX.row(i) * gwsi;
+                if (mFamily == GWRGeneralized::Family::Poisson)
+                {
+                    cv.row(i) = mY.row(i) - exp(yhatnoi);
+                }
+                else
+                {
+                    cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
+                }
             }
-            else
+            catch (const exception& e)
             {
-                cv.row(i) = mY.row(i) - exp(yhatnoi) / (1 + exp(yhatnoi));
+                GWM_LOG_ERROR(e.what());
+                success = false;
             }
         }
     }
@@ -658,7 +667,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
 
     vec cvsquare = trans(cv) * cv;
     double res = sum(cvsquare);
-    if (mStatus == Status::Success && isfinite(res))
+    if (mStatus == Status::Success && success && isfinite(res))
     {
         GWM_LOG_PROGRESS_PERCENT(exp(- abs(mBandwidthLastCriterion - res)));
         mBandwidthLastCriterion = res;
@@ -715,6 +724,7 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
     vec cv = vec(n);
     mat S = mat(n, n);
     mat wt = mat(n, n);
+    std::atomic<bool> success(true);
     //int current1 = 0, current2 = 0;
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (int i = 0; i < (int)n; i++)
@@ -739,16 +749,24 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (true)
         {
-            int thread = omp_get_thread_num();
-            vec wi = wt.col(i) % mWt2;
-            mat Ci = CiMat(mX, wi);
-            S.row(i) = mX.row(i) * Ci;
-            trS(thread) += S(i, i);
+            try
+            {
+                int thread = omp_get_thread_num();
+                vec wi = wt.col(i) % mWt2;
+                mat Ci = CiMat(mX, wi);
+                S.row(i) = mX.row(i) * Ci;
+                trS(thread) += S(i, i);
+            }
+            catch (const exception& e)
+            {
+                GWM_LOG_ERROR(e.what());
+                success = false;
+            }
         }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
 
-    if (mStatus == Status::Success && S.is_finite())
+    if (mStatus == Status::Success && success && S.is_finite())
     {
         double trs = sum(trS);
         double AICc = -2 * mLLik + 2 * trs + 2 * trs * (trs + 1) / (n - trs - 1);
-- 
2.43.0


From 60f8d3bde6e9838959e375881a5c692c17786009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:15 +0000
Subject: [PATCH 39/65] fix: generalised GWR prediction ignored the requested
 locations

---
 src/gwmodelpp/GWRGeneralized.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 519ae95..7d67424 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -171,14 +171,30 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
-    mHasHatMatrix = false;
-    createPredictionDistanceParameter(locations);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    uword nDp = mCoords.n_rows, nRp = locations.n_rows, nVars = mX.n_cols;
+    // calibrate the working response and weights at the observations
+    createDistanceParameter();
+    mWtMat1 = mat(nDp, nDp, fill::zeros);
+    for (uword i = 0; i < nDp; i++)
+    {
+        mWtMat1.col(i) = mSpatialWeight.weightVector(i);
+    }
+    (this->*mCalWtFunction)(mX, mY, mWtMat1);
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
-    mBetas = (this->*mGGWRfitFunction)(mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    // solve the local models at the given locations
+    createPredictionDistanceParameter(locations);
+    mat betas(nRp, nVars, arma::fill::zeros);
+    for (uword i = 0; i < nRp; i++)
+    {
+        GWM_LOG_STOP_BREAK(mStatus);
+        vec wi = mSpatialWeight.weightVector(i);
+        betas.row(i) = trans(gwPredict(mX, myAdj, wi % mWt2));
+        GWM_LOG_PROGRESS(i + 1, nRp);
+    }
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
+    mBetas = betas;
     return mBetas;
 }
 
-- 
2.43.0


From 053ff95a96ab36f3ebb02d66a74c7f68fad75519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:14 +0000
Subject: [PATCH 40/65] fix: a cancelled run left the algorithm object
 cancelled for good

---
 src/gwmodelpp/GTWR.cpp                 | 2 ++
 src/gwmodelpp/GWDA.cpp                 | 1 +
 src/gwmodelpp/GWDR.cpp                 | 1 +
 src/gwmodelpp/GWPCA.cpp                | 1 +
 src/gwmodelpp/GWRBasic.cpp             | 2 ++
 src/gwmodelpp/GWRGeneralized.cpp       | 2 ++
 src/gwmodelpp/GWRLocalCollinearity.cpp | 2 ++
 src/gwmodelpp/GWRMultiscale.cpp        | 1 +
 src/gwmodelpp/GWRRobust.cpp            | 2 ++
 src/gwmodelpp/GWRScalable.cpp          | 2 ++
 src/gwmodelpp/GWSS.cpp                 | 1 +
 11 files changed, 17 insertions(+)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index b1fc87d..62f0eac 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -28,6 +28,7 @@ RegressionDiagnostic GTWR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GTWR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing")
     createDistanceParameter();
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
@@ -91,6 +92,7 @@ mat GTWR::fit()
 
 mat GTWR::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createPredictionDistanceParameter(locations);
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
     return mBetas;
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 13ff91a..0e35f45 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -28,6 +28,7 @@ bool GWDA::isValid()
 // template<class T>
 void GWDA::run()
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     uword nRp = mCoords.n_rows;
     if(mX.n_cols<2){
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 5cf826b..7af3a38 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -31,6 +31,7 @@ RegressionDiagnostic GWDR::CalcDiagnostic(const mat& x, const vec& y, const mat&
 
 mat GWDR::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDims = mCoords.n_cols, nDp = mCoords.n_rows, nVars = mX.n_cols;
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index a2a954a..d9d938a 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -5,6 +5,7 @@ using namespace gwm;
 
 void GWPCA::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     createDistanceParameter();
     GWM_LOG_STOP_RETURN(mStatus, void());
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index c265037..296eacd 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -61,6 +61,7 @@ RegressionDiagnostic GWRBasic::CalcDiagnostic(const mat& x, const vec& y, const
 
 mat GWRBasic::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
 #ifdef ENABLE_MPI
@@ -171,6 +172,7 @@ mat GWRBasic::fit()
 
 mat GWRBasic::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 7d67424..462d146 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -19,6 +19,7 @@ using namespace gwm;
 
 mat GWRGeneralized::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     // 初始化
     // setXY(mX, mY, mSourceLayer, mDepVar, mIndepVars);
@@ -171,6 +172,7 @@ void GWRGeneralized::createPredictionDistanceParameter(const arma::mat &location
 }
 mat GWRGeneralized::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nRp = locations.n_rows, nVars = mX.n_cols;
     // calibrate the working response and weights at the observations
     createDistanceParameter();
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index dc0f99c..dcb0fd0 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -38,6 +38,7 @@ GWRLocalCollinearity::~GWRLocalCollinearity()
 
 mat GWRLocalCollinearity::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -99,6 +100,7 @@ void GWRLocalCollinearity::createPredictionDistanceParameter(const arma::mat& lo
 
 mat GWRLocalCollinearity::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createPredictionDistanceParameter(locations);
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 0600827..d2d69ba 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -81,6 +81,7 @@ RegressionDiagnostic GWRMultiscale::CalcDiagnostic(const mat &x, const vec &y, c
 
 mat GWRMultiscale::fit()
 {
+    mStatus = Status::Success;
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     // ********************************
     // Centering and scaling predictors
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index bb5b53d..704f9e4 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -29,6 +29,7 @@ RegressionDiagnostic GWRRobust::CalcDiagnostic(const mat &x, const vec &y, const
 
 mat GWRRobust::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
@@ -106,6 +107,7 @@ mat GWRRobust::fit()
 
 mat GWRRobust::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     size_t nDp = locations.n_rows, nVar = mX.n_cols;
 
     createPredictionDistanceParameter(locations);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 90c5a91..2860540 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -299,6 +299,7 @@ void GWRScalable::prepare()
 
 mat GWRScalable::predict(const mat& locations)
 {
+    mStatus = Status::Success;
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
     findDataPointNeighbours();
@@ -462,6 +463,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
 
 mat GWRScalable::fit()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     createDistanceParameter();
     mDpSpatialWeight = mSpatialWeight;
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index f1acf85..1e5ec2c 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -62,6 +62,7 @@ bool GWSS::isValid()
 
 void GWSS::run()
 {
+    mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nRp = mCoords.n_rows, nVar = mX.n_cols;
     createDistanceParameter();
-- 
2.43.0


From 2ede8c7c380daa85477cfaa9bbb0305745ddfccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:00 +0000
Subject: [PATCH 41/65] fix: local quantiles read before the start of the
 sorted values when one weight dominates

---
 src/gwmodelpp/GWSS.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 1e5ec2c..464a65e 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -34,14 +34,10 @@ vec GWSS::findq(const mat &x, const vec &w)
         double k = 0.25 * (j + 1);
         for(uword i = 0; i < lw; i++){
             if(Cum(i) > k){
-                cond = i - 1;
+                cond = i > 0 ? i - 1 : 0;
                 break;
             }
         }
-        if(cond < 0)
-        {
-            cond = 0;
-        }
         q.row(j) = xo[cond];
         cond = lw - 1;
     }
-- 
2.43.0


From 4ee46f570a58f3a5fe25f4ef9885d3bfa074678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:09 +0000
Subject: [PATCH 42/65] fix: diagnostics of a cancelled or unfinished run were
 uninitialised memory

---
 include/gwmodelpp/RegressionDiagnostic.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/gwmodelpp/RegressionDiagnostic.h b/include/gwmodelpp/RegressionDiagnostic.h
index dece266..b35b75f 100644
--- a/include/gwmodelpp/RegressionDiagnostic.h
+++ b/include/gwmodelpp/RegressionDiagnostic.h
@@ -10,13 +10,13 @@ namespace gwm
  */
 struct RegressionDiagnostic
 {
-    double RSS;             //!< \~english Sum of squared residual \~chinese 残差平方和
-    double AIC;             //!< \~english Akaike information criterion  \~chinese 赤池信息准则指数
-    double AICc;            //!< \~english Corrected Akaike information criterion \~chinese 修正赤池信息准则指数
-    double ENP;             //!< \~english Effective number of parameters \~chinese 有效参数数
-    double EDF;             //!< \~english Effective degrees of freedom \~chinese 有效自由度
-    double RSquare;         //!< \f$R^2\f$
-    double RSquareAdjust;   //!< \~english Adjusted \f$R^2\f$ \~chinese 调整 \f$R^2\f$ 值
+    double RSS = 0.0;       //!< \~english Sum of squared residual \~chinese 残差平方和
+    double AIC = 0.0;       //!< \~english Akaike information criterion  \~chinese 赤池信息准则指数
+    double AICc = 0.0;      //!< \~english Corrected Akaike information criterion \~chinese 修正赤池信息准则指数
+    double ENP = 0.0;       //!< \~english Effective number of parameters \~chinese 有效参数数
+    double EDF = 0.0;       //!< \~english Effective degrees of freedom \~chinese 有效自由度
+    double RSquare = 0.0;   //!< \f$R^2\f$
+    double RSquareAdjust = 0.0;   //!< \~english Adjusted \f$R^2\f$ \~chinese 调整 \f$R^2\f$ 值
 };
 
 }
-- 
2.43.0


From ff3b6ad6aa93c43a11571935b1b6dfd81f6b7893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:09 +0000
Subject: [PATCH 43/65] fix: default-constructed bandwidth weights had
 indeterminate size, type and kernel

---
 include/gwmodelpp/spatialweight/BandwidthWeight.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/gwmodelpp/spatialweight/BandwidthWeight.h b/include/gwmodelpp/spatialweight/BandwidthWeight.h
index e15828c..ab41efb 100644
--- a/include/gwmodelpp/spatialweight/BandwidthWeight.h
+++ b/include/gwmodelpp/spatialweight/BandwidthWeight.h
@@ -255,9 +255,9 @@ public:
 #endif // ENABLE_CUDA
 
 private:
-    double mBandwidth;          //!< \~english Bandwidth size \~chinese 带宽大小
-    bool mAdaptive;             //!< \~english Whether it is adaptive bandwidth \~chinese 是否使可变带宽
-    KernelFunctionType mKernel; //!< \~english Type of kernel function \~chinese 核函数类型
+    double mBandwidth = 0.0;    //!< \~english Bandwidth size \~chinese 带宽大小
+    bool mAdaptive = false;     //!< \~english Whether it is adaptive bandwidth \~chinese 是否使可变带宽
+    KernelFunctionType mKernel = KernelFunctionType::Gaussian; //!< \~english Type of kernel function \~chinese 核函数类型
 };
 
 }
-- 
2.43.0


From 6a8dc9c990d50c172d0ec461bad40e47bb7a0636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:42 +0000
Subject: [PATCH 44/65] fix: scalable GWR returned empty or stale coefficients
 when no parameters were feasible

---
 src/gwmodelpp/GWRScalable.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 2860540..10e646c 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -331,6 +331,11 @@ mat GWRScalable::predict(const mat& locations)
     mCV = optimize(mMx0, mMy0, b_tilde, alpha);
     GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVar, fill::zeros));
 
+    if (!(mCV < DBL_MAX))
+    {
+        throw std::runtime_error("No feasible scale and penalty parameters.");
+    }
+
     if (mCV < DBL_MAX)
     {
         mScale = b_tilde * b_tilde;
@@ -499,6 +504,11 @@ mat GWRScalable::fit()
     mCV = optimize(mMx0, mMy0, b_tilde, alpha);
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, fill::zeros));
 
+    if (!(mCV < DBL_MAX))
+    {
+        throw std::runtime_error("No feasible scale and penalty parameters.");
+    }
+
     if (mCV < DBL_MAX)
     {
         GWM_LOG_STAGE("Model fitting");
-- 
2.43.0


From 356f51d3c5b3fa2571a940545522c37e424f7a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:09 +0000
Subject: [PATCH 45/65] fix: failing local models raced on the failure flag of
 multithreaded density regression searches

---
 src/gwmodelpp/GWDR.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 7af3a38..b1fd2da 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -372,7 +372,7 @@ double GWDR::bandwidthCriterionCVOmp(const vector<BandwidthWeight*>& bandwidths)
 {
     uword nDp = mCoords.n_rows, nDim = mCoords.n_cols;
     vec cv_all(mOmpThreadNum, arma::fill::zeros);
-    bool success = true;
+    std::atomic<bool> success(true);
     std::exception except;
     for (size_t i = 0; i < nDp; i++)
     {
@@ -610,7 +610,8 @@ double GWDR::indepVarCriterionOmp(const vector<size_t>& indepVars)
     uword nDp = mCoords.n_rows, nVar = x.n_cols;
     mat betas(nVar, nDp, fill::zeros);
     double trS = 0.0;
-    bool isGlobal = false, success = true;
+    bool isGlobal = false;
+    std::atomic<bool> success(true);
     if (mEnableBandwidthOptimize) isGlobal = true;
     else
     {
-- 
2.43.0


From 6859266476ead435e8bbc4d2681027cb57465a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:44 +0000
Subject: [PATCH 46/65] fix: cancelled density regression bandwidth searches
 kept iterating to the limit

---
 src/gwmodelpp/GWDR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index b1fd2da..7db3e86 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -804,7 +804,7 @@ const int GWDRBandwidthOptimizer::optimize(GWDR* instance, uword featureCount, s
         {
             iter++;
             status = gsl_multimin_fminimizer_iterate(minimizer);
-            if (status && instance->status() != Status::Success)
+            if (instance->status() != Status::Success)
                 break;
             size = gsl_multimin_fminimizer_size(minimizer);
             status = gsl_multimin_test_size(size, eps);
-- 
2.43.0


From d6f1af32aabede6ac06bdac6cdd5d191ddaf09e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:44 +0000
Subject: [PATCH 47/65] fix: cancelled predictions returned one row per
 observation instead of per location

---
 src/gwmodelpp/GWRBasic.cpp             | 6 +++---
 src/gwmodelpp/GWRLocalCollinearity.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 296eacd..5dfbfc6 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -174,7 +174,7 @@ mat GWRBasic::predict(const mat& locations)
 {
     mStatus = Status::Success;
     GWM_LOG_STAGE("Initialization");
-    uword nDp = mCoords.n_rows, nVars = mX.n_cols;
+    uword nRp = locations.n_rows, nVars = mX.n_cols;
     createPredictionDistanceParameter(locations);
 #ifdef ENABLE_CUDA
     if (mParallelType & ParallelType::CUDA)
@@ -183,11 +183,11 @@ mat GWRBasic::predict(const mat& locations)
         mSpatialWeight.prepareCuda(mGpuId);
     }
 #endif // ENABLE_CUDA
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
     
     GWM_LOG_STAGE("Prediction");
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVars, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVars, arma::fill::zeros));
 
 #ifdef ENABLE_CUDA
     if (mParallelType & ParallelType::CUDA)
diff --git a/src/gwmodelpp/GWRLocalCollinearity.cpp b/src/gwmodelpp/GWRLocalCollinearity.cpp
index dcb0fd0..02b124d 100644
--- a/src/gwmodelpp/GWRLocalCollinearity.cpp
+++ b/src/gwmodelpp/GWRLocalCollinearity.cpp
@@ -101,12 +101,12 @@ void GWRLocalCollinearity::createPredictionDistanceParameter(const arma::mat& lo
 mat GWRLocalCollinearity::predict(const mat& locations)
 {
     mStatus = Status::Success;
-    uword nDp = mCoords.n_rows, nVar = mX.n_cols;
+    uword nRp = locations.n_rows, nVar = mX.n_cols;
     createPredictionDistanceParameter(locations);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVar, arma::fill::zeros));
 
     mBetas = (this->*mPredictFunction)(locations, mX, mY);
-    GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
+    GWM_LOG_STOP_RETURN(mStatus, mat(nRp, nVar, arma::fill::zeros));
     
     return mBetas;
 }
-- 
2.43.0


From 0d0feabd9963dfffa0dd5381ad619903fa7f4291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:02 +0000
Subject: [PATCH 48/65] fix: generalised GWR without the hat matrix kept the
 diagnostics of an earlier model

---
 src/gwmodelpp/GWRGeneralized.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 462d146..e856e45 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -157,6 +157,7 @@ mat GWRGeneralized::fit()
     }
     else
     {
+        mDiagnostic = GWRGeneralizedDiagnostic();
         mBetas = trans(mBetas);
         return mBetas;
     }
-- 
2.43.0


From 68b147544dd06b62db3d4d4eaa019b30da10e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:46 +0000
Subject: [PATCH 49/65] fix: errors in computing weights aborted multithreaded
 runs

---
 src/gwmodelpp/GTWR.cpp           | 38 +++++++-------
 src/gwmodelpp/GWDA.cpp           | 13 ++++-
 src/gwmodelpp/GWDR.cpp           | 78 ++++++++++++++---------------
 src/gwmodelpp/GWRBasic.cpp       | 34 ++++++-------
 src/gwmodelpp/GWRGeneralized.cpp | 32 +++++++++---
 src/gwmodelpp/GWRMultiscale.cpp  | 34 ++++++-------
 src/gwmodelpp/GWRRobust.cpp      |  8 +--
 src/gwmodelpp/GWSS.cpp           | 85 ++++++++++++++++++++------------
 8 files changed, 186 insertions(+), 136 deletions(-)

diff --git a/src/gwmodelpp/GTWR.cpp b/src/gwmodelpp/GTWR.cpp
index 62f0eac..106e2e4 100644
--- a/src/gwmodelpp/GTWR.cpp
+++ b/src/gwmodelpp/GTWR.cpp
@@ -294,12 +294,12 @@ mat GTWR::predictOmp(const mat& locations, const mat& x, const vec& y)
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (success)
         {
-            vec w = mSpatialWeight.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -336,12 +336,12 @@ mat GTWR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qDiag
         if (success)
         {
             int thread = omp_get_thread_num();
-            vec w = mSpatialWeight.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
@@ -387,14 +387,14 @@ double GTWR::bandwidthSizeCriterionCVOmp(BandwidthWeight* bandwidthWeight)
         if (flag)
         {
             int thread = omp_get_thread_num();
-            vec d = mSpatialWeight.distance()->distance(i);
-            vec w = bandwidthWeight->weight(d);
-            w(i) = 0.0;
-            mat xtw = trans(mX.each_col() % w);
-            mat xtwx = xtw * mX;
-            mat xtwy = xtw * mY;
             try
             {
+                vec d = mSpatialWeight.distance()->distance(i);
+                vec w = bandwidthWeight->weight(d);
+                w(i) = 0.0;
+                mat xtw = trans(mX.each_col() % w);
+                mat xtwx = xtw * mX;
+                mat xtwy = xtw * mY;
                 mat xtwx_inv = inv_sympd(xtwx);
                 vec beta = xtwx_inv * xtwy;
                 double res = mY(i) - det(mX.row(i) * beta);
@@ -433,13 +433,13 @@ double GTWR::bandwidthSizeCriterionAICOmp(BandwidthWeight* bandwidthWeight)
         if (flag)
         {
             int thread = omp_get_thread_num();
-            vec d = mSpatialWeight.distance()->distance(i);
-            vec w = bandwidthWeight->weight(d);
-            mat xtw = trans(mX.each_col() % w);
-            mat xtwx = xtw * mX;
-            mat xtwy = xtw * mY;
             try
             {
+                vec d = mSpatialWeight.distance()->distance(i);
+                vec w = bandwidthWeight->weight(d);
+                mat xtw = trans(mX.each_col() % w);
+                mat xtwx = xtw * mX;
+                mat xtwy = xtw * mY;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 0e35f45..2fa6f8c 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -1,5 +1,6 @@
 #include "GWDA.h"
 #include <assert.h>
+#include <atomic>
 #include <vector>
 #include <string>
 
@@ -109,11 +110,21 @@ void GWDA::discriminantAnalysisOmp()
     // uword nVar = mX.n_cols;//nPr = mprX.n_rows;
     vector<string> lev = levels(mY);
     mat wt(nRp, nRp, fill::zeros);
+    std::atomic<bool> success(true);
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nRp; i++)
     {
-        wt.col(i) = mSpatialWeight.weightVector(i);
+        try
+        {
+            wt.col(i) = mSpatialWeight.weightVector(i);
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
+        }
     }
+    if (!success) throw std::runtime_error("Failed to calculate spatial weights.");
     if (!mHasPredict) wt.diag().zeros();
     if (mIsWqda)
     {
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 7db3e86..a8f8131 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -173,18 +173,18 @@ mat GWDR::predictOmp(const mat& locations, const mat& x, const vec& y)
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (success)
         {
-            vec w(nDp, arma::fill::ones);
-            for (auto&& sw : mSpatialWeights)
-            {
-                vec w_m = sw.weightVector(i);
-                w = w % w_m;
-            }
-            mat ws(1, nVar, arma::fill::ones);
-            mat xtw = (x %(w * ws)).t();
-            mat xtwx = xtw * x;
-            mat xtwy = x.t() * (w % y);
             try
             {
+                vec w(nDp, arma::fill::ones);
+                for (auto&& sw : mSpatialWeights)
+                {
+                    vec w_m = sw.weightVector(i);
+                    w = w % w_m;
+                }
+                mat ws(1, nVar, arma::fill::ones);
+                mat xtw = (x %(w * ws)).t();
+                mat xtwx = xtw * x;
+                mat xtwy = x.t() * (w % y);
                 mat xtwx_inv = xtwx.i();
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -275,18 +275,18 @@ mat GWDR::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec& qdiag
         int thread = omp_get_thread_num();
         if (success)
         {
-            vec w(nDp, arma::fill::ones);
-            for (auto&& sw : mSpatialWeights)
-            {
-                vec w_m = sw.weightVector(i);
-                w = w % w_m;
-            }
-            mat ws(1, nVar, arma::fill::ones);
-            mat xtw = trans(x %(w * ws));
-            mat xtwx = xtw * x;
-            mat xtwy = trans(x) * (w % y);
             try
             {
+                vec w(nDp, arma::fill::ones);
+                for (auto&& sw : mSpatialWeights)
+                {
+                    vec w_m = sw.weightVector(i);
+                    w = w % w_m;
+                }
+                mat ws(1, nVar, arma::fill::ones);
+                mat xtw = trans(x %(w * ws));
+                mat xtwx = xtw * x;
+                mat xtwy = trans(x) * (w % y);
                 mat xtwx_inv = xtwx.i();
                 betas.col(i) = xtwx_inv * xtwy;
                 // hatmatrix
@@ -482,18 +482,18 @@ double GWDR::bandwidthCriterionAICOmp(const vector<BandwidthWeight*>& bandwidths
         int thread = omp_get_thread_num();
         if (success)
         {
-            vec w(nDp, arma::fill::ones);
-            for (size_t m = 0; m < nDim; m++)
-            {
-                vec d_m = mSpatialWeights[m].distance()->distance(i);
-                vec w_m = bandwidths[m]->weight(d_m);
-                w = w % w_m;
-            }
-            mat xtw = (mX.each_col() % w).t();
-            mat xtwx = xtw * mX;
-            mat xtwy = mX.t() * (w % mY);
             try
             {
+                vec w(nDp, arma::fill::ones);
+                for (size_t m = 0; m < nDim; m++)
+                {
+                    vec d_m = mSpatialWeights[m].distance()->distance(i);
+                    vec w_m = bandwidths[m]->weight(d_m);
+                    w = w % w_m;
+                }
+                mat xtw = (mX.each_col() % w).t();
+                mat xtwx = xtw * mX;
+                mat xtwy = mX.t() * (w % mY);
                 mat xtwx_inv = xtwx.i();
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
@@ -653,17 +653,17 @@ double GWDR::indepVarCriterionOmp(const vector<size_t>& indepVars)
             int thread = omp_get_thread_num();
             if (success)
             {
-                vec w(nDp, arma::fill::ones);
-                for (auto&& sw : mSpatialWeights)
-                {
-                    vec w_m = sw.weightVector(i);
-                    w = w % w_m;
-                }
-                mat xtw = (x.each_col() % w).t();
-                mat xtwx = xtw * x;
-                mat xtwy = xtw * y;
                 try
                 {
+                    vec w(nDp, arma::fill::ones);
+                    for (auto&& sw : mSpatialWeights)
+                    {
+                        vec w_m = sw.weightVector(i);
+                        w = w % w_m;
+                    }
+                    mat xtw = (x.each_col() % w).t();
+                    mat xtwx = xtw * x;
+                    mat xtwy = xtw * y;
                     mat xtwx_inv = inv_sympd(xtwx);
                     betas.col(i) = xtwx_inv * xtwy;
                     mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 5dfbfc6..653797a 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -432,12 +432,12 @@ mat GWRBasic::predictOmp(const mat& locations, const mat& x, const vec& y)
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (success)
         {
-            vec w = mSpatialWeight.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -477,12 +477,12 @@ mat GWRBasic::fitCoreOmp(const mat& x, const vec& y, const SpatialWeight& sw)
         if (success)
         {
             int thread = omp_get_thread_num();
-            vec w = mSpatialWeight.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
@@ -528,13 +528,13 @@ arma::mat GWRBasic::fitCoreCVOmp(const arma::mat& x, const arma::vec& y, const S
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (success)
         {
-            vec w = sw.weightVector(i);
-            w(i) = 0.0;
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                w(i) = 0.0;
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -568,12 +568,12 @@ arma::mat GWRBasic::fitCoreSHatOmp(const arma::mat& x, const arma::vec& y, const
         if (success)
         {
             int thread = omp_get_thread_num();
-            vec w = sw.weightVector(i);
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index e856e45..6222ba5 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -644,13 +644,22 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionCVOmp(BandwidthWeight *bandwidt
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (true)
         {
-            vec d = mSpatialWeight.distance()->distance(i);
-            vec w = bandwidthWeight->weight(d);
-            w.row(i) = 0;
-            wt.col(i) = w;
+            try
+            {
+                vec d = mSpatialWeight.distance()->distance(i);
+                vec w = bandwidthWeight->weight(d);
+                w.row(i) = 0;
+                wt.col(i) = w;
+            }
+            catch (const exception& e)
+            {
+                GWM_LOG_ERROR(e.what());
+                success = false;
+            }
         }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
+    if (!success) return DBL_MAX;
 
     (this->*mCalWtFunction)(mX, mY, wt);
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
@@ -751,12 +760,21 @@ double GWRGeneralized::bandwidthSizeGGWRCriterionAICOmp(BandwidthWeight *bandwid
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (true)
         {
-            vec d = mSpatialWeight.distance()->distance(i);
-            vec w = bandwidthWeight->weight(d);
-            wt.col(i) = w;
+            try
+            {
+                vec d = mSpatialWeight.distance()->distance(i);
+                vec w = bandwidthWeight->weight(d);
+                wt.col(i) = w;
+            }
+            catch (const exception& e)
+            {
+                GWM_LOG_ERROR(e.what());
+                success = false;
+            }
         }
     }
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
+    if (!success) return DBL_MAX;
     
     (this->*mCalWtFunction)(mX, mY, wt);
     GWM_LOG_STOP_RETURN(mStatus, DBL_MAX);
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index d2d69ba..da9bf24 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -633,12 +633,12 @@ vec GWRMultiscale::fitVarCoreOmp(const vec &x, const vec &y, const SpatialWeight
         for (uword i = workRange.first; i < workRange.second; i++)
         {
             GWM_LOG_STOP_CONTINUE(mStatus);
-            vec w = sw.weightVector(i);
-            mat xtw = trans(x % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                mat xtw = trans(x % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
@@ -660,12 +660,12 @@ vec GWRMultiscale::fitVarCoreOmp(const vec &x, const vec &y, const SpatialWeight
         for (uword i = workRange.first; i < workRange.second; i++)
         {
             GWM_LOG_STOP_CONTINUE(mStatus);
-            vec w = sw.weightVector(i);
-            mat xtw = trans(x % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                mat xtw = trans(x % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
             }
@@ -697,13 +697,13 @@ vec GWRMultiscale::fitVarCoreCVOmp(const vec &x, const vec &y, const SpatialWeig
         GWM_LOG_STOP_CONTINUE(mStatus);
         if (flag)
         {
-            vec w = sw.weightVector(i);
-            w(i) = 0.0;
-            mat xtw = trans(x % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                w(i) = 0.0;
+                mat xtw = trans(x % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 beta(i) = as_scalar(xtwx_inv * xtwy);
             }
@@ -735,12 +735,12 @@ vec GWRMultiscale::fitVarCoreSHatOmp(const vec &x, const vec &y, const SpatialWe
         if (flag)
         {
             int thread = omp_get_thread_num();
-            vec w = sw.weightVector(i);
-            mat xtw = trans(x % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = sw.weightVector(i);
+                mat xtw = trans(x % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas(i) = as_scalar(xtwx_inv * xtwy);
                 mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWRRobust.cpp b/src/gwmodelpp/GWRRobust.cpp
index 704f9e4..413e6c9 100644
--- a/src/gwmodelpp/GWRRobust.cpp
+++ b/src/gwmodelpp/GWRRobust.cpp
@@ -186,12 +186,12 @@ mat GWRRobust::fitOmp(const mat& x, const vec& y, mat& betasSE, vec& shat, vec&
         if (success)
         {
             int thread = omp_get_thread_num();
-            vec w = mSpatialWeight.weightVector(i) % mWeightMask;
-            mat xtw = trans(x.each_col() % w);
-            mat xtwx = xtw * x;
-            mat xtwy = xtw * y;
             try
             {
+                vec w = mSpatialWeight.weightVector(i) % mWeightMask;
+                mat xtw = trans(x.each_col() % w);
+                mat xtwx = xtw * x;
+                mat xtwy = xtw * y;
                 mat xtwx_inv = inv_sympd(xtwx);
                 betas.col(i) = xtwx_inv * xtwy;
                 mat ci = xtwx_inv * xtw;
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 464a65e..7279b1c 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -1,5 +1,6 @@
 #include "GWSS.h"
 #include <assert.h>
+#include <atomic>
 #include <map>
 
 #ifdef ENABLE_OPENMP
@@ -176,31 +177,41 @@ void GWSS::GWAverageOmp()
     rankX.each_col([&](vec &x) { x = rank(x); });
     uword nVar = mX.n_cols;
     uword nRp = mCoords.n_rows;
+    std::atomic<bool> success(true);
 #pragma omp parallel for num_threads(mOmpThreadNum)
     for (uword i = 0; i < nRp; i++)
     {
         GWM_LOG_STOP_CONTINUE(mStatus);
-        vec w = mSpatialWeight.weightVector(i);
-        double sumw = sum(w);
-        vec Wi = w / sumw;
-        mLocalMean.row(i) = trans(Wi) * mX;
-        if (mQuantile)
+        try
         {
-            mat quant = mat(3, nVar);
-            for (uword j = 0; j < nVar; j++)
+            vec w = mSpatialWeight.weightVector(i);
+            double sumw = sum(w);
+            vec Wi = w / sumw;
+            mLocalMean.row(i) = trans(Wi) * mX;
+            if (mQuantile)
             {
-                quant.col(j) = findq(mX.col(j), Wi);
+                mat quant = mat(3, nVar);
+                for (uword j = 0; j < nVar; j++)
+                {
+                    quant.col(j) = findq(mX.col(j), Wi);
+                }
+                mLocalMedian.row(i) = quant.row(1);
+                mIQR.row(i) = quant.row(2) - quant.row(0);
+                mQI.row(i) = (2 * quant.row(1) - quant.row(2) - quant.row(0)) / mIQR.row(i);
             }
-            mLocalMedian.row(i) = quant.row(1);
-            mIQR.row(i) = quant.row(2) - quant.row(0);
-            mQI.row(i) = (2 * quant.row(1) - quant.row(2) - quant.row(0)) / mIQR.row(i);
+            mat centerized = mX.each_row() - mLocalMean.row(i);
+            mLVar.row(i) = Wi.t() * (centerized % centerized);
+            mStandardDev.row(i) = sqrt(mLVar.row(i));
+            mLocalSkewness.row(i) = (Wi.t() * (centerized % centerized % centerized)) / (mLVar.row(i) % mStandardDev.row(i));
+        }
+        catch (const exception& e)
+        {
+            GWM_LOG_ERROR(e.what());
+            success = false;
         }
-        mat centerized = mX.each_row() - mLocalMean.row(i);
-        mLVar.row(i) = Wi.t() * (centerized % centerized);
-        mStandardDev.row(i) = sqrt(mLVar.row(i));
-        mLocalSkewness.row(i) = (Wi.t() * (centerized % centerized % centerized)) / (mLVar.row(i) % mStandardDev.row(i));
         GWM_LOG_PROGRESS(i + 1, nRp);
     }
+    if (!success) throw std::runtime_error("Failed to calculate local statistics.");
     mLCV = mStandardDev / mLocalMean;
 }
 #endif
@@ -215,33 +226,43 @@ void GWSS::GWCorrelationOmp()
     uword corrSize = mIsCorrWithFirstOnly ? 1 : nVar - 1;
     if (nVar >= 2)
     {
+        std::atomic<bool> success(true);
 #pragma omp parallel for num_threads(mOmpThreadNum)
         for (uword i = 0; i < nRp; i++)
         {
             GWM_LOG_STOP_CONTINUE(mStatus);
-            vec w = mSpatialWeight.weightVector(i);
-            double sumw = sum(w);
-            vec Wi = w / sumw;
-            mLocalMean.row(i) = trans(Wi) * mX;
-            mat centerized = mX.each_row() - mLocalMean.row(i);
-            mLVar.row(i) = Wi.t() * (centerized % centerized);
-            uword tag = 0;
-            for (uword j = 0; j < corrSize; j++)
+            try
             {
-                for (uword k = j + 1; k < nVar; k++)
+                vec w = mSpatialWeight.weightVector(i);
+                double sumw = sum(w);
+                vec Wi = w / sumw;
+                mLocalMean.row(i) = trans(Wi) * mX;
+                mat centerized = mX.each_row() - mLocalMean.row(i);
+                mLVar.row(i) = Wi.t() * (centerized % centerized);
+                uword tag = 0;
+                for (uword j = 0; j < corrSize; j++)
                 {
-                    double covjk = covwt(mX.col(j), mX.col(k), Wi);
-                    double sumW2 = sum(Wi % Wi);
-                    double covjj = mLVar(i, j) / (1.0 - sumW2);
-                    double covkk = mLVar(i, k) / (1.0 - sumW2);
-                    mCovmat(i, tag) = covjk;
-                    mCorrmat(i, tag) = covjk / sqrt(covjj * covkk);
-                    mSCorrmat(i, tag) = corwt(rankX.col(j), rankX.col(k), Wi);
-                    tag++;
+                    for (uword k = j + 1; k < nVar; k++)
+                    {
+                        double covjk = covwt(mX.col(j), mX.col(k), Wi);
+                        double sumW2 = sum(Wi % Wi);
+                        double covjj = mLVar(i, j) / (1.0 - sumW2);
+                        double covkk = mLVar(i, k) / (1.0 - sumW2);
+                        mCovmat(i, tag) = covjk;
+                        mCorrmat(i, tag) = covjk / sqrt(covjj * covkk);
+                        mSCorrmat(i, tag) = corwt(rankX.col(j), rankX.col(k), Wi);
+                        tag++;
+                    }
                 }
             }
+            catch (const exception& e)
+            {
+                GWM_LOG_ERROR(e.what());
+                success = false;
+            }
             GWM_LOG_PROGRESS(i + 1, nRp);
         }
+        if (!success) throw std::runtime_error("Failed to calculate local statistics.");
     }
     else{
         throw std::runtime_error("The number of cols must be 2 or more.");
-- 
2.43.0


From b68ef70a1b26adea6737d868cafb287684dcfe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:58 +0000
Subject: [PATCH 50/65] fix: local standard deviations of GW principal
 components used the last location's weights

---
 src/gwmodelpp/GWPCA.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index d9d938a..38e7812 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -21,7 +21,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
 {
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
     mat d_all(nVar, nDp, arma::fill::zeros);
-    vec w0;
+    vec sumw(nDp, arma::fill::zeros);
     loadings = cube(nDp, nVar, mK, arma::fill::zeros);
     for (uword i = 0; i < nDp; i++)
     {
@@ -30,7 +30,7 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         mat V;
         vec d;
         wpca(x, w, V, d);
-        w0 = w;
+        sumw(i) = sum(w);
         d_all.col(i) = d;
         for (int j = 0; j < mK; j++)
         {
@@ -39,7 +39,8 @@ mat GWPCA::solveSerial(const mat& x, cube& loadings, mat& sdev)
         GWM_LOG_PROGRESS(i + 1, nDp);
     }
     d_all = trans(d_all);
-    mat variance = (d_all / sqrt(sum(w0))) % (d_all / sqrt(sum(w0)));
+    mat variance = d_all % d_all;
+    variance.each_col() /= sumw;
     sdev = sqrt(variance);
     mat pv = variance.cols(0, mK - 1).each_col() % (1.0 / sum(variance, 1)) * 100.0;
     return pv;
-- 
2.43.0


From 4dc703442c5110d250ab5c70e9257bdb02982058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:40 +0000
Subject: [PATCH 51/65] fix: generalised GWR reported the bandwidth candidates
 of a selector it never used

---
 include/gwmodelpp/GWRGeneralized.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index ad7308d..4f68dfe 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -507,7 +507,7 @@ inline void GWRGeneralized::setMaxiter(size_t maxiter)
 
 inline BandwidthCriterionList GWRGeneralized::bandwidthSelectorCriterions() const
 {
-    return mBandwidthSizeSelector.bandwidthCriterion();
+    return mBandwidthSelectionCriterionList;
 }
 
 inline bool GWRGeneralized::hasHatMatrix() const
-- 
2.43.0


From 1eaf1ba2c191c8e8f0c5c8fcfebd39906d7a1d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:40 +0000
Subject: [PATCH 52/65] fix: AICc of the global generalised linear model was
 truncated by integer division

---
 src/gwmodelpp/GWRGeneralized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 6222ba5..2cc361f 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -213,7 +213,7 @@ void GWRGeneralized::CalGLMModel(const mat &x, const vec &y)
     double dev = mGlm.dev();
     double pseudor2 = 1 - dev / nulldev;
     double aic = dev + 2 * nVar;
-    double aicc = aic + 2 * nVar * (nVar + 1) / (nDp - nVar - 1);
+    double aicc = aic + 2.0 * double(nVar * (nVar + 1)) / (double(nDp) - double(nVar) - 1.0);
     vec vGLMDiags(5);
     vGLMDiags(0) = aic;
     vGLMDiags(1) = aicc;
-- 
2.43.0


From cf8dd701128a9fae165e2a82993d9df7fdd44ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:17 +0000
Subject: [PATCH 53/65] fix: scalable GWR with the exponential kernel weighted
 neighbours by a Gaussian

---
 src/gwmodelpp/GWRScalable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index 10e646c..f26d918 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -319,7 +319,7 @@ mat GWRScalable::predict(const mat& locations)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>(min<uword>(50, nBw), mDpNNDists.n_cols) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -370,7 +370,7 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(rpNNDists.col(min<uword>(50, nBw) - 1)) / 3;
-        G0 = exp(-pow(rpNNDists / band0, 2));
+        G0 = exp(-rpNNDists / band0);
         break;
     default:
         return mat(nRp, nVar, fill::zeros);
@@ -489,7 +489,7 @@ mat GWRScalable::fit()
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(mDpNNDists.col(min<uword>(min<uword>(50, nBw), mDpNNDists.n_cols) - 1)) / 3;
-        mG0 = exp(-pow(mDpNNDists / band0, 2));
+        mG0 = exp(-mDpNNDists / band0);
         break;
     default:
         return mBetas;
@@ -554,7 +554,7 @@ arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
         break;
     case BandwidthWeight::KernelFunctionType::Exponential:
         band0 = median(dpNNDists.col(min<uword>(50, bw) - 1)) / 3;
-        mG0 = exp(-pow(dpNNDists / band0, 2));
+        mG0 = exp(-dpNNDists / band0);
         break;
     default:
         return betas.t();
-- 
2.43.0


From da54023c51e6be8e518f66c1c388b87b1861d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:57 +0000
Subject: [PATCH 54/65] fix: fitting scalable GWR with a bandwidth of all
 observations changed the configured bandwidth

---
 src/gwmodelpp/GWRScalable.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index f26d918..aa9355b 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -175,7 +175,7 @@ mat GWRScalable::findNeighbours(const mat& points, umat &nnIndex)
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     uword nDp = mCoords.n_rows;
     uword nRp = points.n_rows;
-    uword nBw = uword(bandwidth->bandwidth()) < nDp ? uword(bandwidth->bandwidth()) : nDp;
+    uword nBw = uword(bandwidth->bandwidth()) < nDp ? uword(bandwidth->bandwidth()) : nDp - 1;
     umat index(nBw, nRp, fill::zeros);
     mat dists(nBw, nRp, fill::zeros);
     for (uword i = 0; i < nRp; i++)
@@ -308,7 +308,6 @@ mat GWRScalable::predict(const mat& locations)
     if (nBw >= nDp) 
     {
         nBw = nDp - 1;
-        bandwidth->setBandwidth((double)nBw);
     }
     double band0 = 0.0;
     switch (bandwidth->kernel())
@@ -356,8 +355,12 @@ mat GWRScalable::predictSerial(const mat& locations, const arma::mat &x, const a
     }
     BandwidthWeight* bandwidth = mSpatialWeight.weight<BandwidthWeight>();
     //uword nDp = mCoords.n_rows;
-    uword nRp = locations.n_rows, nVar = mX.n_cols;
+    uword nDp = mCoords.n_rows, nRp = locations.n_rows, nVar = mX.n_cols;
     uword nBw = (uword)bandwidth->bandwidth();
+    if (nBw >= nDp)
+    {
+        nBw = nDp - 1;
+    }
     double band0 = 0.0;
     mat G0;
     umat rpNNIndex;
@@ -478,7 +481,6 @@ mat GWRScalable::fit()
     if (nBw >= nDp) 
     {
         nBw = nDp - 1;
-        bandwidth->setBandwidth((double)nBw);
     }
     double band0 = 0.0;
     switch (bandwidth->kernel())
@@ -536,8 +538,7 @@ arma::mat GWRScalable::fitSerial(const arma::mat &x, const arma::vec &y)
     uword n = x.n_rows, k = x.n_cols, poly1 = mPolynomial + 1;
     if (bw >= n)
     {
-        bw = bw - 1;
-        bandwidth->setBandwidth((double)bw);
+        bw = n - 1;
     }
     double b = mScale, a = mPenalty;
     mat XtX = x.t() * x, XtY = x.t() * y;
-- 
2.43.0


From e335b022d76a3c84b5d173a1cc868f222e8424e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:45 +0000
Subject: [PATCH 55/65] fix: serial fits after an MPI fit covered only the
 process's share of the observations

---
 src/gwmodelpp/GWRBasic.cpp      | 1 +
 src/gwmodelpp/GWRMultiscale.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 653797a..ac8e632 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -64,6 +64,7 @@ mat GWRBasic::fit()
     mStatus = Status::Success;
     GWM_LOG_STAGE("Initializing");
     uword nDp = mCoords.n_rows, nVars = mX.n_cols;
+    mWorkRange.reset();
 #ifdef ENABLE_MPI
     // Sync x, y, coords with other processes
     if (mParallelType & ParallelType::MPI)
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index da9bf24..1aa1294 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -149,6 +149,7 @@ mat GWRMultiscale::fit()
     createDistanceParameter(nVar);
     mMaxDistances.resize(nVar);
     mMinDistances.resize(nVar);
+    mWorkRange.reset();
 #ifdef ENABLE_MPI
     if (mParallelType & ParallelType::MPI)
     {
-- 
2.43.0


From e0dac442a4fcb40b955ee0e9d3c895c3cc6d990b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:58 +0000
Subject: [PATCH 56/65] fix: MPI fits hung or crashed when a process got no
 observations

---
 src/gwmodelpp/GWRBasic.cpp      | 16 ++++++++++------
 src/gwmodelpp/GWRMultiscale.cpp |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index ac8e632..809bd86 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -95,7 +95,7 @@ mat GWRBasic::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);   // empty when there is nothing left to do
         // cout << mWorkerId << " process work range: [" << workRangeFrom << "," << min(workRangeFrom + mWorkRangeSize, nDp) << "]\n";
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
         // cout << mWorkerId << " process work range: [" << mWorkRange.value().first << "," << mWorkRange.value().second << "]\n";
@@ -973,14 +973,14 @@ arma::mat gwm::GWRBasic::fitMpi()
         MPI_Recv(buf.get(), bufSize, MPI_DOUBLE, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &status);
         // printf("0 process received message with %d from %d\n", status.MPI_TAG, status.MPI_SOURCE);
         received(status.MPI_SOURCE, status.MPI_TAG - int(GWRBasicFitMpiTags::Betas)) = 1;
-        uword rangeFrom = status.MPI_SOURCE * mWorkRangeSize, rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
+        uword rangeFrom = min(status.MPI_SOURCE * mWorkRangeSize, nDp), rangeTo = min(rangeFrom + mWorkRangeSize, nDp), rangeSize = rangeTo - rangeFrom;
         switch (GWRBasicFitMpiTags(status.MPI_TAG))
         {
         case GWRBasicFitMpiTags::Betas:
-            mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetas.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::BetasSE:
-            mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
+            if (rangeSize > 0) mBetasSE.cols(rangeFrom, rangeTo - 1) = mat(buf.get(), nVar, rangeSize);
             break;
         case GWRBasicFitMpiTags::SHat:
             shat_all.col(status.MPI_SOURCE) = vec(buf.get(), 2);
@@ -1009,8 +1009,12 @@ arma::mat gwm::GWRBasic::fitMpi()
     std::pair<uword, uword> workRange = mWorkRange.value_or(make_pair(0, nDp));
     // printf("%d process work range: [%lld, %lld]\n", mWorkerId, workRange.first, workRange.second);
     // cout << mWorkerId << " process work range: [" << workRange.first << "," << workRange.second << "]\n";
-    mat betas = mBetas.cols(workRange.first, workRange.second - 1);
-    mat betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    mat betas, betasSE;
+    if (workRange.first < workRange.second)
+    {
+        betas = mBetas.cols(workRange.first, workRange.second - 1);
+        betasSE = mBetasSE.cols(workRange.first, workRange.second - 1);
+    }
     MPI_Send(betas.memptr(), betas.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::Betas), MPI_COMM_WORLD);
     MPI_Send(betasSE.memptr(), betasSE.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::BetasSE), MPI_COMM_WORLD);
     MPI_Send(mSHat.memptr(), mSHat.n_elem, MPI_DOUBLE, 0, int(GWRBasicFitMpiTags::SHat), MPI_COMM_WORLD);
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 1aa1294..91a11b5 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -177,7 +177,7 @@ mat GWRMultiscale::fit()
         MPI_Bcast(mX.memptr(), mX.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mY.memptr(), mY.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
         MPI_Bcast(mCoords.memptr(), mCoords.n_elem, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-        uword workRangeFrom = uword(mWorkerId) * mWorkRangeSize;
+        uword workRangeFrom = min(uword(mWorkerId) * mWorkRangeSize, nDp);   // empty when there is nothing left to do
         mWorkRange = make_pair(workRangeFrom, min(workRangeFrom + mWorkRangeSize, nDp));
     }
 #endif // ENABLE_MPI
@@ -264,7 +264,7 @@ mat GWRMultiscale::fit()
         if (mParallelType & ParallelType::MPI)
         {
             vec shati(2);
-            shati(0) = trace(mS0.cols(workRange.first, workRange.second - 1));
+            shati(0) = workRange.first < workRange.second ? trace(mS0.cols(workRange.first, workRange.second - 1)) : 0.0;
             shati(1) = trace(mS0 * mS0.t());
             MPI_Reduce(shati.memptr(), shat.memptr(), 2, MPI_DOUBLE, MPI_SUM, 0, MPI_COMM_WORLD);
             MPI_Bcast(shat.memptr(), 2, MPI_DOUBLE, 0, MPI_COMM_WORLD);
-- 
2.43.0


From 9d4ee290ba51b74de368e57ee1503482480cf941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:59 +0000
Subject: [PATCH 57/65] fix: a local model failing on one MPI process left the
 other processes waiting for ever

---
 src/gwmodelpp/GWRBasic.cpp      | 64 ++++++++++++++++++++++++++++++---
 src/gwmodelpp/GWRMultiscale.cpp | 18 +++++++++-
 2 files changed, 77 insertions(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWRBasic.cpp b/src/gwmodelpp/GWRBasic.cpp
index 809bd86..43ece84 100644
--- a/src/gwmodelpp/GWRBasic.cpp
+++ b/src/gwmodelpp/GWRBasic.cpp
@@ -843,6 +843,16 @@ arma::mat GWRBasic::fitCoreSHatCuda(const arma::mat& x, const arma::vec& y, cons
 #endif
 
 #ifdef ENABLE_MPI
+/**
+ * @brief Whether a step succeeded on every process, so that all of them take the same branch.
+ */
+static bool succeededOnAllProcesses(bool succeeded)
+{
+    int mine = succeeded ? 1 : 0, all = 0;
+    MPI_Allreduce(&mine, &all, 1, MPI_INT, MPI_LAND, MPI_COMM_WORLD);
+    return all != 0;
+}
+
 double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
 {
     mat x = mX.cols(VariableForwardSelector::index2uvec(indepVars, mHasIntercept));
@@ -851,7 +861,18 @@ double GWRBasic::indepVarsSelectionCriterionMpi(const vector<size_t>& indepVars)
     sw.weight<BandwidthWeight>()->setBandwidth(DBL_MAX);
     vec shat;
     double aic;
-    mat betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    mat betas;
+    bool succeeded = true;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(x, y, sw, shat);
+    }
+    catch(const std::exception&)
+    {
+        succeeded = false;
+    }
+    if (!succeededOnAllProcesses(succeeded))
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -889,7 +910,18 @@ double GWRBasic::bandwidthSizeCriterionCVMpi(BandwidthWeight* bandwidthWeight)
     uword nDp = mX.n_rows, nVar = mX.n_cols;
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double cv;
-    mat betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    mat betas;
+    bool succeeded = true;
+    try
+    {
+        betas = (this->*mFitCoreCVFunction)(mX, mY, sw).t();
+    }
+    catch(const std::exception&)
+    {
+        succeeded = false;
+    }
+    if (!succeededOnAllProcesses(succeeded))
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     uvec received(mWorkerNum, arma::fill::zeros);
     received.row(0).fill(1);
@@ -916,7 +948,18 @@ double GWRBasic::bandwidthSizeCriterionAICMpi(BandwidthWeight* bandwidthWeight)
     SpatialWeight sw(bandwidthWeight, mSpatialWeight.distance());
     double aic;
     vec shat(2, fill::zeros);
-    mat betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    mat betas;
+    bool succeeded = true;
+    try
+    {
+        betas = (this->*mFitCoreSHatFunction)(mX, mY, sw, shat);
+    }
+    catch(const std::exception&)
+    {
+        succeeded = false;
+    }
+    if (!succeededOnAllProcesses(succeeded))
+        return DBL_MAX;
 GWM_MPI_MASTER_BEGIN
     umat received(mWorkerNum, 2, arma::fill::zeros);
     received.row(0).fill(1);
@@ -953,7 +996,20 @@ arma::mat gwm::GWRBasic::fitMpi()
 {
     // fit GWR on each process
     uword nDp = mCoords.n_rows, nVar = mX.n_cols;
-    mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    std::exception_ptr error;
+    try
+    {
+        mBetas = (this->*mFitCoreFunction)(mX, mY, mSpatialWeight).t();
+    }
+    catch(const std::exception&)
+    {
+        error = std::current_exception();
+    }
+    if (!succeededOnAllProcesses(!error))
+    {
+        if (error) std::rethrow_exception(error);
+        throw std::runtime_error("Model fitting failed on another process.");
+    }
     mBetasSE = mBetasSE.t();
     mS = mS.t();
     // gather results to master process
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 91a11b5..6ba3acf 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -963,7 +963,23 @@ vec GWRMultiscale::fitVarMpi(const size_t var)
 {
     uword nDp = mXi.n_rows;
     mat S;
-    vec beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
+    vec beta_p;
+    std::exception_ptr error;
+    try
+    {
+        beta_p = (this->*mFitVarCore)(mXi, mYi, mSpatialWeights[var], S);
+    }
+    catch(const std::exception&)
+    {
+        error = std::current_exception();
+    }
+    int succeeded = error ? 0 : 1, succeeded_all = 0;
+    MPI_Allreduce(&succeeded, &succeeded_all, 1, MPI_INT, MPI_LAND, MPI_COMM_WORLD);
+    if (!succeeded_all)
+    {
+        if (error) std::rethrow_exception(error);
+        throw std::runtime_error("Model fitting failed on another process.");
+    }
     vec beta(nDp);
     MPI_Allreduce(beta_p.memptr(), beta.memptr(), nDp, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
     if (mHasHatMatrix)
-- 
2.43.0


From 18b0cb1d5583b10850f72128e8ce5d489997286a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:05 +0000
Subject: [PATCH 58/65] fix: progress beyond 100 per cent in generalised and
 scalable bandwidth searches

---
 src/gwmodelpp/GWRGeneralized.cpp | 8 ++++----
 src/gwmodelpp/GWRScalable.cpp    | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 2cc361f..05c4e85 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -847,7 +847,7 @@ vec GWRGeneralized::PoissonWtSerial(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = mu;
@@ -888,7 +888,7 @@ vec GWRGeneralized::PoissonWtOmp(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = mu;
@@ -932,7 +932,7 @@ vec GWRGeneralized::BinomialWtSerial(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = n % mu % (1 - mu);
@@ -975,7 +975,7 @@ vec GWRGeneralized::BinomialWtOmp(const mat &x, const vec &y, mat wt)
         double diff = abs((oldLLik - mLLik) / mLLik);
         if (diff < mTol)
         {
-            GWM_LOG_PROGRESS_PERCENT(exp(- (diff - mTol)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(diff - mTol)));
             break;
         }
         mWt2 = n % mu % (1 - mu);
diff --git a/src/gwmodelpp/GWRScalable.cpp b/src/gwmodelpp/GWRScalable.cpp
index aa9355b..79b7e63 100644
--- a/src/gwmodelpp/GWRScalable.cpp
+++ b/src/gwmodelpp/GWRScalable.cpp
@@ -240,7 +240,7 @@ double GWRScalable::optimize(const mat &Mx0, const mat &My0, double& b_tilde, do
             b_tilde = gsl_vector_get(minizer->x, 0);
             alpha = gsl_vector_get(minizer->x, 1);
             cv = minizer->fval;
-            GWM_LOG_PROGRESS_PERCENT(exp(- (size - 1e-6)));
+            GWM_LOG_PROGRESS_PERCENT(exp(- abs(size - 1e-6)));
         }
         while (status == GSL_CONTINUE && iter < mMaxIter);
         b_tilde = gsl_vector_get(minizer->x, 0);
-- 
2.43.0


From dd082431c7e2b46b9a06cc7911f88eaea92bd74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:30 +0000
Subject: [PATCH 59/65] fix: isValid crashed on or accepted spatial weights
 without a kernel or distance

---
 include/gwmodelpp/SpatialMonoscaleAlgorithm.h | 10 ++++++++++
 src/gwmodelpp/GWDA.cpp                        |  2 +-
 src/gwmodelpp/GWDR.cpp                        |  6 ++++++
 src/gwmodelpp/GWPCA.cpp                       |  2 +-
 src/gwmodelpp/GWRMultiscale.cpp               |  3 +++
 5 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/gwmodelpp/SpatialMonoscaleAlgorithm.h b/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
index d95851b..afe97b3 100644
--- a/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
+++ b/include/gwmodelpp/SpatialMonoscaleAlgorithm.h
@@ -59,6 +59,16 @@ public:
      */
     virtual ~SpatialMonoscaleAlgorithm() {}
 
+    /**
+     * \~english
+     * @brief Check whether coordinates and both parts of the spatial weighting scheme are given.
+     * 
+     * \~chinese
+     * @brief 检查坐标以及空间权重配置的两个部分是否均已设置。
+     * 
+     */
+    bool isValid() override { return SpatialAlgorithm::isValid() && mSpatialWeight.isValid(); }
+
 public:
 
     /**
diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 2fa6f8c..a409fa3 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -15,7 +15,7 @@ using namespace std;
 // template<class T>
 bool GWDA::isValid()
 {
-    if (SpatialAlgorithm::isValid())
+    if (SpatialMonoscaleAlgorithm::isValid())
     {
         if (!(mX.n_cols > 0))
             return false;
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index a8f8131..1f387a1 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -760,6 +760,12 @@ bool GWDR::isValid()
             return false;
         }
 
+        for (auto& sw : mSpatialWeights)
+        {
+            if (!sw.isValid())
+                return false;
+        }
+
         return true;
     }
     else return false;
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index 38e7812..462fae3 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -55,7 +55,7 @@ void GWPCA::wpca(const mat& x, const vec& w, mat& V, vec & d)
 
 bool GWPCA::isValid()
 {
-    if (SpatialAlgorithm::isValid())
+    if (SpatialMonoscaleAlgorithm::isValid())
     {
         if (mK > 0)
         {
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index 6ba3acf..e0eb83f 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -474,6 +474,9 @@ bool GWRMultiscale::isValid()
 
     for (size_t i = 0; i < nVar; i++)
     {
+        if (!mSpatialWeights[i].isValid())
+            return false;
+
         BandwidthWeight* bw = mSpatialWeights[i].weight<BandwidthWeight>();
         if (mBandwidthInitilize[i] == GWRMultiscale::Specified || mBandwidthInitilize[i] == GWRMultiscale::Initial)
         {
-- 
2.43.0


From 5d90997ba65a12ce59f0041416933b858ecb55bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:02 +0000
Subject: [PATCH 60/65] fix: isValid accepted missing or mismatching data for
 several algorithms

---
 src/gwmodelpp/GWDA.cpp          |  3 +++
 src/gwmodelpp/GWDR.cpp          |  6 ++++++
 src/gwmodelpp/GWPCA.cpp         | 15 ++++++++++-----
 src/gwmodelpp/GWRMultiscale.cpp |  6 ++++++
 src/gwmodelpp/GWSS.cpp          |  3 +++
 5 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index a409fa3..20c5334 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -20,6 +20,9 @@ bool GWDA::isValid()
         if (!(mX.n_cols > 0))
             return false;
 
+        if (!(mX.n_rows == mCoords.n_rows && mX.n_rows == mY.size()))
+            return false;
+
         return true;
     }
     else
diff --git a/src/gwmodelpp/GWDR.cpp b/src/gwmodelpp/GWDR.cpp
index 1f387a1..b427305 100644
--- a/src/gwmodelpp/GWDR.cpp
+++ b/src/gwmodelpp/GWDR.cpp
@@ -760,6 +760,12 @@ bool GWDR::isValid()
             return false;
         }
 
+        if (!(mX.n_cols > 0))
+            return false;
+
+        if (!(mX.n_rows == mY.n_rows && mX.n_rows == mCoords.n_rows))
+            return false;
+
         for (auto& sw : mSpatialWeights)
         {
             if (!sw.isValid())
diff --git a/src/gwmodelpp/GWPCA.cpp b/src/gwmodelpp/GWPCA.cpp
index 462fae3..bb3938b 100644
--- a/src/gwmodelpp/GWPCA.cpp
+++ b/src/gwmodelpp/GWPCA.cpp
@@ -57,11 +57,16 @@ bool GWPCA::isValid()
 {
     if (SpatialMonoscaleAlgorithm::isValid())
     {
-        if (mK > 0)
-        {
-            return true;
-        }
-        else return false;
+        if (!(mX.n_cols > 0))
+            return false;
+
+        if (!(mX.n_rows == mCoords.n_rows))
+            return false;
+
+        if (!(mK > 0 && uword(mK) <= mX.n_cols))
+            return false;
+
+        return true;
     }
     else return false;
 }
diff --git a/src/gwmodelpp/GWRMultiscale.cpp b/src/gwmodelpp/GWRMultiscale.cpp
index e0eb83f..4649bb9 100644
--- a/src/gwmodelpp/GWRMultiscale.cpp
+++ b/src/gwmodelpp/GWRMultiscale.cpp
@@ -452,9 +452,15 @@ double gwm::GWRMultiscale::bandwidthSizeCriterionVarAICBase(BandwidthWeight* ban
 
 bool GWRMultiscale::isValid()
 {
+    if (!SpatialMultiscaleAlgorithm::isValid())
+        return false;
+
     if (!(mX.n_cols > 0))
         return false;
 
+    if (!(mX.n_rows == mY.n_rows && mX.n_rows == mCoords.n_rows))
+        return false;
+
     size_t nVar = mX.n_cols;
 
     if (mSpatialWeights.size() != nVar)
diff --git a/src/gwmodelpp/GWSS.cpp b/src/gwmodelpp/GWSS.cpp
index 7279b1c..0e6b615 100644
--- a/src/gwmodelpp/GWSS.cpp
+++ b/src/gwmodelpp/GWSS.cpp
@@ -52,6 +52,9 @@ bool GWSS::isValid()
         if (!(mX.n_cols > 0))
             return false;
 
+        if (!(mX.n_rows == mCoords.n_rows))
+            return false;
+
         return true;
     }
     else return false;
-- 
2.43.0


From b16cff7ad3452335076fa39175b08ffbd45d6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:51 +0000
Subject: [PATCH 61/65] fix: robust GWR returned an empty hat matrix

---
 include/gwmodelpp/GWRRobust.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/gwmodelpp/GWRRobust.h b/include/gwmodelpp/GWRRobust.h
index d976aaa..fbaf360 100644
--- a/include/gwmodelpp/GWRRobust.h
+++ b/include/gwmodelpp/GWRRobust.h
@@ -130,7 +130,6 @@ protected:
 private:
     bool mFiltered = false; //!< \~english Whether to use filtered algorithm \~chinese 是否使用 Filtered 算法
 
-    arma::mat mS;           //!< \~english Hat matrix \f$S\f$ \~chinese 帽子矩阵 \f$S\f$
     arma::vec mWeightMask;  //!< \~english Second-level weights \~chinese 二次加权权重
     
     RegressionHatmatrix mfitFunction = &GWRRobust::fitSerial;   //!< \~english Calculator for fitting \~chinese 拟合函数
-- 
2.43.0


From 8584ce8fef66f4bcb63850988c0200c3b6890544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:51 +0000
Subject: [PATCH 62/65] fix: AIC of the global generalised linear model counted
 observations as coefficients

---
 src/gwmodelpp/GeneralizedLinearModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gwmodelpp/GeneralizedLinearModel.cpp b/src/gwmodelpp/GeneralizedLinearModel.cpp
index 337816c..81f31d5 100644
--- a/src/gwmodelpp/GeneralizedLinearModel.cpp
+++ b/src/gwmodelpp/GeneralizedLinearModel.cpp
@@ -102,7 +102,7 @@ void GeneralizedLinearModel::fit(){
     }
     vec nulldevtemp = mModel->devResids(mY,wtdmu1,mWeight);
     mNullDev = sum(nulldevtemp);
-    uword rank = empty? 0 : mX.n_rows;
+    uword rank = empty? 0 : mX.n_cols;
     mAIC = mModel->aic(mY,n,mu,mWeight) + 2.0 * rank;
 }
 
-- 
2.43.0


From 5e2ff8137fa742268cf26d74cdb2562a3b36547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:06 +0000
Subject: [PATCH 63/65] fix: generalised GWR never computed coefficients at
 regression points

setHasRegressionData() overwrote the points instead of setting the flag, and
the fit used the weights of the samples in a transposed matrix.
---
 include/gwmodelpp/GWRGeneralized.h |  7 ++++++-
 src/gwmodelpp/GWRGeneralized.cpp   | 16 +++++++++-------
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/gwmodelpp/GWRGeneralized.h b/include/gwmodelpp/GWRGeneralized.h
index 4f68dfe..4117291 100644
--- a/include/gwmodelpp/GWRGeneralized.h
+++ b/include/gwmodelpp/GWRGeneralized.h
@@ -421,6 +421,11 @@ private:
      */
     void createPredictionDistanceParameter(const arma::mat& locations);
 
+    /**
+     * @brief \~english Whether the hat matrix is calculated: it is only defined when the model is fitted at the samples. \~chinese 是否计算帽子矩阵：仅当在样本点处拟合模型时才有定义。
+     */
+    bool isHatMatrixCalculated() const { return mHasHatMatrix && !mHasRegressionData; }
+
 protected:
     Family mFamily;             //!< \~english Family of the model \~chinese 模型的族
     double mTol=1e-5;           //!< \~english Tolerance \~chinese 容忍值
@@ -527,7 +532,7 @@ inline bool GWRGeneralized::hasRegressionData() const
 
 inline void GWRGeneralized::setHasRegressionData(bool value)
 {
-    mRegressionData = value;
+    mHasRegressionData = value;
 }
 inline arma::mat GWRGeneralized::regressionData() const
 {
diff --git a/src/gwmodelpp/GWRGeneralized.cpp b/src/gwmodelpp/GWRGeneralized.cpp
index 05c4e85..2b86c1a 100644
--- a/src/gwmodelpp/GWRGeneralized.cpp
+++ b/src/gwmodelpp/GWRGeneralized.cpp
@@ -52,20 +52,22 @@ mat GWRGeneralized::fit()
 
     GWM_LOG_STAGE("Preparing");
     mBetas = mat(nVar, nRp, fill::zeros);
-    if (mHasHatMatrix)
+    if (isHatMatrixCalculated())
     {
         mBetasSE = mat(nVar, nDp, fill::zeros);
         mShat = vec(2, fill::zeros);
     }
     mWtMat1 = mat(nDp, nDp, fill::zeros);
-    mWtMat2 = mat(nRp, nDp, fill::zeros);
+    mWtMat2 = mat(nDp, nRp, fill::zeros);
     if (mHasRegressionData)
     {
+        createPredictionDistanceParameter(mRegressionData);
         for (uword i = 0; i < nRp; i++)
         {
             vec weight = mSpatialWeight.weightVector(i);
             mWtMat2.col(i) = weight;
         }
+        createDistanceParameter();
         for (uword i = 0; i < nDp; i++)
         {
             vec weight = mSpatialWeight.weightVector(i);
@@ -91,7 +93,7 @@ mat GWRGeneralized::fit()
     GWM_LOG_STOP_RETURN(mStatus, mat(nDp, nVar, arma::fill::zeros));
 
     GWM_LOG_STAGE("Model Diagnostic");
-    if (mHasHatMatrix)
+    if (isHatMatrixCalculated())
     {
         if (mFamily == Family::Poisson)
         {
@@ -251,7 +253,7 @@ mat GWRGeneralized::fitPoissonSerial(const mat &x, const vec &y)
     exception except;
     bool isStoreS = (nDp <= 8192);
     mat ci, s_ri, S(isStoreS ? nDp : 1, nDp, fill::zeros);
-    if (mHasHatMatrix)
+    if (isHatMatrixCalculated())
     {
         for (uword i = 0; i < nDp; i++)
         {
@@ -340,7 +342,7 @@ mat GWRGeneralized::fitPoissonOmp(const mat &x, const vec &y)
     bool isStoreS = (nDp <= 8192);
     mat S(isStoreS ? nDp : 1, nDp, fill::zeros);
     //int current = 0;
-    if (mHasHatMatrix)
+    if (isHatMatrixCalculated())
     {
         mat shat = mat(2, mOmpThreadNum, fill::zeros);
 #pragma omp parallel for num_threads(mOmpThreadNum)
@@ -436,7 +438,7 @@ mat GWRGeneralized::fitBinomialOmp(const mat &x, const vec &y)
     mat S(isStoreS ? nDp : 1, nDp, fill::zeros);
     //    mat S = mat(uword(0), uword(0));
     //int current = 0;
-    if (mHasHatMatrix)
+    if (isHatMatrixCalculated())
     {
         mat shat = mat(mOmpThreadNum, 2, fill::zeros);
 #pragma omp parallel for num_threads(mOmpThreadNum)
@@ -526,7 +528,7 @@ mat GWRGeneralized::fitBinomialSerial(const mat &x, const vec &y)
     mat ci;
     mat s_ri, S(isStoreS ? nDp : 1, nDp, fill::zeros);
     //    mat S = mat(uword(0), uword(0));
-    if (mHasHatMatrix)
+    if (isHatMatrixCalculated())
     {
         for (uword i = 0; i < nDp; i++)
         {
-- 
2.43.0


From d92476c8d04bdb7caa197a953f563cd7670c9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:06 +0000
Subject: [PATCH 64/65] fix: space-time distance answered from earlier points
 after unsuitable ones were refused

---
 include/gwmodelpp/spatialweight/CRSSTDistance.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gwmodelpp/spatialweight/CRSSTDistance.h b/include/gwmodelpp/spatialweight/CRSSTDistance.h
index 0dbddb7..e418f99 100644
--- a/include/gwmodelpp/spatialweight/CRSSTDistance.h
+++ b/include/gwmodelpp/spatialweight/CRSSTDistance.h
@@ -105,6 +105,7 @@ public:
      */
     arma::vec distance(arma::uword focus) override
     {
+        if (mParameter == nullptr) throw std::runtime_error("Parameter is nullptr.");
         return mCalculator(mSpatialDistance, mTemporalDistance, focus, mLambda, mAngle);
     }
 
-- 
2.43.0


From 6d4bd69f8c9c7fab4b8d2cf64c4f648c0c0aeada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:07 +0000
Subject: [PATCH 65/65] fix: discriminant scores truncated half the number of
 groups to an integer

---
 src/gwmodelpp/GWDA.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/gwmodelpp/GWDA.cpp b/src/gwmodelpp/GWDA.cpp
index 20c5334..a224656 100644
--- a/src/gwmodelpp/GWDA.cpp
+++ b/src/gwmodelpp/GWDA.cpp
@@ -289,7 +289,7 @@ mat GWDA::wqda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigmagw[i].row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani)); // inv(covmatj) * (xprj - meani);
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
@@ -385,7 +385,7 @@ mat GWDA::wlda(arma::mat &x, std::vector<std::string> &y, arma::mat &wt, arma::m
             vec meani = localMean[i].row(j).t();
             mat covmatj = sigma1gw.row(j);
             vec x1 = 0.5 * (xprj - meani).t() * solve(covmatj, (xprj - meani));
-            logPf(j, i) = (m / 2) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
+            logPf(j, i) = (m / 2.0) * log(norm(covmatj)) + x1(0) - log(prior[i].at(j));
         }
     }
     vector<string> groupPr;
-- 
2.43.0

