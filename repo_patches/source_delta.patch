From ee38b2904e4a49a927bcf859eca7e076a0c4f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 01/23] fix: reject negative permutation indices in permute

With a signed index type a negative entry passed the range check and was
used to index the permutation vector.
---
 .../include/aslam/calibration/algorithms/permute.tpp           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
index b9b0c9a..20e7bb9 100644
--- a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
+++ b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
@@ -21,7 +21,8 @@ namespace aslam {
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
       for (I i = 0; i < container.size(); ++i) {
-        if (permutation[i] >= static_cast<I>(container.size()))
+        if (permutation[i] < 0 ||
+            permutation[i] >= static_cast<I>(container.size()))
           throw OutOfBoundException<I>(permutation[i], static_cast<I>(
             container.size()), "permutation vector index out of bound",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
-- 
2.43.0


From 9fc8532cfe1ee7950ee0b0a6fd4460fe98613d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 02/23] fix: keep rotation and translation of a transformation
 in step with its matrix

---
 .../aslam/calibration/geometry/Transformation2d.tpp  | 12 +++++++++---
 .../aslam/calibration/geometry/Transformation3d.tpp  | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
index 656ff1e..7c2cc44 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
@@ -18,8 +18,8 @@ namespace aslam {
 
     template <typename T>
     Transformation<T, 2>::Transformation(const Eigen::Matrix<double, 3, 3>&
-        transformationMatrix) :
-        mTransformationMatrix(transformationMatrix) {
+        transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -78,6 +78,12 @@ namespace aslam {
     void Transformation<T, 2>::setTransformationMatrix(const
         Eigen::Matrix<double, 3, 3>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<2, 2>() =
+        transformationMatrix.template topLeftCorner<2, 2>();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<2, 1>() =
+        transformationMatrix.template topRightCorner<2, 1>();
     }
 
     template <typename T>
@@ -139,7 +145,7 @@ namespace aslam {
       mRotationMatrix.transposeInPlace();
       mTranslationMatrix(0, 2) = -mTranslationMatrix(0, 2);
       mTranslationMatrix(1, 2) = -mTranslationMatrix(1, 2);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      setTransformationMatrix(mRotationMatrix * mTranslationMatrix);
       return *this;
     }
 
diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
index 9dd2dc7..d427903 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
@@ -16,8 +16,8 @@ namespace aslam {
 
     template <typename T>
     Transformation<T, 3>::Transformation(const Eigen::Matrix<double, 4, 4>&
-        transformationMatrix) :
-        mTransformationMatrix(transformationMatrix) {
+        transformationMatrix) {
+      setTransformationMatrix(transformationMatrix);
     }
 
     template <typename T>
@@ -77,6 +77,12 @@ namespace aslam {
     void Transformation<T, 3>::setTransformationMatrix(const
         Eigen::Matrix<double, 4, 4>& transformationMatrix) {
       mTransformationMatrix = transformationMatrix;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<3, 3>() =
+        transformationMatrix.template topLeftCorner<3, 3>();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<3, 1>() =
+        transformationMatrix.template topRightCorner<3, 1>();
     }
 
     template <typename T>
@@ -144,7 +150,7 @@ namespace aslam {
       mTranslationMatrix(0, 3) = -mTranslationMatrix(0, 3);
       mTranslationMatrix(1, 3) = -mTranslationMatrix(1, 3);
       mTranslationMatrix(2, 3) = -mTranslationMatrix(2, 3);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      setTransformationMatrix(mRotationMatrix * mTranslationMatrix);
       return *this;
     }
 
-- 
2.43.0


From 6e2168b0eacebd697c0a7ab335726a915718f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 03/23] fix: reject negative grid indices

Grid::isValidIndex only checked the upper bound, so getCell and getCoordinates
accepted negative indices and accessed memory outside the cell container.
---
 .../include/aslam/calibration/data-structures/Grid.tpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 884ac16..1ed0d22 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -213,7 +213,8 @@ namespace aslam {
 
     template <typename T, typename C, int M>
     bool Grid<T, C, M>::isValidIndex(const Index& idx) const {
-      return ((idx.array() < mNumCells.array()).all());
+      return ((idx.array() >= 0).all() &&
+        (idx.array() < mNumCells.array()).all());
     }
 
     template <typename T, typename C, int M>
-- 
2.43.0


From 2f5c93d1ed4c3b17da5c1fb1372b7d57bd38f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 04/23] fix: keep the grid index of a point in range within the
 grid

The quotient in Grid::getIndex can round up to the number of cells for a point
just below the maximum (minimum -1, maximum 0, resolution 0.1, point -1e-30),
which yielded an index one past the end.
---
 .../include/aslam/calibration/data-structures/Grid.tpp       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 1ed0d22..1c01500 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -177,8 +177,11 @@ namespace aslam {
       for (size_t i = 0; i < static_cast<size_t>(point.size()); ++i)
         if (point(i) == mMaximum(i))
           idx(i) = mNumCells(i) - 1;
-        else
+        else {
           idx(i) = (point(i) - mMinimum(i)) / mResolution(i);
+          if (idx(i) >= mNumCells(i))
+            idx(i) = mNumCells(i) - 1;
+        }
       return idx;
     }
 
-- 
2.43.0


From 736d739c4893ed5848eb3add30e83e18c97189d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 05/23] fix: keep the centre of an integer grid cell inside the
 cell

With an integer coordinate type and a negative minimum, truncating the sum
moved the centre into the neighbouring cell.
---
 .../include/aslam/calibration/data-structures/Grid.tpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 1c01500..a5e790e 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -204,7 +204,7 @@ namespace aslam {
           __FILE__, __LINE__);
       Coordinate point(idx.size());
       for (size_t i = 0; i < static_cast<size_t>(idx.size()); ++i)
-        point[i] = mMinimum(i) + (idx(i) + 0.5) * mResolution(i);
+        point[i] = mMinimum(i) + static_cast<T>((idx(i) + 0.5) * mResolution(i));
       return point;
     }
 
-- 
2.43.0


From e4ca1c2bc7087d4f8f9656c7f0baddc9ed3da26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 06/23] fix: make the histogram statistics compile

The statistics of the histograms called the member incrementIndex of a
dependent base class unqualified and returned an integer mode as a real vector,
so that they could not be instantiated.
---
 .../include/aslam/calibration/statistics/Histogram1v.tpp  | 8 ++++----
 .../include/aslam/calibration/statistics/HistogramMv.tpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
index 9dfa792..bf3373c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
@@ -44,7 +44,7 @@ namespace aslam {
     double Histogram<T, 1>::getMean() const {
       double mean = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i)(0) * this->getCell(i);
       return mean / getSum();
     }
@@ -54,7 +54,7 @@ namespace aslam {
       const double sum = getSum();
       double currentSum = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         currentSum += this->getCell(i);
         if (currentSum >= sum * 0.5)
           return this->getCoordinates(i)(0);
@@ -67,7 +67,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -81,7 +81,7 @@ namespace aslam {
       double variance = 0;
       const double mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         variance += (this->getCoordinates(i)(0) - mean) *
           (this->getCoordinates(i)(0) - mean) * this->getCell(i);
       return variance / (getSum() - 1);
diff --git a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
index 8ba7b46..3c34abc 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
@@ -43,7 +43,7 @@ namespace aslam {
     typename Histogram<T, M>::Mean Histogram<T, M>::getMean() const {
       Mean mean = Mean::Zero(this->mNumCells.size());
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i).template cast<double>() *
           this->getCell(i);
       return mean / getSum();
@@ -54,13 +54,13 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
         }
       }
-      return this->getCoordinates(modeIdx);
+      return this->getCoordinates(modeIdx).template cast<double>();
     }
 
     template <typename T, int M>
@@ -70,7 +70,7 @@ namespace aslam {
         this->mNumCells.size());
       const Mean mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         covariance += (this->getCoordinates(i).template cast<double>() - mean) *
           (this->getCoordinates(i).template cast<double>() - mean).transpose() *
           this->getCell(i);
-- 
2.43.0


From 3f7de84834c6b290735ef9348abeefe266ed5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 07/23] fix: report the centre of the support as mean and
 median of a uniform distribution

---
 .../aslam/calibration/statistics/UniformDistribution1v.tpp  | 4 ++--
 .../aslam/calibration/statistics/UniformDistributionMv.tpp  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
index 2b012da..48d1b0a 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
@@ -136,13 +136,13 @@ namespace aslam {
     template <typename X>
     typename UniformDistribution<X>::Mean UniformDistribution<X>::getMean()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
     typename UniformDistribution<X>::Median UniformDistribution<X>::getMedian()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index bc385a6..6ffe3c7 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -141,7 +141,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Mean
         UniformDistribution<X, M>::getMean() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport.template cast<double>() +
+        mMaxSupport.template cast<double>());
     }
 
     template <typename X, int M>
@@ -154,7 +155,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Median
         UniformDistribution<X, M>::getMedian() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport.template cast<double>() +
+        mMaxSupport.template cast<double>());
     }
 
     template <typename X, int M>
-- 
2.43.0


From 3ea4eecac5251f6674ec3009bc373ce19e77f2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 08/23] fix: use the width of each dimension in the covariance
 of a multivariate uniform distribution

---
 .../statistics/UniformDistributionMv.tpp      | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index 6ffe3c7..75584e1 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -193,12 +193,14 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
+      Eigen::Matrix<double, M, M> covariance =
+        Eigen::Matrix<double, M, M>::Zero(minSupport.size(),
         minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea) / 12.0 * covariance;
+      for (size_t i = 0; i < (size_t)minSupport.size(); ++i) {
+        const double width = maxSupport(i) - minSupport(i);
+        covariance(i, i) = (width * width) / 12.0;
+      }
+      return covariance;
     }
 
     template <typename X, int M>
@@ -207,12 +209,14 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
+      Eigen::Matrix<double, M, M> covariance =
+        Eigen::Matrix<double, M, M>::Zero(minSupport.size(),
         minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea - 1.0) / 12.0 * covariance;
+      for (size_t i = 0; i < (size_t)minSupport.size(); ++i) {
+        const double width = maxSupport(i) - minSupport(i) + 1;
+        covariance(i, i) = (width * width - 1.0) / 12.0;
+      }
+      return covariance;
     }
 
   }
-- 
2.43.0


From c2e29f02104d74e75494c63125dfd3a0dd810483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 09/23] fix: correct the KL divergence of gamma distributions
 with different shapes

---
 .../include/aslam/calibration/statistics/GammaDistribution.tpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index ff1e8a9..af36136 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -184,7 +184,7 @@ namespace aslam {
       LogGammaFunction<T> logGammaFunction;
       const DigammaFunction<T> digammaFunction;
       return (mShape - 1) * digammaFunction(mShape) -
-        (other.mShape - 1) * digammaFunction(other.mShape) -
+        (other.mShape - 1) * digammaFunction(mShape) -
         logGammaFunction(mShape) +
         logGammaFunction(other.mShape) + other.mShape *
         (log(mInvScale) - log(other.mInvScale)) +
-- 
2.43.0


From f2feb42c4082b43567c4e75998dc720831a3ed43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 10/23] fix: do not read the uninitialised inverse scale when
 constructing a gamma distribution

---
 .../include/aslam/calibration/statistics/GammaDistribution.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index af36136..6468938 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -20,7 +20,8 @@ namespace aslam {
 /******************************************************************************/
 
     template <typename T>
-    GammaDistribution<T>::GammaDistribution(const T& shape, double invScale) {
+    GammaDistribution<T>::GammaDistribution(const T& shape, double invScale) :
+        mInvScale(1.0) {
       setShape(shape);
       setInvScale(invScale);
     }
-- 
2.43.0


From 2b9df9aa44e2ec60b97d649b9164d6564a12a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 11/23] fix: give the gamma log-density minus infinity below
 its support

---
 .../aslam/calibration/statistics/GammaDistribution.tpp      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index 6468938..70d40f9 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -3,6 +3,8 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <limits>
+
 #include <boost/math/distributions/gamma.hpp>
 
 #include "aslam/calibration/statistics/Randomizer.h"
@@ -126,7 +128,9 @@ namespace aslam {
 
     template <typename T>
     double GammaDistribution<T>::logpdf(const RandomVariable& value) const {
-      if (value == 0 && mShape == T(1))
+      if (value < 0)
+        return -std::numeric_limits<double>::infinity();
+      else if (value == 0 && mShape == T(1))
         return -mNormalizer;
       else
         return (mShape - 1) * log(value) - value * mInvScale - mNormalizer;
-- 
2.43.0


From c2dac7eb28e11b3cfe266558faec10e7a1836596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 12/23] fix: reject a singular covariance and keep the normal
 distribution unchanged on rejection

---
 .../aslam/calibration/statistics/NormalDistributionMv.tpp   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
index ae7b7c9..2c243a6 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
@@ -101,8 +101,9 @@ namespace aslam {
           "NormalDistribution<M>::setCovariance(): "
           "covariance must be symmetric",
           __FILE__, __LINE__);
-      mTransformation = Eigen::LLT<Covariance>(covariance);
-      if (!Eigen::LDLT<Covariance>(covariance).isPositive())
+      const Eigen::LLT<Covariance> transformation(covariance);
+      if (transformation.info() != Eigen::Success ||
+          !Eigen::LDLT<Covariance>(covariance).isPositive())
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): covariance must be positive "
           "definite",
@@ -116,6 +117,7 @@ namespace aslam {
       mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) + 0.5 *
         log(mDeterminant);
       mCovariance = covariance;
+      mTransformation = transformation;
     }
 
     template <int M>
-- 
2.43.0


From 4f63c6655288365f2f0918ca84f8fbcfdfc0f726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:34 +0000
Subject: [PATCH 13/23] fix: make the multivariate maximum-likelihood estimator
 compile

---
 .../aslam/calibration/statistics/EstimatorMLNormalMv.tpp   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
index 9ebbaeb..c1e8f8d 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/EstimatorMLNormalMv.tpp
@@ -108,11 +108,12 @@ namespace aslam {
       mSquaredValuesSum += OuterProduct::compute<double, M>(point);
       try {
         mValid = true;
-        const Eigen::Matrix<double, M, 1> mean = mValuesSum / mNumPoints;
+        const double numPoints = mNumPoints;
+        const Eigen::Matrix<double, M, 1> mean = mValuesSum / numPoints;
         mDistribution.setMean(mean);
-        mDistribution.setCovariance(mSquaredValuesSum / mNumPoints -
+        mDistribution.setCovariance(mSquaredValuesSum / numPoints -
           OuterProduct::compute<double, M>(mValuesSum) * 2 /
-          (mNumPoints * mNumPoints) + OuterProduct::compute<double, M>(mean));
+          (numPoints * numPoints) + OuterProduct::compute<double, M>(mean));
       }
       catch (...) {
         mValid = false;
-- 
2.43.0


From 050a705993464b1c315787b489db2d91379a3251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:27 +0000
Subject: [PATCH 14/23] fix: draw the unit variate of Randomizer's samplers in
 double

Randomizer<int>::sampleUniform() rounds to 0 or 1, so that sampleNormal()
never terminated and the other samplers of an integer randomizer degenerated.
---
 .../aslam/calibration/statistics/Randomizer.h |  8 +++++++
 .../calibration/statistics/Randomizer.tpp     | 23 +++++++++++--------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
index c000663..def64fb 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
@@ -103,6 +103,14 @@ namespace aslam {
       /** @}
         */
 
+      /** \name Protected methods
+        @{
+        */
+      /// Returns a real sample from the unit interval, whatever T is
+      static double sampleUnit();
+      /** @}
+        */
+
       /** \name Protected members
         @{
         */
diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index e481f06..311b098 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -82,6 +82,11 @@ namespace aslam {
 /* Methods                                                                    */
 /******************************************************************************/
 
+    template <typename T, int M>
+    double Randomizer<T, M>::sampleUnit() {
+      return random() / (double)RAND_MAX;
+    }
+
     template <typename T, int M>
     T Randomizer<T, M>::sampleUniform(const T& minSupport, const T& maxSupport)
         const {
@@ -103,8 +108,8 @@ namespace aslam {
           __FILE__, __LINE__);
       double u, v, s;
       do {
-        u = 2.0 * sampleUniform() - 1.0;
-        v = 2.0 * sampleUniform() - 1.0;
+        u = 2.0 * sampleUnit() - 1.0;
+        v = 2.0 * sampleUnit() - 1.0;
         s = u * u + v * v;
       }
       while (s >= 1.0 || s == 0.0);
@@ -123,7 +128,7 @@ namespace aslam {
           "to 1 and probabilities bigger or equal to 0",
           __FILE__, __LINE__);
       double sum = probabilities(0);
-      const double u = sampleUniform();
+      const double u = sampleUnit();
       for (size_t i = 1; i < (size_t)probabilities.size(); ++i)
         if (u > sum)
           sum += probabilities(i);
@@ -143,7 +148,7 @@ namespace aslam {
       double p = 1.0;
       do {
         k++;
-        p *= sampleUniform();
+        p *= sampleUnit();
       }
       while (p > l);
       return k - 1;
@@ -158,7 +163,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return -log(u) / rate;
@@ -173,7 +178,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return floor(log(u) / log(1 - probability));
@@ -199,17 +204,17 @@ namespace aslam {
       double z = 0;
       if (fabs(fractionalPart) > std::numeric_limits<double>::epsilon())
         while (true) {
-          const double p = b * sampleUniform();
+          const double p = b * sampleUnit();
           if (p > 1) {
             z = -log((b - p) / fractionalPart);
-            if (sampleUniform() > pow(z, fractionalPart - 1))
+            if (sampleUnit() > pow(z, fractionalPart - 1))
               continue;
             else
               break;
           }
           else {
             z = pow(p, 1.0 / fractionalPart);
-            if (sampleUniform() > exp(-z))
+            if (sampleUnit() > exp(-z))
               continue;
             else
               break;
-- 
2.43.0


From f52f6d4b1cacaf1428345ed1c0a769982402206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 15/23] fix: reject a batch before changing the incremental
 problem

add() threw on a group mismatch or a known error term after it had
already counted and stored part of the batch's design variables.
---
 .../core/IncrementalOptimizationProblem.cpp   | 35 +++++++++++--------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 114858a..bc1143b 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -175,8 +175,26 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
-      // update design variable counts, grouping, and storing
+      // check the grouping of the shared design variables
       const size_t numDV = problem->numDesignVariables();
+      for (size_t i = 0; i < numDV; ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        if (isDesignVariableInProblem(dv) &&
+            getGroupId(dv) != problem->getGroupId(dv))
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // check that the error terms are not yet in the problem
+      const size_t numET = problem->numErrorTerms();
+      for (size_t i = 0; i < numET; ++i) {
+        const ErrorTerm* et = problem->errorTerm(i);
+        if (isErrorTermInProblem(et))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // update design variable counts, grouping, and storing
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
       for (size_t i = 0; i < numDV; ++i) {
         const DesignVariable* dv = problem->designVariable(i);
@@ -188,21 +206,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From 6cc4e800917e279570b9b10a2d6bbf86de993013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 16/23] fix: forget the saved design variables when clearing
 the incremental problem

---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index bc1143b..4550ff1 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -262,6 +262,7 @@ namespace aslam {
       _designVariablesCounts.clear();
       _designVariables.clear();
       _groupsOrdering.clear();
+      _designVariablesBackup.clear();
     }
 
     size_t IncrementalOptimizationProblem::
-- 
2.43.0


From c1976acc2c35721206ba9de39386ea6d4ce37d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:50 +0000
Subject: [PATCH 17/23] fix: IncrementalEstimator::addBatch does not keep a
 batch it rejects with an exception

---
 .../src/core/IncrementalEstimator.cpp                    | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index fc677f8..dbeea14 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -325,7 +325,14 @@ namespace aslam {
       _problem->add(problem);
 
       // ensure marginalized design variables are well located
-      orderMarginalizedDesignVariables();
+      try {
+        orderMarginalizedDesignVariables();
+      }
+      catch (...) {
+        // the batch cannot be estimated and is therefore not kept
+        _problem->remove(problem);
+        throw;
+      }
 
       // save design variables in case the batch is rejected
       if (!force)
-- 
2.43.0


From 5fdaf4e3cc6970ae3d155e5ac877b22f4d21f95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:06 +0000
Subject: [PATCH 18/23] fix: genSineWavePath generates exactly the requested
 number of poses

---
 .../src/2dlrf/utils.cpp                                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
index 3263ec7..9bc9094 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
@@ -18,8 +18,8 @@ namespace aslam {
       u.reserve(steps);
       u.push_back(Eigen::Matrix<double, 3, 1>::Zero());
       std::vector<double> cost;
-      for (double t = 0; t < steps * T; t += T)
-        cost.push_back(amplitude * cos(2 * M_PI * frequency * t));
+      for (size_t i = 0; i < steps; ++i)
+        cost.push_back(amplitude * cos(2 * M_PI * frequency * (i * T)));
       double theta = 0;
       for (size_t i = 1; i < cost.size(); ++i) {
         const double theta_new = atan(cost[i]);
-- 
2.43.0


From a55c8c3c3b2dc771c41ce9f97b1b37f6c0891e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:32 +0000
Subject: [PATCH 19/23] fix: error terms weight by the covariance last set

---
 .../src/2dlrf/ErrorTermMotion.cpp                              | 1 +
 .../src/2dlrf/ErrorTermObservation.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermSteering.cpp                      | 3 +++
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 7 files changed, 9 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
index 95c85c1..7e5ba1c 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
@@ -89,6 +89,7 @@ namespace aslam {
 
     void ErrorTermMotion::setCovariance(const Covariance& Q) {
       _Q = Q;
+      setInvR(_Q.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
index ea43ecc..c568d53 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
@@ -90,6 +90,7 @@ namespace aslam {
 
     void ErrorTermObservation::setCovariance(const Covariance& R) {
       _R = R;
+      setInvR(_R.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
index 8b9daa0..c99cf3a 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index 8d62520..e64acb6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -77,6 +77,9 @@ namespace aslam {
 
     void ErrorTermSteering::setVariance(double sigma2) {
       _sigma2 = sigma2;
+      Eigen::Matrix<double, 1, 1> sigma2_mat;
+      sigma2_mat << sigma2;
+      setInvR(sigma2_mat.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 388c11a..506d04f 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
index 2dbbf9d..d628e11 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 34c6999..71019e0 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
-- 
2.43.0


From 61d754cedacce42f3e8f2ea80649670356b87c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:33 +0000
Subject: [PATCH 20/23] fix: front wheel speed Jacobian has the sign of the
 speed when driving backwards

---
 .../src/error-terms/ErrorTermWheel.cpp                         | 3 ++-
 .../src/error-terms/ErrorTermWheel.cpp                         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 506d04f..87f4114 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -120,7 +120,8 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
+        const double temp1 = (v0 < 0.0 ? -1.0 : 1.0) *
+          std::sqrt(v0 * v0 + v1 * v1);
         J_v_v_mw(0, 0) = k * v0 / temp1;
         J_v_v_mw(0, 1) = k * v1 / temp1;
         J_v_v_mw(1, 1) = 0.0;
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 71019e0..0c877d9 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -120,7 +120,8 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
+        const double temp1 = (v0 < 0.0 ? -1.0 : 1.0) *
+          std::sqrt(v0 * v0 + v1 * v1);
         J_v_v_mw(0, 0) = k * v0 / temp1;
         J_v_v_mw(0, 1) = k * v1 / temp1;
         J_v_v_mw(1, 1) = 0.0;
-- 
2.43.0


From 9c7b3ac1ed9e5d45eb9370a98bc0ff8c526cc98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:56 +0000
Subject: [PATCH 21/23] fix: report the DMI time delay in its own entry of the
 odometry parameters

getParameters() wrote the DMI delay over the fourth steering
coefficient (entry 11) and left entry 21 uninitialised.
---
 .../src/design-variables/OdometryDesignVariables.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
index 5cbf8ab..f49a26d 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
@@ -145,7 +145,7 @@ namespace aslam {
       params(18) = t_r->getParameters()(0);
       params(19) = t_f->getParameters()(0);
       params(20) = t_s->getParameters()(0);
-      params(11) = t_dmi->getParameters()(0);
+      params(21) = t_dmi->getParameters()(0);
       return params;
     }
 
-- 
2.43.0


From 6a8c566ffff94214f4d5f106d20b80d62dc7445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:56 +0000
Subject: [PATCH 22/23] fix: initialise optional settings before reading the
 configuration

The constructors from a property tree fall back on the current value of
transSplineOrder when the entry is missing, which was uninitialised.
Start from the documented defaults.
---
 .../src/algo/CarCalibratorOptions.cpp                          | 3 ++-
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 .../src/simulation/TrajectoryParams.cpp                        | 3 ++-
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
index 5799525..ffda2eb 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
@@ -44,7 +44,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) {
+    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) :
+        CarCalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       usePose = config.getBool("usePose");
diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
index 4c945c5..d196bb2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
@@ -28,7 +28,8 @@ namespace aslam {
         referenceSensor(0) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
index 72a75c6..c86a279 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         rotSplineOrder(4) {
     }
 
-    TrajectoryParams::TrajectoryParams(const PropertyTree& config) {
+    TrajectoryParams::TrajectoryParams(const PropertyTree& config) :
+        TrajectoryParams() {
       A = config.getDouble("A");
       f = config.getDouble("f");
       const EulerAnglesYawPitchRoll ypr;
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
index a1782f9..ba8fdd2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
-- 
2.43.0


From 9a4308dcf51963d273f9c7b2693003668bd58fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:30 +0000
Subject: [PATCH 23/23] fix: weight the rear wheel error terms with the rear
 wheels' variances

addRearWheelsErrorTerms and predictRearWheels used the variances configured
for the front wheels; the options rlwVariance and rrwVariance were ignored.
---
 .../src/algo/CarCalibrator.cpp                            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index a320552..0f2443e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -890,12 +890,12 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rlw);
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rrw);
       }
@@ -948,11 +948,11 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto sr_l = e_rlw->evaluateError();
         auto error_l = e_rlw->error();
-- 
2.43.0

