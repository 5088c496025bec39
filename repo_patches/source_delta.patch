From 469e675d6adbdd80b6cdfc1f90c254ffa117b0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:37 +0000
Subject: [PATCH 01/42] fix: read the time columns of CSV files from the
 columns they are written to

---
 curves/src/helpers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 1e8a580..8a6ca44 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -71,7 +71,7 @@ void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes->push_back((curves::Time)atof(it->at(1).c_str()));
+    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
@@ -120,8 +120,8 @@ void loadTimeTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outT
   const unsigned vDim = temp.at(0).size() - vOffset;
   Eigen::VectorXd tempVec(vDim);
   for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
-    outTimes0->push_back((curves::Time)atof(it->at(1).c_str()));
-    outTimes1->push_back((curves::Time)atof(it->at(2).c_str()));
+    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
+    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
     for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
       tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
     }
-- 
2.43.0


From 8a13f60fdaa85af349f61889186c08e779e144b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 02/42] fix: define toString in the header so that every use of
 it links

---
 curves/include/curves/helpers.hpp | 6 +++++-
 curves/src/helpers.cpp            | 4 ----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/curves/include/curves/helpers.hpp b/curves/include/curves/helpers.hpp
index 6eee084..8490b8f 100644
--- a/curves/include/curves/helpers.hpp
+++ b/curves/include/curves/helpers.hpp
@@ -7,6 +7,8 @@
 #pragma once
 
 #include <stdlib.h>
+#include <sstream>
+#include <string>
 #include <vector>
 #include <iostream>
 
@@ -17,7 +19,9 @@
 namespace curves {
 
 template <typename T>
-std::string toString(const T& t);
+std::string toString(const T& t) {
+  std::ostringstream ss; ss<<t; return ss.str();
+}
 
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName);
diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 8a6ca44..488db6e 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -11,10 +11,6 @@
 
 namespace curves {
 
-template <typename T>
-std::string toString(const T& t) {
-  std::ostringstream ss; ss<<t; return ss.str();
-}
 /// \brief Helper function to read CSV files into 'matrix' of strings
 std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
   // Open file stream and check that it is error free
-- 
2.43.0


From a9d3aed048af7ce1565e9b39ec310aff6319e088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 03/42] fix: write CSV numbers with enough digits to read back
 the same value

---
 curves/include/curves/helpers.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/curves/include/curves/helpers.hpp b/curves/include/curves/helpers.hpp
index 8490b8f..73daf04 100644
--- a/curves/include/curves/helpers.hpp
+++ b/curves/include/curves/helpers.hpp
@@ -7,6 +7,7 @@
 #pragma once
 
 #include <stdlib.h>
+#include <limits>
 #include <sstream>
 #include <string>
 #include <vector>
@@ -20,7 +21,10 @@ namespace curves {
 
 template <typename T>
 std::string toString(const T& t) {
-  std::ostringstream ss; ss<<t; return ss.str();
+  // Floating point values need max_digits10 digits to be read back unchanged.
+  std::ostringstream ss;
+  ss.precision(std::numeric_limits<T>::max_digits10);
+  ss<<t; return ss.str();
 }
 
 /// \brief Helper function to read CSV files into 'matrix' of strings
-- 
2.43.0


From 27652c1469bb50d312b19055457bacf9f86b3346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 04/42] fix: report CSV files that cannot be opened, read or
 written

---
 curves/src/helpers.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/curves/src/helpers.cpp b/curves/src/helpers.cpp
index 488db6e..575a14b 100644
--- a/curves/src/helpers.cpp
+++ b/curves/src/helpers.cpp
@@ -31,6 +31,7 @@ std::vector<std::vector<std::string> > loadCSV(std::string fileName) {
     }
     strMatrix.push_back(strRow); // add row to matrix
   }
+  CHECK(!inFileStream.bad()) << "error reading input file " << fileName;
   inFileStream.close();
   return strMatrix;
 }
@@ -39,6 +40,7 @@ void writeCSV(std::string fileName, const std::vector<std::vector<std::string> >
   CHECK_GE(strMatrix.size(), 1) << "Provided matrix of strings had no entries.";
   std::ofstream outFileStream;
   outFileStream.open(fileName.c_str());
+  CHECK(outFileStream.good()) << "error opening output file " << fileName;
   // Iterate over the rows of the string matrix and write comma-separated fields
   for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
     const unsigned fields = itRow->size();
@@ -50,6 +52,7 @@ void writeCSV(std::string fileName, const std::vector<std::vector<std::string> >
     outFileStream << std::endl;
   }
   outFileStream.close();
+  CHECK(outFileStream.good()) << "error writing output file " << fileName;
 }
 /// \brief Helper function to read CSV files formatted in: time, vectorEntry0, vectorEntry1, ...
 void loadTimeVectorCSV(std::string fileName, std::vector<curves::Time>* outTimes, std::vector<Eigen::VectorXd>* outValues) {
-- 
2.43.0


From 99d3500393fd86c237e38ea2f92a0874d2e3a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 05/42] fix: getDDiffTimeVector returns the second, not the
 first derivative

---
 curves/include/curves/PolynomialSpline.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index 0695acc..deb5b75 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -188,7 +188,7 @@ class PolynomialSpline {
            ddtimeVec.cols() == EigenTimeVectorType::ColsAtCompileTime);
     // https://eigen.tuxfamily.org/dox/TopicFunctionTakingEigenTypes.html
     const_cast<Eigen::MatrixBase<Derived>&>(ddtimeVec) =
-        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::dtau(tk)).data());
+        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::ddtau(tk)).data());
   }
 
   //! Get the second derivative of the time vector evaluated at time tk and add it to the input vector.
-- 
2.43.0


From 780b45aba9d7a2dba6d105f447b5ea277f5d6265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 06/42] fix: define the static constants of all spline orders

---
 curves/include/curves/PolynomialSpline.hpp    |  6 +++++
 .../curves/PolynomialSplineContainer.tpp      |  2 ++
 curves/src/polynomial_splines_traits.cpp      | 25 +++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/curves/include/curves/PolynomialSpline.hpp b/curves/include/curves/PolynomialSpline.hpp
index deb5b75..230b2af 100644
--- a/curves/include/curves/PolynomialSpline.hpp
+++ b/curves/include/curves/PolynomialSpline.hpp
@@ -307,4 +307,10 @@ class PolynomialSpline {
   SplineCoefficients coefficients_;
 };
 
+template <int splineOrder_>
+constexpr unsigned int PolynomialSpline<splineOrder_>::splineOrder;
+
+template <int splineOrder_>
+constexpr unsigned int PolynomialSpline<splineOrder_>::coefficientCount;
+
 } /* namespace */
diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 99ac23e..93e5ecf 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -8,6 +8,8 @@
 
 namespace curves {
 
+template <int splineOrder_>
+constexpr double PolynomialSplineContainer<splineOrder_>::undefinedValue;
 
 template <int splineOrder_>
 PolynomialSplineContainer<splineOrder_>::PolynomialSplineContainer():
diff --git a/curves/src/polynomial_splines_traits.cpp b/curves/src/polynomial_splines_traits.cpp
index 3c1f093..57bf828 100644
--- a/curves/src/polynomial_splines_traits.cpp
+++ b/curves/src/polynomial_splines_traits.cpp
@@ -14,12 +14,37 @@ namespace spline_traits {
 template<typename Core_, int SplineOrder_>
 constexpr unsigned int spline_rep<Core_, SplineOrder_>::numCoefficients;
 
+using spline1 = spline_rep<double, 1>;
+constexpr unsigned int spline1::splineOrder;
+constexpr unsigned int spline1::numCoefficients;
+constexpr std::array<double, spline1::numCoefficients> spline1::tauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::dtauZero;
+constexpr std::array<double, spline1::numCoefficients> spline1::ddtauZero;
+
+using spline2 = spline_rep<double, 2>;
+constexpr unsigned int spline2::splineOrder;
+constexpr unsigned int spline2::numCoefficients;
+constexpr std::array<double, spline2::numCoefficients> spline2::tauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::dtauZero;
+constexpr std::array<double, spline2::numCoefficients> spline2::ddtauZero;
+
 using spline3 = spline_rep<double, 3>;
+constexpr unsigned int spline3::splineOrder;
+constexpr unsigned int spline3::numCoefficients;
 constexpr std::array<double, spline3::numCoefficients> spline3::tauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::dtauZero;
 constexpr std::array<double, spline3::numCoefficients> spline3::ddtauZero;
 
+using spline4 = spline_rep<double, 4>;
+constexpr unsigned int spline4::splineOrder;
+constexpr unsigned int spline4::numCoefficients;
+constexpr std::array<double, spline4::numCoefficients> spline4::tauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::dtauZero;
+constexpr std::array<double, spline4::numCoefficients> spline4::ddtauZero;
+
 using spline5 = spline_rep<double, 5>;
+constexpr unsigned int spline5::splineOrder;
+constexpr unsigned int spline5::numCoefficients;
 constexpr std::array<double, spline5::numCoefficients> spline5::tauZero;
 constexpr std::array<double, spline5::numCoefficients> spline5::dtauZero;
 constexpr std::array<double, spline5::numCoefficients> spline5::ddtauZero;
-- 
2.43.0


From 1ebddde16f289e3bc67c9987315e5b26ff1417ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 07/42] fix: setData refuses empty knots and mismatched numbers
 of times and positions

---
 .../curves/PolynomialSplineContainer.tpp      | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 93e5ecf..a9d8983 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -253,17 +253,17 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   bool success = reset();
 
+  if (knotDurations.size()<2u || knotDurations.size()!=knotPositions.size()) {
+    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
+    return false;
+  }
+
   // Set up optimization parameters.
   const unsigned int numSplines = knotDurations.size()-1;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1;
 
-  if (numSplines<1) {
-    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
-    return false;
-  }
-
   // Total number of constraints.
   constexpr unsigned int num_initial_constraints = 3;   // pos, vel, accel
   constexpr unsigned int num_final_constraints = 3;     // pos, vel, accel
@@ -330,17 +330,17 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
 
   bool success = reset();
 
+  if (knotDurations.size()<2u || knotDurations.size()!=knotPositions.size()) {
+    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
+    return false;
+  }
+
   // Set up optimization parameters.
   const unsigned int numSplines = knotDurations.size()-1u;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
   const unsigned int num_junctions = numSplines-1u;
 
-  if (numSplines<1u) {
-    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
-    return false;
-  }
-
   // Total number of constraints.
   constexpr unsigned int num_initial_constraints = 2u;   // pos, vel
   constexpr unsigned int num_final_constraints = 2u;     // pos, vel
-- 
2.43.0


From 866a79a4ae9f03f6d9e30ec41862eb19799a55f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 08/42] fix: the linear setData leaves no stale or partial
 pieces when it refuses knots

---
 curves/include/curves/PolynomialSplineContainer.tpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index a9d8983..1e1dc0e 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -404,25 +404,24 @@ bool PolynomialSplineContainer<splineOrder_>::setData(
     const std::vector<double>& knotDurations,
     const std::vector<double>& knotPositions) {
 
-  bool success = true;
+  bool success = reset();
   const int numSplines = knotDurations.size()-1;
   constexpr auto num_coeffs_spline = SplineType::coefficientCount;
   typename SplineType::SplineCoefficients coefficients;
 
-  if (splineOrder_==0 || numSplines<1) {
+  if (splineOrder_==0 || numSplines<1 || knotDurations.size()!=knotPositions.size()) {
     return false;
   }
 
   std::fill(coefficients.begin(), coefficients.end(), 0.0);
 
-  success &= reset();
-
   this->reserveSplines(numSplines);
 
   for (int splineId = 0; splineId<numSplines; ++splineId) {
     const double duration = knotDurations[splineId+1]-knotDurations[splineId];
 
     if (duration<=0.0) {
+      reset();
       return false;
     }
 
-- 
2.43.0


From 27c8d8087e6dc94103e6020282ea9ae8a4f14d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 09/42] fix: advance follows steps that span several splines

---
 curves/include/curves/PolynomialSplineContainer.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSplineContainer.tpp b/curves/include/curves/PolynomialSplineContainer.tpp
index 1e1dc0e..2bee3ac 100644
--- a/curves/include/curves/PolynomialSplineContainer.tpp
+++ b/curves/include/curves/PolynomialSplineContainer.tpp
@@ -46,7 +46,8 @@ bool PolynomialSplineContainer<splineOrder_>::advance(double dt)
   containerTime_ += dt;
 
   // Check if spline index needs to be increased.
-  if ((containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
+  while (activeSplineIdx_ < static_cast<int>(splines_.size()) &&
+         containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration()) {
     if (activeSplineIdx_ < (splines_.size() - 1)) {
       timeOffset_ += splines_[activeSplineIdx_].getSplineDuration();
     }
-- 
2.43.0


From 98d11fead0074e461585a8ea3d087fb57e89ee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 10/42] fix: adding a spline keeps the internal time consistent

---
 curves/include/curves/PolynomialSplineContainer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineContainer.hpp b/curves/include/curves/PolynomialSplineContainer.hpp
index 5cf5db6..644bfcc 100644
--- a/curves/include/curves/PolynomialSplineContainer.hpp
+++ b/curves/include/curves/PolynomialSplineContainer.hpp
@@ -50,6 +50,8 @@ class PolynomialSplineContainer {
   bool addSpline(SplineType_&& spline) {
     containerDuration_ += spline.getSplineDuration();
     splines_.emplace_back(std::forward<SplineType_>(spline));
+    // The active spline may change if the internal time lies past the previous end.
+    setContainerTime(containerTime_);
     return true;
   }
 
-- 
2.43.0


From b06994e051fb3eefed70952017c86d39bea7b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 11/42] fix: fitting a scalar curve to spline options replaces
 the previous curve

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index c85933b..b632dcb 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -131,6 +131,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<SplineOptions>& optionList,
                         std::vector<Key>* outKeys = NULL)
   {
+    container_.reset();
     container_.reserveSplines(optionList.size());
     for (const auto& options : optionList) {
       container_.addSpline(PolynomialSplineQuintic(options));
-- 
2.43.0


From bb4d43618ee5180c4f377b4e1dcaf78970d4a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 12/42] fix: scalar curves can be used with containers of any
 spline order

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index b632dcb..6837246 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -134,7 +134,7 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
     container_.reset();
     container_.reserveSplines(optionList.size());
     for (const auto& options : optionList) {
-      container_.addSpline(PolynomialSplineQuintic(options));
+      container_.addSpline(typename SplineContainerType::SplineType(options));
     }
     minTime_ = 0.0;
   }
-- 
2.43.0


From 57ac2854dd74a57677cc84338be79b01317907fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 13/42] fix: fitting a scalar curve to no data leaves it empty

---
 curves/include/curves/PolynomialSplineScalarCurve.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineScalarCurve.hpp b/curves/include/curves/PolynomialSplineScalarCurve.hpp
index 6837246..56942f3 100644
--- a/curves/include/curves/PolynomialSplineScalarCurve.hpp
+++ b/curves/include/curves/PolynomialSplineScalarCurve.hpp
@@ -114,6 +114,10 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     container_.setData(times, values, 0.0, 0.0, 0.0, 0.0);
     minTime_ = times.front();
   }
@@ -123,6 +127,10 @@ class PolynomialSplineScalarCurve : public Curve<ScalarCurveConfig>
                         double finalVelocity, double finalAcceleration,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     container_.setData(times, values, initialVelocity, initialAcceleration, finalVelocity,
                        finalAcceleration);
     minTime_ = times.front();
-- 
2.43.0


From 6b3a3324bc0f51288aee861ba7ed19bc2cf91509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 14/42] fix: evaluate vector curves relative to their first
 knot time

---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index ea5f9a9..799c573 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -50,11 +50,12 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual Time getMaxTime() const
   {
-    return containers_.at(0).getContainerDuration();
+    return containers_.at(0).getContainerDuration() + minTime_;
   }
 
   virtual bool evaluate(ValueType& value, Time time) const
   {
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       value(i) = containers_.at(i).getPositionAtTime(time);
     }
@@ -63,7 +64,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
 
   virtual bool evaluateDerivative(DerivativeType& value, Time time, unsigned derivativeOrder) const
   {
-
+    time -= minTime_;
     for (size_t i = 0; i < N; ++i) {
       if (derivativeOrder == 1) {
         value(i) = containers_.at(i).getVelocityAtTime(time);
-- 
2.43.0


From 7cec9d3f4daafb247b3ecd597a5dd9cf93158662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 15/42] fix: clearing a vector curve resets its time range

---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 799c573..0a21657 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -150,6 +150,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
     for (size_t i = 0; i < N; ++i) {
       containers_.at(i).reset();
     }
+    minTime_ = 0;
   }
 
   virtual void transformCurve(const ValueType /*T*/)
-- 
2.43.0


From 418ae2c4cee9d0c329d31dccce814f2a01e9a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:05 +0000
Subject: [PATCH 16/42] fix: fitting a vector curve to no data leaves it empty

---
 .../curves/PolynomialSplineVectorSpaceCurve.hpp      | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 0a21657..660ac79 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -88,6 +88,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
@@ -104,6 +108,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const DerivativeType& finalVelocity,
                         const DerivativeType& finalAcceleration)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
@@ -119,6 +127,10 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                         const std::vector<DerivativeType>& secondDerivatives,
                         std::vector<Key>* outKeys = NULL)
   {
+    if (times.empty()) {
+      clear();
+      return;
+    }
     minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues, scalarFirstDerivates, scalarSecondDerivates;
-- 
2.43.0


From 428760d2b425071cbe2cd67131c655deb03717df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 17/42] fix: make the comparison of coefficient managers
 compile

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index ed9f025..4e1d87a 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -31,24 +31,12 @@ bool LocalSupport2CoefficientManager<Coefficient>::equals(const LocalSupport2Coe
   equal &= keyToCoefficient_.size() == other.keyToCoefficient_.size();
   equal &= timeToCoefficient_.size() == other.timeToCoefficient_.size();
   if (equal) {
-    CoefficientIter it1, it2;
-    it1 = keyToCoefficient_.begin();
-    it2 = other.keyToCoefficient_.begin();
-    for( ; it1 != keyToCoefficient_.end(); ++it1, ++it2) {
-      equal &= it1->first == it2->first;
-      equal &= it1->second.equals(it2->second);
-    }
-
     CoefficientIter it3, it4;
     it3 = timeToCoefficient_.begin();
     it4 = other.timeToCoefficient_.begin();
     for( ; it3 != timeToCoefficient_.end(); ++it3, ++it4) {
       equal &= it3->first == it4->first;
-      if (it3->second && it4->second) {
-        equal &= it3->second->equals(*(it4->second));
-      } else {
-        equal &= it3->second == it4->second;
-      }
+      equal &= it3->second.equals(it4->second);
     }
 
   }
-- 
2.43.0


From 542cf9e30c039ea081c21acf3eca90b50912a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 18/42] fix: make lookup and removal of coefficients by key
 work

---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 4e1d87a..dd29f8a 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -183,7 +183,7 @@ void LocalSupport2CoefficientManager<Coefficient>::removeCoefficientWithKey(Key
   typename TimeToKeyCoefficientMap::iterator it1;
   typename boost::unordered_map<Key, CoefficientIter>::iterator it2;
   it2 = keyToCoefficient_.find(key);
-  it1 = timeToCoefficient_.find(it1->second->first);
+  it1 = timeToCoefficient_.find(it2->second->first);
   timeToCoefficient_.erase(it1);
   keyToCoefficient_.erase(it2);
 }
@@ -209,8 +209,7 @@ bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientAtTime(Time tim
 /// \brief return true if there is a coefficient with this key
 template <class Coefficient>
 bool LocalSupport2CoefficientManager<Coefficient>::hasCoefficientWithKey(Key key) const {
-  CoefficientIter it = keyToCoefficient_.find(key);
-  return it != keyToCoefficient_.end();
+  return keyToCoefficient_.find(key) != keyToCoefficient_.end();
 }
 
 /// \brief set the coefficient associated with this key
-- 
2.43.0


From c89feb29d48f1953677fde68d480a45133b06d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 19/42] fix: make reading coefficients of a range and of the
 whole manager compile

---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index dd29f8a..e1f2068 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -293,10 +293,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     it--;
     // iterate through coefficients
     for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
     if (it != timeToCoefficient_.end()) {
-      (*outCoefficients)[it->second->key] = it->second->coefficient;
+      (*outCoefficients)[it->second.key] = it->second.coefficient;
     }
   }
 }
@@ -308,7 +308,7 @@ void LocalSupport2CoefficientManager<Coefficient>::getCoefficients(CoefficientMa
   CoefficientIter it;
   it = timeToCoefficient_.begin();
   for( ; it != timeToCoefficient_.end(); ++it) {
-    (*outCoefficients)[it->second->key] = it->second->coefficient;
+    (*outCoefficients)[it->second.key] = it->second.coefficient;
   }
 }
 
-- 
2.43.0


From 755ae9218bc6aa60ca0b9a12fde6ca25ea7db534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 20/42] fix: list all times in a window, also when it starts at
 the first one

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index e1f2068..bb68126 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -81,16 +81,10 @@ void LocalSupport2CoefficientManager<Coefficient>::getTimesInWindow(std::vector<
   CHECK_NOTNULL(outTimes);
 
   outTimes->clear();
-  CoefficientIter it = --(timeToCoefficient_.end());
-
-  do {
-    if (it->first >= begTime) {
-      outTimes->push_back(it->first);
-    }
-    --it;
-  } while (it->first >= begTime && it != timeToCoefficient_.begin());
-
-  std::reverse(outTimes->begin(),outTimes->end());
+  CoefficientIter it = timeToCoefficient_.lower_bound(begTime);
+  for( ; it != timeToCoefficient_.end(); ++it) {
+    outTimes->push_back(it->first);
+  }
 }
 
 template <class Coefficient>
-- 
2.43.0


From 9414711341cca3190699ff511a4e9cf544ddcc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 21/42] fix: modifyCoefficient handles occupied times

---
 .../include/curves/LocalSupport2CoefficientManager-inl.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index bb68126..b96a3fb 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -162,6 +162,11 @@ void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficient(typename TimeToKeyCoefficientMap::iterator it,
                                                                      Time time, const Coefficient& coefficient) {
+  if (time == it->first) {
+    it->second.coefficient = coefficient;
+    return;
+  }
+  CHECK(!hasCoefficientAtTime(time)) << "There is already a coefficient at that time.";
   // This is used by slerp sampling policy.
   // In this case a new coefficient should be placed slightly later than the initial one.
   CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
-- 
2.43.0


From c64c9a446e65692b01f66041efb7f8b2c24c92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 22/42] fix: addCoefficientAtEnd works on an empty manager

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index b96a3fb..376e151 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -145,12 +145,12 @@ void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBat
 
 template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::addCoefficientAtEnd(Time time, const Coefficient& coefficient, std::vector<Key>* outKeys) {
-  CHECK(time > getMaxTime()) << "Time to add is not greater than curve max time";
+  CHECK(timeToCoefficient_.empty() || time > getMaxTime()) << "Time to add is not greater than curve max time";
 
   Key key = KeyGenerator::getNextKey();
 
   // Insert the coefficient with a hint that it goes at the end
-  CoefficientIter it = timeToCoefficient_.insert(--(timeToCoefficient_.end()),
+  CoefficientIter it = timeToCoefficient_.insert(timeToCoefficient_.end(),
                                                  std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient)));
 
   keyToCoefficient_.insert(keyToCoefficient_.end(), std::pair<Key, CoefficientIter>(key,it));
-- 
2.43.0


From 547dd82f5fb2aaedb6a255635bd086cd670f185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 23/42] fix: the consistency check looks at an entry only after
 finding it

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 376e151..6df9e9e 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -366,8 +366,8 @@ void LocalSupport2CoefficientManager<Coefficient>::checkInternalConsistency(bool
   for(it = timeToCoefficient_.begin() ; it != timeToCoefficient_.end(); ++it) {
     Key key = it->second.key;
     itc = keyToCoefficient_.find(key);
-    CHECK_EQ(itc->first, itc->second->second.key);
     CHECK( itc != keyToCoefficient_.end() ) << "Key " << key << " is not in the map";
+    CHECK_EQ(itc->first, itc->second->second.key);
     // This is probably the important one.
     // Check that the itc->second iterator
     // points to the same object as it->second.
-- 
2.43.0


From 30e4e27694e36bfeb2a6df0c6bc95deff3156020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 24/42] fix: batch modification reports missing coefficients

---
 .../curves/LocalSupport2CoefficientManager-inl.hpp     | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 6df9e9e..b126656 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -129,14 +129,14 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::modifyCoefficientsValuesInBatch(const std::vector<Time>& times,
                                                                                    const std::vector<Coefficient>& values) {
   CHECK_EQ(times.size(), values.size());
+  if (times.empty()) {
+    return;
+  }
   // Get an iterator to the first coefficient
-  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.end();
-
-  do {
-    --it;
-  } while (it->first != times[0]);
+  typename TimeToKeyCoefficientMap::iterator it = timeToCoefficient_.find(times[0]);
 
   for (size_t i = 0; i < times.size(); ++i) {
+    CHECK(it != timeToCoefficient_.end()) << "No coefficient at that time.";
     CHECK_EQ(it->first,times[i]);
     it->second.coefficient = values[i];
     ++it;
-- 
2.43.0


From a0d996636282494d4bdd83b986e134f21c72325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 25/42] fix: copies of a coefficient manager refer to their own
 coefficients

---
 .../LocalSupport2CoefficientManager-inl.hpp   | 20 +++++++++++++++++++
 .../LocalSupport2CoefficientManager.hpp       |  2 ++
 2 files changed, 22 insertions(+)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index b126656..1d0c813 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -19,6 +19,26 @@ template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager() {
 }
 
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>::LocalSupport2CoefficientManager(
+    const LocalSupport2CoefficientManager& other) {
+  *this = other;
+}
+
+template <class Coefficient>
+LocalSupport2CoefficientManager<Coefficient>& LocalSupport2CoefficientManager<Coefficient>::operator=(
+    const LocalSupport2CoefficientManager& other) {
+  if (this != &other) {
+    timeToCoefficient_ = other.timeToCoefficient_;
+    // The keys have to refer to the copied coefficients, not to those of the other manager.
+    keyToCoefficient_.clear();
+    for (CoefficientIter it = timeToCoefficient_.begin(); it != timeToCoefficient_.end(); ++it) {
+      keyToCoefficient_[it->second.key] = it;
+    }
+  }
+  return *this;
+}
+
 template <class Coefficient>
 LocalSupport2CoefficientManager<Coefficient>::~LocalSupport2CoefficientManager() {
 }
diff --git a/curves/include/curves/LocalSupport2CoefficientManager.hpp b/curves/include/curves/LocalSupport2CoefficientManager.hpp
index 1e769d4..ff6deaf 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager.hpp
@@ -50,6 +50,8 @@ class LocalSupport2CoefficientManager {
   typedef boost::unordered_map<size_t, Coefficient> CoefficientMap;
 
   LocalSupport2CoefficientManager();
+  LocalSupport2CoefficientManager(const LocalSupport2CoefficientManager& other);
+  LocalSupport2CoefficientManager& operator=(const LocalSupport2CoefficientManager& other);
   virtual ~LocalSupport2CoefficientManager();
 
   /// Compare this Coefficient manager with another for equality.
-- 
2.43.0


From 9ccfe41af329124789d96e901e2f622facf2c658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 26/42] fix: fitting a Hermite position curve replaces the
 previous curve

---
 curves/src/CubicHermiteE3Curve.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 60ad7d3..f4bc666 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -147,6 +147,8 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
                       std::vector<Key>* outKeys) {
   assert(times.size() == values.size());
 
+  clear();
+
   // construct the Hemrite coefficients
   std::vector<Coefficient> coefficients;
   // fill the coefficients with ValueType and DerivativeType
-- 
2.43.0


From 1e270eb61b82e1b3091081bba8934a9d121a3767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:55 +0000
Subject: [PATCH 27/42] fix: evaluating an empty Hermite curve at time zero
 fails instead of reading past the end

---
 curves/src/CubicHermiteE3Curve.cpp  | 4 ++--
 curves/src/CubicHermiteSE3Curve.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index f4bc666..c106ebf 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -185,7 +185,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
 /// Evaluate the ambient space of the curve.
 bool CubicHermiteE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-   if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+   if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
      value =  manager_.coefficientBegin()->second.coefficient.getPosition();
      return true;
    }
@@ -238,7 +238,7 @@ bool CubicHermiteE3Curve::evaluateDerivative(DerivativeType& derivative, Time ti
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-      if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+      if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
         derivative = manager_.coefficientBegin()->second.coefficient.getVelocity();
         return true;
       }
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index b1f9c28..ebfd539 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -194,7 +194,7 @@ void CubicHermiteSE3Curve::extend(const std::vector<Time>& /*times*/,
 
 bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {
   // Check if the curve is only defined at this one time
-  if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+  if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
     value =  manager_.coefficientBegin()->second.coefficient.getTransformation();
     return true;
   }
@@ -273,7 +273,7 @@ bool CubicHermiteSE3Curve::evaluateDerivative(DerivativeType& derivative,
 {
   if (derivativeOrder == 1) {
     // Check if the curve is only defined at this one time
-    if (manager_.getMaxTime() == time && manager_.getMinTime() == time) {
+    if (!manager_.empty() && manager_.getMaxTime() == time && manager_.getMinTime() == time) {
       derivative = manager_.coefficientBegin()->second.coefficient.getTransformationDerivative();
       return true;
     }
-- 
2.43.0


From 8390c059ace89c844fa9308728cc50a9e05c9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:55 +0000
Subject: [PATCH 28/42] fix: Hermite curve operations that are not implemented
 fail instead of doing nothing

---
 curves/src/CubicHermiteE3Curve.cpp  | 4 +++-
 curves/src/CubicHermiteSE3Curve.cpp | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index c106ebf..6c4299f 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -7,6 +7,8 @@
 
 #include <curves/CubicHermiteE3Curve.hpp>
 
+#include <stdexcept>
+
 namespace curves {
 
 CubicHermiteE3Curve::CubicHermiteE3Curve() {
@@ -117,7 +119,7 @@ CubicHermiteE3Curve::DerivativeType CubicHermiteE3Curve::calculateSlope(const Ti
 void CubicHermiteE3Curve::extend(const std::vector<Time>& /*times*/,
                     const std::vector<ValueType>& /*values*/,
                     std::vector<Key>* /*outKeys*/) {
-
+  throw std::runtime_error("CubicHermiteE3Curve::extend is not implemented!");
 }
 
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index ebfd539..fe64444 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -566,6 +566,7 @@ void CubicHermiteSE3Curve::clear() {
 
 void CubicHermiteSE3Curve::transformCurve(const ValueType /*T*/) {
   //todo
+  CHECK(false) << "Not implemented";
 }
 
 void CubicHermiteSE3Curve::saveCurveTimesAndValues(const std::string& filename) const {
-- 
2.43.0


From 90ec8683f8ca6b5a2310c6474db0628bdc9dd46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:55 +0000
Subject: [PATCH 29/42] fix: periodic Hermite fits use the time across the seam
 for its slope

---
 curves/src/CubicHermiteE3Curve.cpp  | 6 ++++--
 curves/src/CubicHermiteSE3Curve.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 6c4299f..c5ccee8 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -137,8 +137,10 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  //TODO Add a check on nPoints which should be >= 2 otherwise that breaks.
-  DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  CHECK_GE(nPoints, 2u) << "A periodic curve needs at least two points.";
+  // The neighbors of the seam are one period apart: shift the one before the last point to before the first.
+  const Time timeBeforeSeam = times[0] - (times[nPoints-1] - times[nPoints-2]);
+  DerivativeType derivative = calculateSlope(timeBeforeSeam, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index fe64444..3010e4f 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -153,7 +153,10 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    *
    */
   const size_t nPoints = times.size();
-  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(times[nPoints-2], times[1], values[nPoints-2], values[1]);
+  CHECK_GE(nPoints, 2u) << "A periodic curve needs at least two points.";
+  // The neighbors of the seam are one period apart: shift the one before the last point to before the first.
+  const Time timeBeforeSeam = times[0] - (times[nPoints-1] - times[nPoints-2]);
+  CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(timeBeforeSeam, times[1], values[nPoints-2], values[1]);
   fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);
 }
 
-- 
2.43.0


From 4129c5bd7f004ed1e77e2147380dd6c03aabd059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:55 +0000
Subject: [PATCH 30/42] fix: importing a trajectory message without joints
 fails

---
 curves_ros/src/RosJointTrajectoryInterface.cpp                  | 2 +-
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp          | 2 +-
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 0998e76..146a1a0 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -31,8 +31,8 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index dceae8e..e4eff81 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -34,8 +34,8 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<CubicHermiteSE3Curve::ValueType> values;
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 8961923..00dbe0c 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -31,8 +31,8 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
   size_t j = 0;
   for (; j < nJoints; ++j) {
     if (message.joint_names[j] == jointName) break;
-    if (j == nJoints - 1) return false; // Joint name not found.
   }
+  if (j == nJoints) return false; // Joint name not found.
 
   std::vector<Time> times;
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
-- 
2.43.0


From 7aa22388f46b196bbc358d3f7e005ede624e7c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:19 +0000
Subject: [PATCH 31/42] fix: reading a range of an empty coefficient manager
 delivers nothing

---
 curves/include/curves/LocalSupport2CoefficientManager-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
index 1d0c813..11880f3 100644
--- a/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
+++ b/curves/include/curves/LocalSupport2CoefficientManager-inl.hpp
@@ -296,7 +296,7 @@ template <class Coefficient>
 void LocalSupport2CoefficientManager<Coefficient>::getCoefficientsInRange(
     Time startTime, Time endTime, CoefficientMap* outCoefficients) const {
 
-  if (startTime <= endTime && startTime <= this->getMaxTime()
+  if (!timeToCoefficient_.empty() && startTime <= endTime && startTime <= this->getMaxTime()
       && endTime >= this->getMinTime()) {
     // be forgiving if start time is lower than definition of curve
     if (startTime < this->getMinTime()) {
-- 
2.43.0


From c47b3a03ffab34d98cb1b34e5e88ba9a3b6d9e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 32/42] fix: clearing a slerp curve starts a new group of
 measurements

---
 curves/src/SlerpSE3Curve.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/src/SlerpSE3Curve.cpp b/curves/src/SlerpSE3Curve.cpp
index 8dac84e..9dd37d6 100644
--- a/curves/src/SlerpSE3Curve.cpp
+++ b/curves/src/SlerpSE3Curve.cpp
@@ -256,6 +256,7 @@ void SlerpSE3Curve::setSamplingRatio(const int ratio) {
 
 void SlerpSE3Curve::clear() {
   manager_.clear();
+  slerpPolicy_.setMeasurementsSinceLastExtend_(0);
 }
 
 void SlerpSE3Curve::transformCurve(const ValueType T) {
-- 
2.43.0


From 332cff60ef78cd65de15f4ba83f98b8b42d340a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 33/42] fix: lowering the sampling ratio within a group stopped
 a slerp curve from growing

---
 curves/include/curves/SlerpSE3Curve.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/include/curves/SlerpSE3Curve.hpp b/curves/include/curves/SlerpSE3Curve.hpp
index 30dad54..8feb3ae 100644
--- a/curves/include/curves/SlerpSE3Curve.hpp
+++ b/curves/include/curves/SlerpSE3Curve.hpp
@@ -228,7 +228,7 @@ inline void SamplingPolicy::extend<SlerpSE3Curve, SE3>(const std::vector<Time>&
           SlerpSE3Curve::TimeToKeyCoefficientMap::iterator itPrev = (--curve->manager_.coefficientEnd());
           curve->manager_.modifyCoefficient(itPrev, times[0], values[0]);
         }
-        if (measurementsSinceLastExtend_ == minimumMeasurements_) {
+        if (measurementsSinceLastExtend_ >= minimumMeasurements_) {
           measurementsSinceLastExtend_ = 0;
         }
       }
-- 
2.43.0


From 1b0dc5d3f7729f3396ef5607032b010f43a0d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 34/42] fix: printing an empty slerp curve read past its times

---
 curves/src/SlerpSE3Curve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/src/SlerpSE3Curve.cpp b/curves/src/SlerpSE3Curve.cpp
index 9dd37d6..59a1e8d 100644
--- a/curves/src/SlerpSE3Curve.cpp
+++ b/curves/src/SlerpSE3Curve.cpp
@@ -30,7 +30,7 @@ void SlerpSE3Curve::print(const std::string& str) const {
       " and " << manager_.getMaxTime() <<std::endl;
   double sum_dp = 0;
   Eigen::Vector3d p1, p2;
-  for(size_t i = 0; i < times.size()-1; ++i) {
+  for(size_t i = 0; i + 1 < times.size(); ++i) {
     p1 = evaluate(times[i]).getPosition().vector();
     p2 = evaluate(times[i+1]).getPosition().vector();
     sum_dp += (p1-p2).norm();
-- 
2.43.0


From 8944e7cf98e0d2dae54d69fc3cc42273d52e86a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 35/42] fix: times outside a Hermite pose curve were saved with
 the pose of another time

---
 curves/src/CubicHermiteSE3Curve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 3010e4f..4819471 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -585,7 +585,7 @@ void CubicHermiteSE3Curve::saveCurveAtTimes(const std::string& filename, std::ve
   std::vector<Eigen::VectorXd> curveValues;
   ValueType val;
   for (size_t i = 0; i < times.size(); ++i) {
-    evaluate(val, times[i]);
+    CHECK(evaluate(val, times[i])) << "Unable to evaluate the curve at time " << times[i];
     v << val.getPosition().x(), val.getPosition().y(), val.getPosition().z(),
         val.getRotation().w(), val.getRotation().x(), val.getRotation().y(), val.getRotation().z();
     curveValues.push_back(v);
-- 
2.43.0


From 6401308e25b55557b2fd39037efaffea0e4e1e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:19 +0000
Subject: [PATCH 36/42] fix: the file of a Hermite position curve names only
 the columns it has

---
 curves/src/CubicHermiteE3Curve.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index c5ccee8..fb8be1a 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -50,9 +50,7 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
   }
   fprintf(fp, "t ");
   fprintf(fp, "px py pz ");
-  fprintf(fp, "rw rx ry rz ");
   fprintf(fp, "vx vy vz ");
-  fprintf(fp, "wx wy wz ");
   fprintf(fp, "\n");
 
   Time dt = (getMaxTime()-getMinTime())/(nSamples-1);
-- 
2.43.0


From 1a3cd3dcc19e69d2d82b2e0ec089a9b1f0cd6556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:23 +0000
Subject: [PATCH 37/42] fix: a Hermite curve file that cannot be written
 completely is reported

---
 curves/src/CubicHermiteE3Curve.cpp  | 6 +++++-
 curves/src/CubicHermiteSE3Curve.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index fb8be1a..943fb43 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -72,7 +72,11 @@ bool CubicHermiteE3Curve::writeEvalToFile(const std::string& filename, int nSamp
     fprintf(fp, "%lf %lf %lf ", velocity.x(), velocity.y(), velocity.z());
     fprintf(fp, "\n");
   }
-  fclose(fp);
+  const bool writeError = ferror(fp)!=0;
+  if (fclose(fp)!=0 || writeError) {
+    std::cout << "Could not write file" << std::endl;
+    return false;
+  }
 
   return true;
 }
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 4819471..88c7abf 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -77,7 +77,11 @@ bool CubicHermiteSE3Curve::writeEvalToFile(const std::string& filename, int nSam
     fprintf(fp, "%lf %lf %lf ", twist.getRotationalVelocity().x(), twist.getRotationalVelocity().y(), twist.getRotationalVelocity().z());
     fprintf(fp, "\n");
   }
-  fclose(fp);
+  const bool writeError = ferror(fp)!=0;
+  if (fclose(fp)!=0 || writeError) {
+    std::cout << "Could not write file" << std::endl;
+    return false;
+  }
 
   return true;
 }
-- 
2.43.0


From 800944db5eb7f836ae0714a0f934864ed5d00888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:53 +0000
Subject: [PATCH 38/42] fix: a Hermite position curve read values past their
 end when assertions were off

---
 curves/src/CubicHermiteE3Curve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index 943fb43..d4bac3f 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -151,7 +151,7 @@ void CubicHermiteE3Curve::fitCurveWithDerivatives(const std::vector<Time>& times
                       const DerivativeType& initialDerivative,
                       const DerivativeType& finalDerivative,
                       std::vector<Key>* outKeys) {
-  assert(times.size() == values.size());
+  CHECK_EQ(times.size(), values.size());
 
   clear();
 
-- 
2.43.0


From 4b61629f5eb294d412e8b5c7f5da01f10a98d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:53 +0000
Subject: [PATCH 39/42] fix: periodic Hermite fits read values past their end
 before comparing the lengths

---
 curves/src/CubicHermiteE3Curve.cpp  | 1 +
 curves/src/CubicHermiteSE3Curve.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/curves/src/CubicHermiteE3Curve.cpp b/curves/src/CubicHermiteE3Curve.cpp
index d4bac3f..f219d55 100644
--- a/curves/src/CubicHermiteE3Curve.cpp
+++ b/curves/src/CubicHermiteE3Curve.cpp
@@ -140,6 +140,7 @@ void CubicHermiteE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    */
   const size_t nPoints = times.size();
   CHECK_GE(nPoints, 2u) << "A periodic curve needs at least two points.";
+  CHECK_EQ(times.size(), values.size());
   // The neighbors of the seam are one period apart: shift the one before the last point to before the first.
   const Time timeBeforeSeam = times[0] - (times[nPoints-1] - times[nPoints-2]);
   DerivativeType derivative = calculateSlope(timeBeforeSeam, times[1], values[nPoints-2], values[1]);
diff --git a/curves/src/CubicHermiteSE3Curve.cpp b/curves/src/CubicHermiteSE3Curve.cpp
index 88c7abf..2139452 100644
--- a/curves/src/CubicHermiteSE3Curve.cpp
+++ b/curves/src/CubicHermiteSE3Curve.cpp
@@ -158,6 +158,7 @@ void CubicHermiteSE3Curve::fitPeriodicCurve(const std::vector<Time>& times,
    */
   const size_t nPoints = times.size();
   CHECK_GE(nPoints, 2u) << "A periodic curve needs at least two points.";
+  CHECK_EQ(times.size(), values.size());
   // The neighbors of the seam are one period apart: shift the one before the last point to before the first.
   const Time timeBeforeSeam = times[0] - (times[nPoints-1] - times[nPoints-2]);
   CubicHermiteSE3Curve::DerivativeType derivative = calculateSlope(timeBeforeSeam, times[1], values[nPoints-2], values[1]);
-- 
2.43.0


From 48884c452c667a87d79beeb3b9b0117742f4d0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:53 +0000
Subject: [PATCH 40/42] fix: a refused fit of a vector curve left the curve
 shifted in time

---
 curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
index 660ac79..f5b5f24 100644
--- a/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
+++ b/curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp
@@ -92,13 +92,13 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
       clear();
       return;
     }
-    minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
       scalarValues.reserve(times.size());
       for (size_t t = 0; t < times.size(); ++t) scalarValues.push_back(values.at(t)(i));
       containers_.at(i).setData(times, scalarValues, 0.0, 0.0, 0.0, 0.0);
     }
+    minTime_ = times.front();
   }
 
   virtual void fitCurve(const std::vector<Time>& times,
@@ -112,7 +112,6 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
       clear();
       return;
     }
-    minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues;
       scalarValues.reserve(times.size());
@@ -120,6 +119,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
       containers_.at(i).setData(times, scalarValues, initialVelocity(i), initialAcceleration(i),
                                 finalVelocity(i), finalAcceleration(i));
     }
+    minTime_ = times.front();
   }
 
   virtual void fitCurve(const std::vector<Time>& times, const std::vector<ValueType>& values,
@@ -131,7 +131,6 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
       clear();
       return;
     }
-    minTime_ = times.front();
     for (size_t i = 0; i < N; ++i) {
       std::vector<double> scalarValues, scalarFirstDerivates, scalarSecondDerivates;
       scalarValues.reserve(times.size());
@@ -147,6 +146,7 @@ class PolynomialSplineVectorSpaceCurve : public VectorSpaceCurve<N>
                                 *(scalarFirstDerivates.begin()), *(scalarSecondDerivates.begin()),
                                 *(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.end() - 1));
     }
+    minTime_ = times.front();
   }
 
 
-- 
2.43.0


From 322e50c5935b7fd10cba99cde139c0eedf6609e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:36 +0000
Subject: [PATCH 41/42] fix: extending a Hermite pose curve with too few values
 read past their end

---
 curves/include/curves/CubicHermiteSE3Curve.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/curves/include/curves/CubicHermiteSE3Curve.hpp b/curves/include/curves/CubicHermiteSE3Curve.hpp
index aba169c..b684b53 100644
--- a/curves/include/curves/CubicHermiteSE3Curve.hpp
+++ b/curves/include/curves/CubicHermiteSE3Curve.hpp
@@ -371,6 +371,7 @@ inline void SamplingPolicy::extend<CubicHermiteSE3Curve, ValueType>(const std::v
                                                              const std::vector<ValueType>& values,
                                                              CubicHermiteSE3Curve* curve,
                                                              std::vector<Key>* /*outKeys*/) {
+  CHECK_EQ(times.size(), values.size());
   for (std::size_t i = 0; i < times.size(); ++i) {
     // ensure time strictly increases
     CHECK((times[i] > curve->manager_.getMaxTime()) || curve->manager_.size() == 0) << "curve can only be extended into the future. Requested = "
-- 
2.43.0


From c45d5beb4c7249f1a050a73880860404595120df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:39 +0000
Subject: [PATCH 42/42] fix: a trajectory message whose points lack the joint's
 value was read past its end

---
 curves_ros/src/RosJointTrajectoryInterface.cpp                   | 1 +
 curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp           | 1 +
 .../src/RosMultiDOFJointTrajectoryTranslationInterface.cpp       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/curves_ros/src/RosJointTrajectoryInterface.cpp b/curves_ros/src/RosJointTrajectoryInterface.cpp
index 146a1a0..7fd5629 100644
--- a/curves_ros/src/RosJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosJointTrajectoryInterface.cpp
@@ -38,6 +38,7 @@ bool RosJointTrajectoryInterface::fromMessage(const trajectory_msgs::JointTrajec
   std::vector<PolynomialSplineQuinticScalarCurve::ValueType> values;
 
   for (const auto& point : message.points) {
+    if (point.positions.size() <= j) return false; // No value for this joint.
     times.push_back(ros::Duration(point.time_from_start).toSec());
     values.push_back(point.positions[j]);
   }
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
index e4eff81..2696c89 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp
@@ -41,6 +41,7 @@ bool RosMultiDOFJointTrajectoryInterface::fromMessage(
   std::vector<CubicHermiteSE3Curve::ValueType> values;
 
   for (const auto& point : message.points) {
+    if (point.transforms.size() <= j) return false; // No value for this joint.
     times.push_back(ros::Duration(point.time_from_start).toSec());
     CubicHermiteSE3Curve::ValueType pose;
     kindr_ros::convertFromRosGeometryMsg(point.transforms[j], pose);
diff --git a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
index 00dbe0c..e7aba43 100644
--- a/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
+++ b/curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp
@@ -38,6 +38,7 @@ bool RosMultiDOFJointTrajectoryTranslationInterface::fromMessage(
   std::vector<PolynomialSplineQuinticVector3Curve::ValueType> values;
 
   for (const auto& point : message.points) { // TODO Make nicer with ROS to kindr transforms.
+    if (point.transforms.size() <= j) return false; // No value for this joint.
     times.push_back(ros::Duration(point.time_from_start).toSec());
     PolynomialSplineQuinticVector3Curve::ValueType position(point.transforms[j].translation.x,
                                                             point.transforms[j].translation.y,
-- 
2.43.0

