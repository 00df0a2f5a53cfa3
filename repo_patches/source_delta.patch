From 272e98c46cc18187f9e92111627c95dd5969dfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:42 +0000
Subject: [PATCH 01/32] fix: degree elevation computes every interior Bezier
 point

The loop stopped one point short, so the last interior point of every elevated segment stayed zero with weight zero and
its coordinates became NaN (hidden in the tests because NaN distances compare as equal).
---
 src/spl/spline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 41658fb..a6afa81 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -350,7 +350,7 @@ class Spline {
     for (int i = 0; i < segment_length; ++i) {
       new_cps[cp_handler_new.Get1DIndex({0, i})] = bezier_cps[cp_handler_old.Get1DIndex({0, i})];
       new_cps[cp_handler_new.Get1DIndex({width - 1, i})] = bezier_cps[cp_handler_old.Get1DIndex({width - 2, i})];
-      for (int j = 1; j < GetDegree(dimension).get(); ++j) {
+      for (int j = 1; j <= GetDegree(dimension).get(); ++j) {
         new_cps[cp_handler_new.Get1DIndex({j, i})] = bezier_cps[cp_handler_old.Get1DIndex({j, i})] * (1 - alpha[j]) +
             bezier_cps[cp_handler_old.Get1DIndex({j - 1, i})] * alpha[j];
       }
-- 
2.43.0


From 83319d47a6f81689594442ed266c20665038228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:59 +0000
Subject: [PATCH 02/32] fix: RemoveKnot refuses absent knots and the clamped
 end knots

Removing a knot that is not in the knot vector (or one more copy than there is) erased the neighbouring lower knot, and
removing an end knot ran past the end of the knot vector.
---
 src/spl/spline.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index a6afa81..e13edd2 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -188,7 +188,9 @@ class Spline {
 
   size_t RemoveKnot(ParamCoord knot, int dimension, double tolerance, size_t multiplicity = 1) {
     size_t count = 0;
-    for (; count < multiplicity; ++count) {
+    // The end knots of the clamped knot vector and knots which do not exist (any more) can not be removed.
+    if (knot == GetKnotVector(dimension)->GetKnot(0) || knot == GetKnotVector(dimension)->GetLastKnot()) return count;
+    for (; count < multiplicity && GetKnotVector(dimension)->GetMultiplicity(knot) > 0; ++count) {
       KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
       Degree degree = GetDegree(dimension);
       auto last = knot_span.get() - GetKnotVector(dimension)->GetMultiplicity(knot);
-- 
2.43.0


From 76ccd67aeb073d0ac8d9dc5e7c914b83d2223408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:59 +0000
Subject: [PATCH 03/32] fix: removal of Bezier knots copes with knots that
 vanish completely

When degree reduction removed every copy of an interior knot, the loop skipped the following knots and read past the end
of the knot vector.
---
 src/spl/spline.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index e13edd2..f771c0e 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -312,13 +312,11 @@ class Spline {
 
   void RemoveBezierKnots(std::vector<int> diff, int dimension) {
     auto current_knot = GetDegree(dimension).get() + 1;
-    for (int current_knot_span = 0; current_knot_span < GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 2;
-         ++current_knot_span, ++current_knot) {
-      RemoveKnot(GetKnotVector(dimension)->GetKnot(current_knot), dimension,
-                 util::NumericSettings<double>::kEpsilon(), static_cast<size_t>(diff[current_knot_span]));
-      while (GetKnotVector(dimension)->GetKnot(current_knot) == GetKnotVector(dimension)->GetKnot(current_knot + 1)) {
-        ++current_knot;
-      }
+    for (int number_of_knots_to_remove : diff) {
+      ParamCoord knot = GetKnotVector(dimension)->GetKnot(current_knot);
+      RemoveKnot(knot, dimension, util::NumericSettings<double>::kEpsilon(),
+                 static_cast<size_t>(number_of_knots_to_remove));
+      current_knot += static_cast<int>(GetKnotVector(dimension)->GetMultiplicity(knot));
     }
   }
 
-- 
2.43.0


From e3927256fc013ae23feaaced920f3af7fbc99e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:59 +0000
Subject: [PATCH 04/32] fix: degree reduction of a linear spline is refused

The reduction accessed control point -1 of the Bezier segments for degree 1.
---
 src/spl/spline.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index f771c0e..c6655bc 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -229,6 +229,7 @@ class Spline {
   }
 
   bool ReduceDegreeForDimension(int dimension, double tolerance = util::NumericSettings<double>::kEpsilon()) {
+    if (GetDegree(dimension).get() < 2) return false;
     std::vector<int> diff = ProduceBezierSegments(dimension);
     uint64_t num_bezier_segments = GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 1;
     std::vector<std::vector<baf::ControlPoint>> bezier_segments;
-- 
2.43.0


From 7e87ad1f58bf79aeb8b1fcfc98dd591ad748db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:09 +0000
Subject: [PATCH 05/32] fix: RemoveKnot works for knots of multiplicity p + 1

With no control point between the two that have to coincide the removal read outside the scaling and temporary vectors.
---
 src/spl/b_spline.h | 4 +++-
 src/spl/nurbs.h    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 9d7446c..7cd634d 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -81,7 +81,7 @@ class BSpline : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling.empty() ? 0.0 : scaling[i - off - 1], temp, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -223,6 +223,8 @@ class BSpline : public Spline<DIM> {
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
       if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        // A knot of multiplicity p + 1 has no control point between the two which have to coincide.
+        if (temp_length == 2u * this->GetPointDim()) return false;
         for (int k = 0; k < this->GetPointDim(); ++k) {
           auto indices = point_handler.GetIndices();
           indices[dimension] = i;
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 712e1f3..19b2760 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -94,7 +94,7 @@ class NURBS : public Spline<DIM> {
     std::vector<double> temp = GetTempNewControlPoints(scaling, temp_w, off, last, i, j, dimension);
     auto diff = static_cast<int>(ceil((j - i) / 2.0));
     i += diff, j -= diff;
-    if (!IsKnotRemovable(scaling[i - off - 1], temp, temp_w, tolerance, i, j, off, dimension)) {
+    if (!IsKnotRemovable(scaling.empty() ? 0.0 : scaling[i - off - 1], temp, temp_w, tolerance, i, j, off, dimension)) {
       return false;
     }
     SetNewControlPoints(temp, last, i - off, off, dimension);
@@ -419,6 +419,8 @@ class NURBS : public Spline<DIM> {
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
       if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        // A knot of multiplicity p + 1 has no control point between the two which have to coincide.
+        if (temp_length == 2u * this->GetPointDim()) return false;
         auto indices = point_handler.GetIndices();
         indices[dimension] = i;
         for (int k = 0; k < this->GetPointDim(); ++k) {
-- 
2.43.0


From 3b9dcfe7511343920423feb648679f96b616435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:23 +0000
Subject: [PATCH 06/32] fix: RemoveKnot checks the control point that
 disappears

With an odd number of affected control points the knot was removed whenever the two neighbours of the middle control
point coincided, whatever the position of the middle control point, so that the geometry changed beyond the tolerance.
---
 src/spl/b_spline.h | 2 +-
 src/spl/nurbs.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index 7cd634d..d5e62b3 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -222,7 +222,7 @@ class BSpline : public Spline<DIM> {
         temp1[k] = temp[l * temp_length + (i - off - 1) * this->GetPointDim() + k];
         temp2[k] = temp[l * temp_length + (j - off + 1) * this->GetPointDim() + k];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
         // A knot of multiplicity p + 1 has no control point between the two which have to coincide.
         if (temp_length == 2u * this->GetPointDim()) return false;
         for (int k = 0; k < this->GetPointDim(); ++k) {
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 19b2760..6a2d2c4 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -418,7 +418,7 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
         // A knot of multiplicity p + 1 has no control point between the two which have to coincide.
         if (temp_length == 2u * this->GetPointDim()) return false;
         auto indices = point_handler.GetIndices();
-- 
2.43.0


From f560be3d3cc511bb297685909a04e7b8407b85d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:22 +0000
Subject: [PATCH 07/32] fix: NURBS::RemoveKnot refuses a removal that needs a
 zero weight

The control points of such a removal are not finite, and the comparison with the tolerance accepted NaN distances.
---
 src/spl/nurbs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 6a2d2c4..504609b 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -418,7 +418,7 @@ class NURBS : public Spline<DIM> {
         temp1[k] = temp[offset + (i - off - 1) * this->GetPointDim() + k] * temp_w[w_offset + i - off - 1];
         temp2[k] = temp[offset + (j - off + 1) * this->GetPointDim() + k] * temp_w[w_offset + j - off + 1];
       }
-      if (i == j || util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+      if (i == j || !(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
         // A knot of multiplicity p + 1 has no control point between the two which have to coincide.
         if (temp_length == 2u * this->GetPointDim()) return false;
         auto indices = point_handler.GetIndices();
@@ -431,7 +431,7 @@ class NURBS : public Spline<DIM> {
         temp1[this->GetPointDim()] = physical_space_->GetWeight(indices);
         temp2[this->GetPointDim()] =
             alfi * temp_w[w_offset + i - off + 1] + (1 - alfi) * temp_w[w_offset + i - off - 1];
-        if (util::VectorUtils<double>::ComputeDistance(temp1, temp2) > tolerance) {
+        if (!(util::VectorUtils<double>::ComputeDistance(temp1, temp2) <= tolerance)) {
           return false;
         }
       }
-- 
2.43.0


From 3e37598469892e4e8b434ea2d7195ae10c7aeb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:53 +0000
Subject: [PATCH 08/32] fix: a spline without control points is rejected
 instead of reading past the end

---
 src/spl/physical_space.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spl/physical_space.h b/src/spl/physical_space.h
index 5814e76..9ad2bdc 100644
--- a/src/spl/physical_space.h
+++ b/src/spl/physical_space.h
@@ -30,7 +30,7 @@ class PhysicalSpace {
   PhysicalSpace() = default;
   virtual ~PhysicalSpace() = default;
   PhysicalSpace(const std::vector<baf::ControlPoint> &control_points, std::array<int, DIM> number_of_points)
-      : dimension_(control_points[0].GetDimension()), number_of_points_(number_of_points) {
+      : dimension_(control_points.empty() ? 0 : control_points[0].GetDimension()), number_of_points_(number_of_points) {
     uint64_t total_number_of_points = 1;
     for (int dim = 0; dim < DIM; dim++) {
       total_number_of_points *= number_of_points[dim];
-- 
2.43.0


From c47b1c6756b17fa46c9bbe1c77bb0b1ed735c55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:53 +0000
Subject: [PATCH 09/32] fix: assigning a spline copies it instead of sharing
 its data

---
 src/spl/b_spline.h | 6 ++++++
 src/spl/nurbs.h    | 6 ++++++
 src/spl/spline.h   | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/src/spl/b_spline.h b/src/spl/b_spline.h
index d5e62b3..86ff887 100644
--- a/src/spl/b_spline.h
+++ b/src/spl/b_spline.h
@@ -50,6 +50,12 @@ class BSpline : public Spline<DIM> {
     physical_space_ = std::make_shared<PhysicalSpace<DIM>>(physical_space);
   }
 
+  BSpline<DIM> &operator=(const BSpline<DIM> &bspline) {
+    Spline<DIM>::operator=(bspline);
+    physical_space_ = std::make_shared<PhysicalSpace<DIM>>(*bspline.physical_space_);
+    return *this;
+  }
+
   virtual ~BSpline() = default;
 
   bool AreEqual(const BSpline<DIM> &rhs, double tolerance = util::NumericSettings<double>::kEpsilon()) const {
diff --git a/src/spl/nurbs.h b/src/spl/nurbs.h
index 504609b..6e1aa50 100644
--- a/src/spl/nurbs.h
+++ b/src/spl/nurbs.h
@@ -50,6 +50,12 @@ class NURBS : public Spline<DIM> {
     physical_space_ = std::make_shared<WeightedPhysicalSpace<DIM>>(weighted_physical_space);
   }
 
+  NURBS<DIM> &operator=(const NURBS<DIM> &nurbs) {
+    Spline<DIM>::operator=(nurbs);
+    physical_space_ = std::make_shared<WeightedPhysicalSpace<DIM>>(*nurbs.physical_space_);
+    return *this;
+  }
+
   NURBS(const NURBS<DIM> &nurbs, const std::vector<baf::ControlPoint> &control_points) : Spline<DIM>(nurbs) {
     WeightedPhysicalSpace<DIM>
         weighted_physical_space(control_points, nurbs.physical_space_->GetWeights(), nurbs.GetPointsPerDirection());
diff --git a/src/spl/spline.h b/src/spl/spline.h
index c6655bc..e1cdb3d 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -45,6 +45,10 @@ class Spline {
     ParameterSpace<DIM> parameter_space(*spline.parameter_space_);
     parameter_space_ = std::make_shared<ParameterSpace<DIM>>(parameter_space);
   }
+  Spline<DIM> &operator=(const Spline<DIM> &spline) {
+    parameter_space_ = std::make_shared<ParameterSpace<DIM>>(*spline.parameter_space_);
+    return *this;
+  }
 
   virtual std::vector<double> Evaluate(std::array<ParamCoord, DIM> param_coord,
                                        const std::vector<int> &dimensions) const {
-- 
2.43.0


From 8f712a3d9be31b09e5dd1e5f1f599cd43019c348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:53 +0000
Subject: [PATCH 10/32] fix: KnotVector::RemoveKnot of an absent knot does not
 remove its neighbour

---
 src/baf/knot_vector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/baf/knot_vector.cc b/src/baf/knot_vector.cc
index 5e14ad7..0845ce3 100644
--- a/src/baf/knot_vector.cc
+++ b/src/baf/knot_vector.cc
@@ -150,6 +150,7 @@ void baf::KnotVector::InsertKnot(const ParamCoord &param_coord) {
 }
 
 void baf::KnotVector::RemoveKnot(const ParamCoord &param_coord) {
+  if (GetMultiplicity(param_coord) == 0) return;
   KnotSpan knot_span = GetKnotSpan(param_coord);
   if (!IsLastKnot(param_coord)) {
     knots_.erase(knots_.begin() + knot_span.get());
-- 
2.43.0


From 08c80038298568df2c6ec75a71482f81997edf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:53 +0000
Subject: [PATCH 11/32] fix: AreGeometricallyEqual samples the whole parameter
 range of both splines

---
 src/spl/spline.h | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index e1cdb3d..7f23957 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -101,23 +101,36 @@ class Spline {
                              double tolerance = util::NumericSettings<double>::kEpsilon()) const {
     double number = ceil(pow(100, 1.0 / DIM));
     std::array<int, DIM> points = std::array<int, DIM>();
-    std::vector<int> dimensions;
+    std::vector<int> dimensions, dimensions_rhs;
     for (int i = 0; i < DIM; ++i) {
+      if (!util::NumericSettings<double>::AreEqual(GetKnotVector(i)->GetKnot(0).get(),
+                                                   rhs.GetKnotVector(i)->GetKnot(0).get())
+          || !util::NumericSettings<double>::AreEqual(GetKnotVector(i)->GetLastKnot().get(),
+                                                      rhs.GetKnotVector(i)->GetLastKnot().get())) {
+        return false;
+      }
       points[i] = number + 1;
     }
     for (int i = 0; i < GetPointDim(); ++i) {
       dimensions.push_back(i);
     }
+    for (int i = 0; i < rhs.GetPointDim(); ++i) {
+      dimensions_rhs.push_back(i);
+    }
     util::MultiIndexHandler<DIM> point_handler(points);
     for (int i = 0; i < point_handler.Get1DLength(); ++i, ++point_handler) {
-      std::array<ParamCoord, DIM> param_coord;
+      std::array<ParamCoord, DIM> param_coord, param_coord_rhs;
       for (int dim = 0; dim < DIM; ++dim) {
-        double span = GetKnotVector(dim)->GetLastKnot().get() - GetKnotVector(dim)->GetKnot(0).get();
-        param_coord[dim] = ParamCoord(span / number * point_handler[dim]);
+        double ratio = point_handler[dim] / number;
+        param_coord[dim] = GetParamCoordAtRatio(dim, ratio);
+        param_coord_rhs[dim] = rhs.GetParamCoordAtRatio(dim, ratio);
       }
       std::vector<double> evaluate_this = Evaluate(param_coord, dimensions);
-      std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord, dimensions);
-      if (util::VectorUtils<double>::ComputeDistance(evaluate_this, evaluate_rhs) > tolerance) {
+      std::vector<double> evaluate_rhs = rhs.Evaluate(param_coord_rhs, dimensions_rhs);
+      // Missing coordinates of the spline with the lower point dimension are zero.
+      evaluate_this.resize(std::max(dimensions.size(), dimensions_rhs.size()), 0.0);
+      evaluate_rhs.resize(std::max(dimensions.size(), dimensions_rhs.size()), 0.0);
+      if (!(util::VectorUtils<double>::ComputeDistance(evaluate_this, evaluate_rhs) <= tolerance)) {
         return false;
       }
     }
@@ -264,6 +277,13 @@ class Spline {
                                    int first, int last, int dimension, double tolerance) = 0;
 
  protected:
+  // Parametric coordinate at the given ratio (between 0 and 1) of the knot vector range, never outside of the range.
+  ParamCoord GetParamCoordAtRatio(int direction, double ratio) const {
+    double first_knot = GetKnotVector(direction)->GetKnot(0).get();
+    double last_knot = GetKnotVector(direction)->GetLastKnot().get();
+    return ParamCoord(std::min(first_knot + ratio * (last_knot - first_knot), last_knot));
+  }
+
   void ThrowIfParametricCoordinateOutsideKnotVectorRange(std::array<ParamCoord, DIM> param_coord) const {
     parameter_space_->ThrowIfParametricCoordinateOutsideKnotVectorRange(param_coord);
   }
-- 
2.43.0


From 7875abd56b95e70b604ffe498aa205f99e8b9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:53 +0000
Subject: [PATCH 12/32] fix: projection respects the parameter range of each
 direction

---
 src/spl/projection.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/spl/projection.h b/src/spl/projection.h
index 1d24fc5..41adede 100644
--- a/src/spl/projection.h
+++ b/src/spl/projection.h
@@ -85,10 +85,10 @@ class Projection {
     util::ElementGenerator<1> element_generator(spline);
     std::vector<util::Element> elements = element_generator.GetElementList(0);
     std::array<ParamCoord, DIM> paramCoords = {ParamCoord{0}};
-    std::vector<double> splinePhysicalCoords = spline->Evaluate({ParamCoord{(0.5 * (
-        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get())}}, dimensions);
+    paramCoords[0] = ParamCoord{0.5 * (
+        elements[0].GetUpperBound() - elements[0].GetLowerBound()).get() + elements[0].GetLowerBound().get()};
+    std::vector<double> splinePhysicalCoords = spline->Evaluate(paramCoords, dimensions);
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, splinePhysicalCoords);
-    paramCoords[0] = ParamCoord{{0.5 * (elements[0].GetUpperBound() - elements[0].GetLowerBound()).get()}};
     for (auto i = 1u; i < elements.size(); ++i) {
       splinePhysicalCoords = spline->Evaluate({ParamCoord{0.5 * (
           elements[i].GetUpperBound() - elements[i].GetLowerBound()).get() + elements[i].GetLowerBound().get()}},
@@ -115,8 +115,8 @@ class Projection {
     double distance = util::VectorUtils<double>::ComputeDistance(point_phys_coords, physical_coords);
     for (int i = 1; i <= scattering[0]; ++i) {
       for (int j = 1; j <= scattering[1]; ++j) {
-        ParamCoord coord1 = ParamCoord(i * (last_knot1 - first_knot1) / scattering[0]);
-        ParamCoord coord2 = ParamCoord(j * (last_knot2 - first_knot2) / scattering[1]);
+        ParamCoord coord1 = ParamCoord(std::min(first_knot1 + i * (last_knot1 - first_knot1) / scattering[0], last_knot1));
+        ParamCoord coord2 = ParamCoord(std::min(first_knot2 + j * (last_knot2 - first_knot2) / scattering[1], last_knot2));
         physical_coords = spline->Evaluate({coord1, coord2}, dimensions);
         double current_dist = util::VectorUtils<double>::ComputeTwoNorm(util::VectorUtils<double>::ComputeDifference(
             point_phys_coords,
@@ -140,11 +140,11 @@ class Projection {
 
   static std::array<ParamCoord, DIM> CheckParametricCoordinates(std::array<ParamCoord, DIM> param_coords,
                                                                 const std::shared_ptr<spl::Spline<DIM>> &spline) {
-    for (auto &coord : param_coords) {
-      if (coord < spline->GetKnotVector(0)->GetKnot(0)) {
-        coord = spline->GetKnotVector(0)->GetKnot(0);
-      } else if (coord > spline->GetKnotVector(0)->GetLastKnot()) {
-        coord = spline->GetKnotVector(0)->GetLastKnot();
+    for (int i = 0; i < DIM; ++i) {
+      if (param_coords[i] < spline->GetKnotVector(i)->GetKnot(0)) {
+        param_coords[i] = spline->GetKnotVector(i)->GetKnot(0);
+      } else if (param_coords[i] > spline->GetKnotVector(i)->GetLastKnot()) {
+        param_coords[i] = spline->GetKnotVector(i)->GetLastKnot();
       }
     }
     return param_coords;
-- 
2.43.0


From 92e44959a48c854b72c3c3803e0f673cc9490d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:53 +0000
Subject: [PATCH 13/32] fix: swept surfaces respect the parameter range of the
 trajectory

---
 src/baf/knot_vector.cc       | 2 +-
 src/spl/surface_generator.cc | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/baf/knot_vector.cc b/src/baf/knot_vector.cc
index 0845ce3..ea9acd4 100644
--- a/src/baf/knot_vector.cc
+++ b/src/baf/knot_vector.cc
@@ -33,7 +33,7 @@ baf::KnotVector::KnotVector(ConstKnotIterator begin, ConstKnotIterator end) : kn
                                                                                                              end)) {}
 baf::KnotVector::KnotVector(std::vector<ParamCoord> coords, Degree degree, int nbControlPoints) {
   for (int i = 0; i <= degree.get(); ++i) {
-    knots_.emplace_back(ParamCoord{0.0});
+    knots_.emplace_back(coords[0]);
   }
   double curParamCoord;
   for (int i = 1; i <= nbControlPoints - 1 - degree.get(); ++i) {
diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 37d4ba7..bc9e0b0 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -72,7 +72,8 @@ spl::SurfaceGenerator::SurfaceGenerator(std::shared_ptr<spl::NURBS<1>> const &nu
   std::vector<double> j_weights(nbInter * m, 0.0);
   v_i.reserve(nbInter);
   for (int i = 0; i < nbInter; ++i) {
-    v_i.emplace_back(ParamCoord{i * step_size});
+    v_i.emplace_back(ParamCoord{std::min(nurbs_T->GetKnotVector(0)->GetKnot(0).get() + i * step_size,
+                                         nurbs_T->GetKnotVector(0)->GetLastKnot().get())});
     t_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), dimensions);
     weight_v = nurbs_T->Evaluate(std::array<ParamCoord, 1>({v_i[i]}), std::vector<int>({3}))[0];
     dT_v = nurbs_T->EvaluateDerivative(std::array<ParamCoord, 1>({v_i[i]}), dimensions, first_derivative);
-- 
2.43.0


From b59bfb943893ccb8f35ac42636d3105af83e19b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:53 +0000
Subject: [PATCH 14/32] fix: the normal of a straight trajectory is orthogonal
 to its tangent

---
 src/spl/surface_generator.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index bc9e0b0..34f26d8 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -170,9 +170,9 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T
   for (int i = 0; i < 3; ++i) {
     dT[i] /= norm_dT;
   }
-  double product = DotProduct(previous, T);
+  double product = DotProduct(previous, dT);
   for (int i = 0; i < 3; ++i) {
-    crossProduct[i] = previous[i] - product * T[i];
+    crossProduct[i] = previous[i] - product * dT[i];
   }
   norm_cross = ComputeNorm(crossProduct);
   for (int i = 0; i < 3; ++i) {
-- 
2.43.0


From 62e8fd784257b252488d14dc6f6b2ac3ce35b42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:24 +0000
Subject: [PATCH 15/32] fix: a straight trajectory in the direction of the
 previous normal gets a valid normal

---
 src/spl/surface_generator.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/spl/surface_generator.cc b/src/spl/surface_generator.cc
index 34f26d8..e54eb85 100644
--- a/src/spl/surface_generator.cc
+++ b/src/spl/surface_generator.cc
@@ -175,6 +175,17 @@ std::array<double, 3> spl::SurfaceGenerator::ComputeNormal(std::vector<double> T
     crossProduct[i] = previous[i] - product * dT[i];
   }
   norm_cross = ComputeNorm(crossProduct);
+  if (norm_cross < util::NumericSettings<double>::kEpsilon()) {
+    // The previous normal is parallel to the tangent: use the axis which is least aligned with the tangent instead.
+    int axis = 0;
+    for (int i = 1; i < 3; ++i) {
+      if (std::abs(dT[i]) < std::abs(dT[axis])) axis = i;
+    }
+    for (int i = 0; i < 3; ++i) {
+      crossProduct[i] = (i == axis ? 1.0 : 0.0) - dT[axis] * dT[i];
+    }
+    norm_cross = ComputeNorm(crossProduct);
+  }
   for (int i = 0; i < 3; ++i) {
     crossProduct[i] /= norm_cross;
   }
-- 
2.43.0


From 7522c9c88d3f3616624b7de1f9d5955f5cc154f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:28 +0000
Subject: [PATCH 16/32] fix: numbers without decimal point but with exponent
 are converted correctly

StringToDouble scaled "1e-05" by the length of the whole string and mishandled ".5", "+1"
and the empty string. Use the standard conversion and accept decimal numbers only.
---
 src/util/string_operations.h | 37 +++++++++---------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index acda5b9..29ed33c 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -16,8 +16,10 @@ You should have received a copy of the GNU Lesser General Public License along w
 #define SRC_UTIL_STRING_OPERATIONS_H_
 
 #include <algorithm>
-#include <cmath>
+#include <cctype>
+#include <cstdlib>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -85,34 +87,13 @@ class StringOperations {
     return s;
   }
 
-  static double StringToDouble(std::string string) {
-    int sign = 1;
-    if (string[0] == '-') {
-      sign = -1;
-      string.erase(0, 1);
+  static double StringToDouble(const std::string &string) {
+    char *end_of_number = nullptr;
+    double result = std::strtod(string.c_str(), &end_of_number);
+    if (string.empty() || string.find_first_not_of("0123456789.+-eE") != std::string::npos || *end_of_number != '\0') {
+      throw std::invalid_argument("\"" + string + "\" is not a number.");
     }
-    std::size_t found = string.find_first_of('.');
-    std::size_t exponent = string.find_first_of("Ee");
-    std::size_t end_of_number = (exponent == std::string::npos) ? string.length() - 1 : exponent - 1;
-    double result = 0;
-    double factor = pow(10, found != std::string::npos ? found - 1 : string.length() - 1);
-    for (auto i = 0u; i <= end_of_number; ++i) {
-      if (i != found) {
-        result += std::stoi(string.substr(i, 1)) * factor;
-        factor /= 10;
-      }
-    }
-    if (exponent != std::string::npos) {
-      if (string[exponent + 1] == '-') {
-        factor = -1;
-        ++exponent;
-      } else if (string[exponent + 1] == '+') {
-        ++exponent;
-      }
-      int potency = std::stoi(string.substr(exponent + 1, string.length() - exponent));
-      result *= factor != -1 ? pow(10, potency) : 1 / pow(10, potency);
-    }
-    return sign * result;
+    return result;
   }
 };
 }  // namespace util
-- 
2.43.0


From cf07d98a2a66c64d4af8bb924b61bd9467832717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:28 +0000
Subject: [PATCH 17/32] fix: EndsWith looks at the end of the string only

It compared the first occurrence, so that "a.xml.xml" did not end with ".xml", and took a string one
character shorter than the suffix for a match. The converter log relied on the latter for empty lines.
---
 src/io/executables/converter_log.cc | 9 +++++++--
 src/io/executables/converter_log.h  | 1 +
 src/util/string_operations.h        | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index cde04c9..3745088 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -39,7 +39,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       getline(log, output_);
     }
     if (util::StringOperations::StartsWith(line, "options:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfEntry(line)) {
         if (line == "all") {
           positions_.clear();
           positions_.emplace_back(-1);
@@ -49,7 +49,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       }
     }
     if (util::StringOperations::StartsWith(line, "scattering:")) {
-      while (getline(log, line) && !util::StringOperations::EndsWith(util::StringOperations::trim(line), ":")) {
+      while (getline(log, line) && !IsEndOfEntry(line)) {
         std::vector<std::string> strings = util::StringOperations::split(line, ' ');
         scattering_.emplace_back(util::StringOperations::StringVectorToNumberVector<int>(strings));
       }
@@ -123,6 +123,11 @@ void io::ConverterLog::PrintHelp() const {
             << "log:\n# time date\n# spline positions in input file that have been written to output file.\n";
 }
 
+bool io::ConverterLog::IsEndOfEntry(const std::string &line) const {
+  std::string trimmed_line = util::StringOperations::trim(line);
+  return trimmed_line.empty() || util::StringOperations::EndsWith(trimmed_line, ":");
+}
+
 std::string io::ConverterLog::GetTime() const {
   struct tm timeinfo = util::SystemOperations::GetTime();
   return asctime(&timeinfo);
diff --git a/src/io/executables/converter_log.h b/src/io/executables/converter_log.h
index 0834c5f..127ce68 100644
--- a/src/io/executables/converter_log.h
+++ b/src/io/executables/converter_log.h
@@ -32,6 +32,7 @@ class ConverterLog {
   void PrintHelp() const;
 
  private:
+  bool IsEndOfEntry(const std::string &line) const;
   std::string GetTime() const;
   bool OneSpline() const;
 
diff --git a/src/util/string_operations.h b/src/util/string_operations.h
index 29ed33c..4b2ee02 100644
--- a/src/util/string_operations.h
+++ b/src/util/string_operations.h
@@ -74,7 +74,8 @@ class StringOperations {
   }
 
   static bool EndsWith(const std::string &string, const std::string &end_of_string) {
-    return string.find(end_of_string) == string.length() - end_of_string.length();
+    return string.length() >= end_of_string.length()
+        && string.compare(string.length() - end_of_string.length(), end_of_string.length(), end_of_string) == 0;
   }
 
   static inline std::string trim(std::string s) {
-- 
2.43.0


From fef5c7f876afe73349283d331b6b5a6bcd80019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:16 +0000
Subject: [PATCH 18/32] fix: IGES reader does not read beyond the control
 points of a surface

The range of control point coordinates was two entries too long; without the optional entries after the
control points, which the IGES writer does not write, it ended outside of the parameter data.
---
 src/io/iges_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index 9082e2a..d05b984 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -120,7 +120,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   weightsStartEnd[0] = knotsStartEnd[1][1] + 1;
   weightsStartEnd[1] = weightsStartEnd[0] - 1 + ((1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   controlPointsStartEnd[0] = weightsStartEnd[1] + 1;
-  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1])) + 2;
+  controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
     knots[0].push_back(ParamCoord{parameterData[i]});
@@ -137,7 +137,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
     controlPointCoordinates.push_back(parameterData[i]);
   }
-  for (auto i = 0u; i < controlPointCoordinates.size() - 2; i += 3) {
+  for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
                                                 controlPointCoordinates[i + 1],
                                                 controlPointCoordinates[i + 2]}));
-- 
2.43.0


From c7fee1237d4c354ef02411687f3fda38e2a58957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:16 +0000
Subject: [PATCH 19/32] fix: IGES reader rejects files with missing data
 instead of reading out of bounds

---
 src/io/iges_reader.cc | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/io/iges_reader.cc b/src/io/iges_reader.cc
index d05b984..e604385 100644
--- a/src/io/iges_reader.cc
+++ b/src/io/iges_reader.cc
@@ -32,6 +32,9 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
   std::vector<std::string> directoryEntrySection;
   std::vector<std::string> parameterDataSection;
   while (getline(newFile, line)) {
+    if (line.length() <= 72) {
+      continue;
+    }
     if (line[72] == 'D') {
       directoryEntrySection.push_back(line.substr(0, 72));
     }
@@ -56,9 +59,9 @@ std::vector<std::any> io::IGESReader::ReadFile(const char *filename) {
 }
 
 std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData) {
-  auto upperSumIndex = static_cast<int>(parameterData[1]);
+  auto upperSumIndex = static_cast<int>(parameterData.at(1));
   std::array<Degree, 1> degree{};
-  degree[0] = Degree{static_cast<int>(parameterData[2])};
+  degree[0] = Degree{static_cast<int>(parameterData.at(2))};
   KnotVectors<1> knot_vector;
   std::vector<double> weights;
   std::vector<baf::ControlPoint> control_points;
@@ -73,15 +76,15 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
   controlPointsStartEnd[1] = controlPointsStartEnd[0] + (3 * upperSumIndex) + 2;
   std::vector<ParamCoord> knots;
   for (int i = knotsStartEnd[0]; i <= knotsStartEnd[1]; ++i) {
-    knots.emplace_back(parameterData[i]);
+    knots.emplace_back(parameterData.at(i));
   }
   knot_vector[0] = std::make_shared<baf::KnotVector>(knots);
   for (int i = weightsStartEnd[0]; i <= weightsStartEnd[1]; ++i) {
-    weights.push_back(parameterData[i]);
+    weights.push_back(parameterData.at(i));
   }
   std::vector<double> controlPointCoordinates;
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
-    controlPointCoordinates.push_back(parameterData[i]);
+    controlPointCoordinates.push_back(parameterData.at(i));
   }
   for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
@@ -92,7 +95,7 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
   for (int i = 0; i < 1; ++i) {
     number_of_points[i] = static_cast<int>(knot_vector[i]->GetNumberOfKnots() - degree[i].get() - 1);
   }
-  if (parameterData[5] == 1) {
+  if (parameterData.at(5) == 1) {
     auto spl = std::make_shared<spl::BSpline<1>>(knot_vector, degree, control_points);
     return std::make_any<std::shared_ptr<spl::BSpline<1>>>(spl);
   }
@@ -102,11 +105,11 @@ std::any io::IGESReader::Create1DSpline(const std::vector<double> &parameterData
 
 std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData) {
   std::array<int, 2> upperSumIndex{};
-  upperSumIndex[0] = static_cast<int>(parameterData[1]);
-  upperSumIndex[1] = static_cast<int>(parameterData[2]);
+  upperSumIndex[0] = static_cast<int>(parameterData.at(1));
+  upperSumIndex[1] = static_cast<int>(parameterData.at(2));
   std::array<Degree, 2> degree{};
-  degree[0] = Degree{static_cast<int>(parameterData[3])};
-  degree[1] = Degree{static_cast<int>(parameterData[4])};
+  degree[0] = Degree{static_cast<int>(parameterData.at(3))};
+  degree[1] = Degree{static_cast<int>(parameterData.at(4))};
   KnotVectors<2> knot_vector;
   std::vector<double> weights;
   std::vector<baf::ControlPoint> control_points;
@@ -123,19 +126,19 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   controlPointsStartEnd[1] = controlPointsStartEnd[0] - 1 + (3 * (1 + upperSumIndex[0]) * (1 + upperSumIndex[1]));
   std::array<std::vector<ParamCoord>, 2> knots;
   for (int i = knotsStartEnd[0][0]; i <= knotsStartEnd[0][1]; ++i) {
-    knots[0].push_back(ParamCoord{parameterData[i]});
+    knots[0].push_back(ParamCoord{parameterData.at(i)});
   }
   for (int i = knotsStartEnd[1][0]; i <= knotsStartEnd[1][1]; ++i) {
-    knots[1].push_back(ParamCoord{parameterData[i]});
+    knots[1].push_back(ParamCoord{parameterData.at(i)});
   }
   knot_vector[0] = std::make_shared<baf::KnotVector>(knots[0]);
   knot_vector[1] = std::make_shared<baf::KnotVector>(knots[1]);
   for (int i = weightsStartEnd[0]; i <= weightsStartEnd[1]; ++i) {
-    weights.push_back(parameterData[i]);
+    weights.push_back(parameterData.at(i));
   }
   std::vector<double> controlPointCoordinates;
   for (int i = controlPointsStartEnd[0]; i <= controlPointsStartEnd[1]; ++i) {
-    controlPointCoordinates.push_back(parameterData[i]);
+    controlPointCoordinates.push_back(parameterData.at(i));
   }
   for (auto i = 0u; i < controlPointCoordinates.size(); i += 3) {
     control_points.push_back(baf::ControlPoint({controlPointCoordinates[i],
@@ -146,7 +149,7 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
   for (int i = 0; i < 2; ++i) {
     number_of_points[i] = static_cast<int>(knot_vector[i]->GetNumberOfKnots() - degree[i].get() - 1);
   }
-  if (parameterData[7] == 1) {
+  if (parameterData.at(7) == 1) {
     auto spl = std::make_shared<spl::BSpline<2>>(knot_vector, degree, control_points);
     return std::make_any<std::shared_ptr<spl::BSpline<2>>>(spl);
   }
@@ -156,8 +159,8 @@ std::any io::IGESReader::Create2DSpline(const std::vector<double> &parameterData
 
 std::array<int, 2> io::IGESReader::GetParameterSectionStartEndPointers(std::vector<std::string> directoryEntrySection,
                                                                        int entityToBeRead) {
-  std::string parameterDataStartPointer = trim(directoryEntrySection[entityToBeRead * 2].substr(8, 8));
-  std::string parameterDataLineCount = trim(directoryEntrySection[entityToBeRead * 2 + 1].substr(24, 8));
+  std::string parameterDataStartPointer = trim(directoryEntrySection.at(entityToBeRead * 2).substr(8, 8));
+  std::string parameterDataLineCount = trim(directoryEntrySection.at(entityToBeRead * 2 + 1).substr(24, 8));
   std::array<int, 2> ParameterSectionStartEndPointers{};
   ParameterSectionStartEndPointers[0] = std::stoi(trim(parameterDataStartPointer));
   ParameterSectionStartEndPointers[1] =
@@ -171,7 +174,7 @@ std::vector<double> io::IGESReader::ParameterSectionToVector(std::vector<std::st
   int last = ParameterSectionStartEndPointers[1] - 1;
   std::string temp;
   for (int i = first; i <= last; ++i) {
-    temp.append(parameterSection[i]);
+    temp.append(parameterSection.at(i));
   }
   return util::StringOperations::DelimitedStringToVector(temp);
 }
-- 
2.43.0


From 3bab33ba8eb49689867a66bb39a13ca7ca5748ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:16 +0000
Subject: [PATCH 20/32] fix: IRIT reader separates entries at line ends and
 tabs

Lines were joined without a separator and only spaces separated entries, so that files which are not
indented by spaces were misread.
---
 src/io/irit_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index 9115312..d56fba8 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -14,6 +14,8 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "irit_reader.h"
 
+#include <algorithm>
+#include <cctype>
 #include <fstream>
 
 #include "irit_reader_utils.h"
@@ -30,8 +32,9 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
   std::string line;
   std::string file;
   while (getline(newFile, line)) {
-    file += line;
+    file += line + ' ';
   }
+  std::replace_if(file.begin(), file.end(), [](unsigned char ch) { return std::isspace(ch) != 0; }, ' ');
   std::vector<std::string> entries = util::StringOperations::split(file, ' ');
   std::vector<int> spline_positions = GetSplinePositions(entries);
   for (int &spline_position : spline_positions) {
-- 
2.43.0


From 52157d50fc8fd5d45ebddc7281b6c2de777c51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:16 +0000
Subject: [PATCH 21/32] fix: IRIT reader rejects files with missing data
 instead of reading out of bounds

---
 src/io/irit_reader.cc      | 26 +++++++++++++-------------
 src/io/irit_reader_utils.h | 10 +++++-----
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/io/irit_reader.cc b/src/io/irit_reader.cc
index d56fba8..e9716f8 100644
--- a/src/io/irit_reader.cc
+++ b/src/io/irit_reader.cc
@@ -38,11 +38,11 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
   std::vector<std::string> entries = util::StringOperations::split(file, ' ');
   std::vector<int> spline_positions = GetSplinePositions(entries);
   for (int &spline_position : spline_positions) {
-    if (GetDimension(entries[spline_position]) == 1) {
+    if (GetDimension(entries.at(spline_position)) == 1) {
       vector_of_splines.emplace_back(Get1DSpline(spline_position, entries));
-    } else if (GetDimension(entries[spline_position]) == 2) {
+    } else if (GetDimension(entries.at(spline_position)) == 2) {
       vector_of_splines.emplace_back(Get2DSpline(spline_position, entries));
-    } else if (GetDimension(entries[spline_position]) == 3) {
+    } else if (GetDimension(entries.at(spline_position)) == 3) {
       vector_of_splines.emplace_back(Get3DSpline(spline_position, entries));
     }
   }
@@ -52,7 +52,7 @@ std::vector<std::any> io::IRITReader::ReadFile(const char *filename) {
 std::vector<int> io::IRITReader::GetSplinePositions(const std::vector<std::string> &entries) const {
   std::vector<int> spline_positions;
   for (auto i = 0u; i < entries.size(); i++) {
-    if (entries[i] == "BSPLINE") {
+    if (entries.at(i) == "BSPLINE") {
       spline_positions.push_back(i - 1);
     }
   }
@@ -107,8 +107,8 @@ std::any io::IRITReader::Get3DSpline(int start, const std::vector<std::string> &
 
 int io::IRITReader::GetNumberOfControlPoints(int start, const std::vector<std::string> &entries) {
   int total_number_of_points = 1;
-  for (int i = 0; i < GetDimension(entries[start]); i++) {
-    total_number_of_points *= util::StringOperations::StringVectorToNumberVector<int>({entries[start + 2 + i]})[0];
+  for (int i = 0; i < GetDimension(entries.at(start)); i++) {
+    total_number_of_points *= util::StringOperations::StringVectorToNumberVector<int>({entries.at(start + 2 + i)})[0];
   }
   return total_number_of_points;
 }
@@ -122,12 +122,12 @@ std::vector<baf::ControlPoint> io::IRITReader::GetControlPoints(int start,
   start = GetPositionOfFirstControlPoint(start, entries);
   for (int i = 0; i < number_of_control_points; i++) {
     std::vector<double> coordinates;
-    while (!util::StringOperations::EndsWith(entries[start], "]")) {
+    while (!util::StringOperations::EndsWith(entries.at(start), "]")) {
       coordinates.push_back(
-          util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])) / weights[i]);
+          util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))) / weights[i]);
     }
     coordinates.push_back(
-        util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])) / weights[i]);
+        util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))) / weights[i]);
     if (rational) {
       coordinates.erase(coordinates.begin());
     }
@@ -144,8 +144,8 @@ std::vector<double> io::IRITReader::GetWeights(int start,
   if (rational) {
     start = GetPositionOfFirstControlPoint(start, entries);
     for (auto i = 0u; i < number_of_control_points; i++) {
-      weights[i] = util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++]));
-      while (!util::StringOperations::EndsWith(entries[start++], "]")) {}
+      weights[i] = util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++)));
+      while (!util::StringOperations::EndsWith(entries.at(start++), "]")) {}
     }
   }
   return weights;
@@ -153,8 +153,8 @@ std::vector<double> io::IRITReader::GetWeights(int start,
 
 int io::IRITReader::GetPositionOfFirstControlPoint(int start, const std::vector<std::string> &entries) const {
   ++start;
-  while (!util::StringOperations::StartsWith(entries[start], "[")
-      || util::StringOperations::StartsWith(entries[start], "[KV")) {
+  while (!util::StringOperations::StartsWith(entries.at(start), "[")
+      || util::StringOperations::StartsWith(entries.at(start), "[KV")) {
     ++start;
   }
   return start;
diff --git a/src/io/irit_reader_utils.h b/src/io/irit_reader_utils.h
index 65efa93..e64e15d 100644
--- a/src/io/irit_reader_utils.h
+++ b/src/io/irit_reader_utils.h
@@ -30,7 +30,7 @@ class IRITReaderUtils {
     std::array<Degree, DIM> degrees;
     for (int i = 0; i < DIM; i++) {
       degrees[i] =
-          Degree(util::StringOperations::StringVectorToNumberVector<int>({entries[start + DIM + 2 + i]})[0] - 1);
+          Degree(util::StringOperations::StringVectorToNumberVector<int>({entries.at(start + DIM + 2 + i)})[0] - 1);
     }
     return degrees;
   }
@@ -39,10 +39,10 @@ class IRITReaderUtils {
   static KnotVectors<DIM> GetKnotVectors(int start, const std::vector<std::string> &entries) {
     KnotVectors<DIM> knot_vectors;
     for (int i = 0; i < DIM; i++) {
-      while (!util::StringOperations::StartsWith(entries[start++], "[KV")) {}
+      while (!util::StringOperations::StartsWith(entries.at(start++), "[KV")) {}
       std::vector<ParamCoord> knots;
-      while (!util::StringOperations::StartsWith(entries[start], "[")) {
-        knots.emplace_back(util::StringOperations::StringToDouble(util::StringOperations::trim(entries[start++])));
+      while (!util::StringOperations::StartsWith(entries.at(start), "[")) {
+        knots.emplace_back(util::StringOperations::StringToDouble(util::StringOperations::trim(entries.at(start++))));
       }
       knot_vectors[i] = std::make_shared<baf::KnotVector>(knots);
     }
@@ -51,7 +51,7 @@ class IRITReaderUtils {
 
   template<int DIM>
   static bool IsRational(int start_of_spline, const std::vector<std::string> &entries) {
-    return util::StringOperations::StartsWith(entries[start_of_spline + 2 * DIM + 2], "P");
+    return util::StringOperations::StartsWith(entries.at(start_of_spline + 2 * DIM + 2), "P");
   }
 };
 }  // namespace io
-- 
2.43.0


From 5873574a611ccf42d3dcf7ae4d945d70a2ec5eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:16 +0000
Subject: [PATCH 22/32] fix: XML reader rejects files with missing data instead
 of reading out of bounds

---
 src/io/xml_reader.cc      | 2 +-
 src/io/xml_reader_utils.h | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/io/xml_reader.cc b/src/io/xml_reader.cc
index ede3477..15d2121 100644
--- a/src/io/xml_reader.cc
+++ b/src/io/xml_reader.cc
@@ -103,7 +103,7 @@ std::vector<baf::ControlPoint> io::XMLReader::GetControlPoints(pugi::xml_node *s
   for (int i = 0; i < number_of_points; i++) {
     std::vector<double> coordinates;
     for (int j = start; j < start + dimension; j++) {
-      coordinates.push_back(vars[i * number_of_vars + j]);
+      coordinates.push_back(vars.at(i * number_of_vars + j));
     }
     points.emplace_back(coordinates);
   }
diff --git a/src/io/xml_reader_utils.h b/src/io/xml_reader_utils.h
index b1bb4dc..35ca697 100644
--- a/src/io/xml_reader_utils.h
+++ b/src/io/xml_reader_utils.h
@@ -52,8 +52,7 @@ class XMLReaderUtils {
   static std::array<Degree, DIM> StringVectorToDegreeArray(const std::vector<std::string> &string_vector) {
     std::array<Degree, DIM> converted;
     for (int i = 0; i < DIM; i++) {
-      auto a = string_vector[i];
-      converted[i] = Degree{std::stoi(string_vector[i])};
+      converted[i] = Degree{std::stoi(string_vector.at(i))};
     }
     return converted;
   }
-- 
2.43.0


From f9337bc0a89e2ad843a963d8572648fff53b3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:16 +0000
Subject: [PATCH 23/32] fix: the last sample of the VTK writer does not exceed
 the last knot

Rounding could put it slightly behind the last knot, whose evaluation throws.
---
 src/io/vtk_writer_utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/vtk_writer_utils.h b/src/io/vtk_writer_utils.h
index e9d165d..0a85bc5 100644
--- a/src/io/vtk_writer_utils.h
+++ b/src/io/vtk_writer_utils.h
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #ifndef SRC_IO_VTK_WRITER_UTILS_H_
 #define SRC_IO_VTK_WRITER_UTILS_H_
 
+#include <algorithm>
 #include <array>
 #include <fstream>
 
@@ -56,7 +57,8 @@ class VTKWriterUtils {
     for (int i = 0; i < point_handler.Get1DLength(); ++point_handler, ++i) {
       std::array<ParamCoord, DIM> coords{};
       for (int j = 0; j < DIM; ++j) {
-        coords[j] = ParamCoord(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j]);
+        coords[j] = ParamCoord(std::min(knots[j] + point_handler[j] * (knots[j + DIM] - knots[j]) / scattering[j],
+                                        knots[j + DIM]));
       }
       for (int k = 0; k < 3; ++k) {
         file << (k < spline_ptr->GetPointDim() ? spline_ptr->Evaluate(coords, {k})[0] : 0) << (k < 2 ? " " : "\n");
-- 
2.43.0


From d6980a666a47e21be3de9bf3b8f7b74e8480d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:19 +0000
Subject: [PATCH 24/32] fix: control points without coordinates are rejected
 instead of dividing by zero

---
 src/spl/physical_space.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spl/physical_space.h b/src/spl/physical_space.h
index 9ad2bdc..149b9af 100644
--- a/src/spl/physical_space.h
+++ b/src/spl/physical_space.h
@@ -39,6 +39,9 @@ class PhysicalSpace {
       throw std::runtime_error(
           "The given number of control points in each dimension doesn't fit the length of the control point vector.");
     }
+    if (!control_points.empty() && dimension_ < 1) {
+      throw std::runtime_error("The control points have to have at least one coordinate.");
+    }
     for (auto &&cp : control_points) {
       if (cp.GetDimension() != dimension_) {
         throw std::runtime_error("The dimension has to be the same for all control points.");
-- 
2.43.0


From cfa50ac26eed366c0c6710440edad6c7a3ffb382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:19 +0000
Subject: [PATCH 25/32] fix: writers report files that could not be written

---
 src/io/iges_writer.cc | 4 ++++
 src/io/irit_writer.cc | 6 +++++-
 src/io/vtk_writer.cc  | 7 ++++++-
 src/io/xml_writer.cc  | 9 ++++++++-
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/io/iges_writer.cc b/src/io/iges_writer.cc
index f793fe2..544a68d 100644
--- a/src/io/iges_writer.cc
+++ b/src/io/iges_writer.cc
@@ -17,6 +17,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #include <iomanip>
 #include <limits>
 #include <sstream>
+#include <stdexcept>
 
 #include "any_casts.h"
 #include "multi_index_handler.h"
@@ -54,6 +55,9 @@ void io::IGESWriter::WriteFile(const std::vector<std::any> &splines, const char
     WriteFile(newFile, start, global, dataEntry, parameter, terminate);
   }
   newFile.close();
+  if (!newFile) {
+    throw std::runtime_error("The IGES file could not be written.");
+  }
 }
 
 std::vector<std::string> io::IGESWriter::GetStartSection() const {
diff --git a/src/io/irit_writer.cc b/src/io/irit_writer.cc
index c3cef8a..7b427f2 100644
--- a/src/io/irit_writer.cc
+++ b/src/io/irit_writer.cc
@@ -15,6 +15,7 @@ You should have received a copy of the GNU Lesser General Public License along w
 #include "irit_writer.h"
 
 #include <memory>
+#include <stdexcept>
 
 #include "any_casts.h"
 #include "b_spline.h"
@@ -33,7 +34,10 @@ void io::IRITWriter::WriteFile(const std::vector<std::any> &splines, const char
       }
     }
     newFile << "]";
-    newFile.close();
+  }
+  newFile.close();
+  if (!newFile) {
+    throw std::runtime_error("The IRIT file could not be written.");
   }
 }
 
diff --git a/src/io/vtk_writer.cc b/src/io/vtk_writer.cc
index 71c3ec3..fcf72a0 100644
--- a/src/io/vtk_writer.cc
+++ b/src/io/vtk_writer.cc
@@ -14,6 +14,8 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "vtk_writer.h"
 
+#include <stdexcept>
+
 #include "any_casts.h"
 #include "vtk_writer_utils.h"
 
@@ -41,7 +43,10 @@ void io::VTKWriter::WriteFile(const std::vector<std::any> &splines,
     for (auto i = 0u; i < splines.size(); ++i) {
       AddCellTypes(newFile, scattering[i], dimensions[i]);
     }
-    newFile.close();
+  }
+  newFile.close();
+  if (!newFile) {
+    throw std::runtime_error("The VTK file could not be written.");
   }
 }
 
diff --git a/src/io/xml_writer.cc b/src/io/xml_writer.cc
index 1dee429..3cc75a6 100644
--- a/src/io/xml_writer.cc
+++ b/src/io/xml_writer.cc
@@ -14,6 +14,8 @@ You should have received a copy of the GNU Lesser General Public License along w
 
 #include "xml_writer.h"
 
+#include <fstream>
+#include <stdexcept>
 #include <string>
 
 #include "any_casts.h"
@@ -28,7 +30,12 @@ void io::XMLWriter::WriteFile(const std::vector<std::any> &splines, const char *
   for (const auto &spline : splines) {
     AddSpline(&spline_list, spline);
   }
-  doc.save_file(filename, "  ", pugi::format_indent_attributes, pugi::encoding_utf8);
+  std::ofstream newFile(filename);
+  doc.save(newFile, "  ", pugi::format_indent_attributes, pugi::encoding_utf8);
+  newFile.close();
+  if (!newFile) {
+    throw std::runtime_error("The XML file could not be written.");
+  }
 }
 
 void io::XMLWriter::AddSpline(pugi::xml_node *spline_list, const std::any &spline) const {
-- 
2.43.0


From 94d72554e24ce4171d600aae9248e1ea547a9926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:19 +0000
Subject: [PATCH 26/32] fix: a repeated conversion does not write the splines
 of the previous one again

---
 src/io/io_converter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/io_converter.cc b/src/io/io_converter.cc
index a538e1f..35319b9 100644
--- a/src/io/io_converter.cc
+++ b/src/io/io_converter.cc
@@ -100,6 +100,7 @@ void io::IOConverter::GetPositions(const std::vector<int> &positions,
   if (positions.empty()) {
     written_ = possible_positions;
   } else {
+    written_.clear();
     for (const auto &pos : positions) {
       if (std::find(possible_positions.begin(), possible_positions.end(), pos) != possible_positions.end()) {
         written_.emplace_back(pos);
-- 
2.43.0


From 3cde08616717b9100ef3c7e177483cc12a1354b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:42 +0000
Subject: [PATCH 27/32] fix: FilterVector rejects negative positions

---
 src/util/vector_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/vector_utils.h b/src/util/vector_utils.h
index 6ac5548..02e3066 100644
--- a/src/util/vector_utils.h
+++ b/src/util/vector_utils.h
@@ -69,10 +69,10 @@ class VectorUtils {
   static std::vector<T> FilterVector(const std::vector<T> &input, const std::vector<int> &positions) {
     std::vector<T> output;
     for (const auto &pos : positions) {
-      if (pos < static_cast<int>(input.size())) {
+      if (pos >= 0 && pos < static_cast<int>(input.size())) {
         output.emplace_back(input[pos]);
       } else {
-        throw std::runtime_error("The vector index is too high to be filtered from the input vector.");
+        throw std::runtime_error("The vector index is out of the range of the input vector.");
       }
     }
     return output;
-- 
2.43.0


From 701c71e920699d833e77ae0c38f11cde87cbaeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:42 +0000
Subject: [PATCH 28/32] fix: a log file without options does not read past the
 end of the positions

---
 src/io/executables/converter_log.cc | 10 ++++++++--
 src/io/executables/converter_log.h  |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index 3745088..4efeffb 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -66,7 +66,9 @@ const char *io::ConverterLog::GetOutput() const {
 }
 
 std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positions) {
-  if (positions_[0] == -1) {
+  written_.clear();
+  not_written_.clear();
+  if (WriteAll()) {
     written_ = possible_positions;
   } else {
     for (const auto &pos : positions_) {
@@ -82,7 +84,7 @@ std::vector<int> io::ConverterLog::GetPositions(std::vector<int> possible_positi
 
 std::vector<std::vector<int>> io::ConverterLog::GetScattering() {
   std::vector<int> indices;
-  if (positions_[0] != -1) {
+  if (!WriteAll()) {
     for (int i = 0; i < static_cast<int>(positions_.size()); ++i) {
       if (std::find(written_.begin(), written_.end(), positions_[i]) != written_.end()) {
         indices.emplace_back(i);
@@ -128,6 +130,10 @@ bool io::ConverterLog::IsEndOfEntry(const std::string &line) const {
   return trimmed_line.empty() || util::StringOperations::EndsWith(trimmed_line, ":");
 }
 
+bool io::ConverterLog::WriteAll() const {
+  return !positions_.empty() && positions_[0] == -1;
+}
+
 std::string io::ConverterLog::GetTime() const {
   struct tm timeinfo = util::SystemOperations::GetTime();
   return asctime(&timeinfo);
diff --git a/src/io/executables/converter_log.h b/src/io/executables/converter_log.h
index 127ce68..6137e18 100644
--- a/src/io/executables/converter_log.h
+++ b/src/io/executables/converter_log.h
@@ -33,6 +33,7 @@ class ConverterLog {
 
  private:
   bool IsEndOfEntry(const std::string &line) const;
+  bool WriteAll() const;
   std::string GetTime() const;
   bool OneSpline() const;
 
-- 
2.43.0


From cd579410c53da4ee76ebd083a2d5ed13beddaa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:46 +0000
Subject: [PATCH 29/32] fix: a knot that is not inside the knot vector range is
 not inserted

Inserting, refining or subdividing at or beyond an end of the knot vector range read beyond the knots or changed the
geometry. Such requests are refused, as the evaluation outside of the range is.
---
 src/spl/spline.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index 7f23957..a49880d 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -20,6 +20,8 @@ You should have received a copy of the GNU Lesser General Public License along w
 #include <functional>
 #include <numeric>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <vector>
 
@@ -178,6 +180,7 @@ class Spline {
   }
 
   void InsertKnot(ParamCoord knot, int dimension, size_t multiplicity = 1) {
+    ThrowIfKnotIsNotInsideKnotVectorRange(knot, dimension);
     KnotSpan knot_span = GetKnotVector(dimension)->GetKnotSpan(knot);
     Degree degree = GetDegree(dimension);
     for (size_t i = 1; i <= multiplicity; ++i) {
@@ -288,6 +291,15 @@ class Spline {
     parameter_space_->ThrowIfParametricCoordinateOutsideKnotVectorRange(param_coord);
   }
 
+  void ThrowIfKnotIsNotInsideKnotVectorRange(ParamCoord knot, int dimension) const {
+    double first_knot = GetKnotVector(dimension)->GetKnot(0).get();
+    double last_knot = GetKnotVector(dimension)->GetLastKnot().get();
+    if (!(knot.get() > first_knot && knot.get() < last_knot)) {
+      throw std::range_error("The knot " + std::to_string(knot.get()) + " is not inside the knot vector range from "
+                                 + std::to_string(first_knot) + " to " + std::to_string(last_knot) + ".");
+    }
+  }
+
   virtual double GetEvaluatedControlPoint(std::array<ParamCoord, DIM> param_coord,
                                           std::array<int, DIM> indices,
                                           int dimension) const = 0;
-- 
2.43.0


From 0cb50d7be757f32f28dcd708114547af1ca9ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:19 +0000
Subject: [PATCH 30/32] fix: a refused degree reduction leaves the spline as it
 was

---
 src/spl/spline.h | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/spl/spline.h b/src/spl/spline.h
index a49880d..d74b115 100644
--- a/src/spl/spline.h
+++ b/src/spl/spline.h
@@ -250,6 +250,8 @@ class Spline {
 
   bool ReduceDegreeForDimension(int dimension, double tolerance = util::NumericSettings<double>::kEpsilon()) {
     if (GetDegree(dimension).get() < 2) return false;
+    const std::array<int, DIM> old_points_per_direction = GetPointsPerDirection();
+    const std::vector<std::pair<baf::ControlPoint, double>> old_points = GetControlPointsAndWeights();
     std::vector<int> diff = ProduceBezierSegments(dimension);
     uint64_t num_bezier_segments = GetKnotVector(dimension)->GetNumberOfDifferentKnots() - 1;
     std::vector<std::vector<baf::ControlPoint>> bezier_segments;
@@ -258,7 +260,7 @@ class Spline {
       bezier_segments.emplace_back(
           DegreeReduceBezierSegment(GetBezierSegment(dimension, i), tolerance, dimension, &successful));
       if (!successful) {
-        RemoveBezierKnots(diff, dimension);
+        RevertBezierSegments(diff, dimension, old_points_per_direction, old_points);
         return false;
       }
     }
@@ -357,6 +359,36 @@ class Spline {
     }
   }
 
+  std::vector<std::pair<baf::ControlPoint, double>> GetControlPointsAndWeights() const {
+    std::vector<std::pair<baf::ControlPoint, double>> points;
+    util::MultiIndexHandler<DIM> point_handler(GetPointsPerDirection());
+    for (int i = 0; i < point_handler.Get1DLength(); ++i, ++point_handler) {
+      points.emplace_back(GetControlPoint(point_handler.GetIndices()), GetWeight(point_handler.GetIndices()));
+    }
+    return points;
+  }
+
+  // Undoes ProduceBezierSegments exactly: removes the inserted knots and sets the control points as they were before.
+  void RevertBezierSegments(const std::vector<int> &diff, int dimension,
+                            const std::array<int, DIM> &old_points_per_direction,
+                            const std::vector<std::pair<baf::ControlPoint, double>> &old_points) {
+    auto current_knot = GetDegree(dimension).get() + 1;
+    for (int number_of_knots_to_remove : diff) {
+      ParamCoord knot = GetKnotVector(dimension)->GetKnot(current_knot);
+      for (int i = 0; i < number_of_knots_to_remove; ++i) {
+        parameter_space_->RemoveKnot(knot, dimension);
+      }
+      current_knot += static_cast<int>(GetKnotVector(dimension)->GetMultiplicity(knot));
+    }
+    GetPhysicalSpace()->RemoveControlPoints(GetNumberOfControlPoints() - static_cast<int>(old_points.size()));
+    GetPhysicalSpace()->SetNumberOfPoints(dimension, old_points_per_direction[dimension]);
+    util::MultiIndexHandler<DIM> point_handler(old_points_per_direction);
+    for (const auto &[control_point, weight] : old_points) {
+      this->SetNewControlPoint(control_point, weight, point_handler.GetIndices());
+      ++point_handler;
+    }
+  }
+
   std::vector<baf::ControlPoint> GetBezierSegment(int dimension, int segment) const {
     util::MultiIndexHandler<DIM> point_handler(GetPointsPerDirection());
     int width = GetDegree(dimension).get() + 1;
-- 
2.43.0


From 2884dd4840245e90c274e6d03551438099f16e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:19 +0000
Subject: [PATCH 31/32] fix: entries of a converter log need no blank line
 between them

---
 src/io/executables/converter_log.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index 4efeffb..0484873 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -31,15 +31,11 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
     throw std::runtime_error("Log file could not be opened.");
   }
   std::string line;
-  while (getline(log, line)) {
-    if (util::StringOperations::StartsWith(line, "input:")) {
-      getline(log, input_);
-    }
-    if (util::StringOperations::StartsWith(line, "output:")) {
-      getline(log, output_);
-    }
+  bool line_available = static_cast<bool>(getline(log, line));
+  while (line_available) {
     if (util::StringOperations::StartsWith(line, "options:")) {
-      while (getline(log, line) && !IsEndOfEntry(line)) {
+      // The line which ends this entry may be the first one of the next entry.
+      while ((line_available = static_cast<bool>(getline(log, line))) && !IsEndOfEntry(line)) {
         if (line == "all") {
           positions_.clear();
           positions_.emplace_back(-1);
@@ -47,13 +43,22 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
         }
         positions_.push_back(std::stoi(line));
       }
+      continue;
     }
     if (util::StringOperations::StartsWith(line, "scattering:")) {
-      while (getline(log, line) && !IsEndOfEntry(line)) {
+      while ((line_available = static_cast<bool>(getline(log, line))) && !IsEndOfEntry(line)) {
         std::vector<std::string> strings = util::StringOperations::split(line, ' ');
         scattering_.emplace_back(util::StringOperations::StringVectorToNumberVector<int>(strings));
       }
+      continue;
+    }
+    if (util::StringOperations::StartsWith(line, "input:")) {
+      getline(log, input_);
+    }
+    if (util::StringOperations::StartsWith(line, "output:")) {
+      getline(log, output_);
     }
+    line_available = static_cast<bool>(getline(log, line));
   }
 }
 
-- 
2.43.0


From 0f9a1cce2e670bfeefd0bcbfa0084c2e05f7bab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:19 +0000
Subject: [PATCH 32/32] fix: a listed position -1 does not select all splines

---
 src/io/executables/converter_log.cc | 4 ++--
 src/io/executables/converter_log.h  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/executables/converter_log.cc b/src/io/executables/converter_log.cc
index 0484873..7290750 100644
--- a/src/io/executables/converter_log.cc
+++ b/src/io/executables/converter_log.cc
@@ -38,7 +38,7 @@ io::ConverterLog::ConverterLog(const char *log_file) : log_file_(log_file) {
       while ((line_available = static_cast<bool>(getline(log, line))) && !IsEndOfEntry(line)) {
         if (line == "all") {
           positions_.clear();
-          positions_.emplace_back(-1);
+          write_all_ = true;
           break;
         }
         positions_.push_back(std::stoi(line));
@@ -136,7 +136,7 @@ bool io::ConverterLog::IsEndOfEntry(const std::string &line) const {
 }
 
 bool io::ConverterLog::WriteAll() const {
-  return !positions_.empty() && positions_[0] == -1;
+  return write_all_;
 }
 
 std::string io::ConverterLog::GetTime() const {
diff --git a/src/io/executables/converter_log.h b/src/io/executables/converter_log.h
index 6137e18..85c5e61 100644
--- a/src/io/executables/converter_log.h
+++ b/src/io/executables/converter_log.h
@@ -41,6 +41,7 @@ class ConverterLog {
   std::string input_;
   std::string output_;
   std::vector<int> positions_;
+  bool write_all_ = false;
   std::vector<int> written_;
   std::vector<int> not_written_;
   std::vector<std::vector<int>> scattering_;
-- 
2.43.0

