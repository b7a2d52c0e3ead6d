From 674f07da71136823962a893adbbe1cc0c2f76d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:32 +0000
Subject: [PATCH 01/22] fix: VectorBase::isParallel recognizes antiparallel
 vectors and small angles

---
 frackit/geometry/vector.hh | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/frackit/geometry/vector.hh b/frackit/geometry/vector.hh
index cbecf47..5aa2c1a 100644
--- a/frackit/geometry/vector.hh
+++ b/frackit/geometry/vector.hh
@@ -126,12 +126,17 @@ public:
             return true;
 
         // we assume non-degenerate vectors!
-        const auto thisNorm = length();
-        const auto otherNorm = other.length();
-
-        using std::acos; using std::abs;
-        const auto angle = abs(acos( (*this)*other/thisNorm/otherNorm ));
-        return angle < angularEps || abs(angularEps - M_PI) < angularEps;
+        auto thisUnit = asImp_();
+        auto otherUnit = other;
+        thisUnit /= length();
+        otherUnit /= other.length();
+
+        // angle between the two lines spanned by the vectors, computed from
+        // the chord as the arc cosine cannot resolve small angles
+        using std::asin; using std::min;
+        const ctype chord = min((thisUnit - otherUnit).length(), (thisUnit + otherUnit).length());
+        const ctype angle = 2.0*asin(chord/2.0);
+        return angle < angularEps;
     }
 
     //! Scalar product with another vector
-- 
2.43.0


From e4056bf1c55769573b891bc0eda402d40bfcc0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:39 +0000
Subject: [PATCH 02/22] fix: Triangle::contains with default tolerance reads
 past the corners and ignores checkIfOnPlane

---
 frackit/geometry/triangle.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frackit/geometry/triangle.hh b/frackit/geometry/triangle.hh
index 60684d1..036e772 100644
--- a/frackit/geometry/triangle.hh
+++ b/frackit/geometry/triangle.hh
@@ -155,6 +155,7 @@ public:
         otherArea += Triangle<ctype, 3>(corners_[2], corners_[0], p).area();
 
         // if area is equal to the triangle area, point is on it
+        using std::abs;
         return abs(area() - otherArea) < eps*eps;
     }
 
@@ -169,8 +170,8 @@ public:
     bool contains(const Point& p,  bool checkIfOnPlane = true) const
     {
         auto eps = Precision<ctype>::confusion();
-        eps *= Vector(corner(0), corner(3)).length();
-        return contains(p, eps);
+        eps *= Vector(corner(0), center_).length();
+        return contains(p, eps, checkIfOnPlane);
     }
 
 private:
-- 
2.43.0


From 7ed00814f6faa447057313f258405ea0e5025442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:34 +0000
Subject: [PATCH 03/22] fix: Polygon convexity check includes the second corner

---
 frackit/geometry/polygon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/polygon.hh b/frackit/geometry/polygon.hh
index ea9855e..f9ef811 100644
--- a/frackit/geometry/polygon.hh
+++ b/frackit/geometry/polygon.hh
@@ -232,7 +232,7 @@ private:
                                              Vector(edge(0).direction()));
 
         // check if normals around the other edges point in the same direction
-        for (std::size_t i = 1; i < numEdges()-1; ++i)
+        for (std::size_t i = 0; i < numEdges()-1; ++i)
         {
             const auto n = crossProduct(Vector(edge(i).direction()),
                                         Vector(edge(i+1).direction()));
-- 
2.43.0


From 2991180e11d9433925816f712acb1fcbfaa086e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 04/22] fix: Disk::getPoint scales from the center instead of
 the boundary point

---
 frackit/geometry/disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/disk.hh b/frackit/geometry/disk.hh
index 122a008..4eaaaf6 100644
--- a/frackit/geometry/disk.hh
+++ b/frackit/geometry/disk.hh
@@ -134,7 +134,7 @@ public:
         const auto p = boundingEllipse().getPoint(param1);
         Vector d(this->center(), p);
         d *= param2;
-        return p + d;
+        return this->center() + d;
     }
 
     //! Returns the ellipse describing the disk's boundary
-- 
2.43.0


From 49e534206f091afdb09516f638466af240b41e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:50 +0000
Subject: [PATCH 05/22] fix: EllipseArc::contains rejects points on full
 ellipses

---
 frackit/geometry/ellipsearc.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frackit/geometry/ellipsearc.hh b/frackit/geometry/ellipsearc.hh
index 5cada80..482beea 100644
--- a/frackit/geometry/ellipsearc.hh
+++ b/frackit/geometry/ellipsearc.hh
@@ -133,6 +133,9 @@ public:
             if (!ParentType::contains(p, eps))
                 return false;
 
+        if (isFullEllipse_)
+            return true;
+
         const auto angle = this->getAngle(p, checkIfOnEllipse);
         if (sourceAngle_ > targetAngle_)
             return angle >= sourceAngle_ - eps || angle <= targetAngle_ + eps;
-- 
2.43.0


From 92e05f67a0c51acb8761c805c4c64cb6d79e54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:20 +0000
Subject: [PATCH 06/22] fix: computeLength integrates curves other than circles
 to within the precision

---
 frackit/magnitude/length.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/frackit/magnitude/length.hh b/frackit/magnitude/length.hh
index ea25240..373f299 100644
--- a/frackit/magnitude/length.hh
+++ b/frackit/magnitude/length.hh
@@ -39,6 +39,7 @@
 #include <frackit/occ/geomutilities.hh>
 #include <frackit/occ/breputilities.hh>
 
+#include <frackit/precision/precision.hh>
 #include <frackit/geometry/circle.hh>
 #include <frackit/geometry/ellipse.hh>
 #include <frackit/geometry/ellipsearc.hh>
@@ -65,7 +66,11 @@ ctype computeLength(const Handle(Geom_Curve)& curve)
     const auto uMin = curve->FirstParameter();
     const auto uMax = curve->LastParameter();
     GeomAdaptor_Curve adaptorCurve(curve, uMin, uMax);
-    return GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax);
+
+    // the estimate defines the tolerance of the adaptive integration
+    const auto estimate = GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax);
+    const auto eps = estimate*Precision<ctype>::confusion();
+    return eps > 0.0 ? GCPnts_AbscissaPoint::Length(adaptorCurve, uMin, uMax, eps) : estimate;
 }
 
 /*!
-- 
2.43.0


From f01ee8b3a18d470b0e587646fa2f4c42a6085a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:20 +0000
Subject: [PATCH 07/22] fix: computeLength of ellipses returns the perimeter
 for all axis ratios

---
 frackit/magnitude/length.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/frackit/magnitude/length.hh b/frackit/magnitude/length.hh
index 373f299..bc69d1a 100644
--- a/frackit/magnitude/length.hh
+++ b/frackit/magnitude/length.hh
@@ -26,6 +26,7 @@
 #define FRACKIT_MAGNITUDE_LENGTH_HH
 
 #include <cmath>
+#include <algorithm>
 #include <numeric>
 
 #include <Standard_Handle.hxx>
@@ -108,7 +109,14 @@ ctype computeLength(const Circle<ctype, worldDim>& circle)
  */
 template<class ctype, int worldDim>
 ctype computeLength(const Ellipse<ctype, worldDim>& ellipse)
-{ return M_PI*(ellipse.majorAxisLength() + ellipse.minorAxisLength()); }
+{
+    using std::max;
+    using std::min;
+    using std::sqrt;
+    const auto a = max(ellipse.majorAxisLength(), ellipse.minorAxisLength());
+    const auto b = min(ellipse.majorAxisLength(), ellipse.minorAxisLength());
+    return 4.0*a*std::comp_ellint_2(sqrt(1.0 - b*b/(a*a)));
+}
 
 /*!
  * \ingroup Magnitude
@@ -118,7 +126,7 @@ template<class ctype>
 ctype computeLength(const EllipseArc<ctype, 3>& arc)
 {
     if (arc.isFullEllipse())
-         return M_PI*(arc.majorAxisLength() + arc.minorAxisLength());
+         return computeLength(arc.supportingEllipse());
     return computeLength(OCCUtilities::getGeomHandle(arc));
 }
 
-- 
2.43.0


From fd76cd2b3233ff1f825e537dbc69a034594470ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 08/22] fix: SamplingStatus queries for unknown ids leave the
 status unchanged

---
 frackit/sampling/status.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index f96e3f9..b3e718e 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -85,7 +85,9 @@ public:
      */
     void resetCounter(const Id& id)
     {
-        count_[id.get()] = 0;
+        auto it = count_.find(id.get());
+        if (it != count_.end())
+            it->second = 0;
     }
 
     /*!
@@ -134,7 +136,10 @@ public:
      * \brief Returns the entity count for the given id.
      */
     std::size_t getCount(const Id& id)
-    { return count_[id.get()]; }
+    {
+        auto it = count_.find(id.get());
+        return it == count_.end() ? 0 : it->second;
+    }
 
     /*!
      * \brief Returns the overall entity count.
-- 
2.43.0


From 2606e77385bbed6d0140d39684be17d9d7d2e41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 09/22] fix: SamplingStatus::getCount sums with the type of the
 counters

---
 frackit/sampling/status.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index b3e718e..28d02d6 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -148,7 +148,7 @@ public:
     {
         return std::accumulate(count_.begin(),
                                count_.end(),
-                               0,
+                               std::size_t(0),
                                [] (const auto& curCount, const auto& idCountPair)
                                { return curCount + idCountPair.second; });
     }
-- 
2.43.0


From 6c1981b69dc9666a3eabf1b4734ff7f883825d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 10/22] fix: SamplingStatus::print does not throw when no
 target count is set

---
 frackit/sampling/status.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index 28d02d6..4034fca 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -181,12 +181,12 @@ public:
         const auto countString = std::to_string(curCount);
         const auto rejectedCountString = std::to_string(rejectedCount_);
 
-        using std::max;
-        const std::size_t zero = 0;
-        const std::size_t paddingCount    = max(zero, 13 - countString.size());
-        const std::size_t paddingRejected = max(zero, 13 - rejectedCountString.size());
-        const std::size_t paddingRatio    = max(zero, 16 - ratioNumChars);
-        const std::size_t paddingProgess  = max(zero, 8  - progressNumChars);
+        auto padding = [] (std::size_t width, std::size_t numChars) -> std::size_t
+        { return width > numChars ? width - numChars : 0; };
+        const std::size_t paddingCount    = padding(13, countString.size());
+        const std::size_t paddingRejected = padding(13, rejectedCountString.size());
+        const std::size_t paddingRatio    = padding(16, ratioNumChars);
+        const std::size_t paddingProgess  = padding(8,  progressNumChars);
 
         std::cout << "  "      << std::string( paddingCount, ' ')    << countString + ' '
                   << "   |   " << std::string( paddingRejected, ' ') << rejectedCountString + ' '
-- 
2.43.0


From e697b872424d638c0d83c4cf94eeec8c05492de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:30 +0000
Subject: [PATCH 11/22] fix: MultiGeometryEntitySet::addEntity can be
 instantiated again

---
 frackit/entitynetwork/multigeometryentityset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/multigeometryentityset.hh b/frackit/entitynetwork/multigeometryentityset.hh
index 8c03ed7..dc8a822 100644
--- a/frackit/entitynetwork/multigeometryentityset.hh
+++ b/frackit/entitynetwork/multigeometryentityset.hh
@@ -96,7 +96,7 @@ public:
         }
 
         // define a new entity set
-        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id.get()) );
+        entityIdVectors.push_back( GeometryVectorIdPair<Entity>(std::vector<Entity>(), id) );
         entityIdVectors.back().first.push_back(entity);
         entitySetGeometries_[id.get()] = geometryName(entity);
     }
-- 
2.43.0


From bb3789d08c26facabbc7ab1c26e1cf41032dfd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 12/22] fix: IntersectionAngle of (anti)parallel planes is not
 NaN due to rounding

---
 frackit/intersection/intersectionangle.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index 050791f..b4b2e57 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -113,8 +113,12 @@ public:
 
         using std::abs;
         using std::acos;
+        using std::min;
         using Vector = Vector<ctype, wd>;
-        return acos( abs(Vector(plane1.normal())*Vector(plane2.normal())) );
+
+        // due to rounding, the product of the unit normals may exceed 1.0
+        const ctype cosine = abs(Vector(plane1.normal())*Vector(plane2.normal()));
+        return acos( min(cosine, ctype(1.0)) );
     }
 
     /*!
-- 
2.43.0


From 261dd2cc6f7bd82414560d6760c87b5bb5f5b698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 13/22] fix: IntersectionAngle at a point on a face evaluates
 the surface at the projected parameters

---
 frackit/intersection/intersectionangle.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index b4b2e57..5813f37 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -384,7 +384,7 @@ public:
         // construct the tangent plane of the face in the point
         gp_Pnt p;
         gp_Vec baseVec1, baseVec2;
-        geomSurface->D1(projection, paramV, p, baseVec1, baseVec2);
+        geomSurface->D1(paramU, paramV, p, baseVec1, baseVec2);
 
         const auto base1 = OCCUtilities::vector(baseVec1);
         const auto base2 = OCCUtilities::vector(baseVec2);
-- 
2.43.0


From 1abdf30046c867c8307dc56c960c2879bdb551d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 14/22] fix: the deprecated quadrilateral sampler resamples
 inadmissible edge lengths

---
 frackit/sampling/quadrilateralsampler.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/sampling/quadrilateralsampler.hh b/frackit/sampling/quadrilateralsampler.hh
index 008a6c0..026adbb 100644
--- a/frackit/sampling/quadrilateralsampler.hh
+++ b/frackit/sampling/quadrilateralsampler.hh
@@ -252,10 +252,10 @@ public:
         rotate(axes[0], Direction(axes[1]), dip);
 
         // sample edge lengths until all are admissible
-        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) p_edge_(generator_);
-        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) p_edge_(generator_);
-        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) p_edge_(generator_);
-        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) p_edge_(generator_);
+        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) dx1 = p_edge_(generator_);
+        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) dx2 = p_edge_(generator_);
+        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) dy1 = p_edge_(generator_);
+        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) dy2 = p_edge_(generator_);
 
         auto dxVec1 = axes[0]; dxVec1 *= dx1/2.0;
         auto dxVec2 = axes[0]; dxVec2 *= dx2/2.0;
-- 
2.43.0


From a5c9c7309553d064afb10220cc535a295f67ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:43 +0000
Subject: [PATCH 15/22] fix: PolygonSampler reports unsuccessful sampling of
 the dip length

---
 frackit/sampling/polygonsampler.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index c726dc5..7e9b567 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -257,7 +257,7 @@ public:
         int countDip = 0;
         while (dipLength < 0.0 && countDip < 100)
         { dipLength = p_dip_length_(generator_); countDip++; }
-        if (countStrike == 100)
+        if (countDip == 100)
             throw std::runtime_error("Could not sample positive dip length in 100 tries");
 
         std::vector<Vector> edgeVectors;
-- 
2.43.0


From fc4b29b8273ddb9986da7368855f49b096c9c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 16/22] fix: collinear segments that only touch at a corner
 intersect in a point, not in a segment of zero length

---
 .../intersection/algorithms/algo_segment_segment.hh  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_segment_segment.hh b/frackit/intersection/algorithms/algo_segment_segment.hh
index cb8ec48..9cb045e 100644
--- a/frackit/intersection/algorithms/algo_segment_segment.hh
+++ b/frackit/intersection/algorithms/algo_segment_segment.hh
@@ -84,11 +84,15 @@ intersect_segment_segment(const Segment<ctype, wd>& segment1,
         const bool t1On2 = segment2.contains(t1, eps, false);
         if (s1On2 && t1On2) return ResultType( segment1 );
 
-        if (s2On1 && s1On2) return ResultType( Segment(s2, s1) );
-        if (s2On1 && t1On2) return ResultType( Segment(s2, t1) );
+        // the overlap reduces to a point if the segments only touch at a corner
+        const auto makeOverlap = [eps] (const auto& p1, const auto& p2)
+        { return p1.isEqual(p2, eps) ? ResultType( p1 ) : ResultType( Segment(p1, p2) ); };
 
-        if (t2On1 && s1On2) return ResultType( Segment(t2, s1) );
-        if (t2On1 && t1On2) return ResultType( Segment(t2, t1) );
+        if (s2On1 && s1On2) return makeOverlap(s2, s1);
+        if (s2On1 && t1On2) return makeOverlap(s2, t1);
+
+        if (t2On1 && s1On2) return makeOverlap(t2, s1);
+        if (t2On1 && t1On2) return makeOverlap(t2, t1);
     }
 
     // Fragment the lines to find the intersection point
-- 
2.43.0


From 0d0ccb4f6ab8cae20fd9bdbf40da19ebd70832fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 17/22] fix: planar geometries that touch each other only in a
 common corner point do intersect

---
 .../intersection/algorithms/algo_planargeom_planargeom.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
index 51eced1..09737f2 100644
--- a/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
+++ b/frackit/intersection/algorithms/algo_planargeom_planargeom.hh
@@ -124,6 +124,14 @@ intersect_planarGeometry_planarGeometry(const PlanarGeom1& faceGeom1,
             if (seg2.contains(p1, eps))
                 return ResultType( p1 );
         }
+        else if (std::holds_alternative<Point<ctype, worldDim>>(is1)
+            && std::holds_alternative<Point<ctype, worldDim>>(is2))
+        {
+            const auto& p1 = std::get<Point<ctype, worldDim>>(is1);
+            const auto& p2 = std::get<Point<ctype, worldDim>>(is2);
+            if (p1.isEqual(p2, eps))
+                return ResultType( p1 );
+        }
 
         // intersection is empty
         return ResultType( EmptyIntersection<worldDim>() );
-- 
2.43.0


From 6c92e86c910e27b9d2f5664825743c140dcfff8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 18/22] fix: the intersection of a polygon and a disk accounts
 for the size of the disk

---
 frackit/intersection/algorithms/algo_polygon_disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/algorithms/algo_polygon_disk.hh b/frackit/intersection/algorithms/algo_polygon_disk.hh
index 450e39d..25a3174 100644
--- a/frackit/intersection/algorithms/algo_polygon_disk.hh
+++ b/frackit/intersection/algorithms/algo_polygon_disk.hh
@@ -50,7 +50,7 @@ intersect_polygon_disk(const Polygon<ctype, 3>& polygon,
                              ctype eps)
 {
     using Segment = Segment<ctype, 3>;
-    ctype charLength = 0.0;
+    ctype charLength = disk.majorAxisLength()*disk.majorAxisLength();
 
     using std::max;
     for (unsigned int i = 0; i < polygon.numCorners(); ++i)
-- 
2.43.0


From 7d1989363501d1f29b1b1e6a99e97982d2d1de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 19/22] fix: entity networks are made of the pieces of
 entities, not of the edges and vertices in which these intersect

---
 frackit/entitynetwork/networkbuilder.hh | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 601c8d8..67e1c76 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -254,19 +254,14 @@ protected:
                     throw std::runtime_error("Could not find entity index");
 
                 // map all fragments to this new index
+                // (shapes generated by the operation are lower-dimensional section shapes)
                 const bool isDeleted = intersection.IsDeleted(entityShape);
-                const auto& generated = intersection.Generated(entityShape);
                 const auto& modified = intersection.Modified(entityShape);
-                if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+                if (!isDeleted && modified.IsEmpty())
                 {
                     newIndexMap.Bind(entityShape, entityIdx);
                     newList.Append(entityShape);
                 }
-                for (const auto& fragment : generated)
-                {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
-                }
                 for (const auto& fragment : modified)
                 {
                     if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
@@ -347,21 +342,16 @@ protected:
                 throw std::runtime_error("Could not find original entity index");
 
             // map all fragments to this new index
+            // (shapes generated by the operation are lower-dimensional section shapes)
             const bool isDeleted = fragmentAlgo.IsDeleted(shape);
-            const auto& generated = fragmentAlgo.Generated(shape);
             const auto& modified = fragmentAlgo.Modified(shape);
             auto& newList = newFragmentLists[subDomainIdx];
             auto& newMap = newFragmentMaps[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+            if (!isDeleted && modified.IsEmpty())
             {
                 newMap.Bind(shape, entityIdx);
                 newList.Append(shape);
             }
-            for (const auto& fragment : generated)
-            {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
-            }
             for (const auto& fragment : modified)
             {
                 if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
@@ -385,15 +375,11 @@ protected:
 
             // store the fragments of this sub-domain
             const bool isDeleted = fragmentAlgo.IsDeleted(domainShape);
-            const auto& generated = fragmentAlgo.Generated(domainShape);
             const auto& modified = fragmentAlgo.Modified(domainShape);
 
             auto& sdFragmentList = subDomainFragmentLists_[subDomainIdx];
-            if (!isDeleted && generated.IsEmpty() && modified.IsEmpty())
+            if (!isDeleted && modified.IsEmpty())
                 sdFragmentList.Append(domainShape);
-            for (const auto& fragment : generated)
-                if (!sdFragmentList.Contains(fragment))
-                    sdFragmentList.Append(fragment);
             for (const auto& fragment : modified)
                 if (!sdFragmentList.Contains(fragment))
                     sdFragmentList.Append(fragment);
-- 
2.43.0


From e2703e960d4f2d1763e03e04216a02b5258bba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 20/22] fix: networks with less than two shapes, of which there
 is nothing to be fragmented, can be built

---
 frackit/entitynetwork/networkbuilder.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 67e1c76..c2c222c 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -316,6 +316,14 @@ protected:
         for (const auto& domainShape : allDomains)
             allShapes.Append(domainShape);
 
+        // there is nothing to be fragmented with less than two shapes
+        if (allShapes.Extent() < 2)
+        {
+            for (const auto& domainShape : allDomains)
+                subDomainFragmentLists_[domainToSubDomainIndex.Find(domainShape)].Append(domainShape);
+            return;
+        }
+
         // fragment all shapes
         BRepAlgoAPI_BuilderAlgo fragmentAlgo;
         fragmentAlgo.SetRunParallel(false);
-- 
2.43.0


From 0972a25bcc1a5e9f78bb31420a0572eb085901a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:27 +0000
Subject: [PATCH 21/22] fix: pieces of different entities do not share an index
 if entities of a sub-domain vanish upon confinement

---
 frackit/entitynetwork/networkbuilder.hh | 7 ++++++-
 frackit/io/brepwriter.hh                | 5 ++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index c2c222c..dbbdb13 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -24,6 +24,7 @@
 #ifndef FRACKIT_ENTITY_NETWORK_BUILDER_HH
 #define FRACKIT_ENTITY_NETWORK_BUILDER_HH
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <stdexcept>
@@ -581,9 +582,13 @@ public:
         for (auto& dataPair : this->networkFragmentMaps_)
         {
             const auto& indexMap = dataPair.second;
+            std::size_t maxEntityIndex = 0;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
+            {
                 fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
-            entityIndexOffset += indexMap.Extent();
+                maxEntityIndex = std::max(maxEntityIndex, std::size_t(it.Value()));
+            }
+            entityIndexOffset += maxEntityIndex;
         }
 
         // create the network
diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 8d097c2..f7cc159 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -24,6 +24,7 @@
 #ifndef FRACKIT_BREP_WRITER_HH
 #define FRACKIT_BREP_WRITER_HH
 
+#include <algorithm>
 #include <string>
 #include <stdexcept>
 #include <unordered_map>
@@ -136,14 +137,16 @@ private:
             // Therefore, we add the offset in order to ensure that we don't add
             // entities from another network to the same primary entity index
             const auto& map = network.subDomainEntityFragmentsIndexMap(id);
+            std::size_t maxEntityIndex = 0;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(map); it.More(); it.Next())
             {
                 allEntities_.Append(it.Key());
                 allEntitiesIndexMap_.Bind(it.Key(), it.Value() + subNetworkOffset);
+                maxEntityIndex = std::max(maxEntityIndex, std::size_t(it.Value()));
             }
 
             // the next sub-domain
-            subNetworkOffset += map.Extent();
+            subNetworkOffset += maxEntityIndex;
         }
     }
 
-- 
2.43.0


From b5dd581250aeadde33bb45e68425082f8e2d572e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 22/22] fix: edges in which entities meet are found
 irrespective of their orientation when written

---
 frackit/io/brepwriter.hh | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index f7cc159..f013f71 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -184,7 +184,7 @@ private:
                 std::vector<std::size_t> handled;
                 for (unsigned int eIdx = 0; eIdx < edges.size(); ++eIdx)
                     for (const auto& isList : entityIntersections_)
-                        if (isList.Contains(edges[eIdx]))
+                        if (contains_(isList, edges[eIdx]))
                             handled.push_back(eIdx);
 
                 if (handled.size() != edges.size())
@@ -324,7 +324,7 @@ private:
 
                 // start from index 1 in the map
                 for (std::size_t isIdx = 0; isIdx < entityIntersections_.size(); ++isIdx)
-                    if (entityIntersections_[isIdx].Contains(edge))
+                    if (contains_(entityIntersections_[isIdx], edge))
                         entityIntersectionsToFragmentsMap_[isIdx+1].push_back(curEntityIdx);
 
                 addVertices_(edgeExp.Current());
@@ -348,6 +348,20 @@ private:
         }
     }
 
+    /*!
+     * \brief Returns true if a list contains a shape, regardless of the orientation.
+     *        The same edge may be oriented differently in the faces it bounds.
+     * \param list The list to be searched
+     * \param shape The shape to be found
+     */
+    static bool contains_(const TopTools_ListOfShape& list, const TopoDS_Shape& shape)
+    {
+        for (TopTools_ListIteratorOfListOfShape it(list); it.More(); it.Next())
+            if (it.Value().IsSame(shape))
+                return true;
+        return false;
+    }
+
     // containers to store the primary entities
     TopTools_ListOfShape allEntities_;
     TopTools_DataMapOfShapeInteger allEntitiesIndexMap_;
-- 
2.43.0

