From 4606e057107a27a575c8dc5f0cbf17a7706230f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 01/13] fix: order positions around an observer by exact angle
 and distance

---
 .../code/geom/angle_sorter/angle_sorter.cpp   | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
index b5be354..a83418e 100644
--- a/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
+++ b/capi/src/implementation/visibility_graphs/code/geom/angle_sorter/angle_sorter.cpp
@@ -6,6 +6,13 @@
 
 #include "angle_sorter.hpp"
 
+namespace {
+bool in_lower_half_plane(const Coordinate &vector) {
+    const auto latitude = vector.get_latitude_microdegrees();
+    return latitude < 0 || (latitude == 0 && vector.get_longitude_microdegrees() < 0);
+}
+} // namespace
+
 void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &observer,
                                                          std::vector<Coordinate> &vertices) {
     if (vertices.empty()) {
@@ -13,24 +20,26 @@ void AngleSorter::sort_counter_clockwise_around_observer(const Coordinate &obser
     }
 
     const auto cmp = [&](const Coordinate &c1, const Coordinate &c2) -> bool {
-        if (c1 == observer) {
-            return true;
-        } else if (c2 == observer) {
-            return false;
+        if (c1 == observer || c2 == observer) {
+            return c1 == observer && c2 != observer;
         }
 
         const auto v1 = c1 - observer;
         const auto v2 = c2 - observer;
-        const auto dotprod = v1.dot_product_microdegrees(v2);
 
-        if (v1.vector_orientation(v2) != Orientation::COLLINEAR || dotprod < 0) {
-            const auto v1_angle_to_horizontal = v1.angle_to_horizontal();
-            const auto v2_angle_to_horizontal = v2.angle_to_horizontal();
+        // Angles in [0, pi) come before angles in [pi, 2 * pi)
+        const auto v1_lower_half = in_lower_half_plane(v1);
+        const auto v2_lower_half = in_lower_half_plane(v2);
+        if (v1_lower_half != v2_lower_half) {
+            return v2_lower_half;
+        }
 
-            return v1_angle_to_horizontal < v2_angle_to_horizontal;
+        const auto orientation = v1.vector_orientation(v2);
+        if (orientation != Orientation::COLLINEAR) {
+            return orientation == Orientation::COUNTER_CLOCKWISE;
         }
 
-        return v1.magnitude_squared() < v2.magnitude_squared();
+        return v1.magnitude_squared_microdegrees() < v2.magnitude_squared_microdegrees();
     };
 
     std::sort(vertices.begin(), vertices.end(), cmp);
-- 
2.43.0


From 3352feb731fdd1d6f203ddea3694f2f74e553d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 02/13] fix: hash segments independently of the order of their
 endpoints

---
 .../code/types/line_segment/line_segment.cpp              | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
index 7eb4214..c33b840 100644
--- a/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/line_segment/line_segment.cpp
@@ -2,6 +2,7 @@
 // Created by James.Balajan on 31/03/2021.
 //
 
+#include <algorithm>
 #include <s2/s2point.h>
 #include <stdexcept>
 
@@ -136,7 +137,10 @@ S2Polyline *LineSegment::to_s2_polyline() const {
 }
 
 std::size_t std::hash<LineSegment>::operator()(const LineSegment &segment) const {
-    const std::size_t coord_1_hash = hash<Coordinate>()(segment.get_endpoint_1());
-    const std::size_t coord_2_hash = hash<Coordinate>()(segment.get_endpoint_2());
+    // Segments are equal regardless of the order of their endpoints, and so must be their hashes
+    const auto endpoint_hashes = std::minmax({hash<Coordinate>()(segment.get_endpoint_1()),
+                                              hash<Coordinate>()(segment.get_endpoint_2())});
+    const std::size_t coord_1_hash = endpoint_hashes.first;
+    const std::size_t coord_2_hash = endpoint_hashes.second;
     return coord_1_hash ^ (coord_2_hash + 0x9e3779b9 + (coord_1_hash << 6) + (coord_1_hash >> 2));
 }
-- 
2.43.0


From 77c6dd2a11ea9926e974011cd51d61633f0aa5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 03/13] fix: decide reflex corners with exact arithmetic

---
 .../code/types/polyline/three_vertex_polyline.cpp              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
index b29f43d..b25a197 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polyline/three_vertex_polyline.cpp
@@ -42,8 +42,7 @@ bool ThreeVertexPolyline::is_reflex() const {
     const auto s = _v2 - _v1;
     const auto t = _v3 - _v2;
 
-    const auto determinant = (s.get_longitude() * t.get_latitude()) - (s.get_latitude() * t.get_longitude());
-    return determinant < 0;
+    return s.vector_orientation(t) == Orientation::CLOCKWISE;
 }
 
 bool ThreeVertexPolyline::inclusive_between(double value, double lower, double upper) {
-- 
2.43.0


From 83da17a0d9829fefa1446c934644aa58ebc564b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 04/13] fix: compute the winding of a polygon exactly

---
 .../visibility_graphs/code/types/polygon/polygon.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index cc34f58..33f0368 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -60,13 +60,13 @@ Polygon::normalize_vertex_orientation_to_counter_clockwise(const std::vector<Coo
 }
 
 Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices) {
-    double winding_sum = 0;
+    int64_t winding_sum = 0; // In square microdegrees, thus exact
     long num_vertices = vertices.size();
 #pragma omp simd reduction(+ : winding_sum)
     for (long i = 0; i < num_vertices; ++i) {
         long next_i = (i + 1) % num_vertices;
-        winding_sum += (vertices[next_i].get_longitude() - vertices[i].get_longitude()) *
-                       (vertices[next_i].get_latitude() + vertices[i].get_latitude());
+        winding_sum += (vertices[next_i].get_longitude_microdegrees_long() - vertices[i].get_longitude_microdegrees_long()) *
+                       (vertices[next_i].get_latitude_microdegrees_long() + vertices[i].get_latitude_microdegrees_long());
     }
 
     if (winding_sum < 0) {
-- 
2.43.0


From feb8bb78bf8489251e2cd2b1800aebc83aeba1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 05/13] fix: keep corner vertices that are given more than once
 in a row

---
 .../visibility_graphs/code/types/polygon/polygon.cpp     | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
index 33f0368..1a2725f 100644
--- a/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
+++ b/capi/src/implementation/visibility_graphs/code/types/polygon/polygon.cpp
@@ -78,7 +78,14 @@ Orientation get_orientation_of_vertices(const std::vector<Coordinate> &vertices)
     }
 }
 
-std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &vertices) {
+std::vector<Coordinate> Polygon::remove_collinear_vertices(const std::vector<Coordinate> &unfiltered_vertices) {
+    // Repeated consecutive vertices have no direction between them, and are collapsed into one first
+    auto vertices = unfiltered_vertices;
+    vertices.erase(std::unique(vertices.begin(), vertices.end()), vertices.end());
+    while (vertices.size() > 1 && vertices.front() == vertices.back()) {
+        vertices.pop_back();
+    }
+
     const long num_vertices = vertices.size();
     auto filtered_vertices = std::vector<Coordinate>();
     filtered_vertices.reserve(num_vertices);
-- 
2.43.0


From 2d0f54345d05562c8eded25d320c0e7f673e1ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 06/13] fix: keep existing edges in place when a vertex is
 added to a graph

---
 .../code/datastructures/graph/graph.cpp           | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index d39e503..4fd1437 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -215,11 +215,22 @@ std::vector<Coordinate> Graph::get_vertices() const { return _index_to_coordinat
 std::vector<Polygon> Graph::get_polygons() const { return _polygons; }
 
 void Graph::add_vertex(const Coordinate &vertex) {
+    if (has_vertex(vertex)) {
+        return;
+    }
+
     _coordinate_to_index_mapping[vertex] = _num_coords;
     _index_to_coordinate_mapping.push_back(vertex);
 
-    ++_num_coords;
-    _neighbors.resize(_num_coords*_num_coords, EdgeState::DISCONNECTED);
+    // The rows of the adjacency matrix grow by a column, so existing edges have to move with them
+    const auto new_num_coords = _num_coords + 1;
+    auto new_neighbors = std::vector<EdgeState>(new_num_coords * new_num_coords, EdgeState::DISCONNECTED);
+    for (size_t row = 0; row < _num_coords; ++row) {
+        std::copy_n(_neighbors.begin() + row * _num_coords, _num_coords, new_neighbors.begin() + row * new_num_coords);
+    }
+
+    _num_coords = new_num_coords;
+    _neighbors = std::move(new_neighbors);
     _accessor_locks.push_back(std::make_unique<std::shared_mutex>());
 }
 
-- 
2.43.0


From 230586a2fb7bea4269c0e619bd33a0c8444b0f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:53 +0000
Subject: [PATCH 07/13] fix: answer overlay queries about added vertices,
 re-added edges and repeated neighbors

---
 .../modified_graph/modified_graph.cpp         | 27 ++++++++++++++-----
 .../modified_graph/modified_graph.hpp         |  3 +++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
index cbd8e0a..53b20cd 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.cpp
@@ -2,6 +2,8 @@
 // Created by James.Balajan on 23-Feb.-2022.
 //
 
+#include <algorithm>
+
 #include "modified_graph.hpp"
 
 ModifiedGraph::ModifiedGraph(std::shared_ptr<IGraph> base_graph): _graph(base_graph) { } // NOLINT
@@ -22,14 +24,15 @@ void ModifiedGraph::add_directed_edge(const Coordinate &a, const Coordinate &b,
 
     if (_neighbors[a].find(b) == _neighbors[a].end()) {
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && (!_graph->has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
+            .is_meridian_crossing = meridian_crossing && (!base_has_edge(a, b) || _graph->is_edge_meridian_crossing(a, b)),
             .relationship = NeighborRelationship::EDGE_PRESENT
         };
     } else {
         const auto& curr_neighbor = _neighbors[a][b];
+        const auto is_present = curr_neighbor.relationship == NeighborRelationship::EDGE_PRESENT;
 
         _neighbors[a][b] = NeighborInfo {
-            .is_meridian_crossing = meridian_crossing && curr_neighbor.is_meridian_crossing,
+            .is_meridian_crossing = meridian_crossing && (!is_present || curr_neighbor.is_meridian_crossing),
             .relationship = NeighborRelationship::EDGE_PRESENT,
         };
     }
@@ -48,6 +51,14 @@ void ModifiedGraph::remove_directed_edge(const Coordinate &a, const Coordinate &
     _neighbors[a][b] = NeighborInfo { .is_meridian_crossing = false, .relationship = NeighborRelationship::EDGE_REMOVED };
 }
 
+bool ModifiedGraph::base_has_edge(const Coordinate &a, const Coordinate &b) const {
+    return _graph->has_vertex(a) && _graph->has_vertex(b) && _graph->has_edge(a, b);
+}
+
+bool ModifiedGraph::is_unjoined_added_vertex(const Coordinate &a, const Coordinate &b) const {
+    return has_vertex(a) && has_vertex(b) && !(_graph->has_vertex(a) && _graph->has_vertex(b));
+}
+
 void ModifiedGraph::add_vertex(const Coordinate &vertex) {
     if (!has_vertex(vertex)) {
         _neighbors[vertex] = std::unordered_map<Coordinate, NeighborInfo>();
@@ -63,7 +74,7 @@ bool ModifiedGraph::has_vertex(const Coordinate &vertex) const {
 
 bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->has_edge(a, b);
+        return !is_unjoined_added_vertex(a, b) && _graph->has_edge(a, b);
     }
 
     return _neighbors.at(a).at(b).relationship == NeighborRelationship::EDGE_PRESENT;
@@ -71,7 +82,7 @@ bool ModifiedGraph::has_edge(const Coordinate &a, const Coordinate &b) const {
 
 bool ModifiedGraph::is_edge_meridian_crossing(const Coordinate &a, const Coordinate &b) const {
     if (_neighbors.find(a) == _neighbors.end() || _neighbors.at(a).find(b) == _neighbors.at(a).end()) {
-        return _graph->is_edge_meridian_crossing(a, b);
+        return !is_unjoined_added_vertex(a, b) && _graph->is_edge_meridian_crossing(a, b);
     }
 
     return _neighbors.at(a).at(b).is_meridian_crossing;
@@ -86,7 +97,9 @@ std::vector<Coordinate> ModifiedGraph::get_neighbors(const Coordinate &vertex) c
     neighbors.reserve(_neighbors.at(vertex).size() + neighbors.size());
     for (const auto& neighbor : _neighbors.at(vertex)) {
         if (neighbor.second.relationship == NeighborRelationship::EDGE_PRESENT) {
-            neighbors.push_back(neighbor.first);
+            if (std::find(neighbors.begin(), neighbors.end(), neighbor.first) == neighbors.end()) {
+                neighbors.push_back(neighbor.first);
+            }
         } else if (neighbor.second.relationship == NeighborRelationship::EDGE_REMOVED) {
             neighbors.erase(std::remove(neighbors.begin(), neighbors.end(), neighbor.first), neighbors.end());
         }
@@ -100,7 +113,9 @@ std::vector<Coordinate> ModifiedGraph::get_vertices() const {
     base_vertices.reserve(base_vertices.size() + _neighbors.size());
 
     for (const auto& neighbor : _neighbors) {
-        base_vertices.push_back(neighbor.first);
+        if (!_graph->has_vertex(neighbor.first)) {
+            base_vertices.push_back(neighbor.first);
+        }
     }
 
     return base_vertices;
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
index ad5cbfb..3271fbe 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/modified_graph/modified_graph.hpp
@@ -46,6 +46,9 @@ class ModifiedGraph : public IGraph {
         [[nodiscard]] std::vector<Coordinate> get_vertices() const override;
         [[nodiscard]] std::vector<Polygon> get_polygons() const override;
     private:
+        [[nodiscard]] bool base_has_edge(const Coordinate &a, const Coordinate &b) const;
+        [[nodiscard]] bool is_unjoined_added_vertex(const Coordinate &a, const Coordinate &b) const;
+
         std::shared_ptr<IGraph> _graph;
         std::unordered_map<Coordinate, std::unordered_map<Coordinate, NeighborInfo>> _neighbors;
 };
-- 
2.43.0


From 5a3c508ce8ea3d4a7190255ad618866e9e03ab9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:56 +0000
Subject: [PATCH 08/13] fix: test every open edge instead of the one closest
 when it was opened

---
 .../datastructures/open_edges/open_edges.cpp  | 33 +++++++------------
 .../datastructures/open_edges/open_edges.hpp  | 12 +++----
 .../code/visgraph/vistree_generator.cpp       | 23 +++----------
 .../code/visgraph/vistree_generator.hpp       |  3 +-
 4 files changed, 23 insertions(+), 48 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
index e384cad..03eeeec 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.cpp
@@ -2,30 +2,21 @@
 // Created by James.Balajan on 3/06/2021.
 //
 
-#include "open_edges.hpp"
+#include <algorithm>
 
-void OpenEdges::add_edge(int64_t distance, const LineSegment &segment) {
-    _edges_sorted_by_distance.emplace(distance, segment);
-    _edge_to_distance_mapping[segment] = distance;
-}
+#include "open_edges.hpp"
 
-void OpenEdges::remove_edge(const LineSegment &segment) {
-    if (_edge_to_distance_mapping.find(segment) == _edge_to_distance_mapping.end()) {
-        return;
-    }
+void OpenEdges::add_edge(const LineSegment &segment) { _edges.insert(segment); }
 
-    const auto segment_distance = _edge_to_distance_mapping.at(segment);
-    _edge_to_distance_mapping.erase(segment);
+void OpenEdges::remove_edge(const LineSegment &segment) { _edges.erase(segment); }
 
-    const auto equal_iter = _edges_sorted_by_distance.equal_range(segment_distance);
-    for (auto iter = equal_iter.first; iter != equal_iter.second; ++iter) {
-        if (iter->second == segment) {
-            _edges_sorted_by_distance.erase(iter);
-            return;
-        }
-    }
+bool OpenEdges::blocks(const LineSegment &scanline_segment) const {
+    // The distance at which an edge meets the scanline changes as the scanline rotates, and so does the order of the
+    // edges along it. Hence every open edge is tested, instead of the one which was closest at the time of insertion
+    return std::any_of(_edges.begin(), _edges.end(), [&scanline_segment](const LineSegment &edge) {
+        return edge.intersection_with_segment(scanline_segment).has_value() &&
+               !edge.on_segment(scanline_segment.get_endpoint_2());
+    });
 }
 
-LineSegment OpenEdges::closest_edge() const { return _edges_sorted_by_distance.begin()->second; }
-
-bool OpenEdges::empty() const { return _edges_sorted_by_distance.empty(); }
+bool OpenEdges::empty() const { return _edges.empty(); }
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
index cdd4872..59d7e77 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/open_edges/open_edges.hpp
@@ -5,23 +5,21 @@
 #ifndef CAPI_OPEN_EDGES_HPP
 #define CAPI_OPEN_EDGES_HPP
 
-#include <map>
-#include <memory>
-#include <unordered_map>
+#include <unordered_set>
 
 #include "types/line_segment/line_segment.hpp"
 
 class OpenEdges {
   public:
-    void add_edge(int64_t distance, const LineSegment &segment);
+    void add_edge(const LineSegment &segment);
     void remove_edge(const LineSegment &segment);
 
-    [[nodiscard]] LineSegment closest_edge() const;
+    // Whether an open edge meets the scanline segment anywhere but at its far end
+    [[nodiscard]] bool blocks(const LineSegment &scanline_segment) const;
     [[nodiscard]] bool empty() const;
 
   private:
-    std::map<int64_t, const LineSegment> _edges_sorted_by_distance;
-    std::unordered_map<LineSegment, int64_t> _edge_to_distance_mapping;
+    std::unordered_set<LineSegment> _edges;
 };
 
 #endif // CAPI_OPEN_EDGES_HPP
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index cdd4097..bf4832e 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -66,7 +66,7 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
         const auto intersection = line_segment->intersection_with_segment(initial_scanline_segment);
         if (intersection.has_value() && !initial_scanline_segment.on_segment(line_segment->get_endpoint_1()) &&
             !initial_scanline_segment.on_segment(line_segment->get_endpoint_2())) {
-            open_edges.add_edge((intersection.value() - observer).magnitude_squared_microdegrees(), *line_segment);
+            open_edges.add_edge(*line_segment);
         }
     }
 
@@ -98,7 +98,7 @@ std::vector<VisibleVertex> VistreeGenerator::get_visible_vertices_from_candidate
             });
         }
 
-        VistreeGenerator::add_segments_to_open_edges(counter_clockwise_segments, open_edges, observer, current_vertex);
+        VistreeGenerator::add_segments_to_open_edges(counter_clockwise_segments, open_edges);
     }
 
     return visible_vertices;
@@ -213,16 +213,7 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
         }
     }
 
-    if (!open_edges.empty()) {
-        const auto &closest_edge = open_edges.closest_edge();
-        const auto intersection =
-            closest_edge.intersection_with_segment(LineSegment(observer_coordinate, vertex_in_question));
-        if (intersection.has_value() && intersection.value() != vertex_in_question) {
-            return false;
-        }
-    }
-
-    return true;
+    return !open_edges.blocks(LineSegment(observer_coordinate, vertex_in_question));
 }
 
 void VistreeGenerator::erase_segments_from_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
@@ -233,12 +224,8 @@ void VistreeGenerator::erase_segments_from_open_edges(const std::vector<std::sha
 }
 
 void VistreeGenerator::add_segments_to_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
-                                                  OpenEdges &open_edges, const Coordinate &observer,
-                                                  const Coordinate &current_vertex) {
+                                                  OpenEdges &open_edges) {
     for (const auto &segment : segments) {
-        const auto intersection = segment->intersection_with_segment(LineSegment(observer, current_vertex));
-        const auto distance_squared = (intersection.value() - observer).magnitude_squared_microdegrees();
-
-        open_edges.add_edge(distance_squared, *segment);
+        open_edges.add_edge(*segment);
     }
 }
diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
index 9551e76..2edcbb8 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.hpp
@@ -38,8 +38,7 @@ class VistreeGenerator {
     static void erase_segments_from_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
                                                OpenEdges &open_edges);
     static void add_segments_to_open_edges(const std::vector<std::shared_ptr<LineSegment>> &segments,
-                                           OpenEdges &open_edges, const Coordinate &observer,
-                                           const Coordinate &current_vertex);
+                                           OpenEdges &open_edges);
 
     static std::vector<Coordinate>
     all_vertices_for_line_segments(const std::vector<std::shared_ptr<LineSegment>> &line_segments);
-- 
2.43.0


From ee9ca73d16722a4212e7f6a909e3363b130aa125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:28 +0000
Subject: [PATCH 09/13] fix: keep the edges of every polygon meeting at a
 shared vertex

---
 .../code/visgraph/vistree_generator.cpp       | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
index bf4832e..92f1fe2 100644
--- a/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
+++ b/capi/src/implementation/visibility_graphs/code/visgraph/vistree_generator.cpp
@@ -123,10 +123,10 @@ VistreeGenerator::all_vertices_and_incident_segments(const std::vector<Polygon>
             const auto &prev_vertex = polygon_vertices[prev_idx];
             const auto &next_vertex = polygon_vertices[next_idx];
 
-            vertices_and_segments[curr_vertex] = std::vector<std::shared_ptr<LineSegment>>{
-                std::make_shared<LineSegment>(prev_vertex, curr_vertex),
-                std::make_shared<LineSegment>(curr_vertex, next_vertex),
-            };
+            // A vertex may be shared by several polygons, each of which adds its pair of segments
+            auto &incident_segments = vertices_and_segments[curr_vertex];
+            incident_segments.push_back(std::make_shared<LineSegment>(prev_vertex, curr_vertex));
+            incident_segments.push_back(std::make_shared<LineSegment>(curr_vertex, next_vertex));
         }
     }
 
@@ -194,22 +194,16 @@ bool VistreeGenerator::is_vertex_visible(const OpenEdges &open_edges, const Coor
         // We perform this check to stop our observer coordinate (if it is a vertex of a polygon)
         // from seeing vertices from inside the polygon
         // Essentially we build artificial walls based on the edges we know obstruct vision (those adjacent)
-        // This will be a constant time operation as each vertex only has two adjacent edges
-
-        auto barrier_polyline_vertices = std::vector<Coordinate>();
-        barrier_polyline_vertices.reserve(3);
+        // This will be a constant time operation as each vertex only has two adjacent edges per polygon it belongs to
 
         const auto &vertex_segments = _vertices_and_segments.at(observer_coordinate);
-        for (size_t i = 0; i < vertex_segments.size(); ++i) {
-            barrier_polyline_vertices.push_back(vertex_segments[i]->get_endpoint_1());
-            if (i != 0)
-                barrier_polyline_vertices.push_back(vertex_segments[i]->get_endpoint_2());
-        }
-
-        const auto barrier_polyline = ThreeVertexPolyline(barrier_polyline_vertices[0], barrier_polyline_vertices[1],
-                                                          barrier_polyline_vertices[2]);
-        if (!barrier_polyline.point_visible(vertex_in_question)) {
-            return false;
+        for (size_t i = 0; i + 1 < vertex_segments.size(); i += 2) {
+            const auto barrier_polyline =
+                ThreeVertexPolyline(vertex_segments[i]->get_endpoint_1(), vertex_segments[i + 1]->get_endpoint_1(),
+                                    vertex_segments[i + 1]->get_endpoint_2());
+            if (!barrier_polyline.point_visible(vertex_in_question)) {
+                return false;
+            }
         }
     }
 
-- 
2.43.0


From 3a8008295c581c26686cbcf4ba0218deef1b3fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:50 +0000
Subject: [PATCH 10/13] fix: truncate an existing file before saving a graph
 over it

The number of meridian spanning edges counts both directions of every edge but one index per edge is
written, so the end of the file kept what the path held before and loading took it for edge indices.
---
 .../visibility_graphs/code/serialization/graph_serializer.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index f7a6dc7..6bb53a2 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -305,7 +305,7 @@ inline void allocate_file(const std::string &path, size_t num_bytes) {
         throw std::runtime_error(error);
     };
 
-    const auto fd = open(path.c_str(), O_CREAT | O_RDWR, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
+    const auto fd = open(path.c_str(), O_CREAT | O_RDWR | O_TRUNC, S_IROTH | S_IWOTH | S_IRGRP | S_IWGRP | S_IRWXU);
     if (fd == -1) {
         handle_allocation_error();
     }
-- 
2.43.0


From 37377d3df8ec1ee171d16c16856c9383aadf8c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 11/13] fix: raise an error when a graph file is shorter than
 its contents say

---
 .../code/serialization/graph_serializer.cpp    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
index 6bb53a2..abacb1f 100644
--- a/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
+++ b/capi/src/implementation/visibility_graphs/code/serialization/graph_serializer.cpp
@@ -25,6 +25,7 @@ uint64_t deserialize_8_bytes_from_mmap(const mio::mmap_source &mmap, size_t offs
 uint32_t deserialize_4_bytes_from_mmap(const mio::mmap_source &mmap, size_t offset);
 int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap, size_t offset);
 uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset);
+void check_count_fits(const mio::mmap_source &mmap, uint64_t count, size_t element_size, size_t offset);
 
 void allocate_file(const std::string &path, size_t num_bytes);
 void handle_mmap_error(const std::error_code &error);
@@ -149,6 +150,7 @@ size_t GraphSerializer::serialize_adjacency_matrix_to_mmap(mio::mmap_sink &mmap,
 
 size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_source &mmap, std::shared_ptr<Graph> &graph,
                                                                uint64_t num_polygons, size_t offset) {
+    check_count_fits(mmap, num_polygons, sizeof(uint64_t), offset);
     auto polygons = std::vector<Polygon>(num_polygons);
 
     size_t curr_offset = offset;
@@ -156,6 +158,7 @@ size_t GraphSerializer::deserialize_polygon_vertices_from_mmap(const mio::mmap_s
         auto num_vertices = deserialize_8_bytes_from_mmap(mmap, curr_offset);
         curr_offset += sizeof(num_vertices);
 
+        check_count_fits(mmap, num_vertices, 2 * sizeof(int32_t), curr_offset);
         auto vertices = std::vector<Coordinate>(num_vertices);
         for (size_t j = 0; j < num_vertices; ++j) {
             const auto longitude_offset = curr_offset + (j * 2 * sizeof(int32_t));
@@ -187,6 +190,8 @@ size_t GraphSerializer::deserialize_adjacency_matrix_from_mmap(const mio::mmap_s
 
     std::unordered_set<uint64_t> meridian_spanning_edge_indices;
     const auto num_meridian_spanning_edges = deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back());
+    check_count_fits(mmap, num_meridian_spanning_edges, sizeof(uint64_t),
+                     adjacency_matrix_byte_offsets.back() + sizeof(num_meridian_spanning_edges));
     for (size_t i = 0; i < num_meridian_spanning_edges; ++i) {
         meridian_spanning_edge_indices.insert(
             deserialize_8_bytes_from_mmap(mmap, adjacency_matrix_byte_offsets.back() + (i + 1) * sizeof(uint64_t)));
@@ -293,7 +298,18 @@ inline int32_t deserialize_4_signed_bytes_from_mmap(const mio::mmap_source &mmap
     return val;
 }
 
-inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) { return mmap[offset]; }
+inline uint8_t deserialize_byte_from_mmap(const mio::mmap_source &mmap, size_t offset) {
+    if (offset >= mmap.size()) {
+        throw std::runtime_error("Error loading graph: the file is truncated");
+    }
+    return mmap[offset];
+}
+
+inline void check_count_fits(const mio::mmap_source &mmap, uint64_t count, size_t element_size, size_t offset) {
+    if (offset > mmap.size() || count > (mmap.size() - offset) / element_size) {
+        throw std::runtime_error("Error loading graph: the file is truncated");
+    }
+}
 
 inline void allocate_file(const std::string &path, size_t num_bytes) {
     const auto handle_allocation_error = [&]() {
-- 
2.43.0


From 33c6234d2a041eb822fa7d1b5d49fced73ecc850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 12/13] fix: change both directions of an edge under the same
 locks

---
 .../code/datastructures/graph/graph.cpp       | 39 +++++++++++++++++--
 .../code/datastructures/graph/graph.hpp       |  5 +++
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
index 4fd1437..dda0142 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.cpp
@@ -37,8 +37,21 @@ Graph::Graph(std::vector<Polygon> polygons) : _polygons(std::move(polygons)) {
 }
 
 void Graph::add_edge(const Coordinate &a, const Coordinate &b, bool meridian_crossing) {
-    add_directed_edge(a, b, meridian_crossing);
-    add_directed_edge(b, a, meridian_crossing);
+    if (a == b) {
+        return;
+    }
+
+    const auto a_index = coordinate_to_index(a);
+    const auto b_index = coordinate_to_index(b);
+
+    // Both directions have to change under the same locks, or other threads can leave only one of them joined
+    const auto locks = lock_both_for_writing(a_index, b_index);
+
+    for (const size_t index : {a_index + (_num_coords * b_index), b_index + (_num_coords * a_index)}) {
+        _neighbors[index] = static_cast<EdgeState>(
+                _neighbors[index] |
+                ((meridian_crossing) ? EdgeState::CONNECTED_OVER_MERIDIAN : EdgeState::CONNECTED));
+    }
 }
 
 void Graph::add_directed_edge(const Coordinate &a, const Coordinate &b, bool meridian_crossing) {
@@ -71,8 +84,17 @@ void Graph::add_directed_edge(const Coordinate &a, const Coordinate &b, bool mer
 }
 
 void Graph::remove_edge(const Coordinate &a, const Coordinate &b) {
-    remove_directed_edge(a, b);
-    remove_directed_edge(b, a);
+    if (a == b) {
+        return;
+    }
+
+    const auto a_index = coordinate_to_index(a);
+    const auto b_index = coordinate_to_index(b);
+
+    const auto locks = lock_both_for_writing(a_index, b_index);
+
+    _neighbors[a_index + (_num_coords * b_index)] = EdgeState::DISCONNECTED;
+    _neighbors[b_index + (_num_coords * a_index)] = EdgeState::DISCONNECTED;
 }
 
 void Graph::remove_directed_edge(const Coordinate &a, const Coordinate &b) {
@@ -234,6 +256,15 @@ void Graph::add_vertex(const Coordinate &vertex) {
     _accessor_locks.push_back(std::make_unique<std::shared_mutex>());
 }
 
+std::pair<std::unique_lock<std::shared_mutex>, std::unique_lock<std::shared_mutex>>
+Graph::lock_both_for_writing(unsigned int a_index, unsigned int b_index) const {
+    // Lock order prevents deadlock
+    std::unique_lock<std::shared_mutex> lower_lock(*_accessor_locks[std::min(a_index, b_index)]);
+    std::unique_lock<std::shared_mutex> upper_lock(*_accessor_locks[std::max(a_index, b_index)]);
+
+    return {std::move(lower_lock), std::move(upper_lock)};
+}
+
 inline unsigned int Graph::coordinate_to_index(Coordinate coordinate) const {
     try {
         return _coordinate_to_index_mapping.at(coordinate);
diff --git a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.hpp b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.hpp
index dc6f52a..ebb8dc1 100644
--- a/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.hpp
+++ b/capi/src/implementation/visibility_graphs/code/datastructures/graph/graph.hpp
@@ -13,6 +13,7 @@
 #include <vector>
 #include <shared_mutex>
 #include <memory>
+#include <utility>
 
 #include "types/coordinate/coordinate.hpp"
 #include "types/polygon/polygon.hpp"
@@ -48,6 +49,10 @@ class Graph : public IGraph {
     Coordinate index_to_coordinate(unsigned int index) const;
     unsigned int coordinate_to_index(Coordinate coordinate) const;
 
+    // The indices have to differ
+    [[nodiscard]] std::pair<std::unique_lock<std::shared_mutex>, std::unique_lock<std::shared_mutex>>
+    lock_both_for_writing(unsigned int a_index, unsigned int b_index) const;
+
     std::vector<Polygon> _polygons;
     size_t _num_coords = 0;
 
-- 
2.43.0


From 043097e333ed6a66488fe728a8c5dcb6604824d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:02 +0000
Subject: [PATCH 13/13] fix: count no vertices when there are no polygons to
 split

---
 capi/src/implementation/graph_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/capi/src/implementation/graph_generator.py b/capi/src/implementation/graph_generator.py
index 6692c58..ecae211 100644
--- a/capi/src/implementation/graph_generator.py
+++ b/capi/src/implementation/graph_generator.py
@@ -61,7 +61,7 @@ class GraphGenerator(IGraphGenerator):
 
     @staticmethod
     def _get_num_vertices_in_polygons(polygons: typing.Sequence[VisGraphPolygon]) -> int:
-        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons))
+        return reduce(lambda a, b: a + b, map(lambda polygon: len(polygon.vertices), polygons), 0)
 
 
 if __name__ == "__main__":  # pragma: no cover
-- 
2.43.0

