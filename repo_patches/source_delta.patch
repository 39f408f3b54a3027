From afd93abecdfdee4c2fcb0afa40c0a1f7e1dffc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 01/52] fix: exact size_hint of the face edge iterator after
 partial consumption

---
 src/halfedge/edge/iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/edge/iterator.rs b/src/halfedge/edge/iterator.rs
index fbf1281..20eb6e9 100644
--- a/src/halfedge/edge/iterator.rs
+++ b/src/halfedge/edge/iterator.rs
@@ -55,7 +55,8 @@ impl<'a, T: HalfEdgeImplMeshType> Iterator for ForwardEdgeIterator<'a, T> {
     #[inline(always)]
     fn size_hint(&self) -> (usize, Option<usize>) {
         let mut curr = self.current.clone();
-        let mut len = 1;
+        // the current edge was already yielded unless this is the first one
+        let mut len = if self.is_first { 1 } else { 0 };
         while curr.next(self.mesh).id() != self.first {
             len += 1;
             curr = curr.next(self.mesh);
-- 
2.43.0


From 3d9513561253748c0cc7af7a5d2bfbda13b91536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 02/52] fix: flipping an edge next to a vertex of degree one
 kept no valid links

---
 src/halfedge/edge/halfedge.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/halfedge/edge/halfedge.rs b/src/halfedge/edge/halfedge.rs
index 18921e4..1733ad3 100644
--- a/src/halfedge/edge/halfedge.rs
+++ b/src/halfedge/edge/halfedge.rs
@@ -145,6 +145,19 @@ impl<T: HalfEdgeImplMeshType> HalfEdge<T> for HalfEdgeImpl<T> {
         let t_prev_id = twin.prev;
         let t_face_id = twin.face_id();
 
+        // At vertices of degree one the edge and its twin are neighbors and hence swap as well
+        let swap = |id: T::E| {
+            if id == e {
+                twin_id
+            } else if id == twin_id {
+                e
+            } else {
+                id
+            }
+        };
+        let (next_id, prev_id) = (swap(next_id), swap(prev_id));
+        let (t_next_id, t_prev_id) = (swap(t_next_id), swap(t_prev_id));
+
         let edge = mesh.edge_mut(e);
         edge.next = t_next_id;
         edge.prev = t_prev_id;
-- 
2.43.0


From ce5a1b3d8914ceca34e21b49d94f5e5b21376b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:37 +0000
Subject: [PATCH 03/52] fix: inserting vertices into an edge whose origin has
 not exactly two edges broke the mesh

---
 src/halfedge/mesh/builder/builder.rs | 51 +++++++++++++++-------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/halfedge/mesh/builder/builder.rs b/src/halfedge/mesh/builder/builder.rs
index 4f10605..d04c6da 100644
--- a/src/halfedge/mesh/builder/builder.rs
+++ b/src/halfedge/mesh/builder/builder.rs
@@ -2,8 +2,8 @@ use crate::{
     halfedge::{HalfEdgeFaceImpl, HalfEdgeImplMeshType, HalfEdgeMeshImpl},
     math::IndexType,
     mesh::{
-        DefaultEdgePayload, DefaultFacePayload, EdgeBasics, FaceBasics, HalfEdge, HalfEdgeVertex,
-        MeshBasics, MeshBuilder, MeshHalfEdgeBuilder,
+        DefaultEdgePayload, DefaultFacePayload, EdgeBasics, FaceBasics, HalfEdge, HalfEdgeSemiBuilder,
+        HalfEdgeVertex, MeshBasics, MeshBuilder, MeshHalfEdgeBuilder,
     },
 };
 
@@ -122,33 +122,38 @@ impl<T: HalfEdgeImplMeshType> MeshBuilder<T> for HalfEdgeMeshImpl<T> {
         ps: I,
     ) -> T::E {
         let twin_id = self.edge(e).twin_id();
-        let mut current = self.edge(e).prev_id();
-        let mut current_twin = self.edge(twin_id).next_id();
         let f1 = self.edge(e).face_id();
         let f2 = self.edge(twin_id).face_id();
-        let mut last_v = self.edge(e).origin_id();
-        let mut first = true;
+        let mut first = e;
         for (ep1, ep2, vp) in ps {
-            let (v, e1, e2) =
-                self.add_vertex_via_edge(current, self.edge(current).twin_id(), vp, ep1, ep2);
-            current = e1;
-            current_twin = e2;
-            last_v = v;
-            self.edge_mut(current).set_face(f1);
-            self.edge_mut(current_twin).set_face(f2);
-            if first {
-                self.vertex_mut(self.edge(e).origin_id()).set_edge(e1);
-                first = false;
+            let v = self.vertices.allocate();
+            let origin = self.edge(e).origin_id();
+            let prev = self.edge(e).prev_id();
+            let next = self.edge(twin_id).next_id();
+
+            // If the origin has no other edges, the new edges are neighbors of each other
+            let is_end = prev == twin_id;
+            let (e1, e2) = self.insert_edge_no_update_no_check(
+                (e, if is_end { IndexType::max() } else { prev }, origin, f1, ep1),
+                (if is_end { IndexType::max() } else { next }, twin_id, v, f2, ep2),
+            );
+            self.vertices.set(v, T::Vertex::new(e2, vp));
+
+            if !is_end {
+                self.edge_mut(prev).set_next(e1);
+                self.edge_mut(next).set_prev(e2);
             }
-        }
+            self.edge_mut(e).set_prev(e1);
+            self.edge_mut(e).set_origin(v);
+            self.edge_mut(twin_id).set_next(e2);
 
-        self.edge_mut(current).set_next(e);
-        self.edge_mut(e).set_prev(current);
-        self.edge_mut(current_twin).set_prev(twin_id);
-        self.edge_mut(twin_id).set_next(current_twin);
-        self.edge_mut(e).set_origin(last_v);
+            if first == e {
+                self.vertex_mut(origin).set_edge(e1);
+                first = e1;
+            }
+        }
 
-        return e;
+        return first;
     }
 
     fn add_vertex(&mut self, vp: T::VP) -> T::V {
-- 
2.43.0


From 6ec8fbebec7f690cd05a5437a584e037193ade62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 04/52] fix: weighted Laplacian used unweighted degrees

---
 src/mesh/mesh/netsci.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh/netsci.rs b/src/mesh/mesh/netsci.rs
index 2921fd4..11e67c0 100644
--- a/src/mesh/mesh/netsci.rs
+++ b/src/mesh/mesh/netsci.rs
@@ -85,7 +85,12 @@ pub trait NetworkScience<T: MeshType<Mesh = Self>>: MeshBasics<T> {
     where
         T: EuclideanMeshType<D>,
     {
-        self.degree_matrix() - self.adjacency_matrix_euclidean::<D>()
+        // the diagonal holds the weighted degrees
+        let mut lap = -self.adjacency_matrix_euclidean::<D>();
+        for i in 0..lap.nrows() {
+            lap[(i, i)] = -lap.row(i).sum();
+        }
+        lap
     }
 }
 
-- 
2.43.0


From d09c0dc11763e033656e91f8c10811b31368fbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:06 +0000
Subject: [PATCH 05/52] fix: mesh conversion panicked on isolated vertices and
 lost the curved flag of faces

---
 src/halfedge/mesh/builder/halfedge.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/halfedge/mesh/builder/halfedge.rs b/src/halfedge/mesh/builder/halfedge.rs
index de52dcb..94857e5 100644
--- a/src/halfedge/mesh/builder/halfedge.rs
+++ b/src/halfedge/mesh/builder/halfedge.rs
@@ -350,6 +350,8 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
             face_map.insert(face.id(), f);
         }
         let mut edge_map = std::collections::HashMap::new();
+        // isolated vertices have no edge
+        edge_map.insert(IndexType::max(), IndexType::max());
         for edge in MeshBasics::edges(mesh) {
             let e = res.halfedges.allocate();
             edge_map.insert(edge.id(), e);
@@ -370,7 +372,7 @@ impl<T: HalfEdgeImplMeshType> HalfEdgeMeshImpl<T> {
                 face_map[&face.id()],
                 HalfEdgeFaceImpl::new(
                     edge_map[&FaceBasics::edge_id(face)],
-                    false,
+                    FaceBasics::may_be_curved(face),
                     ff(face.payload()),
                 ),
             );
-- 
2.43.0


From 20134f9d5a04384dc4a458b2df838085a9867a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:07 +0000
Subject: [PATCH 06/52] fix: identical-ids comparison looked into the wrong
 mesh and ignored the edge order around vertices

---
 src/mesh/mesh/basics.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 346eb3c..e08f7d9 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -355,30 +355,53 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
         }
 
         for v in self.vertices() {
+            if !other.has_vertex(v.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingVertex;
+            }
             let other_v = other.vertex(v.id());
             if v.id() != other_v.id() || !compare_vertex(v, other_v) {
                 return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
             }
         }
 
+        let other_edges: HashSet<T::E> = other.edge_ids().collect();
         for e in self.edges() {
+            if !other_edges.contains(&e.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingEdge(e.id());
+            }
             let other_e = other.edge(e.id());
             if e.id() != other_e.id()
-                || e.origin(self).id() != other_e.origin(self).id()
-                || e.target(self).id() != other_e.target(self).id()
+                || e.origin(self).id() != other_e.origin(other).id()
+                || e.target(self).id() != other_e.target(other).id()
                 || !compare_edge(e, other_e)
             {
                 return MeshEquivalenceDifference::DifferentEdges(e.id(), other_e.id());
             }
         }
 
+        // the edge wheels must agree as well
+        for v in self.vertices() {
+            let other_v = other.vertex(v.id());
+            let wheel = v.edges_out(self).map(|e| e.id()).collect_vec();
+            let other_wheel = other_v.edges_out(other).map(|e| e.id()).collect_vec();
+            if wheel.len() != other_wheel.len()
+                || !(wheel.is_empty() || equal_up_to_rotation(&wheel, &other_wheel))
+            {
+                return MeshEquivalenceDifference::DifferentVertices(v.id(), other_v.id());
+            }
+        }
+
+        let other_faces: HashSet<T::F> = other.face_ids().collect();
         for f in self.faces() {
+            if !other_faces.contains(&f.id()) {
+                return MeshEquivalenceDifference::NoCorrespondingFace(f.id());
+            }
             let other_f = other.face(f.id());
             if f.id() != other_f.id()
-                || f.num_vertices(self) != other_f.num_vertices(self)
+                || f.num_vertices(self) != other_f.num_vertices(other)
                 || !equal_up_to_rotation(
                     &f.edge_ids(self).collect_vec(),
-                    &other_f.edge_ids(self).collect_vec(),
+                    &other_f.edge_ids(other).collect_vec(),
                 )
                 || !compare_face(f, other_f)
             {
-- 
2.43.0


From 4946fca33322e6aed143eef113c4a3b0de934a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 07/52] fix: is_isomorphic_pos compared ids although it is
 documented to match vertices by position

---
 src/mesh/mesh/basics.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index e08f7d9..2b5236c 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -476,12 +476,7 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
     where
         T::VP: HasPosition<D, Vec, S = S>,
     {
-        self.is_trivially_isomorphic_ex(
-            other,
-            |a, b| a.pos().is_about(&b.pos(), eps),
-            |_, _| true,
-            |_, _| true,
-        )
+        self.is_isomorphic_by_pos::<S, D, Vec, T>(other, eps)
     }
 
     /// Same as `is_trivially_isomorphic_pos`, but also checks control points of curved edges.
-- 
2.43.0


From a944b08ea813b79ebf1c7d66a0c8e74fb5172269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 08/52] fix: rotation between antiparallel 3d vectors panicked,
 e.g., when triangulating faces looking down

---
 src/extensions/nalgebra/math/rotate.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/extensions/nalgebra/math/rotate.rs b/src/extensions/nalgebra/math/rotate.rs
index f3ecdbd..326e4cd 100644
--- a/src/extensions/nalgebra/math/rotate.rs
+++ b/src/extensions/nalgebra/math/rotate.rs
@@ -98,14 +98,19 @@ impl<S: Scalar, const D: usize> NdRotate<S, D> {
                 rot: None,
             }
         } else if D == 3 {
+            let from = from.fixed_rows::<3>(0).into_owned();
+            let to = to.fixed_rows::<3>(0).into_owned();
             Self {
                 rot2: None,
                 rot3: Some(
-                    nalgebra::Rotation3::rotation_between(
-                        &from.fixed_rows::<3>(0).into_owned(),
-                        &to.fixed_rows::<3>(0).into_owned(),
-                    )
-                    .expect("Failed to create rotation"),
+                    nalgebra::Rotation3::rotation_between(&from, &to).unwrap_or_else(|| {
+                        // the vectors are antiparallel: use half a turn around any perpendicular axis
+                        let axis = from.cross(&nalgebra::Vector3::ith(from.iamin(), S::ONE));
+                        nalgebra::Rotation3::from_axis_angle(
+                            &nalgebra::Unit::new_normalize(axis),
+                            S::PI,
+                        )
+                    }),
                 ),
                 rot: None,
             }
-- 
2.43.0


From 4f31ffa1826582f4624645608e4092cb7506a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 09/52] fix: ear clipping got stuck on clipped vertices lying
 on the remaining boundary

---
 src/tesselate/ear_clipping.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tesselate/ear_clipping.rs b/src/tesselate/ear_clipping.rs
index 5e9a0c4..a69c1c6 100644
--- a/src/tesselate/ear_clipping.rs
+++ b/src/tesselate/ear_clipping.rs
@@ -31,13 +31,16 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
     let eps = <Vec2::S as Scalar>::EPS * 2.0.into();
     let mut success_since_fail = 0;
 
-    let triangle_empty = |a: usize, b: usize, c: usize| {
+    // clipped vertices aren't part of the remaining polygon but might lie on its boundary
+    let triangle_empty = |a: usize, b: usize, c: usize, clipped: &[bool]| {
         let av = vs[a].0;
         let bv = vs[b].0;
         let cv = vs[c].0;
         vs.iter()
             .enumerate()
-            .all(|(i, v)| i == a || i == b || i == c || !v.0.is_inside_triangle(av, bv, cv))
+            .all(|(i, v)| {
+                i == a || i == b || i == c || clipped[i] || !v.0.is_inside_triangle(av, bv, cv)
+            })
     };
 
     let n0 = vs.len();
@@ -67,7 +70,7 @@ pub fn ear_clipping_direct<Vec2: Vector2D, V: IndexType>(
 
         // cut the ear off
         if !vs[i_b].0.convex(vs[i_a].0, vs[i_c].0)
-                || !triangle_empty(i_a, i_b, i_c)
+                || !triangle_empty(i_a, i_b, i_c, &clipped)
                 // if there are nearly collinear points, we can't cut the ear, because triangle_empty could block any progress afterwards
                 || (success_since_fail >= 2 &&vs[i_b].0.collinear(vs[i_a].0, vs[i_c].0, eps))
         {
-- 
2.43.0


From 313a59d708d69b12265593bf2419d6b7581936c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 10/52] fix: the shorter-diagonal branch of min_weight_quad
 tested the convexity with swapped arguments

---
 src/tesselate/fixed_n.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/tesselate/fixed_n.rs b/src/tesselate/fixed_n.rs
index 92e9007..e3f0046 100644
--- a/src/tesselate/fixed_n.rs
+++ b/src/tesselate/fixed_n.rs
@@ -65,11 +65,9 @@ pub fn min_weight_quad<V: IndexType, Vec2: Vector2D, Poly: Polygon<Vec2>>(
     let weight_diagonal_0_2 = vs[0].vec.distance_squared(&vs[2].vec);
     let weight_diagonal_1_3 = vs[1].vec.distance_squared(&vs[3].vec);
 
-    // TODO: Are the convexity checks correct? Or do they check the exact opposite?
-
     if weight_diagonal_0_2 <= weight_diagonal_1_3 {
         let vs1_3_convex =
-            vs[1].vec.convex(vs[2].vec, vs[0].vec) && vs[3].vec.convex(vs[0].vec, vs[2].vec);
+            vs[1].vec.convex(vs[0].vec, vs[2].vec) && vs[3].vec.convex(vs[2].vec, vs[0].vec);
         if vs1_3_convex {
             // insert the diagonal 0-2
             indices.insert_triangle(vs[0].index, vs[1].index, vs[2].index);
-- 
2.43.0


From ad975a3ceb12ed3df59c58cbc9e5b25c19757450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 11/52] fix: sweep-line splits connected the split vertex to
 vertices it cannot see and misplaced level start vertices

---
 src/tesselate/sweep/status.rs | 16 ++++++++--------
 src/tesselate/sweep/sweep.rs  | 32 +++++++++++---------------------
 2 files changed, 19 insertions(+), 29 deletions(-)

diff --git a/src/tesselate/sweep/status.rs b/src/tesselate/sweep/status.rs
index 131a7c9..d27a6cf 100644
--- a/src/tesselate/sweep/status.rs
+++ b/src/tesselate/sweep/status.rs
@@ -238,6 +238,13 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             .next()
             .map(|sorter| sorter.left);
 
+        // The closest interval to the left might still end before the position
+        let x = x.filter(|i| {
+            self.left[*i]
+                .as_ref()
+                .map_or(false, |v| v.contains(pos, vec2s))
+        });
+
         debug_assert!(
             x == self.find_linearly(pos, vec2s),
             "The binary search did not return the same result as the linear search. {:?} != {:?}
@@ -250,14 +257,7 @@ impl<MT: MonotoneTriangulator> SweepLineStatus<MT> {
             self.tree,
         );
 
-        if let Some(i) = x {
-            if let Some(v) = &self.left[i] {
-                if v.contains(pos, vec2s) {
-                    return x;
-                }
-            }
-        }
-        None
+        x
     }
 
     /// Delayed initialization of the b-tree
diff --git a/src/tesselate/sweep/sweep.rs b/src/tesselate/sweep/sweep.rs
index 48acda5..73be5d4 100644
--- a/src/tesselate/sweep/sweep.rs
+++ b/src/tesselate/sweep/sweep.rs
@@ -126,38 +126,28 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
         let line = self.sls.remove_left(i, &self.vec2s).unwrap();
         assert!(!line.is_end(), "A split vertex must not be an end vertex");
 
-        let stacks = if let Some(mut fixup) = line.fixup {
+        // Connect the split vertex to the helper. Only the part that does not contain the
+        // current chain starts with a new chain. The split vertex might not see any other vertex.
+        let (mut left_chain, mut right_chain) = if let Some(fixup) = line.fixup {
             #[cfg(feature = "sweep_debug_print")]
             println!("fixup split: {}", fixup);
 
-            let t = fixup.last_opposite();
-
-            fixup.right(event.here, self.tri, self.vec2s);
-            fixup.finish(self.tri, self.vec2s);
-
-            let mut x = MT::new(t);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            // the diagonal to the merge vertex separates both parts
+            (line.chain, fixup)
         } else if line.chain.is_right() {
-            let mut x = MT::new(line.helper);
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (line.chain, MT::new(line.helper))
         } else {
-            let mut x = MT::new(line.chain.last_opposite());
-            x.left(event.here, self.tri, self.vec2s);
-            x
+            (MT::new(line.helper), line.chain)
         };
+        left_chain.right(event.here, self.tri, self.vec2s);
+        right_chain.left(event.here, self.tri, self.vec2s);
 
         self.sls.insert(
             SweepLineInterval {
                 helper: event.here,
                 left: line.left,
                 right: IntervalBoundaryEdge::new(event.here, event.prev),
-                chain: {
-                    let mut x = line.chain;
-                    x.right(event.here, self.tri, self.vec2s);
-                    x
-                },
+                chain: left_chain,
                 fixup: None,
             },
             self.vec2s,
@@ -168,7 +158,7 @@ impl<'a, 'b, MT: MonotoneTriangulator> SweepContext<'a, 'b, MT> {
                 helper: event.here,
                 left: IntervalBoundaryEdge::new(event.here, event.next),
                 right: line.right,
-                chain: stacks,
+                chain: right_chain,
                 fixup: None,
             },
             self.vec2s,
-- 
2.43.0


From c7a84b99e13a81a61ccb8b6cffcbe1773315d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 12/52] fix: sweep-line emitted triangles without area on
 collinear chains

---
 src/tesselate/sweep/monotone/delaunay.rs | 4 ++--
 src/tesselate/sweep/monotone/linear.rs   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/tesselate/sweep/monotone/delaunay.rs b/src/tesselate/sweep/monotone/delaunay.rs
index 850eca0..07cb74a 100644
--- a/src/tesselate/sweep/monotone/delaunay.rs
+++ b/src/tesselate/sweep/monotone/delaunay.rs
@@ -294,7 +294,7 @@ impl<V: IndexType, Vec2: Vector2D> DelaunayMonoTriangulator<V, Vec2> {
                 .angle_tri(vec2s[self.stack[l - 1]].vec, vec2s[self.stack[l - 2]].vec);
 
             if d == ChainDirection::Left {
-                if angle > Vec2::S::ZERO {
+                if angle >= Vec2::S::ZERO {
                     break;
                 }
                 // Insert triangle: (stack[l-2], stack[l-1], value)
@@ -312,7 +312,7 @@ impl<V: IndexType, Vec2: Vector2D> DelaunayMonoTriangulator<V, Vec2> {
                     [self.stack[l - 2], self.stack[l - 1], value],
                 );
             } else {
-                if angle < Vec2::S::ZERO {
+                if angle <= Vec2::S::ZERO {
                     break;
                 }
                 self.insert_triangle_local(
diff --git a/src/tesselate/sweep/monotone/linear.rs b/src/tesselate/sweep/monotone/linear.rs
index 638b417..b378bbe 100644
--- a/src/tesselate/sweep/monotone/linear.rs
+++ b/src/tesselate/sweep/monotone/linear.rs
@@ -86,13 +86,13 @@ impl<V: IndexType, Vec2: Vector2D> LinearMonoTriangulator<V, Vec2> {
 
             if d == ChainDirection::Left {
                 // Stop when the angle indicates the triangle is no longer visible.
-                if angle > Vec2::S::ZERO {
+                if angle >= Vec2::S::ZERO {
                     break;
                 }
                 indices.insert_triangle_local(self.stack[l - 1], value, self.stack[l - 2], vec2s);
             } else {
                 // For right chains, stop when the angle is no longer valid.
-                if angle < Vec2::S::ZERO {
+                if angle <= Vec2::S::ZERO {
                     break;
                 }
                 indices.insert_triangle_local(self.stack[l - 1], self.stack[l - 2], value, vec2s);
-- 
2.43.0


From 51b1ab0c6807c80f2054ee2e0ac2c4ab2f4cfd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 13/52] fix: zero is neither strictly positive nor strictly
 negative

---
 src/math/impls/f32.rs | 4 ++--
 src/math/impls/f64.rs | 4 ++--
 src/math/vector2d.rs  | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/math/impls/f32.rs b/src/math/impls/f32.rs
index 77f8ea8..913589d 100644
--- a/src/math/impls/f32.rs
+++ b/src/math/impls/f32.rs
@@ -19,12 +19,12 @@ impl Scalar for f32 {
 
     #[inline(always)]
     fn is_positive(self) -> bool {
-        self.is_sign_positive()
+        self > 0.0
     }
 
     #[inline(always)]
     fn is_negative(self) -> bool {
-        self.is_sign_negative()
+        self < 0.0
     }
 
     #[inline(always)]
diff --git a/src/math/impls/f64.rs b/src/math/impls/f64.rs
index 93c6f3a..c1c9693 100644
--- a/src/math/impls/f64.rs
+++ b/src/math/impls/f64.rs
@@ -19,12 +19,12 @@ impl Scalar for f64 {
 
     #[inline(always)]
     fn is_positive(self) -> bool {
-        self.is_sign_positive()
+        self > 0.0
     }
 
     #[inline(always)]
     fn is_negative(self) -> bool {
-        self.is_sign_negative()
+        self < 0.0
     }
 
     #[inline(always)]
diff --git a/src/math/vector2d.rs b/src/math/vector2d.rs
index 9060ad9..811126b 100644
--- a/src/math/vector2d.rs
+++ b/src/math/vector2d.rs
@@ -40,7 +40,7 @@ pub trait Vector2D: Vector<Self::S, 2> {
         self.x() * other.y() - self.y() * other.x()
     }
 
-    /// Whether the point is inside the triangle.
+    /// Whether the point is inside the triangle or on its boundary.
     #[inline(always)]
     fn is_inside_triangle(&self, a: Self, b: Self, c: Self) -> bool {
         // TODO: Numerical robustness
@@ -48,8 +48,8 @@ pub trait Vector2D: Vector<Self::S, 2> {
         let bs1 = Self::barycentric_sign(*self, a, b);
         let bs2 = Self::barycentric_sign(*self, b, c);
         let bs3 = Self::barycentric_sign(*self, c, a);
-        let inside_ccw = bs1.is_positive() && bs2.is_positive() && bs3.is_positive();
-        let inside_cw = bs1.is_negative() && bs2.is_negative() && bs3.is_negative();
+        let inside_ccw = !bs1.is_negative() && !bs2.is_negative() && !bs3.is_negative();
+        let inside_cw = !bs1.is_positive() && !bs2.is_positive() && !bs3.is_positive();
         inside_ccw || inside_cw
     }
 
-- 
2.43.0


From c88df0fccc1eefcb2876925978b49fc0d8a09626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 14/52] fix: NdAffine::with_scale applied a non-uniform scale
 before the rotation but after the translation

---
 src/extensions/nalgebra/math/transform_n.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions/nalgebra/math/transform_n.rs b/src/extensions/nalgebra/math/transform_n.rs
index a4c718c..4db28ee 100644
--- a/src/extensions/nalgebra/math/transform_n.rs
+++ b/src/extensions/nalgebra/math/transform_n.rs
@@ -91,7 +91,7 @@ impl<S: ScalarPlus, const D: usize> TransformTrait<S, D> for NdAffine<S, D> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         Self {
-            matrix: self.matrix * SMatrix::<S, D, D>::from_diagonal(&v),
+            matrix: SMatrix::<S, D, D>::from_diagonal(&v) * self.matrix,
             translation: self.translation.component_mul(&v),
         }
     }
-- 
2.43.0


From 2026666b2811de80b56787c96051e8d99f8b7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 15/52] fix: closing an open path panicked instead of drawing
 the last line

---
 src/mesh/mesh/path_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index 4b1e395..f182efe 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -221,12 +221,11 @@ where
             return self.mesh().close_hole(start_inner, fp, false);
         }
 
-        self.closed = true;
-
         let Some((current_inner, current_outer)) = self.current_edges() else {
             // The current vertex doesn't have any edges yet.
             assert!(self.start_edges().is_none());
             assert!(self.start_vertex() == self.current_vertex());
+            self.closed = true;
             return IndexType::max();
         };
         let Some((start_inner, _start_outer)) = self.start_edges() else {
@@ -248,6 +247,7 @@ where
             //self.mesh().close
             self.line_to(self.start_vertex());
         }
+        self.closed = true;
 
         // TODO: is this necessary or not? Generally, is the correction above correct? Or is the winding in the opposite direction?
         /*debug_assert!(self
-- 
2.43.0


From c961aeddaca16309b6ac6bd0e05e9236f5a50601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 16/52] fix: edge weight and verification of a Triangulation
 that starts inside a longer index list skipped triangles

---
 src/mesh/triangulation.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 2e60803..c122812 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -179,7 +179,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Check for non-degenerate triangles (no zero-area triangles)
     pub fn verify_non_degenerate_triangle<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) {
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let area = self.get_triangle_area(i, vec_hm);
             /*assert!(
                 area.abs() > Vec2::S::ZERO,
@@ -228,8 +228,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
             );
         }*/
 
-        for i in (self.start..num_vertices).step_by(3) {
-            for j in (self.start..num_vertices).step_by(3) {
+        for i in (0..num_vertices).step_by(3) {
+            for j in (0..num_vertices).step_by(3) {
                 if i == j {
                     continue;
                 }
@@ -292,7 +292,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
     /// Calculate the total edge weight of the triangulation
     pub fn total_edge_weight<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
         let mut total = Vec2::S::ZERO;
-        for i in self.start..self.len() {
+        for i in 0..self.len() {
             let (i1, i2, i3) = self.get_triangle(i);
             let v0 = vec_hm[&i1];
             let v1 = vec_hm[&i2];
-- 
2.43.0


From 2a450571c4f1e50c51fef84fffa43af2f7856109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 17/52] fix: Triangulation::verify_area accepted areas up to
 twice the polygon's area

---
 src/mesh/triangulation.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index c122812..56661b7 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -313,8 +313,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
         // Check if the area of the polygon is the same as the sum of the areas of the triangles
         assert!(
-            (Vec2::S::ONE - area / reference).abs()
-                <= (Vec2::S::ONE + Vec2::S::from_usize(5) * Vec2::S::EPS),
+            (area - reference).abs() <= reference * Vec2::S::EPS.sqrt(),
             "Area of the polygon is not equal to the sum of the areas of the triangles ({} != {})",
             area,
             reference
-- 
2.43.0


From adccfe6de85b75ee590a6b2309c24c784858f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 18/52] fix: Triangulation::get_triangle_area returned twice
 the area

---
 src/mesh/triangulation.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mesh/triangulation.rs b/src/mesh/triangulation.rs
index 56661b7..72cc7a1 100644
--- a/src/mesh/triangulation.rs
+++ b/src/mesh/triangulation.rs
@@ -81,7 +81,7 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         )
     }
 
-    /// Get the area of a triangle in the triangulation
+    /// Get the signed area of a triangle in the triangulation (positive if it is counter-clockwise)
     pub fn get_triangle_area<Vec2: Vector2D>(
         &self,
         i: usize,
@@ -93,7 +93,8 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
         let v2 = vec_hm[&i3];
 
         // Use the determinant to calculate the area of the triangle
-        (v1.x() - v0.x()) * (v2.y() - v0.y()) - (v1.y() - v0.y()) * (v2.x() - v0.x())
+        Vec2::S::HALF
+            * ((v1.x() - v0.x()) * (v2.y() - v0.y()) - (v1.y() - v0.y()) * (v2.x() - v0.x()))
     }
 
     /// Insert a triangle into the triangulation using local indices
@@ -282,11 +283,10 @@ impl<'a, V: IndexType> Triangulation<'a, V> {
 
     /// Sum the area of all triangles added to the index buffer since the triangulation was created
     pub fn get_area<Vec2: Vector2D>(&self, vec_hm: &HashMap<V, Vec2>) -> Vec2::S {
-        Vec2::S::HALF
-            * (0..self.len())
-                .into_iter()
-                .map(|i| self.get_triangle_area(i, vec_hm).abs())
-                .stable_sum()
+        (0..self.len())
+            .into_iter()
+            .map(|i| self.get_triangle_area(i, vec_hm).abs())
+            .stable_sum()
     }
 
     /// Calculate the total edge weight of the triangulation
-- 
2.43.0


From 0b01a9331606a001dbf3b7097f9d63b85a3312e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 19/52] fix: smooth normals of vertices without faces were not
 a number

---
 src/mesh/mesh/normals.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mesh/mesh/normals.rs b/src/mesh/mesh/normals.rs
index c4aeb54..4d51bbf 100644
--- a/src/mesh/mesh/normals.rs
+++ b/src/mesh/mesh/normals.rs
@@ -53,16 +53,22 @@ pub trait WithNormals<
 
         let normals = MeshBasics::vertices(self)
             .map(|v| {
-                v.faces(self)
-                    .map(|f| face_normals[&f.id()])
-                    .stable_mean()
-                    .normalize()
+                // vertices without faces don't have a normal
+                v.faces(self).next()?;
+                Some(
+                    v.faces(self)
+                        .map(|f| face_normals[&f.id()])
+                        .stable_mean()
+                        .normalize(),
+                )
             })
             .collect::<Vec<_>>();
 
         self.vertices_mut().enumerate().for_each(|(i, v)| {
             // set the average of face normals for each vertex
-            v.payload_mut().set_normal(normals[i]);
+            if let Some(normal) = normals[i] {
+                v.payload_mut().set_normal(normal);
+            }
         });
 
         self
-- 
2.43.0


From 71fa1edd3f3ad70d61825f8afc3737b2566ada73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 20/52] fix: faces with alternating convex and reflex corners
 were reported convex

---
 src/mesh/face/face3d.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index aaef6ef..81240dd 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -24,12 +24,10 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
 
     /// Whether the face is convex. Ignores order.
     fn is_convex(&self, mesh: &T::Mesh) -> bool {
-        // TODO: is this correct?
         // TODO: collinear points cause problems
+        let normal = self.vertices(mesh).map(|v| v.pos()).normal();
         self.vertices_crossed(mesh)
-            .circular_tuple_windows::<(_, _)>()
-            .map(|w| w.0.dot(&w.1).is_positive())
-            .all_equal()
+            .all(|c| c.dot(&normal).is_positive())
     }
 
     /// Whether the face is planar.
-- 
2.43.0


From c5e5ebe3c926073be34faa43b551cfe61f126437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:41 +0000
Subject: [PATCH 21/52] fix: is_planar accepted every face starting with
 collinear vertices and depended on the size of the face

---
 src/mesh/face/face3d.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/mesh/face/face3d.rs b/src/mesh/face/face3d.rs
index 81240dd..03559d8 100644
--- a/src/mesh/face/face3d.rs
+++ b/src/mesh/face/face3d.rs
@@ -1,7 +1,7 @@
 use super::basics::FaceBasics;
 use crate::{
     math::{LineSegment2D, Polygon, Scalar, TransformTrait, Vector, Vector3D, Vector3DIteratorExt},
-    mesh::{IndexedVertex2D, MeshType3D, VertexBasics},
+    mesh::{EdgeBasics, IndexedVertex2D, MeshType3D, VertexBasics},
 };
 use itertools::Itertools;
 
@@ -32,16 +32,21 @@ pub trait Face3d<T: MeshType3D<Face = Self>>: FaceBasics<T> {
 
     /// Whether the face is planar.
     fn is_planar(&self, mesh: &T::Mesh, eps: T::S) -> bool {
-        // TODO: is this correct?
-        // TODO: collinear points cause problems
-
-        let three: Vec<_> = self.vertices(mesh).take(3).map(|v| v.pos()).collect();
-        let n = (three[1] - three[0]).cross(&(three[2] - three[0]));
+        // corners with collinear or almost collinear neighbors don't tell the plane
+        let n = self
+            .vertices_crossed(mesh)
+            .fold(T::Vec::zero(), |a, b| {
+                if b.length_squared() > a.length_squared() {
+                    b
+                } else {
+                    a
+                }
+            })
+            .normalize();
+        let origin = self.edge(mesh).origin(mesh).pos();
 
-        self.vertices(mesh).skip(2).all(|v| {
-            let v = v.pos();
-            (v - three[0]).dot(&n).abs() < eps
-        })
+        self.vertices(mesh)
+            .all(|v| (v.pos() - origin).dot(&n).abs() < eps)
     }
 
     /// Whether the face is planar.
-- 
2.43.0


From 9c9b5603bc451d09928dc2c7405f5fc725a1ee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 22/52] fix: edges of other faces between a face's vertices
 don't tell whether a triangle is part of the face

---
 src/halfedge/face/mod.rs | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/halfedge/face/mod.rs b/src/halfedge/face/mod.rs
index d5efd13..80439a8 100644
--- a/src/halfedge/face/mod.rs
+++ b/src/halfedge/face/mod.rs
@@ -102,24 +102,17 @@ impl<T: HalfEdgeImplMeshType> Face for HalfEdgeFaceImpl<T> {
         v1: T::V,
         v2: T::V,
     ) -> Option<bool> {
-        if let Some(e) = mesh.shared_edge(v0, v1) {
-            // it has a common halfedge with another face. That means, it cannot be part of *this* face.
-            if e.face_id() != self.id() {
-                return Some(false);
+        for (v, w) in [(v0, v1), (v1, v2), (v2, v0)] {
+            if let Some(e) = mesh.shared_edge(v, w) {
+                if e.face_id() == self.id() {
+                    return Some(true);
+                }
+                // it is on the other side of an edge of this face. That means, it cannot be part of *this* face.
+                if e.twin(mesh).face_id() == self.id() {
+                    return Some(false);
+                }
+                // an edge of other faces that connects two vertices of this face doesn't tell anything
             }
-            return Some(!e.is_boundary_self());
-        }
-        if let Some(e) = mesh.shared_edge(v1, v2) {
-            if e.face_id() != self.id() {
-                return Some(false);
-            }
-            return Some(!e.is_boundary_self());
-        }
-        if let Some(e) = mesh.shared_edge(v2, v0) {
-            if e.face_id() != self.id() {
-                return Some(false);
-            }
-            return Some(!e.is_boundary_self());
         }
 
         return None;
-- 
2.43.0


From 4b2930614a1d8d77e23dc69f17bf3dd46bdee7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 23/52] fix: evaluate sweep line edges exactly at their end

---
 src/tesselate/sweep/interval.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tesselate/sweep/interval.rs b/src/tesselate/sweep/interval.rs
index d5777e9..aec4708 100644
--- a/src/tesselate/sweep/interval.rs
+++ b/src/tesselate/sweep/interval.rs
@@ -25,8 +25,9 @@ impl IntervalBoundaryEdge {
         let s = vec2s[self.start].vec;
         let dx = e.x() - s.x();
         let dy = e.y() - s.y();
-        if dy == Vec2::S::ZERO {
+        if dy == Vec2::S::ZERO || y == e.y() {
             // when parallel to the sweep line, we can just use the x-coordinate of the end vertex
+            // avoid rounding errors at the end where the edges of an interval meet
             e.x()
         } else {
             s.x() + dx * (y - s.y()) / dy
-- 
2.43.0


From 37ab2ec8f8d282db35984c0900c1af42a79e57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:43 +0000
Subject: [PATCH 24/52] fix: flatten_curved_edges left edges curved that are
 straight within the tolerance

---
 src/mesh/mesh/basics.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mesh/mesh/basics.rs b/src/mesh/mesh/basics.rs
index 2b5236c..a6b96db 100644
--- a/src/mesh/mesh/basics.rs
+++ b/src/mesh/mesh/basics.rs
@@ -176,14 +176,13 @@ pub trait MeshBasics<T: MeshType<Mesh = Self>>: Default + std::fmt::Debug + Clon
             let edge = self.edge(*e);
             if edge.curve_type() != CurvedEdgeType::Linear {
                 let vs = edge.flatten_casteljau(tol, self);
-                if vs.len() == 0 {
-                    continue;
+                if vs.len() > 0 {
+                    self.insert_vertices_into_edge(
+                        *e,
+                        vs.iter()
+                            .map(|v| (T::EP::default(), T::EP::default(), T::VP::from_pos(*v))),
+                    );
                 }
-                self.insert_vertices_into_edge(
-                    *e,
-                    vs.iter()
-                        .map(|v| (T::EP::default(), T::EP::default(), T::VP::from_pos(*v))),
-                );
                 self.edge_mut(*e).set_curve_type(CurvedEdgeType::Linear);
             }
         }
-- 
2.43.0


From cf2b5db71a48c46af475ad5f8f1f6cbd596e0b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 25/52] fix: flattening accepted cubic curves crossing their
 chord in the middle

---
 src/mesh/edge/curved.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mesh/edge/curved.rs b/src/mesh/edge/curved.rs
index affa3a4..3cc46a2 100644
--- a/src/mesh/edge/curved.rs
+++ b/src/mesh/edge/curved.rs
@@ -98,9 +98,17 @@ pub trait CurvedEdge<const D: usize, T: EuclideanMeshType<D, Edge = Self>>: Edge
             let p0 = curve.point_at(edge, mesh, t0);
             let p1 = curve.point_at(edge, mesh, t1);
             let tm = (t0 + t1) / T::S::TWO;
-            let pm = curve.point_at(edge, mesh, tm);
-            let p_line = p0.lerped(&p1, T::S::HALF);
-            let deviation = pm.distance(&p_line);
+
+            // The difference to the line segment is `3*s*t*(s*a + t*b)` for some vectors `a` and `b`.
+            // Reconstruct them from the differences at 1/3 and 2/3 to get an upper bound for the whole
+            // segment. It is exact for quadratic curves. The middle alone is not enough since cubic
+            // curves can cross the line there.
+            let third = T::S::ONE / T::S::THREE;
+            let d1 = curve.point_at(edge, mesh, t0 + (t1 - t0) * third) - p0.lerped(&p1, third);
+            let d2 = curve.point_at(edge, mesh, t1 - (t1 - t0) * third) - p1.lerped(&p0, third);
+            let a = (d1 * T::S::TWO - d2).length();
+            let b = (d2 * T::S::TWO - d1).length();
+            let deviation = (if a > b { a } else { b }) * (T::S::from_usize(9) / T::S::from_usize(8));
 
             if deviation <= error {
                 // The segment is acceptable; push p1
-- 
2.43.0


From f4c18095ed769d3085e45c12bafd5c95a9ea6e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:44 +0000
Subject: [PATCH 26/52] fix: sweep line edges meeting in a vertex could cross
 there due to rounding

---
 src/tesselate/sweep/interval.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tesselate/sweep/interval.rs b/src/tesselate/sweep/interval.rs
index aec4708..b707f57 100644
--- a/src/tesselate/sweep/interval.rs
+++ b/src/tesselate/sweep/interval.rs
@@ -25,12 +25,15 @@ impl IntervalBoundaryEdge {
         let s = vec2s[self.start].vec;
         let dx = e.x() - s.x();
         let dy = e.y() - s.y();
-        if dy == Vec2::S::ZERO || y == e.y() {
+        if dy == Vec2::S::ZERO {
             // when parallel to the sweep line, we can just use the x-coordinate of the end vertex
-            // avoid rounding errors at the end where the edges of an interval meet
             e.x()
-        } else {
+        } else if (y - s.y()).abs() < (y - e.y()).abs() {
+            // start from the closer vertex: the edges of an interval meet
+            // in their vertices and shouldn't cross there due to rounding
             s.x() + dx * (y - s.y()) / dy
+        } else {
+            e.x() + dx * (y - e.y()) / dy
         }
     }
 
-- 
2.43.0


From 912c8ebfeb5c59483c0521d2a09e8dc820426687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 27/52] fix: closing an empty path claimed that it has a face

---
 src/mesh/mesh/path_builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh/path_builder.rs b/src/mesh/mesh/path_builder.rs
index f182efe..3d76208 100644
--- a/src/mesh/mesh/path_builder.rs
+++ b/src/mesh/mesh/path_builder.rs
@@ -214,9 +214,8 @@ where
         T::Mesh: MeshHalfEdgeBuilder<T>,
         T::EP: DefaultEdgePayload,
     {
-        self.has_face = true;
-
         if self.is_closed() {
+            self.has_face = true;
             let start_inner = self.start_edges().expect("The path is empty.").0;
             return self.mesh().close_hole(start_inner, fp, false);
         }
@@ -248,6 +247,7 @@ where
             self.line_to(self.start_vertex());
         }
         self.closed = true;
+        self.has_face = true;
 
         // TODO: is this necessary or not? Generally, is the correction above correct? Or is the winding in the opposite direction?
         /*debug_assert!(self
-- 
2.43.0


From 43597f1f669c4a2d640345e6129d09816161e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 28/52] fix: loop subdivision left boundary edges undivided and
 the mesh invalid

---
 src/operations/subdivision.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/operations/subdivision.rs b/src/operations/subdivision.rs
index 926aa8c..06f7ae3 100644
--- a/src/operations/subdivision.rs
+++ b/src/operations/subdivision.rs
@@ -56,6 +56,11 @@ where
     {
         // TODO: See https://github.com/OptimisticPeach/hexasphere
         let fs = self.faces().map(|f| f.id()).collect::<Vec<_>>();
+        let boundary = self
+            .edges()
+            .filter(|e| e.is_boundary_self())
+            .map(|e| e.id())
+            .collect::<Vec<_>>();
         for face in &fs {
             // get the edge chain
             let edges = self.face(*face).edges(self).collect::<Vec<_>>();
@@ -122,6 +127,11 @@ where
             self.close_hole(self.edge(edges[0].id()).next(self).twin_id(), fp, false);
         }
 
+        // there is no face on the other side of the boundary that would have done this
+        for e in boundary {
+            self.subdivide_unsafe_try_fixup(e, Default::default());
+        }
+
         self
     }
 
-- 
2.43.0


From 5fc07b872069c06ab8277da994f6a153741e10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 29/52] fix: polygon lofts closed early on boundaries visiting
 a vertex twice

---
 src/operations/loft.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/operations/loft.rs b/src/operations/loft.rs
index 0d2bf86..6efad92 100644
--- a/src/operations/loft.rs
+++ b/src/operations/loft.rs
@@ -179,10 +179,11 @@ where
 
         let mut iter = vp.into_iter();
         let mut input = start;
-        let start_vertex = self.edge(start).target_id(self);
-        if let Some(vp) = iter.next() {
-            self.add_vertex_via_edge_default(input, self.edge(start).next_id(), vp);
-        }
+        // walking back along the whole boundary ends at the edge leaving the first inserted vertex
+        let first = iter.next().map(|vp| {
+            self.add_vertex_via_edge_default(input, self.edge(start).next_id(), vp)
+                .0
+        });
 
         let mut ret = start;
         loop {
@@ -208,7 +209,7 @@ where
             }
 
             let Some(vp) = iter.next() else {
-                if start_vertex == self.edge(input).target_id(self) {
+                if first == Some(self.edge(input).origin_id()) {
                     // reached the start again - close the last vertex!
                     self.close_face_default(inside, self.edge(input).prev_id(), false);
                 }
@@ -251,10 +252,11 @@ where
 
         let mut iter = vp.into_iter();
         let mut input = start;
-        let start_vertex = self.edge(start).origin_id();
-        if let Some(vp) = iter.next() {
-            self.add_vertex_via_edge_default(self.edge(start).prev_id(), input, vp);
-        }
+        // walking along the whole boundary ends at the edge pointing to the first inserted vertex
+        let first = iter.next().map(|vp| {
+            self.add_vertex_via_edge_default(self.edge(start).prev_id(), input, vp)
+                .0
+        });
 
         let mut ret = start;
         loop {
@@ -290,7 +292,7 @@ where
             }
 
             let Some(vp) = iter.next() else {
-                if start_vertex == self.edge(input).origin_id() {
+                if first == Some(self.edge(input).target_id(self)) {
                     // Reached the start again - close the last face
                     self.close_face_default(input, self.edge(inside).prev_id(), false);
                 }
-- 
2.43.0


From c0b5a738cde750acbc0944cc44eda15fc4e4a3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:43 +0000
Subject: [PATCH 30/52] fix: extrude_boundary missed loops not at the first
 edge of a face

---
 src/operations/extrude.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/operations/extrude.rs b/src/operations/extrude.rs
index 43fc8a4..836dae7 100644
--- a/src/operations/extrude.rs
+++ b/src/operations/extrude.rs
@@ -26,9 +26,11 @@ where
     {
         let faces = self.face_ids().collect_vec();
         for f in faces {
-            let e = self.face(f).edge(self).twin_id();
-            if self.edge(e).is_boundary_self() {
-                self.extrude(e, transform);
+            let twins = self.face(f).edges(self).map(|e| e.twin_id()).collect_vec();
+            for e in twins {
+                if self.edge(e).is_boundary_self() {
+                    self.extrude(e, transform);
+                }
             }
         }
     }
-- 
2.43.0


From feaf5ea737984aa3cb813c720c5d088a261f8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 31/52] fix: insert_dihedron closed the same side twice

---
 src/halfedge/primitives/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/halfedge/primitives/mod.rs b/src/halfedge/primitives/mod.rs
index 016fc86..fb256fd 100644
--- a/src/halfedge/primitives/mod.rs
+++ b/src/halfedge/primitives/mod.rs
@@ -22,7 +22,7 @@ where
 
     fn insert_dihedron(&mut self, vp: impl IntoIterator<Item = T::VP>) -> T::E {
         let first = self.insert_polygon(vp);
-        self.close_hole(self.edge(first).twin_id(), Default::default(), false);
+        self.close_hole(first, Default::default(), false);
         first
     }
 }
-- 
2.43.0


From 450f4a4e71fd62f8d0ba2a84a6ef01182a5e9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 32/52] fix: generate_zigzag divided by zero for two vertices
 and left its range for odd halves

---
 src/primitives/misc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitives/misc.rs b/src/primitives/misc.rs
index 33eb07d..f9bbeff 100644
--- a/src/primitives/misc.rs
+++ b/src/primitives/misc.rs
@@ -19,7 +19,7 @@ pub fn generate_zigzag<Vec2: Vector2D>(n0: usize) -> impl Iterator<Item = Vec2>
         }
 
         Vec2::new(
-            x / Vec2::S::from_usize(n / 2) - 1.0.into(),
+            x * 2.0.into() / Vec2::S::from_usize(n) - 1.0.into(),
             offset - 1.0.into(),
         )
     })
-- 
2.43.0


From 189e6934d8b6731f88ad43e3cdfbf891e804400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 33/52] fix: regular stars and polygons were only accurate to
 single precision

---
 src/primitives/polygon.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/primitives/polygon.rs b/src/primitives/polygon.rs
index 5acdba7..6a8389c 100644
--- a/src/primitives/polygon.rs
+++ b/src/primitives/polygon.rs
@@ -49,18 +49,15 @@ where
     where
         T: EuclideanMeshType<D>,
     {
-        let pi2n = 2.0 * std::f32::consts::PI / (n as f32);
+        let pi2n = T::S::TWO * T::S::PI / T::S::from_usize(n);
         self.insert_polygon((0..n).into_iter().map(|i| {
             let r = if i % 2 == 1 {
                 outer_radius
             } else {
                 inner_radius
             };
-            let angle = pi2n * (i as f32);
-            T::VP::from_pos(T::Vec::from_xy(
-                r * T::S::from(angle.sin()),
-                r * T::S::from(angle.cos()),
-            ))
+            let angle = pi2n * T::S::from_usize(i);
+            T::VP::from_pos(T::Vec::from_xy(r * angle.sin(), r * angle.cos()))
         }))
     }
 
-- 
2.43.0


From a61118800fae5730bf5f86e98e74024ac6aa3a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 34/52] fix: insert_antiprism always panicked, looking for the
 face outside of its polygon

---
 src/primitives/prismatoid.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 7dfb468..a272490 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -74,15 +74,10 @@ where
     /// of the top polygon will be slightly smaller!
     fn insert_antiprism(&mut self, vp: impl IntoIterator<Item = T::VP>, height: T::S) -> T::E {
         let first = self.insert_polygon(vp);
-        let f = self
-            .edge(first)
-            .face(self)
-            .expect("The polygon must have a face");
-        let normal = f.normal(self).normalize();
-        let e = self.extrude_tri2(
-            self.edge(first).twin_id(),
-            T::Trans::from_translation(-normal * height),
-        );
+        let twin = self.edge(first).twin(self);
+        let f = twin.face(self).expect("The polygon must have a face");
+        let normal = Face3d::normal(f, self).normalize();
+        let e = self.extrude_tri2(first, T::Trans::from_translation(-normal * height));
         e
     }
 
-- 
2.43.0


From eb16dc91d79ee11f0d50b8a02c2ac6b26196e715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 35/52] fix: cylinder always panicked, asking for a smooth
 frustum

---
 src/primitives/prismatoid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index a272490..3f96cf2 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -245,7 +245,8 @@ where
 
     /// Creates a regular cylinder
     fn cylinder(radius: T::S, height: T::S, n: usize) -> T::Mesh {
-        Self::regular_frustum(radius, radius, height, n, true)
+        // TODO: make it smooth
+        Self::regular_frustum(radius, radius, height, n, false)
     }
 
     /// Creates a regular prism with given radius `r`, height `h`, and `n` sides.
-- 
2.43.0


From d05c74c10f2e985afcfd162cf162658cf8c6010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:15 +0000
Subject: [PATCH 36/52] fix: uniform antiprisms did not have edges of the same
 length

---
 src/primitives/prismatoid.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/primitives/prismatoid.rs b/src/primitives/prismatoid.rs
index 3f96cf2..c848168 100644
--- a/src/primitives/prismatoid.rs
+++ b/src/primitives/prismatoid.rs
@@ -269,11 +269,9 @@ where
 
     /// Creates a uniform antiprism with given radius `r` and `n` sides.
     fn uniform_antiprism(r: T::S, n: usize) -> Self {
-        // TODO: isn't this the edge length?
-        Self::regular_antiprism(
-            r,
-            regular_polygon_sidelength(r, n) * T::S::THREE.sqrt() * T::S::HALF,
-            n,
-        )
+        // the slanted edges must be as long as the sides of the polygons
+        let side = regular_polygon_sidelength(r, n);
+        let offset = regular_polygon_sidelength(r, 2 * n);
+        Self::regular_antiprism(r, (side * side - offset * offset).sqrt(), n)
     }
 }
-- 
2.43.0


From 8ff19f32938c5573267797f93973819fd140e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 37/52] fix: dodecahedron always panicked in debug builds and
 was larger than its radius

---
 src/primitives/sphere.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index ec2016a..ef62bd8 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -72,22 +72,22 @@ where
     fn dodecahedron(radius: T::S) -> Self {
         // https://en.wikipedia.org/wiki/Regular_dodecahedron#/media/File:Dodecahedron_vertices.svg
 
-        let phi = radius * T::S::PHI;
-        let iphi = radius / T::S::PHI;
-        let one = radius;
+        let one = radius / T::S::THREE.sqrt();
+        let phi = one * T::S::PHI;
+        let iphi = one / T::S::PHI;
         let zero = T::S::ZERO;
         let make_vp = |x, y, z| T::VP::from_pos(T::Vec::from_xyz(x, y, z));
 
         let mut mesh: Self = Make2dShape::polygon([
             make_vp(one, one, one),    // orange
-            make_vp(zero, phi, iphi),  // green
-            make_vp(-one, one, one),   // orange
-            make_vp(-iphi, zero, phi), // blue
             make_vp(iphi, zero, phi),  // blue
+            make_vp(-iphi, zero, phi), // blue
+            make_vp(-one, one, one),   // orange
+            make_vp(zero, phi, iphi),  // green
         ]);
 
         // TODO: polygon should return something more helpful
-        let start = mesh.shared_edge_id(T::V::new(1), T::V::new(0)).unwrap();
+        let start = mesh.shared_edge_id(T::V::new(4), T::V::new(0)).unwrap();
         let start_middle = mesh.loft_polygon_back(
             start,
             3,
-- 
2.43.0


From 2a0fc0ab4048a6ed1c217ea00b565ec36d5dd953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 38/52] fix: geodesic spheres checked the centre with an
 absolute tolerance and panicked for large radii

---
 src/primitives/sphere.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index ef62bd8..a764237 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -186,7 +186,7 @@ where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
         let mut mesh = Self::regular_icosahedron(icosahedron_r2a(radius));
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS * radius));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
@@ -200,7 +200,7 @@ where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
         let mut mesh = Self::regular_tetrahedron(radius);
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS * radius));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
@@ -214,7 +214,7 @@ where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
         let mut mesh = Self::regular_octahedron(radius);
-        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS));
+        debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS * radius));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
             SlerpVertexInterpolator::new(T::Vec::zero(), radius),
-- 
2.43.0


From 92d5f4c91b1be89ad26453aded29532b63da3423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:25 +0000
Subject: [PATCH 39/52] fix: geodesic_tetrahedron used its radius as the edge
 length

---
 src/primitives/sphere.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/primitives/sphere.rs b/src/primitives/sphere.rs
index a764237..18037b0 100644
--- a/src/primitives/sphere.rs
+++ b/src/primitives/sphere.rs
@@ -18,6 +18,11 @@ pub fn icosahedron_a2r<S: Scalar>(a: S) -> S {
     (S::TEN + S::TWO * S::FIVE.sqrt()).sqrt() * a / S::FOUR
 }
 
+/// Convert a radius 'r' to edge length 'a' of a tetrahedron.
+pub fn tetrahedron_r2a<S: Scalar>(r: S) -> S {
+    S::TWO * r * (S::TWO / S::THREE).sqrt()
+}
+
 // TODO: Reduce type requirements
 
 /// A trait for creating sphere approximations.
@@ -199,7 +204,7 @@ where
     where
         T::Mesh: HalfEdgeSemiBuilder<T>,
     {
-        let mut mesh = Self::regular_tetrahedron(radius);
+        let mut mesh = Self::regular_tetrahedron(tetrahedron_r2a(radius));
         debug_assert!(mesh.centroid().is_about(&T::Vec::zero(), T::S::EPS * radius));
         mesh.subdivision_frequency(
             SubdivisionDescription::new(n, 0),
-- 
2.43.0


From ec2ee54e298ba398a44e7721d6f04eddc69e5093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 40/52] fix: bevy transforms chained in the opposite of the
 documented order

---
 src/extensions/bevy/math/mat5.rs | 2 +-
 src/extensions/bevy/math/vec2.rs | 2 +-
 src/extensions/bevy/math/vec3.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 8ef8e97..56d04a3 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -177,6 +177,6 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
diff --git a/src/extensions/bevy/math/vec2.rs b/src/extensions/bevy/math/vec2.rs
index be4839e..1322558 100644
--- a/src/extensions/bevy/math/vec2.rs
+++ b/src/extensions/bevy/math/vec2.rs
@@ -160,7 +160,7 @@ impl TransformTrait<f32, 2> for Affine2 {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 9886598..0ec72d8 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -180,7 +180,7 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn chain(&self, other: &Self) -> Self {
-        *self * *other
+        *other * *self
     }
 }
 
-- 
2.43.0


From 3b755f8c252d3b37935f5accf5018883e405606a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 41/52] fix: bevy Transform translated directions

---
 src/extensions/bevy/math/vec3.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index 0ec72d8..e919250 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -175,7 +175,8 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn apply_vec(&self, v: Vec3) -> Vec3 {
-        self.apply(v)
+        // don't apply translation
+        self.rotation * (self.scale * v)
     }
 
     #[inline(always)]
-- 
2.43.0


From e9d59bad62541a7e732aa22e2a0ac3853e08cd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 42/52] fix: bevy Transform replaced scale and translation
 instead of adding them

---
 src/extensions/bevy/math/vec3.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index e919250..bdab6ae 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -153,12 +153,16 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn with_scale(&self, scale: Self::Vec) -> Self {
-        TransformBevy::with_scale(*self, scale)
+        TransformBevy {
+            translation: self.translation * scale,
+            rotation: self.rotation,
+            scale: self.scale * scale,
+        }
     }
 
     #[inline(always)]
     fn with_translation(&self, v: Self::Vec) -> Self {
-        TransformBevy::with_translation(*self, v)
+        TransformBevy::with_translation(*self, self.translation + v)
     }
 
     #[inline(always)]
-- 
2.43.0


From d630f7ca0464d1f890db7272dbdbaf5ac6aea20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 43/52] fix: scaling a 4d bevy transform left earlier
 translations unscaled

---
 src/extensions/bevy/math/mat5.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/extensions/bevy/math/mat5.rs b/src/extensions/bevy/math/mat5.rs
index 56d04a3..f328742 100644
--- a/src/extensions/bevy/math/mat5.rs
+++ b/src/extensions/bevy/math/mat5.rs
@@ -142,10 +142,11 @@ impl TransformTrait<f32, 4> for Mat5<f32> {
 
     fn with_scale(&self, v: Self::Vec) -> Self {
         let mut m = *self;
-        m.data[0] *= v.x;
-        m.data[6] *= v.y;
-        m.data[12] *= v.z;
-        m.data[18] *= v.w;
+        for i in 0..4 {
+            for j in 0..5 {
+                m.data[i * 5 + j] *= v[i];
+            }
+        }
         m
     }
 
-- 
2.43.0


From 4e3d9ea0b9b9f387dabd6d9061fa6065c228736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 44/52] fix: rotating a 2d bevy vertex payload panicked

---
 src/extensions/bevy/vertex_payload_2d.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extensions/bevy/vertex_payload_2d.rs b/src/extensions/bevy/vertex_payload_2d.rs
index 50f57fd..58cb5e1 100644
--- a/src/extensions/bevy/vertex_payload_2d.rs
+++ b/src/extensions/bevy/vertex_payload_2d.rs
@@ -46,8 +46,10 @@ impl Transformable<2> for BevyVertexPayload2d {
     }
 
     #[inline(always)]
-    fn rotate(&mut self, _r: &Self::Rot) -> &mut Self {
-        todo!("rotate")
+    fn rotate(&mut self, r: &Self::Rot) -> &mut Self {
+        self.position = Vec2::from_angle(*r).rotate(self.position);
+        // TODO: should the uv be transformed as well?
+        self
     }
 
     #[inline(always)]
-- 
2.43.0


From 3343a7740992cc9ac65d9b5de4c5ee95053d34c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 45/52] fix: bevy rotation arcs between directions of other
 lengths than one did not map the first to the second

---
 src/extensions/bevy/math/quat.rs | 2 +-
 src/extensions/bevy/math/vec3.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extensions/bevy/math/quat.rs b/src/extensions/bevy/math/quat.rs
index 3150092..bf726ce 100644
--- a/src/extensions/bevy/math/quat.rs
+++ b/src/extensions/bevy/math/quat.rs
@@ -15,7 +15,7 @@ impl Quarternion for Quat {
     fn from_rotation_arc(from: Vec3, to: Vec3) -> Self {
         //assert!((from.length() - 1.0).abs() < 0.01);
         //assert!((to.length() - 1.0).abs() < 0.01);
-        Quat::from_rotation_arc(from, to)
+        Quat::from_rotation_arc(from.normalize(), to.normalize())
     }
 
     #[inline(always)]
diff --git a/src/extensions/bevy/math/vec3.rs b/src/extensions/bevy/math/vec3.rs
index bdab6ae..e5e3295 100644
--- a/src/extensions/bevy/math/vec3.rs
+++ b/src/extensions/bevy/math/vec3.rs
@@ -138,7 +138,7 @@ impl TransformTrait<f32, 3> for TransformBevy {
 
     #[inline(always)]
     fn from_rotation_arc(from: Self::Vec, to: Self::Vec) -> Self {
-        TransformBevy::from_rotation(Quat::from_rotation_arc(from, to))
+        TransformBevy::from_rotation(Quat::from_rotation_arc(from.normalize(), to.normalize()))
     }
 
     #[inline(always)]
-- 
2.43.0


From ad515dd1c639000da8c863e8f303a00740fa24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 46/52] fix: a diagonal running through another vertex counted
 as valid

---
 src/math/polygon.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/math/polygon.rs b/src/math/polygon.rs
index e7c821e..63cabc1 100644
--- a/src/math/polygon.rs
+++ b/src/math/polygon.rs
@@ -98,6 +98,21 @@ pub trait Polygon<Vec2: Vector2D>: Clone + PartialEq + std::fmt::Debug + 'static
             return false;
         }
 
+        // Is there another vertex on the diagonal?
+        let d = ps[j] - ps[i];
+        let len2 = d.dot(&d);
+        for k in 0..n {
+            let w = ps[k] - ps[i];
+            if k != i
+                && k != j
+                && d.perp_dot(&w).abs() <= Vec2::S::EPS * len2
+                && w.dot(&d).is_positive()
+                && w.dot(&d) < len2
+            {
+                return false;
+            }
+        }
+
         // Is there a boundary edge intersecting the diagonal?
         for start in 0..n {
             let end = (start + 1) % n;
-- 
2.43.0


From 05738ceda5a7ee4925ecccde5b16828c4329e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 47/52] fix: the svg import ignored the transforms and view
 boxes of the drawing

---
 src/extensions/svg/svg.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 0f00d34..1c5f44f 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -45,14 +45,18 @@ where
     // let fill = path.fill();
     // let stroke = path.stroke();
     // let po = path.paint_order();
-    // let transform = path.abs_transform();
+
+    let Some(data) = path.data().clone().transform(path.abs_transform()) else {
+        // the transformed path is degenerate
+        return;
+    };
 
     let v = |p: usvg::tiny_skia_path::Point| T::Vec::from_xy(T::S::from(p.x), T::S::from(p.y));
 
     let mut pb = PathBuilder::<T, T::Trans>::new(mesh);
 
     let mut is_first = true;
-    for s in path.data().segments() {
+    for s in data.segments() {
         match s {
             usvg::tiny_skia_path::PathSegment::MoveTo(p) => {
                 assert!(is_first);
-- 
2.43.0


From 51a3321ef741a5e18c16d5a24608a609b08e256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 48/52] fix: svg paths with several outlines panicked

---
 src/extensions/svg/svg.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 1c5f44f..9ac5e1a 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -59,9 +59,14 @@ where
     for s in data.segments() {
         match s {
             usvg::tiny_skia_path::PathSegment::MoveTo(p) => {
-                assert!(is_first);
+                if !is_first {
+                    // the next outline of the same path
+                    if !pb.has_face() {
+                        pb.close(Default::default());
+                    }
+                    pb = PathBuilder::<T, T::Trans>::new(mesh);
+                }
                 pb.move_to_new(v(p));
-                //pb = PathBuilder::<T>::start(mesh, v(p));
             }
             usvg::tiny_skia_path::PathSegment::LineTo(p) => {
                 let end = pb.add_vertex_autoclose(v(p));
-- 
2.43.0


From 7888ba956b6c97b016d44dbbbb8b154243c2c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 49/52] fix: svg drawings reusing definitions were transformed
 twice

---
 src/extensions/svg/svg.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/extensions/svg/svg.rs b/src/extensions/svg/svg.rs
index 9ac5e1a..2b8d9ea 100644
--- a/src/extensions/svg/svg.rs
+++ b/src/extensions/svg/svg.rs
@@ -6,19 +6,24 @@ use crate::{
     },
 };
 
-fn import_group<T: EuclideanMeshType<2> + MeshTypeHalfEdge>(mesh: &mut T::Mesh, group: &usvg::Group)
-where
+fn import_group<T: EuclideanMeshType<2> + MeshTypeHalfEdge>(
+    mesh: &mut T::Mesh,
+    group: &usvg::Group,
+    parent: usvg::Transform,
+) where
     T::Edge: CurvedEdge<2, T>,
     T::EP: DefaultEdgePayload,
     T::FP: DefaultFacePayload,
 {
+    // usvg counts some transforms twice in its absolute transforms
+    let transform = parent.pre_concat(group.transform());
     for c in group.children() {
         match c {
             usvg::Node::Group(g) => {
-                import_group::<T>(mesh, g.as_ref());
+                import_group::<T>(mesh, g.as_ref(), transform);
             }
             usvg::Node::Path(p) => {
-                import_path::<T>(mesh, p.as_ref());
+                import_path::<T>(mesh, p.as_ref(), transform);
             }
             usvg::Node::Text(t) => {
                 println!("Text: {:#?}", t);
@@ -32,8 +37,11 @@ where
     }
 }
 
-fn import_path<T: EuclideanMeshType<2> + MeshTypeHalfEdge>(mesh: &mut T::Mesh, path: &usvg::Path)
-where
+fn import_path<T: EuclideanMeshType<2> + MeshTypeHalfEdge>(
+    mesh: &mut T::Mesh,
+    path: &usvg::Path,
+    transform: usvg::Transform,
+) where
     T::Edge: CurvedEdge<2, T>,
     T::EP: DefaultEdgePayload,
     T::FP: DefaultFacePayload,
@@ -46,7 +54,7 @@ where
     // let stroke = path.stroke();
     // let po = path.paint_order();
 
-    let Some(data) = path.data().clone().transform(path.abs_transform()) else {
+    let Some(data) = path.data().clone().transform(transform) else {
         // the transformed path is degenerate
         return;
     };
@@ -121,5 +129,5 @@ where
         }
     }
     let tree = res.expect("Failed to parse SVG");
-    import_group::<T>(mesh, tree.root());
+    import_group::<T>(mesh, tree.root(), usvg::Transform::identity());
 }
-- 
2.43.0


From 635b628b70cf4cb54916052d95255d4d9cbb4823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:37 +0000
Subject: [PATCH 50/52] fix: advance and kerning of text are scaled like the
 outlines

---
 src/mesh/mesh/fonts.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 977ac25..7d1c185 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -28,7 +28,10 @@ impl<'a> Font<'a> {
     }
 
     fn font_scale(&self) -> f32 {
-        self.scale //* self.font.pt_to_px_scale(1.0).map(|x| x.x).unwrap_or(1.0)
+        self.font
+            .pt_to_px_scale(self.scale)
+            .map(|x| x.x)
+            .unwrap_or(self.scale)
     }
 
     /// Get the advance of the given character.
@@ -89,13 +92,7 @@ impl<'a> Font<'a> {
             return;
         };
 
-        let scale = T::S::from(
-            self.font
-                .pt_to_px_scale(self.scale)
-                .map(|x| x.x)
-                .unwrap_or(self.scale)
-                / self.font.height_unscaled(),
-        );
+        let scale = T::S::from(self.font_scale() / self.font.height_unscaled());
         let mut first = None;
         let mut cur = None;
         let mut cur_v = IndexType::max();
-- 
2.43.0


From 1ea47ffc8c87dd9b8e2fe4e5f5e761a34cb4b510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:37 +0000
Subject: [PATCH 51/52] fix: the last curve of a glyph contour is stored in its
 drawing direction

---
 src/mesh/mesh/fonts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/mesh/fonts.rs b/src/mesh/mesh/fonts.rs
index 7d1c185..464ab53 100644
--- a/src/mesh/mesh/fonts.rs
+++ b/src/mesh/mesh/fonts.rs
@@ -133,7 +133,7 @@ impl<'a> Font<'a> {
             if let Some(_p) = cur {
                 // TODO: don't use eq but similarity
                 if first.unwrap() == p1 {
-                    let (_, _, e) = mesh.close_face_vertices(
+                    let (_, e, _) = mesh.close_face_vertices(
                         prev_v,
                         Default::default(),
                         cur_v,
-- 
2.43.0


From cd0bae5af16913eb4c9b2560a32870a459a18e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 52/52] fix: loft_polygon_back walked past the end of the
 boundary when too little of it is left for another face

---
 src/operations/loft.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/operations/loft.rs b/src/operations/loft.rs
index 6efad92..75f2698 100644
--- a/src/operations/loft.rs
+++ b/src/operations/loft.rs
@@ -205,6 +205,10 @@ where
             }
 
             for _ in 2..m {
+                if first == Some(self.edge(input).origin_id()) {
+                    // not enough of the boundary is left for another face
+                    return ret;
+                }
                 input = self.edge(input).prev_id();
             }
 
-- 
2.43.0

