From ac5268f1aff8094b3cf79153e071f9424a18ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 01/35] fix: allow splitting a disjoint subsets producer at its
 end

The contract of rayon's Producer::split_at allows index == len, which adaptors such as take and skip use.
---
 fenris-paradis/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 959a1fe..eb7878b 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -356,7 +356,7 @@ impl<'a, Access: Send + Clone> Producer for DisjointSubsetsProducer<'a, Access>
 
     fn split_at(self, index: usize) -> (Self, Self) {
         let producer_len = self.range_len;
-        assert!(index < producer_len);
+        assert!(index <= producer_len);
         let global_subset_idx = self.range_start_idx + index;
 
         let producer_left = DisjointSubsetsProducer {
-- 
2.43.0


From 4f497f836c5c96c79ff44b76868dbc2e35cffb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 02/35] fix: allow parallel iteration over subsets that are all
 empty

---
 fenris-paradis/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index eb7878b..7ada0c7 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -266,8 +266,8 @@ impl DisjointSubsets {
             self.max_index.is_none() || storage.len() > self.max_index.unwrap(),
             "Subsets contain indices out of bounds."
         );
-        // Sanity check: if we don't have a max index, then we also cannot have any subsets
-        debug_assert_eq!(self.max_index.is_none(), self.subsets.len() == 0);
+        // Sanity check: if we don't have a max index, then all subsets (if any) must be empty
+        debug_assert_eq!(self.max_index.is_none(), self.subsets.total_num_elements() == 0);
         let access = unsafe { storage.create_access() };
 
         DisjointSubsetsParIter {
-- 
2.43.0


From 8aed9c83d248702ab352bba718c958dcf7c38554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 03/35] fix: keep a nonzero diagonal in dense Dirichlet
 conditions when the matrix has a zero diagonal

---
 src/assembly/global.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/assembly/global.rs b/src/assembly/global.rs
index 3578a62..896db09 100644
--- a/src/assembly/global.rs
+++ b/src/assembly/global.rs
@@ -465,6 +465,7 @@ where
         .map(|x| x.abs())
         .fold(T::zero(), |a, b| a + b)
         / T::from_usize(matrix.nrows()).unwrap();
+    let scale = if scale == T::zero() { T::one() } else { scale };
 
     for node in nodes {
         for i in 0..d {
-- 
2.43.0


From 9ed8f6eeb1ed61e59c7defdaa59d708414cd2e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 04/35] fix: reset the stopping criterion at the start of a
 conjugate gradient solve

---
 fenris-sparse/src/cg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index 8ab9fb2..e10fcc7 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -381,6 +381,9 @@ where
 
         let Buffers { r, z, p, Ap } = self.workspace.prepare_buffers(x.len());
 
+        self.stopping_criterion
+            .reset(&self.operator, (&x).into(), (&b).into());
+
         // r = b - Ax
         // First: r <- Ax
         if let Err(err) = apply_operator(&mut *r, &self.operator, &x) {
-- 
2.43.0


From 384625d60a0ad54f0d622f107260ce476f772a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 05/35] fix: overwrite the output of a sparse operator even if
 it holds non-finite values

---
 fenris-sparse/src/cg.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fenris-sparse/src/cg.rs b/fenris-sparse/src/cg.rs
index e10fcc7..c3cc82a 100644
--- a/fenris-sparse/src/cg.rs
+++ b/fenris-sparse/src/cg.rs
@@ -45,6 +45,8 @@ where
     T: Scalar + Zero + One + ClosedMul + ClosedAdd,
 {
     fn apply(&self, mut y: DVectorViewMut<T>, x: DVectorView<T>) -> Result<(), Box<dyn Error>> {
+        // spmm scales y by zero, which does not erase non-finite values left over in y
+        y.fill(T::zero());
         spmm_csr_dense(T::zero(), &mut y, T::one(), Op::NoOp(self), Op::NoOp(&x));
         Ok(())
     }
-- 
2.43.0


From b0a64103f57f9904dac5e76e2e0ca0001048d604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 06/35] fix: do not report convergence of Newton's method for a
 residual that is not a number

---
 fenris-optimize/src/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fenris-optimize/src/newton.rs b/fenris-optimize/src/newton.rs
index 00da70b..3be237b 100644
--- a/fenris-optimize/src/newton.rs
+++ b/fenris-optimize/src/newton.rs
@@ -97,7 +97,7 @@ where
 
     let mut iter = 0;
 
-    while f.norm() > settings.tolerance {
+    while !(f.norm() <= settings.tolerance) {
         if settings
             .max_iterations
             .map(|max_iter| iter == max_iter)
-- 
2.43.0


From 15d07b1fe63430e202f5d93db5b33b0caba070d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:21 +0000
Subject: [PATCH 07/35] fix: reject out-of-range indices in
 Permutation::from_vec instead of panicking

---
 src/mesh/reorder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/reorder.rs b/src/mesh/reorder.rs
index 307c735..dd76ae0 100644
--- a/src/mesh/reorder.rs
+++ b/src/mesh/reorder.rs
@@ -119,7 +119,7 @@ impl Permutation {
     pub fn from_vec(perm: Vec<usize>) -> Result<Self, InvalidPermutation> {
         let mut visited = vec![false; perm.len()];
         for &index in &perm {
-            if visited[index] {
+            if index >= perm.len() || visited[index] {
                 return Err(InvalidPermutation { marker: PhantomData });
             } else {
                 visited[index] = true;
-- 
2.43.0


From 3471c52ca5ba95350fc4fc87143519ced306d2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 08/35] fix: detect concave corners of quadrilaterals

---
 fenris-geometry/src/primitives/quad.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/fenris-geometry/src/primitives/quad.rs b/fenris-geometry/src/primitives/quad.rs
index 8b41b0d..3ddfff8 100644
--- a/fenris-geometry/src/primitives/quad.rs
+++ b/fenris-geometry/src/primitives/quad.rs
@@ -51,17 +51,21 @@ where
 {
     /// Returns the index of a concave corner of the quadrilateral, if there is any.
     pub fn concave_corner(&self) -> Option<usize> {
+        // Twice the signed area, whose sign gives the winding order of the quad
+        let signed_area = (self.0[2] - self.0[0]).perp(&(self.0[3] - self.0[1]));
+
         for i in 0..4 {
             let x_next = self.0[(i + 2) % 4];
             let x_curr = self.0[(i + 1) % 4];
-            let x_prev = self.0[(i + 1) % 4];
+            let x_prev = self.0[i];
 
             let a = x_next - x_curr;
             let b = x_prev - x_curr;
-            // perp gives "2d cross product", which when negative means that the interior angle
-            // is creater than 180 degrees, and so the corner must be concave
-            if a.perp(&b) < T::zero() {
-                return Some(i + 1);
+            // perp gives "2d cross product", which when its sign is opposite to that of the area means
+            // that the interior angle is greater than 180 degrees, and so the corner must be concave
+            let turn = a.perp(&b);
+            if (turn < T::zero() && signed_area > T::zero()) || (turn > T::zero() && signed_area < T::zero()) {
+                return Some((i + 1) % 4);
             }
         }
 
-- 
2.43.0


From b049f8dff171694ce773904120f0a676805d4ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 09/35] fix: cut the cube to the inside of the sphere in
 create_simple_stupid_sphere

---
 src/mesh/procedural.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/procedural.rs b/src/mesh/procedural.rs
index 99c01e0..dd2f556 100644
--- a/src/mesh/procedural.rs
+++ b/src/mesh/procedural.rs
@@ -421,8 +421,8 @@ pub fn create_simple_stupid_sphere(center: &Point3<f64>, radius: f64, num_sweeps
             let z = r * theta.cos();
 
             let x = Point3::new(x, y, z);
-            // Normal must point inwards
-            let n = -x.coords.normalize();
+            // Normal must point outwards
+            let n = x.coords.normalize();
             let half_space = HalfSpace::from_point_and_normal(x, Unit::new_normalize(n));
             mesh = mesh.intersect_half_space(&half_space);
         }
-- 
2.43.0


From 84968fa86890f01771e9f2a39f7d97ff774eb024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 10/35] fix: return an empty hex mesh for zero units along z

---
 src/mesh/procedural.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/procedural.rs b/src/mesh/procedural.rs
index dd2f556..c15a421 100644
--- a/src/mesh/procedural.rs
+++ b/src/mesh/procedural.rs
@@ -223,7 +223,7 @@ pub fn create_rectangular_uniform_hex_mesh<T>(
 where
     T: Real,
 {
-    if cells_per_unit == 0 || units_x == 0 || units_y == 0 {
+    if cells_per_unit == 0 || units_x == 0 || units_y == 0 || units_z == 0 {
         HexMesh::from_vertices_and_connectivity(Vec::new(), Vec::new())
     } else {
         let mut vertices = Vec::new();
-- 
2.43.0


From 1002784c21146b43d47d0291977fb8b547ef88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:57 +0000
Subject: [PATCH 11/35] fix: compute the volume of poly meshes independently of
 the orientation of faces

---
 fenris-geometry/src/polymesh.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/fenris-geometry/src/polymesh.rs b/fenris-geometry/src/polymesh.rs
index 4dd017c..2b8c321 100644
--- a/fenris-geometry/src/polymesh.rs
+++ b/fenris-geometry/src/polymesh.rs
@@ -12,7 +12,7 @@ use std::fmt::Display;
 use std::hash::Hash;
 
 // use crate::connectivity::Connectivity;
-use crate::{compute_polyhedron_volume_from_faces, ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
+use crate::{ConvexPolygon3d, ConvexPolyhedron, HalfSpace, LineSegment3d};
 // use crate::mesh::Mesh;
 use fenris_nested_vec::NestedVec;
 
@@ -553,12 +553,26 @@ where
 
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn compute_volume(&self) -> T {
-        let boundary_faces = self.find_boundary_faces();
-        let face_iter = boundary_faces
-            .iter()
-            .map(|face_idx| self.get_face(*face_idx).unwrap());
+        // The orientation of a face is in general only correct with respect to one of the cells
+        // that it belongs to (if any), so we use that cells are convex, and add up the volumes of the
+        // cones that connect each face of a cell to a point in the interior of the cell.
+        let mut volume = 0.0;
+        for cell in self.cell_connectivity_iter() {
+            let cell_vertices = || cell.iter().flat_map(|face_idx| self.face_vertices(*face_idx));
+            let num_vertices = T::from_usize(cell_vertices().count()).unwrap();
+            let center = cell_vertices().fold(Vector3::zeros(), |sum, v| sum + &v.coords) / num_vertices;
+
+            for face_idx in cell {
+                let face = self.get_face(*face_idx).unwrap();
+                // Ignore degenerate faces
+                if face.num_vertices() > 2 {
+                    let x0 = face.get_vertex(0).unwrap();
+                    volume += face.compute_area_vector().dot(&(&x0.coords - &center)).abs();
+                }
+            }
+        }
 
-        compute_polyhedron_volume_from_faces(face_iter)
+        volume / 3.0
     }
 
     pub fn intersect_convex_polyhedron<'a>(&self, polyhedron: &impl ConvexPolyhedron<'a, T>) -> Self {
-- 
2.43.0


From 317cf012ac33a03252841dd4842e3f4f14fa0953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 12/35] fix: return an error instead of looping forever in
 project_physical_coordinates

---
 src/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/element.rs b/src/element.rs
index b9f650a..d617ec3 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -450,7 +450,7 @@ where
         // TODO: Should better handle degenerate/problematic cases. For now we just want to
         // avoid infinite loops
         if iter > 1000 {
-            eprintln!("Exceeded 1000 iterations for project_physical_coordinates");
+            return Err(Box::from("Exceeded 1000 iterations for project_physical_coordinates"));
         }
     }
 
-- 
2.43.0


From 4e373728c2093a77d005be653361cff234ec5c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 13/35] fix: interpolate nothing instead of panicking at
 several points of an empty space

---
 src/space/fixed_interpolator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/space/fixed_interpolator.rs b/src/space/fixed_interpolator.rs
index faa7961..ab44dc2 100644
--- a/src/space/fixed_interpolator.rs
+++ b/src/space/fixed_interpolator.rs
@@ -269,9 +269,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = space.find_closest_element_and_reference_coords(point)
-            // break out of the loop if there are no elements in the space
+            // there is nothing to interpolate from if there are no elements in the space
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
@@ -351,9 +351,9 @@ impl<T: Real> FixedInterpolator<T> {
             supported_node_offsets.push(point_node_support_begin);
 
             let Some((element_idx, xi)) = closest_element_and_ref_coord
-            // break out of the loop if there are no elements in the space
+            // there is nothing to interpolate from if there are no elements in the space
             else {
-                break;
+                continue;
             };
 
             let element_node_count = space.element_node_count(element_idx);
-- 
2.43.0


From aebcada34958a2256b1e75a57c907e37616d71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 14/35] fix: use the correct sign of the off-diagonal Hessian
 entries in apd

---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 4ea831d..2f6eb2f 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -196,9 +196,9 @@ pub fn apd<T: Real>(
         let h00 = B1[1] + B2[2];
         let h11 = B0[0] + B2[2];
         let h22 = B0[0] + B1[1];
-        let h01 = (B1[0] + B0[1]) * 0.5;
-        let h02 = (B2[0] + B0[2]) * 0.5;
-        let h12 = (B2[1] + B1[2]) * 0.5;
+        let h01 = (B1[0] + B0[1]) * (-0.5);
+        let h02 = (B2[0] + B0[2]) * (-0.5);
+        let h12 = (B2[1] + B1[2]) * (-0.5);
 
         let detH =
             -(h02 * h02 * h11) + (h01 * h02 * h12) * 2.0 - (h00 * h12 * h12) - (h01 * h01 * h22) + (h00 * h11 * h22);
-- 
2.43.0


From 7f531adcf603badcf969c9613b34ad1654023e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 15/35] fix: write rows without entries instead of panicking
 when dumping a matrix without columns

---
 src/util.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 2f6eb2f..3bad984 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -333,9 +333,9 @@ pub fn dump_matrix_to_file<'a, T: Scalar + Display>(
 
     let matrix = matrix.into();
     for i in 0..matrix.nrows() {
-        write!(writer, "{}", matrix[(i, 0)])?;
-        for j in 1..matrix.ncols() {
-            write!(writer, " {}", matrix[(i, j)])?;
+        for j in 0..matrix.ncols() {
+            let separator = if j > 0 { " " } else { "" };
+            write!(writer, "{}{}", separator, matrix[(i, j)])?;
         }
         writeln!(writer)?;
     }
-- 
2.43.0


From 056915ac25f6ce2772d154b0130f5082e4f60e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 16/35] fix: compute the condition number of indefinite
 symmetric matrices from absolute eigenvalues

---
 src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 3bad984..6db5b61 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -470,12 +470,12 @@ where
     let (min, max) = matrix
         .symmetric_eigenvalues()
         .into_iter()
-        .cloned()
+        .map(|eigenvalue| eigenvalue.abs())
         .minmax_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Less))
         .into_option()
         .expect("Currently don't support empty matrices");
 
-    max.abs() / min.abs()
+    max / min
 }
 
 /*
-- 
2.43.0


From 1413f32e6b7eae3c8d1e8a5f5d513ab41c627bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 17/35] fix: log_det_F treated the displacement gradient as the
 deformation gradient in 1D

---
 fenris-solid/src/logdet.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fenris-solid/src/logdet.rs b/fenris-solid/src/logdet.rs
index 2d8723c..4de9955 100644
--- a/fenris-solid/src/logdet.rs
+++ b/fenris-solid/src/logdet.rs
@@ -23,8 +23,9 @@ where
     match D::USIZE {
         1 => {
             let du_dX: &Matrix1<T> = try_transmute_ref(du_dX).unwrap();
-            let det = du_dX[(0, 0)];
-            (det > 0.0).then(|| det.ln())
+            // det(F) = 1 + u11 = 1 + γ
+            let gamma = du_dX[(0, 0)];
+            (gamma > -1.0).then(|| T::ln_1p(gamma))
         }
         2 => log_det_F_2d(try_transmute_ref(du_dX).unwrap()),
         3 => log_det_F_3d(try_transmute_ref(du_dX).unwrap()),
-- 
2.43.0


From 88d8045208843e7fd7de03bd1486bfb814b45fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 18/35] fix: NeoHookeanMaterial panicked in batched
 contractions of an inverted state

---
 fenris-solid/src/materials.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fenris-solid/src/materials.rs b/fenris-solid/src/materials.rs
index b0e4155..2a48bcd 100644
--- a/fenris-solid/src/materials.rs
+++ b/fenris-solid/src/materials.rs
@@ -328,7 +328,11 @@ where
         let J = F.determinant();
 
         if J <= T::zero() {
-            todo!("How to address non-positive J? (J = {})", J);
+            // TODO: How to address this? Might have to address in the API itself?
+            // For now, be consistent with compute_stress_contraction
+            compute_batch_contraction(output, alpha, a, b, |_, _| {
+                OMatrix::<T, D, D>::repeat(T::from_f64(f64::NAN).unwrap())
+            })
         } else {
             // Precompute all the quantities that are independent of a and b
             let logJ = J.ln();
-- 
2.43.0


From a14b59027835ee985d13174d7caf55efe706b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:58 +0000
Subject: [PATCH 19/35] fix: MSH files with a negative element entity dimension
 made the loader panic

---
 src/io/msh.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index a3409ff..092212d 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -193,11 +193,7 @@ where
     I: mshio::MshIntT,
 {
     element_block.element_type == C::msh_element_type()
-        && element_block
-            .entity_dim
-            .to_usize()
-            .expect("failed to convert element block dimension to usize")
-            == C::reference_dim()
+        && element_block.entity_dim.to_usize() == Some(C::reference_dim())
 }
 
 macro_rules! f_to_t {
-- 
2.43.0


From f7e739ec3ac68d94e3ce7a22861dbb1df42f3979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:59 +0000
Subject: [PATCH 20/35] fix: MSH elements referring to missing nodes made the
 loader panic or produce an invalid mesh

---
 src/io/msh.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/io/msh.rs b/src/io/msh.rs
index 092212d..5302173 100644
--- a/src/io/msh.rs
+++ b/src/io/msh.rs
@@ -98,7 +98,8 @@ where
 
     // Collect all connectivity matching the target connectivity
     for element_block in &msh_elements.element_blocks {
-        let block_connectivity = connectivity_from_element_block(element_block)?;
+        let block_connectivity =
+            connectivity_from_element_block(element_block, msh_nodes.min_node_tag, vertices.len() as u64)?;
         connectivity.extend(block_connectivity);
     }
 
@@ -154,7 +155,13 @@ where
 }
 
 /// Tries to convert a `mshio::ElementBlock` to a `Vec<Connectivity>`.
-fn connectivity_from_element_block<C, I>(element_block: &mshio::ElementBlock<u64, I>) -> eyre::Result<Vec<C>>
+///
+/// The node tags of the elements must refer to one of the `num_nodes` consecutive tags starting at `min_node_tag`.
+fn connectivity_from_element_block<C, I>(
+    element_block: &mshio::ElementBlock<u64, I>,
+    min_node_tag: u64,
+    num_nodes: u64,
+) -> eyre::Result<Vec<C>>
 where
     C: MshConnectivity,
     I: mshio::MshIntT,
@@ -179,7 +186,16 @@ where
             if element.nodes.len() < requested_nodes {
                 return Err(eyre!("not enough nodes to initialize connectivity"));
             }
-            connectivity.push(C::try_connectivity_from_msh_element(element)?);
+            // Connectivities expect that node tags start at 1
+            let mut element = element.clone();
+            for tag in &mut element.nodes {
+                *tag = tag
+                    .checked_sub(min_node_tag)
+                    .filter(|index| *index < num_nodes)
+                    .map(|index| index + 1)
+                    .ok_or_else(|| eyre!("element refers to a node that does not exist (tag {})", tag))?;
+            }
+            connectivity.push(C::try_connectivity_from_msh_element(&element)?);
         }
 
         return Ok(connectivity);
-- 
2.43.0


From 0853ec31cedef4ff2071b2a4a174053d4c7eacec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 21/35] fix: export Quad9 cells as nine-node biquadratic quads
 instead of eight-node quadratic quads

---
 src/io/vtk.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/vtk.rs b/src/io/vtk.rs
index 9fd4b2e..a707c0b 100644
--- a/src/io/vtk.rs
+++ b/src/io/vtk.rs
@@ -71,7 +71,7 @@ impl VtkCellConnectivity for Quad4d2Connectivity {
 
 impl VtkCellConnectivity for Quad9d2Connectivity {
     fn cell_type(&self) -> CellType {
-        CellType::QuadraticQuad
+        CellType::BiquadraticQuad
     }
 }
 
-- 
2.43.0


From ad4a779e9b71d0f50f51213539f15130305378d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 22/35] fix: return no gradient instead of NaN where the
 distance to a box has none

---
 fenris-geometry/src/sdf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-geometry/src/sdf.rs b/fenris-geometry/src/sdf.rs
index bd535d3..f71a9b6 100644
--- a/fenris-geometry/src/sdf.rs
+++ b/fenris-geometry/src/sdf.rs
@@ -165,7 +165,7 @@ where
             dx[i] = h;
             gradient[i] = (self.eval(&(x + dx)) - self.eval(&(x - dx))) / (2.0 * h)
         }
-        gradient.normalize_mut();
-        Some(gradient)
+        // There is no gradient on the medial axis, where the differences may vanish
+        gradient.try_normalize(0.0)
     }
 }
-- 
2.43.0


From eb97e07f067c22d4a4703e1c3618ff6ee5b6e55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 23/35] fix: report no intersection of a segment with a disk
 beyond its end points

---
 fenris-geometry/src/primitives/line.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/primitives/line.rs b/fenris-geometry/src/primitives/line.rs
index 3d66e8e..2910f16 100644
--- a/fenris-geometry/src/primitives/line.rs
+++ b/fenris-geometry/src/primitives/line.rs
@@ -153,6 +153,10 @@ where
     #[replace_float_literals(T::from_f64(literal).unwrap())]
     pub fn intersect_disk_parametric(&self, disk: &Disk<T>) -> Option<[T; 2]> {
         let [t1, t2] = self.to_line().intersect_disk_parametric(disk)?;
+        if t2 < 0.0 || t1 > 1.0 {
+            // The line intersects the disk, but only beyond the end points of the segment
+            return None;
+        }
         let t1 = clamp(t1, 0.0, 1.0);
         let t2 = clamp(t2, 0.0, 1.0);
         Some([t1, t2])
-- 
2.43.0


From 6c38913723eb8c1cb795b134c8228bcbcb73e189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 24/35] fix: detect segments that cross a polygon with both end
 points outside

---
 fenris-geometry/src/polygon.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fenris-geometry/src/polygon.rs b/fenris-geometry/src/polygon.rs
index f65bb5d..c40a8d9 100644
--- a/fenris-geometry/src/polygon.rs
+++ b/fenris-geometry/src/polygon.rs
@@ -140,6 +140,10 @@ where
             }
         });
 
+        if intersects {
+            return true;
+        }
+
         for (endpoint, closest_edge_idx) in izip!(&endpoints, &closest_edges) {
             // We can unwrap here, because we know that the Polygon has at least one edge
             let closest_edge = self.get_edge(*closest_edge_idx).unwrap();
-- 
2.43.0


From 7a1612df5280d6383a7020c0ad28749dda4cef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 25/35] fix: compute solid angles larger than half of the
 sphere

---
 fenris-geometry/src/primitives/triangle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fenris-geometry/src/primitives/triangle.rs b/fenris-geometry/src/primitives/triangle.rs
index f27d472..8f71936 100644
--- a/fenris-geometry/src/primitives/triangle.rs
+++ b/fenris-geometry/src/primitives/triangle.rs
@@ -279,8 +279,8 @@ impl<T: Real> Triangle3d<T> {
         let cnorm = c.norm();
 
         let denominator = anorm * bnorm * cnorm + a.dot(&b) * cnorm + b.dot(&c) * anorm + c.dot(&a) * bnorm;
-        let tan_omega_half = abc_matrix.determinant() / denominator;
-        2.0 * tan_omega_half.atan()
+        // The denominator is negative for angles larger than a half sphere
+        2.0 * abc_matrix.determinant().atan2(denominator)
     }
 }
 
-- 
2.43.0


From bbab8a7018f9a4122cf284854d4465ee93ee9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 26/35] fix: keep vertices of clipped convex polygons on the
 clipped edges instead of panicking

---
 fenris-geometry/src/polytope.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 2cc654b..6771632 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -1,7 +1,7 @@
-use crate::{HalfPlane, Line2d, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
+use crate::{HalfPlane, LineSegment2d, SimplePolygon2d, Triangle, Triangle2d};
 use fenris_traits::Real;
 use itertools::Itertools;
-use nalgebra::{Point2, Scalar, Unit, Vector2};
+use nalgebra::{clamp, Point2, Scalar, Unit, Vector2};
 
 /// Type used to indicate conversion failure in the presence of concavity.
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
@@ -129,16 +129,16 @@ where
                 }
 
                 if (v1_contained && !v2_contained) || (!v1_contained && v2_contained) {
-                    // Edge is intersected, add vertex at intersection point
-                    let dir = (v2 - v1).normalize();
-                    let intersection_point = half_plane
-                        .surface()
-                        .intersect(&Line2d::from_point_and_dir(v1.clone(), dir))
-                        .expect(
-                            "We already know that the line must intersect the edge, \
-                             so this should work unless we have some ugly numerical \
-                             artifacts.",
-                        );
+                    // Edge is intersected, add vertex at intersection point.
+                    // If the edge is very nearly parallel to the surface of the half plane, numerical errors may
+                    // lead to intersections far outside of the edge, or to no intersection at all,
+                    // so we make sure that the new vertex is always located on the edge.
+                    let segment = LineSegment2d::from_end_points(v1.clone(), v2.clone());
+                    let t = segment
+                        .intersect_line_parametric(&half_plane.surface())
+                        .map(|t| clamp(t, T::zero(), T::one()))
+                        .unwrap_or(T::zero());
+                    let intersection_point = segment.point_from_parameter(t);
 
                     new_vertices.push(intersection_point);
                 }
-- 
2.43.0


From 88db5c2f828ff9026c472bd60e28bb7676316c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 27/35] fix: intersect convex polygons with an empty polygon to
 an empty polygon

---
 fenris-geometry/src/polytope.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fenris-geometry/src/polytope.rs b/fenris-geometry/src/polytope.rs
index 6771632..0effb84 100644
--- a/fenris-geometry/src/polytope.rs
+++ b/fenris-geometry/src/polytope.rs
@@ -151,7 +151,10 @@ where
     /// Computes the intersection of this polygon and the given convex polygon.
     pub fn intersect_polygon(&self, other: &ConvexPolygon<T>) -> Self {
         // TODO: Deal with degeneracies
-        if self.is_point() || other.is_point() {
+        if self.is_empty() || other.is_empty() {
+            // There are no half planes that describe the empty set
+            ConvexPolygon::from_vertices(Vec::new())
+        } else if self.is_point() || other.is_point() {
             unimplemented!()
         } else if self.is_line_segment() {
             let segment = LineSegment2d::from_end_points(self.vertices[0], self.vertices[1]);
-- 
2.43.0


From b66992341a7956b34cd260a75f2ebcf1dfdb2305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 28/35] fix: compute the gradient of the distance to a box
 independently of the size of the box

---
 fenris-geometry/src/sdf.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/fenris-geometry/src/sdf.rs b/fenris-geometry/src/sdf.rs
index f71a9b6..92abda6 100644
--- a/fenris-geometry/src/sdf.rs
+++ b/fenris-geometry/src/sdf.rs
@@ -156,16 +156,19 @@ where
 
     #[replace_float_literals(T::from_f64(literal).expect("Literal must fit in T"))]
     fn gradient(&self, x: &Point2<T>) -> Option<Vector2<T>> {
-        // TODO: Replace finite differences with "proper" gradient
-        // Note: arbitrary "step"/resolution h
-        let h = 1e-4;
-        let mut gradient = Vector2::zeros();
-        for i in 0..2 {
-            let mut dx = Vector2::zeros();
-            dx[i] = h;
-            gradient[i] = (self.eval(&(x + dx)) - self.eval(&(x - dx))) / (2.0 * h)
-        }
-        // There is no gradient on the medial axis, where the differences may vanish
+        let b = self.aabb.extents() / 2.0;
+        let p = x - self.aabb.center();
+        let d = p.abs() - b;
+
+        let outside = d.sup(&Vector2::zeros());
+        // Inside of the box, the direction is given by the closest side
+        let magnitude = if outside == Vector2::zeros() {
+            d.map(|d_i| if d_i == d[d.imax()] { 1.0 } else { 0.0 })
+        } else {
+            outside
+        };
+        let gradient = magnitude.zip_map(&p, |m_i, p_i| if p_i == 0.0 { 0.0 } else { m_i * p_i.signum() });
+        // There is no gradient on the medial axis, where no side is the closest
         gradient.try_normalize(0.0)
     }
 }
-- 
2.43.0


From 9191522a13e5778dc8ef728ad3d9f2da57a91134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:18 +0000
Subject: [PATCH 29/35] fix: account for the size and the position of the
 element when mapping points to reference coordinates

The projection compared the gradient of the squared distance, which scales with the square of the
diameter, against a tolerance proportional to the diameter, so that it stopped too early for
very small elements and never for very large ones. Both the map and the projection also asked for more
accuracy than floating-point coordinates can have when a small element is far from the origin.
---
 src/element.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index d617ec3..add632a 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -350,7 +350,9 @@ where
     // the diameter of the element to give us a representative scale of the "size" of x,
     // so we can construct our convergence criterion as follows:
     //   ||T(x_i) - x|| <= eps * diameter
-    // with eps some small constant.
+    // with eps some small constant. However, T(x_i) and x are themselves only known up to rounding,
+    // so for an element that is small compared to its distance from the origin we cannot
+    // do better than a small multiple of the machine epsilon relative to x.
 
     let settings = NewtonSettings {
         // Note: Max iterations is entirely random at this point. Should of course
@@ -358,7 +360,8 @@ where
         max_iterations: Some(20),
         // TODO: eps is here hard-coded without respect to the type T, so it will not be appropriate
         // across e.g. different floating point types. Fix this!
-        tolerance: T::from_f64(1e-12).unwrap() * element.diameter(),
+        tolerance: T::from_f64(1e-12).unwrap() * element.diameter()
+            + T::from_f64(10.0).unwrap() * T::default_epsilon() * x.coords.norm(),
     };
 
     let mut xi = OVector::<T, GeometryDim>::zeros();
@@ -408,8 +411,12 @@ where
         "ReferenceDim must be smaller or equal to GeometryDim."
     );
 
-    // See comments in `map_physical_coordinates` for why this is a reasonable tolerance.
-    let tolerance = T::from_f64(1e-12).unwrap() * element.diameter();
+    // See comments in `map_physical_coordinates` for why this is a reasonable tolerance
+    // for the distance. Below it is multiplied by the transposed Jacobian, whose entries
+    // are also proportional to the diameter.
+    let diameter = element.diameter();
+    let rounding = T::from_f64(10.0).unwrap() * T::default_epsilon() * x.coords.norm();
+    let tolerance = (T::from_f64(1e-12).unwrap() * diameter + rounding) * diameter;
 
     // We wish to solve the system
     //  f(xi) - x = 0,
@@ -428,7 +435,6 @@ where
     let mut jT = j.transpose();
 
     let mut iter = 0;
-    // TODO: Do we need to alter the tolerance due to the jT term?
     while (&jT * (&f - x)).norm() > tolerance {
         let jTj = &jT * j;
         let lu = jTj.full_piv_lu();
-- 
2.43.0


From d49a7c66b30218eb0f8272e57f9bc232706b9c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 30/35] fix: make the polar decomposition independent of the
 scale of the deformation gradient

---
 src/util.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index 6db5b61..7d566f4 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -175,7 +175,14 @@ pub fn apd<T: Real>(
     max_iter: usize,
     tol: T,
 ) -> UnitQuaternion<T> {
-    let F = deformation_grad;
+    // The rotation is independent of the scale of the deformation gradient, but the constants below
+    // are meant for entries of moderate size, so use the scale of the identity
+    let norm = deformation_grad.norm();
+    let F = if norm > T::zero() {
+        deformation_grad * (T::sqrt(3.0) / norm)
+    } else {
+        deformation_grad.clone()
+    };
     let mut q: UnitQuaternion<T> = initial_guess.clone();
 
     let tol_squared = tol * tol;
-- 
2.43.0


From 987c87753d4e7e7a469c65d0c63427103ebdcd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 31/35] fix: refuse to deserialize a nested vector whose
 offsets are out of bounds

---
 fenris-nested-vec/src/lib.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/fenris-nested-vec/src/lib.rs b/fenris-nested-vec/src/lib.rs
index 50bf7f9..4ea7e3b 100644
--- a/fenris-nested-vec/src/lib.rs
+++ b/fenris-nested-vec/src/lib.rs
@@ -3,14 +3,47 @@ use std::fmt;
 use std::fmt::Debug;
 use std::ops::Range;
 
-// TODO: Manually implement Deserialize to avoid soundness hole
 #[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "SerializedNestedVec<T>")]
 pub struct NestedVec<T> {
     data: Vec<T>,
     offsets_begin: Vec<usize>,
     offsets_end: Vec<usize>,
 }
 
+/// The data of a serialized [`NestedVec`], whose offsets can not be trusted.
+#[derive(Deserialize)]
+#[serde(rename = "NestedVec")]
+struct SerializedNestedVec<T> {
+    data: Vec<T>,
+    offsets_begin: Vec<usize>,
+    offsets_end: Vec<usize>,
+}
+
+impl<T> TryFrom<SerializedNestedVec<T>> for NestedVec<T> {
+    type Error = &'static str;
+
+    fn try_from(serialized: SerializedNestedVec<T>) -> Result<Self, Self::Error> {
+        let SerializedNestedVec {
+            data,
+            offsets_begin,
+            offsets_end,
+        } = serialized;
+        if offsets_begin.len() != offsets_end.len() {
+            return Err("each array must have exactly one begin offset and one end offset");
+        }
+        let mut ranges = offsets_begin.iter().zip(&offsets_end);
+        if !ranges.all(|(begin, end)| begin <= end && *end <= data.len()) {
+            return Err("array offsets are out of bounds");
+        }
+        Ok(Self {
+            data,
+            offsets_begin,
+            offsets_end,
+        })
+    }
+}
+
 impl<T: Debug> Debug for NestedVec<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_list().entries(self.iter()).finish()
-- 
2.43.0


From b0584bf9861a824ae7e0335fa9086fa4d81984a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 32/35] fix: refuse to deserialize subsets of indices that are
 not disjoint

---
 fenris-paradis/src/lib.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/fenris-paradis/src/lib.rs b/fenris-paradis/src/lib.rs
index 7ada0c7..1b07f67 100644
--- a/fenris-paradis/src/lib.rs
+++ b/fenris-paradis/src/lib.rs
@@ -168,6 +168,7 @@ pub unsafe trait ParallelIndexedCollection<'a> {
 /// empty.
 ///
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "SerializedDisjointSubsets")]
 pub struct DisjointSubsets {
     // Store the max global index present in any of the subsets. We need this to
     // ensure that none of the indices are out of bounds when accessing a storage.
@@ -180,6 +181,35 @@ pub struct DisjointSubsets {
     labels: Vec<usize>,
 }
 
+/// The data of a serialized [`DisjointSubsets`], which can not be trusted to be disjoint.
+#[derive(Deserialize)]
+#[serde(rename = "DisjointSubsets")]
+struct SerializedDisjointSubsets {
+    max_index: Option<usize>,
+    subsets: NestedVec<usize>,
+    labels: Vec<usize>,
+}
+
+impl TryFrom<SerializedDisjointSubsets> for DisjointSubsets {
+    type Error = &'static str;
+
+    fn try_from(serialized: SerializedDisjointSubsets) -> Result<Self, Self::Error> {
+        let SerializedDisjointSubsets {
+            max_index,
+            subsets,
+            labels,
+        } = serialized;
+        if subsets.len() != labels.len() {
+            return Err("must have exactly one label per subset");
+        }
+        let subsets = Self::try_from_disjoint_subsets(subsets, labels).map_err(|_| "subsets are not disjoint")?;
+        if subsets.max_index != max_index {
+            return Err("max index does not match the subsets");
+        }
+        Ok(subsets)
+    }
+}
+
 #[derive(Copy, Clone, Debug, PartialEq, Eq)]
 pub struct SubsetsNotDisjointError;
 
-- 
2.43.0


From c19c33055209694ed2b9f3cb8ccebdfa23bebeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 33/35] fix: invert reference maps in single precision

The tolerances relative to the diameter of the element were 1e-12 irrespective of the type, which
single precision only reaches for points that are far away from the origin. Points close to the origin
were reported not to converge.
---
 src/element.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/element.rs b/src/element.rs
index add632a..c44cc42 100644
--- a/src/element.rs
+++ b/src/element.rs
@@ -297,6 +297,16 @@ where
     2.0 * (3.0 / 2.0 * alpha2 - 1.0) * xi + 0.5 * alpha
 }
 
+/// The accuracy, relative to the diameter of the element, to which we can expect to invert
+/// the reference map of an element.
+///
+/// This is 1e-12 in double precision. Types that are not as precise need a larger tolerance, since
+/// the reference map itself is only evaluated up to rounding.
+fn relative_mapping_tolerance<T: Real>() -> T {
+    let eps = T::from_f64(100.0).unwrap() * T::default_epsilon();
+    T::from_f64(1e-12).unwrap().max(eps)
+}
+
 /// Maps physical coordinates `x` to reference coordinates `xi` by solving the equation
 ///  x - T(xi) = 0 using Newton's method.
 ///
@@ -358,9 +368,7 @@ where
         // Note: Max iterations is entirely random at this point. Should of course
         // be made configurable. TODO
         max_iterations: Some(20),
-        // TODO: eps is here hard-coded without respect to the type T, so it will not be appropriate
-        // across e.g. different floating point types. Fix this!
-        tolerance: T::from_f64(1e-12).unwrap() * element.diameter()
+        tolerance: relative_mapping_tolerance::<T>() * element.diameter()
             + T::from_f64(10.0).unwrap() * T::default_epsilon() * x.coords.norm(),
     };
 
@@ -416,7 +424,7 @@ where
     // are also proportional to the diameter.
     let diameter = element.diameter();
     let rounding = T::from_f64(10.0).unwrap() * T::default_epsilon() * x.coords.norm();
-    let tolerance = (T::from_f64(1e-12).unwrap() * diameter + rounding) * diameter;
+    let tolerance = (relative_mapping_tolerance::<T>() * diameter + rounding) * diameter;
 
     // We wish to solve the system
     //  f(xi) - x = 0,
-- 
2.43.0


From e5695e10bd747743d44c8ef5d54974e08c0a55b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 02:29:30 +0000
Subject: [PATCH 34/35] fix: no edges, rather than a panic, for a polygon
 without vertices

SimplePolygon2d::edge_iter unwrapped the first vertex, but polygons without vertices exist (an empty
intersection of convex polygons becomes one) and all other methods treat them as having no edges.
---
 fenris-geometry/src/polygon.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fenris-geometry/src/polygon.rs b/fenris-geometry/src/polygon.rs
index c40a8d9..2e9c572 100644
--- a/fenris-geometry/src/polygon.rs
+++ b/fenris-geometry/src/polygon.rs
@@ -7,7 +7,6 @@ use itertools::{izip, Itertools};
 use nalgebra::allocator::Allocator;
 use nalgebra::{clamp, DefaultAllocator, DimName, Isometry3, OPoint, Point2, Point3, Scalar, Vector2, Vector3, U2, U3};
 use serde::{Deserialize, Serialize};
-use std::iter::once;
 
 use numeric_literals::replace_float_literals;
 
@@ -317,7 +316,7 @@ where
     pub fn edge_iter<'a>(&'a self) -> impl 'a + Iterator<Item = LineSegment2d<T>> {
         self.vertices
             .iter()
-            .chain(once(self.vertices.first().unwrap()))
+            .chain(self.vertices.first())
             .tuple_windows()
             .map(|(a, b)| LineSegment2d::from_end_points(a.clone(), b.clone()))
     }
-- 
2.43.0


From 0134cc3cc3afc49b57403cdbcbb9899cc032c384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:27 +0000
Subject: [PATCH 35/35] fix: keep zero out of the range of the components of
 nondegenerate segments

---
 fenris-geometry/src/proptest.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fenris-geometry/src/proptest.rs b/fenris-geometry/src/proptest.rs
index c2b5174..d615aa4 100644
--- a/fenris-geometry/src/proptest.rs
+++ b/fenris-geometry/src/proptest.rs
@@ -157,7 +157,7 @@ pub fn clockwise_triangle2d_strategy_f64() -> impl Strategy<Value = Triangle2d<f
 
 pub fn nondegenerate_line_segment2d_strategy_f64() -> impl Strategy<Value = LineSegment2d<f64>> {
     // Make sure to construct the second point from non-zero components
-    let gen = prop_oneof![0.5..3.5, -0.5..3.5, 1e-6..10.0, -10.0..-1e-6];
+    let gen = prop_oneof![0.5..3.5, -3.5..-0.5, 1e-6..10.0, -10.0..-1e-6];
     (point2(), gen.clone(), gen).prop_map(|(a, x, y)| {
         let d = Vector2::new(x, y);
         let b = a + d;
-- 
2.43.0

