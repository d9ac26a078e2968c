From ab80b4dc71e6fc45c4164a798407f804997e7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 01/38] fix: mesh translation after a rotation discarded the
 rotation of the nodes

---
 xrd_simulator/mesh.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 34baafc..27098d1 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -222,15 +222,14 @@ class TetraMesh(object):
         translation_vector : numpy.ndarray or torch.Tensor
             Translation vector ``[x, y, z]``, shape ``(3,)``.
         """
-        # Convert to numpy if torch tensor
-        if torch.is_tensor(translation_vector):
-            translation_vector = utils.ensure_numpy(translation_vector)
-        
-        self._mesh.points += translation_vector
-        self.coord = utils.ensure_torch(self._mesh.points, dtype=torch.float64)
-        self.ecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
-        self.espherecentroids += utils.ensure_torch(translation_vector, dtype=torch.float64)
-        self.centroid += utils.ensure_torch(translation_vector, dtype=torch.float64)
+        translation_vector = utils.ensure_torch(translation_vector, dtype=torch.float64)
+
+        # The current nodes are in coord; _mesh.points does not follow update().
+        self.coord = self.coord + translation_vector
+        self._mesh.points = utils.ensure_numpy(self.coord).copy()
+        self.ecentroids = self.ecentroids + translation_vector
+        self.espherecentroids = self.espherecentroids + translation_vector
+        self.centroid = self.centroid + translation_vector
 
     def rotate(self, rotation_axis, angle):
         """Rotate the mesh.
-- 
2.43.0


From 4477b43701d50eb3142f9bde3abed4588c3fccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 02/38] fix: diffraction of exactly one peak crashed on a
 zero-dimensional Lorentz factor

---
 xrd_simulator/scattering_factors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index b58454d..10c102a 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -64,7 +64,8 @@ def _lorentz(
     result = 1.0 / (torch.sin(2 * theta) * torch.abs(torch.sin(eta)))
     result = torch.where(condition, torch.tensor(float("inf")), result)
 
-    return result.squeeze()  # Remove singleton dimensions for single vector input
+    # Remove the batch dimension for single vector input only
+    return result.squeeze() if k_out.dim() == 1 else result
 
 
 def _polarization(k_out: torch.Tensor, pol_vec: torch.Tensor) -> torch.Tensor | float:
-- 
2.43.0


From e6dbbefcd680d2198b270ba828b85c782d37cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 03/38] fix: polycrystals without an element phase map could
 not be diffracted

---
 xrd_simulator/polycrystal.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 2458a2d..a6b60be 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -625,8 +625,7 @@ class Polycrystal:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
             element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
-        else:
-            element_phase_map = ensure_torch(element_phase_map)
+        element_phase_map = ensure_torch(element_phase_map)
         return element_phase_map, phases
 
     def _instantiate_eB(
-- 
2.43.0


From 37ebb05bf1cd11f30cc437351e33cb89d0ccac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 04/38] fix: detectors got one pixel row and column too many
 for some pixel counts

---
 xrd_simulator/detector.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index b520994..8489b81 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -413,8 +413,12 @@ class Detector:
         # Get device from det_corner_0 to ensure all tensors are on same device
         dev = self.det_corner_0.device
 
-        zds = torch.arange(0, self.zmax, self.pixel_size_z, device=dev)
-        yds = torch.arange(0, self.ymax, self.pixel_size_y, device=dev)
+        # Count the pixels first: arange(0, zmax, pixel_size) gives one too many
+        # whenever zmax / pixel_size is rounded up.
+        n_z = max(int(torch.ceil(self.zmax / self.pixel_size_z - 1e-6)), 1)
+        n_y = max(int(torch.ceil(self.ymax / self.pixel_size_y - 1e-6)), 1)
+        zds = torch.arange(n_z, device=dev) * self.pixel_size_z
+        yds = torch.arange(n_y, device=dev) * self.pixel_size_y
         Z, Y = torch.meshgrid(zds, yds, indexing="ij")
         Zds = torch.zeros((len(zds), len(yds), 3), device=dev)
         Yds = torch.zeros((len(zds), len(yds), 3), device=dev)
@@ -587,8 +591,8 @@ class Detector:
             max_zd, max_yd
         )
 
-        max_row_indx = min(max_row_indx + 1, int(zmax / self.pixel_size_z))
-        max_col_indx = min(max_col_indx + 1, int(ymax / self.pixel_size_y))
+        max_row_indx = min(max_row_indx + 1, self.pixel_coordinates.shape[0])
+        max_col_indx = min(max_col_indx + 1, self.pixel_coordinates.shape[1])
 
         return min_row_indx, max_row_indx, min_col_indx, max_col_indx
 
-- 
2.43.0


From 92c17b58ee42cad07935427e0084e5cb7add42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 05/38] fix: mesh element volumes were negative for reversed
 node orders

---
 xrd_simulator/mesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 27098d1..84acb04 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -454,7 +454,10 @@ class TetraMesh(object):
         a = vertices[:, 1, :] - vertices[:, 0, :]
         b = vertices[:, 2, :] - vertices[:, 0, :]
         c = vertices[:, 3, :] - vertices[:, 0, :]
-        evolumes = (1 / 6.0) * torch.sum(torch.cross(a, b, dim=1) * c, dim=1)
+        # The node order of an element may give either sign
+        evolumes = (1 / 6.0) * torch.abs(
+            torch.sum(torch.cross(a, b, dim=1) * c, dim=1)
+        )
         return evolumes
 
     def _compute_mesh_spheres(self, coord, enod):
-- 
2.43.0


From 56d176fa390c130d67f54dca91e8cd0005684df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 06/38] fix: rigid body motion failed or lost a dimension for
 documented input shapes

---
 xrd_simulator/motion.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 4e7c639..3f648d4 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -126,6 +126,7 @@ class RigidBodyMotion:
         elif len(vectors.shape) == 3:
             # Handle (N, M, 3) input shapes - typically (N_peaks, 4_vertices, 3_coords)
             N, M, _ = vectors.shape
+            time = time.reshape(-1).expand(N)  # a single time is for all vectors
             translation = self.translation.reshape(1, 3)
             origin = self.origin.reshape(1, 3)
             centered_vectors = vectors - origin
@@ -137,7 +138,7 @@ class RigidBodyMotion:
             # Don't squeeze - preserve shape for proper indexing downstream
             return (
                 rotated_vectors
-                + translation * ensure_torch(time)[:, torch.newaxis, torch.newaxis]
+                + translation * time[:, torch.newaxis, torch.newaxis]
             )
 
     def rotate(self, vectors, time):
@@ -191,7 +192,7 @@ class RigidBodyMotion:
         
         vectors = ensure_torch(vectors)
         
-        if len(vectors.shape) > 1:
+        if len(vectors.shape) > 1 and vectors.shape[0] == 3:
             translation = self.translation.reshape(3, 1)
         else:
             translation = self.translation
@@ -362,14 +363,13 @@ class _RodriguezRotator(object):
         R = self.get_rotation_matrix(rotation_angle)
         vectors = ensure_torch(vectors)
 
-        if len(vectors.shape) == 1:
+        single_vector = len(vectors.shape) == 1
+        if single_vector:
             vectors = vectors[None, :]
-        
-        # Handle both scalar and vector rotation_angle cases
-        if rotation_angle.ndim == 0:
-            # Scalar case: R is (3,3), vectors is (N,3) -> output (N,3)
-            return torch.squeeze(torch.matmul(R, vectors[:, :, None]))
-        else:
-            # Vector case: R is (N,3,3), vectors is (N,3) -> output (N,3)
-            # Use bmm: (N,3,3) × (N,3,1) -> (N,3,1) -> squeeze to (N,3)
-            return torch.bmm(R, vectors.unsqueeze(-1)).squeeze(-1)
+
+        # R is (3,3), (1,3,3) or (N,3,3), vectors is (N,3) -> output (N,3)
+        rotated_vectors = torch.matmul(R, vectors.unsqueeze(-1)).squeeze(-1)
+
+        if single_vector and rotation_angle.ndim == 0:
+            return rotated_vectors[0]
+        return rotated_vectors
-- 
2.43.0


From f9441618d0e766ad8ef60babb079a8768013d801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 07/38] fix: moving the sample or the beam after diffraction
 changed the rendering of its peaks

---
 xrd_simulator/polycrystal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index a6b60be..61d066b 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -223,9 +223,10 @@ class Polycrystal:
             "wavelength": beam.wavelength,
             "rotation_axis": rigid_body_motion.rotation_axis,
             # Store mesh and motion data for on-demand hull computation
-            "mesh_lab": self.mesh_lab,
-            "rigid_body_motion": rigid_body_motion,
-            "beam": beam,
+            # (copies, the originals may be moved before the peaks are rendered)
+            "mesh_lab": copy.deepcopy(self.mesh_lab),
+            "rigid_body_motion": copy.deepcopy(rigid_body_motion),
+            "beam": copy.deepcopy(beam),
             "verbose": verbose,
         }
 
-- 
2.43.0


From 9dfebd15cf996415e69cc7db9ce454f897f8c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 08/38] fix: changing an input array in place changed the
 motion, detector or polycrystal made from it

---
 xrd_simulator/detector.py    | 6 +++---
 xrd_simulator/motion.py      | 8 ++++----
 xrd_simulator/polycrystal.py | 6 +++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 8489b81..177b23a 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -135,9 +135,9 @@ class Detector:
         use_polarization: bool = True,
         use_structure_factor: bool = True,
     ):
-        self.det_corner_0 = ensure_torch(det_corner_0)
-        self.det_corner_1 = ensure_torch(det_corner_1)
-        self.det_corner_2 = ensure_torch(det_corner_2)
+        self.det_corner_0 = ensure_torch(det_corner_0).clone()
+        self.det_corner_1 = ensure_torch(det_corner_1).clone()
+        self.det_corner_2 = ensure_torch(det_corner_2).clone()
 
         self.zmax = torch.linalg.norm(self.det_corner_2 - self.det_corner_0)
         self.ymax = torch.linalg.norm(self.det_corner_1 - self.det_corner_0)
diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 3f648d4..6da10d4 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -70,10 +70,10 @@ class RigidBodyMotion:
             rotation_angle < torch.pi and rotation_angle > 0
         ), "The rotation angle must be in [0 pi]"
         self.rotator = _RodriguezRotator(rotation_axis)
-        self.rotation_axis = ensure_torch(rotation_axis)
-        self.rotation_angle = ensure_torch(rotation_angle)
-        self.translation = ensure_torch(translation)
-        self.origin = ensure_torch(origin)
+        self.rotation_axis = ensure_torch(rotation_axis).clone()
+        self.rotation_angle = ensure_torch(rotation_angle).clone()
+        self.translation = ensure_torch(translation).clone()
+        self.origin = ensure_torch(origin).clone()
 
     def __call__(self, vectors, time):
         """Find the transformation of a set of points at a prescribed time.
diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 61d066b..b7844f5 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -566,7 +566,7 @@ class Polycrystal:
                 dim=0,
             )
         elif orientation.shape == (mesh.number_of_elements, 3, 3):
-            orientation_lab = ensure_torch(orientation)
+            orientation_lab = ensure_torch(orientation).clone()
         else:
             raise ValueError("orientation input is of incompatible shape")
         return orientation_lab
@@ -592,7 +592,7 @@ class Polycrystal:
         if strain.shape == (3, 3):
             strain_lab = strain.unsqueeze(0).repeat(mesh.number_of_elements, 1, 1)
         elif strain.shape == (mesh.number_of_elements, 3, 3):
-            strain_lab = strain  # Fixed: was np.copy(strain) which returned numpy array
+            strain_lab = strain.clone()
         else:
             raise ValueError("strain input is of incompatible shape")
         return strain_lab
@@ -626,7 +626,7 @@ class Polycrystal:
             if len(phases) > 1:
                 raise ValueError("element_phase_map not set for multiphase polycrystal")
             element_phase_map = np.zeros((mesh.number_of_elements,), dtype=int)
-        element_phase_map = ensure_torch(element_phase_map)
+        element_phase_map = ensure_torch(element_phase_map).clone()
         return element_phase_map, phases
 
     def _instantiate_eB(
-- 
2.43.0


From 5754e6fc7f5f3636aad5f8bc3573b46f917731d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 09/38] fix: diffraction ignored the requested maximum Bragg
 angle when given a detector

---
 xrd_simulator/polycrystal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index b7844f5..6b6994e 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -713,9 +713,13 @@ class Polycrystal:
         else:
             source_point = ensure_torch(self.mesh_lab.centroid)
         
-        max_bragg_angle = detector._get_wrapping_cone(
+        detector_bragg_angle = detector._get_wrapping_cone(
             beam.wave_vector, source_point
         ).item()
+        if max_bragg_angle is None:
+            max_bragg_angle = detector_bragg_angle
+        else:
+            max_bragg_angle = min(max_bragg_angle, detector_bragg_angle)
 
         assert (
             min_bragg_angle >= 0
-- 
2.43.0


From 9b78cc28d40cb76e03d7504908d690053f7ff98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 10/38] fix: peaks that were already rendered were rendered
 with stale detector coordinates and frames

---
 xrd_simulator/detector.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 177b23a..364c59f 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -676,8 +676,10 @@ class Detector:
         ['zd', 'yd', 'incident_angle', 'frame', 'intensity_factors']
         """
         self._verbose = verbose
-        peaks = peaks_dict["peaks"]
-        columns = list(peaks_dict["columns"])  # copy to avoid mutating the original
+        # Drop columns of an earlier intersection (25 is their first), they may be for
+        # another detector or another number of frames. Slicing copies the columns.
+        peaks = peaks_dict["peaks"][:, :25]
+        columns = list(peaks_dict["columns"])[:25]
 
         zd_yd_angle = self._get_intersection(peaks[:, 13:16], peaks[:, 16:19])
         peaks = torch.cat((peaks, zd_yd_angle), dim=1)
-- 
2.43.0


From 4b69c48a30936b3fb71e8c1f5e1f934ab87e2f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 11/38] fix: automatic rendering ignored the requested number
 type

---
 xrd_simulator/detector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 364c59f..a9b6d9f 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -349,6 +349,7 @@ class Detector:
                     self.pixel_coordinates.shape[1],
                 ),
                 device=peaks.device,
+                dtype=target_dtype,
             )
 
             # Collect contributions (each returns frames_to_render-length tensors)
-- 
2.43.0


From d85a8b5d7825f4ba7059c9c197a83f8f917a8e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:54 +0000
Subject: [PATCH 12/38] fix: Laue solutions were wrong or lost when the
 quadratic degenerates, double roots were reported twice

---
 xrd_simulator/laue.py | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/xrd_simulator/laue.py b/xrd_simulator/laue.py
index 9881447..830db57 100644
--- a/xrd_simulator/laue.py
+++ b/xrd_simulator/laue.py
@@ -97,41 +97,30 @@ def _find_solutions_to_tangens_half_angle_equation(
     # Compute rho_0 and rho_2
     rho_0 = torch.matmul(rho_0_factor, G_0)
     rho_2 = torch.matmul(rho_2_factor, G_0) + torch.sum(G_0**2, axis=1) / 2.0
+    rho_1 = torch.matmul(rho_1_factor, G_0)
     denominator = rho_2 - rho_0
     numerator = rho_2 + rho_0
 
-    del rho_2
-    #Remove 0 denominators
-    denominator[denominator==0] = torch.nan
+    del rho_0, rho_2
 
-    # Calculate coefficients for quadratic equation
-    a = torch.divide(
-        torch.matmul(rho_1_factor, G_0),
-        denominator,
-        out=torch.full_like(rho_0, torch.nan)
-    )
-
-    b = torch.divide(
-        numerator, denominator, out=torch.full_like(rho_0, torch.nan)
-    )
-
-    # Clean up unnecessary variables
-
-    del denominator, numerator, rho_0
+    # Equation (2) with a non-negative leading coefficient
+    sign = torch.where(denominator < 0, -1.0, 1.0)
+    denominator, rho_1, numerator = sign * denominator, sign * rho_1, sign * numerator
+    del sign
 
     # Calculate discriminant
-
-    discriminant = a**2 - b
-    del b
+    discriminant = rho_1**2 - denominator * numerator
 
     # Handle cases where discriminant is negative
     discriminant[discriminant<0] = torch.nan
-    # discriminant[discriminant>10] = torch.nan 
 
-    # Calculate solutions for s
-    s1 = -a + torch.sqrt(discriminant)
-    s2 = -a - torch.sqrt(discriminant)
-    del a, discriminant
+    # Calculate solutions for s. Of the two equivalent forms of each root the one without
+    # cancellation is used, as the denominator may be zero, or zero up to rounding.
+    root = torch.sqrt(discriminant)
+    s1 = torch.where(rho_1 > 0, numerator / (-rho_1 - root), (-rho_1 + root) / denominator)
+    s2 = torch.where(rho_1 > 0, (-rho_1 - root) / denominator, numerator / (-rho_1 + root))
+    s2[root == 0] = torch.nan  # a double root is a single solution
+    del root, discriminant, rho_1, denominator, numerator
     t1 = 2 * torch.arctan(s1) / delta_omega
     del s1
     indices_t1 = torch.argwhere(torch.logical_and(t1 >= 0, t1 <= 1))
-- 
2.43.0


From 91a3b0e38d46a58ac553ec336a3e2054665d2bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 13/38] fix: polycrystal mesh was saved under a truncated path
 when the path contained dots

---
 xrd_simulator/polycrystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 6b6994e..3b21596 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -457,7 +457,7 @@ class Polycrystal:
             xdmf_path = path + ".xdmf"
         else:
             pickle_path = path
-            xdmf_path = path.split(".")[0] + ".xdmf"
+            xdmf_path = path[: -len(".pc")] + ".xdmf"
         with open(pickle_path, "wb") as f:
             dill.dump(self, f, dill.HIGHEST_PROTOCOL)
         if save_mesh_as_xdmf:
-- 
2.43.0


From 12683b280ed312f5a90a31be82dcd8313c86b6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 14/38] fix: saving a mesh rewrapped the element data of the
 caller

---
 xrd_simulator/mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/mesh.py b/xrd_simulator/mesh.py
index 84acb04..9a714b7 100644
--- a/xrd_simulator/mesh.py
+++ b/xrd_simulator/mesh.py
@@ -285,6 +285,7 @@ class TetraMesh(object):
             save_path = file
 
         if element_data is not None:
+            element_data = dict(element_data)  # the caller keeps its data as it is
             for key in element_data:
                 if torch.is_tensor(element_data[key]):
                     element_data[key] = [list(utils.ensure_numpy(element_data[key]))]
-- 
2.43.0


From b75eca208e0a281f0a94a71e72d5e2c3bd8b6791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 15/38] fix: Lorentz factor was undefined instead of infinite
 for rays scattered along the rotation axis

---
 xrd_simulator/scattering_factors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index 10c102a..b1aaaeb 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -51,7 +51,8 @@ def _lorentz(
     # Calculate korthogonal same way as in old version
     korthogonal = kp - k_in.reshape(1, 3) * (k_kp_norm.reshape(-1, 1))
     korth_norm = torch.linalg.norm(korthogonal, dim=1)
-    eta = torch.arccos(torch.matmul(rot_axis, korthogonal.T) / korth_norm)
+    cos_eta = torch.matmul(rot_axis, korthogonal.T) / korth_norm
+    eta = torch.arccos(torch.clamp(cos_eta, -1.0, 1.0))  # may round to beyond one
 
     # Apply tolerance conditions
     tol = 0.5
-- 
2.43.0


From 9b3996f50e0246280a89bea086efe07aeec78370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 16/38] fix: faint peaks lost their intensity or vanished in
 gaussian rendering

---
 xrd_simulator/detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index a9b6d9f..a10d3f1 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -930,8 +930,8 @@ class Detector:
                 & (z_pixels < diffraction_frames.shape[1])
                 & (y_pixels >= 0)
                 & (y_pixels < diffraction_frames.shape[2])
-                & (weights > 1e-6)
-            )  # Only significant weights
+                & (weights > 1e-6 * intensities[start:end].unsqueeze(1))
+            )  # Only significant weights (relative to the intensity of the peak)
 
             if valid.any():
                 valid_peaks, valid_offsets = valid.nonzero(as_tuple=True)
-- 
2.43.0


From a0c7e4e647216505bd79fc7e6c3603c6a8b05505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 17/38] fix: spots of nano sized crystals were rendered up to a
 pixel off their position

---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index a10d3f1..70715e6 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1227,7 +1227,8 @@ class Detector:
         # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
         # for small crystallites (broad patterns)
         # Use ~4 times the first zero to capture sufficient rings
-        radius = torch.tensor(max(4.0 * float(max_first_zero), 8.0))
+        # (whole pixels, so that the kernel is centred on its middle pixel)
+        radius = torch.tensor(max(float(torch.ceil(4.0 * max_first_zero)), 8.0))
 
         # Ensure we also capture Gaussian tails (cap at 128 pixels)
         max_airy_radius = 128
-- 
2.43.0


From fc1296ab728a20271d14a41ef9527bc6b3bc029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 18/38] fix: size broadening vanished on detectors whose normal
 points away from the sample

---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 70715e6..566ecb7 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1208,7 +1208,8 @@ class Detector:
         """
         detector_distance = torch.linalg.norm(self.det_corner_0)
         incident_angles_rad = incident_angles * torch.pi / 180
-        R = detector_distance / torch.cos(incident_angles_rad)
+        # The normal of the detector may point to or from the sample
+        R = detector_distance / torch.abs(torch.cos(incident_angles_rad))
 
         # Convert FWHM in radians to pixel scale
         fwhm_pixels = fwhm_rad * R / self.pixel_size_z
-- 
2.43.0


From 5952766c46666ce8673fd46529ccbcfe1347b5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:57 +0000
Subject: [PATCH 19/38] fix: projecting crystals thinner than a pixel or partly
 off the detector failed or gave undefined images

---
 xrd_simulator/detector.py | 84 ++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 36 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 566ecb7..1541582 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1643,39 +1643,8 @@ class Detector:
         if n_pixels_in_box == 1:
             # tetra is fully contained in a detector pixel, use the volume of the tetra as intensity
             return torch.ones(1, 1) * proj_context["convex_hull"].volume
-        elif (
-            n_pixels_in_box <= 4
-        ):  # tetra is small compared to the pixel size, adapt to sampling approach.
-            # This is a decent approximation when the tetras are small in relation to the pixel size
-            n_samples = (
-                7 * n_pixels_in_box
-            )  # TODO the ad-hoc number 7 here should perhaps be a parameter to give controll over the accuracy of the statistics.
-            ray_points = utils._sample_convex_hull_3d(
-                proj_context["convex_hull"], n_samples
-            )
-            ray_points.reshape(n_samples, 3)
-            ray_points = ensure_torch(ray_points)
-
-            clip_lengths = utils._clip_line_with_convex_polyhedron(
-                ray_points, ray_direction, plane_points, plane_normals
-            )
-            # now map the clip lengths to the detector pixels
-            ray_directions = torch.tile(ray_direction, (n_samples, 1))
-            out = self._get_intersection(ray_directions, ray_points)
-            zd = out[:, 0]
-            yd = out[:, 1]
-
-            row_index = ensure_numpy(zd / self.pixel_size_z).astype(int) - box[0]
-            col_index = ensure_numpy(yd / self.pixel_size_y).astype(int) - box[2]
-
-            box_intensities = np.zeros((box[1] - box[0], box[3] - box[2]))
-            np.add.at(box_intensities, (row_index, col_index), clip_lengths)
-            box_intensities /= box_intensities.sum()
-            box_intensities *= proj_context["convex_hull"].volume
-
-            return ensure_torch(box_intensities)
 
-        else:
+        if n_pixels_in_box > 4:
             # This is a good approximation when the tetras are large in relation to the pixel size
             # Get pixel coordinates and project on pixel centorid ray-lines
             pixel_coords = self.pixel_coordinates[box[0] : box[1], box[2] : box[3], :]
@@ -1687,11 +1656,54 @@ class Detector:
 
             # ensure that scattering is proportional to the material volume
             # that is scattering.
-            clip_lengths /= clip_lengths.sum()
-            clip_lengths *= proj_context["convex_hull"].volume
-            clip_lengths = clip_lengths.reshape(box[1] - box[0], box[3] - box[2])
+            if clip_lengths.sum() > 0:
+                clip_lengths /= clip_lengths.sum()
+                clip_lengths *= proj_context["convex_hull"].volume
+                return clip_lengths.reshape(box[1] - box[0], box[3] - box[2])
+            # else the hull is so thin that it falls in between the pixel ray-lines.
+
+        # tetra is small compared to the pixel size, adapt to sampling approach.
+        # This is a decent approximation when the tetras are small in relation to the pixel size
+        n_samples = (
+            7 * n_pixels_in_box
+        )  # TODO the ad-hoc number 7 here should perhaps be a parameter to give controll over the accuracy of the statistics.
+        ray_points = utils._sample_convex_hull_3d(
+            proj_context["convex_hull"], n_samples
+        )
+        ray_points.reshape(n_samples, 3)
+        ray_points = ensure_torch(ray_points)
+
+        clip_lengths = utils._clip_line_with_convex_polyhedron(
+            ray_points, ray_direction, plane_points, plane_normals
+        )
+        # now map the clip lengths to the detector pixels
+        ray_directions = torch.tile(ray_direction, (n_samples, 1))
+        out = self._get_intersection(ray_directions, ray_points)
+        zd = out[:, 0]
+        yd = out[:, 1]
+
+        row_index = ensure_numpy(torch.floor(zd / self.pixel_size_z)) - box[0]
+        col_index = ensure_numpy(torch.floor(yd / self.pixel_size_y)) - box[2]
+
+        box_intensities = np.zeros((box[1] - box[0], box[3] - box[2]))
+
+        # samples of a tetra that is partly outside the detector may miss the box
+        hits = (
+            (row_index >= 0)
+            & (row_index < box_intensities.shape[0])
+            & (col_index >= 0)
+            & (col_index < box_intensities.shape[1])
+        )
+        np.add.at(
+            box_intensities,
+            (row_index[hits].astype(int), col_index[hits].astype(int)),
+            ensure_numpy(clip_lengths)[hits],
+        )
+        if box_intensities.sum() > 0:
+            box_intensities /= box_intensities.sum()
+            box_intensities *= proj_context["convex_hull"].volume
 
-        return clip_lengths
+        return ensure_torch(box_intensities)
 
     # ------------------------------------------------------------------
     # 6. Convolution / kernel helpers
-- 
2.43.0


From 14a2fd71b3ca094a0e7916545c263199096aa202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 20/38] fix: reflections of oblique cells and of some space
 groups were missing, wrongly allowed or in random order

---
 xrd_simulator/phase.py | 51 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/phase.py b/xrd_simulator/phase.py
index 8821f60..29ed58e 100644
--- a/xrd_simulator/phase.py
+++ b/xrd_simulator/phase.py
@@ -20,7 +20,7 @@ functions.
 .. _The .cif file used in the above example can be found here.: https://github.com/FABLE-3DXRD/xrd_simulator/blob/main/docs/source/examples/quartz.cif?raw=true
 """
 import numpy as np
-from xfab import tools, structure
+from xfab import sg, tools
 from xrd_simulator import utils
 
 class Phase(object):
@@ -100,11 +100,56 @@ class Phase(object):
         """
         sintlmin = np.sin(min_bragg_angle) / wavelength
         sintlmax = np.sin(max_bragg_angle) / wavelength
-        self.miller_indices = tools.genhkl_all(
-            self.unit_cell, sintlmin, sintlmax, sgname=self.sgname)
+        self.miller_indices = self._get_allowed_miller_indices(sintlmin, sintlmax)
         if self.path_to_cif_file is not None:
             self._set_structure_factors(self.miller_indices)
 
+    def _get_allowed_miller_indices(self, sintlmin, sintlmax):
+        """Enumerate the reflections that are not systematically absent.
+
+        The reflections are taken from all integer lattice points in range and
+        the absences from the symmetry operations of the space group, since
+        ``xfab.tools.genhkl_all`` misses reflections of oblique cells, has
+        wrong absences for some space groups and a random row order.
+
+        Parameters
+        ----------
+        sintlmin : float
+            Lower bound (exclusive) of ``sin(theta) / wavelength``.
+        sintlmax : float
+            Upper bound (inclusive) of ``sin(theta) / wavelength``.
+
+        Returns
+        -------
+        numpy.ndarray
+            Miller indices, shape ``(n, 3)``, in order of increasing
+            ``sin(theta) / wavelength``.
+        """
+        space_group = sg.sg(sgname=self.sgname)
+        B = np.asarray(tools.form_b_mat(self.unit_cell))
+        h_max, k_max, l_max = (
+            int(np.ceil(2 * max(sintlmax, 0) * length)) for length in self.unit_cell[:3]
+        )
+        k, l = np.meshgrid(
+            np.arange(-k_max, k_max + 1), np.arange(-l_max, l_max + 1), indexing="ij"
+        )
+        miller_indices, sintl = [], []
+        for h in range(-h_max, h_max + 1):
+            hkl = np.stack([np.full(k.size, h), k.ravel(), l.ravel()], axis=1)
+            hkl_sintl = np.linalg.norm(hkl @ B.T, axis=1) / (4 * np.pi)
+            keep = (hkl_sintl > max(sintlmin, 0)) & (hkl_sintl <= sintlmax)
+            hkl, hkl_sintl = hkl[keep], hkl_sintl[keep]
+            absent = np.zeros(len(hkl), dtype=bool)
+            for rotation, translation in zip(space_group.rot, space_group.trans):
+                phase_shift = hkl @ np.asarray(translation)
+                absent |= np.all(hkl @ np.asarray(rotation) == hkl, axis=1) & (
+                    np.abs(phase_shift - np.round(phase_shift)) > 1e-3
+                )
+            miller_indices.append(hkl[~absent])
+            sintl.append(hkl_sintl[~absent])
+        order = np.argsort(np.concatenate(sintl), kind="stable")
+        return np.concatenate(miller_indices)[order].astype(np.float64)
+
     def _set_structure_factors(self, miller_indices):
         """Generate unit cell structure factors for all Miller indices.
 
-- 
2.43.0


From ffc8953ccdb605f6f1995401b6471f7a3b6c5f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:10 +0000
Subject: [PATCH 21/38] fix: site multiplicities were wrong for atoms on
 special positions when the CIF does not give them

---
 xrd_simulator/structure_factors.py | 46 ++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/structure_factors.py b/xrd_simulator/structure_factors.py
index 07f0946..f3b686d 100644
--- a/xrd_simulator/structure_factors.py
+++ b/xrd_simulator/structure_factors.py
@@ -111,6 +111,38 @@ def _uij_to_betaij(adp: list[float], unit_cell: list[float]) -> np.ndarray:
     return betaij
 
 
+def _site_multiplicities(
+    positions: torch.Tensor,
+    rot: torch.Tensor,
+    trans: torch.Tensor,
+    tolerance: float = 1e-3,
+) -> torch.Tensor:
+    """Number of distinct symmetry equivalents of each atom position.
+
+    Parameters
+    ----------
+    positions : torch.Tensor
+        Fractional atom coordinates, shape ``(n_atoms, 3)``.
+    rot : torch.Tensor
+        Rotational parts of the symmetry operations, shape ``(n_sym, 3, 3)``.
+    trans : torch.Tensor
+        Translational parts of the symmetry operations, shape ``(n_sym, 3)``.
+    tolerance : float
+        Largest fractional distance between positions regarded as equal.
+
+    Returns
+    -------
+    torch.Tensor
+        Site multiplicities, shape ``(n_atoms,)``.
+    """
+    images = torch.einsum("sjk,ak->asj", rot, positions) + trans.unsqueeze(0)
+    # All operations map equally many images onto the same site, so that
+    # n_sym / (number of operations that keep the atom in place) sites remain.
+    shift = images - positions.unsqueeze(1)
+    fixed = torch.all(torch.abs(shift - torch.round(shift)) < tolerance, dim=2)
+    return rot.shape[0] / fixed.sum(dim=1)
+
+
 # ------------------------------------------------------------------ #
 # Public API
 # ------------------------------------------------------------------ #
@@ -183,9 +215,17 @@ def compute_structure_factors_batch(
     occ = torch.tensor(
         [a.occ for a in atoms], dtype=torch.float64, device=device
     )  # (A,)
-    symmulti = torch.tensor(
-        [a.symmulti for a in atoms], dtype=torch.float64, device=device
-    )  # (A,)
+    if any(
+        key in cifblk
+        for key in ("_atom_site_symmetry_multiplicity", "_atom_site_symetry_multiplicity")
+    ):
+        symmulti = torch.tensor(
+            [a.symmulti for a in atoms], dtype=torch.float64, device=device
+        )  # (A,)
+    else:
+        # The count made by xfab for CIFs that do not give it is wrong for many
+        # special positions (e.g. the silicon of quartz).
+        symmulti = _site_multiplicities(positions, rot, trans)
     site_pop = occ * symmulti / n_sym  # (A,)
 
     # ---- Dispersion corrections: fp and fpp per atom ------------------
-- 
2.43.0


From 8aac9dbafb37af22ccde175282f4afe663ae5181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 22/38] fix: finding a point common to the beam and an element
 failed with a singular matrix

The least-squares push off the active halfspaces was undetermined when fewer
than three of them were active. Use the centre of the largest inscribed sphere.
---
 xrd_simulator/beam.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 8724621..15478f0 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -272,11 +272,15 @@ class Beam:
             Interior point if found, otherwise ``None``.
         """
         halfspaces = ensure_numpy(halfspaces)
+        # Maximise the radius of a sphere inscribed in the halfspaces (Chebyshev centre).
+        # The radius is bounded since the set of halfspaces may be unbounded.
+        normals, offsets = halfspaces[:, :-1], halfspaces[:, -1]
+        norms = np.linalg.norm(normals, axis=1, keepdims=True)
         res = linprog(
-            c=np.zeros((3,)),
-            A_ub=halfspaces[:, :-1],
-            b_ub=-halfspaces[:, -1],
-            bounds=(None, None),
+            c=np.array([0.0, 0.0, 0.0, -1.0]),
+            A_ub=np.hstack((normals, norms)),
+            b_ub=-offsets,
+            bounds=[(None, None), (None, None), (None, None), (0.0, 1.0)],
             method="highs",
             options={
                 "maxiter": 5000,
@@ -284,15 +288,8 @@ class Beam:
             },  # typical solve time is ~1-2 ms
         )
         if res.success:
-            if np.any(res.slack == 0):
-                A = halfspaces[res.slack == 0, :-1]
-                dx = np.linalg.solve(
-                    A.T.dot(A), A.T.dot(-np.ones((A.shape[0],)) * 1e-5)
-                )
-                trial = res.x + dx
-            else:
-                trial = res.x
-            if np.all((halfspaces[:, :-1].dot(trial) + halfspaces[:, -1]) < -1e-8):
+            trial = res.x[:3]
+            if np.all((normals.dot(trial) + offsets) < -1e-8):
                 return trial
             else:
                 return None
-- 
2.43.0


From aba0da5ae170209185e94de3d5de02b15470665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 23/38] fix: projected volumes were multiplied by the pixel
 area

The projection already sums to the illuminated volume, so that macro images
were scaled by the pixel area relative to the other methods.
---
 xrd_simulator/detector.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 1541582..0c78fe6 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1580,11 +1580,8 @@ class Detector:
                         # Note: Infinite intensity peaks should already be filtered out
                         # by peaks_detector_intersection. This check is defensive.
                         if torch.isfinite(intensity):
-                            projection_torch = ensure_torch(projection)
-                            # projection is path length, multiply by pixel area to get volume
-                            projected_volume = (
-                                projection_torch * self.pixel_size_z * self.pixel_size_y
-                            )
+                            # projection already sums to the illuminated volume
+                            projected_volume = ensure_torch(projection)
                             # Multiply intensity per volume by projected volume
                             result = (intensity * projected_volume).to(render_dtype)
                             frames[box[0] : box[1], box[2] : box[3]] += result
-- 
2.43.0


From 27fa480e6c183c8e8ef5d7bc862c1b37f01fa04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 24/38] fix: lines outside a face that is parallel to them were
 clipped as if they met the polyhedron

---
 xrd_simulator/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index b01fd11..01f7bf6 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -213,8 +213,12 @@ def _clip_line_with_convex_polyhedron(
     t_e = torch.max(t_i[:, te_mask], dim=1).values
     t_l = torch.min(t_i[:, tl_mask], dim=1).values
 
+    # Faces that are parallel to the lines do not clip them, but lines outside such a
+    # face do not intersect the polyhedron.
+    hits = torch.all(numerator[:, t2 == 0] >= 0, dim=1)
+
     # Return clipped lengths, using zero for non-intersecting lines
-    return torch.where(t_l > t_e + 1e-12, t_l - t_e, 0.0)
+    return torch.where(hits & (t_l > t_e + 1e-12), t_l - t_e, 0.0)
 
 
 def _alpha_to_quarternion(alpha_1, alpha_2, alpha_3):
-- 
2.43.0


From 2f096a8d03a01503e5952a61d0de9c35883dd484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 25/38] fix: spots of nano sized crystals depended on the other
 peaks of their batch

The kernels were normalised on a grid sized for the broadest peak of the batch,
and batches follow the free memory of the machine.
---
 xrd_simulator/detector.py | 63 +++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 0c78fe6..0167257 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1220,34 +1220,38 @@ class Detector:
         AIRY_FWHM_TO_FIRST_ZERO = 1.1861  # = 1 / 0.843
         first_zero_pixels = fwhm_pixels * AIRY_FWHM_TO_FIRST_ZERO
 
-        sigma = self.gaussian_sigma
-        max_first_zero = first_zero_pixels.max()
+        sigma_np = float(self.gaussian_sigma)
         threshold = self.kernel_threshold / 2
 
-        # Calculate kernel radius - need to capture several Airy rings
-        # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
-        # for small crystallites (broad patterns)
-        # Use ~4 times the first zero to capture sufficient rings
-        # (whole pixels, so that the kernel is centred on its middle pixel)
-        radius = torch.tensor(max(float(torch.ceil(4.0 * max_first_zero)), 8.0))
-
-        # Ensure we also capture Gaussian tails (cap at 128 pixels)
-        max_airy_radius = 128
-        while radius <= max_airy_radius:
-            g_val = torch.exp(-(radius**2) / (2 * sigma**2))
-            if g_val < threshold:
-                break
-            radius = radius * 2
-        if radius > max_airy_radius:
-            if self._verbose:
-                print(
-                    f"Airy kernel radius should be {radius.item()} but limited to {max_airy_radius}"
-                )
-            radius = torch.tensor(max_airy_radius)
+        def kernel_distances(first_zero: float) -> npt.NDArray:
+            """Distances from the centre of the kernel of a single peak.
 
-        ax = torch.arange(-radius, radius + 1, dtype=torch.float64)
-        yy, zz = torch.meshgrid(ax, ax, indexing="ij")
-        r = torch.sqrt(yy**2 + zz**2)
+            The kernel of a peak must not depend on the other peaks of the batch.
+            """
+            # Calculate kernel radius - need to capture several Airy rings
+            # Airy pattern decays as 1/x^3 in the tails, so we need larger extent
+            # for small crystallites (broad patterns)
+            # Use ~4 times the first zero to capture sufficient rings
+            # (whole pixels, so that the kernel is centred on its middle pixel)
+            radius = max(np.ceil(4.0 * first_zero), 8.0)
+
+            # Ensure we also capture Gaussian tails (cap at 128 pixels)
+            max_airy_radius = 128
+            while radius <= max_airy_radius:
+                g_val = np.exp(-(radius**2) / max(2 * sigma_np**2, 1e-12))
+                if g_val < threshold:
+                    break
+                radius = radius * 2
+            if radius > max_airy_radius:
+                if self._verbose:
+                    print(
+                        f"Airy kernel radius should be {radius} but limited to {max_airy_radius}"
+                    )
+                radius = max_airy_radius
+
+            ax = np.arange(-radius, radius + 1, dtype=np.float64)
+            yy, zz = np.meshgrid(ax, ax, indexing="ij")
+            return np.sqrt(yy**2 + zz**2)
 
         kernels = []
         max_size = 0
@@ -1304,9 +1308,6 @@ class Detector:
             else:
                 return airy
 
-        r_np = r.cpu().numpy()
-        sigma_np = float(sigma)
-
         for first_zero in first_zero_pixels:
             first_zero_np = float(first_zero)
 
@@ -1314,7 +1315,11 @@ class Detector:
             if first_zero_np < 0.5:
                 kernel = self.gaussian_kernel
             else:
-                kernel = ensure_torch(airy_profile(r_np, first_zero_np, sigma_np))
+                kernel = ensure_torch(
+                    airy_profile(
+                        kernel_distances(first_zero_np), first_zero_np, sigma_np
+                    )
+                )
 
             kernel = kernel / kernel.sum()
 
-- 
2.43.0


From 3ba46667ec94dda396528cc555ae247c8897399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 26/38] fix: size broadening used the distance to a detector
 corner instead of the detector plane

---
 xrd_simulator/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 0167257..659ac01 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1206,7 +1206,7 @@ class Detector:
         torch.Tensor
             Batch of normalized Airy disk kernels with shape ``(N, 1, H, W)``.
         """
-        detector_distance = torch.linalg.norm(self.det_corner_0)
+        detector_distance = torch.abs(torch.dot(self.det_corner_0, self.normal))
         incident_angles_rad = incident_angles * torch.pi / 180
         # The normal of the detector may point to or from the sample
         R = detector_distance / torch.abs(torch.cos(incident_angles_rad))
-- 
2.43.0


From 7f0a4796c0c3e7430753d1e90a402f4deadc991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 27/38] fix: size broadening was elongated on detectors with
 rectangular pixels

---
 xrd_simulator/detector.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 659ac01..cf7177c 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1220,6 +1220,8 @@ class Detector:
         AIRY_FWHM_TO_FIRST_ZERO = 1.1861  # = 1 / 0.843
         first_zero_pixels = fwhm_pixels * AIRY_FWHM_TO_FIRST_ZERO
 
+        # Distances are in units of pixel_size_z
+        aspect = float(self.pixel_size_y / self.pixel_size_z)
         sigma_np = float(self.gaussian_sigma)
         threshold = self.kernel_threshold / 2
 
@@ -1233,7 +1235,7 @@ class Detector:
             # for small crystallites (broad patterns)
             # Use ~4 times the first zero to capture sufficient rings
             # (whole pixels, so that the kernel is centred on its middle pixel)
-            radius = max(np.ceil(4.0 * first_zero), 8.0)
+            radius = max(np.ceil(4.0 * first_zero * max(1.0, 1.0 / aspect)), 8.0)
 
             # Ensure we also capture Gaussian tails (cap at 128 pixels)
             max_airy_radius = 128
@@ -1250,8 +1252,8 @@ class Detector:
                 radius = max_airy_radius
 
             ax = np.arange(-radius, radius + 1, dtype=np.float64)
-            yy, zz = np.meshgrid(ax, ax, indexing="ij")
-            return np.sqrt(yy**2 + zz**2)
+            zz, yy = np.meshgrid(ax, ax, indexing="ij")
+            return np.sqrt(zz**2 + (aspect * yy) ** 2)
 
         kernels = []
         max_size = 0
-- 
2.43.0


From 555ac5c22461b68190c39863d47c34639e414b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 28/38] fix: images were undefined for detectors without point
 spread (gaussian_sigma=0)

---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index cf7177c..8dd9ccc 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -1763,7 +1763,8 @@ class Detector:
         # Get device from det_corner_0 to ensure kernel is on same device
         dev = self.det_corner_0.device
 
-        sigma = ensure_torch(self.gaussian_sigma).to(dev)
+        # A vanishing width is a single pixel
+        sigma = torch.clamp(ensure_torch(self.gaussian_sigma).to(dev), min=1e-6)
         threshold = self.kernel_threshold
 
         radius = 1
-- 
2.43.0


From 6bad692f3e8056ed072f0644c3900778685285e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:49 +0000
Subject: [PATCH 29/38] fix: the incidence angle of rays along the detector
 normal was undefined

---
 xrd_simulator/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 8dd9ccc..5cf9cbf 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -468,7 +468,8 @@ class Detector:
 
         ray_dir_norm = ray_direction / torch.norm(ray_direction, dim=1).unsqueeze(-1)
         normal_norm = self.normal / torch.linalg.norm(self.normal)
-        cosine_theta = torch.matmul(ray_dir_norm, -normal_norm)
+        # Rounding may take the cosine of a ray along the normal beyond +-1
+        cosine_theta = torch.clamp(torch.matmul(ray_dir_norm, -normal_norm), -1.0, 1.0)
         incident_angle_deg = torch.arccos(cosine_theta) * (180 / torch.pi)
         return torch.stack((zd, yd, incident_angle_deg), dim=1)
 
-- 
2.43.0


From 505f377af29d15e92a3bf3eacb371b41274c3744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 30/38] fix: elements with a trial point on the surface of the
 beam failed to intersect it

---
 xrd_simulator/beam.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/xrd_simulator/beam.py b/xrd_simulator/beam.py
index 15478f0..dc3e0ab 100644
--- a/xrd_simulator/beam.py
+++ b/xrd_simulator/beam.py
@@ -169,20 +169,22 @@ class Beam:
         # centroid is contained by the beam, being a potential cheaply computed interior_point.
 
         centroid = torch.mean(vertices, axis=0)
-        if self._contains(centroid):
-            interior_point = centroid
-        else:
-            trial_points = centroid + (vertices - centroid) * 0.99
+        trial_points = torch.vstack((centroid, centroid + (vertices - centroid) * 0.99))
 
-            for i, is_contained in enumerate(self._contains(trial_points.T)):
-                if is_contained:
-                    interior_point = trial_points[i, :].flatten()
-                    break
-            else:
-                interior_point = self._find_feasible_point(combined_halfspaces)
-                interior_point = (
-                    ensure_torch(interior_point) if interior_point is not None else None
-                )
+        # a trial point on the surface of the beam, to rounding, is of no use.
+        trial_offsets = (
+            ensure_numpy(trial_points) @ combined_halfspaces[:, :3].T
+            + combined_halfspaces[:, 3]
+        )
+        clearly_inside = np.flatnonzero(np.all(trial_offsets < -1e-8, axis=1))
+
+        if len(clearly_inside) > 0:
+            interior_point = trial_points[clearly_inside[0]]
+        else:
+            interior_point = self._find_feasible_point(combined_halfspaces)
+            interior_point = (
+                ensure_torch(interior_point) if interior_point is not None else None
+            )
 
         if interior_point is not None:
             hs = HalfspaceIntersection(
-- 
2.43.0


From e109d5c36d94ca95af796b48efe61d03158aca7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 31/38] fix: crystals between crossed size limits were rendered
 twice by the auto method

---
 xrd_simulator/detector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 5cf9cbf..32ab883 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -339,7 +339,9 @@ class Detector:
             if macro_grain_limit is None:
                 macro_grain_limit = (min(self.pixel_size_y, self.pixel_size_z)) ** 3
             large_grains_mask = peaks[:, 21] >= macro_grain_limit
-            small_grains_mask = peaks[:, 21] < micro_grain_limit
+            # the limits may be crossed: grains larger than a pixel may still be below
+            # the micro limit, and are rendered only once
+            small_grains_mask = (peaks[:, 21] < micro_grain_limit) & (~large_grains_mask)
             medium_grains_mask = (~large_grains_mask) & (~small_grains_mask)
 
             diffraction_frames = torch.zeros(
-- 
2.43.0


From ff3355dd59ebb7a8b81c1db6b7b2a696202fd85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:44 +0000
Subject: [PATCH 32/38] fix: translating exactly three points used their
 coordinates as if stored by column

---
 xrd_simulator/motion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index 6da10d4..c7f1a8d 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -192,7 +192,8 @@ class RigidBodyMotion:
         
         vectors = ensure_torch(vectors)
         
-        if len(vectors.shape) > 1 and vectors.shape[0] == 3:
+        # Three points as rows, shape (3, 3), are translated as any other (N, 3) points.
+        if len(vectors.shape) == 2 and vectors.shape[0] == 3 and vectors.shape[1] != 3:
             translation = self.translation.reshape(3, 1)
         else:
             translation = self.translation
-- 
2.43.0


From fe1721c452005dec3b730107318a21594a2d13f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:55 +0000
Subject: [PATCH 33/38] fix: rotating a single vector at a one-element time
 gave a batch of one vector

---
 xrd_simulator/motion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/motion.py b/xrd_simulator/motion.py
index c7f1a8d..8b94ec0 100644
--- a/xrd_simulator/motion.py
+++ b/xrd_simulator/motion.py
@@ -371,6 +371,6 @@ class _RodriguezRotator(object):
         # R is (3,3), (1,3,3) or (N,3,3), vectors is (N,3) -> output (N,3)
         rotated_vectors = torch.matmul(R, vectors.unsqueeze(-1)).squeeze(-1)
 
-        if single_vector and rotation_angle.ndim == 0:
+        if single_vector and rotation_angle.numel() == 1:
             return rotated_vectors[0]
         return rotated_vectors
-- 
2.43.0


From e63703185c15fb50d14050b99bb039e6544d1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:06 +0000
Subject: [PATCH 34/38] fix: Lorentz factor of rays along the beam is infinite
 also when rounding takes the cosine beyond one

---
 xrd_simulator/scattering_factors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index b1aaaeb..e266cc7 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -46,7 +46,7 @@ def _lorentz(
     # Normalize k for dot product calculation
     k_norm_sq = torch.linalg.norm(k_in) ** 2
     k_kp_norm = torch.matmul(k_in, kp.T) / k_norm_sq
-    theta = torch.arccos(k_kp_norm) / 2.0
+    theta = torch.arccos(torch.clamp(k_kp_norm, -1.0, 1.0)) / 2.0  # may round to beyond one
 
     # Calculate korthogonal same way as in old version
     korthogonal = kp - k_in.reshape(1, 3) * (k_kp_norm.reshape(-1, 1))
-- 
2.43.0


From 37b48b89879dfd189c05c5bb2d0b4de2498bd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:06 +0000
Subject: [PATCH 35/38] fix: scattering angle of exact backscatter is not NaN

---
 xrd_simulator/polycrystal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 3b21596..8c26799 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -368,7 +368,8 @@ class Polycrystal:
         # Calculate 2theta (scattering angle)
         k_in = beam.wave_vector / torch.linalg.norm(beam.wave_vector)
         k_out = K_out_xyz / torch.linalg.norm(K_out_xyz, dim=1, keepdim=True)
-        two_theta = torch.arccos(torch.sum(k_in * k_out, dim=1))
+        # Rounding may take the cosine of a ray along the beam axis beyond +-1
+        two_theta = torch.arccos(torch.clamp(torch.sum(k_in * k_out, dim=1), -1.0, 1.0))
         scherrer_fwhm = _scherrer(volumes, two_theta, beam.wavelength)
 
         peaks = torch.cat(
-- 
2.43.0


From f858d87c062710bcf28e9e958d480ab08fcbc66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:06 +0000
Subject: [PATCH 36/38] fix: detector cone is not NaN when a corner lies on the
 beam axis

---
 xrd_simulator/detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xrd_simulator/detector.py b/xrd_simulator/detector.py
index 32ab883..f4b1e9d 100644
--- a/xrd_simulator/detector.py
+++ b/xrd_simulator/detector.py
@@ -510,9 +510,9 @@ class Detector:
         ):
             geom_mat[:, i] = det_corner - source_point
         normalised_local_coord_geom_mat = geom_mat / torch.linalg.norm(geom_mat, axis=0)
-        cone_opening = torch.arccos(
-            torch.matmul(normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k))
-        )
+        # Rounding may take the cosine of a corner seen along the beam beyond +-1
+        cosine = torch.matmul(normalised_local_coord_geom_mat.T, k / torch.linalg.norm(k))
+        cone_opening = torch.arccos(torch.clamp(cosine, -1.0, 1.0))
         return torch.max(cone_opening) / 2.0
 
     def _detector_coordinate_to_pixel_index(
-- 
2.43.0


From 66d6d2e41467b83cb7eae097c0456d48f6587e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:52 +0000
Subject: [PATCH 37/38] fix: Lorentz factor of a ray straight back is infinite,
 not NaN

---
 xrd_simulator/scattering_factors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xrd_simulator/scattering_factors.py b/xrd_simulator/scattering_factors.py
index e266cc7..2ada5a4 100644
--- a/xrd_simulator/scattering_factors.py
+++ b/xrd_simulator/scattering_factors.py
@@ -60,6 +60,7 @@ def _lorentz(
         (torch.abs(torch.rad2deg(eta)) < tol)
         | (torch.abs(torch.rad2deg(eta)) > 180 - tol)
         | (torch.rad2deg(theta) < tol)
+        | (korth_norm == 0)  # straight back, eta is undefined
     )
 
     result = 1.0 / (torch.sin(2 * theta) * torch.abs(torch.sin(eta)))
-- 
2.43.0


From 54895aaae581c2e75ab2769a2ab194213a97a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:39 +0000
Subject: [PATCH 38/38] fix: saving a polycrystal failed for orientations that
 are rounded rotations about z

---
 xrd_simulator/polycrystal.py |  2 +-
 xrd_simulator/utils.py       | 25 +++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/xrd_simulator/polycrystal.py b/xrd_simulator/polycrystal.py
index 8c26799..5a16df8 100644
--- a/xrd_simulator/polycrystal.py
+++ b/xrd_simulator/polycrystal.py
@@ -479,7 +479,7 @@ class Polycrystal:
             for U, misorientation in zip(self.orientation_sample, misorientations):
                 # Convert tensor to numpy for xfab tools
                 U_np = ensure_numpy(U)
-                phi_1, PHI, phi_2 = tools.u_to_euler(U_np)
+                phi_1, PHI, phi_2 = utils._bunge_euler_angles(U_np)
                 element_data["Bunge Euler Angle phi_1 [degrees]"].append(
                     np.degrees(phi_1)
                 )
diff --git a/xrd_simulator/utils.py b/xrd_simulator/utils.py
index 01f7bf6..026f30a 100644
--- a/xrd_simulator/utils.py
+++ b/xrd_simulator/utils.py
@@ -362,6 +362,31 @@ def _b_to_epsilon(B_matrix, B0):
     return _strain_as_vector(strain_tensor)
 
 
+def _bunge_euler_angles(U):
+    """Bunge Euler angles of a rotation matrix.
+
+    As opposed to xfab.tools.u_to_euler also rotations about the z-axis that are
+    rounded are handled. For these phi_2 is zero.
+
+    Parameters
+    ----------
+    U : numpy.ndarray
+        Rotation matrix, shape ``(3, 3)``.
+
+    Returns
+    -------
+    numpy.ndarray
+        Angles phi_1, PHI, phi_2 in radians, phi_1 and phi_2 in [0, 2 pi).
+    """
+    sin_PHI = np.hypot(U[0, 2], U[1, 2])
+    PHI = np.arctan2(sin_PHI, U[2, 2])
+    if sin_PHI < 1e-7:
+        phi_1, phi_2 = np.arctan2(U[1, 0], U[0, 0]), 0.0
+    else:
+        phi_1, phi_2 = np.arctan2(U[0, 2], -U[1, 2]), np.arctan2(U[2, 0], U[2, 1])
+    return np.array([phi_1 % (2 * np.pi), PHI, phi_2 % (2 * np.pi)])
+
+
 def _get_misorientations(orientations):
     """Compute minimal angles to rotate SO3 elements to their mean orientation.
 
-- 
2.43.0

