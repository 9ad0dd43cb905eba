From bf530dd3cd8a737b7a3657fe81fb0bb69f7b1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 01/65] fix: trace_discrete_space looks the neighbour up by its
 cell id

---
 src/basis/basis_trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/basis_trace.py b/src/basis/basis_trace.py
index a185cbf..420c8fe 100644
--- a/src/basis/basis_trace.py
+++ b/src/basis/basis_trace.py
@@ -42,7 +42,7 @@ def trace_discrete_space(
     assert neigh_check
 
     # select neighbor
-    c0_cell_id = neigh_list[neigh_idx]
+    c0_cell_id = neigh_list[neigh_idx][1]
     c0_element_idx = sub_space.id_to_element[c0_cell_id]
     c0_element = sub_space.elements[c0_element_idx]
 
-- 
2.43.0


From 1a8f97a981e72254fe3998d7cf3a9900a3a03f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:56 +0000
Subject: [PATCH 02/65] fix: family N2E creates second kind Nedelec elements

---
 src/basis/element_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/basis/element_family.py b/src/basis/element_family.py
index 8b902de..996eff2 100644
--- a/src/basis/element_family.py
+++ b/src/basis/element_family.py
@@ -7,7 +7,7 @@ def family_by_name(family):
         "BDM": ElementFamily.BDM,
         "RT": ElementFamily.RT,
         "N1E": ElementFamily.N1E,
-        "N2E": ElementFamily.N1E,
+        "N2E": ElementFamily.N2E,
     }
     return families[family]
 
-- 
2.43.0


From e5b1b7eea1461a51c1684ffd70521ba76ea54b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 03/65] fix: tagged interior faces keep the orientation of
 their dofs

---
 src/basis/permute_and_transform.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/basis/permute_and_transform.py b/src/basis/permute_and_transform.py
index b2797d6..f75150d 100644
--- a/src/basis/permute_and_transform.py
+++ b/src/basis/permute_and_transform.py
@@ -99,11 +99,6 @@ def _validate_face_orientation_3d(data: ElementData):
                 rotations[i] += 1
                 reflections[i] += 1
 
-        if data.bc_entities[i] and i in [1, 3]:
-            orientation[i] = False
-            reflections[i] = 1
-            continue
-
     return orientation, rotations, reflections
 
 
-- 
2.43.0


From 460116222cf890b7ca374b54d5ca035dd5b73e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 04/65] fix: cells and boundary elements use the orientation of
 the shared edge or face

---
 src/basis/permute_and_transform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/basis/permute_and_transform.py b/src/basis/permute_and_transform.py
index f75150d..8d628d0 100644
--- a/src/basis/permute_and_transform.py
+++ b/src/basis/permute_and_transform.py
@@ -47,8 +47,7 @@ def _validate_edge_orientation_3d(data: ElementData):
     orientation = [False, False, False, False, False, False]
     for i, egde_con in enumerate(edges):
         edge = data.cell.node_tags[egde_con]
-        edge_node_tags = data.mesh.cells[data.cell.sub_cells_ids[1][i]].node_tags
-        v_edge = np.sort(edge_node_tags)
+        v_edge = data.mesh.cells[data.cell.sub_cells_ids[1][i]].node_tags
         if np.all(edge == v_edge):
             orientation[i] = True
     return orientation
@@ -67,7 +66,7 @@ def _validate_face_orientation_3d(data: ElementData):
     for i, face_con in enumerate(faces):
         volume_node_tags = data.cell.node_tags
         face = volume_node_tags[face_con]
-        face_ref = np.sort(face)
+        face_ref = data.mesh.cells[data.cell.sub_cells_ids[2][i]].node_tags
 
         valid_orientation = np.all(face_ref == face)
         if valid_orientation:
-- 
2.43.0


From 525f384230dd544dcb6ff8d5180064628848ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 05/65] fix: L2 projector keeps small matrix entries

---
 src/postprocess/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index 963a091..a92418a 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -41,7 +41,7 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
         row = np.repeat(dest, len(dest))
         col = np.tile(dest, len(dest))
         nnz = data.shape[0]
-        nnz_idx = np.where(np.logical_not(np.isclose(data, 1.0e-16)))[0]
+        nnz_idx = np.where(data != 0.0)[0]
         if symmetric_solver_q:
             [
                 A.setValue(row=row[idx], col=col[idx], value=data[idx], addv=True)
-- 
2.43.0


From 795f674035c468ecf979ab7837ccf9c5f026eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:44 +0000
Subject: [PATCH 06/65] fix: L2 error and norm of Lagrange fields use every
 component

---
 src/postprocess/l2_error_post_processor.py       | 6 +++---
 src/postprocess/solution_norms_post_processor.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index e21d6d8..8218bf6 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -33,8 +33,8 @@ def l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
             n_phi = phi_tab.shape[2]
             alpha_star = np.array(np.split(alpha_l, n_phi))
             if space.family is family_by_name("Lagrange"):
-                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:dim, :]
-                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:n_components, :]
+                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:n_components]).T
                 l2_error += np.sum(
                     det_jac * weights * (f_e_s - f_h_s) * (f_e_s - f_h_s)
                 )
@@ -91,7 +91,7 @@ def l2_error_projected(dim, fe_space, alpha, skip_fields=[], dof_shift=0):
             n_phi = phi_tab.shape[2]
             alpha_star = np.array(np.split(alpha_l, n_phi))
             if space.family is family_by_name("Lagrange"):
-                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+                f_h_s = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:n_components]).T
                 l2_error += np.sum(det_jac * weights * f_h_s * f_h_s)
             else:
                 f_h = np.array(
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index d6a2aa2..bdd751f 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -26,7 +26,7 @@ def l2_norm(dim, fe_space, functions, skip_fields=[]):
             # vectorization
             exact = functions[name]
             if space.family is family_by_name("Lagrange"):
-                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:dim, :]
+                f_e_s = exact(x[:, 0], x[:, 1], x[:, 2])[0:n_components, :]
                 l2_norm += np.sum(det_jac * weights * (f_e_s) * (f_e_s))
             else:
                 f_e = np.array([exact(xv[0], xv[1], xv[2]) for xv in x])
-- 
2.43.0


From 2ef4adf2db9ec4c19b6912f6f32df33bd0ba53f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 07/65] fix: grad_error evaluates the mapping and basis it
 integrates

---
 src/postprocess/l2_error_post_processor.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index 8218bf6..7f5f834 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -124,6 +124,7 @@ def grad_error(dim, fe_space, functions, alpha):
     e3 = np.array([0, 0, 1])
 
     grad_errors = []
+    points, weights = fe_space.quadrature[dim]
     for item in fe_space.discrete_spaces.items():
         name, space = item
         grad_error = 0.0
@@ -136,13 +137,8 @@ def grad_error(dim, fe_space, functions, alpha):
             n_components = space.n_comp
             el_data = space.elements[idx].data
             cell = el_data.cell
-            points = el_data.quadrature.points
-            weights = el_data.quadrature.weights
-            phi_tab = space.elements[idx].evaluate_basis(points)
-
-            x = el_data.mapping.x
-            det_jac = el_data.mapping.det_jac
-            inv_jac = el_data.mapping.inv_jac
+            x, jac, det_jac, inv_jac = space.elements[idx].evaluate_mapping(points)
+            phi_tab = space.elements[idx].evaluate_basis(points, jac, det_jac, inv_jac)
 
             # scattering dof
             dest = fe_space.discrete_spaces_destination_indexes(idx)[name]
-- 
2.43.0


From a7e6c54871e9c4d9525a0b9955b865ebf6a4e62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:30 +0000
Subject: [PATCH 08/65] fix: deviatoric error and norm integrate the mean trace
 over the domain

---
 src/postprocess/l2_error_post_processor.py       | 10 ++++++----
 src/postprocess/solution_norms_post_processor.py |  8 +++++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index 7f5f834..9743a49 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -307,7 +307,7 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
         family_by_name("BDM"),
     ]
 
-    points, weights = fe_space.quadrature
+    points, weights = fe_space.quadrature[dim]
 
     # Compute volumetric integral
     tr_T_avgs = {}
@@ -317,6 +317,7 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
             continue
         if name in skip_fields:
             continue
+        volume = 0.0
         tr_T_e_avg = 0.0
         tr_T_h_avg = 0.0
         exact = functions[name]
@@ -353,14 +354,15 @@ def devia_l2_error(dim, fe_space, functions, alpha, skip_fields=[]):
                     for k in range(len(points))
                 ]
             )
-            tr_T_e_avg = np.sum(
+            volume += np.sum(det_jac * weights)
+            tr_T_e_avg += np.sum(
                 (det_jac * weights * np.trace(f_e, axis1=1, axis2=2) / float(dim))
             )
-            tr_T_h_avg = np.sum(
+            tr_T_h_avg += np.sum(
                 (det_jac * weights * np.trace(f_h, axis1=1, axis2=2) / float(dim))
             )
 
-        tr_T_avgs.__setitem__(name, (tr_T_e_avg, tr_T_h_avg))
+        tr_T_avgs.__setitem__(name, (tr_T_e_avg / volume, tr_T_h_avg / volume))
 
     l2_errors = []
     for item in fe_space.discrete_spaces.items():
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index bdd751f..10b68be 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -84,7 +84,7 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
         family_by_name("BDM"),
     ]
 
-    points, weights = fe_space.quadrature
+    points, weights = fe_space.quadrature[dim]
 
     # Compute volumetric integral
     tr_T_avgs = {}
@@ -94,6 +94,7 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
             continue
         if name in skip_fields:
             continue
+        volume = 0.0
         tr_T_e_avg = 0.0
         exact = functions[name]
         indexes = [
@@ -109,11 +110,12 @@ def devia_l2_norm(dim, fe_space, functions, skip_fields=[]):
 
             # vectorization
             f_e = np.array([exact(xv[0], xv[1], xv[2]) for xv in x])
-            tr_T_e_avg = np.sum(
+            volume += np.sum(det_jac * weights)
+            tr_T_e_avg += np.sum(
                 (det_jac * weights * np.trace(f_e, axis1=1, axis2=2) / float(dim))
             )
 
-        tr_T_avgs.__setitem__(name, tr_T_e_avg)
+        tr_T_avgs.__setitem__(name, tr_T_e_avg / volume)
 
     l2_norms = []
     for item in fe_space.discrete_spaces.items():
-- 
2.43.0


From 12fef2186539f740a157daba050bc7458c51b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 09/65] fix: primal Laplace forms use the quadrature and dofs
 of their element

---
 src/weak_forms/laplace_primal_weak_form.py | 42 +++-------------------
 1 file changed, 4 insertions(+), 38 deletions(-)

diff --git a/src/weak_forms/laplace_primal_weak_form.py b/src/weak_forms/laplace_primal_weak_form.py
index be6fb3d..2862965 100644
--- a/src/weak_forms/laplace_primal_weak_form.py
+++ b/src/weak_forms/laplace_primal_weak_form.py
@@ -2,8 +2,6 @@ import auto_diff as ad
 import numpy as np
 
 from basis.element_data import ElementData
-from basis.parametric_transformation import transform_lower_to_higher
-from mesh.topological_queries import find_higher_dimension_neighs
 from weak_forms.weak_from import WeakForm
 
 
@@ -23,7 +21,7 @@ class LaplacePrimalWeakForm(WeakForm):
 
         cell = p_data.cell
         dim = cell.dimension
-        points, weights = self.space.quadrature
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.elements[iel].evaluate_mapping(points)
 
         # basis
@@ -84,8 +82,8 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         p_data: ElementData = p_space.bc_elements[iel].data
 
         cell = p_data.cell
-        points, weights = self.space.bc_quadrature
         dim = cell.dimension
+        points, weights = self.space.bc_quadrature[dim]
         x, jac, det_jac, inv_jac = p_space.bc_elements[iel].evaluate_mapping(points)
 
         # basis
@@ -102,43 +100,11 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
         j_el = np.zeros(js)
         r_el = np.zeros(rs)
 
-        # find high-dimension neigh
-        neigh_list = find_higher_dimension_neighs(cell, p_space.dof_map.mesh_topology)
-        neigh_check_q = len(neigh_list) > 0
-        assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
-        neigh_cell_index = p_space.id_to_element[neigh_cell_id]
-        neigh_element = p_space.elements[neigh_cell_index]
-        neigh_cell = neigh_element.data.cell
-
-        # compute trace space
-        mapped_points = transform_lower_to_higher(points, p_data, neigh_element.data)
-        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
-            mapped_points
-        )
-        p_tr_phi_tab = neigh_element.evaluate_basis(
-            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
-        )
-        # collect all supported dofs
-        dof_idxs = []
-        for entity_dim in range(0, cell.dimension + 1):
-            dof_idxs_per_entity = []
-            for id in cell.sub_cells_ids[entity_dim]:
-                index = neigh_cell.sub_cells_ids[entity_dim].tolist().index(id)
-                if len(neigh_element.data.dof.entity_dofs[entity_dim][index]) == 0:
-                    continue
-                dof_n_index = neigh_element.data.dof.entity_dofs[entity_dim][index][0]
-                dof_idxs_per_entity.append(dof_n_index)
-            if len(dof_idxs_per_entity) == 0:
-                continue
-            dof_idxs.append(dof_idxs_per_entity)
-        dof_n_index = np.concatenate(dof_idxs)
-
         # local blocks
         beta = 1.0e12
         jac_block_p = np.zeros((n_p_phi, n_p_phi))
         for i, omega in enumerate(weights):
-            phi = p_tr_phi_tab[0, i, dof_n_index, 0]
+            phi = p_phi_tab[0, i, :, 0]
             jac_block_p += beta * det_jac[i] * omega * np.outer(phi, phi)
 
         for c in range(p_components):
@@ -147,7 +113,7 @@ class LaplacePrimalWeakFormBCDirichlet(WeakForm):
 
             res_block_p = np.zeros(n_p_phi)
             for i, omega in enumerate(weights):
-                phi = p_tr_phi_tab[0, i, dof_n_index, 0]
+                phi = p_phi_tab[0, i, :, 0]
                 p_D_v = p_D(x[i, 0], x[i, 1], x[i, 2])
                 res_block_p -= beta * det_jac[i] * omega * p_D_v[c] * phi
 
-- 
2.43.0


From 71a92be45cd152d2c3de652ed3944fd89ddc5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 10/65] fix: mixed elasticity forms use the quadrature and
 basis of their element

---
 src/weak_forms/lce_scaled_dual_weak_form.py | 30 +++++++++++++--------
 src/weak_forms/le_dual_weak_form.py         | 22 ++++++++-------
 src/weak_forms/le_riesz_map_weak_form.py    |  2 +-
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/weak_forms/lce_scaled_dual_weak_form.py b/src/weak_forms/lce_scaled_dual_weak_form.py
index bab11ed..54dc126 100644
--- a/src/weak_forms/lce_scaled_dual_weak_form.py
+++ b/src/weak_forms/lce_scaled_dual_weak_form.py
@@ -827,14 +827,15 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         m_data: ElementData = m_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        points, weights = self.space.bc_quadrature[cell.dimension]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
-        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
+        m_phi_tab = m_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
 
         n_s_phi = s_phi_tab.shape[2]
         n_m_phi = m_phi_tab.shape[2]
@@ -852,14 +853,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
@@ -870,14 +876,16 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, m_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = m_space.id_to_element[neigh_cell_id]
         neigh_element = m_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute M trace space
         mapped_points = transform_lower_to_higher(points, m_data, neigh_element.data)
-        m_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        m_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_m_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
diff --git a/src/weak_forms/le_dual_weak_form.py b/src/weak_forms/le_dual_weak_form.py
index d1bc431..e1dceb6 100644
--- a/src/weak_forms/le_dual_weak_form.py
+++ b/src/weak_forms/le_dual_weak_form.py
@@ -31,8 +31,8 @@ class LEDualWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
@@ -589,13 +589,12 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         s_data: ElementData = s_space.bc_elements[iel].data
 
         cell = s_data.cell
-        points = s_data.quadrature.points
-        weights = s_data.quadrature.weights
-        x = s_data.mapping.x
-        det_jac = s_data.mapping.det_jac
-        inv_jac = s_data.mapping.inv_jac
+        points, weights = self.space.bc_quadrature[cell.dimension]
+        x, jac, det_jac, inv_jac = s_space.bc_elements[iel].evaluate_mapping(points)
 
-        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(points)
+        s_phi_tab = s_space.bc_elements[iel].evaluate_basis(
+            points, jac, det_jac, inv_jac
+        )
         n_s_phi = s_phi_tab.shape[2]
 
         n_s_dof = n_s_phi * s_components
@@ -610,14 +609,19 @@ class LCEDualWeakFormBCNeumann(WeakForm):
         neigh_list = find_higher_dimension_neighs(cell, s_space.dof_map.mesh_topology)
         neigh_check_q = len(neigh_list) > 0
         assert neigh_check_q
-        neigh_cell_id = neigh_list[0]
+        neigh_cell_id = neigh_list[0][1]
         neigh_cell_index = s_space.id_to_element[neigh_cell_id]
         neigh_element = s_space.elements[neigh_cell_index]
         neigh_cell = neigh_element.data.cell
 
         # compute S trace space
         mapped_points = transform_lower_to_higher(points, s_data, neigh_element.data)
-        s_tr_phi_tab = neigh_element.evaluate_basis(mapped_points, False)
+        _, jac_c0, det_jac_c0, inv_jac_c0 = neigh_element.evaluate_mapping(
+            mapped_points
+        )
+        s_tr_phi_tab = neigh_element.evaluate_basis(
+            mapped_points, jac_c0, det_jac_c0, inv_jac_c0
+        )
         facet_index = neigh_cell.sub_cells_ids[cell.dimension].tolist().index(cell.id)
         dof_s_n_index = neigh_element.data.dof.entity_dofs[cell.dimension][facet_index]
 
diff --git a/src/weak_forms/le_riesz_map_weak_form.py b/src/weak_forms/le_riesz_map_weak_form.py
index f2484d8..b2b7724 100644
--- a/src/weak_forms/le_riesz_map_weak_form.py
+++ b/src/weak_forms/le_riesz_map_weak_form.py
@@ -27,8 +27,8 @@ class LERieszMapWeakForm(WeakForm):
         u_data: ElementData = u_space.elements[iel].data
         t_data: ElementData = t_space.elements[iel].data
 
-        points, weights = self.space.quadrature
         dim = s_data.cell.dimension
+        points, weights = self.space.quadrature[dim]
         x, jac, det_jac, inv_jac = s_space.elements[iel].evaluate_mapping(points)
 
         # basis
-- 
2.43.0


From 7d8aa4b66d4439a06ef919d9c967461bbb16d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 11/65] fix: normal displacement condition couples the
 displacement components

---
 src/weak_forms/le_primal_weak_form.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/weak_forms/le_primal_weak_form.py b/src/weak_forms/le_primal_weak_form.py
index 3019527..f11d46e 100644
--- a/src/weak_forms/le_primal_weak_form.py
+++ b/src/weak_forms/le_primal_weak_form.py
@@ -266,10 +266,15 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
             b = c
             e = b + n_u_dof
 
-            jac_block_u = np.zeros((n_u_phi, n_u_phi))
-            for i, omega in enumerate(weights):
-                phi = u_phi_tab[0, i, :, 0] * n[c]
-                jac_block_u += beta * det_jac[i] * omega * np.outer(phi, phi)
+            # the normal component couples all displacement components
+            for d in range(u_components):
+                jac_block_u = np.zeros((n_u_phi, n_u_phi))
+                for i, omega in enumerate(weights):
+                    phi = u_phi_tab[0, i, :, 0]
+                    jac_block_u += (
+                        beta * det_jac[i] * omega * n[c] * n[d] * np.outer(phi, phi)
+                    )
+                j_el[b:e:u_components, d : d + n_u_dof : u_components] += jac_block_u
 
             res_block_u = np.zeros(n_u_phi)
             for i, omega in enumerate(weights):
@@ -281,6 +286,5 @@ class LEPrimalWeakFormBCNormalDirichlet(WeakForm):
                 res_block_u -= beta * det_jac[i] * omega * u_D_normal * phi
 
             r_el[b:e:u_components] += res_block_u
-            j_el[b:e:u_components, b:e:u_components] += jac_block_u
 
         return r_el, j_el
-- 
2.43.0


From 7b21b17d5b48eb0364ff771445a04afc231b5ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:30 +0000
Subject: [PATCH 12/65] fix: polygon normal no longer degenerates for aligned
 vertices (parallelograms, rhombi)

---
 .../operations/polygon_geometry_operations.py | 28 +++++--------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/geometry/operations/polygon_geometry_operations.py b/src/geometry/operations/polygon_geometry_operations.py
index e06868a..d5ac06d 100644
--- a/src/geometry/operations/polygon_geometry_operations.py
+++ b/src/geometry/operations/polygon_geometry_operations.py
@@ -31,27 +31,13 @@ def __projection_directions(points):
 
 
 def polygon_normal(points: np.array):
-    # centroid
-    xc = np.mean(points, axis=0)
-
-    # get two relevant in-plane directions
-    dxc = np.array([np.linalg.norm(point - xc) for point in points])
-    if np.isclose(np.max(dxc), np.min(dxc)):
-        pa = points[0]
-        pb = points[1]
-        pc = points[2]
-    else:
-        pa = points[np.argmax(dxc)]
-        points_red = np.delete(points, np.argmax(dxc), axis=0)
-        points_red = np.vstack((points_red, np.mean(points_red, axis=0)))
-        dxc_red = np.delete(dxc, np.argmax(dxc), axis=0)
-        overall_dxc_red = np.linalg.norm(np.mean(points_red, axis=0) - xc)
-        dxc_red = np.append(dxc_red, overall_dxc_red)
-        pb = points_red[np.argmax(dxc_red)]
-        pc = points_red[np.argmin(dxc_red)]
-
-    # normal vector of the polygon
-    normal = __normalize(np.cross(pb - pa, pc - pa))
+    # normal vector of the polygon (Newell's method), it does not degenerate when
+    # some of the vertices are aligned
+    shifted_points = points - np.mean(points, axis=0)
+    area_vector = np.sum(
+        np.cross(shifted_points, np.roll(shifted_points, -1, axis=0)), axis=0
+    )
+    normal = __normalize(area_vector)
     return normal
 
 
-- 
2.43.0


From 5d4dba5954ea962ddffb464f2ad8f3a776400eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 13/65] fix: winding number closes the polygon loop

---
 src/geometry/operations/polygon_geometry_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/operations/polygon_geometry_operations.py b/src/geometry/operations/polygon_geometry_operations.py
index d5ac06d..4f94bc4 100644
--- a/src/geometry/operations/polygon_geometry_operations.py
+++ b/src/geometry/operations/polygon_geometry_operations.py
@@ -78,8 +78,8 @@ def winding_number(p: np.array, polygon_points: np.array):
     # Compute the angles of each vertex with respect to the origin
     angles = np.arctan2(shifted_polygon[:, 1], shifted_polygon[:, 0])
 
-    # Compute the difference between consecutive angles
-    angle_diffs = np.diff(np.unwrap(angles))
+    # Compute the difference between consecutive angles of the closed loop
+    angle_diffs = np.diff(np.unwrap(np.append(angles, angles[0])))
 
     # Sum the differences to get the winding number
     winding_number = np.sum(angle_diffs) / (2 * np.pi)
-- 
2.43.0


From ef8cbdf97e54da16ae82818857c6cfba5dc2fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 14/65] fix: non-convex polygons are triangulated by ear
 clipping, Delaunay left the polygon

---
 .../operations/polygon_geometry_operations.py | 49 ++++++++++++++-----
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/geometry/operations/polygon_geometry_operations.py b/src/geometry/operations/polygon_geometry_operations.py
index 4f94bc4..dfe3997 100644
--- a/src/geometry/operations/polygon_geometry_operations.py
+++ b/src/geometry/operations/polygon_geometry_operations.py
@@ -1,6 +1,4 @@
 import numpy as np
-from scipy.spatial import Delaunay
-from functools import partial
 
 
 def __normalize(v):
@@ -111,6 +109,39 @@ def triangulate_convex_polygon(points: np.array):
     return np.array(triangles)
 
 
+def __ear_clipping(points: np.array, eps: float = 1.0e-12):
+    def cross(o, a, b):
+        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
+
+    indices = list(range(len(points)))
+    tol = eps * np.max(np.ptp(points, axis=0)) ** 2
+    area = sum(cross(points[0], points[i - 1], points[i]) for i in indices[1:])
+    if area < 0.0:
+        indices.reverse()
+
+    triangles = []
+    while len(indices) > 3:
+        for i, v in enumerate(indices):
+            u, w = indices[i - 1], indices[(i + 1) % len(indices)]
+            a, b, c = points[[u, v, w]]
+            if cross(a, b, c) <= tol:
+                continue  # reflex or flat vertex
+            ear_q = not any(
+                cross(a, b, p) >= -tol
+                and cross(b, c, p) >= -tol
+                and cross(c, a, p) >= -tol
+                for p in points[[k for k in indices if k not in (u, v, w)]]
+            )
+            if ear_q:
+                triangles.append([u, v, w])
+                indices.pop(i)
+                break
+        else:
+            raise ValueError("The polygon is not simple.")
+    triangles.append(indices)
+    return np.array(triangles)
+
+
 def triangulate_polygon(points: np.array):
 
     if convex_q(points):
@@ -119,17 +150,9 @@ def triangulate_polygon(points: np.array):
     # Drop a direction to project the 3D vertices to 2D
     dir_idx = __projection_directions(points)
 
-    # Perform Delaunay triangulation on the 2D projected vertices
-    delaunay = Delaunay(points[:, dir_idx])
-
-    # Get the triangles
-    triangles_R2 = delaunay.simplices
-
-    # delete triangles outside the original polygon
-    triangle_xc = np.mean(points[:, dir_idx][triangles_R2], axis=1)
-    polygon_winding = partial(winding_number, polygon_points=points[:, dir_idx])
-    valid_triangles = np.argwhere(list(map(polygon_winding, triangle_xc))).ravel()
-    triangles_R2 = triangles_R2[valid_triangles]
+    # Ear clipping on the 2D projected vertices. The edges of the polygon are always
+    # preserved, which is not the case for a Delaunay triangulation of the vertices
+    triangles_R2 = __ear_clipping(points[:, dir_idx])
 
     # Map the triangles back to 3D
     triangles = points[triangles_R2]
-- 
2.43.0


From c9da1e1e0c2932ffa1242fc78b88fdbaa7e642d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:41 +0000
Subject: [PATCH 15/65] fix: line_line_intersection reports a segment contained
 in the other one

---
 src/geometry/operations/line_geometry_operations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 2b33ca1..bbfbb21 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -24,6 +24,11 @@ def line_line_intersection(
             assert np.all(np.isclose(out, np.array([a, b])[intx_q]))
             return out
 
+    # case with c and d on the segment ab
+    out, intx_q = points_line_intersection(np.array([c, d]), a, b, p_incidence_tol)
+    if np.sum(intx_q) > 1:
+        return out, intx_q
+
     # Direction vectors
     d1 = b - a
     d2 = d - c
-- 
2.43.0


From 147c5c0c3c252cc07b58c82633c32b45b9ac2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:50 +0000
Subject: [PATCH 16/65] fix: lines_line_intersection handles overlapping
 segments

---
 .../operations/line_geometry_operations.py        | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index bbfbb21..9694561 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -64,11 +64,16 @@ def lines_line_intersection(
 ) -> float:
     # compute intersections
     line_line_intx = partial(line_line_intersection, c=a, d=b, eps=eps)
-    result = [line_line_intx(line[0], line[1]) for line in lines]
-
-    # filter lines outside segment
-    result = np.array(list(filter(lambda x: x is not None, result)))
-    return result
+    result = []
+    for line in lines:
+        out = line_line_intx(line[0], line[1])
+        # filter lines outside segment
+        if out is None:
+            continue
+        # overlapping segments provide two points
+        points = out[0] if isinstance(out, tuple) else out
+        result.extend([np.array([point]) for point in points])
+    return np.array(result)
 
 
 def lines_lines_intersection(
-- 
2.43.0


From 0b717b3ed0955dccd41a414a21c705bc7b69be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:36 +0000
Subject: [PATCH 17/65] fix: line_triangle_intersection returns None for a
 crossing outside of the segment

---
 src/geometry/operations/line_geometry_operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 9694561..81890d5 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -228,7 +228,7 @@ def line_triangle_intersection(
     # Calculate the distance from line_start to the plane of the triangle
     d = np.dot(normal, a - p) / denom
     if d < 0 or d > 1:
-        return False
+        return None
 
     # Calculate the intersection point on the line
     intx_point = p + d * line_dir
-- 
2.43.0


From fd535e546db927ff1385c96e6848e684f68aad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:38 +0000
Subject: [PATCH 18/65] fix: fractures that share an end point are not given a
 piece of length zero

---
 src/geometry/fracture_network.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index c625b8f..3324000 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -263,10 +263,14 @@ class FractureNetwork:
                 cell_indices = [cell_i.immersed_cells[k].id for k in perm.tolist()]
                 cell_indices = list(dict.fromkeys(cell_indices))
 
-                # Insert bondary points
-                if b not in cell_indices:
+                # Insert bondary points not represented by an intersection
+                point_b, point_e, point_first, point_last = [
+                    self.points[self.cells[index].point_id]
+                    for index in [b, e, cell_indices[0], cell_indices[-1]]
+                ]
+                if la.norm(point_b - point_first) >= self.eps:
                     cell_indices.insert(0, b)
-                if e not in cell_indices:
+                if la.norm(point_e - point_last) >= self.eps:
                     cell_indices.append(e)
                 connectivities = np.array(
                     [
-- 
2.43.0


From 764d35cc6c8b932ddcd37fb1f811324ef8ab066b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 19/65] fix: unpair_intergers inverts pair_intergers

---
 src/geometry/fracture_network.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index 3324000..bca0ded 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -1,3 +1,5 @@
+import math
+
 import matplotlib.pyplot as plt
 import networkx as nx
 import numpy as np
@@ -298,11 +300,12 @@ class FractureNetwork:
     def unpair_intergers(self, z):
         # http://szudzik.com/ElegantPairing.pdf
         pair = None
-        test = z - np.sqrt(z) ** 2 < np.sqrt(z)
+        root = math.isqrt(z)
+        test = z - root**2 < root
         if test:
-            pair = [z - np.sqrt(z) ** 2, np.sqrt(z)]
+            pair = [z - root**2, root]
         else:
-            pair = [np.sqrt(z), z - np.sqrt(z) ** 2 - np.sqrt(z)]
+            pair = [root, z - root**2 - root]
         return pair
 
     def shift_point_ids(self, shift=0):
-- 
2.43.0


From fd0540421f95e80984dd594c83672f106376251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 20/65] fix: vertices of the second and later planar fractures
 refer to their own points

---
 src/geometry/fracture_network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index bca0ded..f04101f 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -69,12 +69,16 @@ class FractureNetwork:
         return vertex
 
     def insert_fracture_cell(self, cell_id, fracture, physical_tag):
+        point_shift = len(self.points) - cell_id
         self.points = np.append(
             self.points, np.array([point for point in fracture]), axis=0
         )
         loop = [i + cell_id for i in range(len(fracture))]
         self.cells = np.append(
-            self.cells, np.array([GeometryCell(0, index) for index in loop])
+            self.cells,
+            np.array(
+                [GeometryCell(0, index, point_id=index + point_shift) for index in loop]
+            ),
         )
 
         loop.append(loop[0])
-- 
2.43.0


From be51db922fa1562527a4e966596979c1c52ac6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:57 +0000
Subject: [PATCH 21/65] fix: planar fractures whose intersection lines do not
 cross each other keep them

---
 src/geometry/fracture_network.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index f04101f..ba753cc 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -176,19 +176,12 @@ class FractureNetwork:
                         f_cell.point_id = f_cell.point_id + point_id
                     self.cells = np.append(self.cells, f_cell)
 
-                f_cell_1d = []
-                if n_intersections == 1:
-                    f_cell_1d = [
-                        f_cell
-                        for f_cell in fracture_network.cells
-                        if f_cell.dimension == 1
-                    ]
-                else:
-                    f_cell_1d = [
-                        f_cell
-                        for f_cell in fracture_network.cells
-                        if f_cell.dimension == 1 and len(f_cell.immersed_cells) > 0
-                    ]
+                # a vertex pair and the edge of each fracture come before the pieces
+                f_cell_1d = [
+                    f_cell
+                    for f_cell in fracture_network.cells[: 3 * n_intersections]
+                    if f_cell.dimension == 1
+                ]
 
                 cj = 0
                 for j, chunk in enumerate(intersection_data[i]):
-- 
2.43.0


From 175a1d9dd6bde80921340f825a23dad27169e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 22/65] fix: bulk vertex-edge intersection tags its vertices
 uniquely and accepts edges without hits

---
 src/topology/operations/vertex_operations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 1c9a3f7..18c93b6 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -149,7 +149,8 @@ def vertices_edges_intersection(
         shape_intx, shapes_tool = vertices_edge_intersection(
             vertices_tool, edge, tag, eps
         )
-        tag = np.max([shape.tag for shape in shape_intx])
+        if len(shape_intx) != 0:
+            tag = np.max([tag - 1] + [shape.tag for shape in shape_intx]) + 1
         output.append((edge, shape_intx, shapes_tool))
     return output
 
-- 
2.43.0


From 33fcf45060532fa4b12da7e24629d2e42b404dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 23/65] fix: vertex shared by two crossing edges is given a
 point instead of an array of points

---
 src/topology/operations/edge_operations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/operations/edge_operations.py b/src/topology/operations/edge_operations.py
index d73fb0f..8ce61cb 100644
--- a/src/topology/operations/edge_operations.py
+++ b/src/topology/operations/edge_operations.py
@@ -87,4 +87,6 @@ def edge_edge_intersection(
     if out is None:
         return None
     else:
-        return Vertex(tag, out)
+        # overlapping edges share two points
+        points = out[0] if isinstance(out, tuple) else out
+        return Vertex(tag, points[0])
-- 
2.43.0


From 3e115fd8fcfc27d261ee5b82a404b658772f3df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:48 +0000
Subject: [PATCH 24/65] fix: bulk vertex-edge intersection does not retag the
 vertices of the edge

---
 src/topology/operations/vertex_operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 18c93b6..905fe30 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -128,8 +128,10 @@ def vertices_edge_intersection(
     for idx, shape in enumerate(resulting_shapes):
         if shape is None:
             continue
-        shape.tag = tag
-        tag += 1
+        # vertices of the edge itself keep their tag
+        if not any(shape is bc_shape for bc_shape in edge_object.boundary_shapes):
+            shape.tag = tag
+            tag += 1
         shape_intx.append(shape)
         shapes_tool.append(vertices_tool[idx])
     shape_intx = np.array(shape_intx)
-- 
2.43.0


From 9e33513043fbf4354b0f17dd7551a00acb8e6023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:06 +0000
Subject: [PATCH 25/65] fix: fractures that touch are found in spite of
 round-off, colinear ones that do not overlap do not intersect

---
 src/geometry/fracture_network.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/geometry/fracture_network.py b/src/geometry/fracture_network.py
index ba753cc..6b51cb2 100644
--- a/src/geometry/fracture_network.py
+++ b/src/geometry/fracture_network.py
@@ -7,6 +7,7 @@ from numpy import linalg as la
 
 import geometry.operations.polygon_polygon_intersection_test as pp_intersector
 import geometry.operations.triangle_triangle_intersection_test as tt_intersector
+from geometry.operations.line_geometry_operations import line_line_intersection
 
 from .geometry_cell import GeometryCell
 
@@ -239,11 +240,14 @@ class FractureNetwork:
                 p, q = [self.points[id] for id in cell_j_bc_ids]
                 if i >= j:
                     continue
-                intersection_data = tt_test.line_line_intersection(
-                    a, b, p, q, pos, render_intersection_q
-                )
-                if intersection_data[0]:
-                    point = intersection_data[1]
+                if render_intersection_q:
+                    tt_test.render_lines(a, b, p, q, pos)
+                intersection = line_line_intersection(a, b, p, q)
+                if intersection is not None:
+                    # overlapping fractures provide two points
+                    if isinstance(intersection, tuple):
+                        intersection = intersection[0]
+                    point = intersection[0]
                     physical_tag = self.pair_intergers(
                         cell_i.physical_tag, cell_j.physical_tag
                     )
-- 
2.43.0


From 24b7044e2e7272568ce8cfd47f816218959fea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 26/65] fix: a wire starts at the vertex its first edge does
 not share with the second one

---
 src/topology/wire.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/topology/wire.py b/src/topology/wire.py
index e04df3c..a9aacb5 100644
--- a/src/topology/wire.py
+++ b/src/topology/wire.py
@@ -40,11 +40,20 @@ class Wire(Shape):
                 self.admissible_dimensions(),
             )
 
+    @staticmethod
+    def first_vertex(edges):
+        # the wire starts at the vertex that is not shared with the second edge
+        v_b, v_e = edges[0].boundary_shapes
+        if len(edges) > 1:
+            b_shared_q = v_b in edges[1].boundary_shapes
+            e_shared_q = v_e in edges[1].boundary_shapes
+            if b_shared_q and not e_shared_q:
+                return v_e
+        return v_b
+
     def orient_immersed_edges(self):
         edges = self.immersed_shapes
-        seed_vertex = edges[0].boundary_shapes[0]
-        if seed_vertex.tag > edges[0].boundary_shapes[1].tag:
-            seed_vertex = edges[0].boundary_shapes[1]
+        seed_vertex = self.first_vertex(edges)
 
         self.orientation = []
         for edge in edges:
@@ -58,9 +67,7 @@ class Wire(Shape):
 
     def orient_immersed_vertices(self):
         edges = self.immersed_shapes
-        seed_vertex = edges[0].boundary_shapes[0]
-        if seed_vertex.tag > edges[0].boundary_shapes[1].tag:
-            seed_vertex = edges[0].boundary_shapes[1]
+        seed_vertex = self.first_vertex(edges)
 
         vertices = []
         for edge in edges:
-- 
2.43.0


From 55a8f2ab7e75ae8a67d67062a5c2131e45cf512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:08 +0000
Subject: [PATCH 27/65] fix: DiscreteDomain transfers volumes with the strides
 of the class

---
 src/mesh/discrete_domain.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 3c95c63..05ae641 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -245,14 +245,13 @@ class DiscreteDomain:
 
         # transfer volumes
         if dimension > 2:
-            volume_stride = surface_stride + len(self.domain.shapes[2])
             for volume in self.domain.shapes[3]:
-                tag = volume_stride + volume.tag + 1
+                tag = self.stride_tag(3, volume.tag)
                 if not volume.composite:
                     # print("creating surface tag: ", surface.tag)
                     shell = volume.boundary_shapes[0]
                     loop_tags = [
-                        surface_stride + shape.tag + 1
+                        self.stride_tag(2, shape.tag)
                         for shape in shell.immersed_shapes
                     ]
                     gmsh.model.occ.addSurfaceLoop(loop_tags, tag)
@@ -272,7 +271,7 @@ class DiscreteDomain:
             for volume in self.domain.shapes[3]:
                 if volume.physical_tag is not None:
                     gmsh.model.addPhysicalGroup(
-                        3, [volume_stride + volume.tag + 1], volume.physical_tag
+                        3, [self.stride_tag(3, volume.tag)], volume.physical_tag
                     )
 
         gmsh.model.occ.synchronize()
@@ -298,21 +297,21 @@ class DiscreteDomain:
                 for shape_c1 in shapes_c1:
                     if len(shape_c1.immersed_shapes) > 0:
                         tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
+                            self.stride_tag(1, curve.tag)
                             for curve in shape_c1.immersed_shapes
                         ]
                     else:
-                        tags_2d = tags_2d + [surface_stride + shape_c1.tag + 1]
+                        tags_2d = tags_2d + [self.stride_tag(2, shape_c1.tag)]
                     for shape_c2 in shape_c1.boundary_shapes:
                         tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
+                            self.stride_tag(1, curve.tag)
                             for curve in shape_c2.immersed_shapes
                         ]
 
                 tags_1d = list(np.unique(tags_1d))
                 tags_2d = list(np.unique(tags_2d))
-                gmsh.model.mesh.embed(1, tags_1d, 3, volume_stride + volume.tag + 1)
-                gmsh.model.mesh.embed(2, tags_2d, 3, volume_stride + volume.tag + 1)
+                gmsh.model.mesh.embed(1, tags_1d, 3, self.stride_tag(3, volume.tag))
+                gmsh.model.mesh.embed(2, tags_2d, 3, self.stride_tag(3, volume.tag))
 
                 numNodes = 2
                 for tag_1d in tags_1d:
-- 
2.43.0


From a5025fe041ad32e0570f072e25ddaf89fd1f7168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 28/65] fix: the wire of a fractured box walks along its last
 side in order

---
 src/topology/domain_market.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 307f8bc..733a25e 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -274,14 +274,15 @@ def create_md_box_2D(
     edges = edges[e_intx_q]
 
     wire_edges = []
-    for boundary_edge in rock_domain_edges:
+    for i, boundary_edge in enumerate(rock_domain_edges):
         sub_edges = np.array(
             [edge for edge in edges if edge.physical_tag == boundary_edge.physical_tag]
         )
         sub_edges_xcs = np.array(
             [np.mean(sub_edge.boundary_points(), axis=0) for sub_edge in sub_edges]
         )
-        a, b = boundary_edge.boundary_points()
+        # walk along the box, the points of an edge are sorted by tag
+        a, b = box_points[i], box_points[(i + 1) % len(box_points)]
         idx = points_line_argsort(sub_edges_xcs, a, b)
         wire_edges.append(sub_edges[idx])
     wire_edges = np.concatenate(wire_edges)
-- 
2.43.0


From ae571657fefcb452d6d3c8b8417787c9d231fff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 29/65] fix: the wire of a fractured box does not reuse the tag
 of an edge

---
 src/topology/domain_market.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 733a25e..2781ad8 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -261,6 +261,7 @@ def create_md_box_2D(
 
     domain_c0 = domain_difference(domain, domain_c1, tag)
     md_domain_c1 = domain_union(domain_c0, domain_c1)
+    tag = md_domain_c1.max_tag() + 1
 
     # remove shapes outside the original domain
     vertices = np.array([vertex for vertex in md_domain_c1.shapes[0]])
-- 
2.43.0


From 2cd3d168545979fe95f62ec4944a4438dc3d515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 30/65] fix: fractures that meet on the boundary of the box
 share the vertex there

---
 src/topology/domain_market.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 2781ad8..78bbea0 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -228,6 +228,9 @@ def create_md_box_2D(
             tag += 1
 
     for point in fracture_intx:
+        # fractures that meet on the boundary share the boundary vertex
+        if any(np.all(np.isclose(vertex.point, point)) for vertex in vertices):
+            continue
         v: Vertex = Vertex(tag, point)
         v.physical_tag = fracture_physical_tags["point"]
         vertices.append(v)
-- 
2.43.0


From b2ec2af39b20dabbb94efbf3614b54e170d85a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 31/65] fix: cutting a mesh along a fracture leaves the edges
 of the fracture alone

---
 src/mesh/mesh_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index 8a08313..17f1066 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -382,6 +382,9 @@ def cut_conformity_along_c1_line(
     c1_cells_data = [list(g_d1_0d.predecessors(cell.index())) for cell in c2_cells]
     c1_cells_idx = np.array(list(itertools.chain(*c1_cells_data)))
     c1_cell_ids = np.unique([cell_idx[1] for cell_idx in c1_cells_idx])
+    # cells on the line belong to neither side
+    line_cell_ids = [cell.id for cell in c1_cells]
+    c1_cell_ids = np.setdiff1d(c1_cell_ids, line_cell_ids)
     c1_cells = np.array([mesh.cells[c1_id] for c1_id in c1_cell_ids])
     c1_xcs = np.array([cell_centroid(cell, mesh) for cell in c1_cells])
     c1_dirs = c1_xcs - np.mean([a, b], axis=0)
-- 
2.43.0


From 36827c3cd1911b8f0950a96e4b065044424827b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 32/65] fix: vertices cloned at a fracture list themselves as
 sub cell

---
 src/mesh/mesh.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index 50812da..bcb47b7 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -1121,9 +1121,7 @@ class Mesh:
                 mesh_cell = self.create_cell(
                     0, np.array([new_node_tags_p[i]]), cell_id, mat_id_p
                 )
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_p[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_p[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
@@ -1139,9 +1137,7 @@ class Mesh:
                 mesh_cell = self.create_cell(
                     0, np.array([new_node_tags_n[i]]), cell_id, mat_id_n
                 )
-                mesh_cell.set_sub_cells_ids(
-                    mesh_cell.dimension, np.array([new_node_tags_n[i]])
-                )
+                mesh_cell.set_sub_cells_ids(mesh_cell.dimension, np.array([cell_id]))
                 self.cells = np.append(self.cells, mesh_cell)
                 map_vertex_n[vertices[i]] = cell_id
                 old_node_tag = self.cells[vertices[i]].node_tags[0]
-- 
2.43.0


From 47fc066057438fbd08872fd26a1d53f440564e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 33/65] fix: tetrahedra without a physical tag are left out of
 the VTK file with their tags

---
 src/mesh/mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/mesh.py b/src/mesh/mesh.py
index bcb47b7..4f0a0be 100644
--- a/src/mesh/mesh.py
+++ b/src/mesh/mesh.py
@@ -435,7 +435,9 @@ class Mesh:
             [
                 cell.material_id
                 for cell in self.cells
-                if cell.dimension == 3 and cell.id is not None
+                if cell.dimension == 3
+                and cell.id is not None
+                and cell.material_id is not None
             ]
         )
         entity_tags_3d = np.array(
-- 
2.43.0


From 7206c52ebcdb1e2c56b4484dba716a06482389d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 34/65] fix: output of Lagrange fields with more components
 than the mesh has dimensions

---
 src/postprocess/solution_post_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 89baabe..ad6ff0c 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -50,7 +50,7 @@ def node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha):
 
         # Generalized displacement
         if space.family is family_by_name("Lagrange"):
-            f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+            f_h = (phi_tab[0, :, :, 0] @ alpha_star).T
         else:
             f_h = np.vstack(
                 tuple(
@@ -95,7 +95,7 @@ def cell_centered_quatity(cell, fe_space, name, alpha):
 
     # Generalized displacement
     if space.family is family_by_name("Lagrange"):
-        f_h = (phi_tab[0, :, :, 0] @ alpha_star[:, 0:dim]).T
+        f_h = (phi_tab[0, :, :, 0] @ alpha_star).T
     else:
         f_h = np.vstack(
             tuple([phi_tab[0, 0, :, 0:dim].T @ alpha_star[:, c] for c in range(n_comp)])
-- 
2.43.0


From 05f1df61fb9357a4c611b75d8ff46973e729a459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 35/65] fix: pointwise error of Lagrange fields compares
 component by component

---
 src/postprocess/solution_post_processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index ad6ff0c..7c1e14b 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -363,7 +363,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(np.ravel(f_e) - np.ravel(f_h))
                 eh_data[cell_idx] = e_f.ravel()
 
             c_data_dict[name + "_error"] = [eh_data]
@@ -382,7 +382,7 @@ def write_vtk_file_pointwise_l2_error(
                 x = gmesh.points[node_idx]
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha)
-                e_f = np.linalg.norm(f_e - f_h)
+                e_f = np.linalg.norm(np.ravel(f_e) - np.ravel(f_h))
                 eh_data[node_idx] = e_f.ravel()
 
             p_data_dict[name + "_error"] = eh_data
-- 
2.43.0


From f62138d7fb1b9ea7655753271cb096f7af619c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 36/65] fix: vertices compare with shapes that have no point

---
 src/topology/vertex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/topology/vertex.py b/src/topology/vertex.py
index 4f2c17f..9ff836c 100644
--- a/src/topology/vertex.py
+++ b/src/topology/vertex.py
@@ -15,8 +15,9 @@ class Vertex(Shape):
 
     def __eq__(self, other):
         identity_check = (self.dimension, self.tag) == (other.dimension, other.tag)
-        geometry_check = np.all(np.isclose(self.point, other.point))
-        return identity_check and geometry_check
+        if not identity_check:
+            return False
+        return np.all(np.isclose(self.point, other.point))
 
     @property
     def point(self):
-- 
2.43.0


From 6011368dde5bc2ec7466dd145c9ab51c05171fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 37/65] fix: shapes with equal immersed shapes and different
 boundaries are not equal

---
 src/topology/shape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/shape.py b/src/topology/shape.py
index fdae18c..e25a7b7 100644
--- a/src/topology/shape.py
+++ b/src/topology/shape.py
@@ -141,7 +141,7 @@ class Shape(ABC):
 
         equality_by_immersed_shapes = True
         if self.immersed_shapes.size != 0 and n_immersed_shapes_q:
-            equality_by_boundary_shapes = np.all(
+            equality_by_immersed_shapes = np.all(
                 np.array(
                     [
                         shape == other_shape
-- 
2.43.0


From c294eadf08a05a358a5f212fc7c22c09334e492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:19 +0000
Subject: [PATCH 38/65] fix: assigning a wire takes over its orientation

---
 src/topology/wire.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/topology/wire.py b/src/topology/wire.py
index a9aacb5..3f75994 100644
--- a/src/topology/wire.py
+++ b/src/topology/wire.py
@@ -79,6 +79,10 @@ class Wire(Shape):
                 seed_vertex = edge.boundary_shapes[0]
         return np.array(vertices)
 
+    def shape_assignment(self, other):
+        super().shape_assignment(other)
+        self.orientation = other.orientation
+
     def boundary_points(self):
         shape_b = self.immersed_shapes[0]
         shape_e = self.immersed_shapes[-1]
-- 
2.43.0


From cee800c44e1dac9643707c28e9282900ac75e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 39/65] fix: vertices off an edge are not embedded in it

---
 src/topology/shape_manipulation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index c7255d0..11036dd 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -178,7 +178,8 @@ def embed_vertex_in_edge(vertices: np.ndarray, edge: Edge, tag_shift=0):
         if ra_norm < r_norm and r_norm < rb_norm:
             is_a = np.isclose(r_norm, ra_norm)
             is_b = np.isclose(r_norm, rb_norm)
-            if not is_a and not is_b:
+            on_edge = np.allclose(vertex.point, r_norm / rb_norm * b.point)
+            if on_edge and not is_a and not is_b:
                 valid_indices.append(i)
                 r_norms.append(r_norm)
         vertex.point = vertex.point + translation
-- 
2.43.0


From 6ea361077867689a6a65b6f93cb7e8225896cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:34 +0000
Subject: [PATCH 40/65] fix: retagging shapes of one dimension leaves the tags
 of others alone

---
 src/topology/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/domain.py b/src/topology/domain.py
index b3bbd4a..57fd488 100644
--- a/src/topology/domain.py
+++ b/src/topology/domain.py
@@ -55,7 +55,7 @@ class Domain:
             tag += 1
             if len(shape.immersed_shapes):
                 for j, ishape in enumerate(shape.immersed_shapes):
-                    if shape.dimension != dim:
+                    if ishape.dimension != dim:
                         continue
                     ishape.tag = tag
                     tag += 1
-- 
2.43.0


From 233ab124a5aa11b7a9dc1a6db2240b695657f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:31 +0000
Subject: [PATCH 41/65] fix: equal points at both sides of a rounding boundary
 are deduplicated

---
 .../operations/line_geometry_operations.py         | 14 ++++----------
 .../operations/point_geometry_operations.py        | 12 ++++++++++++
 src/topology/domain_market.py                      |  5 ++---
 src/topology/operations/vertex_operations.py       |  5 ++---
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index 81890d5..d68b17d 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -1,6 +1,5 @@
 from functools import partial
 from geometry.operations.point_geometry_operations import points_line_argsort
-from globals import geometry_collapse_precision as collapse_precision
 from globals import geometry_point_line_incidence_tol as p_incidence_tol
 from globals import geometry_line_line_incidence_tol as l_incidence_tol
 from globals import geometry_line_polygon_incidence_tol as s_incidence_tol
@@ -9,6 +8,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 from geometry.operations.point_geometry_operations import points_line_intersection
 from geometry.operations.point_geometry_operations import point_triangle_intersection
+from geometry.operations.point_geometry_operations import unique_points_index
 from geometry.operations.polygon_geometry_operations import triangulate_polygon
 
 
@@ -107,9 +107,7 @@ def lines_lines_intersection(
             for point in points_in_line:
                 points = np.append(points, point, axis=0)
         # Define domains to be subtracted
-        points_rounded = np.round(points, decimals=collapse_precision)
-        _, idx = np.unique(points_rounded, axis=0, return_index=True)
-        unique_points = points[idx]
+        unique_points = points[unique_points_index(points)]
         return unique_points
     else:
         return output
@@ -198,9 +196,7 @@ def line_triangle_intersection(
     lines = np.array([[a, b], [b, c], [c, a]])
     out = lines_line_intersection(lines, p, q, eps)
     if out.shape[0] != 0:
-        out_rounded = np.round(out, decimals=collapse_precision)
-        _, idx = np.unique(out_rounded, axis=0, return_index=True)
-        out = out[idx]
+        out = out[unique_points_index(out[:, 0])]
         if out.shape[0] == 1:
             return out[0]
         else:
@@ -300,9 +296,7 @@ def line_polygon_intersection(
                     intx_data = np.append(intx_data, out, axis=0)
 
         # Define domains to be subtracted
-        intx_data_rounded = np.round(intx_data, decimals=collapse_precision)
-        _, idx = np.unique(intx_data_rounded, axis=0, return_index=True)
-        intx_data = intx_data[idx]
+        intx_data = intx_data[unique_points_index(intx_data)]
         a, b = line
         idx_sort = points_line_argsort(intx_data, a, b)
         if intx_data.shape[0] > 2:  # return only external intersections
diff --git a/src/geometry/operations/point_geometry_operations.py b/src/geometry/operations/point_geometry_operations.py
index 30751d8..9b00003 100644
--- a/src/geometry/operations/point_geometry_operations.py
+++ b/src/geometry/operations/point_geometry_operations.py
@@ -1,11 +1,23 @@
 import numpy as np
 from functools import partial
+from globals import geometry_collapse_precision as collapse_precision
 from globals import geometry_collapse_tol as collapse_tol
 from globals import geometry_point_line_incidence_tol as l_incidence_tol
 from globals import geometry_point_polygon_incidence_tol as incidence_tol
 from geometry.operations.polygon_geometry_operations import triangulate_polygon
 
 
+def unique_points_index(points: np.array, eps: float = collapse_tol) -> np.array:
+    # rounding alone separates equal points at each side of a rounding boundary
+    rounded_points = np.round(points, decimals=collapse_precision)
+    _, sorted_idx = np.unique(rounded_points, axis=0, return_index=True)
+    idx = []
+    for i in sorted_idx:
+        if not np.any(np.all(np.abs(points[idx] - points[i]) <= eps, axis=1)):
+            idx.append(i)
+    return np.array(idx, dtype=int)
+
+
 def colinear_measurement(p: np.array, a: np.array, b: np.array) -> float:
     v = a - p
     u = b - p
diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 78bbea0..75a3d35 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -12,7 +12,6 @@ from topology.vertex import Vertex
 from topology.wire import Wire
 
 from globals import topology_tag_shape_info
-from globals import geometry_collapse_precision as collapse_precision
 from topology.operations.domain_operations import create_domain
 from topology.operations.domain_operations import domain_difference
 from topology.operations.domain_operations import domain_union
@@ -20,6 +19,7 @@ from topology.operations.domain_operations import domain_union
 from geometry.operations.point_geometry_operations import points_line_intersection
 from geometry.operations.point_geometry_operations import points_line_argsort
 from geometry.operations.point_geometry_operations import points_polygon_intersection
+from geometry.operations.point_geometry_operations import unique_points_index
 from geometry.operations.line_geometry_operations import lines_lines_intersection
 
 
@@ -216,8 +216,7 @@ def create_md_box_2D(
 
     # Eliminate duplicates values since face boundaries can not share a vertex (line boundary)
     b_points = np.array([vertex.point for vertex in raw_vertices])
-    b_points_rounded = np.round(b_points, decimals=collapse_precision)
-    _, unique_idx = np.unique(b_points_rounded, axis=0, return_index=True)
+    unique_idx = unique_points_index(b_points)
 
     tag = rock_domain.max_tag() + 1
     vertices = []
diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 905fe30..7ba19b5 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -7,7 +7,6 @@ from topology.face import Face
 from topology.shell import Shell
 
 from globals import topology_tag_shape_info as tag_info
-from globals import geometry_collapse_precision as collapse_precision
 from globals import geometry_collapse_tol as collapse_tol
 from globals import geometry_point_line_incidence_tol as p_incidence_tol
 from globals import geometry_point_line_incidence_tol as l_incidence_tol
@@ -15,6 +14,7 @@ from geometry.operations.point_geometry_operations import point_line_incidence
 from geometry.operations.point_geometry_operations import point_line_intersection
 from geometry.operations.point_geometry_operations import points_line_intersection
 from geometry.operations.point_geometry_operations import points_line_argsort
+from geometry.operations.point_geometry_operations import unique_points_index
 from functools import partial
 
 
@@ -167,8 +167,7 @@ def vertices_edge_difference(
     # deduplication of vertices
     points_tool = np.array([vertex.point for vertex in vertices_tool])
 
-    points_rounded = np.round(points_tool, decimals=collapse_precision)
-    _, unique_idx = np.unique(points_rounded, axis=0, return_index=True)
+    unique_idx = unique_points_index(points_tool)
     points_tool = points_tool[unique_idx]
 
     a, b = edge_object.boundary_points()
-- 
2.43.0


From 5e729d80fe6cfd7a0e4db13c729b00ef83ebed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 42/65] fix: intersect edges exactly where they meet

The edges of a box with lines were intersected with an uneven treatment of round-off,
lines that end on other lines were missed and aligned lines that do not touch were
reported.
---
 src/topology/shape_manipulation.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index 11036dd..0392c18 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -7,6 +7,7 @@ from topology.vertex import Vertex
 
 import geometry.operations.polygon_polygon_intersection_test as pp_intersector
 import geometry.operations.triangle_triangle_intersection_test as tt_intersector
+from geometry.operations.line_geometry_operations import line_line_intersection
 from topology.edge import Edge
 from topology.wire import Wire
 from topology.face import Face
@@ -233,11 +234,14 @@ def intersect_edges(
             p, q = [shape.point for shape in edge_j.boundary_shapes]
             if i >= j:
                 continue
-            intersection_data = tt_test.line_line_intersection(
-                a, b, p, q, pos, render_intersection_q
-            )
-            if intersection_data[0]:
-                new_point = intersection_data[1]
+            if render_intersection_q:
+                tt_test.render_lines(a, b, p, q, pos)
+            intersection = line_line_intersection(a, b, p, q)
+            if intersection is not None:
+                # overlapping edges provide two points
+                if isinstance(intersection, tuple):
+                    intersection = intersection[0]
+                new_point = intersection[0]
                 obj_vertex = point_on_edge_boundary(new_point, edge_i)
                 tool_vertex = point_on_edge_boundary(new_point, edge_j)
                 # Connected edges by a common vertex are ignored
-- 
2.43.0


From 9ae0b5d40e3fd38b9b2f8f12f59307cdb00fe5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 43/65] fix: order the pieces of the last side of a box along
 its wire

The points of an edge are sorted by tag, the last side of the box is walked backwards.
---
 src/topology/domain_market.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 75a3d35..e29316c 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -364,6 +364,10 @@ def build_box_2D_with_lines(box_points, lines_file, physical_tags=None):
     domain.append_shapes(frag_vertices)
     domain.append_shapes(frag_edges)
 
+    # the points of an edge are sorted by tag, the wire walks along its last side backwards
+    last_edge = domain.shapes[1][len(box_points) - 1]
+    last_edge.immersed_shapes = last_edge.immersed_shapes[::-1]
+
     # update wires
     domain.refresh_wires()
     domain.build_grahp()
-- 
2.43.0


From c963685cc5a9faa750abe4a2ad2bc1492242b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:01 +0000
Subject: [PATCH 44/65] fix: close the wire of a box at the vertex its sides
 share

A line that ends at the first corner of the box replaces the vertex of the sides, the
wire kept the old one.
---
 src/topology/domain_market.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index e29316c..a98aac5 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -368,7 +368,9 @@ def build_box_2D_with_lines(box_points, lines_file, physical_tags=None):
     last_edge = domain.shapes[1][len(box_points) - 1]
     last_edge.immersed_shapes = last_edge.immersed_shapes[::-1]
 
-    # update wires
+    # update wires, lines may have replaced the vertex where the wire is closed
+    for wire in face.boundary_shapes:
+        wire.boundary_shapes = wire.orient_immersed_vertices()[[0]]
     domain.refresh_wires()
     domain.build_grahp()
 
-- 
2.43.0


From d9e21b4d5198e2fb80feda2c76f3709386038e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 45/65] fix: write cell-centered values of fields that live on
 part of the mesh

write_vtk_file and its variants evaluated every cell of the mesh, which fails
with a KeyError on cells outside of the field's domain; such cells keep zeros
like the vertices outside do. The file with exact solutions only lists the cells
of the field, so its cell data follow those.
---
 src/postprocess/solution_post_processor.py | 28 ++++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 7c1e14b..a42d70a 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -126,6 +126,8 @@ def write_vtk_file(file_name, gmesh, fe_space, alpha, cell_centered=[]):
             fh_data = np.zeros((len(cells), n_data))
 
             for cell_idx, cell in enumerate(cells):
+                if cell.id not in space.id_to_element:
+                    continue
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
                 fh_data[cell_idx] = f_h.ravel()
 
@@ -175,6 +177,14 @@ def write_vtk_file_with_exact_solution(
     p_data_dict = {}
     c_data_dict = {}
 
+    # cells written to the file
+    name = list(fe_space.discrete_spaces)[-1]
+    out_cells = [
+        cell
+        for cell in gmesh.cells
+        if cell.material_id in fe_space.fields_physical_tags[name]
+    ]
+
     for item in fe_space.discrete_spaces.items():
         name, space = item
         n_comp = space.n_comp
@@ -185,11 +195,12 @@ def write_vtk_file_with_exact_solution(
             n_data *= dim
 
         if name in cell_centered:
-            cells = [cell for cell in gmesh.cells if cell.dimension == dim]
-            fh_data = np.zeros((len(cells), n_data))
-            fe_data = np.zeros((len(cells), n_data))
+            fh_data = np.zeros((len(out_cells), n_data))
+            fe_data = np.zeros((len(out_cells), n_data))
 
-            for cell_idx, cell in enumerate(cells):
+            for cell_idx, cell in enumerate(out_cells):
+                if cell.id not in space.id_to_element:
+                    continue
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
@@ -221,12 +232,7 @@ def write_vtk_file_with_exact_solution(
             p_data_dict[name + "_e"] = fe_data
 
     mesh_points = gmesh.points
-    cells = [
-        cell
-        for cell in gmesh.cells
-        if cell.material_id in fe_space.fields_physical_tags[name]
-    ]
-    con_d = np.array([cell.node_tags for cell in cells])
+    con_d = np.array([cell.node_tags for cell in out_cells])
     meshio_cell_types = {0: "vertex", 1: "line", 2: "triangle", 3: "tetra"}
     cells_dict = {meshio_cell_types[fe_space.dimension()]: con_d}
 
@@ -360,6 +366,8 @@ def write_vtk_file_pointwise_l2_error(
             eh_data = np.zeros((len(cells), 1))
 
             for cell_idx, cell in enumerate(cells):
+                if cell.id not in space.id_to_element:
+                    continue
                 x = cell_centroid(cell, gmesh)
                 f_e = f_exact(x[0], x[1], x[2])
                 f_h = cell_centered_quatity(cell, fe_space, name, alpha)
-- 
2.43.0


From 0a8ff9b263bc934216839b5bb6d31eb162118003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 46/65] fix: cut an edge at vertices that are close to its ends

---
 src/topology/operations/vertex_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/topology/operations/vertex_operations.py b/src/topology/operations/vertex_operations.py
index 7ba19b5..4d520b2 100644
--- a/src/topology/operations/vertex_operations.py
+++ b/src/topology/operations/vertex_operations.py
@@ -182,8 +182,8 @@ def vertices_edge_difference(
     idx = points_line_argsort(points, a, b)
     internal_idx = idx.copy()
 
-    first_point_is_on_a = np.all(np.isclose(points[idx][0], a))
-    last_point_is_on_b = np.all(np.isclose(points[idx][-1], b))
+    first_point_is_on_a = np.all(np.isclose(points[idx][0], a, rtol=eps, atol=eps))
+    last_point_is_on_b = np.all(np.isclose(points[idx][-1], b, rtol=eps, atol=eps))
     if first_point_is_on_a:
         internal_idx = np.delete(internal_idx, 0)
     if last_point_is_on_b:
-- 
2.43.0


From 23841a7ecdb15d4072b9d7dec206989b0a91574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 47/65] fix: find the dofs of a field that has more elements
 than others of its space

---
 src/spaces/product_space.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spaces/product_space.py b/src/spaces/product_space.py
index 806c97b..11da1eb 100644
--- a/src/spaces/product_space.py
+++ b/src/spaces/product_space.py
@@ -152,6 +152,10 @@ class ProductSpace:
         discrete_spaces_dest = {}
         for i, item in enumerate(self.discrete_spaces.items()):
             name, space = item
+
+            if cell_index >= len(space.elements):
+                continue
+
             stride = dofs_list[i]
             field_dest = (
                 self._retrieve_space_destination_indexes(space, cell_index) + stride
@@ -178,7 +182,7 @@ class ProductSpace:
         for i, item in enumerate(self.discrete_spaces.items()):
             name, space = item
 
-            if len(space.bc_elements) == 0:
+            if cell_index >= len(space.bc_elements):
                 continue
 
             stride = dofs_list[i]
-- 
2.43.0


From 5df3049438e700fb2049373b1f4b252a063f31d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 48/65] fix: project fields of a product space that lie on
 different parts of the mesh

---
 src/postprocess/projectors.py            | 3 +--
 src/weak_forms/l2_projector_weak_form.py | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/projectors.py b/src/postprocess/projectors.py
index a92418a..08e5e04 100644
--- a/src/postprocess/projectors.py
+++ b/src/postprocess/projectors.py
@@ -54,8 +54,7 @@ def l2_projector(fe_space, functions, dof_shift=0, symmetric_solver_q=True):
                 for idx in nnz_idx
             ]
 
-    name = list(fe_space.discrete_spaces.keys())[0]
-    n_els = len(fe_space.discrete_spaces[name].elements)
+    n_els = max(len(space.elements) for space in fe_space.discrete_spaces.values())
     [scatter_form_data(A, i, weak_form) for i in range(n_els)]
     fe_space.dof_shift = n_dof_shift
 
diff --git a/src/weak_forms/l2_projector_weak_form.py b/src/weak_forms/l2_projector_weak_form.py
index 37da0fa..3a901c0 100644
--- a/src/weak_forms/l2_projector_weak_form.py
+++ b/src/weak_forms/l2_projector_weak_form.py
@@ -16,6 +16,8 @@ class L2ProjectorWeakForm(WeakForm):
         r_els = []
         for item in self.space.discrete_spaces.items():
             name, space = item
+            if iel >= len(space.elements):
+                continue
             f_rhs = self.functions[name]
 
             n_comp = space.n_comp
-- 
2.43.0


From 2e33b9fdf2ebd2395535cef9a8837c31686c104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:07 +0000
Subject: [PATCH 49/65] fix: build product spaces with a field of dimension 0

---
 src/spaces/product_space.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spaces/product_space.py b/src/spaces/product_space.py
index 11da1eb..52333fc 100644
--- a/src/spaces/product_space.py
+++ b/src/spaces/product_space.py
@@ -41,6 +41,8 @@ class ProductSpace:
         self.bc_quadrature = [None, None, None, None]
         for dim in dims:
             dim -= 1
+            if dim < 0:
+                continue
             if dim == 0:
                 self.bc_quadrature[dim] = (np.array([1.0]), np.array([1.0]))
             else:
-- 
2.43.0


From 11cb3374352cf92bf0098b228e8d11e1646a297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 50/65] fix: intersect a bulk of lines that share points and
 segments with a polygon

---
 .../operations/line_geometry_operations.py     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/geometry/operations/line_geometry_operations.py b/src/geometry/operations/line_geometry_operations.py
index d68b17d..393a05a 100644
--- a/src/geometry/operations/line_geometry_operations.py
+++ b/src/geometry/operations/line_geometry_operations.py
@@ -235,6 +235,16 @@ def line_triangle_intersection(
         return np.array([intx_point])
 
 
+def stack_results(results) -> np.array:
+    # lines that share a point and lines that share a segment fit in no common array
+    if len({np.shape(result) for result in results}) > 1:
+        output = np.empty(len(results), dtype=object)
+        for i, result in enumerate(results):
+            output[i] = result
+        return output
+    return np.array(results)
+
+
 def lines_triangle_intersection(
     lines: np.array, a: np.array, b: np.array, c: np.array, eps: float = s_incidence_tol
 ) -> np.array:
@@ -252,8 +262,8 @@ def lines_triangle_intersection(
     intx_q = np.array([data_type(data) for data in result])
 
     # filter points outside segment
-    result = np.array(list(filter(lambda x: x is not None, result)))
-    return result, intx_q
+    result = list(filter(lambda x: x is not None, result))
+    return stack_results(result), intx_q
 
 
 def __line_triangles_intersection(
@@ -325,5 +335,5 @@ def lines_polygon_intersection(
     intx_q = np.array([data_type(data) for data in result])
 
     # filter points outside segment
-    result = np.array(list(filter(lambda x: x is not None, result)))
-    return result, intx_q
+    result = list(filter(lambda x: x is not None, result))
+    return stack_results(result), intx_q
-- 
2.43.0


From 4aba139031807b24cbeec96985b5885db299d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 51/65] fix: cut the edges tagged as fracture only, and map
 tags per dimension

---
 src/mesh/mesh_operations.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index 17f1066..ba2a76b 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -292,7 +292,11 @@ def cut_conformity_along_c1_line(
 
     # cut conformity on c1 objects
     raw_c1_cells = np.array(
-        [cell for cell in mesh.cells if cell.material_id == physical_tags["line"]]
+        [
+            cell
+            for cell in mesh.cells
+            if cell.dimension == 1 and cell.material_id == physical_tags["line"]
+        ]
     )
     raw_c1_cell_xcs = np.array([cell_centroid(cell, mesh) for cell in raw_c1_cells])
 
@@ -323,16 +327,14 @@ def cut_conformity_along_c1_line(
     negative_side = np.where(np.dot(c0_dirs, normal_dir) < 0, True, False)
 
     # duplicate c1 entities
-    physical_tag_map = {
-        physical_tags["line"]: physical_tags["line_clones"],
-        physical_tags["point"]: physical_tags["point_clones"],
-    }
+    c1_tag_map = {physical_tags["line"]: physical_tags["line_clones"]}
+    c2_tag_map = {physical_tags["point"]: physical_tags["point_clones"]}
     cell_id = mesh.max_cell_id()
     positive_c0_cells = c0_cells[positive_side]
-    positive_c1_cells, cell_id = __duplicate_cells(cell_id, c1_cells, physical_tag_map)
+    positive_c1_cells, cell_id = __duplicate_cells(cell_id, c1_cells, c1_tag_map)
     mesh.append_cells(np.array(positive_c1_cells))
     assert cell_id == mesh.max_cell_id()
-    positive_c2_cells, cell_id = __duplicate_cells(cell_id, c2_cells, physical_tag_map)
+    positive_c2_cells, cell_id = __duplicate_cells(cell_id, c2_cells, c2_tag_map)
     bump_args["side"] = +1.0
     duplicate_mesh_points_from_0d_cells(
         positive_c2_cells, mesh, bump_args=bump_args
@@ -346,10 +348,10 @@ def cut_conformity_along_c1_line(
     ]
 
     negative_c0_cells = c0_cells[negative_side]
-    negative_c1_cells, cell_id = __duplicate_cells(cell_id, c1_cells, physical_tag_map)
+    negative_c1_cells, cell_id = __duplicate_cells(cell_id, c1_cells, c1_tag_map)
     mesh.append_cells(np.array(negative_c1_cells))
     assert cell_id == mesh.max_cell_id()
-    negative_c2_cells, cell_id = __duplicate_cells(cell_id, c2_cells, physical_tag_map)
+    negative_c2_cells, cell_id = __duplicate_cells(cell_id, c2_cells, c2_tag_map)
     bump_args["side"] = -1.0
     duplicate_mesh_points_from_0d_cells(
         negative_c2_cells, mesh, bump_args=bump_args
-- 
2.43.0


From 755e8a1781e498220f272d57b4450ad3c196b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 52/65] fix: choose output cells by dimension and not by tag
 alone

---
 src/postprocess/solution_post_processor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index a42d70a..5ff545a 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -182,7 +182,8 @@ def write_vtk_file_with_exact_solution(
     out_cells = [
         cell
         for cell in gmesh.cells
-        if cell.material_id in fe_space.fields_physical_tags[name]
+        if cell.dimension == fe_space.dimension()
+        and cell.material_id in fe_space.fields_physical_tags[name]
     ]
 
     for item in fe_space.discrete_spaces.items():
@@ -291,7 +292,7 @@ def write_fe_spaces_on_vtk_file_with_exact_solution(
                 fe_data = np.full((len(top_cells), n_data), np.nan, dtype=float)
 
                 for cell_idx, cell in enumerate(top_cells):
-                    if cell.material_id not in allowed_tags:
+                    if cell.id not in space.id_to_element:
                         continue
                     x = cell_centroid(cell, gmesh)
                     f_e = f_exact(x[0], x[1], x[2])
-- 
2.43.0


From 443140f0816bf61e9adab66c1cba8064c532cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 53/65] fix: import intersect_faces where planar fractures are
 cut

---
 src/topology/domain_market.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index a98aac5..6d5ee72 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -5,7 +5,7 @@ import numpy as np
 from topology.domain import Domain
 from topology.edge import Edge
 from topology.face import Face
-from topology.shape_manipulation import embed_edge_in_face, intersect_edges
+from topology.shape_manipulation import embed_edge_in_face, intersect_edges, intersect_faces
 from topology.shell import Shell
 from topology.solid import Solid
 from topology.vertex import Vertex
-- 
2.43.0


From ce28b4cbbe704a504ab0184eb8ab05ebb8414441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 54/65] fix: repeat a trace that several pairs of faces share
 instead of failing

---
 src/topology/shape_manipulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index 0392c18..678131c 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -356,7 +356,9 @@ def intersect_faces(
                 # new approach
                 if len(existence_check) != 0 and np.any(existence_check):
                     v_index = np.argwhere(existence_check)[0, 0]
-                    point_pairs = np.append((point_pairs, point_pairs[v_index]), axis=0)
+                    point_pairs = np.append(
+                        point_pairs, point_pairs[[v_index]], axis=0
+                    )
                 else:
                     point_pairs = np.append(point_pairs, np.array([new_points]), axis=0)
                 case_plane_indices = np.vstack((case_plane_indices, np.array([i, j])))
-- 
2.43.0


From 79de39fd1c19d6d91ac5c38420b95588e3752e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 55/65] fix: share the vertices and fragments of traces that
 meet in a face

---
 src/topology/shape_manipulation.py | 51 +++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index 678131c..ee3ec5e 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -196,6 +196,13 @@ def embed_vertex_in_edge(vertices: np.ndarray, edge: Edge, tag_shift=0):
     return vertices[valid_indices]
 
 
+def find_vertex(point, vertices):
+    for vertex in vertices:
+        if np.all(np.isclose(vertex.point, point)):
+            return vertex
+    return None
+
+
 def intersect_edges(
     edges_obj: np.ndarray,
     edges_tool: np.ndarray,
@@ -204,6 +211,7 @@ def intersect_edges(
     v_tag_shift=0,
     p_tag_shift=0,
     render_intersection_q=False,
+    known_vertices=(),
 ):
     pos = np.array([0, 1])
     if axis == 0:
@@ -268,15 +276,20 @@ def intersect_edges(
         )
 
         # create unique vertices
+        unique_vertices = np.array([], dtype=Shape)
         for point in unique_points:
-            v = Vertex(v_tag, point)
-            v.physical_tag = physical_tag
-            v_tag += 1
-            physical_tag += 1
-            vertices = np.append(vertices, np.array([v]), axis=0)
+            v = find_vertex(point, known_vertices)
+            if v is None:
+                v = Vertex(v_tag, point)
+                v_tag += 1
+                vertices = np.append(vertices, np.array([v]), axis=0)
+            if v.physical_tag is None:
+                v.physical_tag = physical_tag
+                physical_tag += 1
+            unique_vertices = np.append(unique_vertices, np.array([v]), axis=0)
 
         cases_idx = list(range(len(points)))
-        vertex_map = dict(zip(cases_idx, vertices[inv_indices]))
+        vertex_map = dict(zip(cases_idx, unique_vertices[inv_indices]))
         for i, edge_i in enumerate(edges_obj):
             # print("edge index: ", i)
             if isinstance(edge_i, Wire):
@@ -284,6 +297,8 @@ def intersect_edges(
             case_indices = np.argwhere(case_line_indices == i)[:, 0]
             if len(case_indices) == 0:
                 continue
+            if len(edge_i.immersed_shapes) > 0:  # already fragmented
+                continue
             vertices_to_embed = np.array([vertex_map[i] for i in case_indices])
             _ = embed_vertex_in_edge(vertices_to_embed, edge_i, tag_shift=e_tag)
             if len(edge_i.immersed_shapes) > 0:
@@ -371,15 +386,16 @@ def intersect_faces(
 
         # create unique egdes
         for point_pair in unique_point_pairs:
-            v0 = Vertex(v_tag, point_pair[0])
-            vertices = np.append(vertices, np.array([v0]), axis=0)
-            v_tag += 1
-
-            v1 = Vertex(v_tag, point_pair[1])
-            vertices = np.append(vertices, np.array([v1]), axis=0)
-            v_tag += 1
-
-            e = Edge(e_tag, np.array([v0, v1]))
+            end_vertices = []
+            for point in point_pair:
+                v = find_vertex(point, vertices)
+                if v is None:
+                    v = Vertex(v_tag, point)
+                    vertices = np.append(vertices, np.array([v]), axis=0)
+                    v_tag += 1
+                end_vertices.append(v)
+
+            e = Edge(e_tag, np.array(end_vertices))
             e.physical_tag = physical_tag
             e_tag += 1
             physical_tag += 1
@@ -416,6 +432,7 @@ def intersect_faces(
                 v_tag_shift=v_tag,
                 e_tag_shift=e_tag,
                 p_tag_shift=physical_tag,
+                known_vertices=vertices,
             )
 
             embed_edge_in_face(edges_to_embed, face_i)
@@ -424,6 +441,10 @@ def intersect_faces(
                 new_v_tags = np.array([shape.tag for shape in frag_vertices])
                 v_tag = np.max(new_v_tags) + 1
                 vertices = np.append(vertices, frag_vertices)
+            vertex_p_tags = [
+                v.physical_tag for v in vertices if v.physical_tag is not None
+            ]
+            physical_tag = max([physical_tag] + vertex_p_tags)
 
             if len(frag_edges) > 0:
                 new_e_tags = np.array([shape.tag for shape in frag_edges])
-- 
2.43.0


From 77e3b9b2bea0cf9c2cc1cc2654cd69592e5a29da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 56/65] fix: skip faces that share an edge before they are
 intersected

---
 src/topology/shape_manipulation.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/topology/shape_manipulation.py b/src/topology/shape_manipulation.py
index ee3ec5e..36d7bad 100644
--- a/src/topology/shape_manipulation.py
+++ b/src/topology/shape_manipulation.py
@@ -309,6 +309,12 @@ def intersect_edges(
     return (edges, vertices)
 
 
+def faces_share_an_edge(face_i: Face, face_j: Face):
+    edges_i = [e for wire in face_i.boundary_shapes for e in wire.immersed_shapes]
+    edges_j = [e for wire in face_j.boundary_shapes for e in wire.immersed_shapes]
+    return any(edge_i == edge_j for edge_i in edges_i for edge_j in edges_j)
+
+
 def embed_edge_in_face(edges: np.ndarray, face: Face):
     face.immersed_shapes = np.append(face.immersed_shapes, np.array([edges]))
 
@@ -346,6 +352,9 @@ def intersect_faces(
                 continue
             if i >= j:
                 continue
+            # Connected faces by a common edge are ignored
+            if faces_share_an_edge(face_i, face_j):
+                continue
             face_j_vertices = face_j.boundary_shapes[0].orient_immersed_vertices()
             face_j_pts = np.array([vertex.point for vertex in face_j_vertices])
 
@@ -354,13 +363,6 @@ def intersect_faces(
             )
             if intersection_data[0]:
                 new_points = np.array([intersection_data[1], intersection_data[2]])
-                obj_edge = points_on_face_boundary(new_points, face_i)
-                tool_edge = points_on_face_boundary(new_points, face_j)
-                # Connected faces by a common edge are ignored
-                if obj_edge is not None and tool_edge is not None:
-                    if obj_edge == tool_edge:
-                        continue
-
                 existence_check = np.array(
                     [
                         np.all(np.isclose(new_points, point_pair))
-- 
2.43.0


From b22ea0647ba9697ebbef86021e6d3e3876ed91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 57/65] fix: order the fragments of the last side of a planar
 fracture along its wire

---
 src/topology/domain_market.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/topology/domain_market.py b/src/topology/domain_market.py
index 6d5ee72..122d5a1 100644
--- a/src/topology/domain_market.py
+++ b/src/topology/domain_market.py
@@ -484,6 +484,10 @@ def build_box_3D_with_planes(box_points, planes_file, physical_tags=None):
     domain.append_shapes(frag_vertices)
     domain.append_shapes(frag_edges)
 
+    # the points of an edge are sorted by tag, a wire walks along its last side backwards
+    for last_edge in domain_planes.shapes[1][3::5]:
+        last_edge.immersed_shapes = last_edge.immersed_shapes[::-1]
+
     # step 4 update wires and shells
     # update wires
     domain.refresh_wires()
-- 
2.43.0


From 03828e96978649605e82e532cf939157ce29f9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 58/65] fix: keep the physical group of a fragmented curve in
 the mesh

---
 src/mesh/discrete_domain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index 05ae641..b9658bd 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -143,8 +143,14 @@ class DiscreteDomain:
                     if shape.dimension == curve.dimension
                 ]
                 if len(shapes_with_same_dimension) > 0:
+                    # a fragmented curve is represented by its fragments
+                    curve_tags += [
+                        self.stride_tag(1, shape.tag)
+                        for shape in shapes_with_same_dimension
+                    ]
                     continue
                 curve_tags.append(self.stride_tag(1, curve.tag))
+            curve_tags = list(np.unique(curve_tags))
             gmsh.model.addPhysicalGroup(1, curve_tags, physical_tag)
 
             target_physical_tags, curve_controls = self.mesh_arguments.get(
-- 
2.43.0


From a24d098e07bab8e3739111b200fa531abaca561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 59/65] fix: embed planar fractures that hold traces in the
 tetrahedral mesh

---
 src/mesh/conformal_mesher.py | 11 ++++++-----
 src/mesh/discrete_domain.py  | 22 +++++++++++++++-------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index 17b2e34..ebbbbbc 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -306,13 +306,14 @@ class ConformalMesher:
                 tags_2d = []
                 shapes_c1 = [shape for shape in volume.immersed_shapes]
                 for shape_c1 in shapes_c1:
-                    if len(shape_c1.immersed_shapes) > 0:
+                    tags_2d = tags_2d + [surface_stride + shape_c1.tag + 1]
+                    for curve in shape_c1.immersed_shapes:
+                        # a fragmented curve is represented by its fragments
+                        fragments = curve.immersed_shapes
                         tags_1d = tags_1d + [
-                            curve_stride + curve.tag + 1
-                            for curve in shape_c1.immersed_shapes
+                            curve_stride + shape.tag + 1
+                            for shape in (fragments if len(fragments) > 0 else [curve])
                         ]
-                    else:
-                        tags_2d = tags_2d + [surface_stride + shape_c1.tag + 1]
                     for shape_c2 in shape_c1.boundary_shapes:
                         tags_1d = tags_1d + [
                             curve_stride + curve.tag + 1
diff --git a/src/mesh/discrete_domain.py b/src/mesh/discrete_domain.py
index b9658bd..aac9e54 100644
--- a/src/mesh/discrete_domain.py
+++ b/src/mesh/discrete_domain.py
@@ -204,6 +204,19 @@ class DiscreteDomain:
             tags_0d = list(np.unique(tags_0d))
             gmsh.model.mesh.embed(0, tags_0d, 1, self.stride_tag(1, curve.tag))
 
+    def __embedded_curve_tags(self, surface):
+        curve_tags = []
+        for curve in surface.immersed_shapes:
+            # a fragmented curve is represented by its fragments
+            fragments = [
+                shape for shape in curve.immersed_shapes if shape.dimension == 1
+            ]
+            curve_tags += [
+                self.stride_tag(1, shape.tag)
+                for shape in (fragments if len(fragments) > 0 else [curve])
+            ]
+        return curve_tags
+
     def __embed_curves_in_surfaces(self):
         # tags_2d = [shape.tag for shape in self.domain.shapes[2]]
         for surface in self.domain.shapes[2]:
@@ -301,13 +314,8 @@ class DiscreteDomain:
                 tags_2d = []
                 shapes_c1 = [shape for shape in volume.immersed_shapes]
                 for shape_c1 in shapes_c1:
-                    if len(shape_c1.immersed_shapes) > 0:
-                        tags_1d = tags_1d + [
-                            self.stride_tag(1, curve.tag)
-                            for curve in shape_c1.immersed_shapes
-                        ]
-                    else:
-                        tags_2d = tags_2d + [self.stride_tag(2, shape_c1.tag)]
+                    tags_2d = tags_2d + [self.stride_tag(2, shape_c1.tag)]
+                    tags_1d = tags_1d + self.__embedded_curve_tags(shape_c1)
                     for shape_c2 in shape_c1.boundary_shapes:
                         tags_1d = tags_1d + [
                             self.stride_tag(1, curve.tag)
-- 
2.43.0


From c4e70f55f536e3f81ce75eaf754613fed03b0399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:22 +0000
Subject: [PATCH 60/65] fix: keep the physical groups of unfragmented curves in
 3D

---
 src/mesh/conformal_mesher.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mesh/conformal_mesher.py b/src/mesh/conformal_mesher.py
index ebbbbbc..8e7d657 100644
--- a/src/mesh/conformal_mesher.py
+++ b/src/mesh/conformal_mesher.py
@@ -245,7 +245,9 @@ class ConformalMesher:
                             1, [curve_stride + curve.tag + 1], curve.physical_tag
                         )
                     else:
-                        aka = 0
+                        gmsh.model.addPhysicalGroup(
+                            1, [curve_stride + curve.tag + 1], curve.physical_tag
+                        )
 
         if dimension > 1:
             for surface in self.domain.shapes[2]:
-- 
2.43.0


From c08b01a8f967e73f31e1ba5ecbc671ef3c7e2042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:18 +0000
Subject: [PATCH 61/65] fix: map fluxes on lines at any number of points

The Piola transformation of vector families on lines multiplied the
table of values (points x functions) by one factor per point along the
wrong axis, which fails unless both numbers agree (a second field of
higher order in the same space, values at other points).
---
 src/basis/finite_element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/finite_element.py b/src/basis/finite_element.py
index 08088ce..25f8ea6 100644
--- a/src/basis/finite_element.py
+++ b/src/basis/finite_element.py
@@ -177,8 +177,8 @@ class FiniteElement:
         ]:
             # TODO: implement covariant Piola transformation for  types (N1E, N2E)
             # Contravariant Piola transformation for 1d cells with vector families
-            phi_mapped[:, :, 0] = (1.0 / det_jac) * phi_mapped[:, :, 0] * (
-                    jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            factor = (1.0 / det_jac) * (jac[:, :, 0] @ np.array([1.0, 0.0, 0.0]))
+            phi_mapped[:, :, 0] = factor[:, np.newaxis] * phi_mapped[:, :, 0]
             if phi_tab[0].shape == phi_mapped.shape:
                 phi_tab[0] = phi_mapped
 
-- 
2.43.0


From e021aa69308f462f0b9ee8ddf468f7b59aa21094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:15 +0000
Subject: [PATCH 62/65] fix: recognise fluxes on lines in the divergence
 functionals

On lines every space reports the family Lagrange: div_error took scalar
fields for fluxes there (and asked for their divergence), div_norm and
div_scaled_error left the fluxes out.
---
 src/postprocess/l2_error_post_processor.py       | 11 +++--------
 src/postprocess/solution_norms_post_processor.py |  2 +-
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/postprocess/l2_error_post_processor.py b/src/postprocess/l2_error_post_processor.py
index 9743a49..103853c 100644
--- a/src/postprocess/l2_error_post_processor.py
+++ b/src/postprocess/l2_error_post_processor.py
@@ -183,7 +183,6 @@ def div_error(dim, fe_space, functions, alpha, skip_fields=[]):
         family_by_name("RT"),
         family_by_name("BDM"),
     ]
-    vec_families_in_1d = [family_by_name("Lagrange")]
     points, weights = fe_space.quadrature[dim]
 
     def compute_div_error(idx):
@@ -211,12 +210,8 @@ def div_error(dim, fe_space, functions, alpha, skip_fields=[]):
     div_errors = []
     for item in fe_space.discrete_spaces.items():
         name, space = item
-        if dim == 1:
-            if space.family not in vec_families_in_1d:
-                continue
-        else:
-            if space.family not in vec_families:
-                continue
+        if space.generator_family not in vec_families:
+            continue
         if name in skip_fields:
             continue
         indexes = [
@@ -279,7 +274,7 @@ def div_scaled_error(dim, fe_space, functions, alpha, skip_fields=[]):
     div_errors = []
     for item in fe_space.discrete_spaces.items():
         name, space = item
-        if space.family not in vec_families:
+        if space.generator_family not in vec_families:
             continue
         if name in skip_fields:
             continue
diff --git a/src/postprocess/solution_norms_post_processor.py b/src/postprocess/solution_norms_post_processor.py
index 10b68be..6715d71 100644
--- a/src/postprocess/solution_norms_post_processor.py
+++ b/src/postprocess/solution_norms_post_processor.py
@@ -60,7 +60,7 @@ def div_norm(dim, fe_space, functions, skip_fields=[]):
     div_norms = []
     for item in fe_space.discrete_spaces.items():
         name, space = item
-        if space.family not in vec_families:
+        if space.generator_family not in vec_families:
             continue
         if name in skip_fields:
             continue
-- 
2.43.0


From 39e531f014e56ded7f5f577affa55da454e893ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 63/65] fix: do not modify the boundary data of degenerate
 elliptic problems

The boundary form multiplied the values the caller's function returns in
place: data kept in an array changed with every evaluation, and lists
(which the other forms accept) raised.
---
 src/weak_forms/degenerate_elliptic_weak_form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/weak_forms/degenerate_elliptic_weak_form.py b/src/weak_forms/degenerate_elliptic_weak_form.py
index 922f26b..b70c2ad 100644
--- a/src/weak_forms/degenerate_elliptic_weak_form.py
+++ b/src/weak_forms/degenerate_elliptic_weak_form.py
@@ -207,7 +207,7 @@ class DegenerateEllipticWeakFormBCDirichlet(WeakForm):
                 d_phi = f_d_phi(x[i, 0], x[i, 1], x[i, 2])
                 phi_v = f_porosity(x[i, 0], x[i, 1], x[i, 2])
                 if not np.isclose(phi_v, 0.0) and phi_v > 0.0:
-                    q_D_v *= d_phi / np.sqrt(phi_v)
+                    q_D_v = np.multiply(q_D_v, d_phi / np.sqrt(phi_v))
                 phi = mp_tr_phi_tab[0, i, mp_dof_n_index, 0:dim] @ n[0:dim]
                 res_block_mp += det_jac[i] * omega * q_D_v[c] * phi
 
-- 
2.43.0


From f21801137bed286835d32527a950f2bec70b25cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:46 +0000
Subject: [PATCH 64/65] fix: open long fractures to the side of their copies

---
 src/mesh/mesh_operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mesh/mesh_operations.py b/src/mesh/mesh_operations.py
index ba2a76b..90e73cc 100644
--- a/src/mesh/mesh_operations.py
+++ b/src/mesh/mesh_operations.py
@@ -179,8 +179,10 @@ def duplicate_mesh_points_from_0d_cells(cells_0d, mesh, bump_args=None):
         side = bump_args["side"]
         scale = bump_args.get("scale", 0.1)
         idx = points_line_argsort(new_points, a, b)
-        sv = np.linalg.norm(new_points[idx] - a, axis=1)
-        nv = side * scale * (sv * (1.0 - sv) + 1.0e-1)
+        # the opening is relative to the length of the line
+        length = np.linalg.norm(b - a)
+        sv = np.linalg.norm(new_points[idx] - a, axis=1) / length
+        nv = side * scale * length * (sv * (1.0 - sv) + 1.0e-1)
         new_points[idx] += (np.tile(normal, (nv.shape[0], 1)).T * nv).T
 
     node_tag = mesh.max_node_tag()
-- 
2.43.0


From a76724611ea8b7e2ae01275f979c7fa7b9e5cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:15 +0000
Subject: [PATCH 65/65] fix: write fields that live on vertices

---
 src/postprocess/solution_post_processor.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/postprocess/solution_post_processor.py b/src/postprocess/solution_post_processor.py
index 5ff545a..59b35e3 100644
--- a/src/postprocess/solution_post_processor.py
+++ b/src/postprocess/solution_post_processor.py
@@ -4,7 +4,6 @@ import numpy as np
 
 from mesh.mesh_metrics import cell_centroid
 from basis.element_family import family_by_name
-from geometry.mapping import evaluate_linear_shapes, evaluate_mapping
 from mesh.mesh_topology import MeshTopology
 
 
@@ -39,10 +38,7 @@ def node_average_quatity(node_idx, cell_idxs, fe_space, name, alpha):
             points = par_points[par_point_id]
 
         # evaluate mapping
-        phi_shapes = evaluate_linear_shapes(points, element.data)
-        (x, jac, det_jac, inv_jac) = evaluate_mapping(
-            cell.dimension, phi_shapes, gmesh.points[cell.node_tags]
-        )
+        (x, jac, det_jac, inv_jac) = element.evaluate_mapping(points)
         phi_tab = element.evaluate_basis(points, jac, det_jac, inv_jac)
         n_phi = phi_tab.shape[2]
 
@@ -84,10 +80,7 @@ def cell_centered_quatity(cell, fe_space, name, alpha):
     point = np.array([np.mean(par_points, axis=0)])
 
     # evaluate mapping
-    phi_shapes = evaluate_linear_shapes(point, element.data)
-    (x, jac, det_jac, inv_jac) = evaluate_mapping(
-        cell.dimension, phi_shapes, gmesh.points[cell.node_tags]
-    )
+    (x, jac, det_jac, inv_jac) = element.evaluate_mapping(point)
     phi_tab = element.evaluate_basis(point, jac, det_jac, inv_jac)
     n_phi = phi_tab.shape[2]
 
-- 
2.43.0

