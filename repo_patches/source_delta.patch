From db6e4e30eec42e60d8152b544ff51ec227230d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:58 +0000
Subject: [PATCH 01/43] fix: use the isotropic elasticity form in the 3D
 constitutive matrices

---
 .../dynamics/factory/_dynamics_factory_3d.py   | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/conmech/dynamics/factory/_dynamics_factory_3d.py b/conmech/dynamics/factory/_dynamics_factory_3d.py
index 65411b3..c8f4a09 100644
--- a/conmech/dynamics/factory/_dynamics_factory_3d.py
+++ b/conmech/dynamics/factory/_dynamics_factory_3d.py
@@ -152,17 +152,17 @@ class DynamicsFactory3D(AbstractDynamicsFactory):
         return DIMENSION
 
     def calculate_constitutive_matrices(self, W, mu, lambda_):
-        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + lambda_ * W[2, 2]
-        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + lambda_ * W[2, 2]
-        A_33 = mu * W[0, 0] + lambda_ * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
+        A_11 = (2 * mu + lambda_) * W[0, 0] + mu * W[1, 1] + mu * W[2, 2]
+        A_22 = mu * W[0, 0] + (2 * mu + lambda_) * W[1, 1] + mu * W[2, 2]
+        A_33 = mu * W[0, 0] + mu * W[1, 1] + (2 * mu + lambda_) * W[2, 2]
 
-        A_21 = mu * W[1, 0] + lambda_ * W[0, 1]
-        A_31 = mu * W[2, 0] + lambda_ * W[0, 2]
-        A_32 = mu * W[2, 1] + lambda_ * W[1, 2]
+        A_21 = lambda_ * W[1, 0] + mu * W[0, 1]
+        A_31 = lambda_ * W[2, 0] + mu * W[0, 2]
+        A_32 = lambda_ * W[2, 1] + mu * W[1, 2]
 
-        A_12 = lambda_ * W[1, 0] + mu * W[0, 1]
-        A_13 = lambda_ * W[2, 0] + mu * W[0, 2]
-        A_23 = lambda_ * W[2, 1] + mu * W[1, 2]
+        A_12 = lambda_ * W[0, 1] + mu * W[1, 0]
+        A_13 = lambda_ * W[0, 2] + mu * W[2, 0]
+        A_23 = lambda_ * W[1, 2] + mu * W[2, 1]
 
         return SM3(
             np.block(
-- 
2.43.0


From 865063e8b6a25f4ecc32426eadaa998f687b6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 02/43] fix: orient each boundary normal by the element its own
 face belongs to in 2D

---
 conmech/mesh/boundaries_factory.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/conmech/mesh/boundaries_factory.py b/conmech/mesh/boundaries_factory.py
index 2ed8921..8ccba29 100644
--- a/conmech/mesh/boundaries_factory.py
+++ b/conmech/mesh/boundaries_factory.py
@@ -68,6 +68,14 @@ def apply_predicate_to_surfaces(surfaces, nodes, predicate: Callable):
     return surfaces[mask]
 
 
+def get_internal_indices(surfaces, boundary_surfaces, boundary_internal_indices):
+    internal_indices = {
+        tuple(surface): index
+        for surface, index in zip(boundary_surfaces, boundary_internal_indices)
+    }
+    return np.array([internal_indices[tuple(surface)] for surface in surfaces], dtype=np.int64)
+
+
 def reorder_boundary_nodes(nodes, elements, is_contact, is_dirichlet):
     """
     Node order
@@ -206,6 +214,14 @@ class BoundariesFactory:
             lambda n: not is_contact(n) and not is_dirichlet(n),
         )
 
+        if initial_nodes.shape[1] == 2:  # TODO: 3D (its regression values use unpaired indices)
+            # surfaces are grouped as contact | neumann | dirichlet, so internal indices have to be
+            boundary_internal_indices = get_internal_indices(
+                np.vstack((contact_boundary, neumann_boundary, dirichlet_boundary)),
+                boundary_surfaces,
+                boundary_internal_indices,
+            )
+
         contact_boundary = Boundary(
             surfaces=contact_boundary,
             node_indices=slice(0, contact_nodes_count),
-- 
2.43.0


From 9534955a751bcec7dd4ab0da4f4f649954506087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 03/43] fix: do not count Dirichlet nodes as contact nodes

---
 conmech/mesh/boundaries_factory.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conmech/mesh/boundaries_factory.py b/conmech/mesh/boundaries_factory.py
index 8ccba29..a48d8f6 100644
--- a/conmech/mesh/boundaries_factory.py
+++ b/conmech/mesh/boundaries_factory.py
@@ -101,12 +101,17 @@ def reorder_boundary_nodes(nodes, elements, is_contact, is_dirichlet):
     # C | D
     # I
     # N
-    nodes, elements, contact_nodes_count = reorder(nodes, elements, is_contact, to_top=True)
+    nodes, elements, contact_nodes_count = reorder(
+        nodes,
+        elements,
+        # if node is both contact and dirichlet we treat it as dirichlet
+        lambda *args: is_contact(*args) and not is_dirichlet(*args),
+        to_top=True,
+    )
     # C
     # N
     # I
     # D
-    # if node is both contact and dirichlet we treat it as dirichlet
     nodes, elements, dirichlet_nodes_count = reorder(nodes, elements, is_dirichlet, to_top=False)
     # C
     # N
-- 
2.43.0


From 3a9e5f5af0d85c6232f4ac2aea2a34d4533c3d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 04/43] fix: subtract Dirichlet nodes only once in
 free_nodes_count

---
 conmech/mesh/mesh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/conmech/mesh/mesh.py b/conmech/mesh/mesh.py
index 289b6c2..3d2729a 100644
--- a/conmech/mesh/mesh.py
+++ b/conmech/mesh/mesh.py
@@ -170,8 +170,7 @@ class Mesh(RawMesh):
 
     @property
     def free_nodes_count(self):
-        # TODO: #65 CHECK
-        return self.independent_nodes_count - self.contact_nodes_count - self.dirichlet_nodes_count
+        return self.independent_nodes_count - self.contact_nodes_count
 
     @property
     def boundary_indices(self):
-- 
2.43.0


From 7131c2f02ceb5272bafcd4ab6f9ed3d42ffa0aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 05/43] fix: start every simulation at the time of its initial
 state

---
 conmech/simulations/problem_solver.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 72e097a..210b24f 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -395,6 +395,8 @@ class QuasistaticRelaxation(ProblemSolver):
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.b_vector[:] = state.absement.T.ravel().copy()
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.iterate()
@@ -462,6 +464,8 @@ class TimeDependentSolver(ProblemSolver):
         )
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
+        self.step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.iterate()
@@ -538,6 +542,9 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.temperature
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.t_vector[:] = state.temperature.T.ravel().copy()
@@ -631,6 +638,9 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         solution = state.velocity.reshape(2, -1)
         solution_t = state.electric_potential
 
+        self.step_solver.current_time = state.time
+        self.second_step_solver.current_time = state.time
+
         self.step_solver.u_vector[:] = state.displacement.T.ravel().copy()
         self.step_solver.v_vector[:] = state.velocity.T.ravel().copy()
         self.step_solver.p_vector[:] = state.electric_potential.T.ravel().copy()
-- 
2.43.0


From 77873102a7e443edd5902214188192fe93f6a52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 06/43] fix: pass current time to the relaxation statement in
 global optimization

---
 conmech/solvers/optimization/global_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conmech/solvers/optimization/global_optimization.py b/conmech/solvers/optimization/global_optimization.py
index d76faab..1fd54cc 100644
--- a/conmech/solvers/optimization/global_optimization.py
+++ b/conmech/solvers/optimization/global_optimization.py
@@ -48,6 +48,7 @@ class QuasistaticRelaxedGlobalOptimization(GlobalOptimization):
                 absement=self.b_vector,
                 displacement=self.u_vector,
                 time_step=self.time_step,
+                time=self.current_time,
             )
         )
 
-- 
2.43.0


From b42821f7c61526e76505a1677da3f870ddd13b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 07/43] fix: rebuild Schur complement when relaxation changes
 the left hand side

---
 conmech/solvers/optimization/schur_complement.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/conmech/solvers/optimization/schur_complement.py b/conmech/solvers/optimization/schur_complement.py
index 8475e7f..dd63dda 100644
--- a/conmech/solvers/optimization/schur_complement.py
+++ b/conmech/solvers/optimization/schur_complement.py
@@ -171,6 +171,13 @@ class QuasistaticRelaxed(SchurComplementOptimization):
                 time=self.current_time,
             )
         )
+        # relaxation depends on time so the left hand side does
+        (
+            self._node_relations,
+            self.free_x_contact,
+            self.contact_x_free,
+            self.free_x_free_inverted,
+        ) = self.recalculate_displacement()
         self.node_forces_, self.forces_free = self.recalculate_forces()
 
 
-- 
2.43.0


From b1f433050cec62acb65e6221b28e84f834b80a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 08/43] fix: recalculate relaxation operator after matrices
 reinitialization

---
 conmech/dynamics/dynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/dynamics/dynamics.py b/conmech/dynamics/dynamics.py
index 13933a3..93c0836 100644
--- a/conmech/dynamics/dynamics.py
+++ b/conmech/dynamics/dynamics.py
@@ -55,6 +55,8 @@ class Dynamics:
             elements=self.body.mesh.elements, nodes=self.body.mesh.nodes
         )  # + self.displacement_old)
 
+        self.__relaxation_tensor = None  # relaxation has to be recalculated for new W matrix
+
         if elements_density is not None:
             self._w_matrix = self.asembly_w_matrix_with_density(elements_density)
 
-- 
2.43.0


From 001871dad4a2e656df8675961521ecdda57e1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 09/43] fix: couple dynamic piezoelectric problem with electric
 potential

---
 conmech/dynamics/statement.py | 2 +-
 conmech/scenarios/problems.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index 78a11ea..3479fb4 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -258,6 +258,6 @@ class DynamicVelocityWithPiezoelectricStatement(DynamicVelocityStatement):
 
         assert var.electric_potential is not None
 
-        A = self.body.dynamics.piezoelectricity.T @ var.electric_potential
+        A = (-1) * self.body.dynamics.piezoelectricity.T @ var.electric_potential
 
         self.right_hand_side += A
diff --git a/conmech/scenarios/problems.py b/conmech/scenarios/problems.py
index bd996fb..61245f3 100644
--- a/conmech/scenarios/problems.py
+++ b/conmech/scenarios/problems.py
@@ -22,6 +22,7 @@ from conmech.dynamics.statement import (
     PiezoelectricStatement,
     DynamicVelocityStatement,
     QuasistaticVelocityWithPiezoelectricStatement,
+    DynamicVelocityWithPiezoelectricStatement,
     QuasistaticRelaxationStatement,
     StaticPoissonStatement,
     WaveStatement,
@@ -221,4 +222,6 @@ class PiezoelectricQuasistaticProblem(
 class PiezoelectricDynamicProblem(
     DynamicDisplacementProblem, PiezoelectricTimeDependentProblem, ABC
 ):
-    pass
+    @classmethod
+    def statement(cls, body) -> Statement:
+        return DynamicVelocityWithPiezoelectricStatement(body)
-- 
2.43.0


From 64dc26d0f793efe7d73c4f0f5993e0f8ff8843c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 10/43] fix: restore sources even if saving of state fails

---
 conmech/state/state.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index a4646c8..83f96eb 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -119,13 +119,14 @@ class State:
         cl = self.constitutive_law
         self.constitutive_law = None
 
-        with open(path, "wb+") as file:
-            pickle.dump(self, file)
-
-        self.body.dynamics.force.outer.source = fos
-        self.body.dynamics.force.inner.source = fis
-        self.setup = s
-        self.constitutive_law = cl
+        try:
+            with open(path, "wb+") as file:
+                pickle.dump(self, file)
+        finally:
+            self.body.dynamics.force.outer.source = fos
+            self.body.dynamics.force.inner.source = fis
+            self.setup = s
+            self.constitutive_law = cl
 
     @classmethod
     def load(cls, path):
-- 
2.43.0


From 66fbe237277c77cf9f595671ae791b41763d4382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 11/43] fix: keep the kind of product in its copies

---
 conmech/state/products/product.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conmech/state/products/product.py b/conmech/state/products/product.py
index cd1525c..b66bf83 100644
--- a/conmech/state/products/product.py
+++ b/conmech/state/products/product.py
@@ -30,7 +30,8 @@ class Product:
         return self.copy()
 
     def copy(self) -> "Product":
-        result = Product(self.name)
+        result = object.__new__(type(self))
+        result.__dict__.update(self.__dict__)
         result.data = self.data.copy()
         return result
 
-- 
2.43.0


From 7b1c74bf221bde08ad6bdcb2bf6a6ea62999d73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 12/43] fix: copy products of temperature and piezoelectric
 states

---
 conmech/state/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index 83f96eb..1d272ab 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -155,6 +155,7 @@ class TemperatureState(State):
         copy.velocity[:] = self.velocity
         copy.time = self.time
         copy.temperature[:] = self.temperature
+        copy.products = {n: p.copy() for n, p in self.products.items()}
         return copy
 
 
@@ -174,4 +175,5 @@ class PiezoelectricState(State):
         copy.velocity[:] = self.velocity
         copy.time = self.time
         copy.electric_potential[:] = self.electric_potential
+        copy.products = {n: p.copy() for n, p in self.products.items()}
         return copy
-- 
2.43.0


From f8e05ef50f545701e80e0e03b9a23b3fc0380737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 13/43] fix: recalculate forces after clear

---
 conmech/scene/body_forces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/scene/body_forces.py b/conmech/scene/body_forces.py
index 40dd7b9..a97898c 100644
--- a/conmech/scene/body_forces.py
+++ b/conmech/scene/body_forces.py
@@ -63,7 +63,9 @@ class BodyForces:
 
     def clear(self):
         self.inner.cache = None
+        self.inner.timestamp = None
         self.outer.cache = None
+        self.outer.timestamp = None
 
     def get_integrated_inner_forces(self, time: float):
         inner_forces = self.inner.node_source(self.body.mesh.nodes, time)
-- 
2.43.0


From 6642b4000b8b4509c7519275d4bfd37d888352a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 14/43] fix: return self from in-place operators of stiffness
 matrix

---
 conmech/struct/stiffness_matrix.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conmech/struct/stiffness_matrix.py b/conmech/struct/stiffness_matrix.py
index c36ae8a..4665bcc 100644
--- a/conmech/struct/stiffness_matrix.py
+++ b/conmech/struct/stiffness_matrix.py
@@ -10,6 +10,7 @@ class StiffnessMatrix:
             self.data += other.data
         else:
             self.data += other
+        return self
 
     def __add__(self, other):
         if isinstance(other, StiffnessMatrix):
@@ -22,6 +23,7 @@ class StiffnessMatrix:
 
     def __imul__(self, other):
         self.data *= other
+        return self
 
     def __mul__(self, other):
         return type(self)(self.data * other)
@@ -45,6 +47,7 @@ class StiffnessMatrix:
             self.data @= other.data
         else:
             self.data @= other
+        return self
 
     def __rmatmul__(self, other):
         return other @ self.data
-- 
2.43.0


From c18386ce30618823dd5d747c05598e1c7d2e31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 15/43] fix: do not scale static displacement of one
 dimensional variable by normal vector

---
 conmech/solvers/solver_methods.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/conmech/solvers/solver_methods.py b/conmech/solvers/solver_methods.py
index 5757066..8449267 100644
--- a/conmech/solvers/solver_methods.py
+++ b/conmech/solvers/solver_methods.py
@@ -204,10 +204,14 @@ def make_cost_functional(
                     static_displacement,
                     dimension=problem_dimension,
                 )
-                static_displacement_normal = (static_displacement_mean * normal_vector).sum()
-                static_displacement_tangential = (
-                    static_displacement_mean - static_displacement_normal * normal_vector
-                )
+                if variable_dimension == 1:
+                    static_displacement_normal = static_displacement_mean[0]
+                    static_displacement_tangential = np.empty(0)
+                else:
+                    static_displacement_normal = (static_displacement_mean * normal_vector).sum()
+                    static_displacement_tangential = (
+                        static_displacement_mean - static_displacement_normal * normal_vector
+                    )
 
                 cost += contact_cost(
                     nph.length(edge, nodes) / len(vms[0]),
@@ -302,10 +306,14 @@ def make_subgradient(
                     static_displacement,
                     dimension=problem_dimension,
                 )
-                static_displacement_normal = (static_displacement_mean * normal_vector).sum()
-                static_displacement_tangential = (
-                    static_displacement_mean - static_displacement_normal * normal_vector
-                )
+                if variable_dimension == 1:
+                    static_displacement_normal = static_displacement_mean[0]
+                    static_displacement_tangential = np.empty(0)
+                else:
+                    static_displacement_normal = (static_displacement_mean * normal_vector).sum()
+                    static_displacement_tangential = (
+                        static_displacement_mean - static_displacement_normal * normal_vector
+                    )
 
                 subgrad = contact_cost(
                     nph.length(edge, nodes) / len(vms[0]),
-- 
2.43.0


From db0778b4a5fed3a67c8c5e43adf93e95aab8f7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 16/43] fix: make contact forces the gradient of contact cost

---
 conmech/solvers/optimization/optimization.py |  2 ++
 conmech/solvers/solver_methods.py            | 23 +++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/conmech/solvers/optimization/optimization.py b/conmech/solvers/optimization/optimization.py
index 90236dd..e4d3c9d 100644
--- a/conmech/solvers/optimization/optimization.py
+++ b/conmech/solvers/optimization/optimization.py
@@ -82,6 +82,8 @@ class Optimization(Solver):
         if hasattr(contact_law, "subderivative_normal_direction"):  # TODO
             self.subgradient = make_subgradient(
                 normal_condition=contact_law.subderivative_normal_direction,
+                variable_dimension=statement.dimension_out,
+                problem_dimension=statement.dimension_in,
             )
         else:
             self.subgradient = None
diff --git a/conmech/solvers/solver_methods.py b/conmech/solvers/solver_methods.py
index 8449267..41fbc44 100644
--- a/conmech/solvers/solver_methods.py
+++ b/conmech/solvers/solver_methods.py
@@ -114,16 +114,20 @@ def make_equation(
                     um_normal = (um * normal_vector).sum()
 
                     edge_len = nph.length(edge, nodes) / len(ums[0])
-                    j_x = edge_len * 0.5 * (jn(um_normal, 0.0, 0.0) * normal_vector[0])
-                    j_y = edge_len * 0.5 * (jn(um_normal, 0.0, 0.0) * normal_vector[1])
+                    j_x = edge_len * (jn(um_normal, 0.0, 0.0) * normal_vector[0])
+                    j_y = edge_len * (jn(um_normal, 0.0, 0.0) * normal_vector[1])
+
+                    # middle of the edge acts on both nodes, others points only on itself
+                    share_0 = 0.5 if node_ == 0 else 1.0 * (node_ == 1)
+                    share_1 = 0.5 if node_ == 0 else 1.0 * (node_ == 2)
 
                     if n_id_0 < offset:
-                        contact_vector[n_id_0] += j_x
-                        contact_vector[n_id_0 + offset] += j_y
+                        contact_vector[n_id_0] += share_0 * j_x
+                        contact_vector[n_id_0 + offset] += share_0 * j_y
 
                     if n_id_1 < offset:
-                        contact_vector[n_id_1] += j_x
-                        contact_vector[n_id_1 + offset] += j_y
+                        contact_vector[n_id_1] += share_1 * j_x
+                        contact_vector[n_id_1 + offset] += share_1 * j_y
 
             return contact_vector
 
@@ -323,10 +327,13 @@ def make_subgradient(
                     tangential_condition_bound(vm_normal, static_displacement_normal, dt),
                 )
 
-                for node in edge:
+                for n, node in enumerate(edge):
+                    # middle of the edge acts on all nodes, others points only on itself
+                    share = 1.0 / len(edge) if node_ == 0 else 1.0 * (node_ == n + 1)
                     for i in range(variable_dimension):
                         if node < offset:
-                            cost[i * offset + node] += normal_vector[i] / len(edge) * subgrad
+                            direction = 1.0 if variable_dimension == 1 else normal_vector[i]
+                            cost[i * offset + node] += share * direction * subgrad
 
         return cost
 
-- 
2.43.0


From d149bbe85aa5410c7d6e846f802b077f197f1fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 17/43] fix: do not scale potential of constant contact law by
 static displacement

---
 conmech/dynamics/contact/constant_constact_law.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/dynamics/contact/constant_constact_law.py b/conmech/dynamics/contact/constant_constact_law.py
index 2dc5617..7a558b5 100644
--- a/conmech/dynamics/contact/constant_constact_law.py
+++ b/conmech/dynamics/contact/constant_constact_law.py
@@ -32,8 +32,8 @@ def make_const_contact_law(resistance: float) -> Type[ContactLaw]:
             var_nu: float, static_displacement_nu: float, dt: float
         ) -> float:
             if var_nu <= 0:
-                return 0 * static_displacement_nu
-            return (resistance * var_nu) * static_displacement_nu
+                return 0.0
+            return resistance * var_nu
 
         @staticmethod
         def subderivative_normal_direction(
-- 
2.43.0


From 44d0085c6b9a6d62930901df899e919dec4f46b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:41 +0000
Subject: [PATCH 18/43] fix: make default (zero) sources usable

---
 conmech/scenarios/problems.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/conmech/scenarios/problems.py b/conmech/scenarios/problems.py
index 61245f3..aab865c 100644
--- a/conmech/scenarios/problems.py
+++ b/conmech/scenarios/problems.py
@@ -46,15 +46,11 @@ class Problem(ABC):
         return None
 
     @staticmethod
-    def inner_forces(
-        x: np.ndarray, *, v: Optional[np.ndarray] = None, t: Optional[float] = None
-    ) -> np.ndarray:
+    def inner_forces(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
         return np.zeros_like(x)
 
     @staticmethod
-    def outer_forces(
-        x: np.ndarray, *, v: Optional[np.ndarray] = None, t: Optional[float] = None
-    ) -> np.ndarray:
+    def outer_forces(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
         return np.zeros_like(x)
 
 
@@ -91,11 +87,11 @@ class PoissonProblem(StaticProblem, ABC):
 
     @staticmethod
     def internal_temperature(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
-        return np.zeros(len(x))
+        return np.zeros(1)
 
     @staticmethod
     def outer_temperature(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
-        return np.zeros(len(x))
+        return np.zeros(1)
 
 
 @dataclass
@@ -106,6 +102,14 @@ class WaveProblem(DynamicProblem, ABC):
     def statement(cls, body) -> Statement:
         return WaveStatement(body)
 
+    @staticmethod
+    def inner_forces(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
+        return np.zeros(1)
+
+    @staticmethod
+    def outer_forces(x: np.ndarray, t: Optional[float] = None) -> np.ndarray:
+        return np.zeros(1)
+
     @staticmethod
     def initial_displacement(x: np.ndarray) -> np.ndarray:
         return np.zeros_like(x)
-- 
2.43.0


From ec573f07d51e309c82b121bc009a9f3287f4e943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:21 +0000
Subject: [PATCH 19/43] fix: list Dirichlet nodes among boundary indices

---
 conmech/mesh/boundaries.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conmech/mesh/boundaries.py b/conmech/mesh/boundaries.py
index 4bd8041..4fcc353 100644
--- a/conmech/mesh/boundaries.py
+++ b/conmech/mesh/boundaries.py
@@ -94,7 +94,10 @@ class Boundaries:
 
     @property
     def boundary_indices(self):
-        return slice(self.boundary_nodes_count)
+        # internal nodes are placed between independent and dirichlet boundary nodes
+        independent = self.contact_nodes_count + self.neumann_nodes_count
+        dirichlet = self.boundaries["dirichlet"].node_indices
+        return np.concatenate((np.arange(independent), np.arange(dirichlet.start, dirichlet.stop)))
 
     @property
     def contact_boundary(self):
-- 
2.43.0


From 1257fa401db397ec01d44b78f3acd6476e9bff70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:48 +0000
Subject: [PATCH 20/43] fix: build cross mesh also for small elements

---
 conmech/helpers/nph.py              |  4 ++--
 conmech/mesh/zoo/cross_for_tests.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/conmech/helpers/nph.py b/conmech/helpers/nph.py
index 18741ef..d65348f 100644
--- a/conmech/helpers/nph.py
+++ b/conmech/helpers/nph.py
@@ -29,9 +29,9 @@ def euclidean_norm_numba(vector: np.ndarray) -> np.ndarray:
 
 
 @numba.njit
-def get_node_index_numba(node, nodes):
+def get_node_index_numba(node, nodes, tolerance=0.0001):
     for i, n in enumerate(nodes):
-        if np.sum(np.abs(node - n)) < 0.0001:
+        if np.sum(np.abs(node - n)) < tolerance:
             return i
     raise ArgumentError
 
diff --git a/conmech/mesh/zoo/cross_for_tests.py b/conmech/mesh/zoo/cross_for_tests.py
index d44f260..1d054cf 100644
--- a/conmech/mesh/zoo/cross_for_tests.py
+++ b/conmech/mesh/zoo/cross_for_tests.py
@@ -41,19 +41,26 @@ class CrossMesh(RawMesh):
         nodes, elements, size_x, size_y, edge_len_x, edge_len_y, left_bottom_node
     ):
         index = 0
+        # relative to the size of elements, they may be arbitrary small
+        tolerance = 0.0001 * min(edge_len_x, edge_len_y)
         for i in range(size_x):
             for j in range(size_y):
                 left_bottom = np.array((i * edge_len_x, j * edge_len_y)) + left_bottom_node
 
-                lb = nph.get_node_index_numba(left_bottom, nodes)
-                rb = nph.get_node_index_numba(left_bottom + np.array((edge_len_x, 0.0)), nodes)
+                lb = nph.get_node_index_numba(left_bottom, nodes, tolerance)
+                rb = nph.get_node_index_numba(
+                    left_bottom + np.array((edge_len_x, 0.0)), nodes, tolerance
+                )
                 c = nph.get_node_index_numba(
                     left_bottom + np.array((0.5 * edge_len_x, 0.5 * edge_len_y)),
                     nodes,
+                    tolerance,
+                )
+                lt = nph.get_node_index_numba(
+                    left_bottom + np.array((0.0, edge_len_y)), nodes, tolerance
                 )
-                lt = nph.get_node_index_numba(left_bottom + np.array((0.0, edge_len_y)), nodes)
                 rt = nph.get_node_index_numba(
-                    left_bottom + np.array((edge_len_x, edge_len_y)), nodes
+                    left_bottom + np.array((edge_len_x, edge_len_y)), nodes, tolerance
                 )
 
                 elements[index] = np.array((lb, rb, c))
-- 
2.43.0


From 8748f863b7dec7ae5099c193190659404ac7179c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:45 +0000
Subject: [PATCH 21/43] fix: use prescribed values at Dirichlet nodes in the
 contact functional

---
 conmech/solvers/solver.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/conmech/solvers/solver.py b/conmech/solvers/solver.py
index aa001d4..772f9ec 100644
--- a/conmech/solvers/solver.py
+++ b/conmech/solvers/solver.py
@@ -81,19 +81,26 @@ class Solver:
         raise NotImplementedError()
 
     def solve(self, initial_guess: np.ndarray, **kwargs) -> np.ndarray:
+        # nodes that are not unknowns of the contact functional have their prescribed values
+        variable_old = self.v_vector.copy()
+        self._set_prescribed_values(variable_old)
+
         solution = self._solve_impl(
             initial_guess,
-            variable_old=self.v_vector,
+            variable_old=variable_old,
             displacement=self.u_vector,
             **kwargs,  # TODO: FIXME variable_old
         )
 
+        self._set_prescribed_values(solution)
+
+        return solution
+
+    def _set_prescribed_values(self, vector: np.ndarray):
         for dirichlet_cond in self.statement.find_dirichlet_conditions():
             c = self.body.mesh.boundaries.boundaries[dirichlet_cond].node_condition
             node_count = self.body.mesh.nodes_count
             for i, j in self.body.mesh.boundaries.get_all_boundary_indices(
                 dirichlet_cond, node_count, self.statement.dimension_in
             ):
-                solution[i] = c[j]
-
-        return solution
+                vector[i] = c[j]
-- 
2.43.0


From 9879f260713f3abf8c4782bf871211bd4efc7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:45 +0000
Subject: [PATCH 22/43] fix: recalculate stress after state has changed

---
 conmech/state/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index 1d272ab..7ed4461 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -41,6 +41,7 @@ class State:
             dt = time - self.time
             self.absement += dt * self.displacement
         self.time = time
+        self.__stress = None
         self.update_products()
 
     def set_velocity(self, velocity_vector: np.ndarray, time: float, *, update_displacement: bool):
@@ -52,6 +53,7 @@ class State:
                 self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]
             )
         self.time = time
+        self.__stress = None
         self.update_products()
 
     @property
-- 
2.43.0


From a8f34d32df71eae55124cd2b1c915c3c45d1d072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:12 +0000
Subject: [PATCH 23/43] fix: let optimization methods solve problems without
 contact law

---
 conmech/solvers/optimization/optimization.py | 23 +++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/conmech/solvers/optimization/optimization.py b/conmech/solvers/optimization/optimization.py
index e4d3c9d..c7af6f6 100644
--- a/conmech/solvers/optimization/optimization.py
+++ b/conmech/solvers/optimization/optimization.py
@@ -71,14 +71,21 @@ class Optimization(Solver):
             contact_law,
             driving_vector,
         )
-        self.loss = make_cost_functional(
-            normal_condition=contact_law.potential_normal_direction,
-            normal_condition_bound=contact_law.normal_bound,
-            tangential_condition=contact_law.potential_tangential_direction,
-            tangential_condition_bound=contact_law.tangential_bound,
-            variable_dimension=statement.dimension_out,
-            problem_dimension=statement.dimension_in,
-        )
+        if contact_law is None:
+            self.loss = make_cost_functional(
+                normal_condition=None,
+                variable_dimension=statement.dimension_out,
+                problem_dimension=statement.dimension_in,
+            )
+        else:
+            self.loss = make_cost_functional(
+                normal_condition=contact_law.potential_normal_direction,
+                normal_condition_bound=contact_law.normal_bound,
+                tangential_condition=contact_law.potential_tangential_direction,
+                tangential_condition_bound=contact_law.tangential_bound,
+                variable_dimension=statement.dimension_out,
+                problem_dimension=statement.dimension_in,
+            )
         if hasattr(contact_law, "subderivative_normal_direction"):  # TODO
             self.subgradient = make_subgradient(
                 normal_condition=contact_law.subderivative_normal_direction,
-- 
2.43.0


From befe63d6491b7a23698060b75c635ffbd0533a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:39 +0000
Subject: [PATCH 24/43] fix: respect contact bounds in Poisson problems

---
 conmech/solvers/optimization/optimization.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/conmech/solvers/optimization/optimization.py b/conmech/solvers/optimization/optimization.py
index c7af6f6..19a1d0c 100644
--- a/conmech/solvers/optimization/optimization.py
+++ b/conmech/solvers/optimization/optimization.py
@@ -25,7 +25,6 @@ import scipy.optimize
 
 from conmech.dynamics.statement import (
     Statement,
-    StaticPoissonStatement,
     WaveStatement,
 )
 from conmech.dynamics.contact.contact_law import PotentialOfContactLaw
@@ -100,15 +99,6 @@ class Optimization(Solver):
                     jn=None,
                     contact=contact_law.potential_normal_direction,
                 )
-
-        if isinstance(statement, StaticPoissonStatement):
-            self.loss = make_cost_functional(
-                normal_condition=(
-                    contact_law.potential_normal_direction if contact_law is not None else None
-                ),
-                variable_dimension=statement.dimension_out,
-                problem_dimension=statement.dimension_in,
-            )
         self.minimizer = None
 
     def __str__(self):
-- 
2.43.0


From 7eb8bebc83131333f9660dc0a08534fbdcf25562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:58 +0000
Subject: [PATCH 25/43] fix: subgradient of one dimensional variable in global
 optimization

---
 conmech/solvers/solver_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/solvers/solver_methods.py b/conmech/solvers/solver_methods.py
index 41fbc44..2ff61ec 100644
--- a/conmech/solvers/solver_methods.py
+++ b/conmech/solvers/solver_methods.py
@@ -357,9 +357,9 @@ def make_subgradient(
         )
         ind = lhs.shape[0]
         if only_boundary:
-            result_ = dj
+            result_ = dj[:ind]
         else:
-            result_ = np.dot(lhs, var[:ind]) - rhs + dj
+            result_ = np.dot(lhs, var[:ind]) - rhs + dj[:ind]
         result[:ind] = result_.ravel()
         return result
 
-- 
2.43.0


From 3ce312aaa43b4e8a43d507d80de669e4aedfcce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:27 +0000
Subject: [PATCH 26/43] fix: move displaced nodes together with initial
 displacement

---
 conmech/simulations/problem_solver.py |  5 +++++
 conmech/state/state.py                | 13 +++++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 210b24f..bfc815a 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -394,6 +394,7 @@ class QuasistaticRelaxation(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.update_displaced_nodes()
 
         self.step_solver.current_time = state.time
 
@@ -462,6 +463,7 @@ class TimeDependentSolver(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.update_displaced_nodes()
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
         self.step_solver.current_time = state.time
@@ -534,6 +536,7 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.update_displaced_nodes()
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
         state.temperature[:] = initial_temperature(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
@@ -630,6 +633,7 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         state.displacement[:] = initial_displacement(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
+        state.update_displaced_nodes()
         state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
         state.electric_potential[:] = initial_electric_potential(
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
@@ -729,6 +733,7 @@ class WaveSolver(ProblemSolver):
             state.displacement[:] = initial_displacement(
                 self.body.mesh.nodes[: self.body.mesh.nodes_count]
             )
+            state.update_displaced_nodes()
             state.velocity[:] = initial_velocity(self.body.mesh.nodes[: self.body.mesh.nodes_count])
 
         self.step_solver.current_time = state.time
diff --git a/conmech/state/state.py b/conmech/state/state.py
index 7ed4461..413e7d5 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -26,6 +26,11 @@ class State:
         self.temperature = None  # TODO
         self.time: float = 0
 
+    def update_displaced_nodes(self):
+        self.displaced_nodes[: self.body.mesh.nodes_count, :] = (
+            self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]
+        )
+
     def set_displacement(
         self,
         displacement_vector: np.ndarray,
@@ -34,9 +39,7 @@ class State:
         update_absement: bool = False,
     ):
         self.displacement = displacement_vector.reshape((self.body.mesh.dimension, -1)).T
-        self.displaced_nodes[: self.body.mesh.nodes_count, :] = (
-            self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]
-        )
+        self.update_displaced_nodes()
         if update_absement:
             dt = time - self.time
             self.absement += dt * self.displacement
@@ -49,9 +52,7 @@ class State:
         if update_displacement:
             dt = time - self.time
             self.displacement += dt * self.velocity
-            self.displaced_nodes[: self.body.mesh.nodes_count, :] = (
-                self.body.mesh.nodes[: self.body.mesh.nodes_count, :] + self.displacement[:, :]
-            )
+            self.update_displaced_nodes()
         self.time = time
         self.__stress = None
         self.update_products()
-- 
2.43.0


From 8bdec2f12845d4df413f71cf57927f38cf2a825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:13 +0000
Subject: [PATCH 27/43] fix: save also states of Poisson problems

---
 conmech/state/state.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index 413e7d5..36157a4 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -117,6 +117,10 @@ class State:
         self.body.dynamics.force.outer.source = None
         fis = self.body.dynamics.force.inner.source
         self.body.dynamics.force.inner.source = None
+        tos = self.body.dynamics.temperature.outer.source
+        self.body.dynamics.temperature.outer.source = None
+        tis = self.body.dynamics.temperature.inner.source
+        self.body.dynamics.temperature.inner.source = None
         s = self.setup
         self.setup = None
         cl = self.constitutive_law
@@ -128,6 +132,8 @@ class State:
         finally:
             self.body.dynamics.force.outer.source = fos
             self.body.dynamics.force.inner.source = fis
+            self.body.dynamics.temperature.outer.source = tos
+            self.body.dynamics.temperature.inner.source = tis
             self.setup = s
             self.constitutive_law = cl
 
-- 
2.43.0


From f1226a646a8367d79059a428db0b8297127467de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:10 +0000
Subject: [PATCH 28/43] fix: let numpy arrays be left operands of stiffness
 matrices

---
 conmech/struct/stiffness_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conmech/struct/stiffness_matrix.py b/conmech/struct/stiffness_matrix.py
index 4665bcc..f22ef3b 100644
--- a/conmech/struct/stiffness_matrix.py
+++ b/conmech/struct/stiffness_matrix.py
@@ -1,5 +1,6 @@
 class StiffnessMatrix:
     DIMENSION = None
+    __array_ufunc__ = None  # numpy arrays on the left leave operations to this class
 
     def __init__(self, data):
         self.data = data
-- 
2.43.0


From 745cc90ae7908d8d3595e197efcc19df227ae87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:05 +0000
Subject: [PATCH 29/43] fix: draw single-colour pictures of bodies with fewer
 than two fixed nodes

---
 conmech/plotting/drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conmech/plotting/drawer.py b/conmech/plotting/drawer.py
index 4341c57..80fb724 100644
--- a/conmech/plotting/drawer.py
+++ b/conmech/plotting/drawer.py
@@ -206,7 +206,7 @@ class Drawer:
         dirichlet_nodes = self.state.body.mesh.dirichlet_boundary
         dirichlet_nodes = list(set(dirichlet_nodes.flatten()))
         if self.dirichlet_arrows is None:
-            x = self.state.displaced_nodes[dirichlet_nodes][[0, 1]]
+            x = self.state.displaced_nodes[dirichlet_nodes][:2]
             v = np.zeros_like(x) + np.asarray([1, 0])
             self.dirichlet_arrows = np.hstack((x, v))
         if len(self.dirichlet_arrows) > 0:  # to avoid warning
-- 
2.43.0


From 57fa17ceb7db633478eae4e4d21cd2e061e4ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:05 +0000
Subject: [PATCH 30/43] fix: plot exactly the recorded limit points also for
 long records

---
 conmech/plotting/membrane.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index 7111c3e..b2b033a 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -45,17 +45,19 @@ def plot_limit_points(
     finish=True,
     ylim=(0, 1),
 ):
-    buff = np.zeros((2, 1100))  # some extra space for multiple zeros
+    buff = np.zeros((2, 1000))
     buff_size = 0
     for time, zeros in prod.data.items():
         for zero in zeros:  # significant performance improvement
             buff[0, buff_size] = time
             buff[1, buff_size] = zero
             buff_size += 1
-        if buff_size == 1000:
-            plt.scatter(buff[0, :], buff[1, :], s=1, color=color, label=label)
-            label = None
-            buff_size = 0
+            if buff_size == 1000:
+                plt.scatter(
+                    buff[0, :buff_size], buff[1, :buff_size], s=1, color=color, label=label
+                )
+                label = None
+                buff_size = 0
     if buff_size > 0:
         plt.scatter(buff[0, :buff_size], buff[1, :buff_size], s=1, color=color, label=label)
     plt.title(title)
-- 
2.43.0


From 1748a204db6f6eca5aa348560aeec795c88ae7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:00 +0000
Subject: [PATCH 31/43] fix: read meshes from files with unsigned or
 byte-swapped numbers

---
 conmech/properties/mesh_description.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conmech/properties/mesh_description.py b/conmech/properties/mesh_description.py
index 4dfaa55..86978bf 100644
--- a/conmech/properties/mesh_description.py
+++ b/conmech/properties/mesh_description.py
@@ -26,13 +26,18 @@ class ImportedMeshDescription(MeshDescription):
 
         if "tetra" in mesh.cells_dict:
             # mesh is 3D
-            return RawMesh(nodes=mesh.points, elements=mesh.cells_dict["tetra"])
+            return self._raw_mesh(mesh.points, mesh.cells_dict["tetra"])
 
         # mesh is 2D
         if mesh.points.shape[1] == 3:
             # meshes generated by gmsh have z-coordinates left even in 2D meshes
             mesh.points = mesh.points[:, :2]
-        return RawMesh(nodes=mesh.points, elements=mesh.cells_dict["triangle"])
+        return self._raw_mesh(mesh.points, mesh.cells_dict["triangle"])
+
+    @staticmethod
+    def _raw_mesh(nodes, elements):
+        # files may store other number formats, e.g. of the opposite byte order
+        return RawMesh(nodes=nodes.astype("float"), elements=elements.astype("long"))
 
 
 @dataclass
-- 
2.43.0


From 6d8fe330755f66fd75cc16bd6ecf6162f6e851d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 32/43] fix: keep later numbered conditions when an earlier one
 has no nodes

---
 conmech/dynamics/statement.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index 3479fb4..03855e4 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -56,14 +56,11 @@ class Statement:
         if self.dirichlet_cond_name in boundaries:
             yield self.dirichlet_cond_name
             return
-        i = 0
-        while True:
-            next_name = self.dirichlet_cond_name + "_" + str(i)
-            if next_name in boundaries:
-                yield next_name
-            else:
-                return
-            i += 1
+        prefix = self.dirichlet_cond_name + "_"
+        # boundaries without nodes are left out, so the numbers do not have to be consecutive
+        numbers = [name[len(prefix) :] for name in boundaries if name.startswith(prefix)]
+        for number in sorted(filter(str.isdecimal, numbers), key=int):
+            yield prefix + number
 
 
 class StaticPoissonStatement(Statement):
-- 
2.43.0


From 0361f1ef308bd49deea61c7b097534d66a65d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 33/43] fix: time-dependent displacement problems in three
 dimensions

---
 conmech/dynamics/statement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/dynamics/statement.py b/conmech/dynamics/statement.py
index 03855e4..817dd48 100644
--- a/conmech/dynamics/statement.py
+++ b/conmech/dynamics/statement.py
@@ -136,7 +136,7 @@ class QuasistaticRelaxationStatement(Statement):
 
 class QuasistaticVelocityStatement(Statement):
     def __init__(self, body):
-        super().__init__(body, (2, 2))
+        super().__init__(body, (body.mesh.dimension, body.mesh.dimension))
 
     def update_left_hand_side(self, var: Variables):
         assert var.time_step is not None
@@ -157,7 +157,7 @@ class QuasistaticVelocityStatement(Statement):
 
 class DynamicVelocityStatement(Statement):
     def __init__(self, body):
-        super().__init__(body, (2, 2))
+        super().__init__(body, (body.mesh.dimension, body.mesh.dimension))
 
     def update_left_hand_side(self, var):
         assert var.time_step is not None
-- 
2.43.0


From 0f0e804dc9abe2ea91e3fcbad7c37fb1b73b4abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 34/43] fix: condensed method in three dimensions

---
 .../solvers/optimization/schur_complement.py  | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/conmech/solvers/optimization/schur_complement.py b/conmech/solvers/optimization/schur_complement.py
index dd63dda..ff88a0c 100644
--- a/conmech/solvers/optimization/schur_complement.py
+++ b/conmech/solvers/optimization/schur_complement.py
@@ -58,7 +58,7 @@ class SchurComplementOptimization(Optimization):
             contact_x_free=self.contact_x_free,
             free_x_free_inverted=self.free_x_free_inverted,
         )
-        if self.statement.dimension_in == 2:
+        if self.statement.dimension_in > 1:
             return node_forces.T, forces_free
         return node_forces.reshape(-1), forces_free.reshape(-1)
 
@@ -105,9 +105,14 @@ class SchurComplementOptimization(Optimization):
         # solution: [xc, xf, xd, yc, yf, yd]
         return solution
 
+    @property
+    def components(self) -> int:
+        # driving vectors have a second, unused component
+        return 2 if self.driving_vector else self.statement.dimension_in
+
     def truncate_free_nodes(self, initial_guess: np.ndarray) -> np.ndarray:
-        if self.statement.dimension_in == 2 or self.driving_vector:
-            _result = initial_guess.reshape(2, -1)
+        if self.components > 1:
+            _result = initial_guess.reshape(self.components, -1)
             _result = _result[:, self.contact_ids]
             _result = _result.reshape(1, -1)
             result = _result
@@ -115,7 +120,7 @@ class SchurComplementOptimization(Optimization):
         return initial_guess[self.contact_ids]
 
     def complement_free_nodes(self, truncated_solution: np.ndarray) -> np.ndarray:
-        if self.statement.dimension_in == 2:
+        if self.statement.dimension_in > 1:
             _result = truncated_solution.reshape(-1, 1)
         else:
             _result = truncated_solution
@@ -126,9 +131,9 @@ class SchurComplementOptimization(Optimization):
         return result
 
     def merge(self, solution_contact: np.ndarray, solution_free: np.ndarray) -> np.ndarray:
-        if self.statement.dimension_in == 2 or self.driving_vector:
-            u_contact = solution_contact.reshape(2, -1)
-            u_free = solution_free.reshape(2, -1)
+        if self.components > 1:
+            u_contact = solution_contact.reshape(self.components, -1)
+            u_free = solution_free.reshape(self.components, -1)
             _result = np.concatenate((u_contact, u_free), axis=1)
             _result = _result.reshape(1, -1)
             result = np.squeeze(np.asarray(_result))
-- 
2.43.0


From d374b76cf4779e342a9371b560eb1930b6c38eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 35/43] fix: first guess of coupled problems ordered by
 components, of any dimension

---
 conmech/simulations/problem_solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index bfc815a..8a29806 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -542,7 +542,7 @@ class TemperatureTimeDependentSolver(ProblemSolver):
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
 
-        solution = state.velocity.reshape(2, -1)
+        solution = state.velocity.T.ravel()
         solution_t = state.temperature
 
         self.step_solver.current_time = state.time
@@ -639,7 +639,7 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
             self.body.mesh.nodes[: self.body.mesh.nodes_count]
         )
 
-        solution = state.velocity.reshape(2, -1)
+        solution = state.velocity.T.ravel()
         solution_t = state.electric_potential
 
         self.step_solver.current_time = state.time
-- 
2.43.0


From b8303f8608b8c673dbaff915dd3e912017da39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 36/43] fix: record products in simulations of coupled problems

---
 conmech/simulations/problem_solver.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/conmech/simulations/problem_solver.py b/conmech/simulations/problem_solver.py
index 8a29806..886443d 100644
--- a/conmech/simulations/problem_solver.py
+++ b/conmech/simulations/problem_solver.py
@@ -517,6 +517,7 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         initial_velocity: Callable,
         initial_temperature: Callable,
         output_step: Optional[iter] = None,
+        products: Optional[List[Product]] = None,
         **kwargs,
     ) -> List[TemperatureState]:
         """
@@ -528,6 +529,7 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         :param initial_displacement: for the solver
         :param initial_velocity: for the solver
         :param initial_temperature: for the solver
+        :param products: quantities recorded at every step
         :return: state
         """
         output_step = (0, *output_step) if output_step else (0, n_steps)  # 0 for diff
@@ -559,6 +561,9 @@ class TemperatureTimeDependentSolver(ProblemSolver):
         self.step_solver.iterate()
         self.second_step_solver.iterate()
 
+        for prod in products or ():
+            state.inject_product(prod)
+
         output_step = np.diff(output_step)
         done = 0
         for n in output_step:
@@ -571,12 +576,12 @@ class TemperatureTimeDependentSolver(ProblemSolver):
                 solution, solution_t = self.find_solution_uzawa(solution, solution_t)
 
                 if self.coordinates == "velocity":
+                    state.set_temperature(solution_t)
                     state.set_velocity(
                         solution[:],
                         update_displacement=True,
                         time=self.step_solver.current_time,
                     )
-                    state.set_temperature(solution_t)
                 else:
                     raise ValueError(f"Unknown coordinates: {self.coordinates}")
             yield state.copy()
@@ -614,6 +619,7 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         initial_velocity: Callable,
         initial_electric_potential: Callable,
         output_step: Optional[iter] = None,
+        products: Optional[List[Product]] = None,
         **kwargs,
     ) -> List[PiezoelectricState]:
         """
@@ -625,6 +631,7 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         :param initial_displacement: for the solver
         :param initial_velocity: for the solver
         :param initial_electric_potential: for the solver
+        :param products: quantities recorded at every step
         :return: state
         """
         output_step = (0, *output_step) if output_step else (0, n_steps)  # 0 for diff
@@ -656,6 +663,9 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
         self.step_solver.iterate()
         self.second_step_solver.iterate()
 
+        for prod in products or ():
+            state.inject_product(prod)
+
         output_step = np.diff(output_step)
         results = []
         done = 0
@@ -669,12 +679,12 @@ class PiezoelectricTimeDependentSolver(ProblemSolver):
                 solution, solution_t = self.find_solution_uzawa(solution, solution_t)
 
                 if self.coordinates == "velocity":
+                    state.set_electric_potential(solution_t)
                     state.set_velocity(
                         solution[:],
                         update_displacement=True,
                         time=self.step_solver.current_time,
                     )
-                    state.set_electric_potential(solution_t)
                 else:
                     raise ValueError(f"Unknown coordinates: {self.coordinates}")
             results.append(state.copy())
-- 
2.43.0


From 64ff262486fafb01215519c9900999bfb61a6758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 37/43] fix: nodes of no element do not shift the initial
 position

---
 conmech/mesh/mesh_builders.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/conmech/mesh/mesh_builders.py b/conmech/mesh/mesh_builders.py
index b9de37c..a91bbed 100644
--- a/conmech/mesh/mesh_builders.py
+++ b/conmech/mesh/mesh_builders.py
@@ -7,13 +7,16 @@ from conmech.properties.mesh_description import MeshDescription
 
 def build_mesh(mesh_descr: MeshDescription) -> Tuple[np.ndarray, np.ndarray]:
     raw_mesh = mesh_descr.build()
-    nodes = translate_nodes(nodes=raw_mesh.nodes, mesh_descr=mesh_descr)
+    nodes = translate_nodes(
+        nodes=raw_mesh.nodes, elements=raw_mesh.elements, mesh_descr=mesh_descr
+    )
     return nodes, raw_mesh.elements
 
 
-def translate_nodes(nodes: np.ndarray, mesh_descr: MeshDescription):
+def translate_nodes(nodes: np.ndarray, elements: np.ndarray, mesh_descr: MeshDescription):
     if mesh_descr.initial_position is not None:
-        origin = np.min(nodes, axis=0)
+        # nodes of no element are not a part of the body
+        origin = np.min(nodes[np.unique(elements)], axis=0)
         nodes -= origin
         nodes += mesh_descr.initial_position
     return nodes
-- 
2.43.0


From fea1d7934be1a3f8e39dceee41f46dbaf16ccb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 38/43] fix: leave arrays of the mesh description unchanged

---
 conmech/mesh/mesh_builders.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conmech/mesh/mesh_builders.py b/conmech/mesh/mesh_builders.py
index a91bbed..2d93292 100644
--- a/conmech/mesh/mesh_builders.py
+++ b/conmech/mesh/mesh_builders.py
@@ -7,10 +7,10 @@ from conmech.properties.mesh_description import MeshDescription
 
 def build_mesh(mesh_descr: MeshDescription) -> Tuple[np.ndarray, np.ndarray]:
     raw_mesh = mesh_descr.build()
-    nodes = translate_nodes(
-        nodes=raw_mesh.nodes, elements=raw_mesh.elements, mesh_descr=mesh_descr
-    )
-    return nodes, raw_mesh.elements
+    # the mesh is renumbered in place, the description may need its arrays again
+    nodes, elements = raw_mesh.nodes.copy(), raw_mesh.elements.copy()
+    nodes = translate_nodes(nodes=nodes, elements=elements, mesh_descr=mesh_descr)
+    return nodes, elements
 
 
 def translate_nodes(nodes: np.ndarray, elements: np.ndarray, mesh_descr: MeshDescription):
-- 
2.43.0


From 60e2fa127d11207ee976d2053e6543bfb83356c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 39/43] fix: look for zeros in the last, shorter interval

---
 .../products/intersection_contact_limit_points.py     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/conmech/state/products/intersection_contact_limit_points.py b/conmech/state/products/intersection_contact_limit_points.py
index d9f2cfe..b484f93 100644
--- a/conmech/state/products/intersection_contact_limit_points.py
+++ b/conmech/state/products/intersection_contact_limit_points.py
@@ -55,13 +55,16 @@ def interpolate(state, field):
 def estimate_zeros(func, xmin, xmax, step) -> tuple:
     zeros = []
     x = xmin
+    previous = xmin
     sign = np.sign(func(x))
-    while x <= xmax:
+    while True:
         f_x = func(x)
         if f_x == 0:
             zeros.append(x)
         elif f_x < 0 < sign or f_x > 0 > sign:
-            zeros.append(opt.brentq(func, x - step, x))
+            zeros.append(opt.brentq(func, previous, x))
         sign = np.sign(f_x)
-        x += step
-    return tuple(zeros)
+        if x >= xmax:
+            return tuple(zeros)
+        previous = x
+        x = min(x + step, xmax)  # the last step may be shorter
-- 
2.43.0


From 4b8a8614a50bbaaa179650d1a03eefc2725abd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 40/43] fix: states keep fields of their own

---
 conmech/state/state.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conmech/state/state.py b/conmech/state/state.py
index 36157a4..ca77cc2 100644
--- a/conmech/state/state.py
+++ b/conmech/state/state.py
@@ -38,7 +38,7 @@ class State:
         *,
         update_absement: bool = False,
     ):
-        self.displacement = displacement_vector.reshape((self.body.mesh.dimension, -1)).T
+        self.displacement = displacement_vector.reshape((self.body.mesh.dimension, -1)).T.copy()
         self.update_displaced_nodes()
         if update_absement:
             dt = time - self.time
@@ -48,7 +48,7 @@ class State:
         self.update_products()
 
     def set_velocity(self, velocity_vector: np.ndarray, time: float, *, update_displacement: bool):
-        self.velocity = velocity_vector.reshape((self.body.mesh.dimension, -1)).T
+        self.velocity = velocity_vector.reshape((self.body.mesh.dimension, -1)).T.copy()
         if update_displacement:
             dt = time - self.time
             self.displacement += dt * self.velocity
@@ -154,7 +154,7 @@ class TemperatureState(State):
         return super().__getitem__(item)
 
     def set_temperature(self, temperature_vector: np.ndarray):
-        self.temperature = temperature_vector
+        self.temperature = temperature_vector.copy()
 
     def __copy__(self) -> "TemperatureState":
         copy = TemperatureState(self.body)
@@ -174,7 +174,7 @@ class PiezoelectricState(State):
         self.electric_potential = np.zeros(self.body.mesh.nodes_count)
 
     def set_electric_potential(self, electric_vector: np.ndarray):
-        self.electric_potential = electric_vector
+        self.electric_potential = electric_vector.copy()
 
     def __copy__(self) -> "PiezoelectricState":
         copy = PiezoelectricState(self.body)
-- 
2.43.0


From 47f012fbc77b8a08a0265c8ae327ae9fac931903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 41/43] fix: plot any number of membrane states

---
 conmech/plotting/membrane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conmech/plotting/membrane.py b/conmech/plotting/membrane.py
index b2b033a..73e8afc 100644
--- a/conmech/plotting/membrane.py
+++ b/conmech/plotting/membrane.py
@@ -24,7 +24,7 @@ def plot_in_columns(states: List[State], *args, **kwargs):
         kwargs["in3d"] = False
 
     cols = 2
-    rows = len(states) // 2
+    rows = (len(states) + 1) // 2
     i = 1
     for r in range(1, len(states) + 1):
         ax = fig.add_subplot(rows, cols, i, **extra_kwargs)
@@ -70,7 +70,7 @@ def plot_limit_points(
 def plot(state: State, *args, **kwargs):
     fig = plt.figure()
     ax = fig.add_subplot(1, 1, 1, projection="3d")
-    do_plot(state, *args, ax=ax, **kwargs)
+    do_plot(fig, state, *args, ax=ax, **kwargs)
     plt.show()
 
 
-- 
2.43.0


From 39b3a4e59793405cdc522a14068a57744988764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:56 +0000
Subject: [PATCH 42/43] fix: equations of the direct method for scalar and 3D
 unknowns

---
 conmech/solvers/direct.py         |  1 +
 conmech/solvers/solver_methods.py | 33 ++++++++++++++-----------------
 2 files changed, 16 insertions(+), 18 deletions(-)

diff --git a/conmech/solvers/direct.py b/conmech/solvers/direct.py
index 382775a..2cc9b82 100644
--- a/conmech/solvers/direct.py
+++ b/conmech/solvers/direct.py
@@ -43,6 +43,7 @@ class Direct(Solver):
                     if hasattr(contact_law, "general_contact_condition")
                     else None
                 ),
+                problem_dimension=statement.dimension_in,
             )
 
     def __str__(self) -> str:
diff --git a/conmech/solvers/solver_methods.py b/conmech/solvers/solver_methods.py
index 2ff61ec..1a5b5f3 100644
--- a/conmech/solvers/solver_methods.py
+++ b/conmech/solvers/solver_methods.py
@@ -103,31 +103,28 @@ def make_equation(
             offset = len(u_vector) // problem_dimension
 
             for ei, edge in enumerate(contact_boundary):
-                n_id_0 = edge[0]
-                n_id_1 = edge[1]
                 normal_vector = contact_normals[ei]
 
                 ums = get_nodes(edge, u_vector, u_vector, dimension=problem_dimension)
+
                 for node_ in range(len(ums[0])):
                     um = ums[:, node_]
-                    # ASSUMING `u_vector` and `nodes` have the same order!
-                    um_normal = (um * normal_vector).sum()
 
+                    # ASSUMING `u_vector` and `nodes` have the same order!
+                    if problem_dimension == 1:
+                        um_normal = um[0]
+                    else:
+                        um_normal = (um * normal_vector).sum()
                     edge_len = nph.length(edge, nodes) / len(ums[0])
-                    j_x = edge_len * (jn(um_normal, 0.0, 0.0) * normal_vector[0])
-                    j_y = edge_len * (jn(um_normal, 0.0, 0.0) * normal_vector[1])
-
-                    # middle of the edge acts on both nodes, others points only on itself
-                    share_0 = 0.5 if node_ == 0 else 1.0 * (node_ == 1)
-                    share_1 = 0.5 if node_ == 0 else 1.0 * (node_ == 2)
-
-                    if n_id_0 < offset:
-                        contact_vector[n_id_0] += share_0 * j_x
-                        contact_vector[n_id_0 + offset] += share_0 * j_y
-
-                    if n_id_1 < offset:
-                        contact_vector[n_id_1] += share_1 * j_x
-                        contact_vector[n_id_1 + offset] += share_1 * j_y
+                    response = edge_len * jn(um_normal, 0.0, 0.0)
+
+                    for n, node in enumerate(edge):
+                        # middle of the edge acts on all nodes, others points only on itself
+                        share = 1.0 / len(edge) if node_ == 0 else 1.0 * (node_ == n + 1)
+                        for i in range(problem_dimension):
+                            if node < offset:
+                                direction = 1.0 if problem_dimension == 1 else normal_vector[i]
+                                contact_vector[i * offset + node] += share * direction * response
 
             return contact_vector
 
-- 
2.43.0


From ff69013daa7f0ff7a4951e624f02f1f4645d36d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:31 +0000
Subject: [PATCH 43/43] fix: the constrained method bounds the second component
 in three dimensions too

---
 conmech/solvers/optimization/optimization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conmech/solvers/optimization/optimization.py b/conmech/solvers/optimization/optimization.py
index 19a1d0c..2d59937 100644
--- a/conmech/solvers/optimization/optimization.py
+++ b/conmech/solvers/optimization/optimization.py
@@ -201,10 +201,11 @@ class Optimization(Solver):
             solution = qsmlmi.minimize(self.loss, solution, args, 0, 1, 10000)
         elif method.lower() == "constrained":
             contact_nodes_count = self.body.mesh.boundaries.contact_nodes_count
+            dimension = self.body.mesh.dimension
 
             @numba.njit()
             def constr(x):
-                offset = len(x) // 2
+                offset = len(x) // dimension
                 t = x[offset : offset + contact_nodes_count]
                 return np.min(t)
 
-- 
2.43.0

