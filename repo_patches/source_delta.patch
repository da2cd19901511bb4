From 57115c5e590a60846506106837c251622d17d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 01/51] fix: cleaning an empty msepy cochain raised KeyError

---
 msepy/form/cochain/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 277c4ee..8fa8888 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -95,7 +95,7 @@ class MsePyRootFormCochain(Frozen):
             new_tcd = {}
             if what is None:  # clear all t except the newest t
                 newest_t = self._newest_t
-                if new_tcd is None:
+                if newest_t is None:
                     pass
                 else:
                     new_tcd[newest_t] = self._tcd[newest_t]
-- 
2.43.0


From fafc97fd6b6c011e97965717714df8b0282df53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 02/51] fix: msepy cochain interpolation used the first segment
 and raised TypeError

---
 msepy/form/cochain/main.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/msepy/form/cochain/main.py b/msepy/form/cochain/main.py
index 8fa8888..1298e32 100644
--- a/msepy/form/cochain/main.py
+++ b/msepy/form/cochain/main.py
@@ -177,9 +177,8 @@ class MsePyRootFormCochain(Frozen):
                     else:
                         segment_lb = None
                         segment_ub = None
-                        for i, segment_lb in enumerate(cochain_times):
-                            if t >= segment_lb:
-                                segment_ub = cochain_times[i+1]
+                        for segment_lb, segment_ub in zip(cochain_times[:-1], cochain_times[1:]):
+                            if segment_lb <= t <= segment_ub:
                                 break
                             else:
                                 pass
@@ -188,7 +187,10 @@ class MsePyRootFormCochain(Frozen):
                         cochain_lb = self[segment_lb]
                         cochain_ub = self[segment_ub]
                         ratio = (t - segment_lb) / (segment_ub - segment_lb)
-                        cochain_t = cochain_lb + ratio * (cochain_ub - cochain_lb)
+                        cochain_t = _CochainAtOneTime(rf, t)
+                        cochain_t._receive(
+                            cochain_lb.local + ratio * (cochain_ub.local - cochain_lb.local)
+                        )
                         return cochain_t
         else:
             return rf._base.cochain(t)
-- 
2.43.0


From 6fea12606f1064211212cd4da238b408062de6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 03/51] fix: msehtt cochain clean(t=newest) left a stale newest
 time

---
 msehtt/static/form/cochain/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msehtt/static/form/cochain/main.py b/msehtt/static/form/cochain/main.py
index 6ee4b92..6272e4a 100644
--- a/msehtt/static/form/cochain/main.py
+++ b/msehtt/static/form/cochain/main.py
@@ -144,6 +144,7 @@ class MseHttCochain(Frozen):
 
                 if t in self._tcd:
                     del self._tcd[t]
+                    self._newest_t = max(self._tcd) if len(self._tcd) > 0 else None
                 else:
                     pass
 
-- 
2.43.0


From 58478a27758c3429647d7a024efd3e56ff69a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 04/51] fix: imports of non-existent top-level packages (src,
 msepy, msehtt, tools)

---
 msehtt/adaptive/main.py                              |  2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py      |  6 +++---
 msehtt/static/form/export/main.py                    |  2 +-
 msehtt/tools/nonlinear_system/dynamic/main.py        |  2 +-
 msehtt/tools/nonlinear_system/static/main.py         |  2 +-
 msepy/form/main.py                                   |  6 +++---
 msepy/form/numeric/main.py                           |  2 +-
 msepy/form/visualize/matplot.py                      |  2 +-
 msepy/manifold/visualize/matplot.py                  |  2 +-
 msepy/mesh/boundary_section/main.py                  |  2 +-
 msepy/mesh/boundary_section/visualize/matplot.py     |  2 +-
 msepy/mesh/visualize/matplot.py                      |  2 +-
 msepy/space/degree.py                                |  2 +-
 msepy/space/gathering_matrix/Lambda.py               |  2 +-
 msepy/space/mass_matrix/Lambda.py                    |  2 +-
 msepy/space/reconstruct/Lambda.py                    |  2 +-
 msepy/space/reduce/Lambda.py                         |  2 +-
 msepy/space/trace_matrix/Lambda.py                   |  2 +-
 msepy/tools/linear_system/dynamic/_arr_par.py        |  6 +++---
 msepy/tools/linear_system/dynamic/main.py            |  2 +-
 msepy/tools/linear_system/static/local/main.py       |  2 +-
 msepy/tools/nonlinear_system/dynamic/main.py         |  6 +++---
 msepy/tools/nonlinear_system/static/customize.py     |  8 ++++----
 msepy/tools/nonlinear_system/static/local.py         |  2 +-
 msepy/tools/polynomials.py                           |  4 ++--
 src/algebra/array.py                                 |  2 +-
 src/algebra/linear_system.py                         | 12 ++++++------
 src/time_sequence.py                                 |  4 ++--
 src/wf/term/ap.py                                    |  4 ++--
 tools/functions/time_space/_2d/wrappers/scalar.py    |  8 ++++----
 tools/functions/time_space/_2d/wrappers/vector.py    |  8 ++++----
 .../serialRunners/INSTANCES/COMPONENTS/tir_drw.py    |  4 ++--
 .../serialRunners/INSTANCES/three_inputs_runner.py   | 10 +++++-----
 tools/miscellaneous/undirected_graph.py              |  2 +-
 34 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/msehtt/adaptive/main.py b/msehtt/adaptive/main.py
index 8fb4f64..730103e 100644
--- a/msehtt/adaptive/main.py
+++ b/msehtt/adaptive/main.py
@@ -406,7 +406,7 @@ def info(*others_2b_printed):
         else:
             pass
     print(f"\n~) Existing time sequences --------- ")
-    from src.time_sequence import _global_abstract_time_sequence
+    from phyem.src.time_sequence import _global_abstract_time_sequence
     for ats_lin in _global_abstract_time_sequence:
         ats = _global_abstract_time_sequence[ats_lin]
         ats.info()
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index bd5cf77..6df07fc 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -45,9 +45,9 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
     return data_dict
 
 
-from msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
-from msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
-from msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.reconstruction_matrix.Lambda.RM_m3n3k0 import ___rm330_msepy_hexahedral___
+from phyem.msehtt.static.space.find.local_dofs_on_face.Lambda.m3n3k0 import __m3n3k0_msepy_hexahedral_
+from phyem.msehtt.static.space.num_local_dofs.Lambda.num_local_dofs_m3n3k0 import _num_local_dofs__m3n3k0_msepy_hexahedral_
 
 
 def ___bi_vc_330_orthogonal_hexahedral___(element, degree, face, tvc):
diff --git a/msehtt/static/form/export/main.py b/msehtt/static/form/export/main.py
index a6e1733..f210b73 100644
--- a/msehtt/static/form/export/main.py
+++ b/msehtt/static/form/export/main.py
@@ -29,7 +29,7 @@ class MseHtt_Static_Form_Export(Frozen):
 
     def vtk(self, filename, ddf=1):
         r""""""
-        from tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
+        from phyem.tools.vtk_.msehtt_form_static_copy import ___ph_vtk_msehtt_static_copy___
         ___ph_vtk_msehtt_static_copy___(filename, self._f[self._t], ddf=ddf)
 
     def tsf(self, filename, ddf=1):
diff --git a/msehtt/tools/nonlinear_system/dynamic/main.py b/msehtt/tools/nonlinear_system/dynamic/main.py
index fde2b62..b28d3d2 100644
--- a/msehtt/tools/nonlinear_system/dynamic/main.py
+++ b/msehtt/tools/nonlinear_system/dynamic/main.py
@@ -213,7 +213,7 @@ class MseHttDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
 
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
diff --git a/msehtt/tools/nonlinear_system/static/main.py b/msehtt/tools/nonlinear_system/static/main.py
index d330073..67fa7c3 100644
--- a/msehtt/tools/nonlinear_system/static/main.py
+++ b/msehtt/tools/nonlinear_system/static/main.py
@@ -330,7 +330,7 @@ class MseHttStaticNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}].')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/form/main.py b/msepy/form/main.py
index d1925d3..39b9c26 100644
--- a/msepy/form/main.py
+++ b/msepy/form/main.py
@@ -80,7 +80,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -106,7 +106,7 @@ class MsePyRootForm(Frozen):
             t = self.cochain.newest  # newest time
         elif isinstance(t, str):
             # when use str, we are looking for the form at a time step.
-            from src.time_sequence import _global_abstract_time_sequence
+            from phyem.src.time_sequence import _global_abstract_time_sequence
             if len(_global_abstract_time_sequence) == 1:
                 ts_indicator = list(_global_abstract_time_sequence.keys())[0]
                 ts = _global_abstract_time_sequence[ts_indicator]
@@ -485,7 +485,7 @@ class MsePyRootForm(Frozen):
         inner_product_matrix = self.space.inner_product(
             self.degree, (other_form.space, other_form.degree)
         )
-        from msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
+        from phyem.msepy.tools.matrix.static.local import MsePyStaticLocalMatrix
 
         inner_product_matrix = MsePyStaticLocalMatrix(
             inner_product_matrix,
diff --git a/msepy/form/numeric/main.py b/msepy/form/numeric/main.py
index 8ae6c05..f2b9706 100644
--- a/msepy/form/numeric/main.py
+++ b/msepy/form/numeric/main.py
@@ -305,7 +305,7 @@ class MsePyRootFormNumeric(Frozen):
             pass
         else:
             import pickle
-            from src.config import SIZE
+            from phyem.src.config import SIZE
             if SIZE == 1:
                 # we are only calling one thread, so just go ahead with it.
                 with open(saveto, 'wb') as output:
diff --git a/msepy/form/visualize/matplot.py b/msepy/form/visualize/matplot.py
index 85b8e3b..ed9a95a 100644
--- a/msepy/form/visualize/matplot.py
+++ b/msepy/form/visualize/matplot.py
@@ -358,7 +358,7 @@ class MsePyRootFormVisualizeMatplot(Frozen):
     ):
         """"""
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/manifold/visualize/matplot.py b/msepy/manifold/visualize/matplot.py
index c494b79..a8f77c5 100644
--- a/msepy/manifold/visualize/matplot.py
+++ b/msepy/manifold/visualize/matplot.py
@@ -144,7 +144,7 @@ class MsePyManifoldVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
         return fig
diff --git a/msepy/mesh/boundary_section/main.py b/msepy/mesh/boundary_section/main.py
index e130b92..178abfa 100644
--- a/msepy/mesh/boundary_section/main.py
+++ b/msepy/mesh/boundary_section/main.py
@@ -87,7 +87,7 @@ class MsePyBoundarySectionMesh(Frozen):
         If the target is the gathering matrix, then we find all global dofs on the
         boundary section.
         """
-        from msepy.form.main import MsePyRootForm
+        from phyem.msepy.form.main import MsePyRootForm
         assert f.__class__ is MsePyRootForm, f"f must be a msepy root form."
         gathering_matrix = f.cochain.gathering_matrix
 
diff --git a/msepy/mesh/boundary_section/visualize/matplot.py b/msepy/mesh/boundary_section/visualize/matplot.py
index 9d55f95..9a5da5a 100644
--- a/msepy/mesh/boundary_section/visualize/matplot.py
+++ b/msepy/mesh/boundary_section/visualize/matplot.py
@@ -112,7 +112,7 @@ class Matplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshBoundarySection')
             else:
diff --git a/msepy/mesh/visualize/matplot.py b/msepy/mesh/visualize/matplot.py
index 55aec64..388edb9 100644
--- a/msepy/mesh/visualize/matplot.py
+++ b/msepy/mesh/visualize/matplot.py
@@ -186,7 +186,7 @@ class MsePyMeshVisualizeMatplot(Frozen):
         if saveto is not None and saveto != '':
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/msepy/space/degree.py b/msepy/space/degree.py
index 613f627..b156e7c 100644
--- a/msepy/space/degree.py
+++ b/msepy/space/degree.py
@@ -160,7 +160,7 @@ class PySpaceDegree(Frozen):
     @property
     def gathering_matrix(self):
         """For msehy-py spaces, access gathering matrix here only for more recent generation mesh!"""
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh_class = self._space.mesh.__class__
         if mesh_class is MsePyMesh:
             return self._space.gathering_matrix(self._degree)
diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 5fef6b1..a0bb713 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -1340,7 +1340,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
     def _m2_n1_k1(self, p):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/mass_matrix/Lambda.py b/msepy/space/mass_matrix/Lambda.py
index 0c088ef..425ba2b 100644
--- a/msepy/space/mass_matrix/Lambda.py
+++ b/msepy/space/mass_matrix/Lambda.py
@@ -338,7 +338,7 @@ class MsePyMassMatrixLambda(Frozen):
         quad_nodes, quad_weights = quad.quad
         xi_et, bfs = self._space.basis_functions[degree](quad_nodes)
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reconstruct/Lambda.py b/msepy/space/reconstruct/Lambda.py
index ab7776d..9194250 100644
--- a/msepy/space/reconstruct/Lambda.py
+++ b/msepy/space/reconstruct/Lambda.py
@@ -223,7 +223,7 @@ class MsePySpaceReconstructLambda(Frozen):
         nodes, bfs = self._space.basis_functions[degree](xi)
 
         mesh = self._mesh
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/reduce/Lambda.py b/msepy/space/reduce/Lambda.py
index 4eab720..2eb47c3 100644
--- a/msepy/space/reduce/Lambda.py
+++ b/msepy/space/reduce/Lambda.py
@@ -385,7 +385,7 @@ class MsePySpaceReduceLambda(Frozen):
             dtype=float
         )
 
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/space/trace_matrix/Lambda.py b/msepy/space/trace_matrix/Lambda.py
index 0525c40..d8372b6 100644
--- a/msepy/space/trace_matrix/Lambda.py
+++ b/msepy/space/trace_matrix/Lambda.py
@@ -46,7 +46,7 @@ class MsePyTraceMatrixLambda(Frozen):
 
     def _m2_n2_k1_outer(self, degree):
         """"""
-        from msepy.main import base
+        from phyem.msepy.main import base
         meshes = base['meshes']
         boundary_sym = self._mesh.abstract.boundary()._sym_repr
         boundary_section = None
diff --git a/msepy/tools/linear_system/dynamic/_arr_par.py b/msepy/tools/linear_system/dynamic/_arr_par.py
index 51d7211..9792186 100644
--- a/msepy/tools/linear_system/dynamic/_arr_par.py
+++ b/msepy/tools/linear_system/dynamic/_arr_par.py
@@ -209,7 +209,7 @@ def Parse__trace_matrix(space_lin_repr, degree_str):
     degree = _str_degree_parser(degree_str)
     space = _find_space_through_pure_lin_repr(space_lin_repr)
     gm_space_1 = space.gathering_matrix(degree)
-    from src.spaces.operators import trace as space_trace
+    from phyem.src.spaces.operators import trace as space_trace
     trace_space = _find_space_through_pure_lin_repr(space_trace(space.abstract)._pure_lin_repr)
     gm_trace_0 = trace_space.gathering_matrix(degree)
     tM = space.trace_matrix(degree)
@@ -262,7 +262,7 @@ def Parse__pi_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.projection import MsePySpaceProjection
+    from phyem.msepy.space.addons.projection import MsePySpaceProjection
     pi = MsePySpaceProjection(from_space, to_space, from_d, to_d)
     return pi.matrix, None
 
@@ -273,7 +273,7 @@ def Parse__star_matrix(from_space, to_space, from_d, to_d):
     to_d = _str_degree_parser(to_d)
     from_space = _find_space_through_pure_lin_repr(from_space)
     to_space = _find_space_through_pure_lin_repr(to_space)
-    from msepy.space.addons.Hodge import MsePySpaceHodge
+    from phyem.msepy.space.addons.Hodge import MsePySpaceHodge
     H = MsePySpaceHodge(from_space, to_space, from_d, to_d)
     return H.matrix, None
 
diff --git a/msepy/tools/linear_system/dynamic/main.py b/msepy/tools/linear_system/dynamic/main.py
index 971f4b2..69cf925 100644
--- a/msepy/tools/linear_system/dynamic/main.py
+++ b/msepy/tools/linear_system/dynamic/main.py
@@ -347,7 +347,7 @@ class MsePyDynamicLinearSystem(Frozen):
 
     def pr(self, figsize=(10, 4)):
         """pr"""
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         plt.rcParams.update({
             "text.usetex": True,
             "font.family": "DejaVu Sans",
diff --git a/msepy/tools/linear_system/static/local/main.py b/msepy/tools/linear_system/static/local/main.py
index 363ca40..8c1761d 100644
--- a/msepy/tools/linear_system/static/local/main.py
+++ b/msepy/tools/linear_system/static/local/main.py
@@ -274,7 +274,7 @@ class MsePyStaticLocalLinearSystem(Frozen):
             plt.text(0.05, 0.47, text, ha='left', va='top', size=15)
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
         plt.tight_layout()
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/dynamic/main.py b/msepy/tools/nonlinear_system/dynamic/main.py
index b804cbc..f9772de 100644
--- a/msepy/tools/nonlinear_system/dynamic/main.py
+++ b/msepy/tools/nonlinear_system/dynamic/main.py
@@ -146,7 +146,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         """the test forms."""
         if self._tfs is None:
             self._tfs = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_tfs = self._mp_nls._mp._wf.test_forms
             for atf in abstract_tfs:
@@ -163,7 +163,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
     def unknowns(self):
         if self._unknowns is None:
             self._unknowns = list()
-            from msepy.main import base
+            from phyem.msepy.main import base
             msepy_forms = base['forms']
             abstract_ufs = self._mp_nls._mp._wf.unknowns
             for auf in abstract_ufs:
@@ -250,7 +250,7 @@ class MsePyDynamicNonLinearSystem(Frozen):
         plt.axis((0, 1, 0, 1))
         plt.axis('off')
         plt.text(0.05, 0.5, text + bc_text, ha='left', va='center', size=15)
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_DynamicNoneLinearSystem')
         else:
diff --git a/msepy/tools/nonlinear_system/static/customize.py b/msepy/tools/nonlinear_system/static/customize.py
index bfe8b48..cf62d5b 100644
--- a/msepy/tools/nonlinear_system/static/customize.py
+++ b/msepy/tools/nonlinear_system/static/customize.py
@@ -150,8 +150,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
@@ -229,8 +229,8 @@ class MsePyStaticNonlinearSystemCustomize(Frozen):
 
         # now we parse the boundary section
         the_msepy_boundary_section = None   # to store the found msepy boundary section
-        from msepy.manifold.main import MsePyManifold
-        from msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.main import base
         if boundary_section.__class__ is MsePyManifold:
 
             meshes = base['meshes']
diff --git a/msepy/tools/nonlinear_system/static/local.py b/msepy/tools/nonlinear_system/static/local.py
index 3847e3e..3382cea 100644
--- a/msepy/tools/nonlinear_system/static/local.py
+++ b/msepy/tools/nonlinear_system/static/local.py
@@ -285,7 +285,7 @@ class MsePyStaticLocalNonLinearSystem(Frozen):
 
         plt.title(f'Local-Linear-System evaluated @ [{self._str_args}]')
 
-        from src.config import _setting, _pr_cache
+        from phyem.src.config import _setting, _pr_cache
         if _setting['pr_cache']:
             _pr_cache(fig, filename='msepy_staticLocalNonLinearSystem')
         else:
diff --git a/msepy/tools/polynomials.py b/msepy/tools/polynomials.py
index b1d4129..184cace 100644
--- a/msepy/tools/polynomials.py
+++ b/msepy/tools/polynomials.py
@@ -297,7 +297,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
@@ -426,7 +426,7 @@ class _OneDimPolynomial(Frozen):
         if saveto is not None:
             plt.savefig(saveto, bbox_inches='tight')
         else:
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='MsePyMeshVisualization')
             else:
diff --git a/src/algebra/array.py b/src/algebra/array.py
index 1569463..bcc2d41 100644
--- a/src/algebra/array.py
+++ b/src/algebra/array.py
@@ -182,7 +182,7 @@ class AbstractArray(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, text, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
 
     def __repr__(self):
diff --git a/src/algebra/linear_system.py b/src/algebra/linear_system.py
index 884d534..335d6e1 100644
--- a/src/algebra/linear_system.py
+++ b/src/algebra/linear_system.py
@@ -88,7 +88,7 @@ class BlockMatrix(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -100,7 +100,7 @@ class BlockMatrix(Frozen):
         plt.axis('off')
         plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
         plt.tight_layout()
-        from src.config import _setting
+        from phyem.src.config import _setting
         plt.show(block=_setting['block'])
         return fig
 
@@ -168,7 +168,7 @@ class BlockColVector(Frozen):
 
     def pr(self, figsize=(8, 6)):
         """"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -178,7 +178,7 @@ class BlockColVector(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
@@ -290,7 +290,7 @@ class LinearSystem(Frozen):
 
     def pr(self, figsize=(12, 6)):
         """pr"""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -300,7 +300,7 @@ class LinearSystem(Frozen):
             plt.axis('off')
             plt.text(0.05, 0.5, symbolic, ha='left', va='center', size=15)
             plt.tight_layout()
-            from src.config import _setting
+            from phyem.src.config import _setting
             plt.show(block=_setting['block'])
             return fig
 
diff --git a/src/time_sequence.py b/src/time_sequence.py
index f7c49b7..ebf3ef0 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -331,7 +331,7 @@ class ConstantTimeSequence(TimeSequence):
 
     def pr(self, obj=None):
         """print this constant interval time sequence together with an object."""
-        from src.config import RANK, MASTER_RANK
+        from phyem.src.config import RANK, MASTER_RANK
         if RANK != MASTER_RANK:
             return
         else:
@@ -458,7 +458,7 @@ class ConstantTimeSequence(TimeSequence):
                 )
             # ----- save -----------------------------------------------------
             plt.tight_layout()
-            from src.config import _setting, _pr_cache
+            from phyem.src.config import _setting, _pr_cache
             if _setting['pr_cache']:
                 _pr_cache(fig, filename='constantTimeSequence')
             else:
diff --git a/src/wf/term/ap.py b/src/wf/term/ap.py
index f31f4a5..47da4ec 100644
--- a/src/wf/term/ap.py
+++ b/src/wf/term/ap.py
@@ -1835,7 +1835,7 @@ class _SimplePatternAPParser(Frozen):
 
         mass_matrix = _VarPar_M(A.space, A.space, A.degree, A.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         pi_B_space = codifferential(A.space)
         pi_B_degree = A.degree
 
@@ -1873,7 +1873,7 @@ class _SimplePatternAPParser(Frozen):
 
         M = _VarPar_M(B.space, B.space, B.degree, B.degree)
 
-        from src.spaces.operators import codifferential
+        from phyem.src.spaces.operators import codifferential
         star_A_space = codifferential(B.space)
         star_A_degree = A.degree  # This Hodge could be inaccurate.
 
diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 08587a8..3a21729 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -253,7 +253,7 @@ class T2dScalar(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -477,9 +477,9 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/functions/time_space/_2d/wrappers/vector.py b/tools/functions/time_space/_2d/wrappers/vector.py
index ba71e4e..2757384 100644
--- a/tools/functions/time_space/_2d/wrappers/vector.py
+++ b/tools/functions/time_space/_2d/wrappers/vector.py
@@ -269,7 +269,7 @@ class T2dVector(TimeSpaceFunctionBase):
             else:
                 bounds = mesh_or_bounds
 
-            from msepy.main import _quick_mesh
+            from phyem.msepy.main import _quick_mesh
             mesh = _quick_mesh(*bounds)
         elif mesh_or_bounds is None:
             mesh = self.mesh
@@ -774,9 +774,9 @@ class T2dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        from msepy.main import base
-        from msepy.manifold.main import MsePyManifold
-        from msepy.mesh.main import MsePyMesh
+        from phyem.msepy.main import base
+        from phyem.msepy.manifold.main import MsePyManifold
+        from phyem.msepy.mesh.main import MsePyMesh
         mesh = msepy_form.mesh
         assert mesh.__class__ is MsePyMesh, f"mesh must be a MsePyMesh!"
         assert boundary_msepy_manifold.__class__ is MsePyManifold, f"boundary_msepy_manifold must be a msepy manifold!"
diff --git a/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py b/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
index 3e7cf8e..bc78417 100644
--- a/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
+++ b/tools/legacy/serialRunners/INSTANCES/COMPONENTS/tir_drw.py
@@ -8,8 +8,8 @@ Aerodynamics, AE
 TU Delft
 """
 import inspect
-from tools.miscellaneous.timer import MyTimer
-from tools.frozen import Frozen
+from phyem.tools.miscellaneous.timer import MyTimer
+from phyem.tools.frozen import Frozen
 
 class TIR_DRW(Frozen):
     """ """
diff --git a/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py b/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
index e172260..00fb6f8 100644
--- a/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
+++ b/tools/legacy/serialRunners/INSTANCES/three_inputs_runner.py
@@ -16,11 +16,11 @@ import numpy as np
 import pandas as pd
 import matplotlib.pyplot as plt
 from time import localtime, strftime, time
-from tools.decorators.all import accepts
-from tools.legacy.serialRunners._runner_ import Runner
-from tools.legacy.serialRunners.INSTANCES.COMPONENTS.tir_drw import TIR_DRW
-from tools.legacy.serialRunners.INSTANCES.COMPONENTS.m_tir_tabular import M_TIR_Tabulate
-from src.config import SIZE
+from phyem.tools.decorators.all import accepts
+from phyem.tools.legacy.serialRunners._runner_ import Runner
+from phyem.tools.legacy.serialRunners.INSTANCES.COMPONENTS.tir_drw import TIR_DRW
+from phyem.tools.legacy.serialRunners.INSTANCES.COMPONENTS.m_tir_tabular import M_TIR_Tabulate
+from phyem.src.config import SIZE
 assert SIZE == 1, "Runners can only be run in single thread."
 
 class TimeIteration:
diff --git a/tools/miscellaneous/undirected_graph.py b/tools/miscellaneous/undirected_graph.py
index b6aa9b9..d5c94d0 100644
--- a/tools/miscellaneous/undirected_graph.py
+++ b/tools/miscellaneous/undirected_graph.py
@@ -217,7 +217,7 @@ class CoordinatedUndirectedGraph(Frozen):
             if saveto is not None and saveto != '':
                 plt.savefig(saveto, bbox_inches='tight', pad_inches=pad_inches)
             else:
-                from src.config import _setting, _pr_cache
+                from phyem.src.config import _setting, _pr_cache
                 if _setting['pr_cache']:
                     _pr_cache(fig, filename='msehtt_elements')
                 else:
-- 
2.43.0


From 7b93b606cc5220cb82cb294486bfd6e6bd08eb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 05/51] fix: spaces of different orientation could share one
 registry entry

---
 src/spaces/base.py                       | 4 ++--
 src/spaces/continuous/Lambda.py          | 4 +++-
 src/spaces/continuous/bundle.py          | 5 ++++-
 src/spaces/continuous/bundle_diagonal.py | 5 ++++-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/spaces/base.py b/src/spaces/base.py
index 258b81a..49d3099 100644
--- a/src/spaces/base.py
+++ b/src/spaces/base.py
@@ -27,8 +27,8 @@ class SpaceBase(Frozen):
         # abstract space, we store the last objective one with this attribute.
 
         self._mesh = mesh
-        assert orientation in ('inner', 'outer', 'i', 'o', None, 'None'), \
-            f"orientation={orientation} is wrong, must be one of ('inner', 'outer', 'i', 'o', None)."
+        assert orientation in ('inner', 'outer', 'i', 'o', None, 'None', 'unknown'), \
+            f"orientation={orientation} is wrong, must be one of ('inner', 'outer', 'i', 'o', None, 'unknown')."
         if orientation == 'i':
             orientation = 'inner'
         elif orientation == 'o':
diff --git a/src/spaces/continuous/Lambda.py b/src/spaces/continuous/Lambda.py
index b2a906c..75e6395 100644
--- a/src/spaces/continuous/Lambda.py
+++ b/src/spaces/continuous/Lambda.py
@@ -23,8 +23,10 @@ class ScalarValuedFormSpace(SpaceBase):
         assert isinstance(k, int) and 0 <= k <= mesh.ndim, f" k={k} illegal on {mesh}."
         self._k = k
         Lambda = r"\Lambda"
-        if orientation == 'outer':
+        if self.orientation == 'outer':
             self._sym_repr = rf"\widetilde{Lambda}" + r"^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
+        elif self.orientation == 'unknown':
+            self._sym_repr = rf"\underline{Lambda}" + r"^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
         else:
             self._sym_repr = rf"{Lambda}" + r"^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
         self._freeze()
diff --git a/src/spaces/continuous/bundle.py b/src/spaces/continuous/bundle.py
index 919d435..50658b3 100644
--- a/src/spaces/continuous/bundle.py
+++ b/src/spaces/continuous/bundle.py
@@ -12,9 +12,12 @@ class BundleValuedFormSpace(SpaceBase):
         assert isinstance(k, int) and 0 <= k <= mesh.ndim, f" k={k} illegal on {mesh}."
         self._k = k
 
-        if orientation == 'outer':
+        if self.orientation == 'outer':
             self._sym_repr = r"\widetilde{\mathcal{B}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
+        elif self.orientation == 'unknown':
+            self._sym_repr = r"\underline{\mathcal{B}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
+
         else:
             self._sym_repr = r"\mathcal{B}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
diff --git a/src/spaces/continuous/bundle_diagonal.py b/src/spaces/continuous/bundle_diagonal.py
index ab891e2..dbb92f8 100644
--- a/src/spaces/continuous/bundle_diagonal.py
+++ b/src/spaces/continuous/bundle_diagonal.py
@@ -12,9 +12,12 @@ class DiagonalBundleValuedFormSpace(SpaceBase):
         assert isinstance(k, int) and k in (0, mesh.ndim), f" k={k} illegal on {mesh}."
         self._k = k
 
-        if orientation == 'outer':
+        if self.orientation == 'outer':
             self._sym_repr = r"\widetilde{\mathcal{S}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
+        elif self.orientation == 'unknown':
+            self._sym_repr = r"\underline{\mathcal{S}}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
+
         else:
             self._sym_repr = r"\mathcal{S}^{(" + str(self.k) + r')}' + rf"({self.manifold._sym_repr})"
 
-- 
2.43.0


From f538f8ebc2952ffe3fa6a99b359a3de3328a77ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 06/51] fix: adding real constant scalars such as 1/2 parsed
 their LaTeX

---
 src/form/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/form/parameters.py b/src/form/parameters.py
index 6b99b05..dbee76a 100644
--- a/src/form/parameters.py
+++ b/src/form/parameters.py
@@ -161,7 +161,7 @@ class ConstantScalar0Form(Frozen):
         """self + other"""
         if isinstance(other, (int, float)):
             if self.is_real():
-                number = float(self._sym_repr) + other
+                number = self._value + other
                 if int(number) == number:
                     number = int(number)
                 else:
@@ -175,7 +175,7 @@ class ConstantScalar0Form(Frozen):
 
         elif other.__class__.__name__ == self.__class__.__name__:
             if other.is_real():
-                number = float(other._sym_repr)
+                number = other._value
                 return self + number
             else:
                 op_lin_repr = _global_operator_lin_repr_setting['plus']
@@ -190,7 +190,7 @@ class ConstantScalar0Form(Frozen):
         """other + self """
         if isinstance(other, (int, float)):
             if self.is_real():
-                number = float(self._sym_repr) + other
+                number = self._value + other
                 if int(number) == number:
                     number = int(number)
                 else:
-- 
2.43.0


From 203fe60a0fdd4ebd397d32ae7d1e7defded84845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 07/51] fix: ambiguous representation of f-(g-h) and of (a+b)*f

---
 src/form/main.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/form/main.py b/src/form/main.py
index a37c94e..a11b644 100644
--- a/src/form/main.py
+++ b/src/form/main.py
@@ -597,6 +597,12 @@ class Form(Frozen):
             operator_lin = _global_operator_lin_repr_setting['minus']
             operator_sym = _global_operator_sym_repr_setting['minus']
 
+            if not other.is_root():  # self - (f - g) is not self - f - g
+                other_lr = r'\{' + other_lr + r'\}'
+                other_sr = r'\left(' + other_sr + r'\right)'
+            else:
+                pass
+
             lin_repr = self_lr + operator_lin + other_lr
             sym_repr = self_sr + operator_sym + other_sr
 
@@ -625,16 +631,17 @@ class Form(Frozen):
             lr = self._lin_repr
             sr = self._sym_repr
             cs = other
+            if cs.is_root():
+                cs_lr, cs_sr = cs._lin_repr, cs._sym_repr
+            else:
+                cs_lr = r'\{' + cs._lin_repr + r'\}'
+                cs_sr = r'\left(' + cs._sym_repr + r'\right)'
             if self.is_root():
-                lr = cs._lin_repr + operator_lin + lr
-                sr = cs._sym_repr + sr
+                lr = cs_lr + operator_lin + lr
+                sr = cs_sr + sr
             else:
-                if cs.is_root():
-                    lr = cs._lin_repr + operator_lin + r'\{' + lr + r'\}'
-                    sr = cs._sym_repr + r'\left(' + sr + r'\right)'
-                else:
-                    lr = r'\{' + cs._lin_repr + r'\}' + operator_lin + r'\{' + lr + r'\}'
-                    sr = r'\left(' + cs._sym_repr + r'\right)' + r'\left(' + sr + r'\right)'
+                lr = cs_lr + operator_lin + r'\{' + lr + r'\}'
+                sr = cs_sr + r'\left(' + sr + r'\right)'
 
             f = Form(
                 self.space,         # space
-- 
2.43.0


From ab288a3feaa91435dd0efd8c0acc97d9617b1c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:34 +0000
Subject: [PATCH 08/51] fix: constant time sequence refused an instant rounded
 just below an integer

---
 src/time_sequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index ebf3ef0..080fb06 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -302,7 +302,7 @@ class ConstantTimeSequence(TimeSequence):
         """
         assert isinstance(k, (int, float)), f"specific time sequence must use number for time instant."
         time = self.t_0 + k * self._dt
-        remainder = round(k % 1, 8)
+        remainder = round(k % 1, 8) % 1  # k just below an integer rounds to that integer
         if time < self.t_0 - self._dt:  # leave a dt as lower margin
             raise TimeInstantError(
                 f"t[{k}] = {time} is lower than t0: {self.t_0} - dt: {self._dt}.")
-- 
2.43.0


From 1253f63ce44f2fff8e97f4706a06f6208b7cb792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 09/51] fix: interval between instants of two time sequences
 was answered from the cache

---
 src/time_sequence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/time_sequence.py b/src/time_sequence.py
index 080fb06..8dc0ae5 100644
--- a/src/time_sequence.py
+++ b/src/time_sequence.py
@@ -107,6 +107,8 @@ class AbstractTimeSequence(Frozen):
             te = ke
         else:
             te = self[ke]
+        assert ts.time_sequence is self and te.time_sequence is self, \
+            f"time instants of an interval must belong to this time sequence."
 
         lin_repr = self._pure_lin_repr + r"[" + ts.k + "," + te.k + "]"
         lin_repr, pure_lin_repr = _parse_lin_repr('abstract_time_interval', lin_repr)
-- 
2.43.0


From adbd3e6a13258df72feb0fbb27dc330022cbef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 10/51] fix: a sum starting with a time derivative broke the
 temporal discretization

---
 src/wf/term/pattern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wf/term/pattern.py b/src/wf/term/pattern.py
index e054c77..49b4568 100644
--- a/src/wf/term/pattern.py
+++ b/src/wf/term/pattern.py
@@ -25,7 +25,7 @@ def _inner_simpler_pattern_examiner_scalar_valued_forms(factor, f0, f1, extra_in
         lin_td = _global_operator_lin_repr_setting['time_derivative']
         if f0._lin_repr[:len(lin_td)] == lin_td:
             bf0 = _find_form(f0._lin_repr, upon=time_derivative)
-            if bf0.is_root and _parse_related_time_derivative(f1) == list():
+            if bf0 is not None and bf0.is_root and _parse_related_time_derivative(f1) == list():
                 # >>>>>>>>>>>>>>>>>>>> ['(pt,)'] <<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<<
                 return _simple_patterns['(pt,)'], {
                     'rsf0': bf0,   # root-scalar-form-0
@@ -1159,7 +1159,7 @@ def _inner_simpler_pattern_examiner_bundle_valued_forms(factor, f0, f1, extra_in
         lin_td = _global_operator_lin_repr_setting['time_derivative']
         if f0._lin_repr[:len(lin_td)] == lin_td:
             bf0 = _find_form(f0._lin_repr, upon=time_derivative)
-            if bf0.is_root and _parse_related_time_derivative(f1) == list():
+            if bf0 is not None and bf0.is_root and _parse_related_time_derivative(f1) == list():
                 return _simple_patterns['(pt,)'], {
                     'rsf0': bf0,   # root-scalar-form-0
                     'rsf1': f1,    # root-scalar-form-1
-- 
2.43.0


From 45419ad4edc1d5ea9eb3465a1a6811fa62d4380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 11/51] fix: differentiating a term in time dropped its factor

---
 src/ode/discretize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode/discretize.py b/src/ode/discretize.py
index f77ff45..3607cc6 100644
--- a/src/ode/discretize.py
+++ b/src/ode/discretize.py
@@ -69,7 +69,7 @@ class OrdinaryDifferentialEquationDiscretize(Frozen):
                 bf0_ke = bf0 @ dt.end
                 bf1 = ptm._f1
                 term0 = (bf0_ke - bf0_ks) / dt
-                diff_term = (ptm.__class__(term0, bf1), '+')
+                diff_term = (ptm.__class__(term0, bf1, factor=ptm._factor), '+')
                 self._eq_terms[index] = [diff_term, ]
             else:
                 raise NotImplementedError(pattern)
-- 
2.43.0


From 902d7d58ac95735e54333c1678c512b0c4960bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 12/51] fix: testing c*a+b gave c times the tested sum a+b

---
 src/pde.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pde.py b/src/pde.py
index da71e30..75f4473 100644
--- a/src/pde.py
+++ b/src/pde.py
@@ -926,6 +926,12 @@ class PartialDifferentialEquations(Frozen):
                                     from phyem.src.form.others import _find_form
                                     the_form = _find_form(root_form_lin_repr)
 
+                                    if root_form_lin_repr == the_end_form and not the_form.is_root():
+                                        # the factor only multiplies the first form of a composite form
+                                        raise NotImplementedError(term._lin_repr)
+                                    else:
+                                        pass
+
                                     sp_lin_repr = front_form_lin_repr
                                     from phyem.src.form.parameters import _find_root_scalar_parameter
 
-- 
2.43.0


From b25929cb74765f315d6c52e289bf908f8baa40f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 13/51] fix: a natural boundary condition found entries of
 forms whose name begins alike

---
 src/wf/mp/linear_system_bc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wf/mp/linear_system_bc.py b/src/wf/mp/linear_system_bc.py
index a12a3d8..4c63b65 100644
--- a/src/wf/mp/linear_system_bc.py
+++ b/src/wf/mp/linear_system_bc.py
@@ -36,11 +36,12 @@ class _NaturalBoundaryCondition(_BoundaryCondition):
             provided_root_form = provided_general_root_form
         else:
             the_abstract_root_form = None
+            template = _VarSetting_boundary_dp_vector[1].split(_sep)[1]
             evaluate_lin = _form_evaluate_at_repr_setting['lin']
             for _pure_lin_repr in _global_root_forms_lin_dict:
                 root_form = _global_root_forms_lin_dict[_pure_lin_repr]
                 if evaluate_lin in root_form._pure_lin_repr:
-                    if root_form._pure_lin_repr in general_or_abstract:
+                    if template.replace('{f0}', root_form._pure_lin_repr) == general_or_abstract:
                         the_abstract_root_form = root_form
                 else:
                     pass
@@ -158,7 +159,8 @@ class _NaturalBoundaryCondition(_BoundaryCondition):
                 for i, index in enumerate(b):
                     terms, signs = b(index)
                     for j, term in enumerate(terms):
-                        if target in term._lin_repr:
+                        # the name of the form must end here: it may be the beginning of that of another one.
+                        if target + ']' in term._lin_repr or target + evaluate in term._lin_repr:
                             found_ij.append((i, j, root_form))
 
                             general_or_abstract_in_b = term._lin_repr.split(_sep)[1]
-- 
2.43.0


From 06d52c29d899a8b880f3f04530351b4d1037a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 14/51] fix: a chained gathering matrix could be that of
 matrices which no longer exist

The caches of chained gathering matrices and of the places of dofs were keyed by the memory
addresses of the gathering matrices, which are used again after these are gone.
---
 msepy/tools/gathering_matrix.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/msepy/tools/gathering_matrix.py b/msepy/tools/gathering_matrix.py
index a6e3e5e..254996d 100644
--- a/msepy/tools/gathering_matrix.py
+++ b/msepy/tools/gathering_matrix.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+from itertools import count
+
 import numpy as np
 
 from phyem.tools.frozen import Frozen
@@ -14,6 +16,10 @@ _cgm_cache = {
 
 _msepy_rgm_find_cache = {}
 
+# The caches above outlive the gathering matrices. So a memory address, which could be used again by a
+# later gathering matrix, does not identify a gathering matrix in them; a serial number does.
+_serial_number = count()
+
 
 class RegularGatheringMatrix(Frozen):
     """2-d-array: 0-axis -> #elements, 1-axis: local-numbering, values -> global-numbering."""
@@ -21,6 +27,7 @@ class RegularGatheringMatrix(Frozen):
     def __init__(self, gms, redundant_dof_setting=None, chaining_method=1):
         """"""
         self._num_dofs = None
+        self._serial = next(_serial_number)
         if isinstance(gms, np.ndarray):
             self._composite = 1
             assert np.ndim(gms) == 2
@@ -29,7 +36,7 @@ class RegularGatheringMatrix(Frozen):
             self._redundant_dof_setting = self._check_redundant_dof_setting(
                 redundant_dof_setting
             )
-            _find_cache_signature = self.__repr__()
+            _find_cache_signature = self._signature
 
         elif isinstance(gms, (list, tuple)):
             # we merge some gathering matrices into one
@@ -44,7 +51,7 @@ class RegularGatheringMatrix(Frozen):
             for gm in gms:
                 assert gm.__class__ is RegularGatheringMatrix, f"can only chain msepy gm."
 
-                signatures.append(gm.__repr__())
+                signatures.append(gm._signature)
 
                 if num_elements is None:
                     num_elements = gm.num_elements
@@ -52,7 +59,7 @@ class RegularGatheringMatrix(Frozen):
                     assert num_elements == gm.num_elements
                 num_local_dofs += gm.num_local_dofs
 
-            signatures = '-o-'.join(signatures)
+            signatures = f"{chaining_method}: " + '-o-'.join(signatures)
 
             if signatures == _cgm_cache['signatures']:
                 cgm = _cgm_cache['cgm']
@@ -227,6 +234,14 @@ class RegularGatheringMatrix(Frozen):
         """
         return self.shape[0]
 
+    @property
+    def _signature(self):
+        """The key of this gathering matrix in the caches."""
+        if self._composite == 1:
+            return f"gm{self._serial}"
+        else:
+            return '(' + '-o-'.join([gm._signature for gm in self._gms]) + ')'
+
     def __repr__(self):
         """repr"""
         if self._composite == 1:
-- 
2.43.0


From e048c5c1193e1822bd0a62d9c1021ef092183df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:29 +0000
Subject: [PATCH 15/51] fix: the boundary faces of 3-d 2-forms of the msepy
 implementation shared their degrees of freedom

The element map indicates a boundary by -1, not by a string. So a face on the boundary was taken for a
face shared with the last element.
---
 msepy/space/gathering_matrix/Lambda.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index a0bb713..3d16470 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -60,7 +60,7 @@ class MsePyGatheringMatrixLambda(Frozen):
         for n in range(self._mesh.elements._num):  # currently, we are numbering nth element.
             # we first see the north side__________________________________________
             what_north = element_map[n][0]
-            if isinstance(what_north, str):
+            if what_north == -1:
                 # the north side of nth element is on domain boundary. So we just number it.
                 gn0[n, 0, :, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['N']).reshape(
@@ -86,7 +86,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += (p[0]-1)*p[1]*p[2]
             # next, we look at south side__________________________________________
             what_south = element_map[n][1]
-            if isinstance(what_south, str):
+            if what_south == -1:
                 # the south side of nth element is on domain boundary. So we just number it.
                 gn0[n, -1, :, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['S']).reshape(
@@ -108,7 +108,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # we then look at the west side________________________________________
             what_west = element_map[n][2]
-            if isinstance(what_west, str):
+            if what_west == -1:
                 # the west side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, 0, :] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['W']).reshape(
@@ -134,7 +134,7 @@ class MsePyGatheringMatrixLambda(Frozen):
             current_number += p[0]*(p[1]-1)*p[2]
             # next, we look at east side___________________________________________
             what_east = element_map[n][3]
-            if isinstance(what_east, str):
+            if what_east == -1:
                 # the east side of nth element is on domain boundary. So we just number it.
                 gn1[n, :, -1, :] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['E']).reshape(
@@ -155,7 +155,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 raise Exception()
             # we then look at the back side________________________________________
             what_back = element_map[n][4]
-            if isinstance(what_back, str):
+            if what_back == -1:
                 # the back side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, 0] = np.arange(current_number,
                                             current_number + num_basis_on_sides_dict['B']).reshape(
@@ -182,7 +182,7 @@ class MsePyGatheringMatrixLambda(Frozen):
 
             # next, we look at front side__________________________________________
             what_front = element_map[n][5]
-            if isinstance(what_front, str):
+            if what_front == -1:
                 # the front side of nth element is on domain boundary. So we just number it.
                 gn2[n, :, :, -1] = np.arange(current_number,
                                              current_number + num_basis_on_sides_dict['F']).reshape(
-- 
2.43.0


From 121a31d0728c6e4bf66e06c531635deced5e83a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 16/51] fix: dofs on a side an element shares with itself were
 numbered wrongly

With one element along a periodic direction, the element is its own neighbor. Its sides were not numbered
(1-d, 2-d), or its edges were not identified (3-d).
---
 msepy/mesh/topology/main.py            | 41 +++++++++-----------------
 msepy/space/gathering_matrix/Lambda.py | 23 ++++++++-------
 msepy/space/gathering_matrix/bundle.py |  2 +-
 3 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/msepy/mesh/topology/main.py b/msepy/mesh/topology/main.py
index f3dd9fa..5c71120 100644
--- a/msepy/mesh/topology/main.py
+++ b/msepy/mesh/topology/main.py
@@ -251,33 +251,20 @@ class MsePyMeshTopology(Frozen):
         s_n2i = {'N': 0, 'S': 1, 'W': 2, 'E': 3, 'B': 4, 'F': 5}
         s_pair = {'N': 'S', 'S': 'N', 'W': 'E', 'E': 'W', 'B': 'F', 'F': 'B'}
 
-        _tuple_ = (str(i)+'-'+edge_name,)
-
-        s1, s2 = edge_name
-        # Now we go along this two direction to reach element i or boundary
-        location = self._mesh.elements.map[i][s_n2i[s1]]
-
-        num_while = 0
-        while location != -1 and location != i:
-            num_while += 1
-            _tuple_ += (str(location)+'-'+s_pair[s1]+s2,)
-            s1, s2 = s2, s_pair[s1]
-            location = self._mesh.elements.map[location][s_n2i[s1]]
-            if num_while > 3:
-                raise Exception(' <Mesh> <Geometry> : mesh is wrong')
-        if location == -1:  # if the while loop stops because reaching the boundary.
-            s2, s1 = edge_name  # then perform the same while loop to find every thing but from another direction.
-            location = self._mesh.elements.map[i][s_n2i[s1]]
-            num_while = 0
-            while location != -1 and location != i:
-                num_while += 1
-                _tuple_ += (str(location)+'-'+s_pair[s1]+s2,)
-                s1, s2 = s2, s_pair[s1]
-                location = self._mesh.elements.map[location][s_n2i[s1]]
-                if num_while > 3:
-                    raise Exception(' <Mesh> <Geometry> : mesh is wrong')
-            if location == -1:  # the while loop stops because reaching the boundary again
-                pass
+        # We go to the neighbors across both sides the edge is on, from each element we reach. Note that
+        # an element can be its own neighbor, through the periodicity.
+        em = self._mesh.elements.map
+        _reached_ = [(i, *edge_name), ]
+        for element, s1, s2 in _reached_:
+            for cross, along in ((s1, s2), (s2, s1)):
+                location = em[element][s_n2i[cross]]
+                if location == -1:  # reaching the boundary
+                    continue
+                if (location, s_pair[cross], along) in _reached_ or (location, along, s_pair[cross]) in _reached_:
+                    continue
+                _reached_.append((location, s_pair[cross], along))
+
+        _tuple_ = [f"{element}-{s1}{s2}" for element, s1, s2 in _reached_]
 
         _edge_index_to_name_ = {
             0: 'WB', 1: 'EB', 2: 'WF', 3: 'EF', 4: 'NB', 5: 'SB',
diff --git a/msepy/space/gathering_matrix/Lambda.py b/msepy/space/gathering_matrix/Lambda.py
index 3d16470..1daa5e7 100644
--- a/msepy/space/gathering_matrix/Lambda.py
+++ b/msepy/space/gathering_matrix/Lambda.py
@@ -70,7 +70,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 # there is another element at nth element's north, and it is already numbered.
                 # So we just take the numbering from it.
                 gn0[n, 0, :, :] = gn0[what_north, -1, :, :]
-            elif what_north > n:
+            elif what_north >= n:
                 # there is another element at nth element's north
                 # but, it is not numbered, so we number nth element's north
                 gn0[n, 0, :, :] = np.arange(current_number,
@@ -92,7 +92,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                                              current_number + num_basis_on_sides_dict['S']).reshape(
                     (p[1], p[2]), order='F')
                 current_number += num_basis_on_sides_dict['S']
-            elif what_south < n:
+            elif what_south <= n:
                 # there is another element at nth element's south, and it is already numbered.
                 # So we just take the numbering from it.
                 gn0[n, -1, :, :] = gn0[what_south, 0, :, :]
@@ -118,7 +118,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 # there is another element at nth element's west, and it is already numbered.
                 # So we just take the numbering from it.
                 gn1[n, :, 0, :] = gn1[what_west, :, -1, :]
-            elif what_west > n:
+            elif what_west >= n:
                 # there is another element at nth element's west,
                 # but, it is not numbered, so we number nth element's west.
                 gn1[n, :, 0, :] = np.arange(current_number,
@@ -140,7 +140,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                                              current_number + num_basis_on_sides_dict['E']).reshape(
                     (p[0], p[2]), order='F')
                 current_number += num_basis_on_sides_dict['E']
-            elif what_east < n:
+            elif what_east <= n:
                 # there is another element at nth element's east, and it is already numbered.
                 # So we just take the numbering from it.
                 gn1[n, :, -1, :] = gn1[what_east, :, 0, :]
@@ -165,7 +165,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                 # there is another element at nth element's back and it is already numbered.
                 # So we just take the numbering from it.
                 gn2[n, :, :, 0] = gn2[what_back, :, :, -1]
-            elif what_back > n:
+            elif what_back >= n:
                 # there is another element at nth element's back,
                 # but, it is not numbered, so we number nth element's back.
                 gn2[n, :, :, 0] = np.arange(current_number,
@@ -188,7 +188,7 @@ class MsePyGatheringMatrixLambda(Frozen):
                                              current_number + num_basis_on_sides_dict['F']).reshape(
                     (p[0], p[1]), order='F')
                 current_number += num_basis_on_sides_dict['F']
-            elif what_front < n:
+            elif what_front <= n:
                 # there is another element at nth element's front, and it is already numbered.
                 # So we just take the numbering from it.
                 gn2[n, :, :, -1] = gn2[what_front, :, :, 0]
@@ -1128,7 +1128,8 @@ class MsePyGatheringMatrixLambda(Frozen):
                         attached_edge_id = edge_pair[numbering_edge_id]
                         assert edge_pair[attached_edge_id] == numbering_edge_id
                         # __ another mesh element is not numbered yet _____________
-                        if attached_element > numbering_element:
+                        if attached_element > numbering_element or (
+                                attached_element == numbering_element and number_where in ('U', 'L')):
                             # the attached_edge can not be numbered, we number numbering_edge
                             axis, start_end = _dict_[number_where]
                             if axis == 0:
@@ -1209,7 +1210,8 @@ class MsePyGatheringMatrixLambda(Frozen):
                         attached_edge_id = edge_pair[numbering_edge_id]
                         assert edge_pair[attached_edge_id] == numbering_edge_id
                         # ___ another mesh element is not numbered yet _____________
-                        if attached_element > numbering_element:
+                        if attached_element > numbering_element or (
+                                attached_element == numbering_element and number_where in ('U', 'L')):
                             # the attached_edge can not be numbered, we number numbering_edge
                             axis, start_end = _dict_[number_where]
                             if axis == 0:
@@ -1297,7 +1299,8 @@ class MsePyGatheringMatrixLambda(Frozen):
                         attached_edge_id = edge_pair[numbering_edge_id]
                         assert edge_pair[attached_edge_id] == numbering_edge_id
                         # ___ another mesh element is not numbered yet _____________
-                        if attached_element > numbering_element:
+                        if attached_element > numbering_element or (
+                                attached_element == numbering_element and number_where in ('U', 'L')):
                             # the attached_edge can not be numbered, we number numbering_edge
                             axis, start_end = _dict_[number_where]
                             if axis == 0:
@@ -1415,7 +1418,7 @@ class MsePyGatheringMatrixLambda(Frozen):
         for e, mp in enumerate(element_map):
             # number x- node
             x_m = mp[0]
-            if x_m == -1 or x_m > e:  # x- side of element #e is a boundary or not numbered
+            if x_m == -1 or x_m >= e:  # x- side of element #e is a boundary or not numbered
                 gm[e, 0] = current
                 current += 1
             else:
diff --git a/msepy/space/gathering_matrix/bundle.py b/msepy/space/gathering_matrix/bundle.py
index 7f75339..989597d 100644
--- a/msepy/space/gathering_matrix/bundle.py
+++ b/msepy/space/gathering_matrix/bundle.py
@@ -116,7 +116,7 @@ class MsePyGatheringMatrixBundle(Frozen):
         for e, mp in enumerate(element_map):
             # number x- node
             x_m = mp[0]
-            if x_m == -1 or x_m > e:  # x- side of element #e is a boundary or not numbered
+            if x_m == -1 or x_m >= e:  # x- side of element #e is a boundary or not numbered
                 gm[e, 0] = current
                 current += 1
             else:
-- 
2.43.0


From 56b7fdc232e4b6c9ac068b3946665808b95e01b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:49 +0000
Subject: [PATCH 17/51] fix: gathering and incidence matrices of msepy bundle
 spaces could not be made

They call the methods of the scalar-valued ones by names these no longer have. And in 1-d, the degree of a
bundle is a nested list.
---
 msepy/space/gathering_matrix/bundle.py | 32 ++++++++++-----------
 msepy/space/incidence_matrix/bundle.py | 40 +++++++++++++-------------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/msepy/space/gathering_matrix/bundle.py b/msepy/space/gathering_matrix/bundle.py
index 989597d..383ebaf 100644
--- a/msepy/space/gathering_matrix/bundle.py
+++ b/msepy/space/gathering_matrix/bundle.py
@@ -49,27 +49,27 @@ class MsePyGatheringMatrixBundle(Frozen):
     def _n3_k2(self, p):
         """"""
         p0, p1, p2 = p
-        x_gm = self._space.gathering_matrix.Lambda._n3_k2(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n3_k2(p1)
-        z_gm = self._space.gathering_matrix.Lambda._n3_k2(p2)
+        x_gm = self._space.gathering_matrix.Lambda._m3_n3_k2(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m3_n3_k2(p1)
+        z_gm = self._space.gathering_matrix.Lambda._m3_n3_k2(p2)
         gm = RegularGatheringMatrix([x_gm, y_gm, z_gm])
         return gm
 
     def _n3_k1(self, p):
         """"""
         p0, p1, p2 = p
-        x_gm = self._space.gathering_matrix.Lambda._n3_k1(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n3_k1(p1)
-        z_gm = self._space.gathering_matrix.Lambda._n3_k1(p2)
+        x_gm = self._space.gathering_matrix.Lambda._m3_n3_k1(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m3_n3_k1(p1)
+        z_gm = self._space.gathering_matrix.Lambda._m3_n3_k1(p2)
         gm = RegularGatheringMatrix([x_gm, y_gm, z_gm])
         return gm
 
     def _n3_k0(self, p):
         """"""
         p0, p1, p2 = p
-        x_gm = self._space.gathering_matrix.Lambda._n3_k0(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n3_k0(p1)
-        z_gm = self._space.gathering_matrix.Lambda._n3_k0(p2)
+        x_gm = self._space.gathering_matrix.Lambda._m3_n3_k0(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m3_n3_k0(p1)
+        z_gm = self._space.gathering_matrix.Lambda._m3_n3_k0(p2)
         gm = RegularGatheringMatrix([x_gm, y_gm, z_gm])
         return gm
 
@@ -86,24 +86,24 @@ class MsePyGatheringMatrixBundle(Frozen):
     def _n2_k1_inner(self, p):
         """"""
         p0, p1 = p
-        x_gm = self._space.gathering_matrix.Lambda._n2_k1_inner(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n2_k1_inner(p1)
+        x_gm = self._space.gathering_matrix.Lambda._m2_n2_k1_inner(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m2_n2_k1_inner(p1)
         gm = RegularGatheringMatrix([x_gm, y_gm])
         return gm
 
     def _n2_k1_outer(self, p):
         """"""
         p0, p1 = p
-        x_gm = self._space.gathering_matrix.Lambda._n2_k1_outer(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n2_k1_outer(p1)
+        x_gm = self._space.gathering_matrix.Lambda._m2_n2_k1_outer(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m2_n2_k1_outer(p1)
         gm = RegularGatheringMatrix([x_gm, y_gm])
         return gm
 
     def _n2_k0(self, p):
         """"""
         p0, p1 = p
-        x_gm = self._space.gathering_matrix.Lambda._n2_k0(p0)
-        y_gm = self._space.gathering_matrix.Lambda._n2_k0(p1)
+        x_gm = self._space.gathering_matrix.Lambda._m2_n2_k0(p0)
+        y_gm = self._space.gathering_matrix.Lambda._m2_n2_k0(p1)
         gm = RegularGatheringMatrix([x_gm, y_gm])
         return gm
 
@@ -112,7 +112,7 @@ class MsePyGatheringMatrixBundle(Frozen):
         element_map = self._mesh.elements.map
         gm = - np.ones((self._mesh.elements._num, self._space.num_local_dofs.bundle._n1_k0(p)), dtype=int)
         current = 0
-        p = p[0]
+        p = p[0][0]
         for e, mp in enumerate(element_map):
             # number x- node
             x_m = mp[0]
diff --git a/msepy/space/incidence_matrix/bundle.py b/msepy/space/incidence_matrix/bundle.py
index 9d4e292..8fbb6ad 100644
--- a/msepy/space/incidence_matrix/bundle.py
+++ b/msepy/space/incidence_matrix/bundle.py
@@ -41,12 +41,12 @@ class MsePyIncidenceMatrixBundle(Frozen):
         """"""
         E = np.zeros(
             (
-                self._space.num_local_dofs.Lambda._n1_k1(p),
-                self._space.num_local_dofs.Lambda._n1_k0(p)
+                self._space.num_local_dofs.Lambda._m1_n1_k1(p[0]),
+                self._space.num_local_dofs.Lambda._m1_n1_k0(p[0])
             ),
             dtype=int
         )
-        for i in range(p[0]):
+        for i in range(p[0][0]):
             E[i, i] = -1   # x-
             E[i, i+1] = 1  # x+
         return csr_matrix(E)
@@ -54,9 +54,9 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n3_k0(self, p):
         """"""
         p0, p1, p2 = p
-        E00 = self._space.incidence_matrix.Lambda._n3_k0(p0)
-        E11 = self._space.incidence_matrix.Lambda._n3_k0(p1)
-        E22 = self._space.incidence_matrix.Lambda._n3_k0(p2)
+        E00 = self._space.incidence_matrix.Lambda._m3_n3_k0(p0)
+        E11 = self._space.incidence_matrix.Lambda._m3_n3_k0(p1)
+        E22 = self._space.incidence_matrix.Lambda._m3_n3_k0(p2)
 
         return bmat([
             [E00, None, None],
@@ -67,9 +67,9 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n3_k1(self, p):
         """"""
         p0, p1, p2 = p
-        E00 = self._space.incidence_matrix.Lambda._n3_k1(p0)
-        E11 = self._space.incidence_matrix.Lambda._n3_k1(p1)
-        E22 = self._space.incidence_matrix.Lambda._n3_k1(p2)
+        E00 = self._space.incidence_matrix.Lambda._m3_n3_k1(p0)
+        E11 = self._space.incidence_matrix.Lambda._m3_n3_k1(p1)
+        E22 = self._space.incidence_matrix.Lambda._m3_n3_k1(p2)
 
         return bmat([
             [E00, None, None],
@@ -80,9 +80,9 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n3_k2(self, p):
         """"""
         p0, p1, p2 = p
-        E00 = self._space.incidence_matrix.Lambda._n3_k2(p0)
-        E11 = self._space.incidence_matrix.Lambda._n3_k2(p1)
-        E22 = self._space.incidence_matrix.Lambda._n3_k2(p2)
+        E00 = self._space.incidence_matrix.Lambda._m3_n3_k2(p0)
+        E11 = self._space.incidence_matrix.Lambda._m3_n3_k2(p1)
+        E22 = self._space.incidence_matrix.Lambda._m3_n3_k2(p2)
 
         return bmat([
             [E00, None, None],
@@ -93,8 +93,8 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n2_k0_outer(self, p):
         """"""
         p0, p1 = p
-        E00 = self._space.incidence_matrix.Lambda._n2_k0_outer(p0)
-        E11 = self._space.incidence_matrix.Lambda._n2_k0_outer(p1)
+        E00 = self._space.incidence_matrix.Lambda._m2_n2_k0_outer(p0)
+        E11 = self._space.incidence_matrix.Lambda._m2_n2_k0_outer(p1)
 
         return bmat([
             [E00, None],
@@ -105,8 +105,8 @@ class MsePyIncidenceMatrixBundle(Frozen):
         """"""
         p0, p1 = p
 
-        E00 = self._space.incidence_matrix.Lambda._n2_k0_inner(p0)
-        E11 = self._space.incidence_matrix.Lambda._n2_k0_inner(p1)
+        E00 = self._space.incidence_matrix.Lambda._m2_n2_k0_inner(p0)
+        E11 = self._space.incidence_matrix.Lambda._m2_n2_k0_inner(p1)
 
         return bmat([
             [E00, None],
@@ -116,8 +116,8 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n2_k1_outer(self, p):
         """"""
         p0, p1 = p
-        E00 = self._space.incidence_matrix.Lambda._n2_k1_outer(p0)
-        E11 = self._space.incidence_matrix.Lambda._n2_k1_outer(p1)
+        E00 = self._space.incidence_matrix.Lambda._m2_n2_k1_outer(p0)
+        E11 = self._space.incidence_matrix.Lambda._m2_n2_k1_outer(p1)
 
         return bmat([
             [E00, None],
@@ -127,8 +127,8 @@ class MsePyIncidenceMatrixBundle(Frozen):
     def _n2_k1_inner(self, p):
         """"""
         p0, p1 = p
-        E00 = self._space.incidence_matrix.Lambda._n2_k1_inner(p0)
-        E11 = self._space.incidence_matrix.Lambda._n2_k1_inner(p1)
+        E00 = self._space.incidence_matrix.Lambda._m2_n2_k1_inner(p0)
+        E11 = self._space.incidence_matrix.Lambda._m2_n2_k1_inner(p1)
 
         return bmat([
             [E00, None],
-- 
2.43.0


From 5fa4915acf764cfb4dabaa88b6a36087626dfba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 18/51] fix: customizing a local vector must not change the
 data it is made of

---
 msepy/tools/vector/static/local.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msepy/tools/vector/static/local.py b/msepy/tools/vector/static/local.py
index 5fa9756..61d6f0b 100644
--- a/msepy/tools/vector/static/local.py
+++ b/msepy/tools/vector/static/local.py
@@ -286,11 +286,11 @@ class MsePyStaticLocalVectorCustomize(Frozen):
         dof = list(elements_local_rows.keys())[0]
         elements, local_rows = elements_local_rows[dof]
         element, local_row = elements[0], local_rows[0]
-        data = self._v[element]
+        data = self._v[element].copy()  # never touch the data, which may be shared.
         data[local_row] = value
         self._customizations[element] = data
         for element, local_row in zip(elements[1:], local_rows[1:]):
-            data = self._v[element]
+            data = self._v[element].copy()
             data[local_row] = 0
             self._customizations[element] = data
 
@@ -320,7 +320,7 @@ class MsePyStaticLocalVectorCustomize(Frozen):
 
         involved_data = dict()
         for element in involved_elements:
-            involved_data[element] = self._v[element]
+            involved_data[element] = self._v[element].copy()  # never touch the data, which may be shared.
 
         for dof in dof_cochain_dict:
             cochain = dof_cochain_dict[dof]
-- 
2.43.0


From 5c8f5fa26c8fe72c5e0556d64136b9672d61ec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 19/51] fix: assembling a local vector lost entries of a dof
 appearing twice in an element

---
 msepy/tools/vector/static/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msepy/tools/vector/static/local.py b/msepy/tools/vector/static/local.py
index 61d6f0b..2f27a56 100644
--- a/msepy/tools/vector/static/local.py
+++ b/msepy/tools/vector/static/local.py
@@ -2,7 +2,7 @@
 r"""
 """
 import numpy as np
-from numpy import zeros
+from numpy import zeros, add
 
 from phyem.tools.frozen import Frozen
 from phyem.msepy.tools.vector.static.assembled import MsePyStaticAssembledVector
@@ -23,7 +23,7 @@ class MsePyStaticLocalVectorAssemble(Frozen):
 
         for i in self._v:
             Vi = self._v[i]  # all adjustments and customizations take effect.
-            v[gm[i]] += Vi  # must do this to be consistent with the matrix assembling.
+            add.at(v, gm[i], Vi)  # a dof may appear more than once in an element; must do this to be consistent with the matrix assembling.
 
         return MsePyStaticAssembledVector(v, gm)
 
-- 
2.43.0


From e91cb965422b2371088afd9b81d145a6f2896f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 20/51] fix: a negative element number counts from the last
 element

---
 msepy/tools/linear_system/static/local/customize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/linear_system/static/local/customize.py b/msepy/tools/linear_system/static/local/customize.py
index 133121a..3ad1c60 100644
--- a/msepy/tools/linear_system/static/local/customize.py
+++ b/msepy/tools/linear_system/static/local/customize.py
@@ -71,7 +71,7 @@ class MsePyStaticLinearSystemCustomize(Frozen):
         num_elements, k_num_local_dofs = k_gm.shape
 
         if i < 0:
-            _i = i + k_num_local_dofs
+            _i = i + num_elements
         else:
             _i = i
 
-- 
2.43.0


From 2e1be3c481140d65f909a9ef050474fa9e753cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 21/51] fix: set_values with a row or a column more than once

---
 msepy/tools/matrix/static/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/matrix/static/local.py b/msepy/tools/matrix/static/local.py
index eaf3b57..3518baa 100644
--- a/msepy/tools/matrix/static/local.py
+++ b/msepy/tools/matrix/static/local.py
@@ -642,7 +642,7 @@ class _MsePyStaticLocalMatrixCustomize(Frozen):
 
         all_positions = dict()
 
-        for global_row, global_col, val in zip(elements_local_rows, elements_local_cols, vals):
+        for global_row, global_col, val in zip(rows, cols, vals):
             row_elements_indices = elements_local_rows[global_row]
             col_elements_indices = elements_local_cols[global_col]
 
-- 
2.43.0


From 4fc1a4ebe18751ae534eea3cd788e1e0955fcb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 22/51] fix: different elements of a block matrix could get the
 same cache key

---
 msepy/tools/matrix/static/local.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msepy/tools/matrix/static/local.py b/msepy/tools/matrix/static/local.py
index 3518baa..f9b3f1e 100644
--- a/msepy/tools/matrix/static/local.py
+++ b/msepy/tools/matrix/static/local.py
@@ -805,7 +805,7 @@ class _MsePyStaticLocalMatrixBmat(Frozen):
         if all([_ == 'constant' for _ in keys]):
             return 'constant'
         else:
-            return ''.join(keys)
+            return '@'.join(keys)
 
 
 _msepy_assembled_StaticMatrix_cache = {}
-- 
2.43.0


From 00ab4d2f97181ef9e34076d1206c5a64ca373ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 23/51] fix: gathering matrices of different shapes are not
 equal

---
 msepy/tools/gathering_matrix.py    | 2 +-
 msepy/tools/matrix/static/local.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msepy/tools/gathering_matrix.py b/msepy/tools/gathering_matrix.py
index 254996d..702a074 100644
--- a/msepy/tools/gathering_matrix.py
+++ b/msepy/tools/gathering_matrix.py
@@ -260,7 +260,7 @@ class RegularGatheringMatrix(Frozen):
         else:
             sgm = self._gm
             ogm = other._gm
-            return np.all(sgm == ogm)
+            return np.array_equal(sgm, ogm)
 
     def _find_global_numbering(self, elements, local_dofs):
         """find the global numbering at positions indicated by `elements` and `local_dofs`
diff --git a/msepy/tools/matrix/static/local.py b/msepy/tools/matrix/static/local.py
index f9b3f1e..37948be 100644
--- a/msepy/tools/matrix/static/local.py
+++ b/msepy/tools/matrix/static/local.py
@@ -212,7 +212,7 @@ class MsePyStaticLocalMatrix(Frozen):
 
     def _is_regularly_square(self):
         if self._irs is None:
-            self._irs = np.all(self._gm0_row._gm == self._gm1_col._gm)
+            self._irs = np.array_equal(self._gm0_row._gm, self._gm1_col._gm)
         return self._irs
 
     @property
-- 
2.43.0


From 2f6af5a5448ce55a9756306a924c77a90c8fd896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 24/51] fix: the ndarray cache took close or later changed
 arrays for the same key

---
 tools/miscellaneous/ndarray_cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/miscellaneous/ndarray_cache.py b/tools/miscellaneous/ndarray_cache.py
index 53b39e6..bcbe8ba 100644
--- a/tools/miscellaneous/ndarray_cache.py
+++ b/tools/miscellaneous/ndarray_cache.py
@@ -89,7 +89,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
                         t_o_f = False
                         break
 
-                    if not np.allclose(ca, ia):
+                    if not np.array_equal(ca, ia):  # arrays that are only close are different keys.
                         t_o_f = False
                         break
 
@@ -105,7 +105,7 @@ def ndarray_key_comparer(cache, arrays, check_str=''):
 
         cache_arrays = keys[key]
         assert (len(cache_arrays) == len(arrays) and
-                all([np.allclose(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
+                all([np.array_equal(cache_arrays[_], arrays[_]) for _ in range(len(cache_arrays))]) and
                 check_strings[key] == check_str), \
             f"safety check!"
         _, __ = 1, values[key]
@@ -173,6 +173,6 @@ def add_to_ndarray_cache(cache, arrays, results, check_str='', maximum=25):
     else:
         current_key = 0
 
-    keys[current_key] = arrays
+    keys[current_key] = [array.copy() for array in arrays]  # the caller may change its arrays later.
     values[current_key] = results
     check_strings[current_key] = check_str
-- 
2.43.0


From 974296f64f49d1c2434258428ff1b32efa480ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 25/51] fix: degrees of freedom of 3-d 0-, 1- and 2-forms on an
 element face

---
 msepy/space/find/local_dofs.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/msepy/space/find/local_dofs.py b/msepy/space/find/local_dofs.py
index b2da771..625be44 100644
--- a/msepy/space/find/local_dofs.py
+++ b/msepy/space/find/local_dofs.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 r"""
 """
+import numpy as np
+
 from phyem.tools.frozen import Frozen
 
 
@@ -211,43 +213,43 @@ class _MsePySpaceFindLocalDofs(Frozen):
         else:
             raise Exception()
 
-        return face_local_numbering
+        return face_local_numbering.ravel('F')
 
     def _Lambda_m3_n3_k1(self, m, n, degree):
         """"""
         local_numbering_dx, local_numbering_dy, local_numbering_dz = self._space.local_numbering(degree)
 
         if m == 0:
-            local_numbering = local_numbering_dx
+            local_numberings = (local_numbering_dy, local_numbering_dz)
             if n == 0:
-                face_local_numbering = local_numbering[0, :, :]
+                face_local_numbering = [_[0, :, :] for _ in local_numberings]
             elif n == 1:
-                face_local_numbering = local_numbering[-1, :, :]
+                face_local_numbering = [_[-1, :, :] for _ in local_numberings]
             else:
                 raise Exception()
 
         elif m == 1:
-            local_numbering = local_numbering_dy
+            local_numberings = (local_numbering_dx, local_numbering_dz)
             if n == 0:
-                face_local_numbering = local_numbering[:, 0, :]
+                face_local_numbering = [_[:, 0, :] for _ in local_numberings]
             elif n == 1:
-                face_local_numbering = local_numbering[:, -1, :]
+                face_local_numbering = [_[:, -1, :] for _ in local_numberings]
             else:
                 raise Exception()
 
         elif m == 2:
-            local_numbering = local_numbering_dz
+            local_numberings = (local_numbering_dx, local_numbering_dy)
             if n == 0:
-                face_local_numbering = local_numbering[:, :, 0]
+                face_local_numbering = [_[:, :, 0] for _ in local_numberings]
             elif n == 1:
-                face_local_numbering = local_numbering[:, :, -1]
+                face_local_numbering = [_[:, :, -1] for _ in local_numberings]
             else:
                 raise Exception()
 
         else:
             raise Exception()
 
-        return face_local_numbering
+        return np.concatenate([_.ravel('F') for _ in face_local_numbering])
 
     def _Lambda_m3_n3_k2(self, m, n, degree):
         """"""
@@ -283,7 +285,7 @@ class _MsePySpaceFindLocalDofs(Frozen):
         else:
             raise Exception()
 
-        return face_local_numbering
+        return face_local_numbering.ravel('F')
 
     def _Lambda_m2_n1_k1_outer(self, m, n, degree):
         """"""
-- 
2.43.0


From 618eb78557d9d8ba79958951b4568a5d0152c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 26/51] fix: boundary integral of a dof shared by two faces of
 an element

---
 .../with_vc_over_boundary_section/Lambda.py               | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
index 3044be7..b72e6e0 100644
--- a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
+++ b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
@@ -123,7 +123,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
@@ -196,7 +196,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
                 boundary_integration = np.sum(trStar_1f * tr_0f * weights * Jacobian, axis=1)
-                bi_data[element, local_dofs] = boundary_integration
+                bi_data[element, local_dofs] += boundary_integration
 
             return bi_data
 
@@ -271,7 +271,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                 Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
             boundary_integration = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
-            bi_data[element, local_dofs] = boundary_integration
+            bi_data[element, local_dofs] += boundary_integration
 
         return bi_data
 
@@ -343,6 +343,6 @@ class BoundaryIntegrateVCBSLambda(Frozen):
                 Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
 
             boundary_integration = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
-            bi_data[element, local_dofs] = boundary_integration
+            bi_data[element, local_dofs] += boundary_integration
 
         return bi_data
-- 
2.43.0


From 474ffb0252aff9f03f100c6f87b8dc518613a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 27/51] fix: essential boundary conditions could be those of an
 earlier time

---
 msepy/tools/linear_system/dynamic/bc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/msepy/tools/linear_system/dynamic/bc.py b/msepy/tools/linear_system/dynamic/bc.py
index 7a85834..9ac28ea 100644
--- a/msepy/tools/linear_system/dynamic/bc.py
+++ b/msepy/tools/linear_system/dynamic/bc.py
@@ -236,7 +236,7 @@ class MsePyDLSEssentialBoundaryCondition(MsePyDLSBoundaryCondition):
         super().__init__(msepy_boundary_manifold, raw_ls_bc)
         self._melt()
         self._cache1 = {
-            'key': '',
+            'key': None,
             'find': tuple()
         }
         self._freeze()
@@ -301,12 +301,14 @@ class MsePyDLSEssentialBoundaryCondition(MsePyDLSBoundaryCondition):
         i = self._raw_ls_bc._i
         unknown = unknowns[i]
 
-        key = unknown.__repr__() + global_or_local
+        # the repr of the unknown shows its memory address, which another unknown may get later. So compare
+        # (and keep) the unknown itself.
+        key = self._cache1['key']
 
-        if key == self._cache1['key']:
+        if key is not None and key[0] is unknown and key[1] == global_or_local:
             return self._cache1['find']
         else:
-            self._cache1['key'] = key
+            self._cache1['key'] = (unknown, global_or_local)
 
         # below, we try to find the msepy mesh boundary section where the essential bc will apply.
         from phyem.msepy.main import base
-- 
2.43.0


From f52b91cadfc3ffd9b3daf1ad5ac19711ab3864d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 28/51] fix: chaining method 0 gave one number to several
 degrees of freedom

---
 msepy/tools/gathering_matrix.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/msepy/tools/gathering_matrix.py b/msepy/tools/gathering_matrix.py
index 702a074..c98c25e 100644
--- a/msepy/tools/gathering_matrix.py
+++ b/msepy/tools/gathering_matrix.py
@@ -69,17 +69,15 @@ class RegularGatheringMatrix(Frozen):
                 if chaining_method == 0:  # chaining method #0 ----
                     cache = list()
                     for gm in gms:
-                        cache.append(np.ones(gm.num_dofs, dtype=int))
+                        cache.append(- np.ones(gm.num_dofs, dtype=int))
 
                     current_number = 0
-                    filters = [0 for _ in range(len(gms))]
                     for i in range(num_elements):
                         for j, gm in enumerate(gms):
                             fv = gm[i]
-                            Filter = filters[j]
-                            fv = fv[fv >= Filter]  # these dofs should be re-numbered
+                            fv = fv[cache[j][fv] == -1]  # these dofs should be re-numbered
+                            fv = fv[np.sort(np.unique(fv, return_index=True)[1])]  # each once
                             amount_re_numbered = len(fv)
-                            filters[j] += amount_re_numbered
                             cache[j][fv] = np.arange(current_number, current_number+amount_re_numbered)
                             current_number += amount_re_numbered
 
-- 
2.43.0


From c1d05bff456f91d0335d73e89afde562e902c66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:05 +0000
Subject: [PATCH 29/51] fix: give the inner triangle incidence matrix its own
 cache key

---
 msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py b/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
index 8750393..f2f8aca 100644
--- a/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
+++ b/msehtt/static/space/incidence_matrix/Lambda/IM_m2n2k1.py
@@ -378,7 +378,7 @@ def _im221i_vtu5_(element, degree):
                 E[dn[i, j], sn[0][i, j + 1]] = -1   # y+
 
         E = csr_matrix(E)
-        cache_key = f"mq{p}"
+        cache_key = f"vtu5i{p}"
         _cache_vtu5_i_[p] = E, cache_key
 
     if 'm2n2k1_inner' not in element.dof_reverse_info:
-- 
2.43.0


From af5d029962cc265e0e112bfd76d32d6f0c5069a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:35 +0000
Subject: [PATCH 30/51] fix: number the nodes on a face alike from both sides
 when refining a mesh of quads

---
 msehtt/static/mesh/great/config/msehtt_trf.py | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/msehtt/static/mesh/great/config/msehtt_trf.py b/msehtt/static/mesh/great/config/msehtt_trf.py
index 3dc6cac..7998a1a 100644
--- a/msehtt/static/mesh/great/config/msehtt_trf.py
+++ b/msehtt/static/mesh/great/config/msehtt_trf.py
@@ -506,6 +506,16 @@ def _find_refined_able_pairs_m2n2_(base_mesh, element_indices):
     return refined_able_pairs, elements_facing_boundary
 
 
+def _face_node_indicator_(start_node, end_node, r):
+    r"""Indicator of the node at ``r`` in (-1, 1), measured from ``start_node`` to ``end_node``, of a face. Two
+    elements may see the face in opposite directions, so we always measure from the smaller node.
+    """
+    if start_node <= end_node:
+        return start_node, end_node, r
+    else:
+        return end_node, start_node, -r
+
+
 def _make_element_map_m2n2_(base_mesh, element_indices):
     r""""""
     _, _, element_map_dict = base_mesh
@@ -529,21 +539,13 @@ def _make_element_map_m2n2_(base_mesh, element_indices):
                 elif x == 1 and y == 1:  # this vortex is the South-East corner of the quad element
                     node_indicator = element_nodes[2]
                 elif x == -1:  # on north edge
-                    face_nodes = [element_nodes[0], element_nodes[3]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (y, )
+                    node_indicator = _face_node_indicator_(element_nodes[0], element_nodes[3], y)
                 elif x == 1:  # on South edge
-                    face_nodes = [element_nodes[1], element_nodes[2]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (y, )
+                    node_indicator = _face_node_indicator_(element_nodes[1], element_nodes[2], y)
                 elif y == -1:  # on West edge
-                    face_nodes = [element_nodes[0], element_nodes[1]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (x, )
+                    node_indicator = _face_node_indicator_(element_nodes[0], element_nodes[1], x)
                 elif y == 1:  # on East edge
-                    face_nodes = [element_nodes[3], element_nodes[2]]
-                    face_nodes.sort()
-                    node_indicator = tuple(face_nodes) + (x, )
+                    node_indicator = _face_node_indicator_(element_nodes[3], element_nodes[2], x)
                 else:
                     node_indicator = (e[0], x, y)
 
-- 
2.43.0


From 097db7d1cf00e78d2dfe75a06a4c00c1429d8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 31/51] fix: do not take the mass matrix of a space of an
 earlier session

---
 msehtt/static/implementation_array_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index fe86a1a..6c82fc3 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -184,7 +184,7 @@ def Parse__M_matrix(space, str_degree0, str_degree1):
     degree0 = _str_degree_parser(str_degree0)
     degree1 = _str_degree_parser(str_degree1)
     space = _find_space_through_pure_lin_repr(space)
-    key = (id(space), str_degree0, str_degree1)
+    key = (space, str_degree0, str_degree1)
     if key in _setting_['_cache_M_']:
         return _setting_['_cache_M_'][key]
     else:
-- 
2.43.0


From 5bfc64d32bcf1bcdd92f78322c7a54c2b3faa3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 32/51] fix: leave no process without elements of a vtu mesh

---
 msehtt/static/mesh/great/config/vtu.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/msehtt/static/mesh/great/config/vtu.py b/msehtt/static/mesh/great/config/vtu.py
index d484eb7..5b46266 100644
--- a/msehtt/static/mesh/great/config/vtu.py
+++ b/msehtt/static/mesh/great/config/vtu.py
@@ -260,6 +260,19 @@ def ___master_rank_distribute___(coo_dict, map_dict):
                 remaining_elements.remove(e)
 
     assert len(remaining_elements) == 0 and len(distributed_elements) == num_total_elements, f"must be!"
+
+    # ranks may be left empty when elements are at the same distance; let others hand over an element.
+    for empty_rank in range(SIZE):
+        if len(element_distribution[empty_rank]) == 0:
+            for rank in range(SIZE):
+                if len(element_distribution[rank]) > 1:
+                    element_distribution[empty_rank] = [element_distribution[rank].pop(), ]
+                    break
+                else:
+                    pass
+        else:
+            pass
+
     return element_distribution
 
 
-- 
2.43.0


From 1dd1b322cfd1920a6f08c297d25a784d8039c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:33 +0000
Subject: [PATCH 33/51] fix: leave no process without elements of a msepy mesh

---
 msehtt/static/mesh/great/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/mesh/great/main.py b/msehtt/static/mesh/great/main.py
index 101886f..c3d1c7b 100644
--- a/msehtt/static/mesh/great/main.py
+++ b/msehtt/static/mesh/great/main.py
@@ -796,10 +796,10 @@ class MseHttGreatMesh(Frozen):
                         else:
                             num_piles = 3 * (SIZE - 1) + 1  # master rank takes 1 pile, other ranks take 3 piles each.
                             num_elements_each_pile = num_total_elements / num_piles  # OK to be decimal
-                            start = 0
+                            start, taken_num_piles = 0, 0
                             for rank in range(SIZE):
-                                take_num_piles = 1 if rank == MASTER_RANK else 3
-                                end = int(start + take_num_piles * num_elements_each_pile) + 1
+                                taken_num_piles += 1 if rank == MASTER_RANK else 3
+                                end = round(taken_num_piles * num_elements_each_pile)
                                 element_distribution[rank] = elements_indices[start:end]
                                 start = end
 
-- 
2.43.0


From b1f47ecf6959fe45d8d0603cf031dd6f0903e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 34/51] fix: do not take an object for a dead one at the same
 address in caches keyed on representations

---
 tools/frozen.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tools/frozen.py b/tools/frozen.py
index 6cc581b..98f837c 100644
--- a/tools/frozen.py
+++ b/tools/frozen.py
@@ -3,15 +3,32 @@ r"""
 """
 
 from abc import ABC
+from itertools import count
 
 
 class FrozenError(Exception):
     """Raise when we try to define new attribute for a frozen object."""
 
 
+_serial_numbers_ = count()
+
+
 class Frozen(ABC):
     """Enable a class to freeze self such that no more new attribute can be defined."""
 
+    def __repr__(self):
+        """Memory addresses get reused. As representations are used as keys of caches, add a serial number."""
+        return f"{super().__repr__()[:-1]} #{self._serial_number_}>"
+
+    @property
+    def _serial_number_(self):
+        """A number which no other object, living or dead, has."""
+        try:
+            return self.___SERIAL_NUMBER___
+        except AttributeError:
+            object.__setattr__(self, '___SERIAL_NUMBER___', next(_serial_numbers_))
+            return self.___SERIAL_NUMBER___
+
     def __setattr__(self, key, value):
         """"""
         if self.___frozen___ and key not in dir(self):
-- 
2.43.0


From 7bd6caf6524afa09e3880ec49f4caed6e34269ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:59 +0000
Subject: [PATCH 35/51] fix: keep all digits of the size of orthogonal elements
 and the orientation of tiny faces

---
 msehtt/static/mesh/great/elements/main.py                   | 4 ++--
 .../mesh/great/elements/types/orthogonal_hexahedron.py      | 6 +++---
 .../mesh/great/elements/types/orthogonal_rectangle.py       | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/main.py b/msehtt/static/mesh/great/elements/main.py
index 093a0ed..0a4bb5a 100644
--- a/msehtt/static/mesh/great/elements/main.py
+++ b/msehtt/static/mesh/great/elements/main.py
@@ -643,8 +643,8 @@ class MseHttGreatMeshElements(Frozen):
                 elif len(positions) == 2:
                     values = pool_value[undirected_face]
                     v0, v1 = values
-                    if np.isclose(v0, v1):
-                        pass
+                    if abs(v0 - v1) < abs(v0 + v1):  # same sign, no matter how small the face is
+                        assert np.isclose(v0, v1), f"must be v0 == v1, now v0={v0}, v1={v1}"
                     else:
                         assert np.isclose(v0, -v1), f"must be v0 + v1 == 0, now v0={v0}, v1={v1}"
                         pos0, pos1 = positions
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
index b307315..2978c89 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
@@ -356,9 +356,9 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y, ratio_z):
     """"""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
-    ratio_z = round(ratio_z, 8)
+    ratio_x = float("%.14e" % ratio_x)
+    ratio_y = float("%.14e" % ratio_y)
+    ratio_z = float("%.14e" % ratio_z)
     key = (ratio_x, ratio_y, ratio_z)
     if key in _cache_ct_helper_pool_:
         pass
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
index ca11849..4fa2e14 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
@@ -325,8 +325,8 @@ _cache_ct_helper_pool_ = {}
 
 def ___ct_helper_parser___(ratio_x, ratio_y):
     r""""""
-    ratio_x = round(ratio_x, 8)
-    ratio_y = round(ratio_y, 8)
+    ratio_x = float("%.14e" % ratio_x)
+    ratio_y = float("%.14e" % ratio_y)
     key = (ratio_x, ratio_y)
     if key in _cache_ct_helper_pool_:
         pass
-- 
2.43.0


From 957846f666644c70ee1db5c04e23aab5556ff3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 36/51] fix: elements of different shapes or of a small scale
 could share one metric signature

---
 msehtt/static/mesh/great/elements/types/base.py  | 13 +++++++++++++
 .../elements/types/orthogonal_hexahedron.py      |  4 +---
 .../great/elements/types/orthogonal_rectangle.py |  2 +-
 .../mesh/great/elements/types/vtu_5_triangle.py  | 11 ++---------
 .../mesh/great/elements/types/vtu_9_quad.py      | 16 ++--------------
 5 files changed, 19 insertions(+), 27 deletions(-)

diff --git a/msehtt/static/mesh/great/elements/types/base.py b/msehtt/static/mesh/great/elements/types/base.py
index 6c0c45b..8970c74 100644
--- a/msehtt/static/mesh/great/elements/types/base.py
+++ b/msehtt/static/mesh/great/elements/types/base.py
@@ -53,6 +53,19 @@ ___sg3___ = ___sg3___.ravel('F')
 ___degree_cache_pool___ = {}
 
 
+def vertices_metric_signature(prefix, vertices):
+    r"""The metric signature of an element whose metric is determined by its vertices.
+
+    Elements get the same signature only if one is a translation of the other (up to a small tolerance that is
+    relative to the size of the element).
+    """
+    vertices = np.array(vertices, dtype=float)
+    relative = vertices[1:] - vertices[0]
+    size = np.max(np.abs(relative))
+    scaled = ["%.10f" % (round(_, 10) + 0.) for _ in (relative / size).ravel()]
+    return prefix + ":h%.9e" % size + "v" + ",".join(scaled)
+
+
 class MseHttGreatMeshBaseElement(Frozen):
     r""""""
 
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
index 2978c89..79e383a 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py
@@ -48,9 +48,7 @@ class MseHttGreatMeshOrthogonalHexahedronElement(MseHttGreatMeshBaseElement):
         """"""
         origin_x, origin_y, origin_z = parameters['origin']
         delta_x, delta_y, delta_z = parameters['delta']
-        self._metric_signature = (f"OR:x%.5f" % round(delta_x, 5) +
-                                  "y%.5f" % round(delta_y, 5) +
-                                  "y%.5f" % round(delta_z, 5))
+        self._metric_signature = "OR:x%.9e" % delta_x + "y%.9e" % delta_y + "z%.9e" % delta_z
         super().__init__()
         self._index = element_index
         self._parameters = parameters
diff --git a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
index 4fa2e14..aabde45 100644
--- a/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
+++ b/msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py
@@ -47,7 +47,7 @@ class MseHttGreatMeshOrthogonalRectangleElement(MseHttGreatMeshBaseElement):
         r""""""
         origin_x, origin_y = parameters['origin']
         delta_x, delta_y = parameters['delta']
-        self._metric_signature = f"OR:x%.5f" % round(delta_x, 5) + "y%.5f" % round(delta_y, 5)
+        self._metric_signature = "OR:x%.9e" % delta_x + "y%.9e" % delta_y
         self._polygon = None
 
         super().__init__()
diff --git a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
index f29aec2..69f7307 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_5_triangle.py
@@ -4,10 +4,9 @@ r"""
 import numpy as np
 
 from phyem.tools.frozen import Frozen
-from phyem.tools.functions.space._2d.angle import angle
 from phyem.tools.functions.space._2d.angles_of_triangle import angles_of_triangle
-from phyem.tools.functions.space._2d.distance import distance
 from phyem.msehtt.static.mesh.great.elements.types.base import MseHttGreatMeshBaseElement
+from phyem.msehtt.static.mesh.great.elements.types.base import vertices_metric_signature
 
 
 class Vtu5Triangle(MseHttGreatMeshBaseElement):
@@ -36,13 +35,7 @@ class Vtu5Triangle(MseHttGreatMeshBaseElement):
 
     def __init__(self, element_index, parameters, _map):
         """"""
-        a, b, _ = angles_of_triangle(*parameters)
-        c = angle(parameters[0], parameters[1])
-        d = distance(parameters[0], parameters[1])
-        self._metric_signature = (f"5:a%.3f" % round(a, 3) +
-                                  "b%.3f" % round(b, 3) +
-                                  "c%.3f" % round(c, 3) +
-                                  "d%.6f" % round(d, 6))
+        self._metric_signature = vertices_metric_signature("5", parameters)
 
         super().__init__()
         self._index = element_index
diff --git a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
index c35723d..1a05f61 100644
--- a/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
+++ b/msehtt/static/mesh/great/elements/types/vtu_9_quad.py
@@ -7,11 +7,10 @@ from phyem.tools.frozen import Frozen
 
 from phyem.tools.miscellaneous.geometries.m2n2 import Point2, Polygon2, whether_point_in_polygon
 
-from phyem.tools.functions.space._2d.angle import angle
 from phyem.tools.functions.space._2d.angles_of_triangle import angles_of_triangle
-from phyem.tools.functions.space._2d.distance import distance
 
 from phyem.msehtt.static.mesh.great.elements.types.base import MseHttGreatMeshBaseElement
+from phyem.msehtt.static.mesh.great.elements.types.base import vertices_metric_signature
 
 from phyem.msehtt.static.space.reconstruct.Lambda.Rc_m2n2k2 import ___rc222_msepy_quadrilateral___
 from phyem.msehtt.static.space.reconstruct.Lambda.Rc_m2n2k1 import ___rc221i_msepy_quadrilateral___
@@ -63,18 +62,7 @@ class Vtu9Quad(MseHttGreatMeshBaseElement):
 
     def __init__(self, element_index, parameters, _map):
         r""""""
-        a0, b, c0 = angles_of_triangle(parameters[0], parameters[1], parameters[2])   # in degree
-        a1, c1, _ = angles_of_triangle(parameters[0], parameters[2], parameters[3])   # in degree
-        a = a0 + a1
-        c = c0 + c1
-
-        d = angle(parameters[0], parameters[2])
-        dist = distance(parameters[0], parameters[2])
-        self._metric_signature = (f"9:a%.2f" % round(a, 2) +
-                                  "b%.2f" % round(b, 2) +
-                                  "c%.2f" % round(c, 2) +
-                                  "d%.3f" % round(d, 3) +
-                                  "dis%.5f" % round(dist, 5))
+        self._metric_signature = vertices_metric_signature("9", parameters)
         self._polygon = None
 
         super().__init__()
-- 
2.43.0


From 19e25f8dcb75a03adc685fd3670c0badb5515110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 37/51] fix: an interruption while the iterator writes its
 cache file destroys the cache

---
 tools/iterator/main.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index d43ed83..901f276 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -243,10 +243,7 @@ class Iterator(Frozen):
                     'cache count': 0,
                 }
 
-                with open(cache_filename, 'wb') as output:
-                    # noinspection PyTypeChecker
-                    pickle.dump(cache_dict, output, pickle.HIGHEST_PROTOCOL)
-                output.close()
+                self._write_cache_file(cache_dict)
 
             # We check the cache file
             self._check_cache(self._cache_filename_)
@@ -279,6 +276,20 @@ class Iterator(Frozen):
         else:
             raise NotImplementedError()
 
+    def _write_cache_file(self, cache_dict):
+        r"""Only call it in the master rank.
+
+        The new data are first written to a temporary file which then replaces the cache file. So, whenever the
+        program is interrupted, the cache file is either the complete old one or the complete new one.
+        """
+        temp_filename = self._cache_filename_ + '.tmp'
+        with open(temp_filename, 'wb') as output:
+            # noinspection PyTypeChecker
+            pickle.dump(cache_dict, output, pickle.HIGHEST_PROTOCOL)
+            output.flush()
+            os.fsync(output.fileno())
+        os.replace(temp_filename, self._cache_filename_)
+
     def _check_cache(self, cache_filename):
         r"""Check whether the cache file is of the correct format.
 
@@ -651,10 +662,7 @@ class Iterator(Frozen):
                             'log': log,
                             'cache_count': cache_count
                         }
-                        with open(self._cache_filename_, 'wb') as cf:
-                            # noinspection PyTypeChecker
-                            pickle.dump(cache_dict, cf, pickle.HIGHEST_PROTOCOL)
-                        cf.close()
+                        self._write_cache_file(cache_dict)
                         # noinspection PyUnboundLocalVariable
                         self._cache_time_ = now
                         del obj_coding_data, cache_dict
-- 
2.43.0


From 40513a051249e18e5934973b22297d810d7f0c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 38/51] fix: the number of caches is lost when an iterator
 resumes from its cache file

---
 tools/iterator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 901f276..3644b2c 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -660,7 +660,7 @@ class Iterator(Frozen):
                             'RES': cache_res,
                             'cache data': obj_coding_data,
                             'log': log,
-                            'cache_count': cache_count
+                            'cache count': cache_count
                         }
                         self._write_cache_file(cache_dict)
                         # noinspection PyUnboundLocalVariable
-- 
2.43.0


From f69e134c008bdd5b46ab8de480b6fd177f1ef952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:29 +0000
Subject: [PATCH 39/51] fix: iterator inputs that differ by less than 1e-5
 share one cached result

---
 tools/iterator/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 3644b2c..8015872 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -347,7 +347,7 @@ class Iterator(Frozen):
                 if i % 1 == 0:
                     i = int(i)
                 else:
-                    i = "%.5f" % i
+                    i = repr(float(i))  # different inputs must have different keys.
                 return i
             else:
                 raise NotImplementedError()
-- 
2.43.0


From 63752b323e457856ecd95c6da5c760b7c451d2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 40/51] fix: objects are rewound to, or not brought to, the
 cached state of an iterator

---
 tools/iterator/main.py | 46 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 8015872..7622628 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -88,6 +88,8 @@ class Iterator(Frozen):
         else:
             pass
         self.___cache_num___ = None
+        self.___objs_restored___ = False  # whether the objs are already ahead of (or at) the cached state
+        self.___cache_memory___ = None    # results of previous runs of this iterator, only in the master rank
 
         self._freeze()
 
@@ -224,6 +226,8 @@ class Iterator(Frozen):
             f"cache_filename={cache_filename} illegal. It must be str."
         cache_filename += '.phc'
         self._cache_objs_ = cache_objs
+        self.___objs_restored___ = False
+        self.___cache_memory___ = None
 
         if RANK == MASTER_RANK:
             self._cache_filename_ = cache_filename
@@ -328,6 +332,18 @@ class Iterator(Frozen):
         else:
             pass
 
+    def _restore_objs_(self, all_obj_data):
+        r"""Bring the objs to the cached state, unless they have already been there."""
+        if self.___objs_restored___:
+            pass
+        else:
+            self._decoding_objs_(all_obj_data)
+            self.___objs_restored___ = True
+            if RANK == MASTER_RANK:
+                self.___cache_memory___['cache data'] = None
+            else:
+                pass
+
     def _coding_objs_(self):
         r"""`_make_cache_data` must return all necessary data in the master rank."""
         all_obj_data = list()
@@ -474,9 +490,12 @@ class Iterator(Frozen):
         else:
             keep_checking = True
             if RANK == MASTER_RANK:
-                with open(self._cache_filename_, 'rb') as cf:
-                    cache = pickle.load(cf)
-                cf.close()
+                if self.___cache_memory___ is None:
+                    with open(self._cache_filename_, 'rb') as cf:
+                        cache = pickle.load(cf)
+                    cf.close()
+                else:  # not the first run; previous runs may know more than the cache file does.
+                    cache = self.___cache_memory___
                 obj_names = cache['obj names']
                 computed_inputs = cache['computed inputs']
                 cache_res = cache['RES']
@@ -493,6 +512,17 @@ class Iterator(Frozen):
                 cache_data = None
                 None_outputs = [None for _ in range(self._num_outputs-2)]
             computed_inputs = COMM.bcast(computed_inputs, root=MASTER_RANK)
+            if RANK == MASTER_RANK:
+                self.___cache_memory___ = {
+                    'obj names': obj_names,
+                    'computed inputs': computed_inputs,
+                    'RES': cache_res,
+                    'cache data': None if self.___objs_restored___ else cache_data,
+                    'log': log,
+                    'cache count': cache_count
+                }
+            else:
+                pass
 
         if RANK == MASTER_RANK:
             self.monitor._num_iterations = num_iterations  # update num_iterations for the monitor.
@@ -551,7 +581,7 @@ class Iterator(Frozen):
                         keep_checking = False
                         caching = True
                         # noinspection PyUnboundLocalVariable
-                        self._decoding_objs_(cache_data)
+                        self._restore_objs_(cache_data)
                         outputs = self._solver_(*inputs)
                         del cache_data
                         if RANK != MASTER_RANK:
@@ -663,6 +693,8 @@ class Iterator(Frozen):
                             'cache count': cache_count
                         }
                         self._write_cache_file(cache_dict)
+                        self.___cache_memory___['log'] = log
+                        self.___cache_memory___['cache count'] = cache_count
                         # noinspection PyUnboundLocalVariable
                         self._cache_time_ = now
                         del obj_coding_data, cache_dict
@@ -694,6 +726,12 @@ class Iterator(Frozen):
             else:
                 raise NotImplementedError(f"cannot understand exit_code={self.exit_code}!")
 
+        if self._cache_objs_ is not None and keep_checking:
+            # everything is from the cache, the objs must still be brought to the cached state.
+            self._restore_objs_(cache_data)
+        else:
+            pass
+
         # --- after iteration ------------------------------------------------------------------------
         if RANK == MASTER_RANK:
             if pbar:
-- 
2.43.0


From 897f0453809d6ff858d536bdca43878f5532e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:47 +0000
Subject: [PATCH 41/51] fix: repeated inputs of an iterator share the cached
 result of the first one

---
 tools/iterator/main.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/iterator/main.py b/tools/iterator/main.py
index 7622628..5ebdeb6 100644
--- a/tools/iterator/main.py
+++ b/tools/iterator/main.py
@@ -489,6 +489,7 @@ class Iterator(Frozen):
             pass
         else:
             keep_checking = True
+            num_appearances = dict()  # how many times an input has appeared in this run?
             if RANK == MASTER_RANK:
                 if self.___cache_memory___ is None:
                     with open(self._cache_filename_, 'rb') as cf:
@@ -557,6 +558,13 @@ class Iterator(Frozen):
             else:
                 Ik = self._make_inputs_key(inputs)
                 # noinspection PyUnboundLocalVariable
+                appearance = num_appearances.get(Ik, 0)
+                num_appearances[Ik] = appearance + 1
+                if appearance > 0:  # a repeated input has its own result.
+                    Ik = f"{Ik}#{appearance}"
+                else:
+                    pass
+                # noinspection PyUnboundLocalVariable
                 if keep_checking:
                     # noinspection PyUnboundLocalVariable
                     if self._check_input_cache(computed_inputs, Ik):
-- 
2.43.0


From a54b6c14801942128ef6421387a175f9a34e7943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:51 +0000
Subject: [PATCH 42/51] fix: natural conditions of one form on several sections
 are only taken over one section (msepy)

---
 msepy/tools/linear_system/dynamic/_arr_par.py | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/msepy/tools/linear_system/dynamic/_arr_par.py b/msepy/tools/linear_system/dynamic/_arr_par.py
index 9792186..69a4917 100644
--- a/msepy/tools/linear_system/dynamic/_arr_par.py
+++ b/msepy/tools/linear_system/dynamic/_arr_par.py
@@ -341,7 +341,8 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             base_form = found_root_form
             self._ati = None
 
-        found_natural_bc = None
+        # the same form can be given on multiple boundary sections.
+        found_natural_bcs = list()
         for boundary_section in dls.bc:
             bcs = dls.bc[boundary_section]
             for bc in bcs:
@@ -354,22 +355,22 @@ class _TrStarRf0DualPairingTrS1(Frozen):
                     if self._ati is None:  # provided_root_form is the base (general) form
                         if base_form._pure_lin_repr == provided_root_form._pure_lin_repr:
 
-                            found_natural_bc = bc
+                            found_natural_bcs.append(bc)
                             break
 
                     else:  # provided_root_form is the abstract form
 
                         if found_root_form._pure_lin_repr == provided_root_form._pure_lin_repr:
 
-                            found_natural_bc = bc
+                            found_natural_bcs.append(bc)
                             break
 
                 else:
                     pass
 
-        assert found_natural_bc is not None, f"we must have found a dls natural bc!"
+        assert len(found_natural_bcs) > 0, f"we must have found a dls natural bc!"
 
-        self._dls_natural_bc = found_natural_bc
+        self._dls_natural_bcs = found_natural_bcs
         msepy_base_form = None
         msepy_forms = base['forms']
         for _pure_lin_repr in msepy_forms:
@@ -400,9 +401,14 @@ class _TrStarRf0DualPairingTrS1(Frozen):
         """"""
         t = self._time_caller(*args, **kwargs)
 
-        # now we need to make changes in _2d_data to incorporate the corresponding natural boundary condition
+        # the contributions of all boundary sections this natural bc is given on are summed up.
+        data = sum([self._natural_bc_data(nbc, t) for nbc in self._dls_natural_bcs])
 
-        nbc = self._dls_natural_bc
+        full_vector = MsePyStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
+        return full_vector
+
+    def _natural_bc_data(self, nbc, t):
+        """the data of one natural bc on one boundary section at ``t``."""
         # we now try to find the msepy mesh this natural bc is defined on.
         meshes = base['meshes']  # find mesh here! because only when we call it, the meshes are config-ed.
         found_msepy_mesh = None
@@ -434,8 +440,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
 
         assert data.shape == (self._mesh.elements._num, self._num_local_dofs), f"array data shape wrong!"
         nbc._num_application += 1
-        full_vector = MsePyStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
-        return full_vector
+        return data
 
 
 # --- (A .V B, C) ---------------------------------------------------------------------------------
-- 
2.43.0


From 0c0062481c5c006c64c4a9f7249ca8b1a346c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 43/51] fix: natural conditions of one form on several sections
 are only taken over one section (msehtt)

---
 msehtt/static/implementation_array_parser.py | 59 ++++++++++++--------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index 6c82fc3..c16146b 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -297,8 +297,8 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             base_form = found_root_form
             self._ati = None
 
-        found_natural_bc = None
-        found_boundary_section_sym_repr = None
+        # the same form can be given on multiple boundary sections.
+        found_boundary_section_sym_reprs = list()
         for boundary_section in dls.bc:
             bcs = dls.bc[boundary_section]
             for bc in bcs:
@@ -310,34 +310,32 @@ class _TrStarRf0DualPairingTrS1(Frozen):
 
                     if self._ati is None:  # provided_root_form is the base (general) form
                         if base_form._pure_lin_repr == provided_root_form._pure_lin_repr:
-                            found_natural_bc = bc
-                            found_boundary_section_sym_repr = boundary_section
+                            found_boundary_section_sym_reprs.append(boundary_section)
                             break
                         else:
                             pass
                     else:  # provided_root_form is an abstract form
                         if found_root_form._pure_lin_repr == provided_root_form._pure_lin_repr:
-                            found_natural_bc = bc
-                            found_boundary_section_sym_repr = boundary_section
+                            found_boundary_section_sym_reprs.append(boundary_section)
                             break
                         else:
                             pass
                 else:
                     pass
 
-        assert found_natural_bc is not None, f"we must have found a dls natural bc!"
-        assert found_boundary_section_sym_repr is not None, f"We must have found an abstract manifold sym repr."
+        assert len(found_boundary_section_sym_reprs) > 0, f"we must have found a dls natural bc!"
 
-        self._dls_natural_bc = found_natural_bc
-
-        self._partial_mesh_boundary_section = None
+        self._partial_mesh_boundary_sections = list()
         partial_meshes = _base_meshes()
-        for partial_mesh_sym_repr in partial_meshes:
-            msehtt_partial_mesh = partial_meshes[partial_mesh_sym_repr]
-            if msehtt_partial_mesh.abstract.manifold._sym_repr == found_boundary_section_sym_repr:
-                self._partial_mesh_boundary_section = msehtt_partial_mesh
-                break
-        assert self._partial_mesh_boundary_section is not None, f"we must have found a msehtt partial boundary section"
+        for sym_repr in found_boundary_section_sym_reprs:
+            found_boundary_section = None
+            for partial_mesh_sym_repr in partial_meshes:
+                msehtt_partial_mesh = partial_meshes[partial_mesh_sym_repr]
+                if msehtt_partial_mesh.abstract.manifold._sym_repr == sym_repr:
+                    found_boundary_section = msehtt_partial_mesh
+                    break
+            assert found_boundary_section is not None, f"we must have found a msehtt partial boundary section"
+            self._partial_mesh_boundary_sections.append(found_boundary_section)
 
         rf0 = None
         msehtt_forms = _base_forms()
@@ -369,6 +367,22 @@ class _TrStarRf0DualPairingTrS1(Frozen):
         """"""
         t = self._time_caller(*args, **kwargs)
 
+        # the contributions of all boundary sections this natural bc is given on are summed up.
+        data = {}
+        for boundary_section in self._partial_mesh_boundary_sections:
+            section_data = self._boundary_section_data(boundary_section, t)
+            for e in section_data:
+                if e in data:
+                    data[e] = data[e] + section_data[e]
+                else:
+                    data[e] = section_data[e]
+
+        # -- make the static local vector representing the natural bc at this particular time ``t`` ------------
+        full_vector = MseHttStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
+        return full_vector
+
+    def _boundary_section_data(self, boundary_section, t):
+        """the data of this natural bc on one boundary section at ``t``."""
         # find from all configurations the correct one for this natural BC ----------------------------------
         configurations = self._dls.config._configurations
         the_configuration = None
@@ -376,7 +390,7 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             _type = config['type']
             if _type == 'natural bc':
                 place = config['place']
-                if place is self._partial_mesh_boundary_section:
+                if place is boundary_section:
                     config_root_form = config['root_form']
                     if self._rf0 is config_root_form:  # note that self._rf0 must be a base-form already
                         the_configuration = config
@@ -387,7 +401,8 @@ class _TrStarRf0DualPairingTrS1(Frozen):
                     pass
             else:
                 pass
-        assert the_configuration is not None, f'BC: {self._dls_natural_bc} is not configured!'
+        assert the_configuration is not None, \
+            f'natural bc of {self._tr_star_rf0} on {boundary_section} is not configured!'
 
         category = the_configuration['category']
         # ----- study the configuration to choose a correct way to use it --------------------------------------
@@ -403,14 +418,12 @@ class _TrStarRf0DualPairingTrS1(Frozen):
             data = self._rf1.bi.with_vc_over_boundary_section(
                 t,
                 exact_function,    # the vc
-                self._partial_mesh_boundary_section  # over this msehtt partial mesh boundary section.
+                boundary_section  # over this msehtt partial mesh boundary section.
             )
         else:
             raise NotImplementedError(f"not implemented for natural bc of category = {category}.")
 
-        # -- make the static local vector representing the natural bc at this particular time ``t`` ------------
-        full_vector = MseHttStaticLocalVector(data, self._rf1.cochain.gathering_matrix)
-        return full_vector
+        return data
 
 
 # - (A x B, C) ------------------------------------------------------------------------------------
-- 
2.43.0


From 8b055c97cbfccdee43e858eaa451829f8e08525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 44/51] fix: boundary integrals lose contributions to dofs
 shared by faces of an element

---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py | 4 ++--
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py | 2 +-
 msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
index 9bc8340..25461ea 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k0.py
@@ -50,7 +50,7 @@ def bi_vc__m2n2k0_outer(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
@@ -146,7 +146,7 @@ def bi_vc__m2n2k0_inner(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
index 6df07fc..094cc02 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k0.py
@@ -40,7 +40,7 @@ def bi_vc__m3n3k0(rf0, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
index e19fa76..b4e77da 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m3n3k1.py
@@ -43,7 +43,7 @@ def bi_vc__m3n3k1(rf1, t, vc, boundary_section):
         else:
             data_dict[element_index] = np.zeros(num_test_form_local_dofs)
 
-        data_dict[element_index][local_dofs] = face_boundary_integration_vec
+        data_dict[element_index][local_dofs] += face_boundary_integration_vec
 
     return data_dict
 
-- 
2.43.0


From 0067ad8034cb2f64a75814a6215ebe4cb9353384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 45/51] fix: sign of the boundary term of inner 1-forms is not
 that of the integration by parts

---
 msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py               | 4 ++--
 .../with_vc_over_boundary_section/Lambda.py                   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
index 2177b4b..4299408 100644
--- a/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
+++ b/msehtt/static/form/bi/vc/Lambda/bi_vc_m2n2k1.py
@@ -234,7 +234,7 @@ def ___bi_vc_221i_msepy_quadrilateral___(element, degree, face, tvc):
     onv = face.ct.outward_unit_normal_vector(nodes)
     nx, ny = onv
     trStar_vc = tvc(*xy)[0]
-    trace_1f = vx * ny - vy * nx  # <~ | trace-inner-f>;
+    trace_1f = vy * nx - vx * ny  # <~ | trace-inner-f>;
     JM = face.ct.Jacobian_matrix(nodes)
     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
     face_boundary_integration_vec = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
@@ -280,7 +280,7 @@ def ___bi_vc_221i_quad_9___(element, degree, face, tvc):
     onv = face.ct.outward_unit_normal_vector(nodes)
     nx, ny = onv
     trStar_vc = tvc(*xy)[0]
-    trace_1f = vx * ny - vy * nx  # <~ | trace-inner-f>;
+    trace_1f = vy * nx - vx * ny  # <~ | trace-inner-f>;
     JM = face.ct.Jacobian_matrix(nodes)
     Jacobian = np.sqrt(JM[0]**2 + JM[1]**2)
     face_boundary_integration_vec = np.sum(trStar_vc * trace_1f * weights * Jacobian, axis=1)
diff --git a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
index b72e6e0..3168372 100644
--- a/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
+++ b/msepy/form/boundary_integrate/with_vc_over_boundary_section/Lambda.py
@@ -332,7 +332,7 @@ class BoundaryIntegrateVCBSLambda(Frozen):
             # below, we evaluate vc on the boundary
             trStar_vc = vc(t, *xy)[0]
             # this vector calculus object (a scalar) is for all regions; # <trStar_vc | ~>
-            trace_1f = vx * ny - vy * nx  # <~ | trace-inner-1-f>
+            trace_1f = vy * nx - vx * ny  # <~ | trace-inner-1-f>
 
             if face.is_orthogonal():
                 length = face.length
-- 
2.43.0


From 1791dbade0bc4ecd9c645c6e9b513f103eef1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:13 +0000
Subject: [PATCH 46/51] fix: essential conditions on a mass matrix leak into
 other terms with the same mass matrix

---
 msehtt/static/implementation_array_parser.py | 24 +++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/msehtt/static/implementation_array_parser.py b/msehtt/static/implementation_array_parser.py
index c16146b..008e999 100644
--- a/msehtt/static/implementation_array_parser.py
+++ b/msehtt/static/implementation_array_parser.py
@@ -186,25 +186,27 @@ def Parse__M_matrix(space, str_degree0, str_degree1):
     space = _find_space_through_pure_lin_repr(space)
     key = (space, str_degree0, str_degree1)
     if key in _setting_['_cache_M_']:
-        return _setting_['_cache_M_'][key]
+        pass
     else:
         if degree0 == degree1:
             degree = degree0
             gm = space.gathering_matrix(degree)
             m, cache_key_dict = space.mass_matrix(degree)
-            M = MseHttStaticLocalMatrix(  # make a new copy every single time.
-                m,
-                gm,
-                gm,
-                cache_key=cache_key_dict,
-                signature=space.__repr__() + '+MM+' + _degree_str_maker(degree),
-            )
-            RETURN = M, None  # time_indicator is None, mean M is same at all time.
         else:
             raise NotImplementedError()
 
-        _setting_['_cache_M_'][key] = RETURN
-        return RETURN
+        _setting_['_cache_M_'][key] = m, gm, cache_key_dict
+
+    # cache the data only: a matrix may be customized (for example, by essential bc), so it must not be shared.
+    m, gm, cache_key_dict = _setting_['_cache_M_'][key]
+    M = MseHttStaticLocalMatrix(  # make a new copy every single time.
+        m,
+        gm,
+        gm,
+        cache_key=cache_key_dict,
+        signature=space.__repr__() + '+MM+' + _degree_str_maker(degree0),
+    )
+    return M, None  # time_indicator is None, mean M is same at all time.
 
 
 def Parse__E_matrix(space, degree):
-- 
2.43.0


From d8aae7e9d0dc65396455624f2f2596af5395428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:02 +0000
Subject: [PATCH 47/51] fix: convection_by of 2-d and 3-d scalars and 3-d
 vectors works (class names, missing derivative)

---
 tools/functions/time_space/_2d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/scalar.py | 2 +-
 tools/functions/time_space/_3d/wrappers/vector.py | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/functions/time_space/_2d/wrappers/scalar.py b/tools/functions/time_space/_2d/wrappers/scalar.py
index 3a21729..ef108d3 100644
--- a/tools/functions/time_space/_2d/wrappers/scalar.py
+++ b/tools/functions/time_space/_2d/wrappers/scalar.py
@@ -372,7 +372,7 @@ class T2dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t2dVector", f"I need a t2dVector."
+        assert u.__class__.__name__ == "T2dVector", f"I need a T2dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/scalar.py b/tools/functions/time_space/_3d/wrappers/scalar.py
index d310ca2..64f8afa 100644
--- a/tools/functions/time_space/_3d/wrappers/scalar.py
+++ b/tools/functions/time_space/_3d/wrappers/scalar.py
@@ -233,7 +233,7 @@ class T3dScalar(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._dx is None:
             px = self._NPD_('x')
diff --git a/tools/functions/time_space/_3d/wrappers/vector.py b/tools/functions/time_space/_3d/wrappers/vector.py
index 7c0d528..e34bcf4 100644
--- a/tools/functions/time_space/_3d/wrappers/vector.py
+++ b/tools/functions/time_space/_3d/wrappers/vector.py
@@ -408,7 +408,7 @@ class T3dVector(TimeSpaceFunctionBase):
         -------
 
         """
-        assert u.__class__.__name__ == "t3dVector", f"I need a t3dVector."
+        assert u.__class__.__name__ == "T3dVector", f"I need a T3dVector."
 
         if self._du_dx is None:
             v0px = self._NPD0_('x')
@@ -435,7 +435,7 @@ class T3dVector(TimeSpaceFunctionBase):
         else:
             v1py = self._dv_dy
 
-        if self._dv_dz:
+        if self._dv_dz is None:
             v1pz = self._NPD1_('z')
         else:
             v1pz = self._dv_dz
-- 
2.43.0


From 854c4c914713c60b8dd06b4ebab8631ee1500201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:02 +0000
Subject: [PATCH 48/51] fix: the mass of 3-d scalar forms is integrated over
 three axes

---
 msehtt/static/space/mass/Lambda/mass_m3n3k0.py | 2 +-
 msehtt/static/space/mass/Lambda/mass_m3n3k3.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
index 21a708f..0b76daa 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k0.py
@@ -40,7 +40,7 @@ def _mass330_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
diff --git a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
index 7016b4a..042d64a 100644
--- a/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
+++ b/msehtt/static/space/mass/Lambda/mass_m3n3k3.py
@@ -40,7 +40,7 @@ def _mass333_msepy_quadrilateral_(element, local_cochain, degree):
     meshgrid = np.meshgrid(*nodes, indexing='ij')
     J = element.ct.Jacobian(*meshgrid)
     mass = np.einsum(
-        'ij, i, j -> ',
+        'ijk, i, j, k -> ',
         J * u, *weights,
         optimize='optimal'
     )
-- 
2.43.0


From 9d7e5c42f252b200d335c215e2677f7a0b205603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:02 +0000
Subject: [PATCH 49/51] fix: component-wise norms of 3-d forms are norms, with
 the metric at the quadrature nodes

---
 msehtt/static/space/norm/Lambda/norm_m3n3k1.py | 5 +++--
 msehtt/static/space/norm/Lambda/norm_m3n3k2.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msehtt/static/space/norm/Lambda/norm_m3n3k1.py b/msehtt/static/space/norm/Lambda/norm_m3n3k1.py
index 812a073..f99b724 100644
--- a/msehtt/static/space/norm/Lambda/norm_m3n3k1.py
+++ b/msehtt/static/space/norm/Lambda/norm_m3n3k1.py
@@ -39,6 +39,7 @@ def ___norm_Lambda__m3n3k1_component_wise___(tpm, degree, cochain, norm_type='L2
     qp = tuple([_ + 2 for _ in p])
     quad = quadrature(qp, 'Gauss')
     nodes, weights = quad.quad
+    meshgrid = np.meshgrid(*nodes, indexing='ij')
     elements = tpm.composition
     U, V, W = reconstruct_Lambda__m3n3k1(tpm, degree, cochain, *nodes, ravel=False)[1]
     local_norm_U = []
@@ -47,7 +48,7 @@ def ___norm_Lambda__m3n3k1_component_wise___(tpm, degree, cochain, norm_type='L2
     if norm_type == 'L2':
         for i in U:
             element = elements[i]
-            detJM = element.ct.Jacobian(*nodes)
+            detJM = element.ct.Jacobian(*meshgrid)
             local_norm_U.append(
                 np.einsum('ijk, i, j, k ->', U[i]**2 * detJM, *weights, optimize='optimal')
             )
@@ -68,4 +69,4 @@ def ___norm_Lambda__m3n3k1_component_wise___(tpm, degree, cochain, norm_type='L2
     global_norm_V = COMM.allreduce(local_norm_V, op=MPI.SUM)
     global_norm_W = COMM.allreduce(local_norm_W, op=MPI.SUM)
 
-    return global_norm_U, global_norm_V, global_norm_W
+    return global_norm_U ** 0.5, global_norm_V ** 0.5, global_norm_W ** 0.5
diff --git a/msehtt/static/space/norm/Lambda/norm_m3n3k2.py b/msehtt/static/space/norm/Lambda/norm_m3n3k2.py
index 668754c..1a09b0b 100644
--- a/msehtt/static/space/norm/Lambda/norm_m3n3k2.py
+++ b/msehtt/static/space/norm/Lambda/norm_m3n3k2.py
@@ -38,6 +38,7 @@ def ___norm_Lambda__m3n3k2_component_wise___(tpm, degree, cochain, norm_type='L2
     qp = tuple([_ + 2 for _ in p])
     quad = quadrature(qp, 'Gauss')
     nodes, weights = quad.quad
+    meshgrid = np.meshgrid(*nodes, indexing='ij')
     elements = tpm.composition
     U, V, W = reconstruct_Lambda__m3n3k2(tpm, degree, cochain, *nodes, ravel=False)[1]
     local_norm_U = []
@@ -46,7 +47,7 @@ def ___norm_Lambda__m3n3k2_component_wise___(tpm, degree, cochain, norm_type='L2
     if norm_type == 'L2':
         for i in U:
             element = elements[i]
-            detJM = element.ct.Jacobian(*nodes)
+            detJM = element.ct.Jacobian(*meshgrid)
             local_norm_U.append(
                 np.einsum('ijk, i, j, k ->', U[i]**2 * detJM, *weights, optimize='optimal')
             )
@@ -67,4 +68,4 @@ def ___norm_Lambda__m3n3k2_component_wise___(tpm, degree, cochain, norm_type='L2
     global_norm_V = COMM.allreduce(local_norm_V, op=MPI.SUM)
     global_norm_W = COMM.allreduce(local_norm_W, op=MPI.SUM)
 
-    return global_norm_U, global_norm_V, global_norm_W
+    return global_norm_U ** 0.5, global_norm_V ** 0.5, global_norm_W ** 0.5
-- 
2.43.0


From 7ce8421a10d3346f23083bda51711b3e14403783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:07 +0000
Subject: [PATCH 50/51] fix: mass matrices of 1- and 2-forms in curved
 hexahedra are those of the full metric

---
 .../space/mass_matrix/Lambda/MM_m3n3k1.py     | 27 +++++++++++++--
 .../space/mass_matrix/Lambda/MM_m3n3k2.py     | 33 +++++++++++++++----
 2 files changed, 51 insertions(+), 9 deletions(-)

diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
index 73a7bb7..9eb87b2 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k1.py
@@ -119,14 +119,35 @@ def ___mm331_unique_hexahedron___(element, degree):
         bf[2], bf[2],
         optimize='optimal'
     )
+    M01 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[0][1],
+        bf[0], bf[1],
+        optimize='optimal'
+    )
+    M02 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[0][2],
+        bf[0], bf[2],
+        optimize='optimal'
+    )
+    M12 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * G[1][2],
+        bf[1], bf[2],
+        optimize='optimal'
+    )
     M00 = csr_matrix(M00)
     M11 = csr_matrix(M11)
     M22 = csr_matrix(M22)
+    M01 = csr_matrix(M01)
+    M02 = csr_matrix(M02)
+    M12 = csr_matrix(M12)
     M = bmat(
         [
-            (M00, None, None),
-            (None, M11, None),
-            (None, None, M22)
+            (M00, M01, M02),
+            (M01.T, M11, M12),
+            (M02.T, M12.T, M22)
         ], format='csr'
     )
 
diff --git a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
index 664fa9b..956be66 100644
--- a/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
+++ b/msehtt/static/space/mass_matrix/Lambda/MM_m3n3k2.py
@@ -103,30 +103,51 @@ def ___mm332_unique_hexahedron___(element, degree):
     g = element.ct.inverse_metric_matrix(*xi_et_sg)
     M00 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[1][1]*g[2][2],
+        quad_weights * detJM * (g[1][1]*g[2][2] - g[1][2]*g[2][1]),
         bf[0], bf[0],
         optimize='optimal'
     )
     M11 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[2][2]*g[0][0],
+        quad_weights * detJM * (g[2][2]*g[0][0] - g[2][0]*g[0][2]),
         bf[1], bf[1],
         optimize='optimal'
     )
     M22 = np.einsum(
         'm, im, jm -> ij',
-        quad_weights * detJM * g[0][0]*g[1][1],
+        quad_weights * detJM * (g[0][0]*g[1][1] - g[0][1]*g[1][0]),
         bf[2], bf[2],
         optimize='optimal'
     )
+    M01 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[1][2]*g[2][0] - g[1][0]*g[2][2]),
+        bf[0], bf[1],
+        optimize='optimal'
+    )
+    M02 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[1][0]*g[2][1] - g[1][1]*g[2][0]),
+        bf[0], bf[2],
+        optimize='optimal'
+    )
+    M12 = np.einsum(
+        'm, im, jm -> ij',
+        quad_weights * detJM * (g[2][0]*g[0][1] - g[2][1]*g[0][0]),
+        bf[1], bf[2],
+        optimize='optimal'
+    )
     M00 = csr_matrix(M00)
     M11 = csr_matrix(M11)
     M22 = csr_matrix(M22)
+    M01 = csr_matrix(M01)
+    M02 = csr_matrix(M02)
+    M12 = csr_matrix(M12)
     M = bmat(
         [
-            (M00, None, None),
-            (None, M11, None),
-            (None, None, M22)
+            (M00, M01, M02),
+            (M01.T, M11, M12),
+            (M02.T, M12.T, M22)
         ], format='csr'
     )
 
-- 
2.43.0


From 6eee904916fff0249a0647e22bb91daf812b5011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:13 +0000
Subject: [PATCH 51/51] fix: inner products of 1-forms use the Jacobian at the
 quadrature nodes of curved elements

---
 msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py b/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
index 7c7d6a2..5991c14 100644
--- a/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
+++ b/msehtt/static/space/inner_product/Lambda_Lambda/IP_LL_m2n2k1.py
@@ -70,7 +70,7 @@ def ___Lambda_ip_Lambda_over_SameTPM_m2n2k1___(
         v2 = V2[e]
 
         element = elements[e]
-        detJM = element.ct.Jacobian(quad_nodes, quad_nodes)
+        detJM = element.ct.Jacobian(*np.meshgrid(quad_nodes, quad_nodes, indexing='ij'))
 
         if inner_type == 'L2':
             ipe = np.einsum(
-- 
2.43.0

