From a4cad9d76eec10040c009caf4ec75db71b6fdc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:56 +0000
Subject: [PATCH 01/38] fix: CyclicProduct pulls invariant factors out once per
 group element

Factors and contents were raised to the number of symbols, which is only the
number of terms for the cyclic group.
---
 triples/utils/expression/cyclic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 0e71db3..4522310 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -618,7 +618,7 @@ class CyclicProduct(CyclicExpr):
 
         if isinstance(expr, Mul):
             cyc_args = list(filter(lambda x: is_cyclic_expr(x, symbols, perm), expr.args))
-            cyc_args = [arg ** len(symbols) for arg in cyc_args]
+            cyc_args = [arg ** perm.order() for arg in cyc_args]
             uncyc_args = list(filter(lambda x: not is_cyclic_expr(x, symbols, perm), expr.args))
             obj0 = Mul(*[cls(arg, symbols, perm) for arg in uncyc_args])
             obj = Mul(obj0, *cyc_args)
@@ -629,7 +629,7 @@ class CyclicProduct(CyclicExpr):
         c, p = self.args[0].as_content_primitive(radical=radical, clear=clear)
         if c is S.One:
             return S.One, self
-        return c ** len(self.symbols), CyclicProduct(p, *self.args[1:])
+        return c ** self.perm.order(), CyclicProduct(p, *self.args[1:])
 
 
 def SymmetricSum(expr, symbols, **kwargs):
-- 
2.43.0


From f94a56b3f7a292eb226a6ff7bd1210cf7f93cbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:57 +0000
Subject: [PATCH 02/38] fix: expand a cyclic expression when a partial
 replacement does not split its group

If the permutation group is not the direct product of the two pointwise
stabilizers, splitting the replacement loses terms.
---
 triples/utils/expression/cyclic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 4522310..eb79975 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -376,6 +376,9 @@ class CyclicExpr(sp.Expr):
             new_args = []
             changed = False
             stab_perp = self.perm.pointwise_stabilizer(list(unchanged_inds))
+            if stab.order() * stab_perp.order() != self.perm.order():
+                # the group is not the direct product of the two subgroups
+                return _fallback_xreplace(self, rule)
             for p in stab_perp.elements:
                 # make every unchanged inds unchanged
                 # i.e. stab_perp.contains(p)
-- 
2.43.0


From 695c1219c6f03f8c694cb6bcd0d2805d5e6971a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:13 +0000
Subject: [PATCH 03/38] fix: fixed-width matrix products misjudge the entry
 -2**63

abs() of an int64 array overflows at -2**63, so the guard saw a negative maximum.
---
 triples/sdp/arithmetic.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 5245375..c9e3048 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -623,6 +623,10 @@ def _cast_sympy_matrix_to_numpy(sympy_mat_rep, dtype: str = 'int64'):
         arr[row_indices, col_indices] = data_list
     return arr
 
+def _max_abs(arr) -> int:
+    """Maximum absolute value of an integer array. `abs(arr)` is not safe since abs(-2**63) overflows."""
+    return max(int(arr.max()), -int(arr.min()))
+
 def _cast_list_to_sympy_matrix(rows: int, cols: int, lst: List[int]) -> sp.Matrix:
     """Convert a list of INTEGER values to a sympy matrix efficiently."""
     sdm = {}
@@ -670,7 +674,7 @@ def matmul(A: sp.Matrix, B: sp.Matrix, return_shape = None) -> sp.Matrix:
         A = _cast_sympy_matrix_to_numpy(A, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXA = abs(A).max()
+    _MAXA = _max_abs(A)
     if isnan(_MAXA) or _MAXA == inf or _MAXA > _INT64_MAX:
         return default(A0, B0)
 
@@ -679,7 +683,7 @@ def matmul(A: sp.Matrix, B: sp.Matrix, return_shape = None) -> sp.Matrix:
         B = _cast_sympy_matrix_to_numpy(B, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXB = abs(B).max()
+    _MAXB = _max_abs(B)
     if isnan(_MAXB) or _MAXB == inf or _MAXB > _INT64_MAX or int(_MAXA) * int(_MAXB) * B.shape[0] > _INT64_MAX:
         return default(A0, B0)
 
@@ -734,7 +738,7 @@ def matmul_multiple(A: sp.Matrix, B: sp.Matrix) -> sp.Matrix:
         A = _cast_sympy_matrix_to_numpy(A, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXA = abs(A).max()
+    _MAXA = _max_abs(A)
     if isnan(_MAXA) or _MAXA == inf or _MAXA > _INT64_MAX:
         return default(A0, B0)
 
@@ -743,7 +747,7 @@ def matmul_multiple(A: sp.Matrix, B: sp.Matrix) -> sp.Matrix:
         B = _cast_sympy_matrix_to_numpy(B, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXB = abs(B).max()
+    _MAXB = _max_abs(B)
     if isnan(_MAXB) or _MAXB == inf or _MAXB > _INT64_MAX or int(_MAXA) * int(_MAXB) * n > _INT64_MAX:
         return default(A0, B0)
 
@@ -838,7 +842,7 @@ def symmetric_bilinear_multiple(U: sp.Matrix, A: sp.Matrix) -> sp.Matrix:
         A = _cast_sympy_matrix_to_numpy(A, dtype = 'int64')
     except OverflowError:
         return default(A0, U0)
-    _MAXA = abs(A).max()
+    _MAXA = _max_abs(A)
     if isnan(_MAXA) or _MAXA == inf or _MAXA > _INT64_MAX:
         return default(A0, U0)
 
@@ -847,7 +851,7 @@ def symmetric_bilinear_multiple(U: sp.Matrix, A: sp.Matrix) -> sp.Matrix:
         U = _cast_sympy_matrix_to_numpy(U, dtype = 'int64')
     except OverflowError:
         return default(A0, U0)
-    _MAXU = abs(U).max()
+    _MAXU = _max_abs(U)
     if isnan(_MAXU) or _MAXU == inf or _MAXU > _INT64_MAX or int(_MAXA) * int(_MAXU)**2 * n**2 > _INT64_MAX:
         return default(A0, U0)
     A = A.reshape((N, n, n))
-- 
2.43.0


From 0363c6375b8f5f08ab7ae13e21fcb908efeec587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:05 +0000
Subject: [PATCH 04/38] fix: cvxopt backend passes its options per call

It changed the global cvxopt.solvers.options, so one solve's options affected
later solves and the caller's own cvxopt use.
---
 triples/sdp/backend/cvxopt_sdp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/triples/sdp/backend/cvxopt_sdp.py b/triples/sdp/backend/cvxopt_sdp.py
index f34e7c0..3f7f9bc 100644
--- a/triples/sdp/backend/cvxopt_sdp.py
+++ b/triples/sdp/backend/cvxopt_sdp.py
@@ -46,13 +46,14 @@ class DualBackendCVXOPT(DualBackend):
     def solve(self, solver_options = {}) -> np.ndarray:
         from cvxopt import solvers
 
-        solvers.options['show_progress'] = False
+        options = dict(solvers.options)
+        options['show_progress'] = False
 
         # configure kktsolver to handle ValueError: Rank(A) < p or Rank([P; A; G]) < n
         # https://ask.csdn.net/questions/1102440
-        solvers.options['kktreg'] = 1e-9
-        solvers.options.update(solver_options)
-        sol = solvers.sdp(self._c, Gs=self._Gs, hs=self._hs, kktsolver='ldl')
+        options['kktreg'] = 1e-9
+        options.update(solver_options)
+        sol = solvers.sdp(self._c, Gs=self._Gs, hs=self._hs, kktsolver='ldl', options=options)
         self.y = sol['x']
         self.solution = sol
 
-- 
2.43.0


From d0ff6008452dbcf095f70cb738a92489d46b7f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:05 +0000
Subject: [PATCH 05/38] fix: indented_print restores print when its body raises

---
 triples/sdp/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index cfe922e..c51d853 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -554,5 +554,7 @@ def indented_print(indent = 4, indent_fill = ' ', verbose = True):
         old_print(*args, **kwargs)
 
     builtins.print = new_print
-    yield
-    builtins.print = old_print
\ No newline at end of file
+    try:
+        yield
+    finally:
+        builtins.print = old_print
\ No newline at end of file
-- 
2.43.0


From 6c6dd2b3da89ec0be79e5f66c7f4513f6a3abd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:19 +0000
Subject: [PATCH 06/38] fix: text properties of a solution restore
 CyclicExpr.PRINT_WITH_PARENS

---
 triples/utils/expression/solution.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 7594421..7670354 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -1,3 +1,4 @@
+from contextlib import contextmanager
 from typing import Optional, List, Union, Tuple
 import re
 from warnings import warn
@@ -11,6 +12,16 @@ from sympy.combinatorics import PermutationGroup, Permutation
 
 from ..expression.cyclic import is_cyclic_expr, CyclicSum, CyclicProduct, CyclicExpr, rewrite_symmetry
 
+@contextmanager
+def _print_with_parens(flag: bool):
+    """Set `CyclicExpr.PRINT_WITH_PARENS` temporarily."""
+    old = CyclicExpr.PRINT_WITH_PARENS
+    CyclicExpr.PRINT_WITH_PARENS = flag
+    try:
+        yield
+    finally:
+        CyclicExpr.PRINT_WITH_PARENS = old
+
 def _solution_latex_to_txt(s: str) -> str:
     """
     Turn a latex string into a text string.
@@ -157,8 +168,8 @@ class Solution():
         return "$$%s %s %s$$"%(self._str_f(), equal_sign, s)
 
     @property
+    @_print_with_parens(False)
     def str_txt(self) -> str:
-        CyclicExpr.PRINT_WITH_PARENS = False
         # s = _solution_latex_to_txt(self.str_latex)
         s = str(self.solution)
         equal_sign = '=' if self.is_equal else '≈'
@@ -173,8 +184,8 @@ class Solution():
         return s
 
     @property
+    @_print_with_parens(True)
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
         s = str(self.solution)
         equal_sign = '=' if self.is_equal else '≈'
         replacements = dict([
@@ -443,8 +454,8 @@ class SolutionSimple(Solution):
         return s
 
     @property
+    @_print_with_parens(False)
     def str_txt(self):
-        CyclicExpr.PRINT_WITH_PARENS = False
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
@@ -464,8 +475,8 @@ class SolutionSimple(Solution):
         return s
 
     @property
+    @_print_with_parens(True)
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
-- 
2.43.0


From 86945154c5df64de87a3dadf786b9247ddc56d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:09 +0000
Subject: [PATCH 07/38] fix: monomial shortcut of StructuralSOS requires the
 constraints it uses

---
 triples/core/structsos/structsos.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/structsos.py b/triples/core/structsos/structsos.py
index 02ea9ca..41df644 100644
--- a/triples/core/structsos/structsos.py
+++ b/triples/core/structsos/structsos.py
@@ -48,6 +48,25 @@ def StructuralSOS(
     return solution
 
 
+def _replace_nonnegative_symbols(expr: sp.Expr, gens, ineq_constraints: Dict[sp.Poly, sp.Expr]) -> Optional[sp.Expr]:
+    """
+    Replace the symbols that the expression assumes to be nonnegative with the
+    inequality constraints. Return None if some of them are not constrained.
+    """
+    func_name = uniquely_named_symbol('G', gens + tuple(ineq_constraints.values()))
+    func = sp.Function(func_name)
+    expr = SolutionStructural._extract_nonnegative_exprs(expr, func_name=func_name)
+    if expr is None:
+        return None
+
+    replacement = {}
+    for k, v in ineq_constraints.items():
+        if k.is_linear and k.is_monomial and len(k.free_symbols) == 1 and k.LC() >= 0:
+            replacement[func(k.free_symbols.pop())] = v/k.LC()
+    expr = expr.xreplace(replacement)
+    return None if expr.has(func) else expr
+
+
 def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}, eq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> sp.Expr:
     """
     Internal function of StructuralSOS, returns a sympy expression only.
@@ -58,8 +77,11 @@ def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}
     if poly.is_monomial:
         if poly.LC() >= 0:
             # since the poly is homogeneous, it must be a monomial
-            return poly.as_expr()
-        return None
+            solution = _replace_nonnegative_symbols(poly.as_expr(), poly.gens, ineq_constraints)
+            if solution is not None:
+                return solution
+        else:
+            return None
 
     poly, ineq_constraints, eq_constraints = clear_free_symbols(poly, ineq_constraints, eq_constraints)
     d = poly.total_degree()
-- 
2.43.0


From 778a108b90a3f141da9737976e63ba1a6975e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:41 +0000
Subject: [PATCH 08/38] fix: sum_of_squares_multiple works on a copy of
 poly_reader_configs

---
 triples/core/sum_of_squares.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index ca73026..7d1a9ea 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -197,6 +197,7 @@ def sum_of_squares_multiple(
         if key in ('LinearSOS', 'SDPSOS'):
             configs[key]['verbose'] = verbose_sos
 
+    poly_reader_configs = dict(poly_reader_configs)
     if 'ignore_errors' not in poly_reader_configs:
         poly_reader_configs['ignore_errors'] = True
     read_polys = PolyReader(polys, **poly_reader_configs)
-- 
2.43.0


From 7f687044d65303db2f87ae1becae609469c17522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:41 +0000
Subject: [PATCH 09/38] fix: SOS_Manager silences the solvers without changing
 the caller's configs

---
 triples/gui/sos_manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 835367e..ab48c4c 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -233,9 +233,9 @@ class SOS_Manager():
                 poly = poly.as_poly(*nonzero_gens)
 
         if cls.verbose is False:
+            configs = dict(configs)
             for method in ('LinearSOS', 'SDPSOS'):
-                if configs.get(method) is None:
-                    configs[method] = {}
+                configs[method] = dict(configs.get(method) or {})
                 configs[method]['verbose'] = False
         method_order = cls.CONFIG_METHOD_CHECK(poly, method_order)
 
-- 
2.43.0


From ecaa30976b274b733b0503bf8fa0dd2af716b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:42 +0000
Subject: [PATCH 10/38] fix: SOS_Manager.sum_of_squares returns None when no
 method succeeds

---
 triples/gui/sos_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index ab48c4c..c2191fb 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -246,7 +246,7 @@ class SOS_Manager():
             method_order = method_order,
             configs = configs
         )
-        if cls.CONFIG_STANDARDIZE_CYCLICEXPR:
+        if solution is not None and cls.CONFIG_STANDARDIZE_CYCLICEXPR:
             solution = solution.rewrite_symmetry(gens, perm)
         return solution
 
-- 
2.43.0


From 340b03e269d5b139930e32245f45d9d15f139397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:53 +0000
Subject: [PATCH 11/38] fix: SDP problems keep their own copy of the matrix
 dictionaries they are given

---
 triples/sdp/abstract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index 0715c4f..ba2c585 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -46,6 +46,7 @@ class SDPProblemBase(ABC):
             keys = ['S_%d'%i for i in range(len(arg))]
             arg = dict(zip(keys, arg))
         elif isinstance(arg, dict):
+            arg = arg.copy()
             keys = list(arg.keys())
         else:
             raise TypeError(f"The {argname} should be a dict or a list of parameters.")
@@ -78,6 +79,7 @@ class SDPProblemBase(ABC):
         """
         if not set(mat_dict.keys()) == set(self.keys()):
             raise ValueError("The keys of the matrix dictionary should be the same as the keys of the SDP problem.")
+        mat_dict = dict(mat_dict)
         for key, X in mat_dict.items():
             if not isinstance(X, MatrixBase):
                 raise ValueError("The values of the matrix dictionary should be sympy MatrixBase.")
-- 
2.43.0


From 766b408cd50597d7208d0a802892e8881a81bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:29 +0000
Subject: [PATCH 12/38] fix: rpa_polyopt does not modify the bounds it is given

---
 triples/utils/roots/monotonic_opt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 889fffb..51e7d6c 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -459,6 +459,7 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
         a = [a] * nvars
     if not hasattr(b, '__iter__'):
         b = [b] * nvars
+    a, b = list(a), list(b)
 
     from sympy.plotting.experimental_lambdify import vectorized_lambdify
     def wrap(gens, f):
-- 
2.43.0


From 9c6d6b7a88366469f4269316054e8a3f35f6b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:33 +0000
Subject: [PATCH 13/38] fix: forced numerical SDP solutions keep the shape of
 decompositions

---
 triples/sdp/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index ba2c585..e57a2cd 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -261,7 +261,7 @@ class SDPProblemBase(ABC):
 
                 def _force_return(self: SDPProblemBase, y):
                     self.register_y(y, perturb = True, propagate_to_parent = False)
-                    _decomp = dict((key, (s, d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
+                    _decomp = dict((key, (s, *d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
                     return y, _decomp
 
                 if allow_numer >= 3:
-- 
2.43.0


From 2b332be046217f1069c548d3afb9c57a945de273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:33 +0000
Subject: [PATCH 14/38] fix: SDPProblem.solve passes use_default_configs to the
 child problem

---
 triples/sdp/abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index e57a2cd..b73abd5 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -361,6 +361,7 @@ class SDPProblemBase(ABC):
                     min_eigen = min_eigen,
                     scaling = scaling,
                     solver = solver,
+                    use_default_configs = use_default_configs,
                     allow_numer = allow_numer,
                     verbose = verbose,
                     solve_child = solve_child,
-- 
2.43.0


From eb0302b5495837de8f689b2fdf62663315ce46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:33 +0000
Subject: [PATCH 15/38] fix: SDPSOS accepts preordering='none'

---
 triples/core/sdpsos/sdpsos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index 815d8cb..38e6a1d 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -589,7 +589,7 @@ def _SDPSOS(
 
     sos_problem = SOSProblem(poly, symmetry=symmetry)
 
-    qmodule_list = _get_qmodule_list(poly, ineq_constraints.items(),
+    qmodule_list = _get_qmodule_list(poly, list(ineq_constraints.items()),
                         ineq_constraints_with_trivial=ineq_constraints_with_trivial, preordering=preordering)
 
     # odd_degree_vars = [i for i in range(nvars) if poly.degree(i) % 2 == 1]
-- 
2.43.0


From 05cea75cc2a9b640310b69eccd77bad1e1fcb595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:33 +0000
Subject: [PATCH 16/38] fix: SDP solutions with numerical multipliers of
 equality constraints are inexact

---
 triples/core/sdpsos/solution.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/triples/core/sdpsos/solution.py b/triples/core/sdpsos/solution.py
index 40a5cb4..405ed00 100644
--- a/triples/core/sdpsos/solution.py
+++ b/triples/core/sdpsos/solution.py
@@ -44,7 +44,7 @@ class SolutionSDP(SolutionSimple):
             solution = qmodule_expr + ideal_expr,
             ineq_constraints = ineq_constraints,
             eq_constraints = eq_constraints,
-            is_equal = not _is_numer_solution(decompositions)
+            is_equal = not (_is_numer_solution(decompositions) or _is_numer_eqvec(eqvec))
         )
 
 def _decomp_as_sos(
@@ -106,4 +106,10 @@ def _is_numer_solution(decompositions: Dict[str, Tuple[sp.Matrix, sp.Matrix]]) -
     for _, (U, S) in decompositions.items():
         if is_numer_matrix(U) or is_numer_matrix(S):
             return True
-    return False
\ No newline at end of file
+    return False
+
+def _is_numer_eqvec(eqvec: Dict[sp.Poly, sp.Matrix]) -> bool:
+    """
+    Check whether the multipliers of the equality constraints are numerical.
+    """
+    return any(not isinstance(v, sp.Rational) for vec in eqvec.values() for v in vec)
-- 
2.43.0


From 0b1732d478e17896fedfe7afca53f5fa09146056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:07 +0000
Subject: [PATCH 17/38] fix: unsolved primal SDP problems do not overwrite
 their parents

---
 triples/sdp/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 0291108..95d98f7 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -82,6 +82,8 @@ class SDPCopyTransform(SDPTransformation):
 
     def propagate_to_parent(self, recursive: bool = True):
         parent, child = self.parent_node, self.child_node
+        if child.y is None:
+            return parent
         parent.y = child.y
         parent.S = child.S
         parent.decompositions = child.decompositions
@@ -430,6 +432,8 @@ class PrimalRowMasking(SDPRowMasking):
 
     def propagate_to_parent(self, recursive: bool = True):
         parent_node, child_node = self.parent_node, self.child_node
+        if child_node.y is None:
+            return parent_node
         mats = {key: sp.zeros(m, m) for key, m in parent_node.size.items()}
         y = sp.zeros(parent_node.dof, 1)
         y_offset = 0
-- 
2.43.0


From 013e525256c3bcf7644a8ab95c5f68207e2cf571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:27 +0000
Subject: [PATCH 18/38] fix: SOS_Manager method check accepts the default
 method order and many variables

---
 triples/gui/sos_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index c2191fb..59331bf 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -12,7 +12,7 @@ from ..utils import (
 )
 from ..utils.text_process import preprocess_text, degree_of_zero, coefficient_triangle
 from ..utils.roots import RootsInfo, GridRender, findroot
-from ..core.sum_of_squares import sum_of_squares, DEFAULT_CONFIGS
+from ..core.sum_of_squares import sum_of_squares, DEFAULT_CONFIGS, METHOD_ORDER
 from ..core.linsos import root_tangents
 
 
@@ -26,7 +26,9 @@ def _default_polynomial_check(poly: Poly, method_order: List[str]) -> List[str]:
     nvars = len(poly.gens) + (1 - is_hom)
     degree = poly.total_degree()
     upper_bounds = [30, 30, 30, 12, 11, 8, 6, 4, 4, 4, 4]
-    if degree > upper_bounds[nvars]:
+    if degree > upper_bounds[min(nvars, len(upper_bounds) - 1)]:
+        if method_order is None:
+            method_order = METHOD_ORDER
         # remove LinearSOS and SDPSOS
         method_order = [method for method in method_order if method not in ('LinearSOS', 'SDPSOS')]
     return method_order
-- 
2.43.0


From 0f8d5486a5caa7e65581710713898126934717f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:32 +0000
Subject: [PATCH 19/38] fix: set_poly does not evaluate the dehomogenize field
 as raw text

---
 triples/gui/sos_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 59331bf..222230c 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -118,6 +118,11 @@ class SOS_Manager():
 
         if dehomogenize is not None and dehomogenize is not False:
             try:
+                if not isinstance(dehomogenize, (int, float, Expr)):
+                    # do not sympify raw objects sent by a client
+                    if cls.CONFIG_RESTRICT_INPUT_CHARS and not all(ord(_) < 128 for _ in dehomogenize):
+                        raise ValueError('Invalid characters.')
+                    dehomogenize = preprocess_text(dehomogenize, gens=gens, perm=perm, return_type='expr')
                 dehomogenize = sp.S(dehomogenize)
                 if len(dehomogenize.free_symbols) == 0: # dehomogenize is a number
                     for i in range(len(poly.gens)-1, -1, -1):
-- 
2.43.0


From 5bba44f835b9127ba654ce8fb9b21dab770ccfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:32 +0000
Subject: [PATCH 20/38] fix: restrict the characters of tangents and
 coefficient requests before parsing

---
 triples/gui/sos_manager.py |   5 +
 web_main.py                | 713 +++++++++++++++++++------------------
 2 files changed, 363 insertions(+), 355 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 222230c..0fb09a8 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -265,6 +265,11 @@ class SOS_Manager():
 
     @classmethod
     def latex_coeffs(cls, txt, gens=CONFIG_DEFAULT_GENS, perm=CONFIG_DEFAULT_PERM, *args, **kwargs):
+        if cls.CONFIG_RESTRICT_INPUT_CHARS:
+            # see set_poly
+            if not all(ord(_) < 128 for _ in txt):
+                return ''
+
         try:
             poly, denom = preprocess_text(txt, gens=gens, perm=perm, return_type='frac')
         except:
diff --git a/web_main.py b/web_main.py
index 8c91930..490aac9 100644
--- a/web_main.py
+++ b/web_main.py
@@ -1,356 +1,359 @@
-# import inspect
-# import ctypes
-# import threading
-
-from flask import Flask, render_template, request, jsonify
-from flask_socketio import SocketIO, join_room, leave_room
-from flask_cors import CORS
-
-import sympy as sp
-
-from triples.utils.roots import RootTangent, RootsInfo
-from triples.utils.text_process import pl
-from triples.utils.expression.solution import SolutionSimple
-from triples.gui.sos_manager import SOS_Manager
-
-# def _async_raise(tid, exctype):
-#     '''Raises an exception in the threads with id tid'''
-#     if not inspect.isclass(exctype):
-#         raise TypeError("Only types can be raised (not instances)")
-#     res = ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid),
-#                                                      ctypes.py_object(exctype))
-#     if res == 0:
-#         raise ValueError("invalid thread id")
-#     elif res != 1:
-#         # "if it returns a number greater than one, you're in trouble,
-#         # and you should call it again with exc=NULL to revert the effect"
-#         ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid), None)
-#         raise SystemError("PyThreadState_SetAsyncExc failed")
-
-# class ThreadWithExc(threading.Thread):
-#     '''A thread class that supports raising an exception in the thread from
-#        another thread.
-#     '''
-#     def _get_my_tid(self):
-#         """determines this (self's) thread id
-
-#         CAREFUL: this function is executed in the context of the caller
-#         thread, to get the identity of the thread represented by this
-#         instance.
-#         """
-#         if not self.is_alive(): # Note: self.isAlive() on older version of Python
-#             raise threading.ThreadError("the thread is not active")
-
-#         # do we have it cached?
-#         if hasattr(self, "_thread_id"):
-#             return self._thread_id
-
-#         # no, look for it in the _active dict
-#         for tid, tobj in threading._active.items():
-#             if tobj is self:
-#                 self._thread_id = tid
-#                 return tid
-
-#         # TODO: in python 2.6, there's a simpler way to do: self.ident
-
-#         raise AssertionError("could not determine the thread's id")
-
-#     def raise_exc(self, exctype):
-#         """Raises the given exception type in the context of this thread.
-
-#         If the thread is busy in a system call (time.sleep(),
-#         socket.accept(), ...), the exception is simply ignored.
-
-#         If you are sure that your exception should terminate the thread,
-#         one way to ensure that it works is:
-
-#             t = ThreadWithExc( ... )
-#             ...
-#             t.raise_exc( SomeException )
-#             while t.isAlive():
-#                 time.sleep( 0.1 )
-#                 t.raise_exc( SomeException )
-
-#         If the exception is to be caught by the thread, you need a way to
-#         check that your thread has caught it.
-
-#         CAREFUL: this function is executed in the context of the
-#         caller thread, to raise an exception in the context of the
-#         thread represented by this instance.
-#         """
-#         _async_raise( self._get_my_tid(), exctype )
-
-class SOS_WEB(Flask):
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
-
-app = SOS_WEB(__name__, template_folder = './')
-CORS(app, supports_credentials=True)
-socketio = SocketIO(app, cors_allowed_origins="*")
-
-@socketio.on('connect')
-def on_connect():
-    sid = request.sid
-    join_room(sid)
-    print('Joined Room', sid)
-
-@socketio.on('disconnect')
-def on_disconnect():
-    sid = request.sid
-    leave_room(sid)
-    print('Left Room', sid)
-
-@app.route('/process/preprocess', methods=['POST'])
-def preprocess():
-    """
-    Process the input polynomial and emit the result to the client.
-    The parameters are passed as a JSON object in the request body.
-
-    Parameters
-    ----------
-    sid : str
-        The session ID.
-    poly : str
-        The input polynomial.
-    standardize_text : str
-        The standardization of the text. If None, the text is not standardized.
-        See `SOS_Manager.set_poly` for more information.
-    actions : list[str]
-        Additional actions to perform.
-
-    Returns
-    ----------
-    n : int
-        The degree of the polynomial.
-    txt : str
-        The formatted polynomial.
-    triangle : str
-        The coefficients formatted as a triangle.
-    heatmap : list[tuple[int, int, int, int]]
-        The heatmap of the polynomial coefficients in RGBA format.
-    """
-    req = request.get_json()
-
-    gens = req.get('gens', 'abc')
-    gens = tuple(sp.Symbol(_) for _ in gens)
-    perm = SOS_Manager._parse_perm_group(req.get('perm'))
-    req['gens'] = gens
-    req['perm'] = perm
-
-    result = SOS_Manager.set_poly(
-        req['poly'],
-        gens = gens,
-        perm = perm,
-        render_triangle = True if 3 <= len(gens) <= 4 else False,
-        render_grid = True,
-        homogenize = req.get('homogenize', False),
-        dehomogenize = req.get('dehomogenize', None),
-        standardize_text = req.get('standardize_text', None),
-        omit_mul = req.get('omit_mul', True),
-        omit_pow = req.get('omit_pow', True),
-    )
-    if result is None:
-        return jsonify()
-
-    n = result['degree']
-    txt = result['txt']
-    triangle = result.get('triangle', None)
-    grid = result.get('grid', None)
-    grid_color = grid.grid_color if grid is not None else None
- 
-    sid = req.pop('sid')
-    req.update(result)
-    socketio.start_background_task(findroot, sid, **req)
-    # thread = ThreadWithExc(target=findroot, args=(sid,), kwargs=req)
-    # thread.daemon = True
-    # thread.start()
-    # socketio.sleep(3)
-    # thread.raise_exc(SystemExit)
-
-    return jsonify(n = n, txt = txt, triangle = triangle, heatmap = grid_color)
-
-def findroot(sid, **kwargs):
-    """
-    Find the root information of the polynomial and emit the result to the client.
-
-    Parameters
-    ----------
-    sid : str
-        The session ID.
-    poly : str
-        The input polynomial.
-    grid : Grid
-        The grid of the polynomial coefficients. This is passed in
-        internally by the `preprocess` function.
-    tangents : list[str]
-        The tangents to the roots. If provided, the tangents are not recalculated.
-    actions : list[str]
-        Additional actions to perform.
-
-    Returns
-    ----------
-    rootsinfo : str
-        The string representation of the roots information.
-    tangents : list[str]
-        The tangents to the roots.    
-    """
-    if 'findroot' in kwargs['actions']:
-        poly = kwargs['poly']
-        grid = kwargs.get('grid', None)
-        rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
-        tangents = kwargs.get('tangents')
-        if tangents is None:
-            tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
-            socketio.emit(
-                'rootangents',
-                {
-                    'rootsinfo': rootsinfo.gui_description,
-                    'tangents': tangents,
-                    'timestamp': kwargs.get('timestamp', 0)
-                },
-                to=sid
-            )
-        elif 'sos' in kwargs['actions']:
-            tangents = []
-            for tg in kwargs['tangents'].split('\n'):
-                if len(tg) > 0:
-                    try:
-                        tg = pl(tg, gens=kwargs['gens'], perm=kwargs['perm'])
-                        if tg is not None:
-                            # and (tg.domain in (sp.ZZ, sp.QQ)):
-                            tg = tg.as_expr()
-                            # tangents.append(RootTangent(tg))
-                            if 'configs' not in kwargs:
-                                kwargs['configs'] = {'LinearSOS': {'tangents': []}}
-                            elif 'LinearSOS' not in kwargs['configs']:
-                                kwargs['configs']['LinearSOS'] = {'tangents': []}
-                            elif 'tangents' not in kwargs['configs']['LinearSOS']:
-                                kwargs['configs']['LinearSOS']['tangents'] = []
-                            kwargs['configs']['LinearSOS']['tangents'].append(tg**2)
-                    except:
-                        pass
-            rootsinfo.tangents = tangents
-    if 'sos' in kwargs['actions']:
-        kwargs['rootsinfo'] = rootsinfo
-        sum_of_squares(sid, **kwargs)
-
-
-def sum_of_squares(sid, **kwargs):
-    """
-    Perform the sum of square decomposition, and emit the result to the client.
-    Always emit the result to the client, even if the solution is None or an error occurs.
-
-    Parameters
-    ----------
-    sid : str
-        The session ID.
-    poly : str
-        The input polynomial.
-    methods : dict[str, bool]
-        The methods to use.
-    configs : dict[str, dict]
-        The configurations for each method.
-    rootsinfo : RootsInfo
-        The roots information. This is passed in internally by the `findroot` function.
-
-    Returns
-    ----------
-    latex : str
-        The LaTeX representation of the solution.
-    txt : str
-        The text representation of the solution.
-    formatted : str
-        The formatted representation of the solution.
-    success : bool
-        Whether the solution was found.
-    """
-    rootsinfo = kwargs['rootsinfo'] or RootsInfo()
-    try:
-        method_order = [key for key, value in kwargs['methods'].items() if value]
-
-        if 'LinearSOS' in method_order:
-            if 'LinearSOS' not in kwargs['configs']:
-                kwargs['configs']['LinearSOS'] = {}
-            kwargs['configs']['LinearSOS']['rootsinfo'] = rootsinfo
-
-        gens = kwargs['gens']
-        ineq_constraints = kwargs['poly'].free_symbols if SOS_Manager.CONFIG_ALLOW_NONSTANDARD_GENS else gens
-        solution = SOS_Manager.sum_of_squares(
-            kwargs['poly'],
-            ineq_constraints = list(ineq_constraints),
-            eq_constraints = [],
-            gens = gens,
-            perm = kwargs['perm'],
-            method_order = method_order,
-            configs = kwargs['configs']
-        )
-
-        assert solution is not None, 'No solution found.'
-    except Exception as e:
-        # raise e
-        return socketio.emit(
-            'sos',
-            {'latex': '', 'txt': '', 'formatted': '', 'success': False,
-                'timestamp': kwargs.get('timestamp', 0)},
-            to=sid
-        )
-
-    if isinstance(solution, SolutionSimple):
-        # # remove the aligned environment
-        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
-        latex_ = solution.str_latex#.replace('aligned', 'align*')
-
-    return socketio.emit(
-        'sos',
-        {'latex': latex_, 'txt': solution.str_txt, 'formatted': solution.str_formatted, 'success': True,
-            'timestamp': kwargs.get('timestamp', 0)},
-        to=sid
-    )
-
-@app.route('/process/latexcoeffs', methods=['POST'])
-def get_latex_coeffs():
-    """
-    Get the LaTeX representation of the coefficient triangle.
-
-    Parameters
-    ----------
-    poly : str
-        The input polynomial.
-    gens : str
-        The generator variables.
-    perm : str
-        The permutation group.
-
-    Returns
-    ----------
-    coeffs : str
-        The LaTeX representation of the coefficients
-    """
-    req = request.get_json()
-    poly = req['poly']
-    gens = tuple(sp.Symbol(_) for _ in req.get('gens', 'abc'))
-    perm = SOS_Manager._parse_perm_group(req.get('perm'))
-    coeffs = SOS_Manager.latex_coeffs(poly, gens, perm,
-                tabular = True, document = True, zeros='\\textcolor{lightgray}')
-    return jsonify(coeffs = coeffs)
-
-
-@app.route('/')
-def index():
-    return render_template('triples.html')
-
-
-if __name__ == '__main__':
-    # For deployment, please also configure the "host" variable in triples.html!!!
-    DEPLOY = False
-
-    HOST = '127.0.0.1'
-    PORT = 5000
-    if DEPLOY:
-        HOST = '0.0.0.0'
-        SOS_Manager.verbose = False
-
-    print('=' * 50)
-    print('Running the server at http://%s:%d'%(HOST, PORT))    
-    print('=' * 50)
+# import inspect
+# import ctypes
+# import threading
+
+from flask import Flask, render_template, request, jsonify
+from flask_socketio import SocketIO, join_room, leave_room
+from flask_cors import CORS
+
+import sympy as sp
+
+from triples.utils.roots import RootTangent, RootsInfo
+from triples.utils.text_process import pl
+from triples.utils.expression.solution import SolutionSimple
+from triples.gui.sos_manager import SOS_Manager
+
+# def _async_raise(tid, exctype):
+#     '''Raises an exception in the threads with id tid'''
+#     if not inspect.isclass(exctype):
+#         raise TypeError("Only types can be raised (not instances)")
+#     res = ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid),
+#                                                      ctypes.py_object(exctype))
+#     if res == 0:
+#         raise ValueError("invalid thread id")
+#     elif res != 1:
+#         # "if it returns a number greater than one, you're in trouble,
+#         # and you should call it again with exc=NULL to revert the effect"
+#         ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid), None)
+#         raise SystemError("PyThreadState_SetAsyncExc failed")
+
+# class ThreadWithExc(threading.Thread):
+#     '''A thread class that supports raising an exception in the thread from
+#        another thread.
+#     '''
+#     def _get_my_tid(self):
+#         """determines this (self's) thread id
+
+#         CAREFUL: this function is executed in the context of the caller
+#         thread, to get the identity of the thread represented by this
+#         instance.
+#         """
+#         if not self.is_alive(): # Note: self.isAlive() on older version of Python
+#             raise threading.ThreadError("the thread is not active")
+
+#         # do we have it cached?
+#         if hasattr(self, "_thread_id"):
+#             return self._thread_id
+
+#         # no, look for it in the _active dict
+#         for tid, tobj in threading._active.items():
+#             if tobj is self:
+#                 self._thread_id = tid
+#                 return tid
+
+#         # TODO: in python 2.6, there's a simpler way to do: self.ident
+
+#         raise AssertionError("could not determine the thread's id")
+
+#     def raise_exc(self, exctype):
+#         """Raises the given exception type in the context of this thread.
+
+#         If the thread is busy in a system call (time.sleep(),
+#         socket.accept(), ...), the exception is simply ignored.
+
+#         If you are sure that your exception should terminate the thread,
+#         one way to ensure that it works is:
+
+#             t = ThreadWithExc( ... )
+#             ...
+#             t.raise_exc( SomeException )
+#             while t.isAlive():
+#                 time.sleep( 0.1 )
+#                 t.raise_exc( SomeException )
+
+#         If the exception is to be caught by the thread, you need a way to
+#         check that your thread has caught it.
+
+#         CAREFUL: this function is executed in the context of the
+#         caller thread, to raise an exception in the context of the
+#         thread represented by this instance.
+#         """
+#         _async_raise( self._get_my_tid(), exctype )
+
+class SOS_WEB(Flask):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+
+app = SOS_WEB(__name__, template_folder = './')
+CORS(app, supports_credentials=True)
+socketio = SocketIO(app, cors_allowed_origins="*")
+
+@socketio.on('connect')
+def on_connect():
+    sid = request.sid
+    join_room(sid)
+    print('Joined Room', sid)
+
+@socketio.on('disconnect')
+def on_disconnect():
+    sid = request.sid
+    leave_room(sid)
+    print('Left Room', sid)
+
+@app.route('/process/preprocess', methods=['POST'])
+def preprocess():
+    """
+    Process the input polynomial and emit the result to the client.
+    The parameters are passed as a JSON object in the request body.
+
+    Parameters
+    ----------
+    sid : str
+        The session ID.
+    poly : str
+        The input polynomial.
+    standardize_text : str
+        The standardization of the text. If None, the text is not standardized.
+        See `SOS_Manager.set_poly` for more information.
+    actions : list[str]
+        Additional actions to perform.
+
+    Returns
+    ----------
+    n : int
+        The degree of the polynomial.
+    txt : str
+        The formatted polynomial.
+    triangle : str
+        The coefficients formatted as a triangle.
+    heatmap : list[tuple[int, int, int, int]]
+        The heatmap of the polynomial coefficients in RGBA format.
+    """
+    req = request.get_json()
+
+    gens = req.get('gens', 'abc')
+    gens = tuple(sp.Symbol(_) for _ in gens)
+    perm = SOS_Manager._parse_perm_group(req.get('perm'))
+    req['gens'] = gens
+    req['perm'] = perm
+
+    result = SOS_Manager.set_poly(
+        req['poly'],
+        gens = gens,
+        perm = perm,
+        render_triangle = True if 3 <= len(gens) <= 4 else False,
+        render_grid = True,
+        homogenize = req.get('homogenize', False),
+        dehomogenize = req.get('dehomogenize', None),
+        standardize_text = req.get('standardize_text', None),
+        omit_mul = req.get('omit_mul', True),
+        omit_pow = req.get('omit_pow', True),
+    )
+    if result is None:
+        return jsonify()
+
+    n = result['degree']
+    txt = result['txt']
+    triangle = result.get('triangle', None)
+    grid = result.get('grid', None)
+    grid_color = grid.grid_color if grid is not None else None
+ 
+    sid = req.pop('sid')
+    req.update(result)
+    socketio.start_background_task(findroot, sid, **req)
+    # thread = ThreadWithExc(target=findroot, args=(sid,), kwargs=req)
+    # thread.daemon = True
+    # thread.start()
+    # socketio.sleep(3)
+    # thread.raise_exc(SystemExit)
+
+    return jsonify(n = n, txt = txt, triangle = triangle, heatmap = grid_color)
+
+def findroot(sid, **kwargs):
+    """
+    Find the root information of the polynomial and emit the result to the client.
+
+    Parameters
+    ----------
+    sid : str
+        The session ID.
+    poly : str
+        The input polynomial.
+    grid : Grid
+        The grid of the polynomial coefficients. This is passed in
+        internally by the `preprocess` function.
+    tangents : list[str]
+        The tangents to the roots. If provided, the tangents are not recalculated.
+    actions : list[str]
+        Additional actions to perform.
+
+    Returns
+    ----------
+    rootsinfo : str
+        The string representation of the roots information.
+    tangents : list[str]
+        The tangents to the roots.    
+    """
+    if 'findroot' in kwargs['actions']:
+        poly = kwargs['poly']
+        grid = kwargs.get('grid', None)
+        rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
+        tangents = kwargs.get('tangents')
+        if tangents is None:
+            tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
+            socketio.emit(
+                'rootangents',
+                {
+                    'rootsinfo': rootsinfo.gui_description,
+                    'tangents': tangents,
+                    'timestamp': kwargs.get('timestamp', 0)
+                },
+                to=sid
+            )
+        elif 'sos' in kwargs['actions']:
+            tangents = []
+            for tg in kwargs['tangents'].split('\n'):
+                if len(tg) > 0:
+                    if SOS_Manager.CONFIG_RESTRICT_INPUT_CHARS and not all(ord(_) < 128 for _ in tg):
+                        # see SOS_Manager.set_poly
+                        continue
+                    try:
+                        tg = pl(tg, gens=kwargs['gens'], perm=kwargs['perm'])
+                        if tg is not None:
+                            # and (tg.domain in (sp.ZZ, sp.QQ)):
+                            tg = tg.as_expr()
+                            # tangents.append(RootTangent(tg))
+                            if 'configs' not in kwargs:
+                                kwargs['configs'] = {'LinearSOS': {'tangents': []}}
+                            elif 'LinearSOS' not in kwargs['configs']:
+                                kwargs['configs']['LinearSOS'] = {'tangents': []}
+                            elif 'tangents' not in kwargs['configs']['LinearSOS']:
+                                kwargs['configs']['LinearSOS']['tangents'] = []
+                            kwargs['configs']['LinearSOS']['tangents'].append(tg**2)
+                    except:
+                        pass
+            rootsinfo.tangents = tangents
+    if 'sos' in kwargs['actions']:
+        kwargs['rootsinfo'] = rootsinfo
+        sum_of_squares(sid, **kwargs)
+
+
+def sum_of_squares(sid, **kwargs):
+    """
+    Perform the sum of square decomposition, and emit the result to the client.
+    Always emit the result to the client, even if the solution is None or an error occurs.
+
+    Parameters
+    ----------
+    sid : str
+        The session ID.
+    poly : str
+        The input polynomial.
+    methods : dict[str, bool]
+        The methods to use.
+    configs : dict[str, dict]
+        The configurations for each method.
+    rootsinfo : RootsInfo
+        The roots information. This is passed in internally by the `findroot` function.
+
+    Returns
+    ----------
+    latex : str
+        The LaTeX representation of the solution.
+    txt : str
+        The text representation of the solution.
+    formatted : str
+        The formatted representation of the solution.
+    success : bool
+        Whether the solution was found.
+    """
+    rootsinfo = kwargs['rootsinfo'] or RootsInfo()
+    try:
+        method_order = [key for key, value in kwargs['methods'].items() if value]
+
+        if 'LinearSOS' in method_order:
+            if 'LinearSOS' not in kwargs['configs']:
+                kwargs['configs']['LinearSOS'] = {}
+            kwargs['configs']['LinearSOS']['rootsinfo'] = rootsinfo
+
+        gens = kwargs['gens']
+        ineq_constraints = kwargs['poly'].free_symbols if SOS_Manager.CONFIG_ALLOW_NONSTANDARD_GENS else gens
+        solution = SOS_Manager.sum_of_squares(
+            kwargs['poly'],
+            ineq_constraints = list(ineq_constraints),
+            eq_constraints = [],
+            gens = gens,
+            perm = kwargs['perm'],
+            method_order = method_order,
+            configs = kwargs['configs']
+        )
+
+        assert solution is not None, 'No solution found.'
+    except Exception as e:
+        # raise e
+        return socketio.emit(
+            'sos',
+            {'latex': '', 'txt': '', 'formatted': '', 'success': False,
+                'timestamp': kwargs.get('timestamp', 0)},
+            to=sid
+        )
+
+    if isinstance(solution, SolutionSimple):
+        # # remove the aligned environment
+        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
+        latex_ = solution.str_latex#.replace('aligned', 'align*')
+
+    return socketio.emit(
+        'sos',
+        {'latex': latex_, 'txt': solution.str_txt, 'formatted': solution.str_formatted, 'success': True,
+            'timestamp': kwargs.get('timestamp', 0)},
+        to=sid
+    )
+
+@app.route('/process/latexcoeffs', methods=['POST'])
+def get_latex_coeffs():
+    """
+    Get the LaTeX representation of the coefficient triangle.
+
+    Parameters
+    ----------
+    poly : str
+        The input polynomial.
+    gens : str
+        The generator variables.
+    perm : str
+        The permutation group.
+
+    Returns
+    ----------
+    coeffs : str
+        The LaTeX representation of the coefficients
+    """
+    req = request.get_json()
+    poly = req['poly']
+    gens = tuple(sp.Symbol(_) for _ in req.get('gens', 'abc'))
+    perm = SOS_Manager._parse_perm_group(req.get('perm'))
+    coeffs = SOS_Manager.latex_coeffs(poly, gens, perm,
+                tabular = True, document = True, zeros='\\textcolor{lightgray}')
+    return jsonify(coeffs = coeffs)
+
+
+@app.route('/')
+def index():
+    return render_template('triples.html')
+
+
+if __name__ == '__main__':
+    # For deployment, please also configure the "host" variable in triples.html!!!
+    DEPLOY = False
+
+    HOST = '127.0.0.1'
+    PORT = 5000
+    if DEPLOY:
+        HOST = '0.0.0.0'
+        SOS_Manager.verbose = False
+
+    print('=' * 50)
+    print('Running the server at http://%s:%d'%(HOST, PORT))    
+    print('=' * 50)
     socketio.run(app, host=HOST, port=PORT, debug=False)
\ No newline at end of file
-- 
2.43.0


From 59113ca53d50f595d58211a9b562293e9007275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:49 +0000
Subject: [PATCH 21/38] fix: a failure to format a solution is answered like a
 failure to find one

---
 web_main.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/web_main.py b/web_main.py
index 490aac9..58d5ee8 100644
--- a/web_main.py
+++ b/web_main.py
@@ -10,7 +10,6 @@ import sympy as sp
 
 from triples.utils.roots import RootTangent, RootsInfo
 from triples.utils.text_process import pl
-from triples.utils.expression.solution import SolutionSimple
 from triples.gui.sos_manager import SOS_Manager
 
 # def _async_raise(tid, exctype):
@@ -289,6 +288,12 @@ def sum_of_squares(sid, **kwargs):
         )
 
         assert solution is not None, 'No solution found.'
+
+        # # remove the aligned environment
+        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
+        latex_ = solution.str_latex#.replace('aligned', 'align*')
+        txt_ = solution.str_txt
+        formatted_ = solution.str_formatted
     except Exception as e:
         # raise e
         return socketio.emit(
@@ -298,14 +303,9 @@ def sum_of_squares(sid, **kwargs):
             to=sid
         )
 
-    if isinstance(solution, SolutionSimple):
-        # # remove the aligned environment
-        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
-        latex_ = solution.str_latex#.replace('aligned', 'align*')
-
     return socketio.emit(
         'sos',
-        {'latex': latex_, 'txt': solution.str_txt, 'formatted': solution.str_formatted, 'success': True,
+        {'latex': latex_, 'txt': txt_, 'formatted': formatted_, 'success': True,
             'timestamp': kwargs.get('timestamp', 0)},
         to=sid
     )
-- 
2.43.0


From 6de8e23135970694e2daa456b07bcd9a56a606f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 22/38] fix: a web request to solve without root finding is
 answered

---
 web_main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web_main.py b/web_main.py
index 58d5ee8..458bc74 100644
--- a/web_main.py
+++ b/web_main.py
@@ -193,6 +193,7 @@ def findroot(sid, **kwargs):
     tangents : list[str]
         The tangents to the roots.    
     """
+    rootsinfo = None
     if 'findroot' in kwargs['actions']:
         poly = kwargs['poly']
         grid = kwargs.get('grid', None)
-- 
2.43.0


From 122da214c1b15bd76018d86da33bbf417deba104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 23/38] fix: a web request is answered when root finding fails

---
 web_main.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/web_main.py b/web_main.py
index 458bc74..cf183b7 100644
--- a/web_main.py
+++ b/web_main.py
@@ -197,14 +197,21 @@ def findroot(sid, **kwargs):
     if 'findroot' in kwargs['actions']:
         poly = kwargs['poly']
         grid = kwargs.get('grid', None)
-        rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
+        try:
+            rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
+        except Exception:
+            rootsinfo = RootsInfo()
         tangents = kwargs.get('tangents')
         if tangents is None:
-            tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
+            try:
+                tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
+                description = rootsinfo.gui_description
+            except Exception:
+                tangents, description = [], ''
             socketio.emit(
                 'rootangents',
                 {
-                    'rootsinfo': rootsinfo.gui_description,
+                    'rootsinfo': description,
                     'tangents': tangents,
                     'timestamp': kwargs.get('timestamp', 0)
                 },
-- 
2.43.0


From 253ee3ae275ffbe67b52be2cb22097432e6d3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:02 +0000
Subject: [PATCH 24/38] fix: renaming the symbols of a cyclic expression does
 not capture its other symbols

---
 triples/utils/expression/cyclic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index eb79975..ca90837 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -340,8 +340,10 @@ class CyclicExpr(sp.Expr):
             other_rules = [fs(k) | fs(v) for k, v in rule.items() if not k in changed_vars]
             if not any(_.intersection(self_vars) for _ in other_rules):
                 new_symbols = tuple(rule.get(s, s) for s in self.symbols)
-                if len(set(new_symbols)) == len(new_symbols):
-                    # distinct new symbols
+                introduced = set(new_symbols) - self_vars
+                captured = any(_.intersection(introduced) for _ in [self.free_symbols] + other_rules)
+                if len(set(new_symbols)) == len(new_symbols) and not captured:
+                    # distinct new symbols that do not occur elsewhere in the expression
                     return _xreplace_arg0(self, rule, new_symbols)
 
         # Case B. if we are replacing symbols to f(symbols)...
-- 
2.43.0


From edfcba260fafc3e6b5a8da524ad2d2dc4d6f9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:46 +0000
Subject: [PATCH 25/38] fix: constrain_symmetry of a primal SDP does not
 overwrite the caller's matrices

---
 triples/sdp/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 95d98f7..f0bb4b8 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -857,7 +857,8 @@ class PrimalTransformMixin(SDPTransformMixin):
 
     def constrain_symmetry(self) -> SDPProblemBase:
         for key, m in self.size.items():
-            space = self._space[key]
+            space = self._space[key].copy() # the matrix may belong to the caller
+            self._space[key] = space
             n = space.shape[0]
             for i in range(m):
                 for j in range(i):
-- 
2.43.0


From 3d9e3ac0ae56be1fd094022d51895d30c6d13b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:00 +0000
Subject: [PATCH 26/38] fix: a batch read from a file in the working directory
 can save its records

---
 triples/core/sum_of_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index 7d1a9ea..5ac6acb 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -307,7 +307,7 @@ def _process_records(
             filename = save_result
         else:
             raise ValueError('save_result must be a directory / csv file name / True.')
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         records_save.to_csv(filename)
 
     return records_pd
-- 
2.43.0


From 1665c3cd32627484da5f531b99d9737891745dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 27/38] fix: a linear combination with negative coefficients is
 not reported as an exact proof

---
 triples/core/linsos/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/linsos/correction.py b/triples/core/linsos/correction.py
index 125f997..eb889b7 100644
--- a/triples/core/linsos/correction.py
+++ b/triples/core/linsos/correction.py
@@ -82,7 +82,7 @@ def linear_correction(
     obtained = reduced_arrays * sp.Matrix(y)
 
     is_equal = False
-    if target == obtained:
+    if target == obtained and all(_ >= 0 for _ in y):
         is_equal = True
     else:
         # second try to solve the linear system
-- 
2.43.0


From db4c3493afbd874a891e77f9eed5ad924c19a831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 28/38] fix: restore wrapped constraints in one replacement so
 that user labels named like placeholders survive

---
 triples/core/shared.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/shared.py b/triples/core/shared.py
index 3ad4e17..0f1418c 100644
--- a/triples/core/shared.py
+++ b/triples/core/shared.py
@@ -371,8 +371,8 @@ def sanitize_input(
 
             if constraints_wrapper is not None:
                 # note: first restore the constraints (with homogenizer), and then dehomogenize
-                sol = sol.xreplace(constraints_wrapper[2])
-                sol = sol.xreplace(constraints_wrapper[3])
+                # (a single replacement, so that labels given by the user are not rewritten again)
+                sol = sol.xreplace({**constraints_wrapper[2], **constraints_wrapper[3]})
             if homogenizer is not None:
                 sol = sol.dehomogenize(homogenizer)
             return sol
-- 
2.43.0


From 5c1c05e53b200503df29632a4b6f411d13e30da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 29/38] fix: PrimalBackendCLARABEL declares its dependencies,
 so it is not auto-selected when clarabel is missing

---
 triples/sdp/backend/clarabel_sdp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/sdp/backend/clarabel_sdp.py b/triples/sdp/backend/clarabel_sdp.py
index 8b01c10..7578c61 100644
--- a/triples/sdp/backend/clarabel_sdp.py
+++ b/triples/sdp/backend/clarabel_sdp.py
@@ -99,6 +99,7 @@ class DualBackendCLARABEL(DualBackend):
 
 
 class PrimalBackendCLARABEL(PrimalBackend):
+    _dependencies = ('clarabel', 'scipy')
     def __init__(self, x0) -> None:
         super().__init__(x0)
 
-- 
2.43.0


From 56102c46f00471df9c10657d5e440686c5b6f3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:32 +0000
Subject: [PATCH 30/38] fix: accept plain numbers in a dictionary of minimal
 eigenvalues

---
 triples/sdp/backend/caller.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/backend/caller.py b/triples/sdp/backend/caller.py
index 5ff9a5b..768b5ed 100644
--- a/triples/sdp/backend/caller.py
+++ b/triples/sdp/backend/caller.py
@@ -71,7 +71,7 @@ def _create_numerical_dual_sdp(
 
     if isinstance(min_eigen, (float, int, tuple)):
         min_eigen = {key: min_eigen for key in x0_and_space.keys()}
-        min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
+    min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
 
 
     if scaling > 0:
@@ -178,7 +178,7 @@ def _create_numerical_primal_sdp(
 
     if isinstance(min_eigen, (float, int, tuple)):
         min_eigen = {key: min_eigen for key in space.keys()}
-        min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
+    min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
 
     x0 = np_array(x0, flatten=True)
     space = {key: np_array(space_mat) for key, space_mat in space.items()}
-- 
2.43.0


From 442c094972aa475445bddcbb30d70fc956aec436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 31/38] fix: to_string and the notebook display write an
 equality sign only for exact solutions

---
 triples/utils/expression/solution.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 7670354..f0aad77 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -366,12 +366,15 @@ class SolutionSimple(Solution):
         
         lhs_str = to_str(lhs)
         rhs_str = to_str(rhs)
-        return f"{lhs_str} = {rhs_str}"   
+        if self.is_equal:
+            equal_sign = '='
+        else:
+            equal_sign = '\\approx' if mode == 'latex' else '≈'
+        return f"{lhs_str} {equal_sign} {rhs_str}"   
 
     def _repr_latex_(self):
-        # s = self.to_string(mode='latex')
-        # return f"$\\displaystyle {s}$"
-        return self.as_eq()._repr_latex_()
+        s = self.to_string(mode='latex')
+        return f"$\\displaystyle {s}$"
 
     def _str_multiplier(self, add_paren = None, get_str = None):
         """
-- 
2.43.0


From 78dee9bad1d72326134eb750590c16aa64dcfc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 32/38] fix: set_poly honours omit_mul and omit_pow when it
 rewrites a fraction

---
 triples/gui/sos_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 0fb09a8..325db37 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -146,7 +146,7 @@ class SOS_Manager():
                     triv_group = PermutationGroup([Permutation(list(range(len(poly.gens))))])
                     txt2 = poly_get_standard_form(poly, triv_group, omit_mul=omit_mul, omit_pow=omit_pow)
             elif not denom.degree() == 0:
-                txt2 = poly_get_standard_form(poly, perm)
+                txt2 = poly_get_standard_form(poly, perm, omit_mul=omit_mul, omit_pow=omit_pow)
             if isinstance(txt2, str):
                 txt = txt2
         except:
-- 
2.43.0


From a744a9688ad04bb37932a0bdbf7d99c01987e240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 33/38] fix: LinearSOS counts the multipliers when it enforces
 basis_limit

---
 triples/core/linsos/linsos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index 8abb0a0..5c4afd0 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -380,6 +380,7 @@ def _LinearSOS(
 
             # LHS (from multipliers * poly)
             basis += lift_degree_info['basis']
+            _check_basis_limit(basis, basis_limit)
             arrays = np.vstack([arrays, np.array([x.as_array_np(expand_cyc=True, symmetry=symmetry) for x in lift_degree_info['basis']])])
 
             # sum of coefficients of the multipliers should be 1
-- 
2.43.0


From 55bed397343b921bf39cdf25ed03505e0195d3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:11 +0000
Subject: [PATCH 34/38] fix: SDPProblem.solve reports failed rationalization by
 its result unless exceptions are requested

---
 triples/sdp/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index b73abd5..c5f3b1d 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -288,7 +288,7 @@ class SDPProblemBase(ABC):
                 y = self._ys[-1]
                 return self.rationalize(y, verbose=verbose,
                             perturb=True, check_pretty=False, rationalizers=[IdentityRationalizer()])
-            else:
+            elif raise_exception:
                 raise SDPRationalizeError(
                     "Failed to find a rational solution despite having a numerical solution."
                 )
-- 
2.43.0


From a8bde31b5413ec2b851d47ba4f8a2f1f216e19dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 35/38] fix: a structural solution with an undefined
 coefficient is no solution instead of a TypeError

---
 triples/core/structsos/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/solution.py b/triples/core/structsos/solution.py
index 9858716..bd7dc4b 100644
--- a/triples/core/structsos/solution.py
+++ b/triples/core/structsos/solution.py
@@ -42,7 +42,7 @@ class SolutionStructural(SolutionSimple):
                 if len(arg.free_symbols) == 0:
                     # constants might be sp.Add, etc., e.g. 1+sqrt(2)
                     # however, using .is_constant() is very slow
-                    if arg < 0:
+                    if arg is sp.nan or arg.is_infinite or arg < 0:
                         raise _rewriting_exception
                 elif isinstance(arg, sp.Symbol):
                     return func(arg)
-- 
2.43.0


From 7e08f2431e72f123838351e40cc9dee79d45f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:01 +0000
Subject: [PATCH 36/38] fix: symmetric quintics whose secant point is at
 infinity are reported unsolved instead of raising TypeError

---
 triples/core/structsos/ternary/quintic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic_symmetric.py b/triples/core/structsos/ternary/quintic_symmetric.py
index b3dda5e..0c5dcbd 100644
--- a/triples/core/structsos/ternary/quintic_symmetric.py
+++ b/triples/core/structsos/ternary/quintic_symmetric.py
@@ -235,7 +235,7 @@ def sos_struct_quintic_symmetric(coeff, real = True):
         w1 = radsimp((v - y2) / (y1 - y2))
         w2 = 1 - w1
         # print('(w1, w2) =', (w1, w2), '\n(y1, y2) =', (y1, y2), '\n(t1, t2) =', (t1, t2))
-        if y1 != y2 and 0 <= w1 <= 1:
+        if y1 != y2 and w1 is not sp.nan and 0 <= w1 <= 1:
             if (w1 == 0 and y2 <= 0) or (y1 <= 0 and y2 <= 0):
                 y = radsimp([
                     w1 * m / 2,
-- 
2.43.0


From ff17e47ac2b59ca09bbd02aa0c13d82dd80535ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:46 +0000
Subject: [PATCH 37/38] fix: the sextic SDP template gives up instead of
 dividing by zero when its scale vanishes

---
 triples/core/structsos/ternary/sextic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/core/structsos/ternary/sextic.py b/triples/core/structsos/ternary/sextic.py
index 52115cc..c6ff83f 100644
--- a/triples/core/structsos/ternary/sextic.py
+++ b/triples/core/structsos/ternary/sextic.py
@@ -957,6 +957,8 @@ def _sos_struct_sextic_full_sdp(coeff):
     # symmetrize as Hermitian matrix
     quad_form = quad_form.subs({x:x_, y:y_})
     z_ = z.subs({x:x_, y:y_})
+    if z_ == 0:
+        return None
     quad_form = ((quad_form + quad_form.T) - sp.diag(*quad_form.diagonal())) / z_
 
     quad_form_sol = _compute_quad_form_sol(quad_form)
-- 
2.43.0


From 26144878aa9ac42a25c0c735df4547e2d6ccba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:47 +0000
Subject: [PATCH 38/38] fix: restrict the names of generators sent by clients

The cyclic expansion inserts the names of the generators into the text after
the character restriction was applied, so that full-width letters and
punctuation in the names were evaluated as attribute accesses.
---
 triples/gui/sos_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 325db37..28f193c 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -95,6 +95,9 @@ class SOS_Manager():
             # forbid non-ascii characters to avoid potential security risks
             if not all(ord(_) < 128 for _ in txt):
                 return None
+            # names of the generators are inserted into the text by the cyclic expansion
+            if not all(len(_.name) == 1 and 'a' <= _.name <= 'z' for _ in gens):
+                return None
 
         try:
             poly, denom = preprocess_text(txt, gens=gens, perm=perm, return_type='frac')
@@ -269,6 +272,8 @@ class SOS_Manager():
             # see set_poly
             if not all(ord(_) < 128 for _ in txt):
                 return ''
+            if not all(len(_.name) == 1 and 'a' <= _.name <= 'z' for _ in gens):
+                return ''
 
         try:
             poly, denom = preprocess_text(txt, gens=gens, perm=perm, return_type='frac')
-- 
2.43.0

