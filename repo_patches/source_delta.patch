From 598eb4a8e63c2b6440218c9a2050ea9f2dfb1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:25 +0000
Subject: [PATCH 01/71] fix: align coefficients in univariate SOS when leading
 terms vanish

---
 triples/core/structsos/pivoting/univariate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index af312ba..6dd7141 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -290,8 +290,9 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
     """
     if isinstance(M, sp.Matrix):
         n = M.shape[0]
-        if isinstance(poly, sp.Poly):
-            all_coeffs = poly.all_coeffs()
+        all_coeffs = poly.all_coeffs()
+        # align the coefficients with the matrix when the leading terms vanish
+        all_coeffs = [sp.S(0)] * (2 * n - 1 - len(all_coeffs)) + all_coeffs
         for i in range(len(all_coeffs)):
             m = i // 2
             if i % 2 == 0:
-- 
2.43.0


From f0020424aa5522f0dac1ea7d78edf4eea3284a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:25 +0000
Subject: [PATCH 02/71] fix: do not accept a monomial with unconstrained odd
 powers as its own proof

---
 triples/core/structsos/structsos.py | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/triples/core/structsos/structsos.py b/triples/core/structsos/structsos.py
index 02ea9ca..e5b195b 100644
--- a/triples/core/structsos/structsos.py
+++ b/triples/core/structsos/structsos.py
@@ -48,6 +48,26 @@ def StructuralSOS(
     return solution
 
 
+def _structural_sos_monomial(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> Optional[sp.Expr]:
+    """
+    Solve a monomial with a nonnegative coefficient. Every generator with an odd exponent
+    must be assumed to be nonnegative by the inequality constraints.
+    """
+    signs = {}
+    for k, v in ineq_constraints.items():
+        if k.is_monomial and k.total_degree() == 1 and k.LC() > 0:
+            signs.setdefault(k.free_symbols.pop(), v / k.LC())
+
+    args = [poly.LC()]
+    for gen, power in zip(poly.gens, poly.monoms()[0]):
+        if power % 2 == 1:
+            if gen not in signs:
+                return None
+            args.append(signs[gen])
+        args.append(gen**(power - power % 2))
+    return sp.Mul(*args)
+
+
 def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}, eq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> sp.Expr:
     """
     Internal function of StructuralSOS, returns a sympy expression only.
@@ -56,10 +76,12 @@ def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}
     d = poly.total_degree()
     nvars = len(poly.gens)
     if poly.is_monomial:
-        if poly.LC() >= 0:
-            # since the poly is homogeneous, it must be a monomial
-            return poly.as_expr()
-        return None
+        if poly.LC() < 0:
+            return None
+        # since the poly is homogeneous, it must be a monomial
+        solution = _structural_sos_monomial(poly, ineq_constraints)
+        if solution is not None:
+            return solution
 
     poly, ineq_constraints, eq_constraints = clear_free_symbols(poly, ineq_constraints, eq_constraints)
     d = poly.total_degree()
-- 
2.43.0


From e355b8e783eaa9b452fb4a85cdab5675b3ec1610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:25 +0000
Subject: [PATCH 03/71] fix: undetermined parameter in the symmetric sextic
 hexagon solver

---
 triples/core/structsos/ternary/sextic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 32eead5..f2000d9 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -140,7 +140,7 @@ def _sos_struct_sextic_hexagon_symmetric_sdp(coeff):
         return M00, M01, M02
 
     def _is_valid(u):
-        if u == 0 or u == -2:
+        if u is None or u == 0 or u == -2:
             return False
         M00, M01, M02 = _compute_quad_form(u)
         return M00 >= abs(M01) and l22*(M00 + M01) - 2*M02**2 >= 0 and -(c330 - c411)*(u*(u + 2)) > 0
-- 
2.43.0


From 12f54ee81c267b9e48f0dd72bdd8efceec1c1a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:25 +0000
Subject: [PATCH 04/71] fix: division by zero for opposite halfplane
 constraints in bivariate problems

---
 triples/core/structsos/pivoting/bivariate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/pivoting/bivariate.py b/triples/core/structsos/pivoting/bivariate.py
index 854a21e..3850054 100644
--- a/triples/core/structsos/pivoting/bivariate.py
+++ b/triples/core/structsos/pivoting/bivariate.py
@@ -143,6 +143,9 @@ def _sos_struct_bivariate_linear_ineq(poly, ineq_constraints, eq_constraints):
         return sp.Add(*(c*p for c, p in zip(coeffs, polys)))
 
     bound = hs.as_bounds()
+    if len(bound) == 2 and hs.cross(bound[0][0], bound[1][0]) == 0:
+        # two opposite halfplanes intersect in a line: one of them suffices as a constraint
+        bound = bound[:1]
     if len(bound) == 0:
         if d % 2 != 0:
             return None
-- 
2.43.0


From b41614042ade5848e01a38f521087b3ba880fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:28 +0000
Subject: [PATCH 05/71] fix: keep the exact leading coefficient when
 rationalizing odd-degree univariate proofs

---
 triples/core/structsos/pivoting/univariate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 6dd7141..0af5f6b 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -312,6 +312,9 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
 
         M = M[1]
         n = M.shape[0]
+        if poly.degree() == 2 * n - 1:
+            # the leading term comes from the minor matrix only, avoid the rounding error
+            M[0, 0] = poly.LC()
         all_coeffs = [0] * (M.shape[1] * 2 - 1)
         for i in range(len(all_coeffs)):
             m = i // 2
-- 
2.43.0


From 3546b1ba0039681249199a4477e34826fa70a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:08 +0000
Subject: [PATCH 06/71] fix: a cyclic product repeats its invariant factors
 once per group element

---
 triples/utils/expression/cyclic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 0e71db3..4522310 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -618,7 +618,7 @@ class CyclicProduct(CyclicExpr):
 
         if isinstance(expr, Mul):
             cyc_args = list(filter(lambda x: is_cyclic_expr(x, symbols, perm), expr.args))
-            cyc_args = [arg ** len(symbols) for arg in cyc_args]
+            cyc_args = [arg ** perm.order() for arg in cyc_args]
             uncyc_args = list(filter(lambda x: not is_cyclic_expr(x, symbols, perm), expr.args))
             obj0 = Mul(*[cls(arg, symbols, perm) for arg in uncyc_args])
             obj = Mul(obj0, *cyc_args)
@@ -629,7 +629,7 @@ class CyclicProduct(CyclicExpr):
         c, p = self.args[0].as_content_primitive(radical=radical, clear=clear)
         if c is S.One:
             return S.One, self
-        return c ** len(self.symbols), CyclicProduct(p, *self.args[1:])
+        return c ** self.perm.order(), CyclicProduct(p, *self.args[1:])
 
 
 def SymmetricSum(expr, symbols, **kwargs):
-- 
2.43.0


From f4007f383634fea48ca637d70ce88160e9260f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:25 +0000
Subject: [PATCH 07/71] fix: xreplace on cyclic expressions must not capture
 symbols or split non-direct-product groups

---
 triples/utils/expression/cyclic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 4522310..00b8547 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -338,9 +338,12 @@ class CyclicExpr(sp.Expr):
         else:
             # check other rules not intersecting self symbols
             other_rules = [fs(k) | fs(v) for k, v in rule.items() if not k in changed_vars]
+            other_rules_values = [v for k, v in rule.items() if not k in changed_vars]
             if not any(_.intersection(self_vars) for _ in other_rules):
                 new_symbols = tuple(rule.get(s, s) for s in self.symbols)
-                if len(set(new_symbols)) == len(new_symbols):
+                # the new symbols should not capture other symbols in the expression
+                others = set.union(set(), *(fs(_) for _ in other_rules_values), self.free_symbols - self_vars)
+                if len(set(new_symbols)) == len(new_symbols) and others.isdisjoint(new_symbols):
                     # distinct new symbols
                     return _xreplace_arg0(self, rule, new_symbols)
 
@@ -376,6 +379,9 @@ class CyclicExpr(sp.Expr):
             new_args = []
             changed = False
             stab_perp = self.perm.pointwise_stabilizer(list(unchanged_inds))
+            if stab.order() * stab_perp.order() != self.perm.order():
+                # the group is not the direct product of the two subgroups
+                return _fallback_xreplace(self, rule)
             for p in stab_perp.elements:
                 # make every unchanged inds unchanged
                 # i.e. stab_perp.contains(p)
-- 
2.43.0


From edae615e3738f23b20684a4c480bc12674b4b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:16 +0000
Subject: [PATCH 08/71] fix: exact coefficients in the factored quintic solver

---
 triples/core/structsos/ternary/quintic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 44e7a93..cb0527c 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -64,7 +64,7 @@ def _solve_sa2minusab_mul_cubic(x, y, mul = sp.S(1)):
     When (x, y) is not on the curve, it would be a linear combination of two points on the curve.
     """
     if x >= 0 and y >= 0:
-        cubic_poly = Coeff({(3,0,0): 1, (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
+        cubic_poly = Coeff({(3,0,0): sp.S(1), (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
         return sp.Rational(1,2) * mul * CyclicSum((a-b)**2) * sos_struct_cubic(cubic_poly)
 
     def _solve_t(t):
-- 
2.43.0


From 35a5a61c9c2927bbd65da54f4cff7a164f053ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:52 +0000
Subject: [PATCH 09/71] fix: uncentered quintic solver dropped the remaining
 part and divided by zero

---
 triples/core/structsos/ternary/quintic.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index cb0527c..aed9946 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1439,6 +1439,9 @@ def _sos_struct_quintic_uncentered(coeff):
         u, v = u_, v_
         factor1 = (u**4 + 3*u**3*v - 2*u**3 - u**2*v**2 - 5*u**2*v - u**2 - 2*u*v**2 + 5*u*v + 5*u - v**2 + 4*v - 6)
         factor2 = (u**3 + u**2*v - u**2 - 3*u*v - u - v + 4)
+        if any(_ == 0 for _ in (factor1, factor2, u*v - 1, u + v - 1, u*u - 2*u - v + 2)):
+            # degenerated case
+            return None
         w = (u + 1) * (2*u**2 - u*v - 3*u - v + 4) / ((u**2 - u + 1) * factor2)
         d1 = u**2*v**2*w**2 + 2*u**2*v*w - 2*u*v*w**2 - 2*u*w - 2*u + w**2
         a_ = -(u + 1) * (u*v - 1) * (2*u**2 - u*v - 3*u - v + 4) / factor1
@@ -1473,7 +1476,13 @@ def _sos_struct_quintic_uncentered(coeff):
             CyclicSum(a*c*(a-b)**2*((r1-r1_)*c + (r2-r2_)/2*b)) * multiplier
         ]
 
-        return sum_y_exprs(y, exprs) / multiplier
+        solution = sum_y_exprs(y, exprs) / multiplier
+
+        # the remaining part is a multiple of abc*s(ab)
+        rem -= radsimp(solution.doit().subs({a: 1, b: 1, c: 1}) / 3)
+        if rem < 0:
+            return None
+        return solution + rem * CyclicProduct(a) * CyclicSum(a*b)
 
     return None
 
-- 
2.43.0


From 7e363ff4c62c1b7b751f3565e73cc697dd3c9df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:52 +0000
Subject: [PATCH 10/71] fix: dispatch of nonic hexagon polynomials ignored
 ab**8

---
 triples/core/structsos/ternary/nonic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/nonic.py b/triples/core/structsos/ternary/nonic.py
index c2911c3..f860359 100644
--- a/triples/core/structsos/ternary/nonic.py
+++ b/triples/core/structsos/ternary/nonic.py
@@ -26,8 +26,8 @@ def sos_struct_nonic(coeff, real = True):
 
     [2] https://tieba.baidu.com/p/7303219331
     """
-    if not any(coeff(_) for _ in ((9,0,0),(8,1,0),(7,2,0),(2,7,0),(7,1,1))):
-        if not any(coeff(_) for _ in ((6,3,0),(3,6,0),(1,8,0))):
+    if not any(coeff(_) for _ in ((9,0,0),(8,1,0),(1,8,0),(7,2,0),(2,7,0),(7,1,1))):
+        if not any(coeff(_) for _ in ((6,3,0),(3,6,0))):
             if all(coeff((i,j,k)) == coeff((j,i,k)) for (i,j,k) in ((5,4,0),(6,2,1),(5,3,1),(4,3,2))):
                 return _sos_struct_nonic_hexagram_symmetric(coeff)
             if (coeff((5,4,0)) == 0 and coeff((6,1,2)) == 0) or (coeff((4,5,0)) == 0 and coeff((6,2,1)) == 0):
-- 
2.43.0


From 741c706c84bfb3b70919fc94f227a6d70eb256f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:52 +0000
Subject: [PATCH 11/71] fix: missing a**2*b**2*c**2 term in the symmetric
 sextic Schur split

---
 triples/core/structsos/ternary/sextic_symmetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index f2000d9..31e9b68 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -703,7 +703,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
         c411 + 2*c420 + 4*c510 + 3*c600,
         2*c321 + 2*c330 + 2*c411 + 4*c420 + 6*c510 + 4*c600,
         c330 + 2*c420 + 2*c510 + 2*c600,
-        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600
+        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600,
+        c222 + 6*c321 + 3*c330 + 3*c411 + 6*c420 + 6*c510 + 3*c600
     ])
     if all(_ >= 0 for _ in y):
         # Case 3.
@@ -713,7 +714,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
             CyclicSum(a**2*(a*b+a*c-b**2-c**2)**2)/6,
             CyclicSum(a**2*b*c*(b-c)**2)/2,
             CyclicSum((a*b**2+a*c**2-b**2*c-b*c**2)**2)/6,
-            CyclicProduct((a-b)**2)
+            CyclicProduct((a-b)**2),
+            CyclicProduct(a**2)
         ]
         return sum_y_exprs(y, exprs)
 
-- 
2.43.0


From ace78d09b325a013f1ed171fbd9c7a473fea66c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:52 +0000
Subject: [PATCH 12/71] fix: acyclic quartic symmetry test ignored the a*c**3
 coefficients

---
 triples/core/structsos/ternary/quartic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quartic.py b/triples/core/structsos/ternary/quartic.py
index fb2c99d..2e434b9 100644
--- a/triples/core/structsos/ternary/quartic.py
+++ b/triples/core/structsos/ternary/quartic.py
@@ -625,7 +625,7 @@ def _sos_struct_acyclic_quartic_symmetric(coeff, real = True):
     mappings = [(lambda i, j: (i,j,4-i-j)), (lambda i, j: (i,4-i-j,j)), (lambda i, j: (4-i-j,i,j))]
     symbol_orders = [sp.symbols("a b c"), sp.symbols("a c b"), sp.symbols("b c a")]
     for symbol_order, mapping in zip(symbol_orders, mappings):
-        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0))):
+        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0),(1,0))):
             break
     else:
         return None
-- 
2.43.0


From 7bbb85799d382551f1ebc564808361437a8a2c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:52 +0000
Subject: [PATCH 13/71] fix: symmetric octic hexagon proof with a vanishing
 square part ignored a**5*b**3 terms

---
 triples/core/structsos/ternary/octic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index 58ec3da..def5bf3 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -570,7 +570,7 @@ def _sos_struct_octic_symmetric_hexagon(coeff):
             y_ = -2*(2*c1 + c2 + c3 + c4)/(2*c1 + c3) if 2*c1 + c3 != 0 else sp.S(0)
             z_ = (2*c1 - c3)/4
             w_ = (10*c1 + 6*c2 + c3 + 2*c4)/4
-            if x_ >= 0 and z_ >= 0 and z_ + w_ >= 0:
+            if (x_ > 0 or (x_ == 0 and c2 + c4 == 0)) and z_ >= 0 and z_ + w_ >= 0:
                 m_ = coeff((4,4,0)) - (-2*w_ + 2*x_*y_**2 - 4*x_*y_ + 2*z_)
                 p_ = coeff((4,3,1)) - (w_ - 4*x_*y_**2 + 6*x_*y_ + 2*x_)
                 n_ = coeff((4,2,2)) - (2*w_ + 6*x_*y_**2 + 20*x_*y_ + 4*x_ - 4*z_)
-- 
2.43.0


From b1561f80f74019814726c51b75ece1c1db2f5c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:08 +0000
Subject: [PATCH 14/71] fix: septic hexagon solver crashed when the
 discriminant has no real root

---
 triples/core/structsos/ternary/septic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/septic.py b/triples/core/structsos/ternary/septic.py
index 2d292d4..df74803 100644
--- a/triples/core/structsos/ternary/septic.py
+++ b/triples/core/structsos/ternary/septic.py
@@ -395,7 +395,7 @@ def _sos_struct_septic_hexagon(coeff):
                     break
 
         if isinstance(z, sp.Symbol):
-            z = min(nroots(det, method = 'factor', real = True))
+            z = min(nroots(det, method = 'factor', real = True), default = None)
 
         # check whether we succeed if we subtract s(ab)s(a^4b + pa^3b^2 + qa^2b^3 + ab^4 + za^3bc - (p+q+z+2)a^2b^2c)
         # Theorem 2.
@@ -437,7 +437,7 @@ def _sos_struct_septic_hexagon(coeff):
             return False
 
         # print(_compute_mpnq(z))
-        if _verify(z, check_quintic_det = False):
+        if z is not None and _verify(z, check_quintic_det = False):
             if isinstance(z, sp.Float):
                 for z_ in rationalize_bound(z, direction = 1, compulsory = True):
                     if _verify(z_):
-- 
2.43.0


From 72a0db40fc57270c09cea28a2dfa610de4fee1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:08 +0000
Subject: [PATCH 15/71] fix: division of zero by zero in the degenerate
 symmetric octic solver

---
 triples/core/structsos/ternary/octic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index def5bf3..6409320 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -507,7 +507,7 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
             M22t = w5 / (c611 + 2*c620)
 
         u210 = sp.S(1)
-        u102 = -c530/(c611 + 2*c620)
+        u102 = -c530/(c611 + 2*c620) if c611 + 2*c620 != 0 else sp.S(0)
         u201 = sp.S(0)
         u111 = -2*u102 - 1
         quad_form = stack_quad_form(M00t, M01t, M02t, M22t)
-- 
2.43.0


From a827ec41d2df03a58dee11ee8aef66cc45e30286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:17 +0000
Subject: [PATCH 16/71] fix: sextic full SDP solver crashed on indefinite forms
 and vanishing denominators

---
 triples/core/structsos/ternary/sextic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic.py b/triples/core/structsos/ternary/sextic.py
index 52115cc..b38882a 100644
--- a/triples/core/structsos/ternary/sextic.py
+++ b/triples/core/structsos/ternary/sextic.py
@@ -850,7 +850,10 @@ def _sos_struct_sextic_full_sdp(coeff):
     # ]
     
     def _compute_quad_form_sol(quad_form):
-        q, ss = congruence(quad_form)
+        res = congruence(quad_form)
+        if res is None:
+            return None
+        q, ss = res
         quad_form_sol = [
             (q[0,0]*(a**3-a*b*c)+q[0,1]*(a**2*b-a*b*c)+q[0,2]*(a*b**2-a*b*c)),
             (q[1,1]*(a**2*b-a*b*c)+q[1,2]*(a*b**2-a*b*c)),
@@ -879,6 +882,8 @@ def _sos_struct_sextic_full_sdp(coeff):
 
     if rest_form[0] != 0:
         r1, r2 = rest_form[1] / rest_form[0], rest_form[2] / rest_form[0]
+        if r1 + r2 + 3 == 0:
+            return None
         denom = ((r1 + 2*r2 + sp.Rational(9,2))**2 + sp.Rational(27,4))
 
         # We shall subtract r/z * \sum f(a,b,c)^2 from the original polynomial to make rest_form == 0
@@ -893,6 +898,8 @@ def _sos_struct_sextic_full_sdp(coeff):
     elif rest_form[1] != 0:
         r1 = rest_form[2] / rest_form[1]
         denom = 2*r1 + 1
+        if denom == 0 or r1 + 1 == 0:
+            return None
 
         r = rest_form[1] * denom**2/(54*(r1 + 1))
         u = (r1 + 2)*x + (r1 + 2)*y + (-5*r1 - 4)
@@ -957,9 +964,13 @@ def _sos_struct_sextic_full_sdp(coeff):
     # symmetrize as Hermitian matrix
     quad_form = quad_form.subs({x:x_, y:y_})
     z_ = z.subs({x:x_, y:y_})
+    if z_ == 0:
+        return None
     quad_form = ((quad_form + quad_form.T) - sp.diag(*quad_form.diagonal())) / z_
 
     quad_form_sol = _compute_quad_form_sol(quad_form)
+    if quad_form_sol is None:
+        return None
 
     u_, v_ = u.subs({x:x_, y:y_}), v.subs({x:x_, y:y_})
     main_sol = CyclicSum((a**3 + a**2*b*u_ + a**2*c*y_ + a*b**2*x_ + a*c**2*(-u_ - v_) - b**3 + b**2*c*v_ + b*c**2*(-x_ - y_)).together()**2)
-- 
2.43.0


From 4ebc4e4e606a5fedd550d25fbdfadc0e7cb34f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:17 +0000
Subject: [PATCH 17/71] fix: quintic solver crashed when the discriminant has
 no real root

---
 triples/core/structsos/ternary/quintic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index aed9946..ffef08a 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -535,8 +535,9 @@ def _sos_struct_quintic_full(coeff):
             else:
                 mul = None
                 # for index, ((left, right), __) in enumerate(det_z.intervals()[::-1]):
-                if True:
-                    (left, right), _ = det_z.intervals()[-1]
+                det_z_intervals = det_z.intervals()
+                if len(det_z_intervals):
+                    (left, right), _ = det_z_intervals[-1]
                     left, right = det_z.refine_root(left, right, eps = 1/rounding)#/24)
                     for val in (left, right):
                         if val >= z_min:
-- 
2.43.0


From e9f095187a624940572a9e4b2511be8fb5503280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:17 +0000
Subject: [PATCH 18/71] fix: symmetric quintic solver divided by zero

---
 triples/core/structsos/ternary/quintic_symmetric.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/quintic_symmetric.py b/triples/core/structsos/ternary/quintic_symmetric.py
index b3dda5e..31b8229 100644
--- a/triples/core/structsos/ternary/quintic_symmetric.py
+++ b/triples/core/structsos/ternary/quintic_symmetric.py
@@ -328,7 +328,10 @@ def sos_struct_quintic_symmetric(coeff, real = True):
                 return sum_y_exprs(y, exprs) / multiplier
 
         t1 = -z
-        t2 = radsimp(-(2*u*z - u + v*z + 4*v + 2*z - 1)/(-6*u - 3*v + 4*z**2 - 4*z - 5))
+        t2_denom = radsimp(-6*u - 3*v + 4*z**2 - 4*z - 5)
+        if t2_denom == 0:
+            return None
+        t2 = radsimp(-(2*u*z - u + v*z + 4*v + 2*z - 1)/t2_denom)
 
         u1 = -z - 1
         u2 = radsimp(t2**3 + t2**2*z - 2*t2**2 - 2*t2*z + t2 - 1)
@@ -340,7 +343,10 @@ def sos_struct_quintic_symmetric(coeff, real = True):
         # w1 + w2 = 1
         # w1u1 + w2u2 + w3u3 = u
         # w1v1 + w2v2 + w3v3 = v
-        w1 = radsimp((u*v3 - u2*v3 - u3*v + u3*v2)/(u1*v3 - u2*v3 - u3*v1 + u3*v2))
+        w1_denom = radsimp(u1*v3 - u2*v3 - u3*v1 + u3*v2)
+        if w1_denom == 0:
+            return None
+        w1 = radsimp((u*v3 - u2*v3 - u3*v + u3*v2)/w1_denom)
         w2 = 1 - w1
         w3 = radsimp(u - w1*u1 - w2*u2)
 
-- 
2.43.0


From 689eb064117bb17a27488d0afbfa6537dce7c098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:21 +0000
Subject: [PATCH 19/71] fix: proportional symmetric octic kernel divided by
 zero

---
 triples/core/structsos/ternary/octic_symmetric.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index 6409320..7cd5add 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -308,12 +308,16 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
         if t is None:
             return None
 
-        u210 = sp.S(1)
-        u201 = t
-        u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)/(3*t*w2 - t*w4 - w4)
-        u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)/(3*t*w2 - t*w4 - w4)
+        u_denom = 3*t*w2 - t*w4 - w4
+        u210 = u_denom
+        u201 = t * u_denom
+        u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)
+        u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)
         reg = 162*t**2*w4
-        r = (3*t*w2 - t*w4 - w4)**2 / reg
+        r = 1 / reg
+        if u_denom != 0:
+            u210, u201, u102, u111 = sp.S(1), t, u102 / u_denom, u111 / u_denom
+            r = u_denom**2 / reg
         M00t, M01t, M02t, M22t = [f(t)/reg for f in (M00t, M01t, M02t, M22t)]
         quad_form = stack_quad_form(M00t, M01t, M02t, M22t)
         return u210, u102, u201, u111, r, quad_form
-- 
2.43.0


From b27125895198a9c89f4c820099cc008509b34290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:21 +0000
Subject: [PATCH 20/71] fix: univariate proofs with surd coefficients and
 non-convergent root finding crashed

---
 triples/core/structsos/pivoting/univariate.py | 17 ++++++++++++-
 triples/utils/roots/rationalize.py            | 24 +++++++++++++++++--
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 0af5f6b..7a5d7c9 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -5,6 +5,7 @@ import sympy as sp
 
 from ..utils import radsimp
 from ....sdp import congruence as _congruence
+from ....utils.roots.rationalize import _sympy_nroots
 
 def congruence(M: sp.Matrix) -> Optional[Tuple[sp.Matrix, sp.Matrix]]:
     """
@@ -330,6 +331,9 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
                 all_coeffs[i] = s * 2
         all_coeffs.append(0)
         poly -= sp.Poly(all_coeffs, poly.gen)
+        if not (poly.domain.is_ZZ or poly.domain.is_QQ):
+            # cancel the surds, otherwise the degree might be wrong
+            poly = sp.Poly(radsimp(poly.all_coeffs()), poly.gen)
 
         # then determine the diagonal entries of the major
         M = _determine_diagonal_entries(Ms[0], poly)
@@ -476,7 +480,7 @@ def _prove_univariate_irreducible(
     if poly.degree() <= 2:
         return _prove_univariate_simple(poly)
 
-    roots = sp.polys.nroots(poly, n = n)
+    roots = _sympy_nroots(poly, n = n)
     real_roots, complex_roots = _classify_roots(roots)
 
     # a mark of whether the polynomial is positive only over R+ (True) or over R (False)
@@ -645,6 +649,17 @@ def prove_univariate(
     lc, factors = poly.factor_list() if not poly.domain.is_Algebraic else poly.sqf_list()
     if lc < 0:
         return None
+    if not (poly.domain.is_ZZ or poly.domain.is_QQ):
+        # the factorization over surds might not split the factor x
+        factors, factors_ = [], factors
+        for factor, multiplicity in factors_:
+            (trailing,), factor = factor.terms_gcd()
+            if trailing > 0:
+                factors.append((sp.Poly(poly.gen, poly.gen), trailing * multiplicity))
+            if factor.degree() > 0:
+                factors.append((factor, multiplicity))
+            else:
+                lc *= factor.LC()**multiplicity
     mul = [(sp.S(1), [lc], [sp.S(1).as_poly(poly.gen)])]
     for factor, multiplicity in factors:
         if multiplicity % 2 == 0:
diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index 132c58b..75a2823 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -1,8 +1,22 @@
 from typing import Optional, Tuple, List, Dict, Union, Generator
 
 import sympy as sp
+from mpmath.libmp.libhyper import NoConvergence
 from numpy import roots as nproots
 
+def _sympy_nroots(poly, n = 15):
+    """
+    Wrapper of sympy.nroots that allows more steps when it does not converge, and
+    uses numpy.roots as a last resort.
+    """
+    for maxsteps in (50, 500):
+        try:
+            return sp.polys.nroots(poly, n = n, maxsteps = maxsteps)
+        except NoConvergence:
+            continue
+    return [sp.S(_) for _ in nproots([complex(_) for _ in poly.all_coeffs()])]
+
+
 def nroots(poly, method = 'numpy', real = False, nonnegative = False):
     """
     Wrapper function to find the numerical roots of a sympy polynomial.
@@ -23,7 +37,7 @@ def nroots(poly, method = 'numpy', real = False, nonnegative = False):
     if method == 'numpy':
         roots = [sp.S(_) for _ in nproots(poly.all_coeffs())]
     elif method == 'sympy':
-        roots = sp.polys.nroots(poly)
+        roots = _sympy_nroots(poly)
     elif method == 'factor':
         roots_rational = []
         roots = []
@@ -31,7 +45,7 @@ def nroots(poly, method = 'numpy', real = False, nonnegative = False):
             if part.degree() == 1:
                 roots_rational.append(-part.all_coeffs()[1] / part.all_coeffs()[0])
             else:
-                roots.extend(sp.polys.nroots(part))
+                roots.extend(_sympy_nroots(part))
         roots = roots_rational + roots
 
     if real:
@@ -56,6 +70,10 @@ def univariate_intervals(polys: Union[sp.Poly, List[sp.Poly]]) -> Generator[sp.R
     v: sympy.Rational
         Rational points where the signs of polynomials get changed.
     """
+    polys_ = polys if isinstance(polys, (list, tuple)) else [polys]
+    if any(isinstance(_, sp.Poly) and not (_.domain.is_ZZ or _.domain.is_QQ) for _ in polys_):
+        # real root isolation is only available over rational coefficients
+        return
     pre = sp.nan
     for ij in sp.intervals(polys):
         for v in ij[0]:
@@ -95,6 +113,8 @@ def rationalize(
     else:
         if True: # reliable:
             # https://tieba.baidu.com/p/7846250213
+            if isinstance(v, sp.Expr) and not v.is_Number:
+                v = v.n(20)
             x = sp.Rational(v)
             t = sp.floor(x)
             x = x - t
-- 
2.43.0


From 3844a46e5f2cd11f6cec3a4259824ebce3762cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:42 +0000
Subject: [PATCH 21/71] fix: constant equality constraints crashed the input
 sanitizer

---
 triples/core/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/shared.py b/triples/core/shared.py
index 3ad4e17..81ef115 100644
--- a/triples/core/shared.py
+++ b/triples/core/shared.py
@@ -234,7 +234,7 @@ def _std_eq_constraints(p: sp.Poly, e: sp.Expr) -> Tuple[sp.Poly, sp.Expr]:
     c, lst = _sqf_list(p)
     ret = sp.S(1 if c > 0 else -1).as_poly(*p.gens, domain=p.domain)
     e = e / c
-    max_d = sp.Integer(max(1, *(d for q, d in lst)))
+    max_d = sp.Integer(max([1] + [d for q, d in lst]))
     for q, d in lst:
         ret *= q
         e = e * q.as_expr()**(max_d - d)
-- 
2.43.0


From 988b779fc85728d34391cc402494684be900b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:49 +0000
Subject: [PATCH 22/71] fix: square-free parts of rational constraints lost the
 symmetry given by the user

---
 triples/core/shared.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/triples/core/shared.py b/triples/core/shared.py
index 81ef115..7773a0b 100644
--- a/triples/core/shared.py
+++ b/triples/core/shared.py
@@ -214,9 +214,18 @@ def clear_polys_by_symmetry(polys: List[Union[sp.Expr, Tuple[sp.Expr, ...]]],
 # fix the bug in sqf_list before 1.13.0
 # https://github.com/sympy/sympy/pull/26182
 if sp.__version__ >= '1.13.0':
-    _sqf_list = lambda p: p.sqf_list()
+    _sqf_list_raw = lambda p: p.sqf_list()
 else:
-    _sqf_list = lambda p: p.factor_list() # it would be slower, but correct
+    _sqf_list_raw = lambda p: p.factor_list() # it would be slower, but correct
+
+def _sqf_list(p: sp.Poly):
+    if not p.domain.is_QQ:
+        return _sqf_list_raw(p)
+    # factors over QQ are monic, which depends on the order of the generators
+    # and breaks the symmetry of the constraints, so use primitive factors
+    denom, p2 = p.clear_denoms(convert=True)
+    c, lst = _sqf_list_raw(p2)
+    return c / denom, [(q.set_domain(p.domain), d) for q, d in lst]
 
 def _std_ineq_constraints(p: sp.Poly, e: sp.Expr) -> Tuple[sp.Poly, sp.Expr]:
     if p.is_zero: return p, e
-- 
2.43.0


From 2ec576024fbb9d26d406dcfff967d47f6956e2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:46 +0000
Subject: [PATCH 23/71] fix: equality constraints given as even powers lost the
 symmetry given by the user

---
 triples/core/shared.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/core/shared.py b/triples/core/shared.py
index 7773a0b..41fa360 100644
--- a/triples/core/shared.py
+++ b/triples/core/shared.py
@@ -407,6 +407,10 @@ def _get_constraints_wrapper(symbols: Tuple[int, ...], ineq_constraints: Dict[sp
                 invorder = p.__invert__()(symbols)
                 permed_base = base.reorder(*invorder).rep
                 permed_expr = rep_dict.get(permed_base)
+                if permed_expr is None and name == '_H':
+                    # the sign of a square-free equality constraint might depend on the order of the generators
+                    permed_expr = rep_dict.get(-permed_base)
+                    permed_expr = -permed_expr if permed_expr is not None else None
                 if permed_expr is None:
                     raise ValueError("Given constraints are not symmetric with respect to the permutation group.")
                 compressed = _get_mask(p(symbols), dlist)
-- 
2.43.0


From 6402d8c8e2c872293dc2da503e17306e45788ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:35 +0000
Subject: [PATCH 24/71] fix: column separated linear systems with zero rows,
 zero columns or equalities across columns were solved wrongly

---
 triples/sdp/arithmetic.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 5245375..6163404 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -474,19 +474,16 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
                         space[k] = -w
                 spaces.append(space)
 
-        else:
-            bi = b.get(i, 0)
-            if bi != 0 and bi.get(0, zero) != zero:
-                raise ValueError("Linear system has no solution")
-
-            for j in range(len(row)):
-                if ufs[row[j][0]] == row[j][0]:
-                    group = groups[row[j][0]]
+    # rows of zeros are not stored in A
+    for i, bi in b.items():
+        if (not A.get(i)) and bi.get(0, zero) != zero:
+            raise ValueError("Linear system has no solution")
 
-                    space = {}
-                    for k in group:
-                        space[k] = one
-                    spaces.append(space)
+    # columns of zeros are free
+    used_heads = {ufs[j] for row in A.values() for j in row}
+    for head, group in groups.items():
+        if head not in used_heads:
+            spaces.append({k: one for k in group})
 
     x0 = dict(x0)
     spaces = dict(enumerate(spaces))
@@ -546,6 +543,12 @@ def solve_csr_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices: List[List[int
             if not _column_separated:
                 break
 
+        if _column_separated and len(x0_equal_indices):
+            # variables required to be equal must also share the same column
+            columns = {j: (i, v) for i, row in Arep.items() for j, v in row.items()}
+            _column_separated = all(columns.get(j) == columns.get(group[0])
+                                    for group in x0_equal_indices for j in group)
+
         if _column_separated:
             if _VERBOSE_SOLVE_CSR_LINEAR:
                 print('>> Column Separated System recognized', time() - time0)
-- 
2.43.0


From 8704ede60600866e64e87340292326693fcf0968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:35 +0000
Subject: [PATCH 25/71] fix: exact matrix products overflowed on entries equal
 to -2**63

---
 triples/sdp/arithmetic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 6163404..4cda697 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -621,6 +621,9 @@ def _cast_sympy_matrix_to_numpy(sympy_mat_rep, dtype: str = 'int64'):
         col_indices[k] = j
         data_list[k] = v.__int__()
 
+    if dtype == 'int64' and data_list and min(data_list) < -_INT64_MAX:
+        raise OverflowError('abs(-2**63) is not representable as int64')
+
     arr = np_zeros((rows, cols), dtype=dtype)
     if data_list:
         arr[row_indices, col_indices] = data_list
-- 
2.43.0


From a5c0a7b54db2d9a1f76793f0ff2b22f521f9fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:38 +0000
Subject: [PATCH 26/71] fix: stacked congruences with an empty matrix crashed

---
 triples/sdp/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 4cda697..9f933ee 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -830,8 +830,8 @@ def symmetric_bilinear_multiple(U: sp.Matrix, A: sp.Matrix) -> sp.Matrix:
         return eq_mat
 
     N = A.shape[0]
-    if N == 0:
-        return sp.Matrix.zeros(0, U.shape[1]**2)
+    if N == 0 or U.shape[0] == 0 or U.shape[1] == 0:
+        return sp.Matrix.zeros(N, U.shape[1]**2)
 
     if not (is_zz_qq_mat(A) and is_zz_qq_mat(U)):
         return default(A0, U0)
-- 
2.43.0


From 313f9bdbe149839856b7b469cfc25b3c6c9ed5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:55 +0000
Subject: [PATCH 27/71] fix: a LaTeX sum at the end of the text or closed by a
 bracket was delimited wrongly

---
 triples/utils/text_process.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index fafefb4..39efac6 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -69,7 +69,7 @@ def _preprocess_text_delatex(poly: str) -> str:
     parenthesis = 0
     paren_depth = [-1]
     i = 0
-    while i < len(poly) - 4:
+    while i < len(poly):
         if poly[i:i+3] == 'sum':
             parenthesis += 1
             paren_depth.append(parenthesis)
@@ -83,6 +83,10 @@ def _preprocess_text_delatex(poly: str) -> str:
         elif poly[i] == '(':
             parenthesis += 1
         elif poly[i] == ')':
+            if len(paren_depth) > 1 and parenthesis == paren_depth[-1]:
+                # the bracket enclosing the sum closes, so the sum ends here
+                poly = poly[:i] + ')' + poly[i:]
+                paren_depth.pop()
             parenthesis -= 1
         elif parenthesis == paren_depth[-1] and (poly[i] == '+' or poly[i] == '-'):
             poly = poly[:i] + ')' + poly[i:]
-- 
2.43.0


From ecbfc6f20b6205b258811151205f3edcbc713b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:04 +0000
Subject: [PATCH 28/71] fix: degree_of_zero dropped terms after a leading sign
 and counted parameters

---
 triples/utils/text_process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 39efac6..0716012 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -321,6 +321,9 @@ def degree_of_zero(
     i = 0
     length = len(poly)
     bracket = 0
+    while i < length and (poly[i] == '-' or poly[i] == '+'):
+        # leading signs, e.g.  -a^2+b^2
+        i += 1
     while i < length:
         if poly[i] == '+' or poly[i] == '-': 
             # run to the end of this bracket (sum does not affect the degree)
@@ -357,10 +360,7 @@ def degree_of_zero(
     try:
     #     degree = deg(Poly(poly))
         poly = fraction(sympify(poly))
-        if poly[1].is_constant():
-            degree = deg(Poly(poly[0]))
-        else:
-            degree = deg(Poly(poly[0])) - deg(Poly(poly[1]))
+        degree = deg(Poly(poly[0], *gens)) - deg(Poly(poly[1], *gens))
     except:
         degree = 0
         
-- 
2.43.0


From 0d47937dbead8ec53bb1504ca965a7542b40c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:30 +0000
Subject: [PATCH 29/71] fix: cyclic expansion permuted the letters of sqrt when
 t or q is a generator

---
 triples/utils/text_process.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 0716012..94d385b 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -12,7 +12,8 @@ def cycle_expansion(
         f: str,
         symbol: str = 's',
         gens: Tuple[Symbol] = sp_symbols("a b c"),
-        perm: Optional[PermutationGroup] = None
+        perm: Optional[PermutationGroup] = None,
+        preserve: Tuple[str, ...] = ('sqrt(',)
     ) -> str:
     """
     Parameters
@@ -29,6 +30,8 @@ def cycle_expansion(
         The generators of the polynomial.
     perm: Optional[PermutationGroup]
         The permutation group of the expression. If None, it will be cyclic group.
+    preserve: Tuple[str, ...]
+        Function names whose letters are not variables, and are not permuted.
 
     Return
     -------
@@ -41,8 +44,12 @@ def cycle_expansion(
     translations = [
         dict(zip(original_names, p(original_names))) for p in perm.elements
     ]
+    def _translate(f: str, t: dict, preserve: Tuple[str, ...]) -> str:
+        if len(preserve) == 0:
+            return f.translate(t)
+        return preserve[0].join(_translate(_, t, preserve[1:]) for _ in f.split(preserve[0]))
     symbol = ' * ' if symbol == 'p' else ' + '
-    return symbol.join(f.translate(t) for t in translations)
+    return symbol.join(_translate(f, t, preserve) for t in translations)
 
 ##########################################################################
 #
@@ -98,7 +105,13 @@ def _preprocess_text_delatex(poly: str) -> str:
     return poly
 
 
-def _preprocess_text_expansion(poly: str, gens: Tuple[Symbol], perm: PermutationGroup) -> str:
+def _preprocess_text_expansion(
+        poly: str,
+        gens: Tuple[Symbol],
+        perm: PermutationGroup,
+        preserve_sqrt: bool = True,
+        preserve_cbrt: bool = False
+    ) -> str:
     """
     Expand the polynomial with cycle expansion.
 
@@ -109,7 +122,8 @@ def _preprocess_text_expansion(poly: str, gens: Tuple[Symbol], perm: Permutation
     parenthesis = 0
     paren_depth = [-1]
     cycle_begin = []
-    _cyc_expand = partial(cycle_expansion, gens=gens, perm=perm)
+    preserve = (('sqrt(',) if preserve_sqrt else ()) + (('cbrt(',) if preserve_cbrt else ())
+    _cyc_expand = partial(cycle_expansion, gens=gens, perm=perm, preserve=preserve)
 
     i = 0
     while i < len(poly):
@@ -219,7 +233,10 @@ def preprocess_text(
         perm = CyclicGroup(len(gens))
 
     poly = _preprocess_text_delatex(poly)
-    poly = _preprocess_text_expansion(poly, gens, perm)
+    poly = _preprocess_text_expansion(poly, gens, perm,
+        preserve_sqrt=preserve_sqrt,
+        preserve_cbrt=preserve_cbrt
+    )
     poly = _preprocess_text_completion(poly,
         scientific_notation=scientific_notation,
         preserve_sqrt=preserve_sqrt,
@@ -310,7 +327,10 @@ def degree_of_zero(
         perm = CyclicGroup(len(gens))
 
     poly = _preprocess_text_delatex(poly)
-    poly = _preprocess_text_expansion(poly, gens, perm)
+    poly = _preprocess_text_expansion(poly, gens, perm,
+        preserve_sqrt=preserve_sqrt,
+        preserve_cbrt=preserve_cbrt
+    )
     poly = _preprocess_text_completion(poly,
         scientific_notation=scientific_notation,
         preserve_sqrt=preserve_sqrt,
-- 
2.43.0


From 3749e26602ec399a8a3e0524b4c1f006c5cc9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:09 +0000
Subject: [PATCH 30/71] fix: degree_of_zero miscounted nested brackets

---
 triples/utils/text_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 94d385b..a1fef38 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -372,8 +372,8 @@ def degree_of_zero(
             i += 1
             while i < length and (poly[i] == '-' or poly[i] == '+'):
                 i += 1
-            if i == length:
-                break 
+            # the character at i has not been read yet, it might be another bracket
+            continue
             
         i += 1
         
-- 
2.43.0


From 42623a78b1da1f59b9bbddeb6889c95994377c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 31/71] fix: factor form of a polynomial had a wrong sign when
 the representative is a negated image

---
 triples/utils/expression/form.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/form.py b/triples/utils/expression/form.py
index 0f96e34..fee7bb2 100644
--- a/triples/utils/expression/form.py
+++ b/triples/utils/expression/form.py
@@ -211,13 +211,15 @@ def _reduce_factor_list(poly: Poly, perm_group: PermutationGroup) -> Tuple[Expr,
     cyc_factors = []
     for base, power in factors:
         subdict = defaultdict(int)
-        representative = base
+        representative, representative_sign = base, 1
         sign = 1
         for p in perm_group.elements:
             permed_base = base.reorder(*p(poly.gens)).rep
             permed_poly = rep_dict.get(permed_base)
+            permed_sign = 1
             if permed_poly is None:
                 permed_poly = rep_dict.get(-permed_base)
+                permed_sign = -1
                 sign *= -1
             if permed_poly is None:
                 break
@@ -225,8 +227,10 @@ def _reduce_factor_list(poly: Poly, perm_group: PermutationGroup) -> Tuple[Expr,
             if pow_dict[permed_poly] < subdict[permed_poly]:
                 break
             if permed_poly.compare(representative) < 0:
-                representative = permed_poly
+                representative, representative_sign = permed_poly, permed_sign
         else:
+            # the product is generated by the representative rather than by the base
+            sign *= representative_sign ** perm_group.order()
             # get max common power
             d = min(pow_dict[p]//v for p, v in subdict.items())
             if sign == -1 and d % 2 == 1: coeff = -coeff
-- 
2.43.0


From 7b8575aa0fff284cc8a634d032f179f5b367b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:40 +0000
Subject: [PATCH 32/71] fix: factor form of the zero polynomial was malformed

---
 triples/utils/expression/form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/expression/form.py b/triples/utils/expression/form.py
index fee7bb2..85b58eb 100644
--- a/triples/utils/expression/form.py
+++ b/triples/utils/expression/form.py
@@ -265,7 +265,7 @@ def poly_get_factor_form(
     omit_pow : bool
         Whether to omit the power sign. Defaults to True.
     """
-    if poly.total_degree() == 0:
+    if poly.is_zero or poly.total_degree() == 0:
         return poly_get_standard_form(poly, perm, omit_mul, omit_pow)
 
     if perm is None:
-- 
2.43.0


From 4f1781dab75b89b342252305ebd8546a0a4b7d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 33/71] fix: plain text view dropped the caret of exponents
 with several digits

---
 triples/utils/expression/solution.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 7594421..a81466b 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -87,6 +87,12 @@ def _multiline_equation_latex(
 
 
 
+def _convert_superscript(s: str) -> str:
+    """Write integer exponents (of any number of digits) as superscripts."""
+    pow_trans = str.maketrans('0123456789', '⁰¹²³⁴⁵⁶⁷⁸⁹')
+    return re.sub(r'\^(\d+)', lambda m: m.group(1).translate(pow_trans), s)
+
+
 class Solution():
     PRINT_CONFIGS = {
         'WITH_CYC': False,
@@ -165,10 +171,10 @@ class Solution():
         replacements = dict([
             ('**', '^'),
             ('*', ' '),
-            *map(lambda x: ('^%d'%(x[0]+2), x[1]), enumerate('²³⁴⁵⁶⁷⁸⁹'))
         ])
         for old, new in replacements.items():
             s = s.replace(old, new)
+        s = _convert_superscript(s)
         s = '%s %s %s'%(self._str_f(), equal_sign, s)
         return s
 
@@ -344,9 +350,6 @@ class SolutionSimple(Solution):
                 cyclic_product_name=cyclic_product_name, with_cyclic_parens=with_cyclic_parens).replace('**','^')
 
             if mode == 'txt':
-                def _convert_superscript(s):
-                    pow_trans = str.maketrans('0123456789', '⁰¹²³⁴⁵⁶⁷⁸⁹')
-                    return re.sub(r'\^(\d+)', lambda m: m.group(1).translate(pow_trans), s)
                 to_str = lambda x: _convert_superscript(_to_str(x).replace('*',''))
             else:
                 to_str = lambda x: _to_str(x)
@@ -457,10 +460,10 @@ class SolutionSimple(Solution):
             (' ',''),
             ('**', '^'),
             ('*', ''),
-            *map(lambda x: ('^%d'%(x[0]+2), x[1]), enumerate('²³⁴⁵⁶⁷⁸⁹'))
         ])
         for old, new in replacements.items():
             s = s.replace(old, new)
+        s = _convert_superscript(s)
         return s
 
     @property
-- 
2.43.0


From cb573340df289f78c0e6ff4901a45d5c58b25518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:18 +0000
Subject: [PATCH 34/71] fix: rendering a solution as text switched a global
 printing flag, so concurrent renderings mixed notations

---
 triples/utils/expression/solution.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index a81466b..15b7655 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -164,9 +164,8 @@ class Solution():
 
     @property
     def str_txt(self) -> str:
-        CyclicExpr.PRINT_WITH_PARENS = False
         # s = _solution_latex_to_txt(self.str_latex)
-        s = str(self.solution)
+        s = _print_str(self.solution, with_cyclic_parens=False)
         equal_sign = '=' if self.is_equal else '≈'
         replacements = dict([
             ('**', '^'),
@@ -180,8 +179,7 @@ class Solution():
 
     @property
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
-        s = str(self.solution)
+        s = _print_str(self.solution, with_cyclic_parens=True)
         equal_sign = '=' if self.is_equal else '≈'
         replacements = dict([
             (' ',''),
@@ -447,12 +445,12 @@ class SolutionSimple(Solution):
 
     @property
     def str_txt(self):
-        CyclicExpr.PRINT_WITH_PARENS = False
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
-        s_multiplier = self._str_multiplier(add_paren = parener, get_str = lambda x: str(x))
-        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: str(x))
+        get_str = lambda x: _print_str(x, with_cyclic_parens=False)
+        s_multiplier = self._str_multiplier(add_paren = parener, get_str = get_str)
+        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = get_str)
         s = '+'.join(s_args)
         s = '%s%s%s'%(s_multiplier, equal_sign, s)
 
@@ -468,12 +466,12 @@ class SolutionSimple(Solution):
 
     @property
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
-        s_multiplier = self._str_multiplier(add_paren = parener, get_str = lambda x: str(x))
-        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: str(x))
+        get_str = lambda x: _print_str(x, with_cyclic_parens=True)
+        s_multiplier = self._str_multiplier(add_paren = parener, get_str = get_str)
+        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = get_str)
         s = '+'.join(s_args)
         s = '%s%s%s'%(s_multiplier, equal_sign, s)
 
-- 
2.43.0


From 954ac06b7c9348c674485cb9e6cee2986192654b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:00 +0000
Subject: [PATCH 35/71] fix: equal-entry groups listed twice made column
 separated linear systems gain false free columns

---
 triples/sdp/arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 9f933ee..17a23e9 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -482,7 +482,7 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
     # columns of zeros are free
     used_heads = {ufs[j] for row in A.values() for j in row}
     for head, group in groups.items():
-        if head not in used_heads:
+        if ufs[head] == head and (head not in used_heads):
             spaces.append({k: one for k in group})
 
     x0 = dict(x0)
-- 
2.43.0


From 00fea2e9361c2c802e44df47eb659165d1eda135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 36/71] fix: an inequality occurring twice in the quadratic
 module misaligned the blocks of the semidefinite program

---
 triples/core/sdpsos/sdpsos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index 815d8cb..9cf6e67 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -362,8 +362,9 @@ class SOSProblem():
             The SDP problem to solve.
         """
         gens = self.poly.gens
-        ineq_constraints = [Poly(ineq, *gens) for ineq in ineq_constraints]
-        eq_constraints = [Poly(eq, *gens) for eq in eq_constraints]
+        # the blocks are keyed by the constraints, so remove duplicates
+        ineq_constraints = list(dict.fromkeys(Poly(ineq, *gens) for ineq in ineq_constraints))
+        eq_constraints = list(dict.fromkeys(Poly(eq, *gens) for eq in eq_constraints))
         if self.is_homogeneous and (not all(eq.is_homogeneous for eq in eq_constraints) 
                             or not all(ineq.is_homogeneous for ineq in ineq_constraints)):
             raise ValueError("Expecting all constraints to be homogeneous.")
-- 
2.43.0


From 890a306468cfb31139fd0850451cbf9fa7888fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 37/71] fix: linear programming proofs divided by a multiplier
 that vanishes under the equality constraints, proving false claims

---
 triples/core/linsos/linsos.py | 37 ++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index 8abb0a0..17882e5 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -14,7 +14,7 @@ from scipy import __version__ as _SCIPY_VERSION
 from .basis import LinearBasis, LinearBasisTangent, LinearBasisTangentEven
 from .tangents import root_tangents
 from .correction import linear_correction
-from .updegree import lift_degree
+from .updegree import lift_degree, LinearBasisMultiplier
 from .solution import SolutionLinear
 from ..shared import homogenize_expr_list, clear_polys_by_symmetry, sanitize_input, sanitize_output
 from ...utils import findroot, RootsInfo, RootTangent
@@ -200,6 +200,38 @@ def _odd_basis_to_even(basis: List[LinearBasis], symbols: Tuple[Symbol, ...], in
     return new_basis
 
 
+def _sum_multipliers(poly: Poly, y: List[Expr], basis: List[LinearBasis], symmetry: MonomialManager) -> Poly:
+    """
+    Compute the multiplier h such that `poly * h` is certified by the solution of the linear programming.
+    """
+    gens = poly.gens
+    multiplier = Poly(0, *gens)
+    for v, b in zip(y, basis):
+        if isinstance(b, LinearBasisMultiplier):
+            multiplier += v * Poly(b._tangent(gens, poly=True), *gens)
+    terms = [(m, c) for m, c in multiplier.terms()]
+    return sum((Poly(dict((tuple(p(list(m))), c) for m, c in terms), *gens)
+                for p in symmetry.perm_group.elements), Poly(0, *gens))
+
+def _is_zero_divisor(multiplier: Poly, eq_constraints: List[Tuple[Poly, Expr]]) -> bool:
+    """
+    Check whether a multiplier vanishes, or shares a factor with a constraint, modulo
+    the equality constraints. In this case, `multiplier * poly >= 0` given the
+    equality constraints does not imply `poly >= 0`.
+    """
+    eqs = [eq for eq, _ in eq_constraints]
+    gens = multiplier.gens
+    linear_eqs = [eq for eq in eqs if eq.is_linear]
+    if len(linear_eqs):
+        G = sp.groebner(linear_eqs, *gens)
+        reduce = lambda f: Poly(G.reduce(f.as_expr())[1], *gens)
+        eqs = [reduce(eq) for eq in eqs if not eq.is_linear]
+        multiplier = reduce(multiplier)
+    if multiplier.is_zero:
+        return True
+    return any(multiplier.gcd(eq).total_degree() > 0 for eq in eqs if not eq.is_zero)
+
+
 def _get_qmodule_list(poly: Poly, ineq_constraints: Dict[Poly, Expr],
         all_nonnegative: bool = False, preordering: str = 'linear') -> List[Tuple[Poly, Expr]]:
     _ACCEPTED_PREORDERINGS = ['none', 'linear']
@@ -420,6 +452,9 @@ def _LinearSOS(
                 num_multipliers = len(lift_degree_info['basis']),
                 symmetry = symmetry
             )
+            if is_equal and len(eq_constraints) and _is_zero_divisor(_sum_multipliers(poly, y, basis, symmetry), eq_constraints):
+                # the multiplier vanishes where the equality constraints hold, so nothing is proved
+                continue
             if is_equal or allow_numer > 0:
                 basis = _odd_basis_to_even(basis, poly.gens, ineq_constraints)
                 solution = SolutionLinear._from_y_basis(
-- 
2.43.0


From 892ceae3675255c834d5a0d539d94f526aa6fd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 38/71] fix: linear programming proofs with fractional
 multipliers raised CoercionFailed when checked against equality constraints

---
 triples/core/linsos/linsos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index 17882e5..ccff247 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -223,8 +223,8 @@ def _is_zero_divisor(multiplier: Poly, eq_constraints: List[Tuple[Poly, Expr]])
     gens = multiplier.gens
     linear_eqs = [eq for eq in eqs if eq.is_linear]
     if len(linear_eqs):
-        G = sp.groebner(linear_eqs, *gens)
-        reduce = lambda f: Poly(G.reduce(f.as_expr())[1], *gens)
+        G = sp.groebner(linear_eqs, *gens, field=True)
+        reduce = lambda f: sp.reduced(f, G.polys, *gens, field=True, polys=True)[1]
         eqs = [reduce(eq) for eq in eqs if not eq.is_linear]
         multiplier = reduce(multiplier)
     if multiplier.is_zero:
-- 
2.43.0


From afc474540dac26624496e09969176fba96aef870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 39/71] fix: AttributeError for ternary roots whose coordinates
 lie in no common extension field

---
 triples/utils/roots/roots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 4a20887..0eb247b 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -361,7 +361,7 @@ class TernaryMixin():
             self._uv = (sp.oo, sp.oo)
         else:
             a, b, c = self.root if not hasattr(self, 'root_anp') else self.root_anp
-            one = sp.S(1) if not hasattr(self, 'K') else self.K.one
+            one = sp.S(1) if getattr(self, 'K', None) is None else self.K.one
             sa2b2 = a**2*b**2 + b**2*c**2 + c**2*a**2
             sa2bc = a*b*c * (a + b + c)
             sab3 = a*b**3 + b*c**3 + c*a**3
-- 
2.43.0


From 5687288fd1c46e6210cc2e8bd1b30655b59f3b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:01 +0000
Subject: [PATCH 40/71] fix: SDPSOS with preordering='none' raised TypeError

---
 triples/core/sdpsos/sdpsos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index 9cf6e67..58ba1da 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -431,6 +431,7 @@ def _get_qmodule_list(poly: Poly, ineq_constraints: List[Tuple[Poly, Expr]],
 
     degree = poly.total_degree()
     poly_one = Poly(1, *poly.gens)
+    ineq_constraints = list(ineq_constraints)
 
     def degree_filter(polys_and_exprs):
         return [pe for pe in polys_and_exprs if pe[0].total_degree() <= degree \
-- 
2.43.0


From fe5bb4e5114db3a652a46293a84f0ea738bdd666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 41/71] fix: NoConvergence escaped from the resultant root
 finder

---
 triples/utils/roots/findroot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triples/utils/roots/findroot.py b/triples/utils/roots/findroot.py
index 031e471..d94fe6a 100644
--- a/triples/utils/roots/findroot.py
+++ b/triples/utils/roots/findroot.py
@@ -10,7 +10,7 @@ from sympy.plotting.experimental_lambdify import vectorized_lambdify
 from scipy.optimize import minimize
 
 from .grid import GridRender, GridPoly
-from .rationalize import nroots, rationalize
+from .rationalize import nroots, rationalize, _sympy_nroots
 from .roots import Root, RootAlgebraic, RootRational
 from .rootsinfo import RootsInfo
 from ..polytools import deg, verify_hom_cyclic
@@ -695,7 +695,7 @@ class _findroot_helper_resultant():
         all_roots = []
         all_roots_inv = []
         for i, factor_ in enumerate(factors):
-            for r in sp.polys.nroots(factor_[0], n = prec):
+            for r in _sympy_nroots(factor_[0], n = prec):
                 if r.is_real:
                     all_roots.append((r, i))
                     if r != 0:
@@ -743,11 +743,11 @@ class _findroot_helper_resultant():
         all_roots1 = []
         all_roots2 = []
         for i, factor_ in enumerate(factors1):
-            for r in sp.polys.nroots(factor_[0], n = prec):
+            for r in _sympy_nroots(factor_[0], n = prec):
                 if r.is_real:
                     all_roots1.append((r, i))
         for i, factor_ in enumerate(factors2):
-            for r in sp.polys.nroots(factor_[0], n = prec):
+            for r in _sympy_nroots(factor_[0], n = prec):
                 if r.is_real:
                     all_roots2.append((r, i))
 
-- 
2.43.0


From 3c75b0220a956ec546d315e33abf5b7b80db1371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:34 +0000
Subject: [PATCH 42/71] fix: SDP solve dropped use_default_configs when
 delegating to the child problem

---
 triples/sdp/abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index 0715c4f..8b4239f 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -359,6 +359,7 @@ class SDPProblemBase(ABC):
                     min_eigen = min_eigen,
                     scaling = scaling,
                     solver = solver,
+                    use_default_configs = use_default_configs,
                     allow_numer = allow_numer,
                     verbose = verbose,
                     solve_child = solve_child,
-- 
2.43.0


From 65da4c5262b8eaf7e2797ac2ac462ccfa8bea9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:26 +0000
Subject: [PATCH 43/71] fix: numerical solutions accepted by allow_numer 2/3
 stored malformed decompositions and a flat array

---
 triples/sdp/abstract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index 8b4239f..b1b6334 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -258,8 +258,9 @@ class SDPProblemBase(ABC):
                 self._ys.append(y)
 
                 def _force_return(self: SDPProblemBase, y):
+                    y = Matrix(y.size, 1, y.flatten().tolist())
                     self.register_y(y, perturb = True, propagate_to_parent = False)
-                    _decomp = dict((key, (s, d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
+                    _decomp = dict((key, (s, *d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
                     return y, _decomp
 
                 if allow_numer >= 3:
-- 
2.43.0


From f5a889fb8d136cb92e40f06ee2e6216659c3b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 44/71] fix: full column spaces and fully constrained blocks
 broke semidefinite reductions (ShapeError, StopIteration)

---
 triples/sdp/backend/backend.py |  6 +++---
 triples/sdp/backend/caller.py  |  4 ++--
 triples/sdp/dual.py            |  7 ++++---
 triples/sdp/transform.py       | 12 +++++++++---
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/triples/sdp/backend/backend.py b/triples/sdp/backend/backend.py
index 0256176..22645ca 100644
--- a/triples/sdp/backend/backend.py
+++ b/triples/sdp/backend/backend.py
@@ -195,17 +195,17 @@ class DualBackend(SDPBackend, ABC):
 
 class DegeneratedDualBackend(DualBackend):
     """
-    Return array([]) if there is no optimization variable.
+    Return a zero vector if there is no optimization variable or nothing to optimize.
     """
     def _add_linear_matrix_inequality(self, x0: np.ndarray, extended_space: np.ndarray) -> np.ndarray: ...
     def _add_constraint(self, constraint: np.ndarray, rhs: float = 0, operator='__ge__') -> None: ...
     def _set_objective(self, objective: np.ndarray) -> None: ...
 
     def __repr__(self) -> str:
-        return f"{self.__class__.__name__}(dof=0)"
+        return f"{self.__class__.__name__}(dof={self.dof})"
 
     def solve(self, *args, **kwargs):
-        return np.array([], dtype=np.float64)
+        return np.zeros(self.dof, dtype=np.float64)
 
 
 class PrimalBackend(SDPBackend, ABC):
diff --git a/triples/sdp/backend/caller.py b/triples/sdp/backend/caller.py
index 5ff9a5b..a220a90 100644
--- a/triples/sdp/backend/caller.py
+++ b/triples/sdp/backend/caller.py
@@ -56,8 +56,8 @@ def _create_numerical_dual_sdp(
     """
     Create a numerical dual SDP problem.
     """
-    dof = next(iter(x0_and_space.values()))[1].shape[1]
-    if dof == 0:
+    dof = next((space.shape[1] for x0, space in x0_and_space.values()), 0)
+    if dof == 0 or (len(constraints) == 0 and all(x0.shape[0] == 0 for x0, space in x0_and_space.values())):
         # nothing to optimize
         return DegeneratedDualBackend(dof)
 
diff --git a/triples/sdp/dual.py b/triples/sdp/dual.py
index f644538..c046fa7 100644
--- a/triples/sdp/dual.py
+++ b/triples/sdp/dual.py
@@ -269,10 +269,11 @@ class SDPProblem(DualTransformMixin):
         """
         Get the default configurations of the SDP problem.
         """
-        if self.dof == 0:
-            objective_and_min_eigens = [(0, 0)]
+        nonempty_keys = self.keys(filter_none = True)
+        if self.dof == 0 or len(nonempty_keys) == 0:
+            objective_and_min_eigens = [(np.zeros(self.dof) if self.dof else 0, 0)]
         else:
-            obj_key = self.keys(filter_none = True)[0]
+            obj_key = nonempty_keys[0]
             min_trace = min_trace_objective(self._x0_and_space[obj_key][1])
             objective_and_min_eigens = [
                 (min_trace, 0),
diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 0291108..26fb4af 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -196,9 +196,13 @@ class DualMatrixTransform(SDPMatrixTransform):
 
 
         # eq * y + x0 = 0 => y = trans_x0 + trans_space * z
-        eq_list = sp.Matrix.vstack(*eq_list)
-        x0_list = sp.Matrix(x0_list)
-        trans_x0, trans_space = solve_undetermined_linear(eq_list, -x0_list)
+        if len(eq_list):
+            eq_list = sp.Matrix.vstack(*eq_list)
+            x0_list = sp.Matrix(x0_list)
+            trans_x0, trans_space = solve_undetermined_linear(eq_list, -x0_list)
+        else:
+            # full columnspaces, no constraint on y
+            trans_x0, trans_space = sp.zeros(parent_node.dof, 1), sp.eye(parent_node.dof)
         self._trans_x0, self._trans_space = trans_x0, trans_space
 
         # Sum(Ui' * Aij * Ui * (trans_x0 + trans_space * z)[j]) >> 0
@@ -206,6 +210,8 @@ class DualMatrixTransform(SDPMatrixTransform):
         for key, (x0, space) in parent_node._x0_and_space.items():
             U = self._columnspace[key]
             if is_empty_matrix(U):
+                # the matrix is fully determined to be zero
+                new_x0_and_space[key] = (sp.zeros(0, 1), sp.zeros(0, trans_space.shape[1]))
                 continue
             eq_mat = symmetric_bilinear_multiple(U, space.T).T
             new_space = eq_mat * trans_space
-- 
2.43.0


From c1e25975e26287900194fd2c6c471dccb613aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:39 +0000
Subject: [PATCH 45/71] fix: the primal clarabel backend claimed to be
 available without clarabel, primal problems were never solved

---
 triples/sdp/backend/clarabel_sdp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/sdp/backend/clarabel_sdp.py b/triples/sdp/backend/clarabel_sdp.py
index 8b01c10..00d5962 100644
--- a/triples/sdp/backend/clarabel_sdp.py
+++ b/triples/sdp/backend/clarabel_sdp.py
@@ -99,6 +99,8 @@ class DualBackendCLARABEL(DualBackend):
 
 
 class PrimalBackendCLARABEL(PrimalBackend):
+    _dependencies = ('clarabel', 'scipy')
+
     def __init__(self, x0) -> None:
         super().__init__(x0)
 
-- 
2.43.0


From 2932da6acd6545d022131a1717916e0826e4f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 46/71] fix: constrain_nullspace(to_child=True) failed after
 constrain_symmetry or constrain_equal_entries

---
 triples/sdp/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 26fb4af..743d7ff 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -508,6 +508,9 @@ class SDPVectorTransform(SDPTransformation):
             parent_node.propagate_to_parent(recursive = recursive)
         return parent_node
 
+    def propagate_nullspace_to_child(self, nullspace: Dict[str, sp.Matrix]):
+        return nullspace
+
 
 class SDPDeparametrization(SDPTransformation):
     def __new__(cls, parent_node):
-- 
2.43.0


From 2bddb1d7c947ca27a21201c67cda72092546f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:54 +0000
Subject: [PATCH 47/71] fix: SDPProblem.from_matrix misread linear entries that
 are not expanded, such as 2*(x+1)/3

---
 triples/sdp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index cfe922e..469dbcc 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -4,7 +4,7 @@ from typing import Union, Optional, Tuple, List, Dict, Callable, Generator, Any
 
 from numpy import zeros as np_zeros
 from numpy import ndarray
-from sympy import Matrix, MatrixBase, Expr, Rational, Symbol, re, eye, collect
+from sympy import Matrix, MatrixBase, Expr, Rational, Symbol, re, eye, collect, expand
 from sympy.core.relational import GreaterThan, StrictGreaterThan, LessThan, StrictLessThan, Equality, Relational
 from sympy.core.singleton import S as singleton
 
@@ -411,7 +411,7 @@ def decompose_matrix(
 
     for i in range(rows):
         for j in range(cols):
-            expr = M[i, j]
+            expr = expand(M[i, j])
             terms = collect(expr, variables, evaluate=False)
 
             constant_term = terms.pop(singleton.One, 0)  # Extract and remove constant term for x
-- 
2.43.0


From ab22bd81d8a5b132005aa49991136d4a9478e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 48/71] fix: an unsolved primal problem with removed rows
 raised TypeError instead of reporting failure

---
 triples/sdp/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 743d7ff..f87184c 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -436,6 +436,8 @@ class PrimalRowMasking(SDPRowMasking):
 
     def propagate_to_parent(self, recursive: bool = True):
         parent_node, child_node = self.parent_node, self.child_node
+        if child_node.y is None:
+            return parent_node
         mats = {key: sp.zeros(m, m) for key, m in parent_node.size.items()}
         y = sp.zeros(parent_node.dof, 1)
         y_offset = 0
-- 
2.43.0


From ef3beae8bbe8eb4748f8fc54e511501e92ec6c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 49/71] fix: primal projection divided by zero for
 rank-deficient overdetermined equations

---
 triples/sdp/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 5f6c801..52829b7 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -150,7 +150,7 @@ class SDPPrimal(PrimalTransformMixin):
         if all(i == 0 for i in r):
             return y
         dy = None
-        if A.rows >= A.cols:
+        if A.rows >= A.cols and A.rank() == A.cols:
             dy = A.LDLsolve(r)
         elif allow_numerical_solver and any(isinstance(_, Float) for _ in r):
             # use numerical solver for float numbers
-- 
2.43.0


From 251da1037c058b9fa974a51bec7ef43a8ad68837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 50/71] fix: SDPPrimal.S_from_y() without argument raised
 ValueError

---
 triples/sdp/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 52829b7..f5f1416 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -101,7 +101,7 @@ class SDPPrimal(PrimalTransformMixin):
         if y is None:
             y = []
             for i, m in enumerate(self.size.values()):
-                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(j, m)]
+                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(m)]
             y = Matrix(y)
         else:
             m = sum(space.shape[1] for space in self._space.values())
-- 
2.43.0


From a3d70a85b522c87ec81ff285e946de8365ad57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:26 +0000
Subject: [PATCH 51/71] fix: registering a point of a primal problem with
 inconsistent equations stored an infeasible solution

---
 triples/sdp/primal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index f5f1416..717cd50 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -160,6 +160,8 @@ class SDPPrimal(PrimalTransformMixin):
             dy = Matrix(dy2)
         else:
             dy = A.pinv_solve(r, arbitrary_matrix=Matrix.zeros(A.cols, 1))
+        if any(i.is_Rational and i != 0 for i in r - A * dy):
+            raise ValueError("The equality constraints are inconsistent.")
         return y + dy
 
     def _get_defaulted_configs(self) -> List[List[Any]]:
-- 
2.43.0


From 61ed2dce2f3eac9d6488d3be991dec1b50c3c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:39 +0000
Subject: [PATCH 52/71] fix: rewrite_symmetry used transversals of the wrong
 cosets for non-normal subgroups

---
 triples/utils/expression/cyclic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 00b8547..1ed861f 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -934,7 +934,9 @@ def _get_rewriting_replacement(symbols: Tuple[Symbol], perm_group: PermutationGr
             elif perm_group.is_subgroup(x.args[2]):
                 # 3. check whether the given permutation group is a subgroup of the expression's permutation group
                 transversals = x.args[2].coset_transversal(perm_group)
-                translations = [dict(zip(x.args[1], p(x.args[1]))) for p in transversals]
+                # the images under perm_group are taken after the translation,
+                # so the inverses of the (right) transversals are needed
+                translations = [dict(zip(x.args[1], (~p)(x.args[1]))) for p in transversals]
                 trans_perm_group = [dict(zip(x.args[1], p(x.args[1]))) for p in perm_group.elements]
                 exprs = [x.args[0].xreplace(t) for t in translations]
                 for i, expr in enumerate(exprs):
-- 
2.43.0


From fdd63124ede9be0f085bdf0993aa6e04182f48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:39 +0000
Subject: [PATCH 53/71] fix: rewrite_symmetry left nested cyclic expressions
 over other groups or symbols

---
 triples/utils/expression/cyclic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 1ed861f..5ca5b59 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -986,4 +986,11 @@ def rewrite_symmetry(expr: Expr, symbols: Tuple[Symbol], perm_group: Permutation
     {PermutationGroup([
      (0 1 2 3)])}
     """
-    return expr.replace(lambda x: isinstance(x, CyclicExpr), _get_rewriting_replacement(symbols, perm_group))
\ No newline at end of file
+    replacement = _get_rewriting_replacement(symbols, perm_group)
+    while True:
+        # rewriting one of two nested cyclic expressions may bring the other
+        # into a different group or over different symbols
+        new_expr = expr.replace(lambda x: isinstance(x, CyclicExpr), replacement)
+        if new_expr == expr:
+            return expr
+        expr = new_expr
\ No newline at end of file
-- 
2.43.0


From f85756e1c880c92e9b6a72cbee736aff9abbfdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:39 +0000
Subject: [PATCH 54/71] fix: dehomogenizing a solution equal to the homogenizer
 raised AttributeError

---
 triples/utils/expression/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 15b7655..bd93aee 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -506,7 +506,7 @@ class SolutionSimple(Solution):
                 return expr.func(f, symbols[:n-1], new_perm)
             return expr
         def dehom(f):
-            f = f.xreplace({homogenizer: 1})
+            f = f.xreplace({homogenizer: S.One})
             f = f.replace(lambda x: isinstance(x, CyclicExpr), _deflat_perm_group)
             return f
         self.solution = dehom(self.solution)
-- 
2.43.0


From 26fd3ba9fb460682ed4aa8afaa315f8430042668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:06 +0000
Subject: [PATCH 55/71] fix: common_region_of_conics and
 rationalize_quadratic_curve fail on hyperbolas, parabolas, lines and
 proportional conics

(also rationalize_bound returned irrational candidates for exact irrational numbers and a non-strict lower bound)
---
 triples/utils/roots/rationalize.py | 117 +++++++++++++++++++----------
 1 file changed, 79 insertions(+), 38 deletions(-)

diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index 75a2823..2d94189 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -240,13 +240,20 @@ def rationalize_bound(v, direction = 1, roundings = None, compulsory = True):
 
     if direction == 0:
         compare = lambda a, b: True
+    elif direction == 1:
+        compare = lambda a, b: True if a > b else False
     else:
-        compare = lambda a, b: True if ((a > b) ^ (direction == -1)) else False
+        compare = lambda a, b: True if a < b else False
+
+    bound = v
+    if isinstance(v, sp.Expr) and not v.is_Number:
+        # sympy.nsimplify keeps exact irrational numbers
+        v = v.n(20)
 
     previous_v = None
     for rounding in roundings:
         v_ = rationalize(v + direction * rounding * 3, rounding = rounding, reliable = False)
-        if v_ != previous_v and compare(v_, v):
+        if v_ != previous_v and compare(v_, bound):
             previous_v = v_
             yield v_
     
@@ -255,7 +262,7 @@ def rationalize_bound(v, direction = 1, roundings = None, compulsory = True):
     
     for rounding in (1e-2, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12):
         v_ = sp.nsimplify(v + direction * rounding * 10, rational = True, tolerance = rounding)
-        if v_ != previous_v and compare(v_, v):
+        if v_ != previous_v and compare(v_, bound):
             previous_v = v_
             yield v_
     
@@ -343,46 +350,78 @@ def rationalize_quadratic_curve(
         if curve.subs({x: x_, y: y_}) != 0:
             raise ValueError(f"Given point does not {point} lie on the curve.")
     else:
-        curve = curve.as_poly(x)
-        if curve.degree() == 1:
-            x = (-curve.coeffs()[1] / curve.coeffs()[0]).factor()
-            return (x, y)
-        elif curve.degree() > 2:
+        curve = curve.as_poly(x, y)
+        if curve is None or curve.total_degree() not in (1, 2):
             return
+        if curve.degree(x) == 0:
+            # the first variable does not appear, try the other order
+            x, y = y, x
+        curve = curve.as_poly(x, y)
+        if curve.degree(x) == 1:
+            # curve = c1(y)*x + c0(y)
+            curve_x = curve.as_poly(x)
+            c1, c0 = [sp.Poly(_, y) for _ in curve_x.all_coeffs()]
+            if not one_point:
+                return {x: (-c0/c1).as_expr().subs(y, gen).factor(), y: gen}
+            y_ = next(sp.Integer(_) for _ in range(2) if c1(_) != 0)
+            return {x: -c0(y_) / c1(y_), y: y_}
+        curve = curve.as_poly(x)
         if curve.all_coeffs()[0] < 0:
             curve = -curve
 
         # curve = a*(x-...)^2 + curve_y
         curve_y = -curve.all_coeffs()[1]**2/4/curve.all_coeffs()[0] + curve.all_coeffs()[2]
-        curve_y = curve_y.as_poly(y)
-
-        # curve = a*(x-...)^2 + b*(y-...)^2 + const = 0
-        const = -curve_y.all_coeffs()[1]**2/4/curve_y.all_coeffs()[0] + curve_y.all_coeffs()[2]
-        x0 = -curve.all_coeffs()[1]/2/curve.all_coeffs()[0]
-        y0 = -curve_y.all_coeffs()[1]/2/curve_y.all_coeffs()[0]
-        a, b, c = curve.all_coeffs()[0], curve_y.all_coeffs()[0], const
-        
-        # cancel the denominator
-        r = cancel_denominator((a,b,c))
-        a, b, c = a / r, b / r, c / r
-        if a < 0:
-            a, b, c = -a, -b, -c
-        
-        # convert to (sqrt(a)*(x-..))^2 + b*(y-...)^2 + c = 0
-        t = core(a)
-        a, b, c = a * t, b * t, c * t
-        b_, c_ = core(abs(b.p*b.q)) * sp.sign(b), core(abs(c.p*c.q)) * sp.sign(c)
-
-        sol = diop_DN(-b_, -c_)
-        if len(sol) == 0:
-            return
-        
-        # u^2 + b_v^2 + c_ = 0 => (u * sqrt(c/c_))^2 + b * (v * sqrt(c/c_) / sqrt(b/b_))^2 + c = 0
-        u, v = sol[0]
-        tmp = sp.sqrt(c / c_)
-        x_, y_ = u * tmp / sp.sqrt(a), v * tmp / sp.sqrt(b / b_)
-        y_ = y_ + y0
-        x_ = x_ + x0.subs(y, y_)
+        curve_y = sp.Poly(curve_y, y)
+        a, x0 = curve.all_coeffs()[0], -curve.all_coeffs()[1]/2/curve.all_coeffs()[0]
+
+        if curve_y.degree() <= 0:
+            # curve = a*(x-...)^2 + const is a pair of parallel lines
+            tmp = sp.sqrt(-curve_y.as_expr()/a)
+            if not isinstance(tmp, sp.Rational):
+                return
+            x_, y_ = x0.subs(y, 0) + tmp, sp.S(0)
+            if not one_point:
+                return {x: (x0 + tmp).subs(y, gen), y: gen}
+        elif curve_y.degree() == 1:
+            # curve = a*(x-...)^2 + b*(y-...) is a parabola
+            y_ = -curve_y.all_coeffs()[1] / curve_y.all_coeffs()[0]
+            x_ = x0.subs(y, y_)
+        else:
+            # curve = a*(x-...)^2 + b*(y-...)^2 + const = 0
+            const = -curve_y.all_coeffs()[1]**2/4/curve_y.all_coeffs()[0] + curve_y.all_coeffs()[2]
+            y0 = -curve_y.all_coeffs()[1]/2/curve_y.all_coeffs()[0]
+            b, c = curve_y.all_coeffs()[0], const
+
+            if c == 0:
+                # a pair of lines through the center, only the center is known to be rational
+                tmp = sp.sqrt(-b/a)
+                x_, y_ = x0.subs(y, y0), y0
+                if not one_point:
+                    if not isinstance(tmp, sp.Rational):
+                        return
+                    return {x: (x0 + tmp*(y - y0)).subs(y, gen).expand(), y: gen}
+            else:
+                # cancel the denominator
+                r = cancel_denominator((a,b,c))
+                a, b, c = a / r, b / r, c / r
+                if a < 0:
+                    a, b, c = -a, -b, -c
+
+                # convert to (sqrt(a)*(x-..))^2 + b*(y-...)^2 + c = 0
+                t = core(a)
+                a, b, c = a * t, b * t, c * t
+                b_, c_ = core(abs(b.p*b.q)) * sp.sign(b), core(abs(c.p*c.q)) * sp.sign(c)
+
+                sol = diop_DN(-b_, -c_)
+                if len(sol) == 0:
+                    return
+
+                # u^2 + b_v^2 + c_ = 0 => (u * sqrt(c/c_))^2 + b * (v * sqrt(c/c_) / sqrt(b/b_))^2 + c = 0
+                u, v = sol[0]
+                tmp = sp.sqrt(c / c_)
+                x_, y_ = u * tmp / sp.sqrt(a), v * tmp / sp.sqrt(b / b_)
+                y_ = y_ + y0
+                x_ = x_ + x0.subs(y, y_)
     if one_point:
         return {x: x_, y: y_}
     
@@ -445,7 +484,9 @@ def common_region_of_conics(polys: List[sp.Poly], _tol = 1e-10) -> Optional[Tupl
         gcd = sp.gcd(f1, f2).as_poly(x, y)
         if gcd.total_degree() == 2:
             # f1 is a multiple of f2
-            yield rationalize_quadratic_curve(f1, one_point=True)
+            point = rationalize_quadratic_curve(f1, one_point=True)
+            if point is not None:
+                yield point[x], point[y]
         elif gcd.total_degree() == 1:
             a, b, c = [gcd.coeff_monomial(_) for _ in [(1,0),(0,1),(0,0)]]
             # ax + by + c = 0
-- 
2.43.0


From 98925b4f680eafafdd8d0e014834f915784b0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:26 +0000
Subject: [PATCH 56/71] fix: algebraic roots crash or give wrong values for
 sympy operands, zero sums, rational spans and CRootOf coordinates

---
 triples/utils/roots/roots.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 0eb247b..764cb04 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -227,8 +227,11 @@ class RootAlgebraic(Root):
             return str(self.root)
         return str(tuple(r.n(15) if not isinstance(r, sp.Rational) else r for r in self.root))
 
-    def to_sympy(self, *args, **kwargs):
-        return self.K.to_sympy(*args, **kwargs)
+    def to_sympy(self, x, *args, **kwargs):
+        if self.K is None or isinstance(x, sp.Basic):
+            # x is not an element of self.K
+            return x
+        return self.K.to_sympy(x, *args, **kwargs)
 
     def from_sympy(self, *args, **kwargs):
         return self.K.from_sympy(*args, **kwargs)
@@ -262,7 +265,7 @@ class RootAlgebraic(Root):
             for ind, monom in enumerate(monoms):
                 vec[ind] = _single_power(monom)
         else:
-            zero = self.K.zero
+            zero = self.K.zero if self.K is not None else sp.S(0)
             for ind, monom in enumerate(monoms):
                 if any(order_m < order_diff for order_m, order_diff in zip(monom, diff)):
                     vec[ind] = zero
@@ -311,7 +314,7 @@ class RootAlgebraic(Root):
             results.append(s)
 
         if to_sympy:
-            results = [self.K.to_sympy(r) for r in results]
+            results = [self.to_sympy(r) for r in results]
         if is_single_expr:
             return results[0]
         if not to_sympy:
@@ -406,7 +409,7 @@ class TernaryMixin():
     def uv(self, to_sympy = True):
         uv = self._uv
         if hasattr(self, 'K') and self.K is not None and to_sympy:
-            return (self.K.to_sympy(uv[0]), self.K.to_sympy(uv[1]))
+            return (self.to_sympy(uv[0]), self.to_sympy(uv[1]))
         return uv
 
     def ker(self):
@@ -415,7 +418,7 @@ class TernaryMixin():
         """
         ker = self._ker
         if hasattr(self, 'K') and self.K is not None:
-            return self.K.to_sympy(ker)
+            return self.to_sympy(ker)
         return ker
 
     def poly(self, x: sp.Symbol = None) -> sp.Poly:
@@ -423,8 +426,8 @@ class TernaryMixin():
         Return a polynomial whose three roots are (proportional to) a, b, c.
         """
         x = x or sp.Symbol('x')
-        poly = x**3 - x**2 + self.cyclic_sum((1,1,0)) * x - self.cyclic_sum((1,1,1)) / 3
-        return poly.as_poly(x)
+        coeffs = [1, -1, self.cyclic_sum((1,1,0)), -self.cyclic_sum((1,1,1)) / 3]
+        return sp.Poly.from_list(coeffs, x)
 
     def cyclic_sum(self, monom: Tuple[int, int, int], to_sympy = True) -> sp.Expr:
         """
@@ -515,10 +518,13 @@ class TernaryMixin():
             The standardized root. If inplace is True, return self
             after modification.
         """
-        if self.is_centered:
+        s = sum(self.root) / 3
+        if s == 0:
+            # cannot be standardized
+            root = self.root
+        elif self.is_centered:
             root = (sp.S(1), sp.S(1), sp.S(1))
         else:
-            s = sum(self.root) / 3
             root = (self.root[0] / s, self.root[1] / s, self.root[2] / s)
             if cyc:
                 if not self.is_symmetric:
@@ -536,6 +542,8 @@ class TernaryMixin():
 
         if inplace:
             self.root = root
+            if hasattr(self, 'root_anp'):
+                RootAlgebraic.__init__(self, root)
             return self
         return RootTernary(root)
 
@@ -550,6 +558,8 @@ class TernaryMixin():
             return abs(a - b) < tol
         a, b, c = self.root
         s = (a + b + c) / 3
+        if s == 0:
+            return self
         r = [a/s, b/s, c/s]
         if n(r[0], r[1]) and n(r[1], r[2]) and n(r[0], r[2]):
             return RootRationalTernary((1,1,1))
@@ -628,7 +638,7 @@ class RootAlgebraicTernary(RootAlgebraic, RootTernary):
             s = _single_power(0, monom[i%3]) * _single_power(1, monom[(i+1)%3]) * _single_power(2, monom[(i+2)%3]) + s
         s *= _single_power(-1, sum(monom))
         if self.K is not None and to_sympy:
-            s = self.K.to_sympy(s)
+            s = self.to_sympy(s)
         return s
 
 
-- 
2.43.0


From b19678823e7cd239e958474b1fcc2f4a2ea13a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:26 +0000
Subject: [PATCH 57/71] fix: kkt fails on polynomials with different generators
 and on tuple constraints

---
 triples/utils/roots/findroot.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/findroot.py b/triples/utils/roots/findroot.py
index d94fe6a..3211532 100644
--- a/triples/utils/roots/findroot.py
+++ b/triples/utils/roots/findroot.py
@@ -211,11 +211,16 @@ def kkt(
     """
     f = sp.sympify(f)
     symbs = f.gens if hasattr(f, 'gens') else tuple(sorted(f.free_symbols, key=lambda x: x.name))
-    symbs = symbs + tuple(set.union(set(), 
+    symbs = symbs + tuple(sorted(set.union(set(), 
                 *[_.free_symbols for _ in ineq_constraints],
-                *[_.free_symbols for _ in eq_constraints]) - set(symbs))
+                *[_.free_symbols for _ in eq_constraints]) - set(symbs), key=lambda x: x.name))
     symbs0 = symbs
 
+    # the polynomials might not share the same generators
+    f = f.as_expr()
+    ineq_constraints = [sp.sympify(_).as_expr() for _ in ineq_constraints]
+    eq_constraints = [sp.sympify(_).as_expr() for _ in eq_constraints]
+
     lambs = tuple(sp.Dummy('\\lambda_%d' % i) for i in range(len(ineq_constraints)))
     mus = tuple(sp.Dummy('\\mu_%d' % i) for i in range(len(eq_constraints)))
     lag = f - sum(l*ineq for l, ineq in zip(lambs, ineq_constraints)) \
-- 
2.43.0


From 83eccf6dc0f8ac7a6c1d0622e153b5f1e6d31989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:26 +0000
Subject: [PATCH 58/71] fix: global polynomial optimization drops feasible
 regions, misreads mixed constraints and mutates the box

---
 triples/utils/roots/monotonic_opt.py | 34 ++++++++++++++++++----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 889fffb..4766f39 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -192,7 +192,7 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
         x_best, cbv, k, T = None, np.inf, 0, []
     else:
         a, b = _red(f, g, h, a, b, cbv, root_solver=root_solver)
-        T = [a]
+        T = [a] if h(b) > -_rtol else []
 
     for k in range(1, 1 + max_iter):
         if not T:  # Step 2: If T is empty, terminate
@@ -216,7 +216,12 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
                 cbv = f(x_k)
                 x_best = x_k
                 a, b = _red(f, g, h, a, b, cbv, root_solver=root_solver)
-                T = [z for z in T if np.all(z >= a) and np.all(z <= b) and f(z) < cbv - tol and g(z) <= 0]
+                if h(b) <= -_rtol: # no better point remains in the reduced box
+                    T = []
+                    break
+                # each vertex z stands for [z, b], which intersects the reduced box in [max(z, a), b]
+                T = [np.maximum(z, a) for z in T if np.all(z <= b)]
+                T = [z for z in T if f(z) < cbv - tol and g(z) <= 0]
                 if verbose:
                     print(k, 'New best:', cbv, 'x =', x_best, 'L =', len(T))
                     print('New bounds:', a, b)
@@ -375,17 +380,21 @@ def poly_as_dm(poly: sp.Poly, a=None):
     f1, f2 : sympy.Poly
         Two polynomials such that poly = f1 - f2.
     """
+    def shift(poly, a):
+        # Poly.shift_list does not support univariate polynomials for some ground types
+        return poly.shift_list(a) if len(poly.gens) > 1 else poly.shift(a[0])
+
     if a is not None:
         a = [min(ai, 0) for ai in a]
-        poly = poly.shift_list(a)
+        poly = shift(poly, a)
     terms = poly.terms()
     pos = [t for t in terms if t[1] >= 0]
     neg = [t for t in terms if t[1] < 0]
     f1 = sp.Poly.from_dict(dict(pos), poly.gens, domain=poly.domain)
     f2 = -sp.Poly.from_dict(dict(neg), poly.gens, domain=poly.domain)
     if a is not None:
-        f1 = f1.shift_list([-ai for ai in a])
-        f2 = f2.shift_list([-ai for ai in a])
+        f1 = shift(f1, [-ai for ai in a])
+        f2 = shift(f2, [-ai for ai in a])
     return f1, f2
 
 
@@ -455,28 +464,26 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
     """
     gens = f.gens
     nvars = len(gens)
-    if not hasattr(a, '__iter__'):
-        a = [a] * nvars
-    if not hasattr(b, '__iter__'):
-        b = [b] * nvars
+    a = list(a) if hasattr(a, '__iter__') else [a] * nvars
+    b = list(b) if hasattr(b, '__iter__') else [b] * nvars
 
     from sympy.plotting.experimental_lambdify import vectorized_lambdify
     def wrap(gens, f):
         v = vectorized_lambdify(gens, f.as_expr())
         return lambda x: v(*x)
 
-    ineq_constraints = ineq_constraints.copy()
+    ineq_constraints = list(ineq_constraints)
     g_and_h = []
     for eq in eq_constraints:
         ineq_constraints.append(eq + eqtol)
         ineq_constraints.append(-eq + eqtol)
     for ineq in ineq_constraints:
         ineq = sp.Poly(ineq, gens)
-        if ineq.degree() <= 0:
+        if ineq.total_degree() <= 0:
             if ineq.LC() < 0:
                 return RPAResult(None, np.inf, 1, True, a, b)
             continue
-        elif ineq.degree() == 1 and len(ineq.free_symbols) == 1: # linear
+        elif ineq.total_degree() == 1 and len(ineq.free_symbols) == 1: # linear
             s = ineq.free_symbols.pop()
             ind = gens.index(s)
             lc = ineq.coeff_monomial(s)
@@ -491,6 +498,9 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
         f1, f2 = poly_as_dm(ineq, a)
         g_and_h.append((wrap(gens, f2), wrap(gens, f1))) # f2 - f1 <= 0
 
+    if any(ai > bi for ai, bi in zip(a, b)):
+        return RPAResult(None, np.inf, 1, True, a, b)
+
     f1, f2 = poly_as_dm(f, a)
     f1, f2 = wrap(gens, f1), wrap(gens, f2)
     result = rpa_gmop((f1, f2), g_and_h, a, b, tol=tol, max_iter=max_iter, cbv=cbv, root_solver=root_solver, verbose=verbose)
-- 
2.43.0


From 1f0c73ccdf9c5f75f2c36de6cd26470c0608cbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:37 +0000
Subject: [PATCH 59/71] fix: batch solving could not save to a bare file name
 or save an empty batch, and modified poly_reader_configs

---
 triples/core/sum_of_squares.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index ca73026..fbac044 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -197,8 +197,7 @@ def sum_of_squares_multiple(
         if key in ('LinearSOS', 'SDPSOS'):
             configs[key]['verbose'] = verbose_sos
 
-    if 'ignore_errors' not in poly_reader_configs:
-        poly_reader_configs['ignore_errors'] = True
+    poly_reader_configs = {'ignore_errors': True, **poly_reader_configs}
     read_polys = PolyReader(polys, **poly_reader_configs)
     read_polys_zip = zip(read_polys.polys, read_polys)
     if verbose_progress:
@@ -283,7 +282,8 @@ def _process_records(
         save_solution_method = lambda x: getattr(x, attr) if x is not None else None
 
     import pandas as pd
-    records_pd = pd.DataFrame(records, index = range(1, len(records)+1))
+    columns = None if records else ['problem', 'deg', 'method', 'solution', 'time', 'status']
+    records_pd = pd.DataFrame(records, index = range(1, len(records)+1), columns = columns)
     if save_result:
         records_save = records_pd.copy()
         records_save['solution'] = records_save['solution'].apply(save_solution_method)
@@ -306,7 +306,7 @@ def _process_records(
             filename = save_result
         else:
             raise ValueError('save_result must be a directory / csv file name / True.')
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        os.makedirs(os.path.dirname(os.path.abspath(filename)), exist_ok=True)
         records_save.to_csv(filename)
 
     return records_pd
-- 
2.43.0


From bde8084098215bbb4a6d5ae3eac412251a4377e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:38 +0000
Subject: [PATCH 60/71] fix: texts that divide by zero were parsed as
 polynomials with infinite or undefined coefficients

---
 triples/utils/text_process.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index a1fef38..42e53f4 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -2,7 +2,7 @@ from typing import Union, List, Tuple, Optional
 from functools import partial
 # import re
 
-from sympy import Expr, Poly, Rational, Float, Symbol, sympify, fraction, cancel, latex
+from sympy import Expr, Poly, Rational, Float, Symbol, S, sympify, fraction, cancel, latex
 from sympy import symbols as sp_symbols
 from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup
 
@@ -249,7 +249,12 @@ def preprocess_text(
     poly = sympify(poly)
     if return_type == 'expr':
         return poly
-    elif return_type == 'frac':
+
+    if isinstance(poly, Expr) and poly.has(S.NaN, S.ComplexInfinity, S.Infinity, S.NegativeInfinity):
+        # division by zero is not a polynomial
+        return (None, None) if return_type == 'frac' else None
+
+    if return_type == 'frac':
         try:
             frac = fraction(cancel(poly))
 
-- 
2.43.0


From 39c0f88993bd280808560cdf1d0f5fca39dd057b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 61/71] fix: Coeff of a zero polynomial was not zero and had no
 degree or symmetry

---
 triples/utils/expression/coeff.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/triples/utils/expression/coeff.py b/triples/utils/expression/coeff.py
index 058903c..1cb4ffd 100644
--- a/triples/utils/expression/coeff.py
+++ b/triples/utils/expression/coeff.py
@@ -26,7 +26,7 @@ class Coeff():
             self._nvars = len(coeffs.gens)
             poly = coeffs
             coeffs = {}
-            for monom, coeff in poly.terms():
+            for monom, coeff in poly.terms() if not poly.is_zero else []:
                 if not isinstance(coeff, sp.Rational): #isinstance(coeff, sp.Float): # and degree > 4
                     # if isinstance(coeff, sp.Float):
                     #     coeff = rationalize(coeff, reliable = True)
@@ -72,12 +72,12 @@ class Coeff():
         >>> coeff.is_cyclic()
         True
         """
+        if self.nvars <= 1:
+            return True
+
         if perm_group is None:
             perm_group = CyclicGroup(self.nvars)
 
-        if self.nvars == 1:
-            return True
-        
         perms = []
         if isinstance(perm_group, PermutationGroup):
             # checking the generators is enough
@@ -110,7 +110,7 @@ class Coeff():
         >>> coeff.is_symmetric()
         False
         """
-        if perm_group is None:
+        if perm_group is None and self.nvars > 1:
             perm_group = SymmetricGroup(self.nvars)
         return self.is_cyclic(perm_group)
 
@@ -170,7 +170,7 @@ class Coeff():
         """
         Return the total degree of the polynomial.
         """
-        return max(sum(k) for k in self.coeffs)
+        return max((sum(k) for k in self.coeffs), default=0)
 
     @property
     def is_zero(self) -> bool:
-- 
2.43.0


From e42010db114cd14185039786268550a844d29355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 62/71] fix: coefficient images glued wide entries together and
 constant polynomials had no grid values

---
 triples/utils/roots/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/grid.py b/triples/utils/roots/grid.py
index 879cf5d..54242d2 100644
--- a/triples/utils/roots/grid.py
+++ b/triples/utils/roots/grid.py
@@ -104,7 +104,7 @@ class GridPoly():
                         txt = f'{round(float(coeffs[t]),4)}'
                     else:
                         txt = f'{coeffs[t].p}' + (f'/{coeffs[t].q}' if coeffs[t].q != 1 else '')
-                        if len(txt) > distance:
+                        if len(txt) >= distance: # keep a space between the entries
                             txt = f'{round(float(coeffs[t]),4)}'
                     t += 1
                 else:
@@ -262,7 +262,7 @@ class GridRender():
         elif value_method == 'integer_lambdify':
             f = sp.lambdify(poly.gens, poly.as_expr())
             grid_coor_np = np.array(grid_coor) / cls.degree_limit # normalize
-            grid_value = f(*grid_coor_np.T)
+            grid_value = np.broadcast_to(f(*grid_coor_np.T), len(grid_coor)) # constants are scalars
 
         return grid_value
 
-- 
2.43.0


From 96e00804b34774f12507f244110dfcc1b2b65b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:14 +0000
Subject: [PATCH 63/71] fix: set_poly returned malformed polynomials after
 dehomogenizing and infinite degrees for zero; zero floats in triangles

---
 triples/gui/sos_manager.py    | 5 ++---
 triples/utils/text_process.py | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 835367e..4ec2462 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -120,9 +120,8 @@ class SOS_Manager():
                 if len(dehomogenize.free_symbols) == 0: # dehomogenize is a number
                     for i in range(len(poly.gens)-1, -1, -1):
                         if poly.degree(i) != 0:
-                            poly = poly.eval(poly.gens[i], dehomogenize)
-                            poly = poly.as_poly(*gens, domain=poly.domain)
-                            n = poly.total_degree()
+                            poly = Poly(poly.eval(poly.gens[i], dehomogenize), *gens, extension=True)
+                            n = max(poly.total_degree(), 0)
                             if not standardize_text:
                                 standardize_text = 'sort'
                             break
diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 42e53f4..5e1e3a8 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -386,6 +386,7 @@ def degree_of_zero(
     #     degree = deg(Poly(poly))
         poly = fraction(sympify(poly))
         degree = deg(Poly(poly[0], *gens)) - deg(Poly(poly[1], *gens))
+        degree = max(degree, 0) # deg of zero is -oo
     except:
         degree = 0
         
@@ -431,7 +432,7 @@ def coefficient_triangle(poly: Poly, degree: int = None) -> str:
         if not poly.is_zero:
             from .monomials import arraylize_sp
             vec = arraylize_sp(poly)
-            return [short_constant_parser(_) for _ in vec]
+            return ['0' if _.is_zero else short_constant_parser(_) for _ in vec]
         else:
             return ['0'] * ((degree+1)*(degree+2)*(degree+3)//6)
     else:
-- 
2.43.0


From f2ef23278922ddfd60995802cadee8d0573629dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 64/71] fix: LinearSOS raised on user tangents in symbols
 outside a dehomogenized polynomial

---
 triples/core/linsos/linsos.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index ccff247..194f9ff 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -377,10 +377,10 @@ def _LinearSOS(
     if _homogenizer is not None: 
         # homogenize the tangents
         tangents = homogenize_expr_list(tangents, _homogenizer)
-    else:
-        # homogeneous polynomial does not accept non-homogeneous tangents
-        tagents_poly = [t.as_poly(poly.gens) for t in tangents]
-        tangents = [t for t, p in zip(tangents, tagents_poly) if len(p.free_symbols_in_domain)==0 and p.is_homogeneous]
+
+    # homogeneous polynomial does not accept non-homogeneous tangents or tangents in other symbols
+    tagents_poly = [t.as_poly(poly.gens) for t in tangents]
+    tangents = [t for t, p in zip(tangents, tagents_poly) if len(p.free_symbols_in_domain)==0 and p.is_homogeneous]
 
     if rootsinfo is None:
         rootsinfo = findroot(poly, with_tangents = root_tangents)
-- 
2.43.0


From 7be978f952fa574ad53528a0a625974bc828542c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 65/71] fix: SOS_Manager raised on unsolved, constant and
 many-variable polynomials and modified the caller's configs

---
 triples/gui/sos_manager.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 4ec2462..d72fe48 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -12,7 +12,7 @@ from ..utils import (
 )
 from ..utils.text_process import preprocess_text, degree_of_zero, coefficient_triangle
 from ..utils.roots import RootsInfo, GridRender, findroot
-from ..core.sum_of_squares import sum_of_squares, DEFAULT_CONFIGS
+from ..core.sum_of_squares import sum_of_squares, DEFAULT_CONFIGS, METHOD_ORDER
 from ..core.linsos import root_tangents
 
 
@@ -26,7 +26,7 @@ def _default_polynomial_check(poly: Poly, method_order: List[str]) -> List[str]:
     nvars = len(poly.gens) + (1 - is_hom)
     degree = poly.total_degree()
     upper_bounds = [30, 30, 30, 12, 11, 8, 6, 4, 4, 4, 4]
-    if degree > upper_bounds[nvars]:
+    if degree > upper_bounds[min(nvars, len(upper_bounds) - 1)]:
         # remove LinearSOS and SDPSOS
         method_order = [method for method in method_order if method not in ('LinearSOS', 'SDPSOS')]
     return method_order
@@ -229,13 +229,15 @@ class SOS_Manager():
             if any(_ == 0 for _ in degree_of_each_gen):
                 # remove the gen
                 nonzero_gens = [gen for gen, d in zip(poly.gens, degree_of_each_gen) if d > 0]
-                poly = poly.as_poly(*nonzero_gens)
+                if len(nonzero_gens) > 0: # not constant
+                    poly = poly.as_poly(*nonzero_gens)
 
         if cls.verbose is False:
+            configs = dict(configs)
             for method in ('LinearSOS', 'SDPSOS'):
-                if configs.get(method) is None:
-                    configs[method] = {}
-                configs[method]['verbose'] = False
+                configs[method] = {**(configs.get(method) or {}), 'verbose': False}
+        if method_order is None:
+            method_order = METHOD_ORDER
         method_order = cls.CONFIG_METHOD_CHECK(poly, method_order)
 
         solution = sum_of_squares(
@@ -245,7 +247,7 @@ class SOS_Manager():
             method_order = method_order,
             configs = configs
         )
-        if cls.CONFIG_STANDARDIZE_CYCLICEXPR:
+        if solution is not None and cls.CONFIG_STANDARDIZE_CYCLICEXPR:
             solution = solution.rewrite_symmetry(gens, perm)
         return solution
 
-- 
2.43.0


From 697b7608057e7dcabb077b6e56694cc8c700efe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:06 +0000
Subject: [PATCH 66/71] fix: web proof requests without roots, with invalid
 polynomials or failing renderings were never answered; null sessions
 broadcast

---
 web_main.py | 112 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 74 insertions(+), 38 deletions(-)

diff --git a/web_main.py b/web_main.py
index 8c91930..44217e2 100644
--- a/web_main.py
+++ b/web_main.py
@@ -6,11 +6,13 @@ from flask import Flask, render_template, request, jsonify
 from flask_socketio import SocketIO, join_room, leave_room
 from flask_cors import CORS
 
+from werkzeug.exceptions import BadRequest
+
 import sympy as sp
+from sympy.combinatorics import CyclicGroup
 
 from triples.utils.roots import RootTangent, RootsInfo
 from triples.utils.text_process import pl
-from triples.utils.expression.solution import SolutionSimple
 from triples.gui.sos_manager import SOS_Manager
 
 # def _async_raise(tid, exctype):
@@ -131,25 +133,41 @@ def preprocess():
     """
     req = request.get_json()
 
-    gens = req.get('gens', 'abc')
-    gens = tuple(sp.Symbol(_) for _ in gens)
-    perm = SOS_Manager._parse_perm_group(req.get('perm'))
-    req['gens'] = gens
-    req['perm'] = perm
-
-    result = SOS_Manager.set_poly(
-        req['poly'],
-        gens = gens,
-        perm = perm,
-        render_triangle = True if 3 <= len(gens) <= 4 else False,
-        render_grid = True,
-        homogenize = req.get('homogenize', False),
-        dehomogenize = req.get('dehomogenize', None),
-        standardize_text = req.get('standardize_text', None),
-        omit_mul = req.get('omit_mul', True),
-        omit_pow = req.get('omit_pow', True),
-    )
+    sid = req.pop('sid')
+    if not isinstance(sid, str):
+        # emitting to None would broadcast the results to every session
+        raise BadRequest('The session ID should be a string.')
+    if not isinstance(req.get('actions'), list):
+        req['actions'] = []
+
+    try:
+        gens = req.get('gens', 'abc')
+        gens = tuple(sp.Symbol(_) for _ in gens)
+        perm = SOS_Manager._parse_perm_group(req.get('perm'))
+        if perm is None:
+            perm = CyclicGroup(len(gens))
+        req['gens'] = gens
+        req['perm'] = perm
+
+        result = SOS_Manager.set_poly(
+            req['poly'],
+            gens = gens,
+            perm = perm,
+            render_triangle = True if 3 <= len(gens) <= 4 else False,
+            render_grid = True,
+            homogenize = req.get('homogenize', False),
+            dehomogenize = req.get('dehomogenize', None),
+            standardize_text = req.get('standardize_text', None),
+            omit_mul = req.get('omit_mul', True),
+            omit_pow = req.get('omit_pow', True),
+        )
+    except Exception:
+        result = None
+
     if result is None:
+        if 'sos' in req['actions']:
+            # the client is waiting for an answer
+            emit_failure(sid, req.get('timestamp', 0))
         return jsonify()
 
     n = result['degree']
@@ -158,9 +176,8 @@ def preprocess():
     grid = result.get('grid', None)
     grid_color = grid.grid_color if grid is not None else None
  
-    sid = req.pop('sid')
     req.update(result)
-    socketio.start_background_task(findroot, sid, **req)
+    socketio.start_background_task(lambda: findroot(sid, **req))
     # thread = ThreadWithExc(target=findroot, args=(sid,), kwargs=req)
     # thread.daemon = True
     # thread.start()
@@ -194,6 +211,19 @@ def findroot(sid, **kwargs):
     tangents : list[str]
         The tangents to the roots.    
     """
+    rootsinfo = None
+    try:
+        rootsinfo = _findroot(sid, kwargs)
+    except Exception:
+        # the roots are only hints, do not prevent the sum of squares
+        pass
+    if 'sos' in kwargs['actions']:
+        kwargs['rootsinfo'] = rootsinfo
+        sum_of_squares(sid, **kwargs)
+
+
+def _findroot(sid, kwargs):
+    rootsinfo = None
     if 'findroot' in kwargs['actions']:
         poly = kwargs['poly']
         grid = kwargs.get('grid', None)
@@ -230,9 +260,19 @@ def findroot(sid, **kwargs):
                     except:
                         pass
             rootsinfo.tangents = tangents
-    if 'sos' in kwargs['actions']:
-        kwargs['rootsinfo'] = rootsinfo
-        sum_of_squares(sid, **kwargs)
+    return rootsinfo
+
+
+def emit_failure(sid, timestamp = 0):
+    """
+    Inform the client that the proof request has failed.
+    """
+    return socketio.emit(
+        'sos',
+        {'latex': '', 'txt': '', 'formatted': '', 'success': False,
+            'timestamp': timestamp},
+        to=sid
+    )
 
 
 def sum_of_squares(sid, **kwargs):
@@ -268,10 +308,11 @@ def sum_of_squares(sid, **kwargs):
     try:
         method_order = [key for key, value in kwargs['methods'].items() if value]
 
+        configs = kwargs.get('configs') or {}
         if 'LinearSOS' in method_order:
-            if 'LinearSOS' not in kwargs['configs']:
-                kwargs['configs']['LinearSOS'] = {}
-            kwargs['configs']['LinearSOS']['rootsinfo'] = rootsinfo
+            if not configs.get('LinearSOS'):
+                configs['LinearSOS'] = {}
+            configs['LinearSOS']['rootsinfo'] = rootsinfo
 
         gens = kwargs['gens']
         ineq_constraints = kwargs['poly'].free_symbols if SOS_Manager.CONFIG_ALLOW_NONSTANDARD_GENS else gens
@@ -282,27 +323,22 @@ def sum_of_squares(sid, **kwargs):
             gens = gens,
             perm = kwargs['perm'],
             method_order = method_order,
-            configs = kwargs['configs']
+            configs = configs
         )
 
         assert solution is not None, 'No solution found.'
-    except Exception as e:
-        # raise e
-        return socketio.emit(
-            'sos',
-            {'latex': '', 'txt': '', 'formatted': '', 'success': False,
-                'timestamp': kwargs.get('timestamp', 0)},
-            to=sid
-        )
 
-    if isinstance(solution, SolutionSimple):
         # # remove the aligned environment
         # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
         latex_ = solution.str_latex#.replace('aligned', 'align*')
+        txt, formatted = solution.str_txt, solution.str_formatted
+    except Exception as e:
+        # raise e
+        return emit_failure(sid, kwargs.get('timestamp', 0))
 
     return socketio.emit(
         'sos',
-        {'latex': latex_, 'txt': solution.str_txt, 'formatted': solution.str_formatted, 'success': True,
+        {'latex': latex_, 'txt': txt, 'formatted': formatted, 'success': True,
             'timestamp': kwargs.get('timestamp', 0)},
         to=sid
     )
-- 
2.43.0


From 6e5d75a3256eba2867aa6ffb8c96e135f6d3594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:09 +0000
Subject: [PATCH 67/71] fix: texts could execute arbitrary code through string
 literals, attribute access and dehomogenize

---
 triples/gui/sos_manager.py    |  5 +++++
 triples/utils/text_process.py | 19 +++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index d72fe48..09deafd 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -116,6 +116,11 @@ class SOS_Manager():
 
         if dehomogenize is not None and dehomogenize is not False:
             try:
+                if isinstance(dehomogenize, str):
+                    # do not sympify untrusted texts
+                    dehomogenize = preprocess_text(dehomogenize, gens=gens, perm=perm, return_type='expr')
+                elif not isinstance(dehomogenize, (int, float, Expr)):
+                    raise TypeError('The value of dehomogenize should be a number.')
                 dehomogenize = sp.S(dehomogenize)
                 if len(dehomogenize.free_symbols) == 0: # dehomogenize is a number
                     for i in range(len(poly.gens)-1, -1, -1):
diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 5e1e3a8..ae7ef99 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -1,8 +1,8 @@
 from typing import Union, List, Tuple, Optional
 from functools import partial
-# import re
+import re
 
-from sympy import Expr, Poly, Rational, Float, Symbol, S, sympify, fraction, cancel, latex
+from sympy import Expr, Poly, Rational, Float, Symbol, S, SympifyError, sympify, fraction, cancel, latex
 from sympy import symbols as sp_symbols
 from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup
 
@@ -186,6 +186,17 @@ def _preprocess_text_completion(
     return poly
 
 
+def _check_text_safety(poly: str, scientific_notation: bool = False) -> str:
+    """
+    Reject texts that are not arithmetic expressions. The text is evaluated by sympify, so string
+    literals (they could be parsed again), brackets and attribute access must not be passed to it.
+    """
+    number = r'(?<![\w.])(?:[0-9]+\.[0-9]*|\.[0-9]+)%s(?![\w.])' % (r'(?:e[+-]?[0-9]+)?' if scientific_notation else '')
+    if re.search(r'[\'"\[\].]', re.sub(number, '0', poly)):
+        raise SympifyError(poly)
+    return poly
+
+
 def preprocess_text(
         poly: str,
         gens: Tuple[Symbol] = sp_symbols("a b c"),
@@ -246,7 +257,7 @@ def preprocess_text(
     if return_type == 'text':
         return poly
 
-    poly = sympify(poly)
+    poly = sympify(_check_text_safety(poly, scientific_notation))
     if return_type == 'expr':
         return poly
 
@@ -384,7 +395,7 @@ def degree_of_zero(
         
     try:
     #     degree = deg(Poly(poly))
-        poly = fraction(sympify(poly))
+        poly = fraction(sympify(_check_text_safety(poly, scientific_notation)))
         degree = deg(Poly(poly[0], *gens)) - deg(Poly(poly[1], *gens))
         degree = max(degree, 0) # deg of zero is -oo
     except:
-- 
2.43.0


From 51ea02bcdb8760ea5cd43c76d09bc6b4ac808bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 68/71] fix: cross_exprs mixed up the expressions when a
 constant was among them

---
 triples/core/linsos/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/linsos/basis.py b/triples/core/linsos/basis.py
index a5dd767..463b3fe 100644
--- a/triples/core/linsos/basis.py
+++ b/triples/core/linsos/basis.py
@@ -299,9 +299,9 @@ def cross_exprs(exprs: List[sp.Expr], symbols: Tuple[sp.Symbol, ...], degree: in
     poly_degrees = [_.total_degree() for _ in polys]
 
     # remove zero-degree polynomials
-    polys = [p for p, d in zip(polys, poly_degrees) if d > 0]
+    exprs = [e for e, d in zip(exprs, poly_degrees) if d > 0]
     poly_degrees = [d for d in poly_degrees if d > 0]
-    if len(polys) == 0:
+    if len(exprs) == 0:
         return []
 
     # find all a1*d1 + a2*d2 + ... + an*dn <= degree
-- 
2.43.0


From 245b12c1a104c12c10298908d60c9ca471e1282d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:51 +0000
Subject: [PATCH 69/71] fix: zero diagonals of primal problems were inferred
 from equations with only upper off-diagonal entries

---
 triples/sdp/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index f87184c..4dbd965 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -894,7 +894,7 @@ class PrimalTransformMixin(SDPTransformMixin):
                         for j in range(i):
                             if j in zeros:
                                 continue
-                            if space[eq, i*m+j] != 0: # nonzero off-diagonal constraint
+                            if space[eq, i*m+j] + space[eq, j*m+i] != 0: # nonzero off-diagonal constraint
                                 eq_fail = True
                                 break
                         if eq_fail:
-- 
2.43.0


From 17a4e445377199b35f6cac27dbb96dd54513bd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:29 +0000
Subject: [PATCH 70/71] fix: primal problems with non-symmetric data were
 reported solved with non-symmetric matrices; constrain_symmetry modified the
 caller's matrices

---
 triples/sdp/primal.py    | 11 +++++++++++
 triples/sdp/transform.py |  4 +++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 717cd50..21f4704 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -146,6 +146,17 @@ class SDPPrimal(PrimalTransformMixin):
         if isinstance(y, ndarray):
             y = Matrix(y.flatten())
         A = self.full_space
+        if y.shape == (self.dof, 1):
+            # the matrices are symmetric, so only the symmetric parts of A and y matter
+            transpose, offset = [], 0
+            for m in self.size.values():
+                transpose.extend(offset + j*m + i for i in range(m) for j in range(m))
+                offset += m**2
+            AT, yT = A.extract(list(range(A.rows)), transpose), y.extract(transpose, [0])
+            if AT != A:
+                A = (A + AT) / 2
+            if yT != y:
+                y = (y + yT) / 2
         r = self._x0 - A * y
         if all(i == 0 for i in r):
             return y
diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 4dbd965..7a05d9a 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -863,8 +863,9 @@ class PrimalTransformMixin(SDPTransformMixin):
         return transform.child_node
 
     def constrain_symmetry(self) -> SDPProblemBase:
+        spaces = {}
         for key, m in self.size.items():
-            space = self._space[key]
+            space = spaces[key] = self._space[key].copy()
             n = space.shape[0]
             for i in range(m):
                 for j in range(i):
@@ -874,6 +875,7 @@ class PrimalTransformMixin(SDPTransformMixin):
                             mid = (space[row, k1] + space[row, k2]) / 2
                             space[row, k1] = mid
                             space[row, k2] = mid
+        self._space = spaces
         return self
     
     def _get_zero_diagonals(self) -> Dict[str, List[int]]:
-- 
2.43.0


From 11a6a38b02fda031311c84c91a9c7ae3be2050f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:37 +0000
Subject: [PATCH 71/71] fix: linear programming returned 0 for problems with
 opposite inequality constraints (multiplier p + (-p))

---
 triples/core/linsos/linsos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index 194f9ff..4c54b01 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -452,8 +452,8 @@ def _LinearSOS(
                 num_multipliers = len(lift_degree_info['basis']),
                 symmetry = symmetry
             )
-            if is_equal and len(eq_constraints) and _is_zero_divisor(_sum_multipliers(poly, y, basis, symmetry), eq_constraints):
-                # the multiplier vanishes where the equality constraints hold, so nothing is proved
+            if is_equal and _is_zero_divisor(_sum_multipliers(poly, y, basis, symmetry), eq_constraints):
+                # the multiplier vanishes (where the equality constraints hold), so nothing is proved
                 continue
             if is_equal or allow_numer > 0:
                 basis = _odd_basis_to_even(basis, poly.gens, ineq_constraints)
-- 
2.43.0

