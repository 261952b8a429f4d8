From b2e97bcb16b1fd8ec647fdb3189b5be14aac9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 01/53] fix: read grades, scalar part and coefficients of a
 base-representation multivector through its blade representation

---
 galgebra/ga.py |  2 +-
 galgebra/mv.py | 25 +++++++++++++++----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 0f3ad92..b0c0b00 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1650,7 +1650,7 @@ class Ga(metric.Metric):
         dictionary entries are sympy expressions.
         """
         if isinstance(A, mv.Mv):
-            A.blade_rep()
+            A = A.blade_rep()
             A.characterise_Mv()
             Aobj = expand(A.obj)
         else:
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 544d8d5..5628548 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -466,7 +466,8 @@ class Mv(printer.GaPrintable):
 
         b = copy.copy(self)
         b.obj = self.Ga.base_to_blade_rep(self.obj)
-        b.is_blade_rep = True
+        b.char_Mv = False  # the grades were not known in the base representation
+        b.characterise_Mv()
         return b
 
     def __hash__(self) -> int:
@@ -950,6 +951,9 @@ class Mv(printer.GaPrintable):
         """
         if self.blade_flg is not None:
             return self.blade_flg
+        if not self.is_blade_rep:
+            self.blade_flg = self.blade_rep().is_blade()
+            return self.blade_flg
         self.characterise_Mv()
         # Not grade-homogeneous → not a blade
         if self.i_grade is None:
@@ -973,7 +977,7 @@ class Mv(printer.GaPrintable):
         return self.blade_flg
 
     def is_base(self) -> bool:
-        coefs, _bases = metric.linear_expand(self.obj)
+        coefs, _bases = metric.linear_expand(self.blade_rep().obj)
         return coefs == [S.One]
 
     def is_versor(self) -> bool:
@@ -1030,14 +1034,14 @@ class Mv(printer.GaPrintable):
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-        return self.Ga.scalar_part(self.obj)
+        return self.Ga.scalar_part(self.blade_rep().obj)
 
     def get_grade(self, r: int) -> 'Mv':
         """ return r-th grade of multivector as a multivector """
-        return Mv(self.Ga.get_grade(self.obj, r), ga=self.Ga)
+        return Mv(self.Ga.get_grade(self.blade_rep().obj, r), ga=self.Ga)
 
     def components(self) -> List['Mv']:
-        cb = metric.linear_expand_terms(self.obj)
+        cb = metric.linear_expand_terms(self.blade_rep().obj)
         cb = sorted(cb, key=lambda x: self.Ga.blades.flat.index(x[1]))
         return [self.Ga.mv(coef * base) for coef, base in cb]
 
@@ -1053,7 +1057,7 @@ class Mv(printer.GaPrintable):
         """
         blade_lst = self.Ga.blades[grade]
         coef_lst = [S.Zero] * len(blade_lst)
-        for coef, blade in metric.linear_expand_terms(self.obj):
+        for coef, blade in metric.linear_expand_terms(self.blade_rep().obj):
             if coef == S.Zero:
                 continue  # TODO: why does expansion return this?
             try:
@@ -1080,7 +1084,7 @@ class Mv(printer.GaPrintable):
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
         blade_lst = [x.obj for x in blade_lst]
-        coefs, bases = metric.linear_expand(self.obj)
+        coefs, bases = metric.linear_expand(self.blade_rep().obj)
         coef_lst = []
         for blade in blade_lst:
             if blade in bases:
@@ -1096,7 +1100,7 @@ class Mv(printer.GaPrintable):
         """
         bases_lst = [x.obj for x in bases_lst]
         obj = 0
-        for coef, base in metric.linear_expand_terms(self.obj):
+        for coef, base in metric.linear_expand_terms(self.blade_rep().obj):
             if base in bases_lst:
                 obj += coef * base
         return Mv(obj, ga=self.Ga)
@@ -1126,11 +1130,11 @@ class Mv(printer.GaPrintable):
 
     def even(self) -> 'Mv':
         """ return even parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, True), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, True), ga=self.Ga)
 
     def odd(self) -> 'Mv':
         """ return odd parts of multivector """
-        return Mv(self.Ga.even_odd(self.obj, False), ga=self.Ga)
+        return Mv(self.Ga.even_odd(self.blade_rep().obj, False), ga=self.Ga)
 
     # ## GSG code starts ###
     def g_invol(self) -> 'Mv':
@@ -1535,6 +1539,7 @@ class Mv(printer.GaPrintable):
         For pure grade return grade.  If not pure grade return negative
         of maximum grade
         """
+        self = self.blade_rep()
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-- 
2.43.0


From a1c0523c4a1f9a3a8243d8a6a904000ceb69a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 02/53] fix: pure_grade returns the negative of the maximum
 grade whatever the order of terms

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 5628548..d16e411 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1543,7 +1543,7 @@ class Mv(printer.GaPrintable):
         self.characterise_Mv()
         if self.i_grade is not None:
             return self.i_grade
-        return -self.grades[-1]
+        return -max(self.grades)
 
     def _eval_derivative_n_times(self, x, n) -> 'Mv':
         for i in range(n):
-- 
2.43.0


From 55c30bd7c2fce8e23d64f97f3689576a7d834f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 03/53] fix: is_zero recognises an unexpanded zero

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index d16e411..968ee6a 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1030,7 +1030,7 @@ class Mv(printer.GaPrintable):
     '''
 
     def is_zero(self) -> bool:
-        return self.obj == 0
+        return expand(self.obj) == 0
 
     def scalar(self) -> Expr:
         """ return scalar part of multivector as sympy expression """
-- 
2.43.0


From 0e7d5cd47272f6133a4b7b18ed8e95d620d223b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 04/53] fix: set_coef forgets the cached grade, blade and
 versor verdicts and honours the representation

---
 galgebra/mv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 968ee6a..208c96a 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1274,7 +1274,7 @@ class Mv(printer.GaPrintable):
             raise ValueError('"' + str(self) + '**2" is not a scalar in exp.')
 
     def set_coef(self, igrade: int, ibase: int, value: Expr) -> None:
-        if self.blade_rep:
+        if self.is_blade_rep:
             base = self.Ga.blades[igrade][ibase]
         else:
             base = self.Ga.bases[igrade][ibase]
@@ -1284,6 +1284,11 @@ class Mv(printer.GaPrintable):
             self.obj += (value - coefs[bases_lst.index(base)]) * base
         else:
             self.obj += value * base
+        # what was remembered about the old value no longer holds
+        self.char_Mv = False
+        self.blade_flg = None
+        self.versor_flg = None
+        self.characterise_Mv()
 
     def Fmt(self, fmt: int = 1, title: str = None) -> printer.GaPrintable:
         """
-- 
2.43.0


From 67cd09832da00a321d68139f7f18cceae328681f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 05/53] fix: shirokov_inverse stays exact on exact input

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 208c96a..34a53b1 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1438,7 +1438,7 @@ class Mv(printer.GaPrintable):
         N = 2**exponent
         Uk = self
         for k in range(1, N):
-            Ck = (N / k) * Uk.scalar()
+            Ck = (S(N) / k) * Uk.scalar()
             adjU = Ck - Uk
             Uk = -self * adjU
         if Uk.scalar() == 0:
-- 
2.43.0


From 5261c4fd9d4c62350646619c7e64638d71e07eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 06/53] fix: shirokov_inverse and is_versor work in a
 zero-dimensional algebra

---
 galgebra/mv.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 34a53b1..e353384 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1008,6 +1008,11 @@ class Mv(printer.GaPrintable):
             self.versor_flg = False
             return self.versor_flg
 
+        # There are no vectors to test condition 2 with when n == 0
+        if self.Ga.n == 0:
+            self.versor_flg = True
+            return self.versor_flg
+
         # Test condition 2: V.g_invol()*x*V.rev() must be a vector
         # where x is a generic vector
         # and self.Ga._XOX is a generic vector in self's geometric algebra
@@ -1434,7 +1439,7 @@ class Mv(printer.GaPrintable):
         Theorem 4 (page 17) in https://arxiv.org/abs/2005.04015
         """
         n = self.Ga.n
-        exponent = (n + 1) // 2
+        exponent = max((n + 1) // 2, 1)  # the iteration needs N >= 2, also when n == 0
         N = 2**exponent
         Uk = self
         for k in range(1, N):
-- 
2.43.0


From a9530216d39346690202313b507107b1a990517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:06 +0000
Subject: [PATCH 07/53] fix: Ga.pDiff accepts expressions, unexpanded and
 base-representation multivectors and non-coordinate symbols in curvilinear
 coordinates

---
 galgebra/ga.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index b0c0b00..e7a4857 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2040,10 +2040,15 @@ class Ga(metric.Metric):
         # Simple partial differentiation, once with respect to a single
         # variable, but including case of non-constant basis vectors
 
-        dA = self.mv(expand(diff(A if isinstance(A, Expr) else A.obj, coord)))
+        if isinstance(A, Expr):
+            A = self.mv(A)
+        A = A.blade_rep()
 
-        if self.connect_flg and self.dslot == -1 and not A.is_scalar():  # Basis blades are function of coordinates
-            B = self.remove_scalar_part(A)
+        dA = self.mv(expand(diff(A.obj, coord)))
+
+        # Basis blades are function of coordinates
+        if self.connect_flg and self.dslot == -1 and coord in self.coords and not A.is_scalar():
+            B = self.remove_scalar_part(expand(A.obj))
             if B != S.Zero:
                 if isinstance(B, Add):
                     args = B.args
-- 
2.43.0


From a86c86870c399abe3fd12c3b5e38f28f178dea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 08/53] fix: an algebra copies the metric matrix it is given
 and accepts immutable matrices

---
 galgebra/metric.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index aa26f91..ce6096e 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -8,7 +8,7 @@ from typing import List, Optional
 
 from sympy import (
     diff, trigsimp, Matrix, Rational,
-    sqf_list, sqrt, eye, S, expand, Mul,
+    sqf_list, sqrt, eye, S, expand, Mul, MatrixBase,
     Add, simplify, Expr, Abs, Function, MatrixSymbol
 )
 
@@ -787,8 +787,8 @@ class Metric(object):
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
             else:  # metric is given as list of function or list of lists of function or matrix of functions
-                if isinstance(g, Matrix):
-                    self.g = g
+                if isinstance(g, MatrixBase):
+                    self.g = Matrix(g)  # copy, normalizing the basis must not modify the argument
                 else:
                     if len(g) > 0 and isinstance(g[0], list):
                         self.g = Matrix(g)
-- 
2.43.0


From 2aab8be6a7e9c888bcb2adafb615416b01e1fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 09/53] fix: a submanifold given by a vector-valued embedding
 gets the metric of its tangent vectors

---
 galgebra/ga.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index e7a4857..976aaeb 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2291,13 +2291,11 @@ class Sm(Ga):
 
             # print 'sm ebasis =', self.ebasis
 
-            self.g = []
-            for b1 in self.ebasis:
-                # Metric tensor from dot products of basis vectors
-                tmp = []
-                for b2 in self.ebasis:
-                    tmp.append(b1 | b2)
-                self.g.append(tmp)
+            # Metric tensor from dot products of basis vectors
+            g = [
+                [trigsimp((b1 | b2).scalar()) for b2 in self.ebasis]
+                for b1 in self.ebasis
+            ]
 
         else:
 
-- 
2.43.0


From 0c49a8d777c6e74c90c10491b9d060a696d96170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 10/53] fix: the base metric of a submanifold is evaluated at
 the mapped point when coordinate names are shared

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 976aaeb..5a1f44e 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -2321,7 +2321,7 @@ class Sm(Ga):
                     s = S.Zero
                     for k in ga.n_range:
                         for l in ga.n_range:
-                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs)
+                            s += dxdu[k][i] * dxdu[l][j] * g_base[k, l].subs(sub_pairs, simultaneous=True)
                     g[i, j] = trigsimp(s)
 
         Ga.__init__(self, root, g=g, coords=coords, norm=norm, debug=debug)
-- 
2.43.0


From 25f494e3b1a352cdd6805f5c8cb8a88f4eb24a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 11/53] fix: Lt from a dictionary accepts multivector keys and
 images and maps missing basis vectors to zero

---
 galgebra/lt.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index c528e1c..a203b6d 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -151,6 +151,8 @@ def Dictionary_to_Matrix(dict_rep, ga):
             dict_value = dict_value.obj
         if dict_value is not S.Zero:
             for coef, base in metric.linear_expand_terms(dict_value):
+                if coef == S.Zero:
+                    continue  # an unexpanded zero expands to 0*1
                 row_index = ga.basis.index(base)
                 column[row_index] = coef
         columns.append(column)
@@ -306,8 +308,14 @@ class Lt(printer.GaPrintable):
         self.Vqform = None
 
         if isinstance(mat_rep, dict):         # Dictionary input
-            for key in mat_rep:
-                self.lt_dict[key] = mat_rep[key]
+            # basis vectors which are not keys have a zero image
+            self.lt_dict = {base: S.Zero for base in self.Ga.basis}
+            for key, image in mat_rep.items():
+                if isinstance(key, mv.Mv):
+                    key = key.obj
+                if isinstance(image, mv.Mv):
+                    image = image.blade_rep().obj
+                self.lt_dict[key] = S(image)
 
         elif isinstance(mat_rep, list):       # List input
             if not isinstance(mat_rep[0], list):
-- 
2.43.0


From 4ad08ba695cc934e35e4fb17fc052bcb6020ec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 12/53] fix: Lt from a versor keeps an ordinary dictionary, so
 it can be added, and rejects non-versors

---
 galgebra/lt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index a203b6d..3d9f798 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -343,13 +343,13 @@ class Lt(printer.GaPrintable):
         # outermorphism on a multivector is by dictionary lookup, not by a
         # sandwich product of the multivector with the versor.
         elif isinstance(mat_rep, mv.Mv):     # Versor input
-            if not mat_rep.is_versor:
+            if not mat_rep.is_versor():
                 raise ValueError(mat_rep, 'is not a versor in Versor input for Lt!\n')
             V = mat_rep
             Vg_invol = V.g_invol()
             Vinv = V.inv()
             outermorphism = ga.lt(lambda x: Vg_invol * x * Vinv)
-            self.lt_dict = simplify(outermorphism.lt_dict)
+            self.lt_dict = dict(simplify(outermorphism.lt_dict))
         # ## GSG code ends ###
 
         # ## GSG code starts ###
-- 
2.43.0


From 137e9724abcc00d9212effcb64af5920acc2c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 13/53] fix: Lt.tr does not differentiate coordinate-dependent
 coefficients

---
 galgebra/lt.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 3d9f798..f459519 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -516,12 +516,12 @@ class Lt(printer.GaPrintable):
         :math:`L`, defined by :math:`{{\operatorname{tr}}\lp {L} \rp }=\nabla_{a}\cdot{{L}\lp {a} \rp }`
         where :math:`a` is a vector in the tangent space.
         """
-        connect_flg = self.Ga.connect_flg
-        self.Ga.connect_flg = False
-        F_x = mv.Mv(self(self.Ga.coord_vec, obj=True), ga=self.Ga)
-        tr_F = (self.Ga.grad | F_x).scalar()
-        self.Ga.connect_flg = connect_flg
-        return tr_F
+        # `L` is linear in `a`, so its derivative in the direction of each
+        # basis vector is the image of that vector
+        if self.Ga.is_ortho or self.Ga.e_sq == S.Zero:
+            return self.matrix().trace()
+        return sum((er_i | self(e_i) for e_i, er_i in zip(self.Ga.basis, self.Ga.mvr())),
+                   self.Ga.mv(S.Zero)).scalar()
 
     r'''
     def adj(self) -> 'Lt':
-- 
2.43.0


From d17957e4b20fb322848bbc095f674afa1dc63335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 14/53] fix: Lt applied to a base-representation multivector

---
 galgebra/lt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index f459519..2368741 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -428,6 +428,7 @@ class Lt(printer.GaPrintable):
         # ## GSG code ends ###
 
         if isinstance(M, mv.Mv):
+            M = M.blade_rep()
             if M.is_vector():
                 lt_M = M.obj.xreplace(self.lt_dict)
                 if obj:
-- 
2.43.0


From 7496e37f8f24884d9c320e12a0691cdab2762092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 15/53] fix: Mlt built from a name does not depend on the slots
 other Mlts have used

---
 galgebra/lt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 2368741..9fa88bf 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -837,7 +837,7 @@ class Mlt(printer.GaPrintable):
             Mlt.increment_slots(nargs, Ga)
             self.fvalue = S.Zero
             for t_index, a_prod in zip(itertools.product(self.Ga.basis_super_scripts, repeat=self.nargs),
-                                       itertools.product(*self.Ga._mlt_pdiffs)):
+                                       itertools.product(*self.Ga._mlt_pdiffs[:self.nargs])):
                 name = '{}_{}'.format(f, ''.join(map(str, t_index)))
                 if fct:  # Tensor field
                     coef = Function(name, real=True)(*self.Ga.coords)
-- 
2.43.0


From 964d8ec627cf50c29b9ac537a4d3eb0b5f20bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:35 +0000
Subject: [PATCH 16/53] fix: Mlt evaluation in a non-orthogonal basis

---
 galgebra/lt.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 9fa88bf..70311ff 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -872,8 +872,7 @@ class Mlt(printer.GaPrintable):
         else:
             sub_lst = []
             for x, ai in zip(args, self.Ga._mlt_pdiffs):
-                for r_base, aij in zip(self.Ga.r_basis_mv, ai):
-                    sub_lst.append((aij, (r_base | x).scalar()))
+                sub_lst += list(zip(ai, x.get_coefs(1)))
             return self.fvalue.subs(sub_lst, simultaneous=True)
 
     def __add__(self, X):
-- 
2.43.0


From 4091d91abadadf473247cfe6ca77cc028255494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 17/53] fix: sums and products of vector-valued Mlts

---
 galgebra/lt.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 70311ff..737336c 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -860,6 +860,13 @@ class Mlt(printer.GaPrintable):
                 Mlt.increment_slots(nargs, Ga)
                 self.fvalue = f
 
+    @staticmethod
+    def _of_value(fvalue, Ga, nargs):
+        """ The Mlt with value `fvalue`, which may be a multivector of any grade """
+        T = Mlt(S.Zero, Ga, nargs)
+        T.fvalue = fvalue
+        return T
+
     def __call__(self, *args):
         """
         Evaluate the multilinear function for the given vector arguments.
@@ -878,7 +885,7 @@ class Mlt(printer.GaPrintable):
     def __add__(self, X):
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
-                return Mlt(self.fvalue + X.fvalue, self.Ga, self.nargs)
+                return Mlt._of_value(self.fvalue + X.fvalue, self.Ga, self.nargs)
             else:
                 raise ValueError('In Mlt add number of args not the same\n')
         else:
@@ -887,7 +894,7 @@ class Mlt(printer.GaPrintable):
     def __sub__(self, X):
         if isinstance(X, Mlt):
             if self.nargs == X.nargs:
-                return Mlt(self.fvalue - X.fvalue, self.Ga, self.nargs)
+                return Mlt._of_value(self.fvalue - X.fvalue, self.Ga, self.nargs)
             else:
                 raise ValueError('In Mlt sub number of args not the same\n')
         else:
@@ -900,32 +907,32 @@ class Mlt(printer.GaPrintable):
             self_args = self.Ga._mlt_a[:self.nargs]
             X_args = X.Ga._mlt_a[self.nargs:nargs]
             value = (self(*self_args) * X(*X_args)).expand()
-            return Mlt(value, self.Ga, nargs)
+            return Mlt._of_value(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return Mlt._of_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __xor__(self, X):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
-            return Mlt(value, self.Ga, nargs)
+            return Mlt._of_value(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return Mlt._of_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __or__(self, X):
         if isinstance(X, Mlt):
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
-            return Mlt(value, self.Ga, nargs)
+            return Mlt._of_value(value, self.Ga, nargs)
         else:
-            return Mlt(X * self.fvalue, self.Ga, self.nargs)
+            return Mlt._of_value(X * self.fvalue, self.Ga, self.nargs)
 
     def dd(self):
         Mlt.increment_slots(self.nargs + 1, self.Ga)
         dd_fvalue = (self.Ga._mlt_a[self.nargs] | self.Ga.grad) * self.fvalue
-        return Mlt(dd_fvalue, self.Ga, self.nargs + 1)
+        return Mlt._of_value(dd_fvalue, self.Ga, self.nargs + 1)
 
     def pdiff(self, slot: int):
         r"""
-- 
2.43.0


From 0dc9e2809843b506ca52d885729102f90b6a9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 18/53] fix: Mlt.pdiff and contract differentiate with respect
 to the slots and leave the algebra unchanged

---
 galgebra/lt.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 737336c..7981ac9 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -942,8 +942,7 @@ class Mlt(printer.GaPrintable):
         ``T.pdiff(2)`` is a vector function.
         """
         # Take geometric derivative of mlt with respect to slot argument
-        self.Ga.dslot = slot - 1
-        return self.Ga.grad * self.Ga.mv(self.fvalue)
+        return self.Ga.make_grad(self.Ga._mlt_a[slot - 1]) * self.Ga.mv(self.fvalue)
 
     @staticmethod
     def remove_slot(mv, slot, nargs, ga):
@@ -967,13 +966,10 @@ class Mlt(printer.GaPrintable):
         min_slot = min(slot1, slot2)
         max_slot = max(slot1, slot2)
         cnargs = self.nargs - 2
-        self.Ga.dslot = min_slot - 1
-        grad_self = self.Ga.grad * self.Ga.mv(self.fvalue)
-        grad_self = Mlt.remove_slot(grad_self.obj, min_slot, self.nargs, self.Ga)
-        self.Ga.dslot = max_slot - 2
-        div_grad_self = self.Ga.grad | self.Ga.mv(grad_self)
-        div_grad_self = Mlt.remove_slot(div_grad_self.obj, max_slot - 1, self.nargs - 1, self.Ga)
-        return Mlt(div_grad_self, self.Ga, cnargs)
+        div_grad_self = (self.Ga.make_grad(self.Ga._mlt_a[max_slot - 1]) | self.pdiff(min_slot)).obj
+        div_grad_self = Mlt.remove_slot(div_grad_self, max_slot, self.nargs, self.Ga)
+        div_grad_self = Mlt.remove_slot(div_grad_self, min_slot, self.nargs - 1, self.Ga)
+        return Mlt._of_value(expand(div_grad_self), self.Ga, cnargs)
 
     def cderiv(self):
         """
-- 
2.43.0


From 767486ab8e217bd3581fd73feb9b09133ed4b2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 19/53] fix: Mlts of different algebras are not combined

---
 galgebra/lt.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 7981ac9..adf5a16 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -884,6 +884,8 @@ class Mlt(printer.GaPrintable):
 
     def __add__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError('In Mlt add arguments are not from same geometric algebra')
             if self.nargs == X.nargs:
                 return Mlt._of_value(self.fvalue + X.fvalue, self.Ga, self.nargs)
             else:
@@ -893,6 +895,8 @@ class Mlt(printer.GaPrintable):
 
     def __sub__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError('In Mlt sub arguments are not from same geometric algebra')
             if self.nargs == X.nargs:
                 return Mlt._of_value(self.fvalue - X.fvalue, self.Ga, self.nargs)
             else:
@@ -902,6 +906,8 @@ class Mlt(printer.GaPrintable):
 
     def __mul__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError('In Mlt product arguments are not from same geometric algebra')
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             self_args = self.Ga._mlt_a[:self.nargs]
@@ -913,6 +919,8 @@ class Mlt(printer.GaPrintable):
 
     def __xor__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError('In Mlt product arguments are not from same geometric algebra')
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
@@ -922,6 +930,8 @@ class Mlt(printer.GaPrintable):
 
     def __or__(self, X):
         if isinstance(X, Mlt):
+            if self.Ga != X.Ga:
+                raise ValueError('In Mlt product arguments are not from same geometric algebra')
             nargs = self.nargs + X.nargs
             Mlt.increment_slots(nargs, self.Ga)
             value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
-- 
2.43.0


From 623e41065019aaa039b98c027499921708377dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 20/53] fix: GAeval brackets chains, repeated and nested
 parentheses as the operator order says

---
 galgebra/_utils/parser.py | 236 +++++++++++++-------------------------
 1 file changed, 79 insertions(+), 157 deletions(-)

diff --git a/galgebra/_utils/parser.py b/galgebra/_utils/parser.py
index d790a3d..91d1969 100644
--- a/galgebra/_utils/parser.py
+++ b/galgebra/_utils/parser.py
@@ -1,168 +1,90 @@
 """ A private module to parse multivector expressions """
 import re
-from typing import List
-
-
-# The `#` character is included because we generate tokens containing it in
-# _parse_paren.
-_operand_re = r"([A-Za-z0-9\_\#]+)"
-
-_operator_res = {
-    '<>|': re.compile(r'(ARG(\||<|>)ARG)'.replace('ARG', _operand_re)),
-    '^': re.compile(r'(ARG[\^]ARG([\^]ARG)*)'.replace('ARG', _operand_re)),
-    '*': re.compile(r'(ARG[\*]ARG([\*]ARG)*)'.replace('ARG', _operand_re)),
-}
-
-
-def _contains_interval(interval1, interval2):  # interval1 inside interval2
-    if interval1[0] > interval2[0] and interval1[1] < interval2[1]:
-        return True
-    else:
-        return False
-
-
-# counter to generate unique tokens
-_parse_paren_calls = 0
-
-
-def _parse_paren(line):
-    global _parse_paren_calls
-    _parse_paren_calls += 1
-
-    if ('(' not in line) or (')' not in line):
-        return [[[line]]]
-    level = 0
-    max_level = 0
-    ich = 0
-    paren_lst = []
-    for ch in line:
-        if ch == '(':
-            level += 1
-            paren_lst.append([level, ich])
-        if ch == ')':
-            if level < 1:
-                raise ValueError('Mismathed Parenthesis in: ' + line + '\n')
-            paren_lst.reverse()
-            iparen = 0
-            for elem in paren_lst:
-                if elem[0] == level:
-                    paren_lst[iparen].append(ich)
-                    break
-                iparen += 1
-            paren_lst.reverse()
-            level -= 1
-        max_level = max(max_level, level)
-        ich += 1
-    if level != 0:
-        raise ValueError('Mismatched Parenthesis in: ' + line + '\n')
-    if max_level > 0:
-        level_lst = []
-        for _x in range(max_level + 1):
-            level_lst.append([])
-        for group in paren_lst:
-            level_lst[group[0]].append(group[1:])
-        ilevel = max_level
-        while ilevel > 1:
-            level = level_lst[ilevel]
-            level_down = level_lst[ilevel - 1]
-            igroup = 0
-            for group in level:
-                igroup_down = 0
-                for group_down in level_down:
-                    if _contains_interval(group, group_down):
-                        level_lst[ilevel][igroup].append(igroup_down)
-                    igroup_down += 1
-                igroup += 1
-            ilevel -= 1
-        ilevel = 1
-        for level in level_lst[1:]:
-            igroup = 0
-            for group in level:
-                token = '#' + str(_parse_paren_calls) + '_' + str(ilevel) + '_' + str(igroup) + '#'
-                level_lst[ilevel][igroup].append(line[group[0]:group[1] + 1])
-                level_lst[ilevel][igroup].append(token)
-                igroup += 1
-            ilevel += 1
-        ilevel = 1
-        for level in level_lst[1:]:
-            igroup = 0
-            for group in level:
-                group.append(group[-2])
-                level_lst[ilevel][igroup] = group
-                igroup += 1
-            ilevel += 1
-        ilevel = max_level
-        while ilevel > 1:
-            igroup = 0
-            for group in level_lst[ilevel]:
-                group_down = level_lst[ilevel - 1][group[2]]
-                replace_text = group_down[-1].replace(group[-3], group[-2])
-                level_lst[ilevel - 1][group[2]][-1] = replace_text
-                igroup += 1
-            ilevel -= 1
-        for group in level_lst[1]:
-            line = line.replace(group[2], group[3])
-        ilevel = 1
-        level_lst[0] = [[line]]
-    return level_lst
-
-
-def _unparse_paren(level_lst):
-    line = level_lst[0][0][0]
-    for level in level_lst[1:]:
-        for group in level:
-            new_string = group[-1]
-            if new_string[:2] == '((' and new_string[-2:] == '))':
-                new_string = new_string[1:-1]
-            line = line.replace(group[-2], new_string)
-    return line
+from typing import List, Tuple
 
 
-def _sub_paren(s):
-    string = s.group(0)
-    return '(%s)' % string
-
-
-def _add_paren(line, re_exprs):
-    paren_flg = False
-    if (line[0] == '(') and (line[-1] == ')'):
-        paren_flg = True
-        line = line[1:-1]
-    if ('(' in line) or (')' in line):
-        line_levels = _parse_paren(line)
-        ilevel = 0
-        for level in line_levels:
-            igroup = 0
-            for group in level:
-                group[-1] = re.sub(re_exprs, _sub_paren, group[-1])
-                line_levels[ilevel][igroup] = group
-                igroup += 1
-            ilevel += 1
-        line = _unparse_paren(line_levels)
-    else:
-        line = re.sub(re_exprs, _sub_paren, line)
-    if paren_flg:
-        line = '(' + line + ')'
-    return line
+# The operators which bind at each level. A quotient binds like a product.
+_operators = {'<>|': '<>|', '^': '^', '*': '*/'}
+
+_token_re = re.compile(
+    r'[0-9]+\.?[0-9]*(?:[eE][+-]?[0-9]+)?'  # numbers
+    r'|[\w.]+'  # names and attributes
+    r'|\*\*|<<|>>|<=|>=|==|!='
+    r'|\S')
+
+_closing = {'(': ')', '[': ']'}
 
 
 def validate_op_order(op_order: List[str]) -> None:
-    if not all(op in _operator_res for op in op_order):
+    if not all(op in _operators for op in op_order):
         raise ValueError("Illegal operator")
 
 
-def parse_line(line: str, op_order: List[str]) -> str:
-    line = line.replace(' ', '')
-    level_lst = _parse_paren(line)
-    ilevel = 0
-    for level in level_lst:
-        igroup = 0
-        for group in level:
-            string = group[-1]
-            for op in op_order:
-                string = _add_paren(string, _operator_res[op])
-            level_lst[ilevel][igroup][-1] = string
-            igroup += 1
-        ilevel += 1
-    line = _unparse_paren(level_lst)
+def _is_binary(token: str) -> bool:
+    return token != '' and any(token in ops for ops in _operators.values())
+
+
+def _add_paren(operands: List[str], operators: List[str], op_order: List[str]) -> str:
+    """ Bracket a chain of binary operations, one level at a time, left to right """
+    for level in op_order:
+        level_operands, level_operators = operands[:1], []
+        for operator, operand in zip(operators, operands[1:]):
+            if operator in _operators[level]:
+                level_operands[-1] = '({}{}{})'.format(level_operands[-1], operator, operand)
+            else:
+                level_operators.append(operator)
+                level_operands.append(operand)
+        operands, operators = level_operands, level_operators
+    line = operands[0]
+    for operator, operand in zip(operators, operands[1:]):
+        line += operator + operand
     return line
+
+
+def _parse_operand(tokens: List[str], pos: int, op_order: List[str]) -> Tuple[str, int]:
+    """ Parse a name, number or bracketed expression, with its signs, calls and powers """
+    operand = ''
+    while tokens[pos] in ('+', '-', '~'):
+        operand += tokens[pos]
+        pos += 1
+    if re.match(r'[\w.]', tokens[pos]):
+        operand += tokens[pos]
+        pos += 1
+    while tokens[pos] in _closing or tokens[pos].startswith('.'):
+        if tokens[pos] in _closing:
+            group, end = _parse_group(tokens, pos + 1, op_order, _closing[tokens[pos]])
+            operand += tokens[pos] + group + tokens[end]
+            pos = end + 1
+        else:
+            operand += tokens[pos]
+            pos += 1
+    if tokens[pos] == '**':
+        exponent, pos = _parse_operand(tokens, pos + 1, op_order)
+        operand += '**' + exponent
+    return operand, pos
+
+
+def _parse_group(tokens: List[str], pos: int, op_order: List[str], end: str) -> Tuple[str, int]:
+    """ Parse up to the token `end`, the empty string being the end of the line """
+    line = ''
+    while tokens[pos] != end:
+        if tokens[pos] == '' or tokens[pos] in _closing.values():
+            raise ValueError('Mismatched Parenthesis in: ' + ''.join(tokens) + '\n')
+        if tokens[pos] not in _closing and tokens[pos] != '~' and not re.match(r'[\w.]', tokens[pos]):
+            # an operator or punctuation for python to interpret
+            line += tokens[pos]
+            pos += 1
+            continue
+        operand, pos = _parse_operand(tokens, pos, op_order)
+        operands, operators = [operand], []
+        while _is_binary(tokens[pos]):
+            operators.append(tokens[pos])
+            operand, pos = _parse_operand(tokens, pos + 1, op_order)
+            operands.append(operand)
+        line += _add_paren(operands, operators, op_order)
+    return line, pos
+
+
+def parse_line(line: str, op_order: List[str]) -> str:
+    tokens = _token_re.findall(line) + ['']
+    return _parse_group(tokens, 0, op_order, '')[0]
-- 
2.43.0


From bb19872daf06130f2bb124221069d27940e0bdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 21/53] fix: exp simplifies the square before rejecting it as
 non-scalar

---
 galgebra/mv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index e353384..65e75ef 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1234,6 +1234,9 @@ class Mv(printer.GaPrintable):
         """
         self = self.blade_rep()
         self_sq = self * self
+        if not self_sq.is_scalar():
+            # other grades may vanish only after simplification
+            self_sq = self_sq.simplify()
         if self_sq.is_scalar():
             sq = simplify(self_sq.obj)  # sympy expression for self**2
             if sq == S.Zero:  # sympy expression for self**2 = 0
-- 
2.43.0


From fe69979b4007daf3ed26ef9ab7b189ebdf7cc495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:09 +0000
Subject: [PATCH 22/53] fix: norm of a multivector whose quadratic form is a
 quotient

---
 galgebra/metric.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index ce6096e..3d9b504 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -9,7 +9,7 @@ from typing import List, Optional
 from sympy import (
     diff, trigsimp, Matrix, Rational,
     sqf_list, sqrt, eye, S, expand, Mul, MatrixBase,
-    Add, simplify, Expr, Abs, Function, MatrixSymbol
+    Add, simplify, Expr, Abs, Function, MatrixSymbol, PolynomialError
 )
 
 from . import printer
@@ -159,7 +159,10 @@ def square_root_of_expr(expr, hint='0'):
         return sqrt(abs_with_hint(expr, hint))
     else:
         expr = trigsimp(expr)
-        coef, pow_lst = sqf_list(expr)
+        try:
+            coef, pow_lst = sqf_list(expr)
+        except PolynomialError:  # not a polynomial, for example a quotient
+            return sqrt(abs_with_hint(expr, hint))
         if coef != S.One:
             if coef.is_number:
                 coef = square_root_of_expr(coef)
-- 
2.43.0


From d2820793cb3a92285548628a18a90944243d0f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 23/53] fix: reciprocal basis symbols differ from basis symbols
 for basis names without an index

---
 galgebra/metric.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 3d9b504..1be2c84 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -729,7 +729,12 @@ class Metric(object):
 
         if ' ' in basis or ',' in basis or '*' in basis or basis == '':  # bases defined by substrings separated by spaces or commas
             self.basis = symbols_list(basis)
-            self.r_symbols = symbols_list(basis, sub=False)
+            # a name without an index has no superscripted form, mark it so that
+            # the reciprocal symbols are never the basis symbols
+            self.r_symbols = [
+                BasisVectorSymbol(r.name + '__*') if r == e else r
+                for e, r in zip(self.basis, symbols_list(basis, sub=False))
+            ]
         else:
             if coords is not None:  # basis defined by root string with symbol list as indices
                 self.basis = symbols_list(basis, coords)
-- 
2.43.0


From 660f63a1b1f7087b8efa031eccebe9cf00f708d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:28 +0000
Subject: [PATCH 24/53] fix: Mv.diff converts to the blade representation
 before differentiating

---
 galgebra/mv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 65e75ef..3fe35f5 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1187,6 +1187,7 @@ class Mv(printer.GaPrintable):
     # ## GSG code ends ###
 
     def diff(self, coord) -> 'Mv':
+        self = self.blade_rep()  # the conversion can depend on coord
         if self.Ga.coords is None:
             obj = diff(self.obj, coord)
         elif coord not in self.Ga.coords:
-- 
2.43.0


From d7bbabb980d64b62c37a21406869d49f051e8423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 25/53] fix: Dops with the same terms in another order compare
 equal

---
 galgebra/mv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 3fe35f5..e6debac 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1861,8 +1861,8 @@ class Dop(dop._BaseDop):
             if self.Ga != other.Ga:
                 return NotImplemented
 
-            diff = self - other
-            return len(diff.terms) == 0
+            zero = Mv(0, ga=self.Ga)
+            return all(coef == zero for coef, pdiff in (self - other).terms)
         else:
             return NotImplemented
 
-- 
2.43.0


From f37e649b1aa4e77dbd90dbe4ab1c909ec8096ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:12 +0000
Subject: [PATCH 26/53] fix: Lt of a function or versor simplifies an image
 before rejecting it as not a vector

---
 galgebra/lt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index adf5a16..cb839cc 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -371,6 +371,9 @@ class Lt(printer.GaPrintable):
             self.lt_dict = {}
             for base in self.Ga.basis:
                 out = F(mv.Mv(base, ga=self.Ga))
+                if not out.is_vector() and not out.is_zero():
+                    # other grades may vanish only after simplification
+                    out = out.simplify()
                 if not out.is_vector() and not out.is_zero():
                     raise ValueError('{} must return vectors'.format(F))
                 self.lt_dict[base] = out.obj
-- 
2.43.0


From 559c24ed9aabfc08e4d5183ad77e0f385e7a766d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:59 +0000
Subject: [PATCH 27/53] fix: Lt of a function or versor stores only the vector
 part of each image

---
 galgebra/lt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index cb839cc..b9c5006 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -376,7 +376,8 @@ class Lt(printer.GaPrintable):
                     out = out.simplify()
                 if not out.is_vector() and not out.is_zero():
                     raise ValueError('{} must return vectors'.format(F))
-                self.lt_dict[base] = out.obj
+                # drop terms of other grades whose coefficients cancel
+                self.lt_dict[base] = out.get_grade(1).obj
         else:
             raise TypeError("Unsupported argument type {}".format(type(mat_rep)))
 
-- 
2.43.0


From 554febbbf1c958c9d9842ea7dac0c142fcb94d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:05 +0000
Subject: [PATCH 28/53] fix: make_grad of a base-representation multivector
 variable

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 5a1f44e..dd4f076 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -774,7 +774,7 @@ class Ga(metric.Metric):
         # make the grad and cache it
         grad_a = mv.Dop([
             (self.mv(self._reciprocal_blade_dict[base]), dop.Pdop({coef: 1}))
-            for coef, base in metric.linear_expand_terms(a.obj)
+            for coef, base in metric.linear_expand_terms(a.blade_rep().obj)
         ], ga=self, cmpflg=cmpflg)
 
         self._agrads[cache_key] = grad_a
-- 
2.43.0


From 53262e48047f114c4aee548e9446d8e15e18d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 29/53] fix: differential operators with base-representation
 coefficients expand and print

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index e6debac..eff1157 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1885,7 +1885,7 @@ class Dop(dop._BaseDop):
 
         for coef, pdiff in self.terms:
             if isinstance(coef, Mv) and not coef.is_scalar():
-                for mv_coef, mv_base in metric.linear_expand_terms(coef.obj):
+                for mv_coef, mv_base in metric.linear_expand_terms(coef.blade_rep().obj):
                     if mv_base in bases:
                         index = bases.index(mv_base)
                         coefs[index] += dop.Sdop([(mv_coef, pdiff)])
-- 
2.43.0


From fe1627b71471b188b0a01ecdc8aea228f1185fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:58 +0000
Subject: [PATCH 30/53] fix: enhance_print(None) turns coloring off

---
 galgebra/printer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 5afb3c6..963e100 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -248,11 +248,16 @@ def enhance_print(base='blue', fct='red', deriv='cyan'):
 
     Pass ``None`` to disable coloring.
     """
-    GaPrinter.set_global_settings(
+    settings = dict(
         function_color=fct,
         derivative_color=deriv,
         basis_vector_color=base,
     )
+    GaPrinter.set_global_settings(**settings)
+    # `set_global_settings` ignores `None`
+    for name, color in settings.items():
+        if color is None:
+            GaPrinter._global_settings.pop(name, None)
 
 
 # patch the docstring using our known color names
-- 
2.43.0


From 54e724d8909210bf9bb5b0cce57a92c4a0f3855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 31/53] fix: LaTeX of a multilinear transformation with one
 component or built from a function

---
 galgebra/lt.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index b9c5006..4ae1a5b 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -11,7 +11,7 @@ from functools import reduce
 from typing import Mapping
 
 from sympy import (
-    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Expr, simplify
+    expand, symbols, Matrix, Transpose, zeros, Symbol, Function, S, Add, Mul, Expr, simplify
 )
 from sympy.matrices import MatrixBase
 from sympy.printing.latex import LatexPrinter as _LatexPrinter
@@ -719,9 +719,14 @@ class Mlt(printer.GaPrintable):
         return print_obj._print(self.fvalue)
 
     def _latex(self, print_obj):
+        fvalue = self.fvalue
         if self.nargs <= 1:
-            return print_obj._print(self.fvalue)
-        expr_lst = Mlt.expand_expr(self.fvalue, self.Ga)
+            return print_obj._print(fvalue)
+        if isinstance(fvalue, mv.Mv):
+            if not fvalue.is_scalar():
+                return print_obj._print(fvalue)
+            fvalue = fvalue.obj
+        expr_lst = Mlt.expand_expr(fvalue, self.Ga)
         latex_str = '\\begin{aligned} '
         first = True
         lcnt = print_obj._settings['galgebra_mlt_lcnt']
@@ -782,10 +787,10 @@ class Mlt(printer.GaPrintable):
     def expand_expr(expr, ga):
         lst_expr = []
         expr = expand(expr)
-        for term in expr.args:
+        for term in Add.make_args(expr):
             coef = S.One
             a_lst = []
-            for factor in term.args:
+            for factor in Mul.make_args(term):
                 if factor in ga._mlt_acoefs:
                     a_lst.append(factor)
                 else:
-- 
2.43.0


From 19afc4760fd3f335ea0f5150aab6a60cb9dee7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 32/53] fix: LaTeX of a differential operator prints a term
 without derivative once

---
 galgebra/mv.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index eff1157..45c4e99 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1960,10 +1960,8 @@ class Dop(dop._BaseDop):
             else:
                 if str_sdop == '1':
                     s += str_base
-                if str_sdop == '-1':
+                elif str_sdop == '-1':
                     s += '-' + str_base
-                    if str_sdop[1:] != '1':
-                        s += ' ' + str_sdop[1:]
                 else:
                     if len(sdop.terms) > 1:
                         if self.cmpflg:
-- 
2.43.0


From 3bb246c47404c198ea0b998d22020fa028b6fa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 33/53] fix: Mlt.expand returns a new transformation instead of
 changing its operand

---
 galgebra/lt.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/galgebra/lt.py b/galgebra/lt.py
index 4ae1a5b..0a9aacf 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -1013,8 +1013,9 @@ class Mlt(printer.GaPrintable):
         return CD
 
     def expand(self):
-        self.fvalue = expand(self.fvalue)
-        return self
+        T = Mlt._of_value(expand(self.fvalue), self.Ga, self.nargs)
+        T.f = self.f
+        return T
 
     def comps(self):
         basis = self.Ga.mv()
-- 
2.43.0


From 036f72493139452982aa2757ab6272c5c041afc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 34/53] fix: a metric of another size than the basis and a
 negative grade are rejected

---
 galgebra/metric.py | 4 ++++
 galgebra/mv.py     | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 1be2c84..7d1dec4 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -806,6 +806,10 @@ class Metric(object):
                             m[i, i] = g[i]
                         self.g = m
 
+        if self.g.shape != (self.n, self.n):
+            raise ValueError('Metric of shape ' + str(self.g.shape) + ' has' +
+                             ' different rank than bases "' + str(self.basis) + '"')
+
         self.g_raw = copy.deepcopy(self.g)  # save original metric tensor for use with submanifolds
 
         if self.debug:
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 45c4e99..55378bc 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -184,6 +184,8 @@ class Mv(printer.GaPrintable):
                 return root
             return '{}__{}'.format(root, s)
         grade = __grade
+        if grade < 0:  # would count grades from the pseudoscalar down
+            raise ValueError("grade {} is negative".format(grade))
         kw = _KwargParser('_make_grade', kwargs)
         if isinstance(__name_or_coeffs, str):
             name = __name_or_coeffs
-- 
2.43.0


From d38d6a03f2527416a9291a1b1168e6d904c545f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 35/53] fix: coefficient names of a general multivector are
 distinct for every set of basis names

---
 galgebra/ga.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index dd4f076..f66f292 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1136,20 +1136,27 @@ class Ga(metric.Metric):
     @_cached_property
     def basis_super_scripts(self) -> List[str]:
         if self.coords is None:
-            base0 = str(self.basis[0])
-            if '_' in base0:
-                sub_index = base0.index('_')
-                return [str(base)[sub_index + 1:] for base in self.basis]
-            else:
-                return [str(i + 1) for i in self.n_range]
+            names = [str(base) for base in self.basis]
+            if '_' in names[0]:
+                scripts = [name.split('_', 1)[-1] for name in names]
+                # bases such as `e_1 f_1` are told apart by their position
+                if len(set(scripts)) == self.n:
+                    return scripts
+            return [str(i + 1) for i in self.n_range]
         else:
             return [str(coord) for coord in self.coords]
 
     @_cached_property
     def blade_super_scripts(self) -> GradedTuple[str]:
-        return self.indexes._map(lambda base_index: ''.join(
-            self.basis_super_scripts[i] for i in base_index
-        ))
+        def join(sep):
+            return self.indexes._map(lambda base_index: sep.join(
+                self.basis_super_scripts[i] for i in base_index
+            ))
+
+        scripts = join('')
+        if len(set(scripts.flat)) < len(scripts.flat):  # as for indexes 1, 2 and 12
+            scripts = join('_')
+        return scripts
 
     @_cached_property
     def mv_blades(self) -> GradedTuple[_mv.Mv]:
-- 
2.43.0


From 6ab2ac74c1ee3152b07c412f59e7608d885be388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 36/53] fix: Cl of one dimension numbers its basis vector as
 requested

---
 galgebra/interop/_cl.py     | 5 ++++-
 galgebra/interop/kingdon.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/galgebra/interop/_cl.py b/galgebra/interop/_cl.py
index 3d11e94..e309ae9 100644
--- a/galgebra/interop/_cl.py
+++ b/galgebra/interop/_cl.py
@@ -68,7 +68,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (1-indexed)
-    if n <= 9:
+    if n == 1:
+        # a single index after '*' would be read as the number of basis vectors
+        basis = root + '_1,'
+    elif n <= 9:
         basis = root + '*' + '|'.join(str(i + 1) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i + 1) for i in range(n))
diff --git a/galgebra/interop/kingdon.py b/galgebra/interop/kingdon.py
index bd73e47..6d0dfa0 100644
--- a/galgebra/interop/kingdon.py
+++ b/galgebra/interop/kingdon.py
@@ -77,7 +77,10 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
     g = [1] * p + [-1] * q + [0] * r
 
     # Build basis name string (0-indexed, matching kingdon)
-    if n <= 10:
+    if n == 1:
+        # a single index after '*' would be read as the number of basis vectors
+        basis = root + '_0,'
+    elif n <= 10:
         basis = root + '*' + '|'.join(str(i) for i in range(n))
     else:
         basis = ' '.join(root + '_' + str(i) for i in range(n))
-- 
2.43.0


From e467ef643c762760c476873d6ba952114cbdafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 37/53] fix: the metric of coordinate functions is symmetric

---
 galgebra/metric.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index 7d1dec4..6e77d11 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -778,19 +778,19 @@ class Metric(object):
         else:  # metric is symbolic or list of lists of functions of coordinates
             if isinstance(g, str):  # metric elements are symbols or constants
                 if g == 'g':  # general symbolic metric tensor (g_ij functions of position)
+                    # the metric is symmetric, so that only the upper half is named
+                    n_coords = len(self.coords)
+                    pairs = [
+                        [(self.coords[min(i, j)], self.coords[max(i, j)]) for j in range(n_coords)]
+                        for i in range(n_coords)
+                    ]
                     self.g = Matrix([
-                        [
-                            Function('g_{}_{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
-                        ]
-                        for coord in self.coords
+                        [Function('g_{}_{}'.format(*pair))(*self.coords) for pair in row]
+                        for row in pairs
                     ])
                     self.g_inv = Matrix([
-                        [
-                            Function('g__{}__{}'.format(coord, coord2))(*self.coords)
-                            for coord2 in self.coords
-                        ]
-                        for coord in self.coords
+                        [Function('g__{}__{}'.format(*pair))(*self.coords) for pair in row]
+                        for row in pairs
                     ])
                 else:  # specific symbolic metric tensor (g_ij are symbolic or numerical constants)
                     self.g = self.metric_symbols_list(g)  # construct symbolic metric from string and basis
-- 
2.43.0


From 8d03c2603e89694e233f2b29988457377c5ad4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 38/53] fix: only multi-grade names are made distinct, and only
 a too small metric is rejected

---
 galgebra/ga.py     | 16 ++++++++++++----
 galgebra/metric.py |  4 ++--
 galgebra/mv.py     | 30 +++++++++++++++---------------
 3 files changed, 29 insertions(+), 21 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index f66f292..35b7a29 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1148,13 +1148,21 @@ class Ga(metric.Metric):
 
     @_cached_property
     def blade_super_scripts(self) -> GradedTuple[str]:
+        return GradedTuple(
+            self._distinct_super_scripts([grade])[0] for grade in range(self.n + 1)
+        )
+
+    def _distinct_super_scripts(self, grades) -> List[Tuple[str, ...]]:
+        """ Superscripts that name every blade of `grades` differently """
         def join(sep):
-            return self.indexes._map(lambda base_index: sep.join(
-                self.basis_super_scripts[i] for i in base_index
-            ))
+            return [tuple(
+                sep.join(self.basis_super_scripts[i] for i in base_index)
+                for base_index in self.indexes[grade]
+            ) for grade in grades]
 
         scripts = join('')
-        if len(set(scripts.flat)) < len(scripts.flat):  # as for indexes 1, 2 and 12
+        names = [name for of_grade in scripts for name in of_grade]
+        if len(set(names)) < len(names):  # as for indexes 1, 2 and 12
             scripts = join('_')
         return scripts
 
diff --git a/galgebra/metric.py b/galgebra/metric.py
index 6e77d11..ba268e9 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -806,9 +806,9 @@ class Metric(object):
                             m[i, i] = g[i]
                         self.g = m
 
-        if self.g.shape != (self.n, self.n):
+        if min(self.g.shape) < self.n:
             raise ValueError('Metric of shape ' + str(self.g.shape) + ' has' +
-                             ' different rank than bases "' + str(self.basis) + '"')
+                             ' lower rank than bases "' + str(self.basis) + '"')
 
         self.g_raw = copy.deepcopy(self.g)  # save original metric tensor for use with submanifolds
 
diff --git a/galgebra/mv.py b/galgebra/mv.py
index 55378bc..11ecd6c 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -189,18 +189,19 @@ class Mv(printer.GaPrintable):
         kw = _KwargParser('_make_grade', kwargs)
         if isinstance(__name_or_coeffs, str):
             name = __name_or_coeffs
+            super_scripts = kw.pop('_super_scripts', None) or ga.blade_super_scripts[grade]
             f = kw.pop('f', False)
             kw.reject_remaining()
             if isinstance(f, bool):
                 if f:  # Is a multivector function of all coordinates
                     return sum([Function(add_superscript(name, super_script), real=True)(*ga.coords) * base
-                                for super_script, base in zip(ga.blade_super_scripts[grade], ga.blades[grade])])
+                                for super_script, base in zip(super_scripts, ga.blades[grade])])
                 else:  # Is a constant multivector function
                     return sum([Symbol(add_superscript(name, super_script), real=True) * base
-                                for super_script, base in zip(ga.blade_super_scripts[grade], ga.blades[grade])])
+                                for super_script, base in zip(super_scripts, ga.blades[grade])])
             else:  # Is a multivector function of tuple f variables
                 return sum([Function(add_superscript(name, super_script), real=True)(*f) * base
-                            for super_script, base in zip(ga.blade_super_scripts[grade], ga.blades[grade])])
+                            for super_script, base in zip(super_scripts, ga.blades[grade])])
         elif isinstance(__name_or_coeffs, (list, tuple)):
             coeffs = __name_or_coeffs
             kw.reject_remaining()
@@ -213,6 +214,14 @@ class Mv(printer.GaPrintable):
         else:
             raise TypeError("Expected a string, list, or tuple")
 
+    @staticmethod
+    def _of_grades(ga: 'Ga', name: str, grades: range, **kwargs) -> Expr:
+        """ Make a multivector of several grades, whose coefficients have distinct names """
+        return reduce(operator.add, (
+            Mv._make_grade(ga, name, grade, _super_scripts=super_scripts, **kwargs)
+            for grade, super_scripts in zip(grades, ga._distinct_super_scripts(grades))
+        ), S.Zero)
+
     @staticmethod
     def _make_scalar(ga: 'Ga', __name_or_value: Union[str, Expr], **kwargs) -> Expr:
         """ Make a scalar multivector """
@@ -243,10 +252,7 @@ class Mv(printer.GaPrintable):
         """ Make a general (2**n components) multivector """
         if not isinstance(__name, str):
             raise TypeError("Must be a string")
-        return reduce(operator.add, (
-            Mv._make_grade(ga, __name, grade, **kwargs)
-            for grade in range(ga.n + 1)
-        ))
+        return Mv._of_grades(ga, __name, range(ga.n + 1), **kwargs)
 
     # ## GSG code starts ###
     @staticmethod
@@ -254,10 +260,7 @@ class Mv(printer.GaPrintable):
         """ Make a general even multivector """
         if not isinstance(__name, str):
             raise TypeError("Must be a string")
-        return reduce(operator.add, (
-            Mv._make_grade(ga, __name, grade, **kwargs)
-            for grade in range(0, ga.n + 1, 2)
-        ))
+        return Mv._of_grades(ga, __name, range(0, ga.n + 1, 2), **kwargs)
     # ## GSG code ends ###
 
     @staticmethod
@@ -265,10 +268,7 @@ class Mv(printer.GaPrintable):
         """ Make a general odd multivector """
         if not isinstance(__name, str):
             raise TypeError("Must be a string")
-        return reduce(operator.add, (
-            Mv._make_grade(ga, __name, grade, **kwargs)
-            for grade in range(1, ga.n + 1, 2)
-        ), S.Zero)  # base case needed in case n == 0
+        return Mv._of_grades(ga, __name, range(1, ga.n + 1, 2), **kwargs)
 
     # aliases
     _make_grade2 = _make_bivector
-- 
2.43.0


From 2517c141dcac100906221fb96ac3abe7f62b034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 39/53] fix: Cl rejects negative dimensions

---
 galgebra/interop/_cl.py     | 2 ++
 galgebra/interop/kingdon.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/galgebra/interop/_cl.py b/galgebra/interop/_cl.py
index e309ae9..9f30ae0 100644
--- a/galgebra/interop/_cl.py
+++ b/galgebra/interop/_cl.py
@@ -57,6 +57,8 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
 
         >>> ga, e1, e2, e3 = Cl(2, 0, 1)
     """
+    if min(p, q, r) < 0:
+        raise ValueError("Dimensions p, q and r must not be negative.")
     n = p + q + r
     if n == 0:
         raise ValueError("Total dimension p + q + r must be positive.")
diff --git a/galgebra/interop/kingdon.py b/galgebra/interop/kingdon.py
index 6d0dfa0..d717b68 100644
--- a/galgebra/interop/kingdon.py
+++ b/galgebra/interop/kingdon.py
@@ -66,6 +66,8 @@ def Cl(p: int, q: int = 0, r: int = 0, root: str = 'e', **kwargs):
 
         >>> ga, e0, e1, e2, e3 = Cl(3, 0, 1)
     """
+    if min(p, q, r) < 0:
+        raise ValueError("Dimensions p, q and r must not be negative.")
     n = p + q + r
     if n == 0:
         raise ValueError("Total dimension p + q + r must be positive.")
-- 
2.43.0


From 867289ce378296b176388496c6332845248963e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 40/53] fix: func and subs act on the blade coefficients of a
 multivector in base representation

---
 galgebra/mv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 11ecd6c..77570b3 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1505,6 +1505,7 @@ class Mv(printer.GaPrintable):
         return numerator / denominator
 
     def func(self, fct) -> 'Mv':  # Apply function, fct, to each coefficient of multivector
+        self = self.blade_rep()  # the coefficients of other representations are mixed by the metric
         s = S.Zero
         for coef, base in metric.linear_expand_terms(self.obj):
             s += fct(coef) * base
@@ -1533,6 +1534,7 @@ class Mv(printer.GaPrintable):
 
     def subs(self, *args, **kwargs) -> 'Mv':
         """ Perform a substitution on each coefficient separately """
+        self = self.blade_rep()  # the coefficients of other representations are mixed by the metric
         obj = sum((
             coef.subs(*args, **kwargs) * base for coef, base in metric.linear_expand_terms(self.obj)
         ), S.Zero)
-- 
2.43.0


From 42e34f59198aa4dc25f3ff7ea4d2277995794fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 41/53] fix: coefficients of a Dop belong to its algebra

---
 galgebra/mv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 77570b3..eb5f4e3 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1709,6 +1709,9 @@ class Dop(dop._BaseDop):
                 "Dop() takes from 1 to 2 positional arguments but {} were "
                 "given".format(len(args)))
 
+        if any(isinstance(coef, Mv) and coef.Ga != ga for coef, _ in self.terms):
+            raise ValueError('In Dop.__init__ coefficients are not from same geometric algebra')
+
     def simplify(self, modes=simplify) -> 'Dop':
         """
         Simplify each multivector coefficient of a partial derivative
-- 
2.43.0


From 9bb16225d51230528962fba3a3b3b88da83542b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 42/53] fix: the inner product and projections of a multivector
 reject operands they do not support

---
 galgebra/mv.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index eb5f4e3..e40e5a0 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -813,6 +813,8 @@ class Mv(printer.GaPrintable):
             return NotImplemented
 
         if not isinstance(A, Mv):
+            if not isinstance(A, (Expr, numbers.Number)):
+                return NotImplemented
             return Mv(ga=self.Ga)
 
         if self.Ga != A.Ga:
@@ -826,6 +828,8 @@ class Mv(printer.GaPrintable):
         if isinstance(A, dop._BaseDop):
             return NotImplemented
         assert not isinstance(A, Mv)
+        if not isinstance(A, (Expr, numbers.Number)):
+            return NotImplemented
         return Mv(ga=self.Ga)
 
     def __pow__(self, n):  # Integer power operator
@@ -1088,6 +1092,8 @@ class Mv(printer.GaPrintable):
             blade_lst = self.Ga.mv_blades.flat
         else:
             for blade in blade_lst:
+                if blade.Ga != self.Ga:
+                    raise ValueError("%s is not from same geometric algebra" % blade)
                 if not blade.is_base() or not blade.is_blade():
                     raise ValueError("%s expression isn't a basis blade" % blade)
         blade_lst = [x.obj for x in blade_lst]
@@ -1105,6 +1111,8 @@ class Mv(printer.GaPrintable):
         Project multivector onto a given list of bases.  That is find the
         part of multivector with the same bases as in the bases_lst.
         """
+        if any(x.Ga != self.Ga for x in bases_lst):
+            raise ValueError('In proj bases are not from same geometric algebra')
         bases_lst = [x.obj for x in bases_lst]
         obj = 0
         for coef, base in metric.linear_expand_terms(self.blade_rep().obj):
@@ -1575,6 +1583,8 @@ def compare(A: Mv, B: Mv) -> Union[Expr, int]:
     otherwise return 0.
     """
     if isinstance(A, Mv) and isinstance(B, Mv):
+        if A.Ga != B.Ga:
+            raise ValueError('In compare arguments are not from same geometric algebra')
         Acoefs, Abases = metric.linear_expand(A.obj)
         Bcoefs, Bbases = metric.linear_expand(B.obj)
         if len(Acoefs) != len(Bcoefs):
-- 
2.43.0


From b246b310ebedde27c522a06c5c673b9859d7be26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 43/53] fix: linear and multilinear transformations reject
 operands of another algebra and unsupported types

---
 galgebra/ga.py |  4 ++++
 galgebra/lt.py | 27 +++++++++++++++++++++++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index 35b7a29..d2b714e 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -765,6 +765,8 @@ class Ga(metric.Metric):
             # This might be needed for Mlt, let's leave it till we're sure.
             # Convert to a multivector.
             a = sum((ai * ei for ai, ei in zip(a, self.mv_basis)), self.mv(S.Zero))
+        elif a.Ga != self:
+            raise ValueError('In make_grad argument is not from same geometric algebra')
 
         cache_key = (a, cmpflg)
 
@@ -2057,6 +2059,8 @@ class Ga(metric.Metric):
 
         if isinstance(A, Expr):
             A = self.mv(A)
+        elif A.Ga != self:
+            raise ValueError('In pDiff argument is not from same geometric algebra')
         A = A.blade_rep()
 
         dA = self.mv(expand(diff(A.obj, coord)))
diff --git a/galgebra/lt.py b/galgebra/lt.py
index 0a9aacf..3ddadd4 100644
--- a/galgebra/lt.py
+++ b/galgebra/lt.py
@@ -3,6 +3,7 @@ Multivector Linear Transformation
 """
 
 import inspect
+import numbers
 import types
 import itertools
 import warnings
@@ -160,6 +161,15 @@ def Dictionary_to_Matrix(dict_rep, ga):
 # ## GSG code ends ###
 
 
+def _check_operand(x, ga, name):
+    """ Raise unless `x` is a scalar or a multivector of the algebra `ga` """
+    if isinstance(x, mv.Mv):
+        if x.Ga != ga:
+            raise ValueError('In {} arguments are not from same geometric algebra'.format(name))
+    elif not isinstance(x, (Expr, numbers.Number)):
+        raise TypeError('{} does not support {}'.format(name, type(x).__name__))
+
+
 class Lt(printer.GaPrintable):
     r"""
     A Linear Transformation
@@ -312,8 +322,10 @@ class Lt(printer.GaPrintable):
             self.lt_dict = {base: S.Zero for base in self.Ga.basis}
             for key, image in mat_rep.items():
                 if isinstance(key, mv.Mv):
+                    _check_operand(key, self.Ga, 'Lt.__init__')
                     key = key.obj
                 if isinstance(image, mv.Mv):
+                    _check_operand(image, self.Ga, 'Lt.__init__')
                     image = image.blade_rep().obj
                 self.lt_dict[key] = S(image)
 
@@ -322,6 +334,7 @@ class Lt(printer.GaPrintable):
                 # At this point mat_rep[i] is the desired image vector for the
                 # i_th basis image vectors.
                 for lt_i, base in zip(mat_rep, self.Ga.basis):
+                    _check_operand(lt_i, self.Ga, 'Lt.__init__')
                     self.lt_dict[base] = sym(lt_i)
             else:
                 # mat_rep = map(list, zip(*mat_rep))  # Transpose list of lists
@@ -376,6 +389,7 @@ class Lt(printer.GaPrintable):
                     out = out.simplify()
                 if not out.is_vector() and not out.is_zero():
                     raise ValueError('{} must return vectors'.format(F))
+                _check_operand(out, self.Ga, 'Lt.__init__')
                 # drop terms of other grades whose coefficients cancel
                 self.lt_dict[base] = out.get_grade(1).obj
         else:
@@ -489,14 +503,14 @@ class Lt(printer.GaPrintable):
                 self_mul_LT[key] = metric.collect(expand(self_mul_LT[key]), self.Ga.basis)
             return Lt(self_mul_LT, ga=self.Ga)
         else:
-            self_mul_LT = {}
-            for key in self.lt_dict:
-                self_mul_LT[key] = LT * self.lt_dict[key]
-            return Lt(self_mul_LT, ga=self.Ga)
+            return self.__rmul__(LT)
 
     def __rmul__(self, LT):
 
         if not isinstance(LT, Lt):
+            _check_operand(LT, self.Ga, 'Lt product')
+            if isinstance(LT, mv.Mv) and not LT.is_scalar():
+                raise TypeError('Lt product does not support a multivector')
             self_mul_LT = {}
             for key in self.lt_dict:
                 self_mul_LT[key] = LT * self.lt_dict[key]
@@ -883,6 +897,8 @@ class Mlt(printer.GaPrintable):
         """
         if len(args) == 0:
             return self.fvalue
+        for x in args:
+            _check_operand(x, self.Ga, 'Mlt call')
         if self.f is not None:
             return self.f(*args)
         else:
@@ -924,6 +940,7 @@ class Mlt(printer.GaPrintable):
             value = (self(*self_args) * X(*X_args)).expand()
             return Mlt._of_value(value, self.Ga, nargs)
         else:
+            _check_operand(X, self.Ga, 'Mlt product')
             return Mlt._of_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __xor__(self, X):
@@ -935,6 +952,7 @@ class Mlt(printer.GaPrintable):
             value = self(*self.Ga._mlt_a[:self.nargs]) ^ X(*X.Ga._mlt_a[self.nargs:nargs])
             return Mlt._of_value(value, self.Ga, nargs)
         else:
+            _check_operand(X, self.Ga, 'Mlt product')
             return Mlt._of_value(X * self.fvalue, self.Ga, self.nargs)
 
     def __or__(self, X):
@@ -946,6 +964,7 @@ class Mlt(printer.GaPrintable):
             value = self(*self.Ga._mlt_a[:self.nargs]) | X(*X.Ga._mlt_a[self.nargs:nargs])
             return Mlt._of_value(value, self.Ga, nargs)
         else:
+            _check_operand(X, self.Ga, 'Mlt product')
             return Mlt._of_value(X * self.fvalue, self.Ga, self.nargs)
 
     def dd(self):
-- 
2.43.0


From 494069959a3f9b4b0b5daf418fe2d5cce1b7ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 44/53] fix: a multivector cannot be made from a matrix or
 another non-expression

---
 galgebra/mv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index e40e5a0..833821f 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -11,7 +11,7 @@ from typing import List, Any, Tuple, Union, TYPE_CHECKING
 from sympy import (
     Symbol, Function, S, expand, Add,
     sin, cos, sinh, cosh, sqrt, trigsimp,
-    simplify, diff, Expr, Abs, collect, SympifyError,
+    simplify, diff, Expr, Abs, collect, SympifyError, MatrixBase,
 )
 from sympy import exp as sympy_exp
 from sympy import N as Nsympy
@@ -376,6 +376,8 @@ class Mv(printer.GaPrintable):
                     self.obj = x
                 else:  # copy constructor for scalar obj expression
                     self.obj = S(x)
+                if not isinstance(self.obj, Expr) or isinstance(self.obj, MatrixBase):
+                    raise TypeError('A multivector cannot be made from {!r}'.format(x))
                 self.is_blade_rep = True
                 self.characterise_Mv()
             kw.reject_remaining()
-- 
2.43.0


From 0b77ddbf6de16937a507f646ad521b9c0a06b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 45/53] fix: multivector and Dop arithmetic rejects unsupported
 operand types

---
 galgebra/mv.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 833821f..92dc62f 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -43,6 +43,11 @@ _StrPrinter._default_settings.update({
 })
 
 
+def _is_scalar_operand(A) -> bool:
+    """ Operands other than multivectors that arithmetic accepts """
+    return isinstance(A, (Expr, numbers.Number)) and not isinstance(A, MatrixBase)
+
+
 ########################### Multivector Class ##########################
 
 
@@ -524,6 +529,8 @@ class Mv(printer.GaPrintable):
             return NotImplemented
 
         if not isinstance(A, Mv):
+            if not _is_scalar_operand(A):
+                return NotImplemented
             return Mv(op(self.obj, A), ga=self.Ga)
 
         if self.Ga != A.Ga:
@@ -557,6 +564,8 @@ class Mv(printer.GaPrintable):
             return NotImplemented
 
         if not isinstance(A, Mv):
+            if not _is_scalar_operand(A):
+                return NotImplemented
             return Mv(expand(A * self.obj), ga=self.Ga)
 
         if self.Ga != A.Ga:
@@ -592,6 +601,8 @@ class Mv(printer.GaPrintable):
     def __rmul__(self, A):
         if isinstance(A, dop._BaseDop):
             return NotImplemented
+        if not _is_scalar_operand(A):
+            return NotImplemented
         return Mv(expand(A * self.obj), ga=self.Ga)
 
     def __truediv__(self, A):
@@ -792,6 +803,8 @@ class Mv(printer.GaPrintable):
             return NotImplemented
 
         if not isinstance(A, Mv):
+            if not _is_scalar_operand(A):
+                return NotImplemented
             return Mv(A * self.obj, ga=self.Ga)
 
         if self.Ga != A.Ga:
@@ -808,6 +821,8 @@ class Mv(printer.GaPrintable):
         if isinstance(A, dop._BaseDop):
             return NotImplemented
         assert not isinstance(A, Mv)
+        if not _is_scalar_operand(A):
+            return NotImplemented
         return Mv(A * self.obj, ga=self.Ga)
 
     def __or__(self, A):  # dot (|) product
@@ -815,7 +830,7 @@ class Mv(printer.GaPrintable):
             return NotImplemented
 
         if not isinstance(A, Mv):
-            if not isinstance(A, (Expr, numbers.Number)):
+            if not _is_scalar_operand(A):
                 return NotImplemented
             return Mv(ga=self.Ga)
 
@@ -830,7 +845,7 @@ class Mv(printer.GaPrintable):
         if isinstance(A, dop._BaseDop):
             return NotImplemented
         assert not isinstance(A, Mv)
-        if not isinstance(A, (Expr, numbers.Number)):
+        if not _is_scalar_operand(A):
             return NotImplemented
         return Mv(ga=self.Ga)
 
@@ -869,6 +884,8 @@ class Mv(printer.GaPrintable):
             )
 
         if not isinstance(A, Mv):  # sympy scalar
+            if not _is_scalar_operand(A):
+                return NotImplemented
             return Mv(A * self.scalar(), ga=self.Ga)
 
         if self.Ga != A.Ga:
@@ -889,6 +906,8 @@ class Mv(printer.GaPrintable):
             )
 
         if not isinstance(A, Mv):  # sympy scalar
+            if not _is_scalar_operand(A):
+                return NotImplemented
             return Mv(A * self.obj, ga=self.Ga)
 
         if self.Ga != A.Ga:
@@ -1825,6 +1844,7 @@ class Dop(dop._BaseDop):
 
                 if isinstance(dopr, Mv) and dopl.Ga != dopr.Ga:
                     raise ValueError('In Dop.Mul Dop arguments are not from same geometric algebra')
+                dopr = Mv(dopr, ga=dopl.Ga)
                 ga = dopl.Ga
 
                 if not dopl.cmpflg:  # dopl operates on right argument
@@ -1847,8 +1867,9 @@ class Dop(dop._BaseDop):
     def __truediv__(self, dopr):
         if isinstance(dopr, (Dop, Mv)):
             raise TypeError('In Dop.__truediv__ dopr must be a sympy scalar.')
+        inverse = S.One / dopr
         return Dop([
-            (coef / dopr, pdiff) for coef, pdiff in self.terms
+            (coef * inverse, pdiff) for coef, pdiff in self.terms
         ], ga=self.Ga, cmpflg=self.cmpflg)
 
     def __mul__(self, dopr):  # * geometric product
-- 
2.43.0


From d8983a63d6e45bda9cf91b0db683c61b45d07c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 46/53] fix: tex() conserves printed text once, and Format()
 can start another document

---
 galgebra/printer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/galgebra/printer.py b/galgebra/printer.py
index 963e100..505589a 100644
--- a/galgebra/printer.py
+++ b/galgebra/printer.py
@@ -515,6 +515,9 @@ class GaLatexPrinter(LatexPrinter):
 
     @staticmethod
     def restore():
+        global Format_cnt
+        # the next call of Format redirects again
+        Format_cnt = 0
         if GaLatexPrinter.latex_flg:
             if not GaLatexPrinter.ipy:
                 GaLatexPrinter.latex_str += sys.stdout.getvalue()
@@ -900,9 +903,9 @@ def tex(paper=(14, 11), debug=False, prog=False, pt='10pt'):
     at the beginning of the program.
     """
 
-    latex_str = GaLatexPrinter.latex_str + sys.stdout.getvalue()
-    GaLatexPrinter.latex_str = ''
     GaLatexPrinter.restore()
+    latex_str = GaLatexPrinter.latex_str
+    GaLatexPrinter.latex_str = ''
     r"""
     Each line in the latex_str is interpreted to be an equation or align
     environment.  If the line does not begin with '\begin{align*}' then
-- 
2.43.0


From faace13453f8d509cad459c9dcaa0b1d31db5853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 47/53] fix: gprint does not interpret % in its arguments

---
 galgebra/gprinter.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/galgebra/gprinter.py b/galgebra/gprinter.py
index d26aff6..e7ccea3 100644
--- a/galgebra/gprinter.py
+++ b/galgebra/gprinter.py
@@ -146,9 +146,7 @@ def gprint(*xargs):
     Print latex or text from python script or latex from Jupyter Notebook/Lab
 
     """
-    x = []
-    fstr = ''
-    new_eq_flg = False
+    lstr = ''
     i = 0
     for xi in xargs:
         if isinstance(xi, str):
@@ -157,30 +155,24 @@ def gprint(*xargs):
                     xi_rep = xi.replace(r'\\', r'\end{equation*}@\begin{equation*} ')
                 else:
                     xi_rep = xi.replace(r'\\', r'\end{equation*}'+'\n'+r'\begin{equation*} ')
-                new_eq_flg = True
-                fstr += xi_rep
+                lstr += xi_rep
             else:
-                fstr += xi
+                lstr += xi
         elif isinstance(xi, type):
             if LaTeX.latex_flg:
-                fstr += r' \text{'+str(xi)+'} '
+                lstr += r' \text{'+str(xi)+'} '
             else:
-                fstr += str(xi)
+                lstr += str(xi)
         else:
             if LaTeX.latex_flg:
-                x.append(latex(xi))
-                if new_eq_flg:
-                    new_eq_flg = False
-                fstr += r' %s '
+                lstr += ' ' + latex(xi) + ' '
             else:
-                x.append(str(xi))
-                fstr += r' %s '
+                lstr += ' ' + str(xi) + ' '
 
         i += 1
 
     if LaTeX.latex_flg:
         if isinteractive():
-            lstr = fstr % tuple(x)
             if '@' in lstr:
                 lines = lstr.split('@')
                 lines[0] = r'\begin{equation*} '+lines[0]
@@ -190,9 +182,9 @@ def gprint(*xargs):
             else:
                 display(Math(lstr))
         else:
-            LaTeX.latex_str += r'\begin{equation*} ' + (fstr % tuple(x)) + r'\end{equation*} '+'\n'
+            LaTeX.latex_str += r'\begin{equation*} ' + lstr + r'\end{equation*} '+'\n'
     else:
-        print(fstr % tuple(x))
+        print(lstr)
 
     return
 
-- 
2.43.0


From 3631fc3bfb7e6ad696f04638ca70abae75f4b5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:15 +0000
Subject: [PATCH 48/53] fix: inv simplifies a square before rejecting the
 operand

---
 galgebra/mv.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 92dc62f..61fcb95 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1466,6 +1466,13 @@ class Mv(printer.GaPrintable):
                 raise ValueError('!!!!In multivector inverse A*A.rev() is zero!!!!')
             """
             return (S.One/self_self_rev.obj) * self_rev
+        # the other grades may vanish only after simplification
+        self_sq = self_sq.simplify()
+        if self_sq.is_scalar():
+            return (S.One/self_sq.obj)*self
+        self_self_rev = self_self_rev.simplify()
+        if self_self_rev.is_scalar():
+            return (S.One/self_self_rev.obj) * self_rev
         raise TypeError('In inv() for self =' + str(self) + 'self, or self*self or self*self.rev() is not a scalar')
 
     def shirokov_inverse(self) -> 'Mv':
-- 
2.43.0


From 9423f2e06dee641b01e7583561643710720daa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 49/53] fix: do not recurse without end when debugging a
 non-orthogonal basis

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index d2b714e..d9243fa 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1553,7 +1553,7 @@ class Ga(metric.Metric):
                 base_expansion_dict[base] = expand(tmp)
 
         if self.debug:
-            print('base_expansion_dict =', self.base_expansion_dict)
+            print('base_expansion_dict =', base_expansion_dict)
 
         return base_expansion_dict
 
-- 
2.43.0


From 6e22fc1f3aa6a8101851ccbca86b9fdeb550c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:36 +0000
Subject: [PATCH 50/53] fix: expand in Ga.remove_scalar_part before looking for
 scalar terms

---
 galgebra/ga.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/ga.py b/galgebra/ga.py
index d9243fa..c47106d 100644
--- a/galgebra/ga.py
+++ b/galgebra/ga.py
@@ -1722,8 +1722,8 @@ class Ga(metric.Metric):
         if isinstance(A, mv.Mv):
             return self.remove_scalar_part(A.obj)
         else:
+            A = expand(A)
             if isinstance(A, Add):
-                A = expand(A)
                 return sum([x for x in A.args if not x.is_commutative])
             elif isinstance(A, Symbol):
                 if A.is_commutative:
-- 
2.43.0


From cfbf703a2862bebc840fa3f385eac17c01167a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:23 +0000
Subject: [PATCH 51/53] fix: inverse of an orthogonal metric from Metric.g_inv

g is a matrix and cannot be called, so that Metric(...).g_inv and the
Christoffel symbols of the second kind of an orthogonal Metric raised
TypeError.
---
 galgebra/metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/metric.py b/galgebra/metric.py
index ba268e9..7ef6076 100644
--- a/galgebra/metric.py
+++ b/galgebra/metric.py
@@ -533,7 +533,7 @@ class Metric(object):
         if self.is_ortho:  # Orthogonal metric
             g_inv = eye(self.n)
             for i in range(self.n):
-                g_inv[i, i] = S.One/self.g(i, i)
+                g_inv[i, i] = S.One/self.g[i, i]
             return g_inv
         elif self.gsym is None:
             return simplify(self.g.inv())
-- 
2.43.0


From 4aec9845519c7e3282d6d31b5131b3ec059185da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:15 +0000
Subject: [PATCH 52/53] fix: derivative with a zero count in Pdop printed and
 compared as a derivative

---
 galgebra/dop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/galgebra/dop.py b/galgebra/dop.py
index 19f3226..17702c2 100644
--- a/galgebra/dop.py
+++ b/galgebra/dop.py
@@ -325,7 +325,8 @@ class Pdop(_BaseDop):
             __arg = {}
 
         if isinstance(__arg, dict):  # Pdop defined by dictionary
-            self.pdiffs = __arg
+            # a zero count is no derivative, and is not part of the operator
+            self.pdiffs = {x: n for x, n in __arg.items() if n != 0}
         elif isinstance(__arg, Symbol):  # First order derivative with respect to symbol
             self.pdiffs = {__arg: 1}
         else:
-- 
2.43.0


From 76a4790999e432283d9bfeee88b08672dfc98206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:24 +0000
Subject: [PATCH 53/53] fix: set_coef on the base representation in an
 orthogonal algebra

---
 galgebra/mv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/galgebra/mv.py b/galgebra/mv.py
index 61fcb95..4b303ec 100644
--- a/galgebra/mv.py
+++ b/galgebra/mv.py
@@ -1314,7 +1314,7 @@ class Mv(printer.GaPrintable):
             raise ValueError('"' + str(self) + '**2" is not a scalar in exp.')
 
     def set_coef(self, igrade: int, ibase: int, value: Expr) -> None:
-        if self.is_blade_rep:
+        if self.is_blade_rep or self.Ga.is_ortho:  # the same thing if the basis is orthogonal
             base = self.Ga.blades[igrade][ibase]
         else:
             base = self.Ga.bases[igrade][ibase]
-- 
2.43.0

