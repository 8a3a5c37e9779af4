From 45bdad59f53f7afd91c450d90c5526e7982cb675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 01/35] fix: compare symbolic terms by equality, not identity

The reduction of E[D^a eps D^b eps] terms and the selection of the spatial
coordinates relied on object identity, which only holds while sympy's LRU
cache still holds the objects: derived systems depended on the cache state.
---
 src/sympkf/symbolic/pkfcas.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 91635e2..477c14d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -870,12 +870,12 @@ class UnivariateTerm(object):
 
             if len(derivatives) == 1: # E[eps D^beta eps] or E[(D^alpha eps)**2] or E[(D^alpha eps)**k] k>2
                 derivative = derivatives.pop()
-                if term is Expectation(function * derivative): # E[eps D^beta eps]
+                if term == Expectation(function * derivative): # E[eps D^beta eps]
                     alpha = 0
                     beta = derivative.args[1:]
                     degree = derivative.derivative_count
                     return cls(term, function, alpha, beta, degree)
-                elif term is Expectation(derivative*derivative): #E[(D^alpha eps)**2]
+                elif term == Expectation(derivative*derivative): #E[(D^alpha eps)**2]
                     alpha = derivative.args[1:]
                     beta = derivative.args[1:]
                     degree = 2*derivative.derivative_count
@@ -885,7 +885,7 @@ class UnivariateTerm(object):
                     return None
 
             elif len(derivatives) == 2:
-                if term is Expectation(Mul(*derivatives)):
+                if term == Expectation(Mul(*derivatives)):
                     # -1- Compute the total degree
                     degree = 0
                     for derivative in derivatives:
@@ -923,7 +923,7 @@ class Field(object):
         self.code = clean_latex_name(field.func)
 
         self.coordinates = field.args
-        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord is not time_symbol])
+        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord != time_symbol])
 
         self.coords_code = tuple(clean_latex_name(coord) for coord in self.coordinates)
         self.spatial_coords_code = tuple(clean_latex_name(coord) for coord in self.spatial_coordinates)
-- 
2.43.0


From d06df17bf1cdfcc9d30154884cf549ae2689726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 02/35] fix: reduce the expectations of the mean equations with
 the metric

The terms E[D^a eps D^b eps] of the mean dynamics (e.g. E[(D eps)^2], the
metric) were left as unclosed terms; and do not modify the dict iterated on.
---
 src/sympkf/symbolic/pkfcas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 477c14d..351ebae 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -166,7 +166,7 @@ class SymbolicPKF(object):
                 # 2) Substitute error in Variance/Corrélation
                 equation = equation.subs(subs_error).doit().expand()
                 # 3) Apply internal closure
-                equation = equation.subs(self.internal_closure).doit()
+                equation = self._apply_internal_closure(equation).doit()
 
                 expectation_system.append(equation)
 
@@ -799,7 +799,7 @@ class SymbolicPKF(object):
         univariates = self.check_univariate(rhs)
 
         # -2- Retain epsilon's that are in self.fields !!
-        for epsilon in univariates:
+        for epsilon in list(univariates):
             if epsilon not in epsilon_to_mfields:
                 univariates.pop(epsilon)
 
-- 
2.43.0


From d0aede1e1f397225c0cbe1a73e0780ae7de95e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 03/35] fix: do not take the user's \varepsilon for the
 expansion parameter

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 351ebae..29629ec 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -86,7 +86,7 @@ class SymbolicPKF(object):
         first_order_reynolds = []
         second_order_reynolds = []
 
-        epsilon = symbols('\\varepsilon')
+        epsilon = sympy.Dummy('\\varepsilon')
         subs_reynolds = {            
             field: Expectation(self.fields[field].random) + epsilon * self.fields[field].error            
             for field in self.fields
-- 
2.43.0


From 7400f44a40b271880c0f916e01856f4ee65159d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 04/35] fix: include the cross-covariances in the system in
 diffusion

---
 src/sympkf/symbolic/pkfcas.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 29629ec..fcfe792 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -508,7 +508,11 @@ class SymbolicPKF(object):
 
             #  2. Migration of expectation and variance systems
             diffusion_system = []
-            for system in [self.expectation_system, self.variance_system]:
+            for system in [self.expectation_system, self.variance_system, self.cross_covariance_system]:
+
+                if system is None: # to handle the multivariate situation: None is for univariate
+                    continue
+
                 # -1- apply external closure
                 system = self._apply_closure(system)
                 # -2- switch from metric to diffusion
-- 
2.43.0


From d2aa4024756bdd58bee9f585f9360f5d20309dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 05/35] fix: evaluate derivatives in the systems in aspect and
 in diffusion

Derivatives of 1/s or nu^-1 were left unevaluated in the mean, variance and
covariance equations, which the code generation cannot discretise.
---
 src/sympkf/symbolic/pkfcas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index fcfe792..152406b 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -517,7 +517,7 @@ class SymbolicPKF(object):
                 system = self._apply_closure(system)
                 # -2- switch from metric to diffusion
                 for equation in system:
-                    equation = equation.subs(metric_to_diffusion)
+                    equation = equation.subs(metric_to_diffusion).doit()
                     diffusion_system.append(equation)
 
             # 3. Computation of the system at a symbolic level
@@ -614,7 +614,7 @@ class SymbolicPKF(object):
                 system = self._apply_closure(system)
                 # -2- switch from metric to diffusion
                 for equation in system:
-                    equation = equation.subs(metric_to_aspect)
+                    equation = equation.subs(metric_to_aspect).doit()
                     aspect_system.append(equation)
 
             # 3. Computation of the system at a symbolic level
-- 
2.43.0


From 0d7f7e764518a31fc8724eb075b524a1de3aac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 06/35] fix: do not modify the closure dictionary of the user

set_closure updated in place the dictionary given at construction, which
could be shared with the caller or with another SymbolicPKF.
---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 152406b..ee54a42 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -72,7 +72,7 @@ class SymbolicPKF(object):
         self._internal_closure = None
 
         # external closure
-        self._closure = {} if closure is None else closure
+        self._closure = {} if closure is None else dict(closure)
 
         # Introduce or modify labels for error/normalized error/variance/cross-covariance
         self._label_covariance = "V_"
-- 
2.43.0


From 5aeb24841e6f691671a47f9b7495138e858e1987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 07/35] fix: keep all the variables of derivatives and
 integrals in Expectation

Expectation(Derivative(X, x, y)) was Derivative(Expectation(X), x).
---
 src/sympkf/symbolic/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 958d818..f66478d 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -102,10 +102,10 @@ class Expectation(Function):
                 return cls(arg, evaluate=False)
         # Commutativité par rapport aux opérateurs de dérivations time/space
         elif isinstance(arg, Derivative):
-            return Derivative(cls(arg.args[0]), arg.args[1])
+            return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
         elif isinstance(arg, Integral):
-            return Integral(cls(arg.args[0]), arg.args[1])
+            return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
         #
-- 
2.43.0


From 6581da401cff0664c3aca41a9077a919117a838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:16 +0000
Subject: [PATCH 08/35] fix: apply Expectation to both members of a sympy.Eq

Only the package's own subclass was recognised: the expectation of a plain
sympy equation was left as the expectation of a relational.
---
 src/sympkf/symbolic/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index f66478d..431aaa5 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -110,7 +110,7 @@ class Expectation(Function):
         # Apply to particular structure
         #
         # -- Eq
-        elif isinstance(arg, Eq):
+        elif isinstance(arg, sympy.Eq):
             lhs, rhs = arg.args
             #return Eq(cls(lhs), cls(rhs))
             return arg.__class__(cls(lhs), cls(rhs))
-- 
2.43.0


From b33d9a253fd4bf4fee40820a6f76e718422cdf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 09/35] fix: write internal derivatives with their variables in
 canonical order

---
 src/sympkf/symbolic/pkfcas.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index ee54a42..9a5c9c4 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -908,14 +908,14 @@ class UnivariateTerm(object):
 
 
 def gamma_def(epsilon, k, i, j):    
-    return Expectation(Derivative(epsilon, k) * Derivative(epsilon, i, j))
+    return Expectation(Derivative(epsilon, k) * Derivative(epsilon, i, j, evaluate=True))
 
 def gamma_subs(metric, k, i, j):
     return Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
                               - Derivative(metric(i, j), k))
 
 def skewness_def(epsilon, k, i, j):
-    return Expectation(epsilon * Derivative(epsilon, k, i, j))
+    return Expectation(epsilon * Derivative(epsilon, k, i, j, evaluate=True))
 
 def skewness_subs(metric, k, i, j):
     return -Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
@@ -1010,7 +1010,8 @@ class Field(object):
         return Function('{g_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(*self.coordinates)
 
     def metric_definition(self,i,j):
-        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]))
+        # evaluate=True sets the variables of the derivative in the canonical order
+        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j], evaluate=True))
 
     def nu_func(self,i,j):
         return Function('{\\nu_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(
@@ -1250,7 +1251,8 @@ class UnivariateTree(object):
                 for beta in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, beta_degree):
 
                     # term = Expectation(Derivative(self.epsilon, *alpha) * Derivative(self.epsilon, *beta))
-                    term = Derivative(self.epsilon, *alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples)
+                    # evaluate=True sets the variables of the derivatives in the canonical order
+                    term = Derivative(self.epsilon, *alpha.as_couples, evaluate=True) * Derivative(self.epsilon, *beta.as_couples, evaluate=True)
                     term = Expectation(term)
 
                     lhs = Derivative(Derivative(self.epsilon, *sub_alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples), alpha.as_sequence[0])
@@ -1395,7 +1397,7 @@ class Closure(object):
                         coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
-                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples, evaluate=True))
                     closure[term] = Integer(factorial) * coeff_alpha
                 self._closure_by_order[partial_order] = closure
 
@@ -1420,7 +1422,7 @@ class Closure(object):
         system_s_to_g = []
         for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, second_order):
             # -1- get term
-            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples, evaluate=True))
             # -2- Eliminate derivatives
             subs_term = subs_closure_by_order[second_order][term]
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
-- 
2.43.0


From a226ed63642668f1d58ce0b88d9ce9d9c53128cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:43 +0000
Subject: [PATCH 10/35] fix: recognize the step of coordinates whose name
 starts with d

---
 src/sympkf/symbolic/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index d918053..38e1d03 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -394,7 +394,7 @@ def get_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
@@ -436,7 +436,7 @@ def get_function_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-- 
2.43.0


From 9e5e5d3d1200f993dde9d41fff8febe6f759102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 11/35] fix: generate the code of finite differences without
 replacing text

---
 src/sympkf/symbolic/finite_difference.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index e38ebe2..bea97ed 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -349,28 +349,21 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :param slice_coding_rule:
     :return:
     """
-    from sympy import Function
+    from sympy import Function, Symbol
 
-
-    code = str(finite)
-
-
-    loc_x_dx = []
+    # Each function and each dx is replaced by a symbol named with its code: a replacement in the text of the
+    # expression could alter names, or codes already set.
+    subs_code = {}
 
     # -1- Replace functions
     for function in finite.atoms(Function):
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
-            if (xi,dxi) not in loc_x_dx:
-                loc_x_dx.append((xi,dxi))
-        code = code.replace(str(function), code_regular_function(function, slice_coding_rule))
+            # -2- Replace dx's
+            subs_code[dxi] = Symbol(dx_coding_rule(xi))
+        subs_code[function] = Symbol(code_regular_function(function, slice_coding_rule))
 
-    # -2- Replace dx's
-    for x_dx in loc_x_dx:
-        xi, dxi = x_dx
-        code = code.replace(str(dxi), dx_coding_rule(xi))
-
-    return code
+    return str(finite.xreplace(subs_code))
 
 
 class Code(object):
-- 
2.43.0


From 495828983f27cd9969e0cf219e26f9bb34b6b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:47 +0000
Subject: [PATCH 12/35] fix: use the clean names of coordinates in the
 generated code

---
 src/sympkf/symbolic/finite_difference.py | 7 ++++---
 src/sympkf/symbolic/model_builder.py     | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index bea97ed..7406f15 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -329,7 +329,7 @@ def code_regular_function(function, slice_coding_rule):
         for k, step in enumerate(displacement):
             assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-            code += slice_coding_rule(f"'{x[k]}'", step) + ','
+            code += slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
         # Suffix for closing array
         code = code[:-1]
@@ -350,6 +350,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :return:
     """
     from sympy import Function, Symbol
+    from .tool import clean_latex_name
 
     # Each function and each dx is replaced by a symbol named with its code: a replacement in the text of the
     # expression could alter names, or codes already set.
@@ -360,7 +361,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
             # -2- Replace dx's
-            subs_code[dxi] = Symbol(dx_coding_rule(xi))
+            subs_code[dxi] = Symbol(dx_coding_rule(clean_latex_name(xi)))
         subs_code[function] = Symbol(code_regular_function(function, slice_coding_rule))
 
     return str(finite.xreplace(subs_code))
@@ -443,7 +444,7 @@ class Code(object):
             for k, step in enumerate(displacement):
                 assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-                code += self.slice_coding_rule(f"'{x[k]}'", step) + ','
+                code += self.slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
             # Suffix for closing array
             code = code[:-1]
diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 12d1f93..de52227 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -43,13 +43,13 @@ class MetaDerivative(object):
         self.as_code = self._set_as_code()
 
     def _set_as_keyvar(self):
-        keyvar = "_".join(f'{coordinate}_o{partial_order}'
+        keyvar = "_".join(f'{clean_latex_name(coordinate)}_o{partial_order}'
                           for coordinate, partial_order in self._partial_orders.items())
         keyvar = 'D' + self.function.as_keyvar + '_' + keyvar
         return keyvar
 
     def _set_as_partial_orders(self):
-        return ",".join(f"'{coordinate}',{partial_order}"
+        return ",".join(f"'{clean_latex_name(coordinate)}',{partial_order}"
                         for coordinate, partial_order in self._partial_orders.items())
 
     def _set_as_str(self):
-- 
2.43.0


From 906e3543221bf7d848762b71fd8c258a255be51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:17 +0000
Subject: [PATCH 13/35] fix: do not take known functions for exogenous
 functions

---
 src/sympkf/symbolic/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 38e1d03..5c74d60 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -5,6 +5,7 @@
 from sympy import Derivative, Function, Symbol, symbols, Add
 from .tool import clean_latex_name
 import sympy
+from sympy.core.function import AppliedUndef
 
 from .constants import t as time_coordinate
 
@@ -241,7 +242,8 @@ class PDESystem(object):
         functions = set()
 
         for equation in self.equations:
-            functions.update(equation.atoms(Function))
+            # only functions of the system: known functions (sin, exp, ..) are part of the expressions
+            functions.update(equation.atoms(AppliedUndef))
 
         return functions
 
-- 
2.43.0


From 4b9ad5cffd5e89cefd0dafdb613293b348ded39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 14/35] fix: generate known functions with numpy

---
 src/sympkf/symbolic/model_builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index de52227..f0f1e06 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -1,4 +1,5 @@
 from sympy import Eq
+from sympy.printing.numpy import NumPyPrinter
 from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionSymbol, ScalarSymbol
 
 from jinja2 import Template
@@ -273,7 +274,9 @@ class ModelBuilder(object):
             function = lhs.args[0]
             lhs = subs_trend[function]
             # 3. implement the code line: set the lhs **np.array** from the rhs
-            code_line = str(lhs)+'[:] = '+str(rhs)
+            #    known functions (sin, exp, sqrt, ..) are those of numpy, imported as np in the generated code
+            rhs = NumPyPrinter().doprint(rhs).replace('numpy.', 'np.')
+            code_line = str(lhs)+'[:] = '+rhs
             # 4. Add to code.
             trend_code.append(code_line)
 
-- 
2.43.0


From 85afc2aa828f8335e15d90127f33258d202f1f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:05 +0000
Subject: [PATCH 15/35] fix: evaluate the derivatives of expressions before
 generating code

---
 src/sympkf/symbolic/model_builder.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index f0f1e06..bb80a29 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -123,6 +123,10 @@ class ModelBuilder(object):
         if not isinstance(pde_system, PDESystem):
             pde_system = PDESystem(pde_system)
 
+        # Evaluate derivatives of products, powers, .. so that the only derivatives are those of functions
+        pde_system = PDESystem([Eq(equation.args[0], equation.args[1].doit()) for equation in pde_system],
+                               name=pde_system.name)
+
         self.pde_system = pde_system
 
         if class_name is None:
-- 
2.43.0


From e6c48d39b3046eb34e27a981e949b0d392f576a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:14 +0000
Subject: [PATCH 16/35] fix: generate the same code in every process

---
 src/sympkf/symbolic/model_builder.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index bb80a29..18a843a 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -149,11 +149,13 @@ class ModelBuilder(object):
         self._trend_code = None
         self._code = None
 
+    # The sets of the PDE system are sorted so that the generated code is the same in every process
+
     @property
     def functions(self):
         if self._functions is None:
             self._functions = [MetaFunction(function, index)
-                               for index, function in enumerate(self.pde_system.functions)]
+                               for index, function in enumerate(sorted(self.pde_system.functions, key=str))]
         return self._functions
 
     @property
@@ -198,27 +200,27 @@ class ModelBuilder(object):
     def constant_functions(self):
         if self._constant_functions is None:
             self._constant_functions = [self._create_meta_function(function, index)
-                                        for index, function in enumerate(self.pde_system.constant_functions)]
+                                        for index, function in enumerate(sorted(self.pde_system.constant_functions, key=str))]
         return self._constant_functions
 
     @property
     def exogenous_functions(self):
         if self._exogenous_functions is None:
             self._exogenous_functions = [self._create_meta_function(function, index)
-                                        for index, function in enumerate(self.pde_system.exogenous_functions)]
+                                        for index, function in enumerate(sorted(self.pde_system.exogenous_functions, key=str))]
         return self._exogenous_functions
 
     @property
     def constants(self):
         if self._constants is None:
-            self._constants = [self._create_meta_constant(constant) for constant in self.pde_system.constants]
+            self._constants = [self._create_meta_constant(constant) for constant in sorted(self.pde_system.constants, key=str)]
         return self._constants
 
     @property
     def spatial_derivatives(self):
         if self._spatial_derivatives is None:
             self._spatial_derivatives = [self._create_meta_derivative(derivative)
-                                         for derivative in self.pde_system.spatial_derivatives]
+                                         for derivative in sorted(self.pde_system.spatial_derivatives, key=str)]
         return self._spatial_derivatives
 
     @property
-- 
2.43.0


From c2cc5c073fa0cce4840475e62fa3dbb148ca30bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 17/35] fix: mesh arrays of generated models have the layout of
 the state

---
 src/sympkf/symbolic/templates/body_FDModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_FDModelBuilder.py b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
index 84032f2..1b8d6b9 100644
--- a/src/sympkf/symbolic/templates/body_FDModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
@@ -30,7 +30,7 @@ template = '''
         #-------------
         self.dx = tuple(length/shape for length, shape in zip(self.lengths, self.shape))
         self.x = tuple(self.index(coord,0)*dx for coord, dx in zip(self.coordinates, self.dx))
-        self.X = np.meshgrid(*self.x)
+        self.X = np.meshgrid(*self.x, indexing='ij') # same layout as the state
 
         {% if constant_functions_flag %}
         #-----------------------
-- 
2.43.0


From 22ca25a9e4592472562d2908ee68c41759d67350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:35 +0000
Subject: [PATCH 18/35] fix: pass the time scheme to models on a manifold

---
 src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
index 18672ce..976b27d 100644
--- a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
@@ -1,7 +1,7 @@
 template='''
     def __init__(self, base_space, **kwargs):
 
-        super().__init__() # Time scheme is set from Model.__init__()
+        super().__init__(**kwargs) # Time scheme is set from Model.__init__()
 
         # Set base space (manifold)
         #------------------------------
-- 
2.43.0


From 120e678f9bc8ecbdde51511a2cf2a5328f80233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:43 +0000
Subject: [PATCH 19/35] fix: python keywords are not variable names

---
 src/sympkf/symbolic/tool.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index 758cfbc..9f4b471 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -1,3 +1,5 @@
+from keyword import iskeyword
+
 def clean_latex_name(label):
     """ Convert possible latex expression into valid variable name """
 
@@ -17,4 +19,8 @@ def clean_latex_name(label):
     # -4- Replace ',' by '_'
     label = label.replace(',','_')
 
+    # -5- Python keywords (e.g. lambda) are not valid variable names
+    if iskeyword(label):
+        label += '_'
+
     return label
-- 
2.43.0


From a300f9900f6dcbe29ecb0b2e55c753f5bbeeb175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 20/35] fix: latex of powers of an Expectation

---
 src/sympkf/symbolic/random.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 431aaa5..16dc9b0 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -150,7 +150,7 @@ class Expectation(Function):
         pattern = [elm  for elm in pattern if not elm == omega]        
         return self.args[0].has(*pattern)
 
-    def _latex(self, printer):
+    def _latex(self, printer, exp=None):
         """
         Make the latex printing with standard \\mathbb E notation.
         :param printer:
@@ -167,7 +167,9 @@ class Expectation(Function):
             '\\mathbb E\\left(X{\\left(\\omega \\right)}\\right)'
 
         """
-        return self._latex_name+ r"\left(%s\right)" % printer._print(self.args[0])
+        tex = self._latex_name+ r"\left(%s\right)" % printer._print(self.args[0])
+        # exp is set by the printer for a power of the expectation
+        return tex if exp is None else r"%s^{%s}" % (tex, exp)
 
 
 class IncoherentEquality(Exception): pass
-- 
2.43.0


From 5853a27e54d18981a07ce36718117de447749dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 21/35] fix: build the model of the ready-made Burgers dynamics

---
 src/sympkf/dynamics/burgers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/dynamics/burgers.py b/src/sympkf/dynamics/burgers.py
index 97c0d67..40a4956 100644
--- a/src/sympkf/dynamics/burgers.py
+++ b/src/sympkf/dynamics/burgers.py
@@ -28,7 +28,6 @@ class Burgers(object):
     closed_pkf.set_closure({unclosed_term:p18_closure['aspect']})
 
     def __init__(self, n=241):
-        def factory():
-            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code)
-            return ClosedPKFBurgers
-        self.model = factory()(shape=(n,))
+        namespace = {}
+        exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code, namespace)
+        self.model = namespace['ClosedPKFBurgers'](shape=(n,))
-- 
2.43.0


From 7f5f70adb016ce8433e104703ac26bf983d675f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:47 +0000
Subject: [PATCH 22/35] fix: closures do not depend on the orders asked before,
 nor on the dimension

---
 src/sympkf/symbolic/pkfcas.py | 65 ++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 36 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 9a5c9c4..547abe0 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1304,8 +1304,7 @@ class Closure(object):
         self.metric = mfield.metric
         self.diffusion = mfield.diffusion
         self.aspect = mfield.aspect
-        self._order = 0
-        self._taylor = None
+        self._taylor = {}  # Taylor expansions, by order
         self._in_metric = None
         self._in_diffusion = None
         self._in_aspect = None
@@ -1358,7 +1357,7 @@ class Closure(object):
 
     def taylor(self, order):
         """ Compute the Taylor expansion until degree 'order' """
-        if self._order < order:
+        if order not in self._taylor:
             px = self._x
             py = tuple([xi + dxi for xi, dxi in zip(self._x, self._dx)])
             taylor = self.correlation(px, py)
@@ -1366,10 +1365,9 @@ class Closure(object):
                 taylor = taylor.series(dxi, 0, order).removeO()
                 taylor = remove_eval_derivative(taylor)
 
-            self._taylor = taylor
-            self._order = order
+            self._taylor[order] = taylor
 
-        return self._taylor
+        return self._taylor[order]
 
     def closure_by_order(self, order):
         """
@@ -1378,33 +1376,31 @@ class Closure(object):
         :return: a
         """
         order = order + 1
-        if self._order < order:
-            # 1. Compute terms until order
-            factorial = 1
-            for partial_order in range(order):
+        for partial_order in range(order):
 
-                partial_order = int(partial_order)
-                closure = {}
-
-                if partial_order != 0:
-                    factorial *= partial_order
-
-                for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, partial_order):
-                    # -1- Extract taylor coefficient of dx^alpha
-                    coeff_alpha = self.taylor(order).expand()
-                    for xi, dxi in zip(self._x,self._dx):
-                        alpha_i = alpha.as_sequence.count(xi)
-                        coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
-
-                    # -2- Extract coefficient of dx^alpha in taylor expansion
-                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples, evaluate=True))
-                    closure[term] = Integer(factorial) * coeff_alpha
-                self._closure_by_order[partial_order] = closure
-
-            # 2. Update the order
-            self._order = order
+            partial_order = int(partial_order)
+            if partial_order in self._closure_by_order:
+                continue
 
-        return self._closure_by_order
+            closure = {}
+            for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, partial_order):
+                # -1- Extract taylor coefficient of dx^alpha
+                coeff_alpha = self.taylor(order).expand()
+                factorial_alpha = Integer(1)
+                for xi, dxi in zip(self._x,self._dx):
+                    alpha_i = alpha.as_sequence.count(xi)
+                    coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
+                    factorial_alpha *= sympy.factorial(alpha_i)
+
+                # -2- Extract coefficient of dx^alpha in taylor expansion
+                term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples, evaluate=True))
+                closure[term] = factorial_alpha * coeff_alpha
+            self._closure_by_order[partial_order] = closure
+
+        return {
+            partial_order: dict(self._closure_by_order[partial_order])
+            for partial_order in range(order)
+        }
 
     def closure(self, order):
         closure = {}
@@ -1428,10 +1424,7 @@ class Closure(object):
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
             subs_closure_by_order[second_order][term] = subs_term
             # -3-
-            if len(self.spatial_coordinates) > 1:
-                i, j = alpha.as_tuple[0], alpha.as_tuple[1]
-            else:
-                i, j = 0, 0
+            i, j = [self.spatial_coordinates.index(xi) for xi in alpha.as_sequence]
 
             g_dico[term] = -self.mfield.metric_func(i, j)
             s_dico[term] = self.mfield.aspect_func(i, j)
@@ -1470,7 +1463,7 @@ class LocGaussianClosure(Closure):
 
         if metric:
             gux = self.metric.subs(cpx)
-            dot_prod = dxy.T @ gux @ dxy
+            dot_prod = Rational(1 , 2) * dxy.T @ gux @ dxy
         else:
             sx = self.aspect.subs(cpx)
             dot_prod = dxy.T @ (Integer(2)*sx).inv() @ dxy
-- 
2.43.0


From cb36bac44b78310d863b147659021ccbe9f1a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:21 +0000
Subject: [PATCH 23/35] fix: multiply equations by the left as documented

---
 src/sympkf/symbolic/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 5c74d60..4e4c925 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -116,6 +116,9 @@ class Eq(sympy.Eq):
     def __mul__(self, alpha):
         return self.__class__(*[alpha * self.args[k] for k in range(2)])
 
+    def __rmul__(self, alpha):
+        return self * alpha
+
     def __imul__(self, alpha):
         if isinstance(alpha, Eq):
             return self.__class__(*[self.args[k] * alpha.args[k] for k in range(2)])
-- 
2.43.0


From 7b63ac4dee296a62370778d62f0c9b7a8d99e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:21 +0000
Subject: [PATCH 24/35] fix: equations can become identities

---
 src/sympkf/symbolic/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 4e4c925..6050b83 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -136,15 +136,15 @@ class Eq(sympy.Eq):
 
     def subs(self, *args, **hints):
         eq = super().subs(*args, **hints)
-        return self.__class__(*eq.args)
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def doit(self, *args, **hints):
         eq = super().doit(*args, **hints)
-        return self.__class__(*eq.args)
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def expand(self, *args, **hints):
         eq = super().expand(*args, **hints)
-        return self.__class__(*eq.args)
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def isolate(self, expr):
         """ Isolate an expression from an equation
-- 
2.43.0


From 464ee3800038689def7705c9bad74c829aaaddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:21 +0000
Subject: [PATCH 25/35] fix: columns of the propagator are the images of the
 basis

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index e6592b8..2e58d3b 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -314,7 +314,7 @@ class LinearModel(Model):
                 return out
             M = self.ensemble_forecast(window, [dirac(i) for i in range(self.n)], \
                                        saved_times)[window[-1]]
-            M = np.asarray(M)
+            M = np.asarray(M).T
         else:
             for i in range(self.n):
                 ei[i] = 1.
-- 
2.43.0


From a57a2ed1e22070be0647a5acad7fe9f03d948e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:59 +0000
Subject: [PATCH 26/35] fix: gradient and divergence of known functions of
 fields

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 6050b83..b652b97 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -590,7 +590,7 @@ class CoordinateSystem(object):
             return False
 
     def _check_compatible(self, expr):
-        for function in expr.atoms(Function):
+        for function in expr.atoms(AppliedUndef):
             if not self.is_compatible(function):
                 raise ValueError(f'field args {function.args} not compatible with coordinates {self._coords}')
 
-- 
2.43.0


From ff97e474f798657b7652c1a1ca6bd8c97033731d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 27/35] fix: the covariance of two fields does not depend on
 their order

---
 src/sympkf/symbolic/pkfcas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 547abe0..270594b 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -725,6 +725,8 @@ class SymbolicPKF(object):
     def get_covariance(self, f1, f2):
         if all([field in self.fields for field in [f1,f2]]):
             # 1. Get associated metafields
+            # .. the covariance of (f1,f2) is that of (f2,f1): select the order of the fields in the system
+            f1, f2 = sorted([f1, f2], key=list(self.fields).index)
             mf1 = self.fields[f1]
             mf2 = self.fields[f2]
 
-- 
2.43.0


From ebbda1e7836aee5882f1db835a3ba36728e3eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:04 +0000
Subject: [PATCH 28/35] fix: the field and the wind of the ready-made advection
 have their own names

---
 src/sympkf/symbolic/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/dynamics.py b/src/sympkf/symbolic/dynamics.py
index 6f00fa2..3e0a453 100644
--- a/src/sympkf/symbolic/dynamics.py
+++ b/src/sympkf/symbolic/dynamics.py
@@ -25,7 +25,7 @@ diffusion = PDESystem(
         )
 
 
-c = Function('u')(t,x)
+c = Function('c')(t,x)
 u = Function('u')(x)
 
 advection = PDESystem(
-- 
2.43.0


From e36281eec266d5099665600959df743afcacbce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:05 +0000
Subject: [PATCH 29/35] fix: names of variables contain no other character than
 those of identifiers

---
 src/sympkf/symbolic/tool.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index 9f4b471..27ba5b1 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -1,3 +1,4 @@
+import re
 from keyword import iskeyword
 
 def clean_latex_name(label):
@@ -19,7 +20,12 @@ def clean_latex_name(label):
     # -4- Replace ',' by '_'
     label = label.replace(',','_')
 
-    # -5- Python keywords (e.g. lambda) are not valid variable names
+    # -5- Replace the other characters that a variable name can not contain (space, prime, sign, ..), or start with
+    label = re.sub(r'\W', '_', label)
+    if label[:1].isdigit():
+        label = '_' + label
+
+    # -6- Python keywords (e.g. lambda) are not valid variable names
     if iskeyword(label):
         label += '_'
 
-- 
2.43.0


From bfd003fe3588643565ca981aa6662a63a598b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:14 +0000
Subject: [PATCH 30/35] fix: randomness of the bounds of integrals and of
 functions defined by pieces

israndom looks at every argument (bounds of Integral, Max, Piecewise...), and
the expectation goes through an integral only when its bounds are certain.
---
 src/sympkf/symbolic/random.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 16dc9b0..964c7c9 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -103,8 +103,8 @@ class Expectation(Function):
         # Commutativité par rapport aux opérateurs de dérivations time/space
         elif isinstance(arg, Derivative):
             return Derivative(cls(arg.args[0]), *arg.args[1:])
-        # Commutativité par rapport aux opérateurs de intégraux time/space
-        elif isinstance(arg, Integral):
+        # Commutativité par rapport aux opérateurs de intégraux time/space (the bounds being certain)
+        elif isinstance(arg, Integral) and not any(israndom(limit) for limit in arg.limits):
             return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
@@ -207,13 +207,14 @@ def israndom(arg, verbose=False):
     elif isinstance(arg, Symbol):
         lprint('israndom: Symbol')
         return arg == omega
-    elif isinstance(arg, (Derivative, Integral)):
+    elif isinstance(arg, Derivative):
         lprint(f'israndom: {type(arg)}')
         return israndom(arg.args[0], verbose=verbose)
-    elif isinstance(arg, (Mul, Add, Pow)):
-        lprint(f'israndom: {type(arg)}')
-        return any(israndom(elm, verbose=verbose) for elm in arg.args)
     elif isinstance(arg, (sympy.Matrix, sympy.ImmutableMatrix)):
         return any(israndom(elm, verbose=verbose) for elm in arg)
+    elif arg.args:
+        # Mul, Add, Pow, .. and also the bounds of an Integral, the arguments of Max, the pieces of Piecewise, ..
+        lprint(f'israndom: {type(arg)}')
+        return any(israndom(elm, verbose=verbose) for elm in arg.args)
     else:
         raise NotImplementedError
-- 
2.43.0


From fab87084d14a1b880345f4dc6e070cfd6697514c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 03:41:04 +0000
Subject: [PATCH 31/35] fix: trends of exogenous functions, time at any place
 among the arguments

The prognostic functions are those of the left-hand sides: the time derivative
of an exogenous function in a right-hand side does not make it prognostic.
---
 src/sympkf/symbolic/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index b652b97..e154cba 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -256,7 +256,8 @@ class PDESystem(object):
         prognostic_functions = []
 
         for equation in self.equations:
-            derivatives = equation.atoms(Derivative)
+            # time derivatives in the rhs are those of exogenous functions
+            derivatives = equation.args[0].atoms(Derivative)
             for derivative in derivatives:
                 coordinates = derivative.args[1].atoms(Symbol)
                 if self._time_symbol in coordinates:
@@ -270,8 +271,7 @@ class PDESystem(object):
         constant_functions = set()
 
         for variable in self.functions.difference(self.prognostic_functions):
-            coordinates = variable.args[0].atoms(Symbol)
-            if self._time_symbol not in coordinates:
+            if self._time_symbol not in variable.free_symbols:
                 constant_functions.update({variable})
 
         return constant_functions
-- 
2.43.0


From 9532f3a6c202e9c3c7c0178f699054733bb912e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:46 +0000
Subject: [PATCH 32/35] fix: the symbol of a cross-covariance is not that of
 another statistic

For the fields A, B and AB, V_AB was the name of the variance of AB and of the
covariance of A and B.
---
 src/sympkf/symbolic/pkfcas.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 270594b..8f898f9 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -740,7 +740,15 @@ class SymbolicPKF(object):
             assert cf1==cf2, ValueError("f1 and f2 have different coordinate system")
             coordinates = cf1
 
-            return Function(self._label_covariance+f1.name+f2.name)(*coordinates)
+            # 3. Set the label
+            # .. the names are separated when the label is that of another quantity: e.g. for the fields A, B and AB,
+            # V_AB is the variance of AB
+            label = f1.name+f2.name
+            labels = [field.name for field in self.fields] + [g1.name+g2.name for g1, g2 in self.multivariate_couples]
+            if [clean_latex_name(name) for name in labels].count(clean_latex_name(label)) > 1:
+                label = f1.name+','+f2.name
+
+            return Function(self._label_covariance+label)(*coordinates)
         else:
             raise ValueError("f1 or f2 are not prognostic fields")
 
-- 
2.43.0


From 2a35e9afa320fb5c2a1750c13be24da95fec5a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:01 +0000
Subject: [PATCH 33/35] fix: the trend of a field and another field have
 distinct names in the code

With the fields u and du, the trend of u was written in the state of du.
---
 src/sympkf/symbolic/model_builder.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 18a843a..0254537 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -194,6 +194,14 @@ class ModelBuilder(object):
             self._prognostic_functions = [self._create_meta_prognostic_function(function, index)
                                           for index, function in enumerate(self.pde_system.prognostic_functions)]
 
+            # The name of a trend is not that of another variable of the code: e.g. du is not the trend of u for the fields u and du
+            names = {function.as_keyvar for function in self.functions}
+            names.update([constant.as_keyvar for constant in self.constants] + ['dstate'])
+            for function in self._prognostic_functions:
+                while function.trend in names:
+                    function.trend = '_' + function.trend
+                names.add(function.trend)
+
         return self._prognostic_functions
 
     @property
-- 
2.43.0


From fb2ca3732510ab72ce9be1e91d2ca150a961d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:18 +0000
Subject: [PATCH 34/35] fix: the symbols of a discretised expression have valid
 names in its code

---
 src/sympkf/symbolic/finite_difference.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 7406f15..55c07a3 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -364,6 +364,10 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
             subs_code[dxi] = Symbol(dx_coding_rule(clean_latex_name(xi)))
         subs_code[function] = Symbol(code_regular_function(function, slice_coding_rule))
 
+    # -3- Replace the other symbols
+    for symbol in finite.free_symbols:
+        subs_code.setdefault(symbol, Symbol(clean_latex_name(symbol)))
+
     return str(finite.xreplace(subs_code))
 
 
-- 
2.43.0


From 5ed0e1e338a49db410d4242b100bf3f8c9b7e929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:18 +0000
Subject: [PATCH 35/35] fix: the code of a discretised expression keeps the
 known functions

---
 src/sympkf/symbolic/finite_difference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 55c07a3..b1d799e 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -349,7 +349,8 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :param slice_coding_rule:
     :return:
     """
-    from sympy import Function, Symbol
+    from sympy import Symbol
+    from sympy.core.function import AppliedUndef
     from .tool import clean_latex_name
 
     # Each function and each dx is replaced by a symbol named with its code: a replacement in the text of the
@@ -357,7 +358,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     subs_code = {}
 
     # -1- Replace functions
-    for function in finite.atoms(Function):
+    for function in finite.atoms(AppliedUndef):
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
             # -2- Replace dx's
-- 
2.43.0

