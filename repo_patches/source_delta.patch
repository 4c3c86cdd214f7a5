From d03bbdab54c091a8fdb5ab6859bed0397b4f8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:57 +0000
Subject: [PATCH 01/55] fix: partition the QZ factors by the modulus of the
 generalised eigenvalues

The split point was the first eigenvalue with eigs > 1, so negative or complex
explosive roots were counted as stable, and a model without any explosive root
got the split point -1.
---
 pynare/utils/numpy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index ecb49fb..14232b1 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -266,8 +266,9 @@ def partitioned_qz(
         # locally silence RuntimeWarnings about dividing by zero or infinity
         eigs = alph/bet
 
-    # explosive eigenvalues
-    expl = find_first((eigs > 1) | np.isinf(eigs))
+    # eigenvalues are ordered so the explosive ones (including infinite and undefined
+    #   ones) come last
+    expl = np.count_nonzero(np.absolute(eigs) <= 1)
 
     # unitary matrix first
     Z = np.transpose(Zt)
-- 
2.43.0


From 0316c76a7076fa1551a64d71191fd431f80f1746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 02/55] fix: size the empty backward block by the number of
 mixed variables

A model without purely backward variables got a (n, 1) block, which only fits
exactly one mixed variable (with none or several, the state space is wrong or
cannot be built).
---
 pynare/core/solve/statespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7e484d3..7732187 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -166,7 +166,7 @@ def _compute_structural_state_space(model: Model):
     # model might not have any backward variables
     A0m_tilde = A[-nd:, indexes.dr.pure_backward_timed[0]]
     if A0m_tilde.size == 0:
-        A0m_tilde = np.zeros((nd, 1))
+        A0m_tilde = np.zeros((nd, indexes.n_mixed))
 
     # set up the structural state space representation
     nm = indexes.n_mixed
-- 
2.43.0


From 1bd7043f7334693fbe256badc90b3db836c92e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 03/55] fix: check the Blanchard-Kahn conditions before solving

solve() never called StateSpace.verify, so an indeterminate or explosive model
failed inside numpy with a shape error or got meaningless policy functions; and
a second verify() of a rejected model passed silently.
---
 pynare/core/solve/first_order.py | 1 +
 pynare/core/solve/statespace.py  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 71f159e..154b453 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -76,6 +76,7 @@ def solve_first_order(
     """
     indexes = M.indexes
     state = M.statespace
+    state.verify()
 
     # retrieve state space matrices
     A, D, E = state.jacobian, state.lhs, state.rhs
diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7732187..892a249 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -46,7 +46,7 @@ class StateSpace(object):
         front-facing method for checking whether or not the BK conditions are met
         by this model specification
         """
-        if self.is_verified is None:
+        if not self.is_verified:
             self._run_verification()
         return None
 
-- 
2.43.0


From 57582b74490d7dfa35624a84edf5fe5b8a37d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 04/55] fix: count static variables, not their non-zero column
 indices

A static variable in Jacobian column 0 was not counted. Also pass the ranks to
the right parameters of ModelIdentificationError.
---
 pynare/core/solve/statespace.py | 2 +-
 pynare/core/variables.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 892a249..3251176 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -149,7 +149,7 @@ def _compute_structural_state_space(model: Model):
 
         # for model to be properly identified, rank(R) must equal number of static vars
         if _r != indexes.n_static:
-            raise ModelIdentificationError(_r, indexes.n_static)
+            raise ModelIdentificationError(n0=_r, n1=indexes.n_static)
 
         # rotated jacobian
         A = np.dot(np.transpose(Q), J)
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 9bef434..aead23f 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -591,7 +591,7 @@ class VariableIndexManager(object):
     @cached_property
     def n_static(self):
         llx = self.llx
-        return np.count_nonzero(llx[1, np.isnan(llx[0]) & np.isnan(llx[2])])
+        return np.count_nonzero(np.isnan(llx[0]) & np.isnan(llx[2]))
 
     @cached_property
     def n_forward(self):
-- 
2.43.0


From 2a84988ddf22278acc6ea18a49980c48e9394d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:34 +0000
Subject: [PATCH 05/55] fix: solving a model without shocks raised NameError

---
 pynare/core/solve/first_order.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 154b453..25bd78a 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -90,10 +90,7 @@ def solve_first_order(
     gys = solve_static_endo(A, indexes, gym, gyp)
     gy = np.vstack((gys, gyd))
 
-    if indexes.n_exog > 0:
-        fu = A[:, indexes.exogenous_jacobian]
-    else:
-        fu = J[:, indexes.exogenous_jacobian]
+    fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
     # remove any 1-dimensional axes
-- 
2.43.0


From 3ca45251c1f673ecd138d39eacf932a1c20db895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:24 +0000
Subject: [PATCH 06/55] fix: dated variables could collide with other variables

x(-1) and a variable named xm1 (or x(+1) and xp1) shared one name in the dynamic
functions, and x(+0) was read as x(-1).
---
 pynare/core/expressions.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 1d99f42..3e6424b 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -307,6 +307,17 @@ class SteadyFunc(base._BaseEvaluator):
 
 
 
+def dated_name(name: str, offset: int) -> str:
+    """
+    the name of a variable at a given period. model variables can not begin with an
+    underscore, so this never coincides with the name of another variable
+    """
+    if offset == 0:
+        return name
+    return f'_p1_{name}' if offset > 0 else f'_m1_{name}'
+
+
+
 def dynamic_func(
     node: AST,
     endo: tuple,
@@ -346,7 +357,7 @@ def dynamic_func(
     # `llx` has `len(endo)` columns by construction, so we make use of that
     #    to get the `endos` names in the correct order
     endo_suffix = np.array(
-        [[f'{v}{s}' for v in endo] for s in ('m1', '', 'p1')], dtype=object
+        [[dated_name(v, t) for v in endo] for t in (-1, 0, 1)], dtype=object
     )
     dyn_vars = list(endo_suffix[~np.isnan(llx)])
     dyn_vars.extend(exo) # `exo` in declaration order by construction
@@ -384,10 +395,7 @@ class DynamicFunc(base._BaseEvaluator):
         return self.dyn_vals[node.value]
 
     def visit_PeriodVar(self, node):
-        var_name = node.value
-        offset = node.period_offset
-        name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-        return self.dyn_vals[name_offset]
+        return self.dyn_vals[dated_name(node.value, node.period_offset)]
 
 
 
@@ -430,8 +438,8 @@ class _DynamicSubsitution(base._ASTSubstitution):
     so variable `x` will be added to `self.not_provided` as `x`. However,
     PeriodVars are altered in accordance with the naming scheme used in
     dynamic_func:
-        PeriodVar(name='x', period_offset=-1) -> 'xm1'
-        PeriodVar(name='y', period_offset=1)  -> 'ym1'
+        PeriodVar(name='x', period_offset=-1) -> '_m1_x'
+        PeriodVar(name='y', period_offset=1)  -> '_p1_y'
     """
 
     def __init__(
@@ -455,10 +463,9 @@ class _DynamicSubsitution(base._ASTSubstitution):
                 self.not_provided.add(var_name)
 
         elif isinstance(attribute, ast.PeriodVar):
-            var_name = attribute.value
-            offset = attribute.period_offset
-            name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-            self.not_provided.add(name_offset)
+            self.not_provided.add(
+                dated_name(attribute.value, attribute.period_offset)
+            )
 
 
 
-- 
2.43.0


From 64f85d6ba258a02ee573726e25531ebef9b6b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 07/55] fix: models with a variable named like a python keyword
 could not be built

---
 pynare/core/expressions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 3e6424b..0f387a4 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -8,6 +8,7 @@ from collections.abc import MutableSequence
 from functools import cached_property
 
 import inspect
+import keyword
 import functools
 import numpy as np
 
@@ -533,6 +534,9 @@ def ensure_parameter(
     # translates an iterable of strings into a tuple of inspect.Parameter
     #    of type `kind`
     param_kind = getattr(inspect.Parameter, kind)
+
+    # names of model variables can be python keywords, which aren't valid parameters
+    names = [f'_{n}' if keyword.iskeyword(n) else n for n in names]
     return tuple([inspect.Parameter(n, kind=param_kind) for n in names])
 
 
-- 
2.43.0


From 445dc84d811ebcb1975be17c31bf59a2becce63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:18 +0000
Subject: [PATCH 08/55] fix: refuse leads and lags beyond one period and
 variables that never appear

A lag of two periods was silently read as a lead and a lead of two periods
ignored; the check for variables that never appear failed on numpy arrays.
---
 pynare/core/variables.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index aead23f..f86cb9c 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -540,16 +540,18 @@ class VariableIndexManager(object):
         #    of endogenous variables at all periods
         llx = np.full((3, len(endog)), fill_value=np.nan)
         for idx, ll in enumerate(self.lead_lags.values()):
-            lead_lag = np.array(list(ll)) + 1
-            try:
-                llx[lead_lag, idx] = 1
-            except IndexError:
-                if not lead_lag:
-                    problem_endog = endog[idx]
-                    raise EndogIndexError(
-                        f"variable '{str(problem_endog)}' was declared as endog but "
-                        "was not seen at any time period"
-                    ) from None
+            problem_endog = endog[idx]
+            if not ll:
+                raise EndogIndexError(
+                    f"variable '{str(problem_endog)}' was declared as endog but "
+                    "was not seen at any time period"
+                )
+            if ll[0] < -1 or ll[-1] > 1:
+                raise EndogIndexError(
+                    f"variable '{str(problem_endog)}' appears with a lead or a lag of "
+                    "more than one period"
+                )
+            llx[np.array(ll) + 1, idx] = 1
 
         # number of endog variables incidences at all periods. then replace indicators
         #   with the jacobian column index
-- 
2.43.0


From f94ad08e6776e3d5f80b5b05615859f01d2bf282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 09/55] fix: a mixed variable without a contemporaneous
 appearance was listed twice

---
 pynare/core/variables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index f86cb9c..2e1c47a 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -578,8 +578,7 @@ class VariableIndexManager(object):
 
         static_idx = np.where(np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
-        not_forward = np.isnan(llx[1:]).any(axis=0)
-        back_idx = np.where(~np.isnan(llx[0]) & not_forward)[0]
+        back_idx = np.where(~np.isnan(llx[0]) & np.isnan(llx[2]))[0]
 
         mixed_idx = np.where(~np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
         pure_for_idx = np.where(np.isnan(llx[0]) & ~np.isnan(llx[2]))[0]
-- 
2.43.0


From 76adf3fd353bc33eaba8a7a7e1c08e820ff1d8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:50 +0000
Subject: [PATCH 10/55] fix: refuse fractional time offsets instead of
 truncating them

---
 pynare/parsing/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b534eac..5a2af0f 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -358,6 +358,8 @@ class DynareParser(BaseParser):
         else:
             self.error()
         periods = self.current_token
+        if periods.type == base.NUMBER and periods.value % 1:
+            self.error()
         self.eat(base.NUMBER)
         self.eat(base.RPARE)
 
-- 
2.43.0


From a808c3edadbfd68d15c1f19c470542dbf0b57d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:05 +0000
Subject: [PATCH 11/55] fix: unary signs took the whole following product as
 operand

a / -b * c was read as a / -(b * c) and 2 ^ -1 * 3 as 2 ^ (-3).
---
 pynare/parsing/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 5a2af0f..2638112 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -66,7 +66,7 @@ class BaseParser(object):
         atom : ID
              | NUMBER
              | LPARE expr RPARE
-             | (NIMUS | PLUS) term
+             | (NIMUS | PLUS) exponent
         """
         token = self.current_token
 
@@ -86,11 +86,11 @@ class BaseParser(object):
 
         elif token.type in (base.MINUS, base.PLUS):
             self.eat(token.type)
-            # sending 'expr' to term() instead of expr() is what ensures
+            # sending 'expr' to exponent() instead of expr() is what ensures
             #    the proper unary operation functionality
             return ast.UnaryOp(
                 op=token,
-                expr=self.term()
+                expr=self.exponent()
             )
 
         self.error()
@@ -517,7 +517,7 @@ class DynareParser(BaseParser):
             self.eat(token.type)
             node = ast.UnaryOp(
                 op=token,
-                expr=self.mterm()
+                expr=self.mexponent()
             )
             return node
 
-- 
2.43.0


From 2fdf38cf30e29d070054b4ea40e5ed076149f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:19 +0000
Subject: [PATCH 12/55] fix: text after a complete expression was silently
 ignored

Also, of two function calls in a row the first one was dropped.
---
 pynare/core/expressions.py | 5 ++++-
 pynare/parsing/parser.py   | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 0f387a4..0d3fa99 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -114,7 +114,10 @@ class ExprParser(DynareParser):
 
 
     def parse(self):
-        return self.model_expression()
+        node = self.model_expression()
+        if self.current_token.type != base.EOF:
+            self.error()
+        return node
 
 
 
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 2638112..27841c1 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -104,7 +104,7 @@ class BaseParser(object):
         methods, because the atom() method doesn't recognize tokens of type
         FUNCTION. Instead we do the try ... except below
         """
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -203,7 +203,10 @@ class BaseParser(object):
         return node
 
     def parse(self) -> AST:
-        return self.comp_expr()
+        node = self.comp_expr()
+        if self.current_token.type != base.EOF:
+            self.error()
+        return node
 
 COMPS = (base.LT, base.LTOE, base.GT, base.GTOE, base.EQUALITY)
 
@@ -524,7 +527,7 @@ class DynareParser(BaseParser):
         self.error()
 
     def mcall(self) -> AST:
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
-- 
2.43.0


From 8e341bf8cd47fd5a23ae1de4646e3936b8978dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 13/55] fix: an unexpected token before the model block looped
 forever

---
 pynare/parsing/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 27841c1..c0a8f7b 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -273,6 +273,9 @@ class DynareParser(BaseParser):
                 assigned_parameter = self.variable_assignment()
                 parameter_list.append(assigned_parameter)
 
+            else:
+                self.error()
+
         return ast.VariablePreamble(
             declared_variables=declaration_list,
             assigned_parameters=parameter_list
-- 
2.43.0


From e6574ec5da9fd68bd4b4faa302cd6ec338825e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 14/55] fix: comments at the end of a file, with a '*' or '/'
 inside, or next to another comment

A single-line comment on the last line and an unterminated block comment looped
forever; a block comment ended at the first '*' or before the first '/'; a
single-line comment right after a block comment was read as code.
---
 pynare/parsing/lexer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c0d7e2..04a0998 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -233,11 +233,13 @@ class BaseLexer(object):
                 else:
                     self.error(self.current_char)
 
-            while self.is_singleline_comment():
+            if self.is_singleline_comment():
                 self.skip_singleline_comment()
+                continue
 
-            while self.is_multiline_comment():
+            if self.is_multiline_comment():
                 self.skip_multiline_comment()
+                continue
 
             if self.valid_begchar(self.current_char):
                 return self._id()
@@ -422,7 +424,7 @@ class DynareLexer(BaseLexer):
 
     def skip_singleline_comment(self):
         """ single line comments are signified by '%' or '//' """
-        while self.current_char != '\n':
+        while self.current_char is not None and self.current_char != '\n':
             self.advance()
         self.skip_whitespace() # just in case
 
@@ -434,7 +436,9 @@ class DynareLexer(BaseLexer):
     def skip_multiline_comment(self):
         # multiline comments begin '/*' and end '*/' 
         self.advance(n=2)
-        while (self.current_char != '*') and (self.peek() != '/'):
+        while (self.current_char != '*') or (self.peek() != '/'):
+            if self.current_char is None:
+                raise SyntaxError('unterminated comment')
             self.advance()
 
         # skipping the closing '*/'
-- 
2.43.0


From 8aee7a4a1a3e705350b2cc1fa968a7e4206c89d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:28 +0000
Subject: [PATCH 15/55] fix: model files without a shocks block could not be
 read

---
 pynare/parsing/factory.py   | 3 ++-
 pynare/parsing/semantics.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 4568268..1ff72fc 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -351,7 +351,8 @@ class DynareModelFactory(base.ABCVisitor):
     # 
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 1df7b10..7b03a41 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -275,7 +275,8 @@ class DynareSemanticAnalyzer(ABCVisitor):
     #
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks is not None:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
-- 
2.43.0


From 2069ed28676ebe538a272ab88a16f2442321378e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:41 +0000
Subject: [PATCH 16/55] fix: histval values were replaced by the endval values

---
 pynare/parsing/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 1ff72fc..a792b43 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -366,7 +366,7 @@ class DynareModelFactory(base.ABCVisitor):
 
         if node.histval:
             hist_values = self.calculate_ModelBoundaryValues(node.histval)
-            self.outline._historical_values = end_values
+            self.outline._historical_values = hist_values
 
 
     def calculate_ModelBoundaryValues(self, boundaries):
-- 
2.43.0


From 15e1a30c39ac21ea15443ebf74f1c9124c207576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:57 +0000
Subject: [PATCH 17/55] fix: boundary values defined through other boundary
 values

initval; k = 2; y = k; end; silently set y to zero.
---
 pynare/parsing/factory.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index a792b43..87bc79e 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -373,15 +373,23 @@ class DynareModelFactory(base.ABCVisitor):
 
         bound_dict = dict()
 
+        # expressions can refer to the variables assigned earlier in the block
+        scope = ScopedMemory(enclosing_scope=self.file_scope)
+
         # self.visit(boundaries.arguments)
         for assignment in boundaries._list:
             var_name = assignment.left.value
             var_value = base.BaseEvaluator(
                 tree=assignment.right,
-                scope=self.file_scope
+                scope=scope
             )
+            if var_value is None:
+                raise SyntaxError(
+                    f"boundary value of '{var_name}' refers to an unassigned variable"
+                )
 
             bound_dict[var_name] = var_value
+            scope.insert(var_name, var_value)
 
         return bound_dict
 
-- 
2.43.0


From 45af54755b60f22f95a6bfd5ad6a5af8f1d049cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 18/55] fix: the second correlation of a shock silently
 replaced the first one

---
 pynare/parsing/factory.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 87bc79e..65ebafa 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -416,15 +416,19 @@ class DynareModelFactory(base.ABCVisitor):
             elif shock_type == 'stderr':
                 shock['variance'] = moment ** 2
 
-            elif shock_type == 'correlated':
+            elif shock_type in ('correlated', 'covarying'):
                 oname = sdef.other.value
-                shock['other'] = oname
-                shock['corr'] = moment
+                if shock.get('other', oname) != oname:
+                    # a shock only records one pair, so record it on the other shock
+                    sname, oname = oname, sname
+                    shock = shocks.get(sname, {})
+                    if shock.get('other', oname) != oname:
+                        raise NotImplementedError(
+                            f"too many correlated shocks: {sname}, {oname}"
+                        )
 
-            elif shock_type == 'covarying':
-                oname = sdef.other.value
                 shock['other'] = oname
-                shock['cov'] = moment
+                shock['corr' if shock_type == 'correlated' else 'cov'] = moment
 
             else:
                 raise NotImplementedError(f"unrecognized shock type: {shock_type}")
-- 
2.43.0


From 47e828a8e4907219664bb8aeae85965d59110782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:29 +0000
Subject: [PATCH 19/55] fix: shocks with a covariance but no variance lost the
 default variance

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 2e1c47a..18198ed 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -342,7 +342,7 @@ def _create_stoch_vars(
         if isinstance(name, StochVar):
             return name
 
-        shock_dict = shocks.get(name, default_dict)
+        shock_dict = {**default_dict, **shocks.get(name, {})}
         return StochVar(name, **shock_dict)
 
     if is_iterable_not_str(names):
-- 
2.43.0


From 88c19a959835eacc6a6f92bedbdbbe2e17563b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:55 +0000
Subject: [PATCH 20/55] fix: parameters defined through undeclared helper
 variables failed to resolve

---
 pynare/parsing/factory.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 65ebafa..4a3435f 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -240,9 +240,17 @@ class DynareModelFactory(base.ABCVisitor):
                 var_name=var_name,
                 value=value
             )
+
+            # variables that are not parameters are not known outside of the file
+            helpers = self.file_scope._symbols
+            if isinstance(node.right, ast.Var) and node.right.value in helpers:
+                definition = value
+            else:
+                definition = base.ASTSubstitution(node.right, helpers)
+
             self.outline.set_model_parameter(
                 var_name=var_name,
-                value=node.right
+                value=definition
             )
 
         else:
-- 
2.43.0


From cc1126132b1f8ecfaf3bf5ff2a2bc432a50696f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 21/55] fix: Model.from_path failed on pathlib paths

---
 pynare/core/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 22812fb..19c02a8 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -1,6 +1,7 @@
 
 from __future__ import annotations
 
+import os
 from functools import cached_property
 
 from pynare.core.variables import ModelCalibration
@@ -92,7 +93,7 @@ class Model(DynamicModel):
                 raise FileNotFoundError(filepath) from None
 
         # create the model name from the filepath
-        name = filepath.split('/')[-1]
+        name = os.path.basename(filepath)
         name_no_suffix = name.split('.')[0]
 
         # create outline and use that to define model
-- 
2.43.0


From ba7d7a629a72c0132beab0cdda1c9a7045b62d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:00 +0000
Subject: [PATCH 22/55] fix: example models were only found from the root of
 the repository

---
 pynare/io/files.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pynare/io/files.py b/pynare/io/files.py
index e49ff68..2cc2a2f 100644
--- a/pynare/io/files.py
+++ b/pynare/io/files.py
@@ -3,6 +3,7 @@ module for common I/O operations of pynare objects
 """
 
 from __future__ import annotations
+from pathlib import Path
 
 from pynare.examples import ExampleRegistry
 
@@ -43,5 +44,8 @@ def read_example(
     -------
     the contents of the example file, as a string
     """
-    example_path = ExampleRegistry.get_example(ex_name)
-    return read_file(example_path)
+    example_path = ExampleRegistry.get_example(str(ex_name))
+
+    # example paths are relative to the directory that contains the package
+    root = Path(__file__).resolve().parents[2]
+    return read_file(root / example_path)
-- 
2.43.0


From 1bc9fe4b87c62ecf22010d32f3bb6bd691590995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 23/55] fix: summaries used np.in1d, which numpy 2 removed

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 6530636..c6afb4b 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -401,7 +401,7 @@ class FirstOrderSummary(SolutionSummary):
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
         dr_idx = idx.dr_order
-        gy = gy[:, np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])]
+        gy = gy[:, np.argsort(dr_idx[np.isin(dr_idx, idx.state)])]
 
         arr = np.transpose(np.hstack((ss, gy, gu)))
 
@@ -532,7 +532,7 @@ class SecondOrderSummary(SolutionSummary):
         #   to align with labels, and match stoch vars which are also in dc order
         idx = self.obj.model.indexes
         dr_idx = idx.dr_order
-        st_idx = np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])
+        st_idx = np.argsort(dr_idx[np.isin(dr_idx, idx.state)])
 
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
-- 
2.43.0


From f4c393c43f849dd86393deb179088c54f6a4bdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:29 +0000
Subject: [PATCH 24/55] fix: looking up a list of variables failed with numpy
 2.4 and later

---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 18198ed..175e6d9 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -113,7 +113,7 @@ class VarArray(np.ndarray):
                 loc = np.where(name == self.names)[0]
                 if not loc.size:
                     raise KeyError(f"{repr(var)} is not a variable")
-                idx[i] = loc
+                idx[i] = loc.item()
 
             return idx
 
-- 
2.43.0


From fd6bcc11e903c2bd1ef4b5d8c23a047db2501cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 25/55] fix: failed calibration edits left the calibration
 broken, and edits reached the caller

A refused definition stayed recorded, so every later edit failed too; deleting a
parameter that others depend on was not noticed; the definitions were shared with
the dictionary (or other model) passed in, and the copy of a model lost them.
---
 pynare/core/generic.py   |  3 +--
 pynare/core/variables.py | 30 ++++++++++++++++++------------
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8685c63..b4f47e0 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -109,8 +109,7 @@ class ModelSkeleton(object):
         -------
         None
         """
-        for k, v in kwargs.items():
-            self.params[k] = v
+        self.params.update(kwargs)
 
         self.is_altered = True
 
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 175e6d9..81f43ae 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -784,14 +784,8 @@ class ModelCalibration(MutableMapping):
     """
 
     def __init__(self, defs):
-        self.defs = defs
-
-        calib = {}
-        for k, v in self.defs.items():
-            if isinstance(v, float):
-                calib[k] = v
-            elif isinstance(v, ast.Num):
-                calib[k] = v.value
+        # copy the definitions so the ones passed by the caller are never changed
+        self.defs = dict(defs.defs if isinstance(defs, ModelCalibration) else defs)
 
         self.calib = solve_calibration(self.defs)
 
@@ -802,12 +796,21 @@ class ModelCalibration(MutableMapping):
             raise KeyError(f"'{key}' is not a parameter") from None
 
     def __setitem__(self, key, value):
-        self.defs[key] = value
-        self.calib = solve_calibration(self.defs) # inefficient
+        self.update({key: value})
 
     def __delitem__(self, key):
-        del self.defs[key]
-        del self.calib[key]
+        defs = dict(self.defs)
+        del defs[key]
+
+        # nothing changes if other parameters still depend on this one
+        self.calib = solve_calibration(defs)
+        self.defs = defs
+
+    def update(self, *args, **kwargs):
+        # nothing changes if the new definitions can not be solved
+        defs = {**self.defs, **dict(*args, **kwargs)}
+        self.calib = solve_calibration(defs) # inefficient
+        self.defs = defs
 
     def __iter__(self):
         return iter(self.calib)
@@ -819,6 +822,9 @@ class ModelCalibration(MutableMapping):
         return f"ModelCalibration({len(self)} params)"
 
     def __str__(self):
+        if not self.calib:
+            return 'ModelCalibration'
+
         width = max(map(len, self.calib)) + 1
         sig, pad = 6, 4*' '
 
-- 
2.43.0


From daae859b267bf7531de63fdc7a6610d9eb516398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:39 +0000
Subject: [PATCH 26/55] fix: models built from the equations of another model
 shared its equation list

---
 pynare/core/expressions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 0d3fa99..aacb022 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -33,8 +33,8 @@ class ModelExprs(MutableSequence):
     def __init__(self, exprs: Iterable[AST, str] = []):
         super().__init__()
         if isinstance(exprs, ModelExprs):
-            self.exprs = exprs.exprs
-            self.exprs_str = exprs.exprs_str
+            self.exprs = list(exprs.exprs)
+            self.exprs_str = list(exprs.exprs_str)
 
         else:
             self.exprs = [self.parse(ep) for ep in exprs]
-- 
2.43.0


From f5268105b214e5eaf7f976c7d4b64595c789db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 27/55] fix: local variables of the model block kept their
 value when parameters changed

---
 pynare/core/model.py      |  5 ++++-
 pynare/core/variables.py  | 14 ++++++++++----
 pynare/parsing/factory.py |  2 +-
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 19c02a8..48165ff 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -46,7 +46,8 @@ class Model(DynamicModel):
         name: str = ''
     ):
 
-        self.local_params = ModelCalibration(local_params)
+        params = ModelCalibration(params)
+        self.local_params = ModelCalibration(local_params, scope=params)
 
         super().__init__(
             endog=endog,
@@ -289,6 +290,8 @@ class Model(DynamicModel):
 
     @property
     def model_scope(self):
+        # local variables are defined by parameters, which might have changed
+        self.local_params = ModelCalibration(self.local_params, scope=self.params)
         return {**self.params, **self.local_params}
 
 
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 81f43ae..60ec4d0 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -783,11 +783,17 @@ class ModelCalibration(MutableMapping):
     managing parameter values and caching their equation definitions
     """
 
-    def __init__(self, defs):
+    def __init__(self, defs, scope={}):
         # copy the definitions so the ones passed by the caller are never changed
         self.defs = dict(defs.defs if isinstance(defs, ModelCalibration) else defs)
 
-        self.calib = solve_calibration(self.defs)
+        # values that definitions can refer to, but that are not part of this
+        self.scope = scope
+        self.calib = self.solve(self.defs)
+
+    def solve(self, defs):
+        calib = solve_calibration({**self.scope, **defs})
+        return {k: calib[k] for k in defs}
 
     def __getitem__(self, key):
         try:
@@ -803,13 +809,13 @@ class ModelCalibration(MutableMapping):
         del defs[key]
 
         # nothing changes if other parameters still depend on this one
-        self.calib = solve_calibration(defs)
+        self.calib = self.solve(defs)
         self.defs = defs
 
     def update(self, *args, **kwargs):
         # nothing changes if the new definitions can not be solved
         defs = {**self.defs, **dict(*args, **kwargs)}
-        self.calib = solve_calibration(defs) # inefficient
+        self.calib = self.solve(defs) # inefficient
         self.defs = defs
 
     def __iter__(self):
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 4a3435f..5501178 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -295,7 +295,7 @@ class DynareModelFactory(base.ABCVisitor):
         var_name = node.left.value
         self.model_scope.insert(var_name, value)
 
-        self.outline._local_model_variables[var_name] = value
+        self.outline._local_model_variables[var_name] = node.right
 
 
     def visit_ModelExpression(self, node):
-- 
2.43.0


From 807e5ce34f3919ebc1c0b0707033accfc6d6fcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 28/55] fix: copying a model with local variables failed

---
 pynare/core/generic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index b4f47e0..d132a21 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -481,8 +481,14 @@ class DynamicModel(StructuredModel):
 
             shocks[name] = dt_dict
 
+        # only some classes have locally-defined variables
+        local = {}
+        if hasattr(self, 'local_params'):
+            local['local_params'] = copy.deepcopy(self.local_params)
+
         class_ = self.__class__
         return class_(
+            **local,
             endog=endog,
             stoch=stoch,
             determ=determ,
-- 
2.43.0


From 280a389ec492fc85620800501655c7dc84063367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 29/55] fix: adding variables or shocks to a model failed

Concatenating VarArrays gives a plain array, and the documented keywords of
add_stoch and add_determ were rejected.
---
 pynare/core/generic.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index d132a21..8757db6 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -91,7 +91,7 @@ class ModelSkeleton(object):
         None
         """
         _endog = _create_endog_vars(endog, **kwargs)
-        self.endog = np.concatenate((self.endog, _endog))
+        self.endog = VarArray([*self.endog, *_endog])
 
         self.is_altered = True
 
@@ -280,8 +280,12 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
+        if 'shocks' not in kwargs:
+            names = stoch if is_iterable_not_str(stoch) else [stoch]
+            kwargs = {'shocks': {name: kwargs for name in names}}
+
         _stoch = _create_stoch_vars(stoch, **kwargs)
-        self.stoch = np.concatenate((self.stoch, _stoch))
+        self.stoch = VarArray([*self.stoch, *_stoch])
 
         self.is_altered = True
 
@@ -301,8 +305,12 @@ class DynamicModel(StructuredModel):
         -------
         None
         """
+        if kwargs and 'shocks' not in kwargs:
+            names = determ if is_iterable_not_str(determ) else [determ]
+            kwargs = {'shocks': {name: kwargs for name in names}}
+
         _determ = _create_determ_vars(determ, **kwargs)
-        self.determ = np.concatenate((self.determ, _determ))
+        self.determ = VarArray([*self.determ, *_determ])
 
         self.is_altered = True
 
-- 
2.43.0


From 62b58da27b7f770e48bf5558bf70b6e518de3a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:32 +0000
Subject: [PATCH 30/55] fix: an empty model could not be created

---
 pynare/core/generic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8757db6..bf1b582 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -257,6 +257,11 @@ class DynamicModel(StructuredModel):
         else:
             self.determ = VarArray()
 
+        # an empty model is set up once it is accessed after being filled
+        if not len(self.endog):
+            self.is_altered = True
+            return
+
         # prepare dynamic structural features of the model that are accessed via
         #   attributes of the same name, without the leading underscore
         self._indexes = VariableIndexManager(self.endog, self.stoch)
-- 
2.43.0


From a3ef2993613150eba69430bb39a6147feed16b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:49 +0000
Subject: [PATCH 31/55] fix: a failed update left the model looking up to date

---
 pynare/core/generic.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index bf1b582..e547ccf 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -444,10 +444,15 @@ class DynamicModel(StructuredModel):
 
         # structural features. steady, dynamic, statespace order is important,
         #   which I'm not particularly fond of...
-        self._indexes = VariableIndexManager(self.endog, self.stoch)
-        self._steady_repr = SteadyRepr(self)
-        self._dynamic_repr = DynamicRepr(self)
-        self._statespace = StateSpace(self)
+        try:
+            self._indexes = VariableIndexManager(self.endog, self.stoch)
+            self._steady_repr = SteadyRepr(self)
+            self._dynamic_repr = DynamicRepr(self)
+            self._statespace = StateSpace(self)
+        except Exception:
+            # not up-to-date yet, so try again on the next access
+            self.is_altered = True
+            raise
 
 
     def copy(self):
-- 
2.43.0


From 37cb9e9acbf9efdfddcbe6f8868484d56fa61819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:13 +0000
Subject: [PATCH 32/55] fix: models with one variable, state or shock, or no
 state, at second order and in moments

---
 pynare/core/solve/base.py         |  12 +++
 pynare/core/solve/second_order.py | 134 ++++++++++++------------------
 pynare/core/solve/statespace.py   |  11 +--
 pynare/simul.py                   |  29 +++----
 pynare/stats/moments.py           |  43 +++++-----
 pynare/stats/var.py               |   7 +-
 pynare/utils/numpy.py             |   5 +-
 7 files changed, 99 insertions(+), 142 deletions(-)

diff --git a/pynare/core/solve/base.py b/pynare/core/solve/base.py
index 6439495..b9d541e 100644
--- a/pynare/core/solve/base.py
+++ b/pynare/core/solve/base.py
@@ -5,6 +5,8 @@ base classes for solutions to models
 from __future__ import annotations
 from collections import namedtuple
 
+import numpy as np
+
 
 
 class ModelSolution(object):
@@ -39,3 +41,13 @@ class LinearSolution(ModelSolution):
     def arrays(self):
         _arrs = tuple([getattr(self, a) for a in self.__arrays__])
         return self._array_creator(*_arrs)
+
+    @property
+    def matrices(self):
+        """
+        the same arrays as `arrays`, but always with two dimensions: one row for each
+        endogenous variable, whatever the number of columns
+        """
+        n_endog = self.model.indexes.n_endog
+        _arrs = tuple([np.reshape(arr, (n_endog, -1)) for arr in self.arrays])
+        return self._array_creator(*_arrs)
diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 9ba9172..06c9eaf 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -59,6 +59,10 @@ class SecondOrderSolver(object):
         self.model = model
         self.lower_solution = lower_sol
 
+        # axes of length one are removed from the solution arrays, but the blocks of
+        #   the second-order systems are all matrices
+        self.gy, self.gu = lower_sol.matrices
+
     def _setup_indices(self):
         """
         pre-allocate the different sets of indices used to reorder arrays before
@@ -69,11 +73,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # decision-rule indices of state vars
-        self.tloc_arr = np.arange(ns, ns+nt, dtype=int)
-        try:
-            self.tloc = self.tloc_arr.item()
-        except ValueError:
-            self.tloc = self.tloc_arr
+        self.tloc = np.arange(ns, ns+nt, dtype=int)
 
         # re-arrange lead-lag incidence to DR order
         dr_llx = indexes.dr.llx
@@ -103,7 +103,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # A, B, C, D, E arrays rely on first-order solution arrays
-        gy = self.lower_solution.gy
+        gy = self.gy
 
         # reorder, get time t and t+1 indices
         jacobian = self.model.jacobian.array
@@ -115,14 +115,14 @@ class SecondOrderSolver(object):
         # construct the [dfdy' * dgdx + dfdx' | dfdy] array
         A = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
         A[:, ~np.isnan(self.dr_cont)] = cont_jac
-        tm1_update = unp.matmul_scalar(fore_jac, gy[~np.isnan(self.dr_fore)])
+        tm1_update = np.matmul(fore_jac, gy[~np.isnan(self.dr_fore)])
         A[:, self.tloc] = A[:, self.tloc] + tm1_update
 
         B = np.identity(nt**2, dtype=float)
 
         # construct the [0 | dfdy'] array
         C = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
-        C[:, -len(_nonnan_int(self.dr_fore)):] = fore_jac
+        C[:, ~np.isnan(self.dr_fore)] = fore_jac
 
         gy_state = gy[self.tloc]
         D = np.transpose(np.kron(gy_state, gy_state))
@@ -130,7 +130,7 @@ class SecondOrderSolver(object):
         return A, B, C, D
 
 
-    def _hess_coefs_dx(self, lower_sol):
+    def _hess_coefs_dx(self):
         """
         construct the coefficient matrices for the various blocks of the hessian
         matrix on the RHS of the sylvester equation. the coefficients are arranged
@@ -141,18 +141,17 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt = indexes.n_state
 
-        gy = lower_sol.gy
+        gy = self.gy
 
         state_eye = np.identity(nt, dtype=float)
         cont_gy = gy[~np.isnan(self.dr_cont)]
-        fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
         exo_block = np.zeros((indexes.n_exog, nt), dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_eye, cont_gy, fore_gy, exo_block))
-        return E
+        return np.concatenate((state_eye, cont_gy, fore_gy, exo_block))
 
 
-    def _hess_coefs_du(self, lower_sol):
+    def _hess_coefs_du(self):
         """
         construct the coefficient matrices for solving for ghxu and ghuu. order
         is the same as that in `_hess_coefs_dx`
@@ -161,22 +160,15 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt, ne = indexes.n_state, indexes.n_exog
 
-        gy = lower_sol.gy
-        gu = lower_sol.gu
+        gy, gu = self.gy, self.gu
 
         state_zero = np.zeros((nt, ne), dtype=float)
         cont_gu = gu[~np.isnan(self.dr_cont)]
 
-        try:
-            fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-        except ValueError:
-            # one state var, > 1 stoch vars
-            fore_gy = np.outer(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-
+        fore_gu = np.matmul(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
         exo_eye = np.identity(ne, dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_zero, cont_gu, fore_gy, exo_eye))
-        return E
+        return np.concatenate((state_zero, cont_gu, fore_gu, exo_eye))
 
 
     def solve(self):
@@ -184,25 +176,26 @@ class SecondOrderSolver(object):
         self._setup_indices()
         A, B, C, D = self._setup_system()
 
-        lower_sol = self.lower_solution
-        zx = self._hess_coefs_dx(lower_sol)
-        zu = self._hess_coefs_du(lower_sol)
+        gy, gu = self.gy, self.gu
+        zx = self._hess_coefs_dx()
+        zu = self._hess_coefs_du()
 
         hess_dr = self.model.hessian.array[:, self.dr_dr]
         ghxx = solve_ghxx(A, B, C, D, zx, hess_dr)
-        ghxu = solve_ghxu(lower_sol, self.tloc, A, C, ghxx, zx, zu, hess_dr)
-        ghuu = solve_ghuu(lower_sol, self.tloc, A, C, ghxx, zu, hess_dr)
+        ghxu = solve_ghxu(gy, gu, self.tloc, A, C, ghxx, zx, zu, hess_dr)
+        ghuu = solve_ghuu(gu, self.tloc, A, C, ghxx, zu, hess_dr)
 
         indexes = self.model.indexes
         del2 = solve_del2(
-            lower_sol,
+            gy, gu,
             self.dr_cont, self.dr_fore, self.dr_sq,
             indexes.n_static, len(indexes.pure_forward_timed[1]),
             ghuu, self.model.sigma,
             self.model.jacobian.array, self.model.hessian.array
         )
 
-        return ghxx, ghxu, ghuu, del2
+        # remove any 1-dimensional axes, as in the first-order solution
+        return ghxx.squeeze(), ghxu.squeeze(), ghuu.squeeze(), del2.squeeze()
 
 
 
@@ -232,15 +225,18 @@ def solve_ghxx(
     ghxu : np.ndarray
     """
     E = -unp.matrix_kronecker_product(hess, zx)
+    if E.size == 0:
+        # no state variables
+        return E
 
-    ghxx = unp.generalized_sylvester(A, B, C, D, E)
-    return ghxx
+    return unp.generalized_sylvester(A, B, C, D, E)
 
 
 
 def solve_ghxu(
-    lower_sol: FirstOrderSolution,
-    tloc: Union[np.ndarray, int],
+    gy: np.ndarray,
+    gu: np.ndarray,
+    tloc: np.ndarray,
     A: np.ndarray,
     C: np.ndarray,
     ghxx: np.ndarray,
@@ -253,10 +249,10 @@ def solve_ghxu(
 
     Parameters
     ----------
-    lower_sol : FirstOrderSolution
-        the first-order solution to the model that contains the `gy` and `gu`
-        arrays that define that linearized approximation
-    tloc : np.ndarray | int
+    gy, gu : np.ndarray
+        the (n_endog, n_state) and (n_endog, n_exog) arrays that define the
+        first-order approximation
+    tloc : np.ndarray
         the location (in DR order) of the state variables
     A : np.ndarray
         the (n_endog, n_endog) array `A` in the generalized sylvester equation
@@ -279,31 +275,17 @@ def solve_ghxu(
     -------
     ghxu : np.ndarray
     """
-    # if theres only one state variable, zx will be a vector, and if there is
-    #    only a single shock, zu will be too. for these to conform with one another
-    #    in the kronecker product, ensure 2d
-    zx, zu = unp.ensure_2darray((zx, zu))
-    E = -unp.matrix_kronecker_product(hess, zx, zu).squeeze()
-
-    # `matrix_kronecker_product` throws ValueErrors when scalars are passed or matrix
-    #    dimensions depend on row/column orientation. just cast to 2dims for now
-    gy, gu = lower_sol.gy, lower_sol.gu
-    ghxx_arr, gy_arr, gu_arr = unp.ensure_2darray((ghxx, gy[tloc], gu[tloc]))
-
-    if gu_arr.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        gu_arr = np.transpose(gu_arr)
+    E = -unp.matrix_kronecker_product(hess, zx, zu)
+    cross_prod = unp.matrix_kronecker_product(ghxx, gy[tloc], gu[tloc])
 
-    cross_prod = unp.matrix_kronecker_product(ghxx_arr, gy_arr, gu_arr).squeeze()
-
-    rhs = E - unp.matmul_scalar(C, cross_prod)
+    rhs = E - np.matmul(C, cross_prod)
     return linalg.solve(A, rhs)
 
 
 
 def solve_ghuu(
-    lower_sol: FirstOrderSolution,
-    tloc: Union[np.ndarray, int],
+    gu: np.ndarray,
+    tloc: np.ndarray,
     A: np.ndarray,
     C: np.ndarray,
     ghxx: np.ndarray,
@@ -315,10 +297,9 @@ def solve_ghuu(
 
     Parameters
     ----------
-    lower_sol : FirstOrderSolution
-        the first-order solution to the model that contains the `gy` and `gu`
-        arrays that define that linearized approximation
-    tloc : np.ndarray | int
+    gu : np.ndarray
+        the (n_endog, n_exog) response to shocks in the first-order approximation
+    tloc : np.ndarray
         the location (in DR order) of the state variables
     A : np.ndarray
         the (n_endog, n_endog) array `A` in the generalized sylvester equation
@@ -341,18 +322,7 @@ def solve_ghuu(
     E = -unp.matrix_kronecker_product(hess, zu)
 
     ghxx_tp1 = np.matmul(C, ghxx)
-    state_du = lower_sol.gu[tloc]
-
-    # if theres only one state variable, ghxx_tp1 will be a vector (if there is
-    #    additionally only a single shock, state_du will be a scalar). for these
-    #    to conform with one another in the kronecker product, ensure 2d
-    ghxx_tp1, state_du = unp.ensure_2darray((ghxx_tp1, state_du))
-
-    if state_du.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        state_du = np.transpose(state_du)
-
-    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du).squeeze()
+    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, gu[tloc])
 
     rhs = E - ghxx_tp1_evaluated
     return linalg.solve(A, rhs)
@@ -360,7 +330,8 @@ def solve_ghuu(
 
 
 def solve_del2(
-    lower_sol: FirstOrderSolution,
+    gy: np.ndarray,
+    gu: np.ndarray,
     cont: np.ndarray,
     fore: np.ndarray,
     idx_sq: np.ndarray,
@@ -376,9 +347,9 @@ def solve_del2(
 
     Parameters
     ----------
-    lower_sol : FirstOrderSolution
-        the first-order solution to the model that contains the `gy` and `gu`
-        arrays that define that linearized approximation
+    gy, gu : np.ndarray
+        the (n_endog, n_state) and (n_endog, n_exog) arrays that define the
+        first-order approximation
     cont : np.ndarray
         the time-t row of the lag-lead incidence array, in DR order
     fore : np.ndarray
@@ -404,8 +375,6 @@ def solve_del2(
     del2 : np.ndarray
     """
 
-    gy, gu = lower_sol.gy, lower_sol.gu
-
     fore_nan = np.isnan(fore)
     fore_idx = _nonnan_int(fore)
     fore_sq = idx_sq[np.ix_(fore_idx, fore_idx)].flatten()
@@ -413,8 +382,7 @@ def solve_del2(
     B1 = unp.matrix_kronecker_product(hess[:, fore_sq], gu[~fore_nan])
 
     rhs = np.matmul(jac[:, fore_idx], ghuu[~fore_nan]) + B1
-    rhs = -unp.matmul_scalar(rhs, np.transpose(sigma).flatten())
-
+    rhs = -np.matmul(rhs, np.transpose(sigma).flatten())
 
     n_fore = np.count_nonzero(~fore_nan)
     n_endog = jac.shape[0]
@@ -424,7 +392,7 @@ def solve_del2(
     pfore_zero = np.zeros((n_fore, npf), dtype=float)
     gy_fore = gy[~fore_nan]
 
-    d_fore = unp.concatenate_maybe_1d((static_zero, gy_fore, pfore_zero), axis=1)
+    d_fore = np.concatenate((static_zero, gy_fore, pfore_zero), axis=1)
     deriv_fore = endo_eye[~fore_nan] + d_fore
 
     lhs = np.zeros((n_endog, n_endog), dtype=float)
diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 3251176..4e3caa4 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -93,17 +93,10 @@ class StateSpace(object):
         create the Kalman transition matrices of the state-space
         """
         self.verify()
-        sol = self.model.first_order_solution
-
+        gy, gu = self.model.first_order_solution.matrices
         dr_sidx = self.model.indexes.dr.state
-        n_state = len(dr_sidx)
-
-        A = np.zeros((n_state, n_state), dtype=float)
-        A[:, :n_state] = sol.gy[dr_sidx]
-
-        B = sol.gu[dr_sidx]
 
-        return unp.ensure_2darray((A, B))
+        return gy[dr_sidx], gu[dr_sidx]
 
     def __repr__(self):
         model_name = self.model.name
diff --git a/pynare/simul.py b/pynare/simul.py
index 1555eed..90ee8bf 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -164,12 +164,7 @@ class LinearSimulator(ModelSimulator):
 
         # locating the t-1 state variables in dr order
         self.dr_order = self.model.indexes.dr_order
-
-        lag_state_maybe_scalar = self.model.indexes.dr.state
-        try:
-            self.lag_state = lag_state_maybe_scalar.item()
-        except ValueError:
-            self.lag_state = lag_state_maybe_scalar
+        self.lag_state = self.model.indexes.dr.state
 
     def _simulate_first_order(
         self,
@@ -187,9 +182,8 @@ class LinearSimulator(ModelSimulator):
         paths[0, :] = init - ys
 
         # policy matrices and innovations to endogenous variables
-        gy, gu = self.model.solution.gy, self.model.solution.gu
-        gu_arr = unp.ensure_2darray(gu)
-        innovs = np.matmul(shocks, np.transpose(gu_arr))
+        gy, gu = self.model.solution.matrices
+        innovs = np.matmul(shocks, np.transpose(gu))
 
         # index management
         dr_order = self.dr_order
@@ -226,23 +220,22 @@ class LinearSimulator(ModelSimulator):
         # policy matrices
         sol = self.model.solution
         first_sol = sol.lower_solution
-        ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
-            (sol.ghxx/2, sol.ghxu, sol.ghuu/2, sol.del2/2))
-        gy, gu = first_sol.gy, first_sol.gu
+        ghxx, ghxu, ghuu, del2 = sol.matrices
+        ghxx, ghuu, del2 = ghxx/2, ghuu/2, del2/2
+        gy, gu = first_sol.matrices
 
-        # index management. use array of indices because of kronecker products
+        # index management
         dr_order = self.dr_order
-        lag = [self.lag_state] if isinstance(self.lag_state, int) else self.lag_state
-        dr_state = dr_order[lag]
+        dr_state = dr_order[self.lag_state]
 
-        const = del2.squeeze() + ys[dr_order]
+        const = del2[:, 0] + ys[dr_order]
         for t in range(1, T):
             yhat = paths[t-1, dr_state] - ys[dr_state]
             ut = shocks[t-1, :]
 
             # first-order terms
-            dy = unp.matmul_scalar(gy, yhat)
-            du = unp.matmul_scalar(gu, ut)
+            dy = np.matmul(gy, yhat)
+            du = np.matmul(gu, ut)
 
             # second-order terms
             dydy = unp.matrix_kronecker_product(ghxx, yhat)
diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index f498047..cb97b22 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -6,7 +6,6 @@ from __future__ import annotations
 import numpy as np
 from scipy import linalg
 
-import pynare.utils.numpy as unp
 
 
 
@@ -42,21 +41,23 @@ def mean(md: Model):
         var_state = md.statespace.sigma
         g_xtp1x, _ = md.statespace.kalman_transition
 
-        # second-order transition arrays. only select those determining state evolution
+        # second-order transition arrays, which already include the factor 1/2 of the
+        #   quadratic terms
         dr_sidx = md.indexes.dr.state
-        del2, ghxx, ghuu = md.solution.del2, md.solution.ghxx, md.solution.ghuu
-
-        # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
-        #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
-        # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
-        second_order = (del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
-            + np.dot(ghuu[dr_sidx], md.sigma.flatten()))/2
-        expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
+        ghxx, _, ghuu, del2 = md.solution.matrices
+        gy, _ = md.solution.lower_solution.matrices
+
+        # y_t = g_{y,x}*x_{t-1} + g_{y,u}*u_t + del2 + G_{x,x}*x_{t-1}^2 + G_{u,u}*u_t^2
+        # yields E[y] = g_{y,x}*E[x] + del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
+        second_order = del2[:, 0] + np.dot(ghxx, var_state.flatten()) \
+            + np.dot(ghuu, md.sigma.flatten())
+        second_order = second_order / 2
+        expt_x = linalg.solve(
+            np.eye(*g_xtp1x.shape) - g_xtp1x, second_order[dr_sidx]
+        )
 
         # calculate mean adjustment for observables & make them declaration order
-        adj_mean_inv = unp.matmul_scalar(md.solution.lower_solution.gy, expt_x) \
-            + ( del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
-            + unp.matmul_scalar(ghuu, md.sigma.flatten()) ) / 2
+        adj_mean_inv = np.dot(gy, expt_x) + second_order
         adj_mean = adj_mean_inv[md.indexes.dc_order]
 
         return ss + adj_mean
@@ -145,11 +146,10 @@ def cov(md: Model):
         _ = md.solve()
 
     if md.solution_order == 1:
-        gy, gu = md.solution.gy, md.solution.gu
+        gy, gu = md.solution.matrices
 
     elif md.solution_order == 2:
-        gy = md.solution.lower_solution.gy
-        gu = md.solution.lower_solution.gu
+        gy, gu = md.solution.lower_solution.matrices
 
     else:
         raise NotImplementedError(
@@ -157,8 +157,7 @@ def cov(md: Model):
         ) from None
 
     # translate to declaration order
-    gy_dc_, gu_dc_ = gy[md.indexes.dc_order], gu[md.indexes.dc_order]
-    gy_dc, gu_dc = unp.ensure_2darray((gy_dc_, gu_dc_))
+    gy_dc, gu_dc = gy[md.indexes.dc_order], gu[md.indexes.dc_order]
 
     # variance matrix of the state-space transition process
     var_state = md.statespace.sigma
@@ -226,11 +225,10 @@ def autocov(
         _ = md.solve()
 
     if md.solution_order == 1:
-        gy, gu = md.solution.gy, md.solution.gu
+        gy, gu = md.solution.matrices
 
     elif md.solution_order == 2:
-        gy = md.solution.lower_solution.gy
-        gu = md.solution.lower_solution.gu
+        gy, gu = md.solution.lower_solution.matrices
 
     else:
         raise NotImplementedError(
@@ -242,8 +240,7 @@ def autocov(
     g_xtp1x, g_utp1 = md.statespace.kalman_transition
 
     # translate to declaration order
-    gy_dc_, gu_dc_ = gy[md.indexes.dc_order], gu[md.indexes.dc_order]
-    gy_dc, gu_dc = unp.ensure_2darray((gy_dc_, gu_dc_))
+    gy_dc, gu_dc = gy[md.indexes.dc_order], gu[md.indexes.dc_order]
 
     # from observation equation y_t = h(x, u), create observable -> state var array
     x_term = np.matmul(g_xtp1x, np.matmul(var_state, np.transpose(gy_dc)))
diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 6e70982..8c7bc32 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -6,7 +6,6 @@ from __future__ import annotations
 import numpy as np
 from scipy import linalg
 
-import pynare.utils.numpy as unp
 from pynare.utils.dtypes import ensure_list
 
 
@@ -59,11 +58,10 @@ def var_decomp(
         _ = md.solve()
 
     if md.solution_order == 1:
-        gy, gu = md.solution.gy, md.solution.gu
+        gy, gu = md.solution.matrices
 
     elif md.solution_order == 2:
-        gy = md.solution.lower_solution.gy
-        gu = md.solution.lower_solution.gu
+        gy, gu = md.solution.lower_solution.matrices
 
     else:
         raise NotImplementedError(
@@ -71,7 +69,6 @@ def var_decomp(
         ) from None
 
     # prepare transition arrays
-    gy, gu = unp.ensure_2darray((gy, gu))
     gy_dc, gu_dc = gy[md.indexes.dc_order], gu[md.indexes.dc_order, :]
     g_xtp1x, g_utp1 = md.statespace.kalman_transition
 
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 14232b1..1bff2a6 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -387,10 +387,7 @@ def matrix_kronecker_product(A, B, C=None):
     else:
         K = np.kron(B, C)
 
-    if (A.shape[1] == 1) and (K.shape[0] == 1):
-        return np.outer(A, K)
-    else:
-        return np.matmul(A, K)
+    return np.matmul(A, K)
 
 
 
-- 
2.43.0


From 3084d4d3ec1b233d7bd393a20caacc1c4dbd1da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:28 +0000
Subject: [PATCH 33/55] fix: second-order terms were halved twice in
 simulations and means

---
 pynare/simul.py         | 1 -
 pynare/stats/moments.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 90ee8bf..0345bb5 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -221,7 +221,6 @@ class LinearSimulator(ModelSimulator):
         sol = self.model.solution
         first_sol = sol.lower_solution
         ghxx, ghxu, ghuu, del2 = sol.matrices
-        ghxx, ghuu, del2 = ghxx/2, ghuu/2, del2/2
         gy, gu = first_sol.matrices
 
         # index management
diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index cb97b22..07d9d76 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -51,7 +51,6 @@ def mean(md: Model):
         # yields E[y] = g_{y,x}*E[x] + del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
         second_order = del2[:, 0] + np.dot(ghxx, var_state.flatten()) \
             + np.dot(ghuu, md.sigma.flatten())
-        second_order = second_order / 2
         expt_x = linalg.solve(
             np.eye(*g_xtp1x.shape) - g_xtp1x, second_order[dr_sidx]
         )
-- 
2.43.0


From 69af777df0eca2e83909f30a0c1a3463ddb4d2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:14 +0000
Subject: [PATCH 34/55] fix: occasionally binding solutions mixed up states,
 and failed with one state or variable

---
 pynare/core/solve/binding.py | 40 ++++++++++++++----------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 2ebd71c..b5ea449 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -270,7 +270,7 @@ def solve_occbin_one_constraint(
     """
 
     if len(constraint) != 1:
-        raise ValueError(f"n constraints = {len(constraints)}")
+        raise ValueError(f"n constraints = {len(constraint)}")
 
     # throws an error if endog, stoch, or params are misaligned between models
     _ensure_variables_match(ref, alt)
@@ -288,9 +288,12 @@ def solve_occbin_one_constraint(
     # get the first-order decision rules in declaration order
     idx = ref.indexes
 
+    gy, gu = ref.first_order_solution.matrices
+
+    # the columns of `gy` are the state variables in decision-rule order
     gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
-    gy_dc[:, idx.state] = ref.first_order_solution.arrays.gy[idx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[idx.dc_order]
+    gy_dc[:, idx.dr_order[idx.dr.state]] = gy[idx.dc_order]
+    gu_dc = gu[idx.dc_order]
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
@@ -445,9 +448,12 @@ def solve_occbin_two_constraints(
     # get the first-order decision rules in declaration order
     ridx = ref.indexes
 
+    gy, gu = ref.first_order_solution.matrices
+
+    # the columns of `gy` are the state variables in decision-rule order
     gy_dc = np.zeros((ridx.n_endog, ridx.n_endog), dtype=float)
-    gy_dc[:, ridx.state] = ref.first_order_solution.arrays.gy[ridx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[ridx.dc_order]
+    gy_dc[:, ridx.dr_order[ridx.dr.state]] = gy[ridx.dc_order]
+    gu_dc = gu[ridx.dc_order]
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
@@ -572,10 +578,7 @@ def _simulate_hypothesized_paths(
     shock: float
 ):
 
-    try:
-        n_endog, n_exog = gu.shape
-    except ValueError:
-        n_endog, n_exog = len(gu), 1
+    n_endog, n_exog = gu.shape
 
     # final period with a binding constraint
     last_bound = regime_starts[-1] - 1
@@ -622,14 +625,9 @@ def _simulate_hypothesized_paths(
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
 
-    try:
-        innovs = innovs.item()
-    except ValueError:
-        pass
-
     # shocks to exogenous variables
     if last_bound > -1:
-        Q = np.squeeze(np.dot(E_init, innovs))
+        Q = np.dot(E_init, innovs)
         history[1] = np.dot(P[:, :, 0], history[0]) + D[:, 0] + Q
     else:
         history[1] = np.dot(gy, history[0]) + np.dot(gu, innovs)
@@ -663,10 +661,7 @@ def _simulate_hypothesized_paths_two_constraints(
     shock: float
 ):
 
-    try:
-        n_endog, n_exog = gu.shape
-    except ValueError:
-        n_endog, n_exog = len(gu), 1
+    n_endog, n_exog = gu.shape
 
     # final period with a binding constraint
     last_bound = np.amax((regime_starts0[-1], regime_starts1[-1])) - 1
@@ -735,14 +730,9 @@ def _simulate_hypothesized_paths_two_constraints(
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
 
-    try:
-        innovs = innovs.item()
-    except ValueError:
-        pass
-
     # shocks to exogenous variables
     if last_bound > -1:
-        Q = np.squeeze(np.dot(E_init, innovs))
+        Q = np.dot(E_init, innovs)
         history[1] = np.dot(P[:, :, 0], history[0]) + D[:, 0] + Q
     else:
         history[1] = np.dot(gy, history[0]) + np.dot(gu, innovs)
-- 
2.43.0


From 5688c64e8c1e7ef3cb08ee6a80087eec3a4c38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:31 +0000
Subject: [PATCH 35/55] fix: initial values could not be given to an
 occasionally binding solution

---
 pynare/core/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 48165ff..f696adf 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -180,7 +180,7 @@ class Model(DynamicModel):
 
             # occasionally-bound solutions are always conditional on shock paths
             exog, shocks = kwargs.pop('exog', None), kwargs.pop('shocks', 100)
-            init = kwargs.get('init', None)
+            init = kwargs.pop('init', None)
 
             solution = OccBinSolution(
                 self,
-- 
2.43.0


From e80e10f350192f8e5a53f8dcd140378c57959ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:54 +0000
Subject: [PATCH 36/55] fix: alternative regimes are linearised around the
 reference steady state

---
 pynare/core/linearizing.py   | 15 ++++++++++----
 pynare/core/solve/binding.py | 38 ++++++++++++++++++++++++------------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/pynare/core/linearizing.py b/pynare/core/linearizing.py
index 15bf85f..b026259 100644
--- a/pynare/core/linearizing.py
+++ b/pynare/core/linearizing.py
@@ -35,16 +35,23 @@ class Linearization(object):
 
     @cached_property
     def array(self):
-        # default to Jacobian method here, too. differentiate functions if, somehow,
-        #   they're not already created
+        # default to Jacobian method here, too
+        return self.evaluate(self.ss)
+
+
+    def evaluate(self, point: np.ndarray):
+        """
+        first derivatives of the functions at `point`
+        """
+        # differentiate functions if, somehow, they're not already created
         if not self.linearized_funcs:
             self.differentiate_functions()
 
-        n_exprs, n_cols = len(self.linearized_funcs), len(self.ss)
+        n_exprs, n_cols = len(self.linearized_funcs), len(point)
         jac = np.zeros((n_exprs, n_cols))
 
         for i, func in enumerate(self.linearized_funcs):
-            jac[i, :] = np.array(func(self.ss))
+            jac[i, :] = np.array(func(point))
 
         return jac
 
diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index b5ea449..18ab358 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -297,10 +297,12 @@ def solve_occbin_one_constraint(
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
-    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt)
 
-    # correction for alt regime due to linearizing around the reference one
-    Dstar = alt.dynamic_repr(_translate_ss(ref.ss.values, alt))
+    # the alt regime is linearized around the steady state of the reference one, which
+    #   its equations need not satisfy
+    ss_alt = _translate_ss(ref.ss.values, alt)
+    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt, ss_alt)
+    Dstar = alt.dynamic_repr(ss_alt)
 
     # pre-allocate the piecewise linear paths and the regime indicators. save
     #   initial endogenous vector, whose name will be overwritten
@@ -457,14 +459,18 @@ def solve_occbin_two_constraints(
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
-    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0)
-    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1)
-    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl)
 
-    # correction for alt regimes due to linearizing around the reference one
-    D_alt0 = alt0.dynamic_repr(_translate_ss(ref.ss.values, alt0))
-    D_alt1 = alt1.dynamic_repr(_translate_ss(ref.ss.values, alt1))
-    D_dbl = dbl.dynamic_repr(_translate_ss(ref.ss.values, dbl))
+    # the alt regimes are linearized around the steady state of the reference one,
+    #   which their equations need not satisfy
+    ss_alt0 = _translate_ss(ref.ss.values, alt0)
+    ss_alt1 = _translate_ss(ref.ss.values, alt1)
+    ss_dbl = _translate_ss(ref.ss.values, dbl)
+    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0, ss_alt0)
+    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1, ss_alt1)
+    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl, ss_dbl)
+    D_alt0 = alt0.dynamic_repr(ss_alt0)
+    D_alt1 = alt1.dynamic_repr(ss_alt1)
+    D_dbl = dbl.dynamic_repr(ss_dbl)
 
     # pre-allocate the piecewise linear paths and the regime indicators. save
     #   initial endogenous vector, whose name will be overwritten
@@ -817,12 +823,18 @@ def _process_occbin_parameters(
     return exog_idx, shocks, init, periods
 
 
-def _occbin_partitioned_jacobian(model: Model):
+def _occbin_partitioned_jacobian(model: Model, ss: np.ndarray = None):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-    period the endogenous variable corresponding to that column appears in
+    period the endogenous variable corresponding to that column appears in. the jacobian
+    is taken at `ss`, the values of the dated endogenous variables, if it is provided,
+    or at the model's own steady state otherwise
     """
-    J, idx = model.jacobian.array, model.indexes
+    idx = model.indexes
+    if ss is None:
+        J = model.jacobian.array
+    else:
+        J = model.jacobian.evaluate(np.concatenate((ss, np.zeros(idx.n_exog))))
 
     # partition the jacobian based on whether the column is a derivative with respect
     #   to time t-1, t, or t+1 variables
-- 
2.43.0


From f975d53825fb1a383c59b08b8da09f25513a8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:32 +0000
Subject: [PATCH 37/55] fix: number of regimes of a regime-switching model

---
 pynare/regimes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/regimes.py b/pynare/regimes.py
index de4466c..38bac62 100644
--- a/pynare/regimes.py
+++ b/pynare/regimes.py
@@ -65,7 +65,7 @@ class RegimeSwitchingModel(object):
         return self.models[key]
 
     def __len__(self):
-        return len(self.exprs) + 1
+        return len(self.models)
 
     def __repr__(self):
         return f"RegimeSwitchingModel(n={len(self)})"
-- 
2.43.0


From 5a80e1bacee1f6c9e016795ef2d087e681b15d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 38/55] fix: one column of shocks for an occasionally binding
 solution

---
 pynare/core/solve/binding.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 18ab358..c010952 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -625,11 +625,7 @@ def _simulate_hypothesized_paths(
 
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
-    if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
-    else:
-        for i, ex in enumerate(exog_idx):
-            innovs[ex] = shock[i]
+    innovs[np.atleast_1d(exog_idx)] = shock
 
     # shocks to exogenous variables
     if last_bound > -1:
@@ -730,11 +726,7 @@ def _simulate_hypothesized_paths_two_constraints(
 
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
-    if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
-    else:
-        for i, ex in enumerate(exog_idx):
-            innovs[ex] = shock[i]
+    innovs[np.atleast_1d(exog_idx)] = shock
 
     # shocks to exogenous variables
     if last_bound > -1:
-- 
2.43.0


From 363ed3b49bb159ceea18fc61b35f807a7e9e418d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 39/55] fix: plots dropped series in rows and columns, and
 failed for one series and for rows

---
 pynare/plotting/base.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pynare/plotting/base.py b/pynare/plotting/base.py
index 5666cc9..d961674 100644
--- a/pynare/plotting/base.py
+++ b/pynare/plotting/base.py
@@ -50,15 +50,16 @@ class PynarePlot(object):
 
     def _plot_column(self, **kwargs):
 
-        nsubs = self.axes.size
+        # there is only an array of axes if there are many of them
+        axes = np.atleast_1d(self.axes)
+        nsubs = axes.size
 
         nplots = min(nsubs, self._nseries)
         for k in range(nplots):
-            ts = self.data[:, k]
-            label = self.labels[k]
+            sub = self.data[:, k::nsubs]
+            labels = self.labels[k::nsubs]
 
-            ax = self.axes[k]
-            self._plot(ax, ts, label, **kwargs)
+            self._plot(axes[k], sub, labels, **kwargs)
 
 
     def arrange_plot(
@@ -93,6 +94,9 @@ class PynarePlot(object):
                     elif layout == 'column':
                         nrows, ncols = self._nseries, 1
 
+                    elif layout == 'row':
+                        nrows, ncols = 1, self._nseries
+
                     else:
                         raise ValueError(f"unrecognized value of layout: {layout}")
 
@@ -114,7 +118,7 @@ class PynarePlot(object):
         self.figure, self.axes = _generate_subplots(kwargs)
 
         if subplots:
-            if len(self.axes.shape) == 1:
+            if np.ndim(self.axes) < 2:
                 self._plot_column(**kwargs)
             else:
                 self._plot_grid(**kwargs)
-- 
2.43.0


From 09e2199e51e95c3ae6e6c987d22faeba75aa4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:21 +0000
Subject: [PATCH 40/55] fix: display thresholds of summaries compare absolute
 values

---
 pynare/io/summary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index c6afb4b..44fc344 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -480,7 +480,7 @@ class SecondOrderSummary(SolutionSummary):
             thresh = 10**(-(self.sig + self.thresh))
         else:
             thresh = 10**(-self.sig)
-        tloc = ~np.all(arr_dc < thresh, axis=1)
+        tloc = ~np.all(np.absolute(arr_dc) < thresh, axis=1)
 
         # always display steady state and del2 array
         tloc[0] = True
@@ -641,14 +641,14 @@ def _summarize_array(
     # optionally select a subset of displayed array
     if thresh is not None:
         thresh_ = 10 ** (-(sig + thresh))
-        pidx = ~np.all(arr < thresh_, axis=1)
+        pidx = ~np.all(np.absolute(arr) < thresh_, axis=0)
     else:
         pidx = np.ones(arr.shape[1], dtype=bool)
 
     # ensure that `labels` is an array so indexing with list works right
     labels = np.array(labels)
 
-    # only select rows that meet threshold
+    # only select columns that meet threshold
     arr, labels = arr[:, pidx], labels[pidx]
 
     # number of points to right and left of decimal. `+3` factors in minus signs
-- 
2.43.0


From baf3d40193953e1b20e9378afdff6c2693ce13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 41/55] fix: labels of the state-shock block in second-order
 summaries

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 44fc344..35a2da3 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -537,8 +537,8 @@ class SecondOrderSummary(SolutionSummary):
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
         gyx_idx = n_st*np.repeat(st_idx, n_st) + np.tile(st_idx, n_st)
-        gyu_idx = n_st*np.repeat(np.arange(n_exog), n_st) \
-            + np.tile(np.arange(n_st), n_exog)
+        gyu_idx = n_exog*np.repeat(st_idx, n_exog) \
+            + np.tile(np.arange(n_exog), n_st)
 
         gy = gy[:, st_idx]
         gyx = gyx[:, gyx_idx]
-- 
2.43.0


From 0423ee14ab6593ee9bd4638217d2b9a0456f7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 42/55] fix: lags of the autocorrelation summary

---
 pynare/io/summary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 35a2da3..c758b37 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -308,7 +308,7 @@ class ModelStatisticsSummary(Summary):
         arr = np.transpose(np.array([np.diagonal(arr) for arr in acr_3d]))
 
         # column labels to display
-        headings = [f"p = {i}" for i in range(self.autocorr)]
+        headings = [f"p = {i}" for i in range(1, self.autocorr+1)]
         arr_str = _summarize_array(
             arr=arr,
             labels=headings,
@@ -322,7 +322,7 @@ class ModelStatisticsSummary(Summary):
         labels = [en.ljust(lpad) for en in endog]
 
         # add heading and pad all rows
-        acr_str = ['autocovariance of endogenous variables:']
+        acr_str = ['autocorrelation of endogenous variables:']
         acr_str = acr_str + [''.join((l, a)) for l, a in zip(labels, arr_str)]
         delim = f"\n{self.pad}"
         return delim.join(acr_str)
-- 
2.43.0


From 57395e45cc7e7e88f6afcaacc48e1a756aa2d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 43/55] fix: summaries of models with empty or all-zero blocks

---
 pynare/io/summary.py | 53 +++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index c758b37..2151554 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -128,11 +128,7 @@ class ModelSummary(Summary):
         r, c, m = np.real(eigs), np.imag(eigs), np.absolute(eigs)
 
         # record number of points to left and right of decimal
-        arr = np.absolute(np.concatenate((r, c, m)))
-        good = (arr > 0) & np.isfinite(arr) & ~np.isnan(arr)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.max(np.log10(arr[good]))) + 3)
+        l = _left_digits(np.concatenate((r, c, m)))
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -155,12 +151,10 @@ class ModelSummary(Summary):
         print the covariance matrix of shocks
         """
         stoch = self.obj.stoch.names
-        lpad = max(map(len, stoch)) + 1
+        lpad = max(map(len, stoch), default=0) + 1
 
         # record number of points to left and right of decimal
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.nanmax(np.log10(np.absolute(self.obj.sigma)))) + 3)
+        l = _left_digits(self.obj.sigma)
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -189,14 +183,11 @@ class ModelSummary(Summary):
             param_strs = ['partial model calibration:']
 
         # format width and number of digits
-        width = max(map(len, display)) + 1
+        width = max(map(len, display), default=0) + 1
         sig, pad = self.sig, self.pad
 
-        # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(display.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        # number of points to left of decimal
+        l = _left_digits(list(display.values()))
 
         for k, v in display.items():
             row = '= '.join([pad+k.ljust(width), f"{v:{l+sig}.{sig}f}"])
@@ -396,7 +387,8 @@ class FirstOrderSummary(SolutionSummary):
         ss_dr = self.obj.model.ss.values[idx.dr_order]
 
         # join arrays so that both gy and gu use same widest value
-        ss, gy, gu = unp.ensure_2darray((ss_dr, self.obj.gy, self.obj.gu))
+        ss = unp.ensure_2darray(ss_dr)
+        gy, gu = self.obj.matrices
 
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
@@ -415,8 +407,8 @@ class FirstOrderSummary(SolutionSummary):
         )
 
         # with widths matched, we split the arrays
-        n_gy, n_gu = gy.shape[1], gu.shape[1]
-        gy_str, gu_str = arr_str[:n_gy+2], arr_str[-n_gu:]
+        n_gy = gy.shape[1]
+        gy_str, gu_str = arr_str[:n_gy+2], arr_str[n_gy+2:]
         return gy_str, gu_str
 
     def row_labels(self):
@@ -522,11 +514,11 @@ class SecondOrderSummary(SolutionSummary):
 
         # first-order solution arrays
         lower = self.obj.lower_solution
-        ss_dr, gy, gu = unp.ensure_2darray((ss_dr, lower.gy, lower.gu))
+        ss_dr = unp.ensure_2darray(ss_dr)
+        gy, gu = lower.matrices
 
         # second order solution arrays
-        ar = self.obj.arrays
-        gyx, gyu, guu, del2 = unp.ensure_2darray((ar.ghxx, ar.ghxu, ar.ghuu, ar.del2))
+        gyx, gyu, guu, del2 = self.obj.matrices
 
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
@@ -627,6 +619,19 @@ class SecondOrderSummary(SolutionSummary):
 
 
 
+def _left_digits(values):
+    """
+    number of characters to the left of the decimal point of the widest of `values`.
+    `+3` factors in minus signs
+    """
+    arr = np.absolute(np.asarray(values, dtype=float))
+    good = arr[(arr > 0) & np.isfinite(arr)]
+    if good.size == 0:
+        return 3
+    return max(int(np.floor(np.max(np.log10(good)))), 0) + 3
+
+
+
 def _summarize_array(
     arr: np.ndarray,
     labels: Iterable[str],
@@ -651,10 +656,8 @@ def _summarize_array(
     # only select columns that meet threshold
     arr, labels = arr[:, pidx], labels[pidx]
 
-    # number of points to right and left of decimal. `+3` factors in minus signs
-    with np.errstate(divide='ignore', invalid='ignore'):
-        # locally silence RuntimeWarnings about dividing by zero or infinity
-        l = int(np.fix(np.nanmax(np.log10(np.absolute(arr)))) + 3)
+    # number of points to left of decimal
+    l = _left_digits(arr)
 
     # horizontal spacing determined by width of label variable name or float repr
     w = max([l+sig] + [len(lab) for lab in labels]) + 1
-- 
2.43.0


From c7eccd62fcd2d6dbbad8b5f1e4d5f8e77d5f7b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 44/55] fix: sample statistics of no periods at all are refused

---
 pynare/simul.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 0345bb5..b82703a 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -105,10 +105,10 @@ class ModelSimulation(object):
         periods = paths.shape[0]
 
         # check there are enough periods to compute p-th autocorrelation
-        if p > periods:
+        if p >= periods:
             raise ValueError(
                 "too many autocorrelation lags given this many periods: "
-                f"{p} > {periods}"
+                f"{p} >= {periods}"
             )
 
         # compute empirical moments of simulated data
@@ -371,10 +371,10 @@ def _drop_simulated_paths(
         raise ValueError(f"if provided, `drop` must be greater than zero: {drop}")
 
     periods = paths.shape[0]
-    if drop > periods:
+    if drop >= periods:
         raise ValueError(
-            "the number of dropped periods exceeds the number of simulated "
-            f"periods: {drop} > {periods}"
+            "the number of dropped periods leaves none of the simulated periods: "
+            f"{drop} >= {periods}"
         )
 
     # drop requested number of periods
-- 
2.43.0


From 0e6c0b754b9fd486565b85e3ab2c63fb52cdcb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 45/55] fix: unknown shock names in the variance decomposition
 of one-shock models

---
 pynare/stats/var.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 8c7bc32..dee80fa 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -49,7 +49,11 @@ def var_decomp(
                     endog_idx.append(np.where(endog_names == eg)[0].item())
                 except ValueError:
                     raise ValueError(f"'{eg}' is not an endogenous variable") from None
-            return decomp_shares[endog_idx]
+            decomp_shares = decomp_shares[endog_idx]
+
+        for sc in ensure_list(stoch) if stoch else []:
+            if sc not in md.stoch.names:
+                raise ValueError(f"'{sc}' is not a stochastic variable")
 
         return decomp_shares
 
-- 
2.43.0


From e1443881b3a8dc7e3cc7f71f59f427ae3302d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:34 +0000
Subject: [PATCH 46/55] fix: rank condition is checked with an absolute
 tolerance

---
 pynare/core/solve/statespace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 4e3caa4..f47b3ed 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -63,8 +63,10 @@ class StateSpace(object):
             self.is_verified = False
             raise ModelIdentificationError('order', n_explosive, n_forward)
 
+        # block of an orthogonal matrix, so its singular values are between 0 and 1. a
+        #   relative tolerance could not detect that all of them are negligible
         Z22 = self.zarrays.Z_22
-        if np.linalg.matrix_rank(Z22) != Z22.shape[0]:
+        if np.linalg.matrix_rank(Z22, tol=1e-9) != Z22.shape[0]:
             self.is_verified = False
             raise ModelIdentificationError('rank')
 
-- 
2.43.0


From 4209285eb2a3869d2f9e42258554c46d7df08cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:56 +0000
Subject: [PATCH 47/55] fix: unary plus on a model variable cannot be
 differentiated

---
 pynare/parsing/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index 62e3271..c388bfe 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -205,7 +205,8 @@ class _BaseEvaluator(ABCVisitor):
 
     def visit_UnaryOp(self, node):
         if node.op.type == PLUS:
-            return + self.visit(node.expr)
+            # autograd's ArrayBoxes don't define a unary plus
+            return self.visit(node.expr)
         elif node.op.type == MINUS:
             return - self.visit(node.expr)
 
-- 
2.43.0


From 28887a027b6a7e0c2518f5d55db2bd78e1a1624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:12 +0000
Subject: [PATCH 48/55] fix: second derivatives of powers whose variable
 exponent equals zero

---
 pynare/parsing/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pynare/parsing/base.py b/pynare/parsing/base.py
index c388bfe..06778d1 100644
--- a/pynare/parsing/base.py
+++ b/pynare/parsing/base.py
@@ -9,6 +9,7 @@ from copy import deepcopy
 # use autograd's thinly wrapped numpy & scipy to handle ArrayBoxes when 
 #    evaluating derivatives
 import autograd.numpy as np
+from autograd.tracer import isbox
 from autograd.scipy.special import erf
 
 import pynare.parsing.ast as ast
@@ -189,7 +190,12 @@ class _BaseEvaluator(ABCVisitor):
         elif node.op.type == DIV:
             return self.visit(node.left) / self.visit(node.right)
         elif node.op.type == POWER:
-            return self.visit(node.left) ** self.visit(node.right)
+            base, exponent = self.visit(node.left), self.visit(node.right)
+            if isbox(exponent) and base > 0:
+                # autograd's second derivatives of `base ** exponent` are wrong
+                #   wherever a variable exponent equals zero
+                return np.exp(exponent * np.log(base))
+            return base ** exponent
 
     def visit_CompOp(self, node):
         if node.op.type == LT:
-- 
2.43.0


From 82f5f0fd85b60bc999a4ffed8b81f75657737c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:32 +0000
Subject: [PATCH 49/55] fix: moments of shocks given as numpy integers or
 single floats were ignored

---
 pynare/core/generic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index e547ccf..2df195c 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -417,11 +417,11 @@ class DynamicModel(StructuredModel):
         # first initialize variance, in case a correlated variable is given
         #    and needs to be rescaled to covariance
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.variance, (int, float)):
+            if shk.variance is not None:
                 sig[i, i] = shk.variance
 
         for i, shk in enumerate(self.stoch):
-            if isinstance(shk.corr, (int, float)):
+            if shk.corr is not None:
                 j = np.where(stoch_names == shk.other)[0]
                 cov = np.sqrt(shk.variance*sig[j, j]) * shk.corr
 
@@ -429,7 +429,7 @@ class DynamicModel(StructuredModel):
 
             # with an `if` here, any correlated variables that are declared as
             #    covarying ones later in the shock block are overwritten
-            if isinstance(shk.cov, (int, float)):
+            if shk.cov is not None:
                 j, cov = np.where(stoch_names == shk.other)[0], shk.cov
                 sig[i, j], sig[j, i] = cov, cov
 
-- 
2.43.0


From c71d01971561171619cdf95f2f1c160e2e7ddf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:48 +0000
Subject: [PATCH 50/55] fix: correlations with a variable that is not a shock
 were ignored

---
 pynare/core/generic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 2df195c..7a2c6f8 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -410,7 +410,6 @@ class DynamicModel(StructuredModel):
         """
 
         # pre-allocate
-        stoch_names = self.stoch.names
         n_stoch = len(self.stoch)
         sig = np.zeros((n_stoch, n_stoch), dtype=float)
 
@@ -422,7 +421,7 @@ class DynamicModel(StructuredModel):
 
         for i, shk in enumerate(self.stoch):
             if shk.corr is not None:
-                j = np.where(stoch_names == shk.other)[0]
+                j = self.stoch.get_loc(shk.other)
                 cov = np.sqrt(shk.variance*sig[j, j]) * shk.corr
 
                 sig[i, j], sig[j, i] = cov, cov
@@ -430,7 +429,7 @@ class DynamicModel(StructuredModel):
             # with an `if` here, any correlated variables that are declared as
             #    covarying ones later in the shock block are overwritten
             if shk.cov is not None:
-                j, cov = np.where(stoch_names == shk.other)[0], shk.cov
+                j, cov = self.stoch.get_loc(shk.other), shk.cov
                 sig[i, j], sig[j, i] = cov, cov
 
         return sig
-- 
2.43.0


From f4d1daafb3019ac5a02d0632392808bcaf0a691e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 51/55] fix: shock moments that refer to a variable without a
 value were taken as zero

---
 pynare/parsing/factory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 5501178..c1d8264 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -418,6 +418,11 @@ class DynareModelFactory(base.ABCVisitor):
             sname = sdef.shock.value
             shock = shocks.get(sname, {})
 
+            if moment is None:
+                raise SyntaxError(
+                    f"moment of shock '{sname}' refers to an unassigned variable"
+                )
+
             if shock_type == 'variance':
                 shock['variance'] = moment
 
-- 
2.43.0


From 44d2bbabe08ba3147d76e7612f75314190a69468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:43 +0000
Subject: [PATCH 52/55] fix: moments kept the transition matrices of an earlier
 solution

---
 pynare/core/solve/statespace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index f47b3ed..4085e08 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -6,7 +6,6 @@ from __future__ import annotations
 import numpy as np
 from scipy import linalg
 from collections import namedtuple
-from functools import cached_property
 
 import pynare.utils.numpy as unp
 from pynare.errors import ModelIdentificationError
@@ -74,7 +73,9 @@ class StateSpace(object):
         return None
 
 
-    @cached_property
+    # these depend on the current solution of the model, which can be newer than this
+    #   state space
+    @property
     def sigma(self):
         """
         from the first-order state variable transition process
@@ -89,7 +90,7 @@ class StateSpace(object):
         Q = np.matmul(g_utp1, np.matmul(self.model.sigma, np.transpose(g_utp1)))
         return linalg.solve_discrete_lyapunov(g_xtp1x, Q)
 
-    @cached_property
+    @property
     def kalman_transition(self):
         """
         create the Kalman transition matrices of the state-space
-- 
2.43.0


From d526fee12190b33ea7bc35d6fe890333c529487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:49 +0000
Subject: [PATCH 53/55] fix: simulations and impulse responses could not be
 plotted with a positional layout

---
 pynare/impulse.py | 2 --
 pynare/simul.py   | 2 --
 2 files changed, 4 deletions(-)

diff --git a/pynare/impulse.py b/pynare/impulse.py
index 66cc8bb..a46e500 100644
--- a/pynare/impulse.py
+++ b/pynare/impulse.py
@@ -37,8 +37,6 @@ class ImpulseResponse(object):
         **kwargs
     ):
         artist = PathPlot(self.impulse, self.model.endog)
-        kwargs.setdefault('layout', 'rect')
-
         return artist.plot(*args, **kwargs)
 
 
diff --git a/pynare/simul.py b/pynare/simul.py
index b82703a..86ce711 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -34,8 +34,6 @@ class ModelSimulation(object):
         **kwargs
     ):
         artist = PathPlot(self.paths, self.model.endog)
-        kwargs.setdefault('layout', 'rect')
-
         return artist.plot(*args, **kwargs)
 
 
-- 
2.43.0


From cc5ee266bb1b4c72e96cd70c65d837c5d591a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:27 +0000
Subject: [PATCH 54/55] fix: a single parameter to summarise can be given by
 its name

---
 pynare/io/summary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 2151554..e047408 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -179,7 +179,8 @@ class ModelSummary(Summary):
             param_strs = ['model calibration:']
 
         else:
-            display = {p: self.obj.params[p] for p in self.params}
+            names = self.params if is_iterable_not_str(self.params) else [self.params]
+            display = {p: self.obj.params[p] for p in names}
             param_strs = ['partial model calibration:']
 
         # format width and number of digits
-- 
2.43.0


From fc035576fdab80207cb292b2b7f52660a7a6098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:09 +0000
Subject: [PATCH 55/55] fix: matmul_scalar accepts python scalars

---
 pynare/utils/numpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 1bff2a6..4cf5476 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -50,12 +50,12 @@ def matmul_scalar(
     """
     try:
         x1_ = x1.item()
-    except ValueError:
+    except (AttributeError, ValueError):
         x1_ = x1
 
     try:
         x2_ = x2.item()
-    except ValueError:
+    except (AttributeError, ValueError):
         x2_ = x2
 
     if np.isscalar(x1_) or np.isscalar(x2_):
-- 
2.43.0

