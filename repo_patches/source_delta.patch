From f75d79124c0663e5c7b194e2855977989ec57ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:03 +0000
Subject: [PATCH 01/30] fix: lexer and parser always terminate on truncated or
 malformed text

---
 pynare/parsing/lexer.py  | 23 ++++++++++++++++-------
 pynare/parsing/parser.py |  3 +++
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c0d7e2..6c3daad 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -33,7 +33,7 @@ class BaseLexer(object):
 
         self.line_pos = self.pos = 0
         self.current_line = 1 # I don't know any text editors that 0-index rows
-        self.current_char = self.text[self.pos]
+        self.current_char = self.text[self.pos] if self.text else None
 
 
     # basic lexer functionality
@@ -88,10 +88,9 @@ class BaseLexer(object):
         position by one
         """
 
-        # if the token stream is ran through multiple times for some reason, we 
-        #    need to reset the token position
+        # once the token stream is exhausted, keep returning the closing EOF token
         if self.token_pos >= len(self.token_stream):
-            self.token_pos += 1 # self.token_pos = 0 ????
+            self.token_pos = len(self.token_stream) - 1
 
         token = self.token_stream[self.token_pos]
         self.token_pos += 1
@@ -173,7 +172,12 @@ class BaseLexer(object):
         """
         result = ''
         self.advance()
-        while self.current_char is not quote:
+        while self.current_char != quote:
+            if self.current_char is None:
+                raise SyntaxError(
+                    f'unterminated string in line {self.current_line}, '
+                    f'column {self.line_pos}'
+                )
             result += self.current_char
             self.advance()
         self.advance()
@@ -422,7 +426,7 @@ class DynareLexer(BaseLexer):
 
     def skip_singleline_comment(self):
         """ single line comments are signified by '%' or '//' """
-        while self.current_char != '\n':
+        while self.current_char is not None and self.current_char != '\n':
             self.advance()
         self.skip_whitespace() # just in case
 
@@ -434,7 +438,12 @@ class DynareLexer(BaseLexer):
     def skip_multiline_comment(self):
         # multiline comments begin '/*' and end '*/' 
         self.advance(n=2)
-        while (self.current_char != '*') and (self.peek() != '/'):
+        while (self.current_char != '*') or (self.peek() != '/'):
+            if self.current_char is None:
+                raise SyntaxError(
+                    f'unterminated comment in line {self.current_line}, '
+                    f'column {self.line_pos}'
+                )
             self.advance()
 
         # skipping the closing '*/'
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index b534eac..f7cffcb 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -270,6 +270,9 @@ class DynareParser(BaseParser):
                 assigned_parameter = self.variable_assignment()
                 parameter_list.append(assigned_parameter)
 
+            else:
+                self.error()
+
         return ast.VariablePreamble(
             declared_variables=declaration_list,
             assigned_parameters=parameter_list
-- 
2.43.0


From b0bd69e1a2f81ff0f41169a4b54b1aa71a38bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 02/30] fix: unary minus binds tighter than products and
 adjacent calls are a syntax error

---
 pynare/parsing/parser.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index f7cffcb..693a49d 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -66,7 +66,7 @@ class BaseParser(object):
         atom : ID
              | NUMBER
              | LPARE expr RPARE
-             | (NIMUS | PLUS) term
+             | (MINUS | PLUS) exponent
         """
         token = self.current_token
 
@@ -86,11 +86,11 @@ class BaseParser(object):
 
         elif token.type in (base.MINUS, base.PLUS):
             self.eat(token.type)
-            # sending 'expr' to term() instead of expr() is what ensures
-            #    the proper unary operation functionality
+            # sending 'expr' to exponent() instead of term() or expr() is what ensures
+            #    the operand doesn't swallow the factors that come after it
             return ast.UnaryOp(
                 op=token,
-                expr=self.term()
+                expr=self.exponent()
             )
 
         self.error()
@@ -102,9 +102,9 @@ class BaseParser(object):
 
         we don't call the lower-level method first like we do in other expression
         methods, because the atom() method doesn't recognize tokens of type
-        FUNCTION. Instead we do the try ... except below
+        FUNCTION
         """
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -115,11 +115,9 @@ class BaseParser(object):
             )
 
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.atom()
+
+        return self.atom()
 
     def exponent(self) -> AST:
         """
@@ -518,14 +516,14 @@ class DynareParser(BaseParser):
             self.eat(token.type)
             node = ast.UnaryOp(
                 op=token,
-                expr=self.mterm()
+                expr=self.mexponent()
             )
             return node
 
         self.error()
 
     def mcall(self) -> AST:
-        while self.current_token.type == base.FUNCTION:
+        if self.current_token.type == base.FUNCTION:
             token = self.current_token
             self.eat(base.FUNCTION)
             self.eat(base.LPARE)
@@ -534,11 +532,9 @@ class DynareParser(BaseParser):
                 expr=self.mexpr()
             )
             self.eat(base.RPARE)
-
-        try:
             return node
-        except UnboundLocalError:
-            return self.matom()
+
+        return self.matom()
 
     def mexponent(self) -> AST:
         node = self.mcall()
-- 
2.43.0


From 2cc695b0b8f894a2d0bdb099fca8238d216a0e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 03/30] fix: text left over after an expression is a syntax
 error

---
 pynare/core/expressions.py | 8 +++++++-
 pynare/parsing/parser.py   | 6 +++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 1d99f42..df84050 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -113,7 +113,13 @@ class ExprParser(DynareParser):
 
 
     def parse(self):
-        return self.model_expression()
+        node = self.model_expression()
+        if self.current_token.type == base.SEMI:
+            self.eat(base.SEMI)
+        if self.current_token.type != base.EOF:
+            # there's text left over after the expression
+            self.error()
+        return node
 
 
 
diff --git a/pynare/parsing/parser.py b/pynare/parsing/parser.py
index 693a49d..92f146f 100644
--- a/pynare/parsing/parser.py
+++ b/pynare/parsing/parser.py
@@ -201,7 +201,11 @@ class BaseParser(object):
         return node
 
     def parse(self) -> AST:
-        return self.comp_expr()
+        node = self.comp_expr()
+        if self.current_token.type != base.EOF:
+            # there's text left over after the expression
+            self.error()
+        return node
 
 COMPS = (base.LT, base.LTOE, base.GT, base.GTOE, base.EQUALITY)
 
-- 
2.43.0


From 1c2fae528d1f30b70a83afb9b712989ed8faf526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 04/30] fix: reserved keyword tokens no longer share their
 location between lexers

---
 pynare/parsing/lexer.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pynare/parsing/lexer.py b/pynare/parsing/lexer.py
index 6c3daad..39188d8 100644
--- a/pynare/parsing/lexer.py
+++ b/pynare/parsing/lexer.py
@@ -144,11 +144,15 @@ class BaseLexer(object):
             result += self.current_char
             self.advance()
         try:
-            token = self.reserved_kw[result]
+            reserved = self.reserved_kw[result]
         except KeyError:
-            token = base.reserved_funcs.get(result, Token(base.ID, result))
-        token.assign_loc(self.current_line, self.line_pos)
-        return token
+            reserved = base.reserved_funcs.get(result, Token(base.ID, result))
+
+        # the reserved tokens are shared by every lexer, so a located copy of them is
+        #    returned instead of assigning a location to the shared instance
+        return Token(
+            reserved.type, reserved.value, self.current_line, self.line_pos
+        )
 
     def _number(self):
         """
-- 
2.43.0


From e307a23c6ebb70f830001033405e02ce15902215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:59 +0000
Subject: [PATCH 05/30] fix: model files are closed on error, and examples and
 path objects load from anywhere

---
 pynare/core/model.py |  2 +-
 pynare/io/files.py   | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index 22812fb..46ecb46 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -92,7 +92,7 @@ class Model(DynamicModel):
                 raise FileNotFoundError(filepath) from None
 
         # create the model name from the filepath
-        name = filepath.split('/')[-1]
+        name = str(filepath).split('/')[-1]
         name_no_suffix = name.split('.')[0]
 
         # create outline and use that to define model
diff --git a/pynare/io/files.py b/pynare/io/files.py
index e49ff68..3adbb6b 100644
--- a/pynare/io/files.py
+++ b/pynare/io/files.py
@@ -4,8 +4,14 @@ module for common I/O operations of pynare objects
 
 from __future__ import annotations
 
+import os
+
 from pynare.examples import ExampleRegistry
 
+# the examples' paths are relative to the directory that the package is in
+_package_dir = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
+_root_dir = os.path.dirname(_package_dir)
+
 
 def read_file(
     filepath: Union[str, Path]
@@ -22,10 +28,8 @@ def read_file(
     -------
     the contents of the file as a string
     """
-    f = open(filepath, 'r')
-    f_str = f.read()
-    f.close()
-    return f_str
+    with open(filepath, 'r') as f:
+        return f.read()
 
 
 def read_example(
@@ -43,5 +47,5 @@ def read_example(
     -------
     the contents of the example file, as a string
     """
-    example_path = ExampleRegistry.get_example(ex_name)
-    return read_file(example_path)
+    example_path = ExampleRegistry.get_example(str(ex_name))
+    return read_file(os.path.join(_root_dir, example_path))
-- 
2.43.0


From 0a799eb8d19e346642c1596943e062b9f91c2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:51 +0000
Subject: [PATCH 06/30] fix: models without a shocks block and with a histval
 block can be loaded

---
 pynare/parsing/factory.py   | 5 +++--
 pynare/parsing/semantics.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 4568268..0a5f07a 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -351,7 +351,8 @@ class DynareModelFactory(base.ABCVisitor):
     # 
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
@@ -365,7 +366,7 @@ class DynareModelFactory(base.ABCVisitor):
 
         if node.histval:
             hist_values = self.calculate_ModelBoundaryValues(node.histval)
-            self.outline._historical_values = end_values
+            self.outline._historical_values = hist_values
 
 
     def calculate_ModelBoundaryValues(self, boundaries):
diff --git a/pynare/parsing/semantics.py b/pynare/parsing/semantics.py
index 1df7b10..d167f83 100644
--- a/pynare/parsing/semantics.py
+++ b/pynare/parsing/semantics.py
@@ -275,7 +275,8 @@ class DynareSemanticAnalyzer(ABCVisitor):
     #
     def visit_ModelActions(self, node):
         self.visit(node.boundaries)
-        self.visit(node.shocks)
+        if node.shocks:
+            self.visit(node.shocks)
 
 
     def visit_ModelBoundaryValues(self, node):
-- 
2.43.0


From e9d7bdb6a6143471432d9e1a41c00785bf1f2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 07/30] fix: failed parameter edits change nothing, and a
 calibration owns its definitions

---
 pynare/core/variables.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 9bef434..5b80dbc 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -783,17 +783,16 @@ class ModelCalibration(MutableMapping):
     """
 
     def __init__(self, defs):
-        self.defs = defs
-
-        calib = {}
-        for k, v in self.defs.items():
-            if isinstance(v, float):
-                calib[k] = v
-            elif isinstance(v, ast.Num):
-                calib[k] = v.value
+        # the caller's definitions are copied so that they aren't edited through here
+        if isinstance(defs, ModelCalibration):
+            defs = defs.defs
+        self.defs = dict(defs)
 
         self.calib = solve_calibration(self.defs)
 
+        # the number of times the definitions have been edited
+        self.n_edits = 0
+
     def __getitem__(self, key):
         try:
             return self.calib[key]
@@ -801,12 +800,24 @@ class ModelCalibration(MutableMapping):
             raise KeyError(f"'{key}' is not a parameter") from None
 
     def __setitem__(self, key, value):
-        self.defs[key] = value
-        self.calib = solve_calibration(self.defs) # inefficient
+        self.update({key: value})
 
     def __delitem__(self, key):
-        del self.defs[key]
-        del self.calib[key]
+        if key not in self.defs:
+            raise KeyError(f"'{key}' is not a parameter")
+        self._redefine({k: v for k, v in self.defs.items() if k != key})
+
+    def update(self, other=(), /, **kwargs):
+        """
+        set the definitions of many parameters at once. if any of them cannot be solved
+        for, none of the existing definitions are changed
+        """
+        self._redefine({**self.defs, **dict(other, **kwargs)})
+
+    def _redefine(self, defs):
+        calib = solve_calibration(defs) # inefficient
+        self.n_edits += 1
+        self.defs, self.calib = defs, calib
 
     def __iter__(self):
         return iter(self.calib)
-- 
2.43.0


From 2b99b0c6e2e5f62a49b8a94bdf23af121b9f28b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 08/30] fix: failed or interrupted edits and updates leave a
 model's definition whole

---
 pynare/core/expressions.py | 39 +++++++++++++++-------
 pynare/core/generic.py     | 68 +++++++++++++++++++++++++++-----------
 2 files changed, 76 insertions(+), 31 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index df84050..9b6b7c5 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -31,9 +31,13 @@ class ModelExprs(MutableSequence):
 
     def __init__(self, exprs: Iterable[AST, str] = []):
         super().__init__()
+
+        # the number of times the expressions have been edited
+        self.n_edits = 0
+
         if isinstance(exprs, ModelExprs):
-            self.exprs = exprs.exprs
-            self.exprs_str = exprs.exprs_str
+            self.exprs = list(exprs.exprs)
+            self.exprs_str = list(exprs.exprs_str)
 
         else:
             self.exprs = [self.parse(ep) for ep in exprs]
@@ -58,25 +62,36 @@ class ModelExprs(MutableSequence):
     def __getitem__(self, key):
         return self.exprs[key]
 
+    def _redefine(self, exprs, exprs_str):
+        self.n_edits += 1
+        self.exprs, self.exprs_str = exprs, exprs_str
+
     def __delitem__(self, key):
-        del self.exprs[key]
-        del self.exprs_str[key]
+        exprs, exprs_str = list(self.exprs), list(self.exprs_str)
+        del exprs[key]
+        del exprs_str[key]
+        self._redefine(exprs, exprs_str)
 
     def __setitem__(self, key, obj):
-        parsed = self.parse(obj)
-        self.exprs[key] = parsed
-        self.exprs_str[key] = obj if isinstance(obj, str) else ''
+        exprs, exprs_str = list(self.exprs), list(self.exprs_str)
+        exprs[key] = self.parse(obj)
+        exprs_str[key] = obj if isinstance(obj, str) else ''
+        self._redefine(exprs, exprs_str)
 
     def insert(self, key, obj):
-        parsed = self.parse(obj)
-        self.exprs.insert(key, parsed)
-
-        obj_str = obj if isinstance(obj, str) else ''
-        self.exprs_str.insert(key, obj_str)
+        exprs, exprs_str = list(self.exprs), list(self.exprs_str)
+        exprs.insert(key, self.parse(obj))
+        exprs_str.insert(key, obj if isinstance(obj, str) else '')
+        self._redefine(exprs, exprs_str)
 
     def append(self, obj):
         self.insert(len(self), obj)
 
+    def extend(self, objs):
+        # if any of the new expressions cannot be parsed, none of them are added
+        new = ModelExprs(objs)
+        self._redefine(self.exprs + new.exprs, self.exprs_str + new.exprs_str)
+
     def __repr__(self):
         n_exprs = len(self.exprs)
         return f"ModelExprs({n_exprs} exprs)"
diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 8685c63..5406b24 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -67,6 +67,18 @@ class ModelSkeleton(object):
         #    around it yet
         self.is_altered = False
 
+    @property
+    def is_altered(self):
+        # parameters and expressions can also be edited through their own interfaces
+        return self._is_altered or self._seen_edits != self._count_edits()
+
+    @is_altered.setter
+    def is_altered(self, altered):
+        self._is_altered, self._seen_edits = altered, self._count_edits()
+
+    def _count_edits(self):
+        return (self.params.n_edits,)
+
     def __repr__(self):
         class_ = self.__class__.__name__
         if self.name:
@@ -91,9 +103,9 @@ class ModelSkeleton(object):
         None
         """
         _endog = _create_endog_vars(endog, **kwargs)
-        self.endog = np.concatenate((self.endog, _endog))
 
         self.is_altered = True
+        self.endog = VarArray([*self.endog, *_endog])
 
     def add_params(self, **kwargs):
         """
@@ -109,8 +121,7 @@ class ModelSkeleton(object):
         -------
         None
         """
-        for k, v in kwargs.items():
-            self.params[k] = v
+        self.params.update(kwargs)
 
         self.is_altered = True
 
@@ -151,9 +162,16 @@ class StructuredModel(ModelSkeleton):
         self.exprs = ModelExprs(exprs)
         self.endog = set_lead_lags(self.endog, self.exprs)
 
+        # the expressions weren't there to be counted when this was first set
+        self.is_altered = False
+
         # i don't particularly like passing a partially initialized model...
         self._steady_repr = SteadyRepr(self)
 
+    def _count_edits(self):
+        exprs = getattr(self, 'exprs', None)
+        return (self.params.n_edits, 0 if exprs is None else exprs.n_edits)
+
     def add_exprs(self, exprs):
         """
         add a single, or more than one, expression to the model definition
@@ -202,10 +220,16 @@ class StructuredModel(ModelSkeleton):
         return np.array([eg.initial for eg in self.endog], dtype=float)
 
     def update(self, *args, **kwargs):
-        self.is_altered = False
+        try:
+            self.is_altered = False
 
-        self.endog = set_lead_lags(self.endog, self.exprs)
-        self._steady_repr = SteadyRepr(self)
+            self.endog = set_lead_lags(self.endog, self.exprs)
+            self._steady_repr = SteadyRepr(self)
+
+        except BaseException:
+            # the update is still owed to whoever asks next
+            self.is_altered = True
+            raise
 
 
 
@@ -282,9 +306,9 @@ class DynamicModel(StructuredModel):
         None
         """
         _stoch = _create_stoch_vars(stoch, **kwargs)
-        self.stoch = np.concatenate((self.stoch, _stoch))
 
         self.is_altered = True
+        self.stoch = VarArray([*self.stoch, *_stoch])
 
     def add_determ(self, determ, **kwargs):
         """
@@ -303,9 +327,9 @@ class DynamicModel(StructuredModel):
         None
         """
         _determ = _create_determ_vars(determ, **kwargs)
-        self.determ = np.concatenate((self.determ, _determ))
 
         self.is_altered = True
+        self.determ = VarArray([*self.determ, *_determ])
 
 
     @property
@@ -425,17 +449,23 @@ class DynamicModel(StructuredModel):
 
 
     def update(self, *args, **kwargs):
-        self.is_altered = False
-
-        self.endog = set_lead_lags(self.endog, self.exprs)
-        self._sigma = self._define_sigma()
-
-        # structural features. steady, dynamic, statespace order is important,
-        #   which I'm not particularly fond of...
-        self._indexes = VariableIndexManager(self.endog, self.stoch)
-        self._steady_repr = SteadyRepr(self)
-        self._dynamic_repr = DynamicRepr(self)
-        self._statespace = StateSpace(self)
+        try:
+            self.is_altered = False
+
+            self.endog = set_lead_lags(self.endog, self.exprs)
+            self._sigma = self._define_sigma()
+
+            # structural features. steady, dynamic, statespace order is important,
+            #   which I'm not particularly fond of...
+            self._indexes = VariableIndexManager(self.endog, self.stoch)
+            self._steady_repr = SteadyRepr(self)
+            self._dynamic_repr = DynamicRepr(self)
+            self._statespace = StateSpace(self)
+
+        except BaseException:
+            # the update is still owed to whoever asks next
+            self.is_altered = True
+            raise
 
 
     def copy(self):
-- 
2.43.0


From 8f2feeee526dfefb2b00dbbba3e15c3e889d6dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:06 +0000
Subject: [PATCH 09/30] fix: local model variables follow the parameters they
 depend on, and are copied with the model

---
 pynare/core/generic.py    |  5 +++--
 pynare/core/model.py      | 12 ++++++++++--
 pynare/core/variables.py  | 32 ++++++++++++++++++++++++++++++++
 pynare/parsing/factory.py |  3 ++-
 4 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 5406b24..67358e9 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -468,7 +468,7 @@ class DynamicModel(StructuredModel):
             raise
 
 
-    def copy(self):
+    def copy(self, **kwargs):
 
         # extract relevant information for endogenous variables
         endog, ll, init, term, hist = [], {}, {}, {}, {}
@@ -524,5 +524,6 @@ class DynamicModel(StructuredModel):
             terminal=term,
             historical=hist,
             language=self.language,
-            name=self.name
+            name=self.name,
+            **kwargs
         )
diff --git a/pynare/core/model.py b/pynare/core/model.py
index 46ecb46..8cf136a 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 
 from functools import cached_property
 
-from pynare.core.variables import ModelCalibration
+from pynare.core.variables import LocalCalibration
 from pynare.core.generic import DynamicModel
 from pynare.core.steady import SteadyState
 from pynare.core.solve import (
@@ -45,7 +45,7 @@ class Model(DynamicModel):
         name: str = ''
     ):
 
-        self.local_params = ModelCalibration(local_params)
+        self.local_params = LocalCalibration(local_params, self)
 
         super().__init__(
             endog=endog,
@@ -286,6 +286,14 @@ class Model(DynamicModel):
         return ModelSummary(self, **kwargs)
 
 
+    def copy(self):
+        return super().copy(local_params=self.local_params)
+
+
+    def _count_edits(self):
+        return (*super()._count_edits(), self.local_params.n_edits)
+
+
     @property
     def model_scope(self):
         return {**self.params, **self.local_params}
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 5b80dbc..c1b61af 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -849,6 +849,38 @@ class ModelCalibration(MutableMapping):
 
 
 
+class LocalCalibration(ModelCalibration):
+    """
+    managing the values of variables declared locally in a model block. they may be
+    defined in terms of a model's parameters, so they are evaluated on each access
+    """
+
+    def __init__(self, defs, model):
+        if isinstance(defs, ModelCalibration):
+            defs = defs.defs
+        self.defs = dict(defs)
+
+        self.model = model
+        self.n_edits = 0
+
+    @property
+    def calib(self):
+        return self._solve(self.defs)
+
+    def _solve(self, defs):
+        solved = solve_calibration({**self.model.params, **defs})
+        return {name: solved[name] for name in defs}
+
+    def _redefine(self, defs):
+        _ = self._solve(defs)
+        self.n_edits += 1
+        self.defs = defs
+
+    def __len__(self):
+        return len(self.defs)
+
+
+
 def solve_calibration(calib):
     """
     given a dictionary of the form
diff --git a/pynare/parsing/factory.py b/pynare/parsing/factory.py
index 0a5f07a..ff92f88 100644
--- a/pynare/parsing/factory.py
+++ b/pynare/parsing/factory.py
@@ -287,7 +287,8 @@ class DynareModelFactory(base.ABCVisitor):
         var_name = node.left.value
         self.model_scope.insert(var_name, value)
 
-        self.outline._local_model_variables[var_name] = value
+        # the value depends on those of the parameters, so the definition is recorded
+        self.outline._local_model_variables[var_name] = node.right
 
 
     def visit_ModelExpression(self, node):
-- 
2.43.0


From e6a8eff2f2f78733bf754fd2b445b8acb20e6532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 10/30] fix: Blanchard-Kahn conditions are checked by every
 request that relies on them

---
 pynare/core/solve/first_order.py |  5 ++++-
 pynare/core/solve/statespace.py  | 12 ++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 71f159e..4dbd8df 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -77,6 +77,9 @@ def solve_first_order(
     indexes = M.indexes
     state = M.statespace
 
+    # the decision rules only exist if there's a unique stable solution
+    state.verify()
+
     # retrieve state space matrices
     A, D, E = state.jacobian, state.lhs, state.rhs
 
@@ -92,7 +95,7 @@ def solve_first_order(
     if indexes.n_exog > 0:
         fu = A[:, indexes.exogenous_jacobian]
     else:
-        fu = J[:, indexes.exogenous_jacobian]
+        fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
     # remove any 1-dimensional axes
diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 7e484d3..eb655c3 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -36,8 +36,8 @@ class StateSpace(object):
         self.rarrays = RHSArrays(S_11, S_12, S_22)
         self.zarrays = ZArrays(Z_11, Z_12, Z_21, Z_22)
 
-        # indicator for whether or not BK conditions have been checked. if `None`,
-        #   those conditions have not been checked
+        # indicator for whether or not BK conditions are met. if `None`, those
+        #   conditions have not been checked
         self.is_verified = None
 
 
@@ -46,7 +46,7 @@ class StateSpace(object):
         front-facing method for checking whether or not the BK conditions are met
         by this model specification
         """
-        if self.is_verified is None:
+        if not self.is_verified:
             self._run_verification()
         return None
 
@@ -149,7 +149,7 @@ def _compute_structural_state_space(model: Model):
 
         # for model to be properly identified, rank(R) must equal number of static vars
         if _r != indexes.n_static:
-            raise ModelIdentificationError(_r, indexes.n_static)
+            raise ModelIdentificationError(n0=_r, n1=indexes.n_static)
 
         # rotated jacobian
         A = np.dot(np.transpose(Q), J)
@@ -165,11 +165,11 @@ def _compute_structural_state_space(model: Model):
 
     # model might not have any backward variables
     A0m_tilde = A[-nd:, indexes.dr.pure_backward_timed[0]]
+    nm = indexes.n_mixed
     if A0m_tilde.size == 0:
-        A0m_tilde = np.zeros((nd, 1))
+        A0m_tilde = np.zeros((nd, nm))
 
     # set up the structural state space representation
-    nm = indexes.n_mixed
     if nm > 0:
         # mixed variables are present
         nb, nf = indexes.n_backward, indexes.n_forward
-- 
2.43.0


From 5f9b398cf1e737e246a52116615343915e872ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 11/30] fix: models without forward, mixed or purely backward
 variables can be solved

---
 pynare/core/solve/second_order.py | 2 +-
 pynare/utils/numpy.py             | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 9ba9172..14d3d4e 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -122,7 +122,7 @@ class SecondOrderSolver(object):
 
         # construct the [0 | dfdy'] array
         C = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
-        C[:, -len(_nonnan_int(self.dr_fore)):] = fore_jac
+        C[:, ~np.isnan(self.dr_fore)] = fore_jac
 
         gy_state = gy[self.tloc]
         D = np.transpose(np.kron(gy_state, gy_state))
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index ecb49fb..72b79f0 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -266,8 +266,10 @@ def partitioned_qz(
         # locally silence RuntimeWarnings about dividing by zero or infinity
         eigs = alph/bet
 
-    # explosive eigenvalues
-    expl = find_first((eigs > 1) | np.isinf(eigs))
+    # explosive eigenvalues. there may not be any of them
+    expl = find_first((np.absolute(eigs) > 1) | np.isinf(eigs))
+    if expl < 0:
+        expl = len(eigs)
 
     # unitary matrix first
     Z = np.transpose(Zt)
-- 
2.43.0


From 5e6df30b390b506e46bda1de9eeb36a26a82f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:25 +0000
Subject: [PATCH 12/30] fix: a solution is never reported for a definition
 edited since, and queries don't replace it

---
 pynare/core/generic.py            |  4 ++-
 pynare/core/model.py              | 43 +++++++++++++++++++++---------
 pynare/core/solve/binding.py      | 14 +++++-----
 pynare/core/solve/second_order.py |  6 +++--
 pynare/simul.py                   |  6 +----
 pynare/stats/moments.py           | 44 +++++++------------------------
 pynare/stats/var.py               | 17 ++----------
 7 files changed, 57 insertions(+), 77 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index 67358e9..e04c0ff 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -378,8 +378,10 @@ class DynamicModel(StructuredModel):
     @property
     def sigma(self):
         """returns the covariance matrix of the stochastic shocks"""
-        if self.is_altered or not hasattr(self, '_sigma'):
+        if self.is_altered:
             self.update()
+        elif not hasattr(self, '_sigma'):
+            self._sigma = self._define_sigma()
         return self._sigma
 
     @property
diff --git a/pynare/core/model.py b/pynare/core/model.py
index 8cf136a..b78da3a 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -201,7 +201,11 @@ class Model(DynamicModel):
             else:
                 raise ValueError(f"unrecognized `order` value: {order}")
 
-        self._solution = solution.solve(*args, **kwargs)
+        solution = solution.solve(*args, **kwargs)
+
+        # also save what the solution was derived from, so that it's not mistaken for
+        #   the solution of a definition that has been edited since
+        self._solution, self._solved_statespace = solution, self.statespace
         return self._solution
 
 
@@ -312,13 +316,27 @@ class Model(DynamicModel):
         """
         access the solution of the model. if the class method `solve` has not
         explicitly been called, then the default parameter values are used to
-        derive the solution
+        derive the solution. if the model has been altered since it was solved, it's
+        solved anew at the same order
+        """
+        solution = self._current_solution
+        if solution is None:
+            solution = self.solve(order=self.solution_order or default_order)
+        return solution
+
+
+    @property
+    def _current_solution(self):
+        """
+        the last requested solution, or `None` if there isn't one or if the model has
+        been altered since
         """
         try:
-            return self._solution
+            solution, solved_statespace = self._solution, self._solved_statespace
         except AttributeError:
-            _ = self.solve(order=default_order)
-            return self._solution
+            return None
+
+        return solution if solved_statespace is self.statespace else None
 
 
     @property
@@ -337,16 +355,15 @@ class Model(DynamicModel):
         """
         returns the first-order solution of the model. if the model is already
         solved at order 1, return. if the model is already solved at order 2, return
-        the reference to `lower_solution`. if not solve, solve at default order
+        the reference to `lower_solution`. if it's not solved at either, compute the
+        first-order solution without replacing the model's existing one
         """
-        try:
-            sol = self._solution
-        except AttributeError:
-            sol = self.solve(order=default_order)
+        sol = self._current_solution
+        order = getattr(sol, 'order', None)
 
-        if sol.order == 1:
+        if order == 1:
             return sol
-        elif sol.order == 2:
+        elif order == 2:
             return sol.lower_solution
         else:
-            raise NotImplementedError(f"order = {sol.order}")
+            return FirstOrderSolution(self).solve()
diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 2ebd71c..e82435c 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -13,6 +13,7 @@ from pynare.parsing import parse_string, evaluate
 from pynare.regimes import RegimeSwitchingModel
 
 from pynare.core.solve.base import ModelSolution
+import pynare.utils.numpy as unp
 from pynare.utils.dtypes import is_iterable_not_str
 
 from pynare.errors import ModelVarError
@@ -289,8 +290,9 @@ def solve_occbin_one_constraint(
     idx = ref.indexes
 
     gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
-    gy_dc[:, idx.state] = ref.first_order_solution.arrays.gy[idx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[idx.dc_order]
+    first_sol = ref.first_order_solution
+    gy_dc[:, idx.state] = unp.ensure_2darray(first_sol.gy)[idx.dc_order]
+    gu_dc = first_sol.gu[idx.dc_order]
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
@@ -446,8 +448,9 @@ def solve_occbin_two_constraints(
     ridx = ref.indexes
 
     gy_dc = np.zeros((ridx.n_endog, ridx.n_endog), dtype=float)
-    gy_dc[:, ridx.state] = ref.first_order_solution.arrays.gy[ridx.dc_order]
-    gu_dc = ref.first_order_solution.arrays.gu[ridx.dc_order]
+    first_sol = ref.first_order_solution
+    gy_dc[:, ridx.state] = unp.ensure_2darray(first_sol.gy)[ridx.dc_order]
+    gu_dc = first_sol.gu[ridx.dc_order]
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
@@ -821,9 +824,6 @@ def _process_occbin_parameters(
             )
             warnings.warn(msg)
 
-    else:
-        _ = ref.solve(order=1)
-
     return exog_idx, shocks, init, periods
 
 
diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index 14d3d4e..e4d8b60 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -10,6 +10,7 @@ import numpy as np
 
 import pynare.utils.numpy as unp
 from pynare.core.solve.base import LinearSolution
+from pynare.core.solve.first_order import FirstOrderSolution
 from pynare.io.summary import SecondOrderSummary
 
 
@@ -22,10 +23,11 @@ class SecondOrderSolution(LinearSolution):
     def __init__(self, model: Model):
         super().__init__(model)
 
-        self.lower_solution = self.model.solve(order=1)
-
     def solve(self, *args, **kwargs):
 
+        # the lower-order solution doesn't replace the model's existing solution
+        self.lower_solution = FirstOrderSolution(self.model).solve()
+
         solver = SecondOrderSolver(self.model, self.lower_solution)
 
         ghxx, ghxu, ghuu, del2 = solver.solve()
diff --git a/pynare/simul.py b/pynare/simul.py
index 1555eed..689fc95 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -153,7 +153,6 @@ class ModelSimulator(object):
 
     def __init__(self, model):
         self.model = model
-        self.model.update()
 
 
 
@@ -314,10 +313,7 @@ def simulate(
         solution = model.solve(order=order)
     else:
         # if no `order`, use existing solution if there is one. otherwise, default
-        try:
-            solution = model._solution
-        except AttributeError:
-            solution = model.solve()
+        solution = model.solution
 
     if isinstance(solution, LinearSolution):
         simulator = LinearSimulator(model)
diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index f498047..948218a 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -31,20 +31,20 @@ def mean(md: Model):
     """
     ss = md.ss.values
 
-    if not md.solution_order:
-        _ = md.solve()
+    solution = md.solution
+    order = getattr(solution, 'order', None)
 
-    if md.solution_order == 1:
+    if order == 1:
         return ss
 
-    elif md.solution_order == 2:
+    elif order == 2:
         # E[x_t^2] = Var[x], and first-order transition array
         var_state = md.statespace.sigma
         g_xtp1x, _ = md.statespace.kalman_transition
 
         # second-order transition arrays. only select those determining state evolution
         dr_sidx = md.indexes.dr.state
-        del2, ghxx, ghuu = md.solution.del2, md.solution.ghxx, md.solution.ghuu
+        del2, ghxx, ghuu = solution.del2, solution.ghxx, solution.ghuu
 
         # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
         #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
@@ -54,7 +54,7 @@ def mean(md: Model):
         expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
 
         # calculate mean adjustment for observables & make them declaration order
-        adj_mean_inv = unp.matmul_scalar(md.solution.lower_solution.gy, expt_x) \
+        adj_mean_inv = unp.matmul_scalar(solution.lower_solution.gy, expt_x) \
             + ( del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
             + unp.matmul_scalar(ghuu, md.sigma.flatten()) ) / 2
         adj_mean = adj_mean_inv[md.indexes.dc_order]
@@ -141,20 +141,8 @@ def cov(md: Model):
     cov : np.ndarray
         a square array of size (en, en) where en = len(md.endog)
     """
-    if not md.solution_order:
-        _ = md.solve()
-
-    if md.solution_order == 1:
-        gy, gu = md.solution.gy, md.solution.gu
-
-    elif md.solution_order == 2:
-        gy = md.solution.lower_solution.gy
-        gu = md.solution.lower_solution.gu
-
-    else:
-        raise NotImplementedError(
-            "can only calculate covariances for 1st- and 2nd-order solutions"
-        ) from None
+    first_sol = md.first_order_solution
+    gy, gu = first_sol.gy, first_sol.gu
 
     # translate to declaration order
     gy_dc_, gu_dc_ = gy[md.indexes.dc_order], gu[md.indexes.dc_order]
@@ -222,20 +210,8 @@ def autocov(
         (p, n_endog, n_endog) array, where autocov[i, j, k] is the i-period covariance
         of the j- and k-th endogenous variables (in declaration order)
     """
-    if not md.solution_order:
-        _ = md.solve()
-
-    if md.solution_order == 1:
-        gy, gu = md.solution.gy, md.solution.gu
-
-    elif md.solution_order == 2:
-        gy = md.solution.lower_solution.gy
-        gu = md.solution.lower_solution.gu
-
-    else:
-        raise NotImplementedError(
-            "can only calculate autocovariances for 1st- and 2nd-order solutions"
-        ) from None
+    first_sol = md.first_order_solution
+    gy, gu = first_sol.gy, first_sol.gu
 
     # E[x_t^2] = Var[x], and first-order transition arrays
     var_state = md.statespace.sigma
diff --git a/pynare/stats/var.py b/pynare/stats/var.py
index 6e70982..3de241d 100644
--- a/pynare/stats/var.py
+++ b/pynare/stats/var.py
@@ -54,21 +54,8 @@ def var_decomp(
 
         return decomp_shares
 
-    # this is 'None' if the model hasn't been solved yet
-    if not md.solution_order:
-        _ = md.solve()
-
-    if md.solution_order == 1:
-        gy, gu = md.solution.gy, md.solution.gu
-
-    elif md.solution_order == 2:
-        gy = md.solution.lower_solution.gy
-        gu = md.solution.lower_solution.gu
-
-    else:
-        raise NotImplementedError(
-            "can only calculate variance decomps for 1st- and 2nd-order solutions"
-        ) from None
+    first_sol = md.first_order_solution
+    gy, gu = first_sol.gy, first_sol.gu
 
     # prepare transition arrays
     gy, gu = unp.ensure_2darray((gy, gu))
-- 
2.43.0


From f1240dfbf18de305aa0ab2e6a162c014592ab30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:56 +0000
Subject: [PATCH 13/30] fix: second-order simulations and means count
 second-order terms once, for any number of states

---
 pynare/simul.py         | 20 +++++++++++---------
 pynare/stats/moments.py | 21 +++++++++++++--------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/pynare/simul.py b/pynare/simul.py
index 689fc95..d323a59 100644
--- a/pynare/simul.py
+++ b/pynare/simul.py
@@ -222,26 +222,28 @@ class LinearSimulator(ModelSimulator):
         paths = np.zeros((T, len(ys)), dtype=float)
         paths[0, :] = init
 
-        # policy matrices
+        # policy matrices. the second-order terms already include the one-half that
+        #   multiplies them in the taylor expansion. there's one row per endogenous
+        #   variable, even if there's only one state variable or only one shock
         sol = self.model.solution
         first_sol = sol.lower_solution
-        ghxx, ghxu, ghuu, del2 = unp.ensure_2darray(
-            (sol.ghxx/2, sol.ghxu, sol.ghuu/2, sol.del2/2))
-        gy, gu = first_sol.gy, first_sol.gu
+        ghxx, ghxu, ghuu, gy, gu = [
+            np.reshape(arr, (len(ys), -1))
+            for arr in (sol.ghxx, sol.ghxu, sol.ghuu, first_sol.gy, first_sol.gu)
+        ]
 
         # index management. use array of indices because of kronecker products
         dr_order = self.dr_order
-        lag = [self.lag_state] if isinstance(self.lag_state, int) else self.lag_state
-        dr_state = dr_order[lag]
+        dr_state = dr_order[np.atleast_1d(self.lag_state)]
 
-        const = del2.squeeze() + ys[dr_order]
+        const = sol.del2 + ys[dr_order]
         for t in range(1, T):
             yhat = paths[t-1, dr_state] - ys[dr_state]
             ut = shocks[t-1, :]
 
             # first-order terms
-            dy = unp.matmul_scalar(gy, yhat)
-            du = unp.matmul_scalar(gu, ut)
+            dy = np.matmul(gy, yhat)
+            du = np.matmul(gu, ut)
 
             # second-order terms
             dydy = unp.matrix_kronecker_product(ghxx, yhat)
diff --git a/pynare/stats/moments.py b/pynare/stats/moments.py
index 948218a..d12a710 100644
--- a/pynare/stats/moments.py
+++ b/pynare/stats/moments.py
@@ -44,19 +44,24 @@ def mean(md: Model):
 
         # second-order transition arrays. only select those determining state evolution
         dr_sidx = md.indexes.dr.state
-        del2, ghxx, ghuu = solution.del2, solution.ghxx, solution.ghuu
+        del2 = solution.del2
+        ghxx, ghuu, gy = [
+            np.reshape(arr, (len(ss), -1))
+            for arr in (solution.ghxx, solution.ghuu, solution.lower_solution.gy)
+        ]
 
         # x_{t+1} = g_{xt+1, x}*x_t + g_{ut+1}*u_{t+1}
-        #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2
-        # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u]
-        second_order = (del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
-            + np.dot(ghuu[dr_sidx], md.sigma.flatten()))/2
+        #               + (1/2) * (del2 + G_{x,x}*x_t^2 + G_{u,u}*u_t^2)
+        # yields E[x] = g_{xt+1,x}*E[x] + (1/2)*(del2 + G_{x,x}*Var[x] + G_{u,u}*Var[u])
+        #   where the solution's second-order arrays already include the one-half
+        second_order = del2[dr_sidx] + np.dot(ghxx[dr_sidx], var_state.flatten()) \
+            + np.dot(ghuu[dr_sidx], md.sigma.flatten())
         expt_x = linalg.solve(np.eye(*g_xtp1x.shape) - g_xtp1x, second_order)
 
         # calculate mean adjustment for observables & make them declaration order
-        adj_mean_inv = unp.matmul_scalar(solution.lower_solution.gy, expt_x) \
-            + ( del2 + unp.matmul_scalar(ghxx, var_state.flatten()) \
-            + unp.matmul_scalar(ghuu, md.sigma.flatten()) ) / 2
+        adj_mean_inv = np.matmul(gy, expt_x) + del2 \
+            + np.matmul(ghxx, var_state.flatten()) \
+            + np.matmul(ghuu, md.sigma.flatten())
         adj_mean = adj_mean_inv[md.indexes.dc_order]
 
         return ss + adj_mean
-- 
2.43.0


From bd81da3e64cb4cac9d7fd2b2f91ba9ff847459cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 14/30] fix: derivatives and steady states can be computed by
 many threads at once

---
 pynare/core/linearizing.py | 21 +++++++++++++++------
 pynare/core/steady.py      |  5 ++++-
 pynare/utils/threads.py    | 13 +++++++++++++
 3 files changed, 32 insertions(+), 7 deletions(-)
 create mode 100644 pynare/utils/threads.py

diff --git a/pynare/core/linearizing.py b/pynare/core/linearizing.py
index 15bf85f..1489aff 100644
--- a/pynare/core/linearizing.py
+++ b/pynare/core/linearizing.py
@@ -9,6 +9,8 @@ from autograd import grad, jacobian
 import warnings
 import numpy as np
 
+from pynare.utils.threads import process_lock
+
 
 
 class Linearization(object):
@@ -40,11 +42,17 @@ class Linearization(object):
         if not self.linearized_funcs:
             self.differentiate_functions()
 
-        n_exprs, n_cols = len(self.linearized_funcs), len(self.ss)
+        return self.evaluate(self.ss)
+
+
+    def evaluate(self, point):
+        # the value of the derivatives at any point, not necessarily the steady state
+        n_exprs, n_cols = len(self.linearized_funcs), len(point)
         jac = np.zeros((n_exprs, n_cols))
 
-        for i, func in enumerate(self.linearized_funcs):
-            jac[i, :] = np.array(func(self.ss))
+        with process_lock:
+            for i, func in enumerate(self.linearized_funcs):
+                jac[i, :] = np.array(func(point))
 
         return jac
 
@@ -131,16 +139,17 @@ class ModelHessian(Linearization):
         if not self.linearized_funcs:
             self.differentiate_functions()
 
-        n_exprs, n_cols = len(self.linearized_funcs), len(self.ss) ** 2
+        ss = self.ss
+        n_exprs, n_cols = len(self.linearized_funcs), len(ss) ** 2
         hess = np.zeros((n_exprs, n_cols))
 
         for i, func in enumerate(self.linearized_funcs):
-            with warnings.catch_warnings():
+            with process_lock, warnings.catch_warnings():
                 # when a function whose hessian is to be evaluated will have an
                 #    all-zero hessian, autograd throws some UserWarnings. for
                 #    effiency, in the future, we'll check for that first & just
                 #    return a vector of 0s
                 warnings.simplefilter('ignore')
-                hess[i, :] = np.array(func(self.ss)).flatten('C')
+                hess[i, :] = np.array(func(ss)).flatten('C')
 
         return hess
diff --git a/pynare/core/steady.py b/pynare/core/steady.py
index 31763a9..98da811 100644
--- a/pynare/core/steady.py
+++ b/pynare/core/steady.py
@@ -9,6 +9,7 @@ import scipy.optimize as optim
 
 from pynare.core.expressions import vectorize_functions
 from pynare.core.linearizing import SteadyJacobian
+from pynare.utils.threads import process_lock
 
 
 
@@ -53,7 +54,9 @@ class SteadyState(object):
             method=method
         )
 
-        self._results = ss_algo(self.model, **kwargs)
+        # the algorithms edit the warning filters, which all threads share
+        with process_lock:
+            self._results = ss_algo(self.model, **kwargs)
         self._values = self._results.x
 
         return self._values
diff --git a/pynare/utils/threads.py b/pynare/utils/threads.py
new file mode 100644
index 0000000..4ffb676
--- /dev/null
+++ b/pynare/utils/threads.py
@@ -0,0 +1,13 @@
+"""
+support for models being used by more than one thread
+"""
+from __future__ import annotations
+
+import threading
+
+
+
+# differentiation tracks its progress in a variable that's shared by all of the threads
+#   of a process, and warning filters are shared too. any work that relies on either of
+#   them holds this lock
+process_lock = threading.RLock()
-- 
2.43.0


From eb5725524385dea4e5e361a27a11c791ec08a5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:00 +0000
Subject: [PATCH 15/30] fix: occasionally-binding solves accept initial values
 and several named shocks

---
 pynare/core/model.py         | 2 +-
 pynare/core/solve/binding.py | 6 ++++--
 pynare/core/variables.py     | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pynare/core/model.py b/pynare/core/model.py
index b78da3a..2b656c2 100644
--- a/pynare/core/model.py
+++ b/pynare/core/model.py
@@ -178,7 +178,7 @@ class Model(DynamicModel):
 
             # occasionally-bound solutions are always conditional on shock paths
             exog, shocks = kwargs.pop('exog', None), kwargs.pop('shocks', 100)
-            init = kwargs.get('init', None)
+            init = kwargs.pop('init', None)
 
             solution = OccBinSolution(
                 self,
diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index e82435c..80b1eb5 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -620,7 +620,7 @@ def _simulate_hypothesized_paths(
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
     if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
+        innovs[exog_idx] = np.asarray(shock).item()
     else:
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
@@ -733,7 +733,7 @@ def _simulate_hypothesized_paths_two_constraints(
     # predetermined innovations
     innovs = np.zeros(n_exog, dtype=float)
     if isinstance(exog_idx, int):
-        innovs[exog_idx] = shock
+        innovs[exog_idx] = np.asarray(shock).item()
     else:
         for i, ex in enumerate(exog_idx):
             innovs[ex] = shock[i]
@@ -793,6 +793,8 @@ def _process_occbin_parameters(
     # the first values of the endogenous variables over the time period
     if init is None:
         init = np.zeros(len(ref.endog), dtype=float)
+    else:
+        init = np.asarray(init, dtype=float)
 
     # by default, we shock the first stochastic variable
     if exog is None:
diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index c1b61af..854e5b4 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -113,7 +113,7 @@ class VarArray(np.ndarray):
                 loc = np.where(name == self.names)[0]
                 if not loc.size:
                     raise KeyError(f"{repr(var)} is not a variable")
-                idx[i] = loc
+                idx[i] = loc.item()
 
             return idx
 
-- 
2.43.0


From d198abb39a44860455af51d21b0d869ae6b6fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:07 +0000
Subject: [PATCH 16/30] fix: occasionally-binding regimes are linearized around
 the reference steady state

---
 pynare/core/solve/binding.py | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index 80b1eb5..c4040cf 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -296,10 +296,11 @@ def solve_occbin_one_constraint(
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
-    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt)
+    ref_ss = ref.ss.values
+    Cstar, Bstar, Astar, Estar = _occbin_partitioned_jacobian(alt, ref_ss)
 
     # correction for alt regime due to linearizing around the reference one
-    Dstar = alt.dynamic_repr(_translate_ss(ref.ss.values, alt))
+    Dstar = alt.dynamic_repr(_translate_ss(ref_ss, alt))
 
     # pre-allocate the piecewise linear paths and the regime indicators. save
     #   initial endogenous vector, whose name will be overwritten
@@ -454,14 +455,15 @@ def solve_occbin_two_constraints(
 
     # partition the jacobian matrix of each regime
     C, B, A, E = _occbin_partitioned_jacobian(ref)
-    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0)
-    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1)
-    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl)
+    ref_ss = ref.ss.values
+    C_alt0, B_alt0, A_alt0, E_alt0 = _occbin_partitioned_jacobian(alt0, ref_ss)
+    C_alt1, B_alt1, A_alt1, E_alt1 = _occbin_partitioned_jacobian(alt1, ref_ss)
+    C_dbl, B_dbl, A_dbl, E_dbl = _occbin_partitioned_jacobian(dbl, ref_ss)
 
     # correction for alt regimes due to linearizing around the reference one
-    D_alt0 = alt0.dynamic_repr(_translate_ss(ref.ss.values, alt0))
-    D_alt1 = alt1.dynamic_repr(_translate_ss(ref.ss.values, alt1))
-    D_dbl = dbl.dynamic_repr(_translate_ss(ref.ss.values, dbl))
+    D_alt0 = alt0.dynamic_repr(_translate_ss(ref_ss, alt0))
+    D_alt1 = alt1.dynamic_repr(_translate_ss(ref_ss, alt1))
+    D_dbl = dbl.dynamic_repr(_translate_ss(ref_ss, dbl))
 
     # pre-allocate the piecewise linear paths and the regime indicators. save
     #   initial endogenous vector, whose name will be overwritten
@@ -829,12 +831,20 @@ def _process_occbin_parameters(
     return exog_idx, shocks, init, periods
 
 
-def _occbin_partitioned_jacobian(model: Model):
+def _occbin_partitioned_jacobian(model: Model, ref_ss: np.ndarray = None):
     """
     the occbin algorithm partitions the jacobian matrix column-wise based on what time
-    period the endogenous variable corresponding to that column appears in
+    period the endogenous variable corresponding to that column appears in. alternative
+    regimes are linearized around the steady state of the reference one, `ref_ss`
     """
-    J, idx = model.jacobian.array, model.indexes
+    idx = model.indexes
+    if ref_ss is None:
+        J = model.jacobian.array
+    else:
+        zero_stochs = np.zeros(idx.n_exog, dtype=float)
+        J = model.jacobian.evaluate(
+            np.concatenate((_translate_ss(ref_ss, model), zero_stochs))
+        )
 
     # partition the jacobian based on whether the column is a derivative with respect
     #   to time t-1, t, or t+1 variables
-- 
2.43.0


From 9260d5cea07c4c668cc4784e33e4017fa91d4903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:43 +0000
Subject: [PATCH 17/30] fix: results of an earlier definition are dropped
 before an update starts

---
 pynare/core/generic.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pynare/core/generic.py b/pynare/core/generic.py
index e04c0ff..05652ca 100644
--- a/pynare/core/generic.py
+++ b/pynare/core/generic.py
@@ -192,13 +192,17 @@ class StructuredModel(ModelSkeleton):
 
         self.is_altered = True
 
+    def _drop_derived(self, *attrs):
+        for attr in attrs:
+            self.__dict__.pop(attr, None)
+
     @property
     def steady_repr(self):
         """
         prepare the steady state representation of the model based on the ASTs in the
         model's ModelExprs
         """
-        if self.is_altered:
+        if self.is_altered or not hasattr(self, '_steady_repr'):
             self.update()
 
         return self._steady_repr
@@ -220,6 +224,9 @@ class StructuredModel(ModelSkeleton):
         return np.array([eg.initial for eg in self.endog], dtype=float)
 
     def update(self, *args, **kwargs):
+        # drop what's outdated first, so that it's not seen even if this is interrupted
+        self._drop_derived('_steady_repr')
+
         try:
             self.is_altered = False
 
@@ -350,7 +357,7 @@ class DynamicModel(StructuredModel):
     # structural properties of a dynamic model
     @property
     def indexes(self):
-        if self.is_altered:
+        if self.is_altered or not hasattr(self, '_indexes'):
             self.update()
 
         return self._indexes
@@ -361,14 +368,14 @@ class DynamicModel(StructuredModel):
         prepare the dynamic representation of the model based on the ASTs in the
         model's ModelExprs
         """
-        if self.is_altered:
+        if self.is_altered or not hasattr(self, '_dynamic_repr'):
             self.update()
 
         return self._dynamic_repr
 
     @property
     def statespace(self):
-        if self.is_altered:
+        if self.is_altered or not hasattr(self, '_statespace'):
             self.update()
 
         return self._statespace
@@ -451,6 +458,11 @@ class DynamicModel(StructuredModel):
 
 
     def update(self, *args, **kwargs):
+        # drop what's outdated first, so that it's not seen even if this is interrupted
+        self._drop_derived(
+            '_sigma', '_indexes', '_steady_repr', '_dynamic_repr', '_statespace'
+        )
+
         try:
             self.is_altered = False
 
-- 
2.43.0


From cb536b45504d0de264853512d8da4c35fe77891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 18/30] fix: summaries print with current numpy, zero arrays
 and models without parameters

---
 pynare/io/summary.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pynare/io/summary.py b/pynare/io/summary.py
index 6530636..a7a729b 100644
--- a/pynare/io/summary.py
+++ b/pynare/io/summary.py
@@ -128,11 +128,7 @@ class ModelSummary(Summary):
         r, c, m = np.real(eigs), np.imag(eigs), np.absolute(eigs)
 
         # record number of points to left and right of decimal
-        arr = np.absolute(np.concatenate((r, c, m)))
-        good = (arr > 0) & np.isfinite(arr) & ~np.isnan(arr)
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.max(np.log10(arr[good]))) + 3)
+        l = int(np.floor(_max_magnitude(np.concatenate((r, c, m)))) + 3)
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -158,9 +154,7 @@ class ModelSummary(Summary):
         lpad = max(map(len, stoch)) + 1
 
         # record number of points to left and right of decimal
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            l = int(np.floor(np.nanmax(np.log10(np.absolute(self.obj.sigma)))) + 3)
+        l = int(np.floor(_max_magnitude(self.obj.sigma)) + 3)
         d = self.sig
 
         # float fmt depends on significant digit and magnitude of largest float
@@ -189,14 +183,11 @@ class ModelSummary(Summary):
             param_strs = ['partial model calibration:']
 
         # format width and number of digits
-        width = max(map(len, display)) + 1
+        width = max(map(len, display), default=0) + 1
         sig, pad = self.sig, self.pad
 
         # number of points to left of decimal. '+3' factors in minus signs
-        with np.errstate(divide='ignore', invalid='ignore'):
-            # locally silence RuntimeWarnings about dividing by zero or infinity
-            values = list(display.values())
-            l = int(np.fix(np.nanmax(np.log10(np.absolute(values)))) + 3)
+        l = int(np.fix(_max_magnitude(list(display.values()))) + 3)
 
         for k, v in display.items():
             row = '= '.join([pad+k.ljust(width), f"{v:{l+sig}.{sig}f}"])
@@ -401,7 +392,7 @@ class FirstOrderSummary(SolutionSummary):
         # reorder gy columns (displayed as rows in string) to declaration order
         #   to align with labels, and match stoch vars which are also in dc order
         dr_idx = idx.dr_order
-        gy = gy[:, np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])]
+        gy = gy[:, np.argsort(dr_idx[np.isin(dr_idx, idx.state)])]
 
         arr = np.transpose(np.hstack((ss, gy, gu)))
 
@@ -532,7 +523,7 @@ class SecondOrderSummary(SolutionSummary):
         #   to align with labels, and match stoch vars which are also in dc order
         idx = self.obj.model.indexes
         dr_idx = idx.dr_order
-        st_idx = np.argsort(dr_idx[np.in1d(dr_idx, idx.state)])
+        st_idx = np.argsort(dr_idx[np.isin(dr_idx, idx.state)])
 
         # reorder the second-order matrices in the same was as gy
         n_st, n_exog = len(st_idx), self.obj.model.indexes.n_exog
@@ -627,6 +618,17 @@ class SecondOrderSummary(SolutionSummary):
 
 
 
+def _max_magnitude(arr: Iterable[float]):
+    """
+    the base-10 logarithm of the largest finite number in absolute value, or zero if
+    there are no nonzero ones
+    """
+    absolute = np.absolute(np.asarray(arr, dtype=float))
+    good = absolute[(absolute > 0) & np.isfinite(absolute)]
+    return np.log10(np.max(good)) if good.size else 0.
+
+
+
 def _summarize_array(
     arr: np.ndarray,
     labels: Iterable[str],
@@ -652,9 +654,7 @@ def _summarize_array(
     arr, labels = arr[:, pidx], labels[pidx]
 
     # number of points to right and left of decimal. `+3` factors in minus signs
-    with np.errstate(divide='ignore', invalid='ignore'):
-        # locally silence RuntimeWarnings about dividing by zero or infinity
-        l = int(np.fix(np.nanmax(np.log10(np.absolute(arr)))) + 3)
+    l = int(np.fix(_max_magnitude(arr)) + 3)
 
     # horizontal spacing determined by width of label variable name or float repr
     w = max([l+sig] + [len(lab) for lab in labels]) + 1
-- 
2.43.0


From 5339da456b1747d93815c63e136dbbf450b87bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 19/30] fix: second-order solutions with one state variable or
 one shock, and one-variable models

---
 pynare/core/solve/first_order.py  |  6 +--
 pynare/core/solve/second_order.py | 82 ++++++++++++-------------------
 pynare/utils/numpy.py             | 14 ++++--
 3 files changed, 45 insertions(+), 57 deletions(-)

diff --git a/pynare/core/solve/first_order.py b/pynare/core/solve/first_order.py
index 4dbd8df..6d6d9eb 100644
--- a/pynare/core/solve/first_order.py
+++ b/pynare/core/solve/first_order.py
@@ -98,9 +98,9 @@ def solve_first_order(
         fu = A[:, indexes.exogenous_jacobian]
     gu = solve_exo(A, indexes, gyp, fu)
 
-    # remove any 1-dimensional axes
-    gy = gy.squeeze()
-    gu = gu.squeeze()
+    # drop the second axis if there's only one state variable or only one shock
+    gy = unp.squeeze_column(gy)
+    gu = unp.squeeze_column(gu)
 
     return gy, gu
 
diff --git a/pynare/core/solve/second_order.py b/pynare/core/solve/second_order.py
index e4d8b60..43ebba0 100644
--- a/pynare/core/solve/second_order.py
+++ b/pynare/core/solve/second_order.py
@@ -70,12 +70,9 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         ns, nt = indexes.n_static, indexes.n_state
 
-        # decision-rule indices of state vars
-        self.tloc_arr = np.arange(ns, ns+nt, dtype=int)
-        try:
-            self.tloc = self.tloc_arr.item()
-        except ValueError:
-            self.tloc = self.tloc_arr
+        # decision-rule indices of state vars. always an array, even if there's only
+        #    one state var, so arrays indexed with it stay 2-dimensional
+        self.tloc = np.arange(ns, ns+nt, dtype=int)
 
         # re-arrange lead-lag incidence to DR order
         dr_llx = indexes.dr.llx
@@ -105,7 +102,7 @@ class SecondOrderSolver(object):
         ns, nt = indexes.n_static, indexes.n_state
 
         # A, B, C, D, E arrays rely on first-order solution arrays
-        gy = self.lower_solution.gy
+        gy, _ = _policy_arrays(self.lower_solution)
 
         # reorder, get time t and t+1 indices
         jacobian = self.model.jacobian.array
@@ -117,7 +114,7 @@ class SecondOrderSolver(object):
         # construct the [dfdy' * dgdx + dfdx' | dfdy] array
         A = np.zeros((indexes.n_endog, indexes.n_endog), dtype=float)
         A[:, ~np.isnan(self.dr_cont)] = cont_jac
-        tm1_update = unp.matmul_scalar(fore_jac, gy[~np.isnan(self.dr_fore)])
+        tm1_update = np.matmul(fore_jac, gy[~np.isnan(self.dr_fore)])
         A[:, self.tloc] = A[:, self.tloc] + tm1_update
 
         B = np.identity(nt**2, dtype=float)
@@ -143,14 +140,14 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt = indexes.n_state
 
-        gy = lower_sol.gy
+        gy, _ = _policy_arrays(lower_sol)
 
         state_eye = np.identity(nt, dtype=float)
         cont_gy = gy[~np.isnan(self.dr_cont)]
-        fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gy[self.tloc])
         exo_block = np.zeros((indexes.n_exog, nt), dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_eye, cont_gy, fore_gy, exo_block))
+        E = np.concatenate((state_eye, cont_gy, fore_gy, exo_block))
         return E
 
 
@@ -163,21 +160,16 @@ class SecondOrderSolver(object):
         indexes = self.model.indexes
         nt, ne = indexes.n_state, indexes.n_exog
 
-        gy = lower_sol.gy
-        gu = lower_sol.gu
+        gy, gu = _policy_arrays(lower_sol)
 
         state_zero = np.zeros((nt, ne), dtype=float)
         cont_gu = gu[~np.isnan(self.dr_cont)]
 
-        try:
-            fore_gy = unp.matmul_scalar(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
-        except ValueError:
-            # one state var, > 1 stoch vars
-            fore_gy = np.outer(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
+        fore_gy = np.matmul(gy[~np.isnan(self.dr_fore)], gu[self.tloc])
 
         exo_eye = np.identity(ne, dtype=float)
 
-        E = unp.concatenate_maybe_1d((state_zero, cont_gu, fore_gy, exo_eye))
+        E = np.concatenate((state_zero, cont_gu, fore_gy, exo_eye))
         return E
 
 
@@ -204,6 +196,9 @@ class SecondOrderSolver(object):
             self.model.jacobian.array, self.model.hessian.array
         )
 
+        # as in the first-order solution, drop the second axis if there's only one
+        #    state variable or only one shock
+        ghxx, ghxu, ghuu = [unp.squeeze_column(arr) for arr in (ghxx, ghxu, ghuu)]
         return ghxx, ghxu, ghuu, del2
 
 
@@ -281,24 +276,12 @@ def solve_ghxu(
     -------
     ghxu : np.ndarray
     """
-    # if theres only one state variable, zx will be a vector, and if there is
-    #    only a single shock, zu will be too. for these to conform with one another
-    #    in the kronecker product, ensure 2d
-    zx, zu = unp.ensure_2darray((zx, zu))
-    E = -unp.matrix_kronecker_product(hess, zx, zu).squeeze()
+    E = -unp.matrix_kronecker_product(hess, zx, zu)
 
-    # `matrix_kronecker_product` throws ValueErrors when scalars are passed or matrix
-    #    dimensions depend on row/column orientation. just cast to 2dims for now
-    gy, gu = lower_sol.gy, lower_sol.gu
-    ghxx_arr, gy_arr, gu_arr = unp.ensure_2darray((ghxx, gy[tloc], gu[tloc]))
+    gy, gu = _policy_arrays(lower_sol)
+    cross_prod = unp.matrix_kronecker_product(ghxx, gy[tloc], gu[tloc])
 
-    if gu_arr.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        gu_arr = np.transpose(gu_arr)
-
-    cross_prod = unp.matrix_kronecker_product(ghxx_arr, gy_arr, gu_arr).squeeze()
-
-    rhs = E - unp.matmul_scalar(C, cross_prod)
+    rhs = E - np.matmul(C, cross_prod)
     return linalg.solve(A, rhs)
 
 
@@ -343,18 +326,9 @@ def solve_ghuu(
     E = -unp.matrix_kronecker_product(hess, zu)
 
     ghxx_tp1 = np.matmul(C, ghxx)
-    state_du = lower_sol.gu[tloc]
-
-    # if theres only one state variable, ghxx_tp1 will be a vector (if there is
-    #    additionally only a single shock, state_du will be a scalar). for these
-    #    to conform with one another in the kronecker product, ensure 2d
-    ghxx_tp1, state_du = unp.ensure_2darray((ghxx_tp1, state_du))
+    _, gu = _policy_arrays(lower_sol)
 
-    if state_du.shape[1] == 1:
-        # row-orient to conform with the following matrix product
-        state_du = np.transpose(state_du)
-
-    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, state_du).squeeze()
+    ghxx_tp1_evaluated = unp.matrix_kronecker_product(ghxx_tp1, gu[tloc])
 
     rhs = E - ghxx_tp1_evaluated
     return linalg.solve(A, rhs)
@@ -406,7 +380,7 @@ def solve_del2(
     del2 : np.ndarray
     """
 
-    gy, gu = lower_sol.gy, lower_sol.gu
+    gy, gu = _policy_arrays(lower_sol)
 
     fore_nan = np.isnan(fore)
     fore_idx = _nonnan_int(fore)
@@ -415,8 +389,7 @@ def solve_del2(
     B1 = unp.matrix_kronecker_product(hess[:, fore_sq], gu[~fore_nan])
 
     rhs = np.matmul(jac[:, fore_idx], ghuu[~fore_nan]) + B1
-    rhs = -unp.matmul_scalar(rhs, np.transpose(sigma).flatten())
-
+    rhs = -np.matmul(rhs, np.transpose(sigma).flatten())
 
     n_fore = np.count_nonzero(~fore_nan)
     n_endog = jac.shape[0]
@@ -426,7 +399,7 @@ def solve_del2(
     pfore_zero = np.zeros((n_fore, npf), dtype=float)
     gy_fore = gy[~fore_nan]
 
-    d_fore = unp.concatenate_maybe_1d((static_zero, gy_fore, pfore_zero), axis=1)
+    d_fore = np.concatenate((static_zero, gy_fore, pfore_zero), axis=1)
     deriv_fore = endo_eye[~fore_nan] + d_fore
 
     lhs = np.zeros((n_endog, n_endog), dtype=float)
@@ -436,6 +409,15 @@ def solve_del2(
     return linalg.solve(lhs, rhs) / 2
 
 
+def _policy_arrays(lower_sol: FirstOrderSolution):
+    """
+    the `gy` and `gu` arrays of a first-order solution with one row per endogenous
+    variable and one column per state variable or shock, even if there's only one
+    """
+    n_endog = lower_sol.model.indexes.n_endog
+    return [np.reshape(arr, (n_endog, -1)) for arr in (lower_sol.gy, lower_sol.gu)]
+
+
 def _nonnan_int(arr):
     """
     utility function for translating index arrays with nans (which forces them
diff --git a/pynare/utils/numpy.py b/pynare/utils/numpy.py
index 72b79f0..f75e184 100644
--- a/pynare/utils/numpy.py
+++ b/pynare/utils/numpy.py
@@ -126,6 +126,15 @@ def ensure_2darray(
 
 
 
+def squeeze_column(arr: np.ndarray):
+    """
+    a 2-dimensional array with only one column as a vector, any other array as it is.
+    unlike with `squeeze`, an array with only one row keeps its first axis
+    """
+    return arr[:, 0] if arr.shape[1] == 1 else arr
+
+
+
 def concatenate_maybe_1d(
     arrs,
     orient='column',
@@ -388,10 +397,7 @@ def matrix_kronecker_product(A, B, C=None):
     else:
         K = np.kron(B, C)
 
-    if (A.shape[1] == 1) and (K.shape[0] == 1):
-        return np.outer(A, K)
-    else:
-        return np.matmul(A, K)
+    return np.matmul(A, K)
 
 
 
-- 
2.43.0


From 4361842993ef0f75058f53c3b5316337d01b0156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:58 +0000
Subject: [PATCH 20/30] fix: occasionally-binding paths read decision rules by
 the order of their state variables

---
 pynare/core/solve/binding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pynare/core/solve/binding.py b/pynare/core/solve/binding.py
index c4040cf..0de8387 100644
--- a/pynare/core/solve/binding.py
+++ b/pynare/core/solve/binding.py
@@ -291,7 +291,7 @@ def solve_occbin_one_constraint(
 
     gy_dc = np.zeros((idx.n_endog, idx.n_endog), dtype=float)
     first_sol = ref.first_order_solution
-    gy_dc[:, idx.state] = unp.ensure_2darray(first_sol.gy)[idx.dc_order]
+    gy_dc[:, idx.dr_order[idx.dr.state]] = unp.ensure_2darray(first_sol.gy)[idx.dc_order]
     gu_dc = first_sol.gu[idx.dc_order]
 
     # partition the jacobian matrix of each regime
@@ -450,7 +450,7 @@ def solve_occbin_two_constraints(
 
     gy_dc = np.zeros((ridx.n_endog, ridx.n_endog), dtype=float)
     first_sol = ref.first_order_solution
-    gy_dc[:, ridx.state] = unp.ensure_2darray(first_sol.gy)[ridx.dc_order]
+    gy_dc[:, ridx.dr_order[ridx.dr.state]] = unp.ensure_2darray(first_sol.gy)[ridx.dc_order]
     gu_dc = first_sol.gu[ridx.dc_order]
 
     # partition the jacobian matrix of each regime
-- 
2.43.0


From dc70b7d98a940c71fd9f3e2a2e9f55cc0fdcf256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:13 +0000
Subject: [PATCH 21/30] fix: the error for an unknown parameter doesn't depend
 on hash randomisation

---
 pynare/core/variables.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 854e5b4..7ce669c 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -935,7 +935,8 @@ class ParamLocator(base.ABCVisitor):
     def __init__(self, tree: AST):
         super().__init__(tree)
 
-        self.params = set()
+        # names in the order they're found, so that errors don't depend on hash seeds
+        self.params = {}
 
     def locate(self):
         self.visit(self.tree)
@@ -956,7 +957,7 @@ class ParamLocator(base.ABCVisitor):
 
     def visit_Var(self, node):
         var_name = node.value
-        self.params.add(var_name)
+        self.params[var_name] = None
 
 
 
-- 
2.43.0


From d937e3efc8976c0c366682972eafdb63c1d49f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:36 +0000
Subject: [PATCH 22/30] fix: clearing a calibration removes every parameter

Mapping's clear() removes one at a time until a KeyError says there are none
left. Removing a parameter that others depend on raises KeyError too, so
clear() silently stopped with parameters still defined.
---
 pynare/core/variables.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 7ce669c..a8aa28a 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -814,6 +814,10 @@ class ModelCalibration(MutableMapping):
         """
         self._redefine({**self.defs, **dict(other, **kwargs)})
 
+    def clear(self):
+        # one at a time, definitions that others depend on couldn't be removed
+        self._redefine({})
+
     def _redefine(self, defs):
         calib = solve_calibration(defs) # inefficient
         self.n_edits += 1
-- 
2.43.0


From 806c298e8b45c9d60e56278c38d38cc2627e441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:47 +0000
Subject: [PATCH 23/30] fix: reversing or clearing model expressions is all or
 nothing

MutableSequence does both one element at a time, so that an interrupt left
equations duplicated or missing, and reversing lost the text of each one.
---
 pynare/core/expressions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 9b6b7c5..36621c4 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -92,6 +92,13 @@ class ModelExprs(MutableSequence):
         new = ModelExprs(objs)
         self._redefine(self.exprs + new.exprs, self.exprs_str + new.exprs_str)
 
+    def clear(self):
+        self._redefine([], [])
+
+    def reverse(self):
+        # all at once, keeping each expression's text
+        self._redefine(self.exprs[::-1], self.exprs_str[::-1])
+
     def __repr__(self):
         n_exprs = len(self.exprs)
         return f"ModelExprs({n_exprs} exprs)"
-- 
2.43.0


From f333b7c673da87e1b04f8fd2ebf6f53fa4e91859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:36 +0000
Subject: [PATCH 24/30] fix: variables may be named like another one's lead or
 lag

The dynamic functions called y(-1) and y(+1) 'ym1' and 'yp1', so a model that
also declares a variable of that name couldn't be built.
---
 pynare/core/expressions.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index 36621c4..ded3759 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -274,7 +274,7 @@ def steady_func(
         the abstract syntax tree of the model expression
     endo : tuple
         a tuple of the endogenous model names in declaration order. these
-        are the steady state names (no 'm1' or 'p1' PeriodVar suffixes)
+        are the steady state names (no '_m1_' or '_p1_' PeriodVar prefixes)
     params : dict
         dictionary of parameter_names: parameter_values. This dictionary
         must provide the locally-defined model variables, too
@@ -373,10 +373,10 @@ def dynamic_func(
 
     # `llx` has `len(endo)` columns by construction, so we make use of that
     #    to get the `endos` names in the correct order
-    endo_suffix = np.array(
-        [[f'{v}{s}' for v in endo] for s in ('m1', '', 'p1')], dtype=object
+    endo_period = np.array(
+        [[f'{s}{v}' for v in endo] for s in (LAG, '', LEAD)], dtype=object
     )
-    dyn_vars = list(endo_suffix[~np.isnan(llx)])
+    dyn_vars = list(endo_period[~np.isnan(llx)])
     dyn_vars.extend(exo) # `exo` in declaration order by construction
 
     ast_walker = DynamicFunc(sub_tree)
@@ -393,6 +393,19 @@ def dynamic_func(
 
 
 
+# prefixes of variables in other periods. names can't begin with an underscore, so
+#   none that a model declares is the same as one of these
+LAG, LEAD = '_m1_', '_p1_'
+
+
+def period_name(node: PeriodVar):
+    """
+    the name in a dynamic function of a variable in the previous or the next period
+    """
+    return (LEAD if node.period_offset > 0 else LAG) + node.value
+
+
+
 class DynamicFunc(base._BaseEvaluator):
     """
     the callable that corresponds to the dynamic version of individual model
@@ -412,10 +425,7 @@ class DynamicFunc(base._BaseEvaluator):
         return self.dyn_vals[node.value]
 
     def visit_PeriodVar(self, node):
-        var_name = node.value
-        offset = node.period_offset
-        name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-        return self.dyn_vals[name_offset]
+        return self.dyn_vals[period_name(node)]
 
 
 
@@ -458,8 +468,8 @@ class _DynamicSubsitution(base._ASTSubstitution):
     so variable `x` will be added to `self.not_provided` as `x`. However,
     PeriodVars are altered in accordance with the naming scheme used in
     dynamic_func:
-        PeriodVar(name='x', period_offset=-1) -> 'xm1'
-        PeriodVar(name='y', period_offset=1)  -> 'ym1'
+        PeriodVar(name='x', period_offset=-1) -> '_m1_x'
+        PeriodVar(name='y', period_offset=1)  -> '_p1_y'
     """
 
     def __init__(
@@ -483,10 +493,7 @@ class _DynamicSubsitution(base._ASTSubstitution):
                 self.not_provided.add(var_name)
 
         elif isinstance(attribute, ast.PeriodVar):
-            var_name = attribute.value
-            offset = attribute.period_offset
-            name_offset = f'{var_name}p1' if offset > 0 else f'{var_name}m1'
-            self.not_provided.add(name_offset)
+            self.not_provided.add(period_name(attribute))
 
 
 
-- 
2.43.0


From 53fb25181ba25122a7cc5bab82f16a375e419978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:36 +0000
Subject: [PATCH 25/30] fix: leads and lags of other than one period are
 refused

In a model that also has y(-1), y(-2) and y(-0) were silently taken for it.
---
 pynare/core/expressions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pynare/core/expressions.py b/pynare/core/expressions.py
index ded3759..8c1ff4a 100644
--- a/pynare/core/expressions.py
+++ b/pynare/core/expressions.py
@@ -402,6 +402,12 @@ def period_name(node: PeriodVar):
     """
     the name in a dynamic function of a variable in the previous or the next period
     """
+    if node.offset.value != 1:
+        raise NotImplementedError(
+            f"{node.value}({node.direction.value}{node.offset.value}): only leads and "
+            "lags of one period"
+        )
+
     return (LEAD if node.period_offset > 0 else LAG) + node.value
 
 
-- 
2.43.0


From 736e956eb92df222cc870ceeafe0c445bf4319a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:47 +0000
Subject: [PATCH 26/30] fix: numpy integers are numbers to a calibration

The absolute value or sign of an integer parameter is one, so that local
variables couldn't be evaluated in models that have such parameters.
---
 pynare/core/variables.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index a8aa28a..4eb97e7 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from functools import cached_property
 from collections.abc import MutableMapping
+from numbers import Real
 import numpy as np
 
 from pynare.errors import (
@@ -903,7 +904,7 @@ def solve_calibration(calib):
     """
     calib_ = {}
     for k, v in calib.items():
-        if isinstance(v, (float, int)):
+        if isinstance(v, Real):
             calib_[k] = v
         elif isinstance(v, str):
             calib_[k] = parse_string(v)
@@ -984,7 +985,7 @@ def evaluate_parameter(
     -------
     float | int
     """
-    if isinstance(expr, (float, int)):
+    if isinstance(expr, Real):
         return expr
 
     return base.BaseEvaluator(expr, scope)
-- 
2.43.0


From d7913ac91cf31b7ef4dbe61358394b6bf3c81440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:06 +0000
Subject: [PATCH 27/30] fix: the rank condition's tolerance follows from the
 scale of the unitary matrix

np.linalg.matrix_rank by default compares the singular values of Z22 with the
largest one among them, so that a Z22 of nothing but rounding errors was taken
to be of full rank, and models violating the rank condition were solved
---
 pynare/core/solve/statespace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index eb655c3..58a63f1 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -63,8 +63,9 @@ class StateSpace(object):
             self.is_verified = False
             raise ModelIdentificationError('order', n_explosive, n_forward)
 
+        # `Z` is unitary, so that rounding errors are of the same size whatever is in Z22
         Z22 = self.zarrays.Z_22
-        if np.linalg.matrix_rank(Z22) != Z22.shape[0]:
+        if np.linalg.matrix_rank(Z22, tol=1e-8) != Z22.shape[0]:
             self.is_verified = False
             raise ModelIdentificationError('rank')
 
-- 
2.43.0


From f6bea3e9ff44d6d9e9ec89c3c963af4164dcf7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:01 +0000
Subject: [PATCH 28/30] fix: a singular pencil does not satisfy the rank
 condition

a model in which an equation repeats others leaves some variables undetermined.
its generalized eigenvalues are rounding errors over rounding errors, which
often enough looked like the right number of explosive ones, and a 'solution'
was reported. check that the pencil is regular before counting
---
 pynare/core/solve/statespace.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pynare/core/solve/statespace.py b/pynare/core/solve/statespace.py
index 58a63f1..b9234da 100644
--- a/pynare/core/solve/statespace.py
+++ b/pynare/core/solve/statespace.py
@@ -55,6 +55,14 @@ class StateSpace(object):
         """
         checking the Blanchard-Kahn (1980) conditions
         """
+        # a pencil that is singular everywhere (as when an equation repeats others) leaves
+        #   some variables undetermined, and what's reported as its eigenvalues is arbitrary
+        if self.lhs.size:
+            pencil = self.rhs - np.exp(1j)*self.lhs
+            if linalg.svdvals(pencil)[-1] <= 1e-12*np.linalg.norm(self.jacobian):
+                self.is_verified = False
+                raise ModelIdentificationError('rank')
+
         abs_eigs = np.absolute(self.eigen)
         n_explosive = np.sum((abs_eigs > 1) | np.isinf(abs_eigs))
         n_forward = self.model.indexes.n_forward
-- 
2.43.0


From 526717526b6e35b371e480f8aa33569eea69aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:46 +0000
Subject: [PATCH 29/30] fix: the first column of the jacobian may belong to a
 static variable

n_static counted the nonzero column indexes of the static variables, and so
missed the one with index zero, which a model without lags can have
---
 pynare/core/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 4eb97e7..1544d19 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -592,7 +592,7 @@ class VariableIndexManager(object):
     @cached_property
     def n_static(self):
         llx = self.llx
-        return np.count_nonzero(llx[1, np.isnan(llx[0]) & np.isnan(llx[2])])
+        return np.count_nonzero(np.isnan(llx[0]) & np.isnan(llx[2]))
 
     @cached_property
     def n_forward(self):
-- 
2.43.0


From d2cc22f66b0de102c1d532162b3a8f6d2f0c2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:51 +0000
Subject: [PATCH 30/30] fix: calibrate with python's integers, as numpy's
 overflow and have no negative powers

---
 pynare/core/variables.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pynare/core/variables.py b/pynare/core/variables.py
index 1544d19..cf61263 100644
--- a/pynare/core/variables.py
+++ b/pynare/core/variables.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from functools import cached_property
 from collections.abc import MutableMapping
-from numbers import Real
+from numbers import Integral, Real
 import numpy as np
 
 from pynare.errors import (
@@ -904,7 +904,10 @@ def solve_calibration(calib):
     """
     calib_ = {}
     for k, v in calib.items():
-        if isinstance(v, Real):
+        if isinstance(v, Integral):
+            # numpy's integers overflow and can't be raised to negative powers
+            calib_[k] = int(v)
+        elif isinstance(v, Real):
             calib_[k] = v
         elif isinstance(v, str):
             calib_[k] = parse_string(v)
-- 
2.43.0

