From 01ff4f8f5636176c788105fdb0f80e792dbf40a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 01/35] fix: report an array index equal to the array length
 instead of crashing

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ff2acf9..32dadaa 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1812,7 +1812,7 @@ class Binary_Expression(Expression):
                          (v_lhs.typ.upper_bound,
                           self.to_string(),
                           mh.cross_file_reference(self.location)))
-            elif v_rhs.value > len(v_lhs.value):
+            elif v_rhs.value >= len(v_lhs.value):
                 mh.error(v_lhs.location,
                          "array is not big enough in %s (%s)" %
                          (self.to_string(),
-- 
2.43.0


From d649baa43fbafc985907c9fa7e8b98dc059b4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 02/35] fix: report a file ending before an array upper bound

---
 trlc/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 5c75a4c..9822134 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -636,6 +636,10 @@ class Parser(Parser_Base):
                 a_hi = self.ct.value
             elif self.peek("OPERATOR") and self.nt.value == "*":
                 self.match("OPERATOR")
+            elif self.nt is None:
+                self.mh.error(self.ct.location,
+                              "expected INTEGER or * for upper bound,"
+                              " encountered %s instead" % self.eoc_name)
             else:
                 self.mh.error(self.nt.location,
                               "expected INTEGER or * for upper bound")
-- 
2.43.0


From 9af24ac3523bb749b851b7899490f141c5dc824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 03/35] fix: report a file ending before a tuple value instead
 of crashing

---
 trlc/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 9822134..e832c9e 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1824,7 +1824,10 @@ class Parser(Parser_Base):
 
         elif isinstance(typ, ast.Tuple_Type) and typ.has_separators():
             # lobster-trace: LRM.Tuple_Separator_Form
-            rv = ast.Tuple_Aggregate(self.nt.location, typ)
+            rv = ast.Tuple_Aggregate(self.nt.location
+                                     if self.nt
+                                     else self.ct.location,
+                                     typ)
 
             next_is_optional = False
             for n_item in typ.iter_sequence():
-- 
2.43.0


From c1e3fc5c4b80629b9110bd2a4ff6be97f01a92bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 04/35] fix: report a membership test in null instead of
 crashing

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index e832c9e..0bebf48 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -920,7 +920,7 @@ class Parser(Parser_Base):
                 self.mh.error(
                     n_a.location,
                     "membership test only defined for Strings and Arrays,"
-                    " not for %s" % n_a.typ.name)
+                    " not for %s" % (n_a.typ.name if n_a.typ else "null"))
 
             if t_not is not None:
                 a_unary_op = ast.Unary_Operator.LOGICAL_NOT
-- 
2.43.0


From 544078bf5e2cea51e5804604d4a91f5e8d462c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 05/35] fix: report wrong arity of type conversions instead of
 crashing

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 0bebf48..fbbe9d1 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1274,7 +1274,7 @@ class Parser(Parser_Base):
             if required_arity != len(parameters):
                 self.mh.error(t_name.location,
                               "function requires %u parameters" %
-                              n_name.arity)
+                              required_arity)
         else:
             if required_arity > len(parameters):
                 self.mh.error(t_name.location,
-- 
2.43.0


From 3c38646296f082e6d91a3c0178d66f0203ffff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 06/35] fix: accept a triple-quoted string that ends exactly at
 the end of the file

---
 trlc/lexer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 259364b..49bbfb8 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -419,7 +419,7 @@ class TRLC_Lexer(Lexer_Base):
                         quotes_seen += 1
                     else:
                         quotes_seen = 0
-                    if self.nc is None:
+                    if self.nc is None and quotes_seen < 3:
                         self.mh.lex_error(
                             Source_Reference(lexer      = self,
                                              start_line = start_line,
@@ -471,7 +471,7 @@ class TRLC_Lexer(Lexer_Base):
                     quotes_seen += 1
                 else:
                     quotes_seen = 0
-                if self.nc is None:
+                if self.nc is None and quotes_seen < 3:
                     self.mh.lex_error(
                         Source_Reference(lexer      = self,
                                          start_line = start_line,
-- 
2.43.0


From a438c6fb14d04ff5046331d3af9d8a596bd4cfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:50 +0000
Subject: [PATCH 07/35] fix: report a file ending in an opening triple quote
 instead of crashing

---
 trlc/lexer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 49bbfb8..419d03f 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -425,7 +425,8 @@ class TRLC_Lexer(Lexer_Base):
                                              start_line = start_line,
                                              start_col  = start_col,
                                              start_pos  = start_pos,
-                                             end_pos    = self.lexpos),
+                                             end_pos    = min(self.lexpos,
+                                                              self.length - 1)),
                             "unterminated triple-quoted string")
             else:
                 while self.nc != '"':
@@ -462,7 +463,8 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = min(self.lexpos,
+                                                          self.length - 1)),
                         "malformed triple-quoted string")
             quotes_seen = 0
             while quotes_seen < 3:
@@ -477,7 +479,8 @@ class TRLC_Lexer(Lexer_Base):
                                          start_line = start_line,
                                          start_col  = start_col,
                                          start_pos  = start_pos,
-                                         end_pos    = self.lexpos),
+                                         end_pos    = min(self.lexpos,
+                                                          self.length - 1)),
                         "unterminated triple-quoted string")
 
         elif self.is_numeric(self.cc):
-- 
2.43.0


From e761ad56bf2bedf08f3ae37176a6ff54ef4a0001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 08/35] fix: report a regular expression with overflowing
 repetition instead of crashing

---
 trlc/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index fbbe9d1..69087be 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1318,7 +1318,7 @@ class Parser(Parser_Base):
                 value = parameters[1].evaluate(self.mh, None, None)
                 assert isinstance(value.typ, ast.Builtin_String)
                 re.compile(value.value)
-            except re.error as err:
+            except (re.error, OverflowError) as err:
                 self.mh.error(value.location,
                               str(err))
             return ast.Binary_Expression(
-- 
2.43.0


From 500f5729ba36648e6f99d7a118df07af1c439d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 09/35] fix: report a quantifier in a static context instead of
 crashing

---
 trlc/ast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 32dadaa..9356899 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2288,9 +2288,9 @@ class Quantified_Expression(Expression):
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
         if context is None:
-            new_ctx = {}
-        else:
-            new_ctx = copy(context)
+            mh.error(self.location,
+                     "cannot be used in a static context")
+        new_ctx = copy(context)
 
         # This is going to be a bit tricky. We essentially eliminate
         # the quantifier and substitute; for the sake of making better
-- 
2.43.0


From 61611156c98e8dba20bd1a24c7a47e0585a84526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 10/35] fix: report a quantifier body evaluating to null
 instead of crashing

---
 trlc/ast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 9356899..29a8f03 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2312,6 +2312,11 @@ class Quantified_Expression(Expression):
         for binding in array_values.value:
             new_ctx[self.n_var.name] = binding
             result = self.n_expr.evaluate(mh, new_ctx, gstab)
+            if result.value is None:
+                mh.error(result.location,
+                         "body of %s (%s) must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
             assert isinstance(result.value, bool)
             if self.universal and not result.value:
                 rv  = False
-- 
2.43.0


From 3b8b03fc9d120e546d56904d792f77a21d9d03df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:10 +0000
Subject: [PATCH 11/35] fix: report a null operand of oneof instead of treating
 it as false

---
 trlc/ast.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 29a8f03..28e4e15 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2049,8 +2049,15 @@ class OneOf_Expression(Expression):
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
 
-        v_choices = [n_choice.evaluate(mh, context, gstab).value
-                     for n_choice in self.choices]
+        v_choices = []
+        for n_choice in self.choices:
+            v_choice = n_choice.evaluate(mh, context, gstab)
+            if v_choice.value is None:
+                mh.error(v_choice.location,
+                         "choice of %s (%s) must not be null" %
+                         (self.to_string(),
+                          mh.cross_file_reference(self.location)))
+            v_choices.append(v_choice.value)
 
         return Value(location = self.location,
                      value    = v_choices.count(True) == 1,
-- 
2.43.0


From 56f0b459fb468617add8d3b4ca30bc38826f56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 12/35] fix: report a null rhs of and, or and implies

---
 trlc/ast.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 28e4e15..ac3bd16 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1611,6 +1611,17 @@ class Binary_Expression(Expression):
         else:
             assert False
 
+    def evaluate_rhs(self, mh, context, gstab):
+        v_rhs = self.n_rhs.evaluate(mh, context, gstab)
+        if v_rhs.value is None and \
+           self.operator not in (Binary_Operator.COMP_EQ,
+                                 Binary_Operator.COMP_NEQ):
+            mh.error(v_rhs.location,
+                     "rhs of check %s (%s) must not be null" %
+                     (self.to_string(),
+                      mh.cross_file_reference(self.location)))
+        return v_rhs
+
     def evaluate(self, mh, context, gstab):
         # lobster-trace: LRM.Null_Equivalence
         # lobster-trace: LRM.Null_Is_Invalid
@@ -1637,7 +1648,7 @@ class Binary_Expression(Expression):
         if self.operator == Binary_Operator.LOGICAL_AND:
             assert isinstance(v_lhs.value, bool)
             if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
+                return self.evaluate_rhs(mh, context, gstab)
             else:
                 return v_lhs
 
@@ -1646,26 +1657,19 @@ class Binary_Expression(Expression):
             if v_lhs.value:
                 return v_lhs
             else:
-                return self.n_rhs.evaluate(mh, context, gstab)
+                return self.evaluate_rhs(mh, context, gstab)
 
         elif self.operator == Binary_Operator.LOGICAL_IMPLIES:
             assert isinstance(v_lhs.value, bool)
             if v_lhs.value:
-                return self.n_rhs.evaluate(mh, context, gstab)
+                return self.evaluate_rhs(mh, context, gstab)
             else:
                 return Value(location = self.location,
                              value    = True,
                              typ      = self.typ)
 
         # Otherwise, evaluate RHS and do the operation
-        v_rhs = self.n_rhs.evaluate(mh, context, gstab)
-        if v_rhs.value is None and \
-           self.operator not in (Binary_Operator.COMP_EQ,
-                                 Binary_Operator.COMP_NEQ):
-            mh.error(v_rhs.location,
-                     "rhs of check %s (%s) must not be null" %
-                     (self.to_string(),
-                      mh.cross_file_reference(self.location)))
+        v_rhs = self.evaluate_rhs(mh, context, gstab)
 
         if self.operator == Binary_Operator.LOGICAL_XOR:
             assert isinstance(v_lhs.value, bool)
-- 
2.43.0


From bd568111d81c54be264afa555282964427572218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 13/35] fix: perform the tuple checks of all array elements,
 not just up to the first failure

---
 trlc/ast.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index ac3bd16..64eac75 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -2583,8 +2583,11 @@ class Array_Type(Type):
         assert isinstance(gstab, Symbol_Table)
 
         if isinstance(value, Array_Aggregate):
-            return all(self.element_type.perform_type_checks(mh, v, gstab)
-                       for v in value.value)
+            ok = True
+            for v in value.value:
+                if not self.element_type.perform_type_checks(mh, v, gstab):
+                    ok = False
+            return ok
         else:
             assert isinstance(value, Implicit_Null)
             return True
-- 
2.43.0


From e03eb2fa41bb581cdeb4d22cdf2e5daff8be916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 14/35] fix: perform the checks of nested tuples

---
 trlc/ast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 64eac75..4f017bf 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3117,6 +3117,10 @@ class Tuple_Type(Composite_Type):
 
         if isinstance(value, Tuple_Aggregate):
             ok = True
+            for n_field in self.components.values():
+                if not n_field.n_typ.perform_type_checks(
+                        mh, value.value[n_field.name], gstab):
+                    ok = False
             for check in self.iter_checks():
                 if not check.perform(mh, value, gstab):
                     ok = False
-- 
2.43.0


From 11c1db80ad3f0c4ef88afdd283e46d8e4899f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 15/35] fix: enforce an array upper bound of zero

---
 trlc/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/parser.py b/trlc/parser.py
index 69087be..eedb186 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1767,7 +1767,8 @@ class Parser(Parser_Base):
                               (typ.lower_bound,
                                len(rv.value)),
                               fatal=False)
-            if typ.upper_bound and len(rv.value) > typ.upper_bound:
+            if typ.upper_bound is not None and \
+               len(rv.value) > typ.upper_bound:
                 self.mh.error(rv.value[typ.upper_bound].location,
                               "this array requires at most %u elements "
                               "(%u provided)" %
-- 
2.43.0


From 5a8bbf164232c8f725e310db344bc87f470aac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 16/35] fix: do not crash the linter on a separator following
 an ambiguous separator

---
 trlc/lint.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index 9002cb8..57d9abb 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -137,6 +137,10 @@ class Linter:
                     "separator_based_literal_ambiguity",
                     "\n".join(explanation))
 
+                previous_was_int     = isinstance(n_item.n_typ,
+                                                  ast.Builtin_Integer)
+                previous_was_bad_sep = False
+
             elif isinstance(n_item, ast.Composite_Component) and \
                isinstance(n_item.n_typ, ast.Builtin_Integer):
                 previous_was_int = True
-- 
2.43.0


From 5906cda30d510ada9b67da7830c5220ce24afe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 17/35] fix: report unused imports in a deterministic order

---
 trlc/lint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/lint.py b/trlc/lint.py
index 57d9abb..d01056e 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -238,7 +238,8 @@ class Linter:
                 continue
             if not file.cu.imports:
                 continue
-            for item in file.cu.imports:
+            for item in sorted(file.cu.imports,
+                               key=lambda n_pkg: n_pkg.name):
                 import_tokens = [t for t in file.lexer.tokens
                                  if t.value == item.name]
                 markup = self.markup_ref(item,
-- 
2.43.0


From 4ab7328f788001ee83e02160f1b48f5c7d900bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:58 +0000
Subject: [PATCH 18/35] fix: do not crash the verifier on runtime checks in
 functional translation

---
 trlc/vcg.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 5eee6ec..6e6e1e2 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -938,7 +938,8 @@ class VCG:
 
             elif isinstance(n_expr.n_lhs.typ, Builtin_Integer):
                 if n_expr.operator in (Binary_Operator.DIVIDE,
-                                       Binary_Operator.REMAINDER):
+                                       Binary_Operator.REMAINDER) and \
+                   not self.functional:
                     self.attach_int_division_check(rhs_value, n_expr)
 
                 smt_op = {
@@ -955,7 +956,8 @@ class VCG:
 
             else:
                 assert isinstance(n_expr.n_lhs.typ, Builtin_Decimal)
-                if n_expr.operator == Binary_Operator.DIVIDE:
+                if n_expr.operator == Binary_Operator.DIVIDE and \
+                   not self.functional:
                     self.attach_real_division_check(rhs_value, n_expr)
 
                 smt_op = {
@@ -1008,7 +1010,8 @@ class VCG:
                 smt.String_Literal(rhs_evaluation))
 
         elif n_expr.operator == Binary_Operator.INDEX:
-            self.attach_index_check(lhs_value, rhs_value, n_expr)
+            if not self.functional:
+                self.attach_index_check(lhs_value, rhs_value, n_expr)
             sym_value = smt.Sequence_Index(lhs_value, rhs_value)
 
         elif n_expr.operator == Binary_Operator.ARRAY_CONTAINS:
@@ -1049,11 +1052,14 @@ class VCG:
         assert isinstance(n_expr, Range_Test)
 
         lhs_value, lhs_valid     = self.tr_expression(n_expr.n_lhs)
-        self.attach_validity_check(lhs_valid, n_expr.n_lhs)
+        if not self.functional:
+            self.attach_validity_check(lhs_valid, n_expr.n_lhs)
         lower_value, lower_valid = self.tr_expression(n_expr.n_lower)
-        self.attach_validity_check(lower_valid, n_expr.n_lower)
+        if not self.functional:
+            self.attach_validity_check(lower_valid, n_expr.n_lower)
         upper_value, upper_valid = self.tr_expression(n_expr.n_upper)
-        self.attach_validity_check(upper_valid, n_expr.n_upper)
+        if not self.functional:
+            self.attach_validity_check(upper_valid, n_expr.n_upper)
 
         sym_value = smt.Conjunction(
             smt.Comparison(">=", lhs_value, lower_value),
@@ -1067,7 +1073,8 @@ class VCG:
         choices = []
         for n_choice in n_expr.choices:
             c_value, c_valid = self.tr_expression(n_choice)
-            self.attach_validity_check(c_valid, n_choice)
+            if not self.functional:
+                self.attach_validity_check(c_valid, n_choice)
             choices.append(c_value)
 
         negated_choices = [smt.Boolean_Negation(c)
-- 
2.43.0


From ff5502162988948a14ff1c08e496075968129b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:19 +0000
Subject: [PATCH 19/35] fix: do not crash the verifier on conversions that keep
 the type

---
 trlc/vcg.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 6e6e1e2..424ef67 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -883,10 +883,16 @@ class VCG:
             sym_value = smt.Sequence_Length(operand_value)
 
         elif n_expr.operator == Unary_Operator.CONVERSION_TO_DECIMAL:
-            sym_value = smt.Conversion_To_Real(operand_value)
+            if isinstance(n_expr.n_operand.typ, Builtin_Decimal):
+                sym_value = operand_value
+            else:
+                sym_value = smt.Conversion_To_Real(operand_value)
 
         elif n_expr.operator == Unary_Operator.CONVERSION_TO_INT:
-            sym_value = smt.Conversion_To_Integer("rna", operand_value)
+            if isinstance(n_expr.n_operand.typ, Builtin_Integer):
+                sym_value = operand_value
+            else:
+                sym_value = smt.Conversion_To_Integer("rna", operand_value)
 
         else:
             self.mh.ice_loc(n_expr,
-- 
2.43.0


From 94243180f96c088ca83b067eed248f19dcbb6d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 20/35] fix: report a file ending after the second comma of a
 check

---
 trlc/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index eedb186..91653da 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1596,6 +1596,11 @@ class Parser(Parser_Base):
                     has_anchor = True
                 elif self.peek("STRING"):
                     has_extrainfo = True
+                elif self.nt is None:
+                    self.mh.error(self.ct.location,
+                                  "expected either a details string or"
+                                  " identifier to anchor the check message,"
+                                  " encountered %s instead" % self.eoc_name)
                 else:
                     self.mh.error(self.nt.location,
                                   "expected either a details string or"
-- 
2.43.0


From ffaee88d731ab01583ff78e01a98fb2b13001b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 21/35] fix: do not crash the linter on an enumeration after an
 ambiguous separator

---
 trlc/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 4f017bf..b3722f6 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3207,7 +3207,7 @@ class Enumeration_Type(Concrete_Type):
         # lobster-exclude: utility method
         options = list(self.literals.values())
         if options:
-            choice = len(options) // 2
+            choice = options[len(options) // 2]
             return self.name + "." + choice.name
         else:
             return "ERROR"
-- 
2.43.0


From 6a4dc1d5a365f865dfdd01a6cb330224994801c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 22/35] fix: yield files and sections in every iteration by
 section

---
 trlc/ast.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index b3722f6..39611ec 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -3425,8 +3425,6 @@ class Symbol_Table:
         self.parent   = parent
         self.imported = []
         self.table    = OrderedDict()
-        self.trlc_files = []
-        self.section_names = []
 
     @staticmethod
     def simplified_name(name):
@@ -3454,16 +3452,18 @@ class Symbol_Table:
         Output: Information about sections and level of sections,
         record objects and levels of record object
         """
+        trlc_files    = []
+        section_names = []
         for record_object in self.iter_record_objects():
             location = record_object.location.file_name
-            if location not in self.trlc_files:
-                self.trlc_files.append(location)
+            if location not in trlc_files:
+                trlc_files.append(location)
                 yield location
             if record_object.section:
                 object_level = len(record_object.section) - 1
                 for level, section in enumerate(record_object.section):
-                    if section not in self.section_names:
-                        self.section_names.append(section)
+                    if section not in section_names:
+                        section_names.append(section)
                         yield section.name, level
                 yield record_object, object_level
             else:
-- 
2.43.0


From 67e6e6c47686f6edd59ad265f3ec8f57b149b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:49 +0000
Subject: [PATCH 23/35] fix: include the values in the text form of a tuple
 aggregate

---
 trlc/ast.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 39611ec..141a91d 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1053,15 +1053,13 @@ class Tuple_Aggregate(Expression):
                 rv += " %s " % n_item.token.value
             elif first:
                 first = False
-            else:
+            elif not self.typ.has_separators():
                 rv += ", "
 
             if isinstance(n_item, Composite_Component):
                 rv += self.value[n_item.name].to_string()
-        if self.typ.has_separators():
-            rv = ""
-        else:
-            rv = ")"
+        if not self.typ.has_separators():
+            rv += ")"
         return rv
 
     def evaluate(self, mh, context, gstab):
-- 
2.43.0


From 49b67216e6b3982841a619681f805d8fbfd22fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 24/35] fix: permit access to inherited fields of a record
 reference

---
 trlc/ast.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 141a91d..5f5abb5 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1872,7 +1872,15 @@ class Field_Access_Expression(Expression):
         self.is_union_access = is_union_access
         self.is_universal    = is_universal
 
-        if not is_union_access:
+        if is_union_access:
+            pass
+        elif isinstance(self.n_prefix.typ, Record_Type) and \
+             isinstance(self.n_field.member_of, Record_Type) and \
+             self.n_prefix.typ.is_subclass_of(self.n_field.member_of):
+            # lobster-trace: LRM.Type_Extensions_Inherit_Everything
+            # The field may be inherited from a parent record
+            pass
+        else:
             self.n_prefix.ensure_type(mh, self.n_field.member_of)
 
     def dump(self, indent=0):  # pragma: no cover
-- 
2.43.0


From 0f7ab1325d0d1caf3992fc32cd9b9eabf1ad837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:34 +0000
Subject: [PATCH 25/35] fix: permit comparing records where one type extends
 the other

---
 trlc/ast.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 5f5abb5..7c5581e 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1503,6 +1503,13 @@ class Binary_Expression(Expression):
                                  "type mismatch: %s and %s do not match" %
                                  (self.n_lhs.typ.name,
                                   self.n_rhs.typ.name))
+            elif isinstance(self.n_lhs.typ, Record_Type) and \
+                 isinstance(self.n_rhs.typ, Record_Type) and \
+                 (self.n_lhs.typ.is_subclass_of(self.n_rhs.typ) or
+                  self.n_rhs.typ.is_subclass_of(self.n_lhs.typ)):
+                # lobster-trace: LRM.Equality_Domain
+                # Records are comparable if one type extends the other
+                pass
             elif self.n_lhs.typ != self.n_rhs.typ:
                 # Otherwise we can compare anything, as long as the
                 # types match
-- 
2.43.0


From a4fe7e46b3a3b411292a90d91f34a3773dd34921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:59 +0000
Subject: [PATCH 26/35] fix: require matching element type in array membership
 tests

---
 trlc/ast.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index 7c5581e..e5a2a51 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1533,8 +1533,16 @@ class Binary_Expression(Expression):
             self.n_rhs.ensure_type(mh, Builtin_String)
 
         elif operator == Binary_Operator.ARRAY_CONTAINS:
+            # lobster-trace: LRM.Array_Membership_Domain
             self.n_rhs.ensure_type(mh, Array_Type)
-            self.n_lhs.ensure_type(mh, self.n_rhs.typ.element_type.__class__)
+            element_type = self.n_rhs.typ.element_type
+            self.n_lhs.ensure_type(mh, element_type.__class__)
+            if isinstance(element_type, Record_Type):
+                if not (self.n_lhs.typ.is_subclass_of(element_type) or
+                        element_type.is_subclass_of(self.n_lhs.typ)):
+                    self.n_lhs.ensure_type(mh, element_type)
+            elif isinstance(element_type, (Enumeration_Type, Tuple_Type)):
+                self.n_lhs.ensure_type(mh, element_type)
 
         elif operator == Binary_Operator.PLUS:
             if isinstance(self.n_lhs.typ, Builtin_Numeric_Type):
-- 
2.43.0


From 50049ff4a77d0d2e92fb770ea39b6ef6f39c7b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 27/35] fix: compare record references by identity, not by
 their fields

---
 trlc/ast.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/trlc/ast.py b/trlc/ast.py
index e5a2a51..2693279 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1089,6 +1089,31 @@ class Tuple_Aggregate(Expression):
                    for expr in self.value.values())
 
 
+class Record_Value(dict):
+    # lobster-trace: LRM.Equality_On_Record_References
+    """Value of a record reference
+
+    This gives access to the fields of the record referred to, but
+    two such values are only equal if they refer to the same record.
+
+    :attribute record: the record referred to
+    :type: Record_Object
+    """
+    def __init__(self, record):
+        assert isinstance(record, Record_Object)
+        super().__init__(record.field)
+        self.record = record
+
+    def __eq__(self, other):
+        return isinstance(other, Record_Value) and \
+            self.record is other.record
+
+    def __ne__(self, other):
+        return not self == other
+
+    __hash__ = None
+
+
 class Record_Reference(Expression):
     """Reference to another record object
 
@@ -1145,7 +1170,9 @@ class Record_Reference(Expression):
         assert isinstance(mh, Message_Handler)
         assert context is None or isinstance(context, dict)
         assert gstab is None or isinstance(gstab, Symbol_Table)
-        return Value(self.location, copy(self.target.field), self.typ)
+        return Value(self.location,
+                     Record_Value(self.target),
+                     self.target.n_typ)
 
     def resolve_references(self, mh):
         # lobster-trace: LRM.References_To_Extensions
-- 
2.43.0


From 20647b04893ef64cc747002a263fbcc4c40c0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:09 +0000
Subject: [PATCH 28/35] fix: require the declared separators in tuple values

In separator form, a missing separator before a mandatory component was
silently accepted ('1 2' for a tuple declared as 'a separator @ b').
---
 trlc/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trlc/parser.py b/trlc/parser.py
index 91653da..e68c4ea 100644
--- a/trlc/parser.py
+++ b/trlc/parser.py
@@ -1841,6 +1841,10 @@ class Parser(Parser_Base):
                     if next_is_optional and n_item.optional:
                         break
                     value = self.parse_value(n_item.n_typ)
+                    if next_is_optional:
+                        self.mh.error(value.location,
+                                      "expected separator before"
+                                      " component %s" % n_item.name)
                     rv.assign(n_item.name, value)
 
                 elif n_item.token.kind in ("AT", "COLON", "SEMICOLON"):
-- 
2.43.0


From 9059b8392ff8b1a78d8741891bcb380b278c99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 29/35] fix: /*/ opens a comment, it is not a complete one

---
 trlc/lexer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 419d03f..7333db1 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -342,6 +342,9 @@ class TRLC_Lexer(Lexer_Base):
         elif self.cc == "/" and self.nc == "*":
             # lobster-trace: LRM.Comments
             kind = "COMMENT"
+            # The star that opens the comment cannot also close it
+            self.advance()
+            self.advance()
             while self.nc and not (self.cc == "*" and self.nc == "/"):
                 self.advance()
             self.advance()
-- 
2.43.0


From e246808463d90eb7b7f4d4c84ba3c4b5bc26fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:27 +0000
Subject: [PATCH 30/35] fix: column of messages on the first line of a
 triple-quoted Markup_String

---
 trlc/nested.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/trlc/nested.py b/trlc/nested.py
index 339b975..4da4b6a 100644
--- a/trlc/nested.py
+++ b/trlc/nested.py
@@ -50,7 +50,8 @@ class Nested_Lexer(Lexer_Base):
             loc = Source_Reference(
                 lexer      = self.origin_location.lexer,
                 start_line = self.origin_location.line_no + (start_line - 1),
-                start_col  = (self.origin_location.col_no + self.base_offset
+                start_col  = (self.origin_location.col_no + self.base_offset +
+                              (start_col - 1)
                               if start_line == 1
                               else start_col),
                 start_pos  = (self.origin_location.start_pos +
-- 
2.43.0


From f43c787afaaf436b7bfc1320c984bb888f75680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 31/35] fix: trailing whitespace on the first line of a
 triple-quoted string is removed

---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 7333db1..3b0472f 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -37,7 +37,7 @@ def triple_quoted_string_value(raw_value):
 
     non_empty_lines = [line for line in lines if line.strip()]
 
-    value      = lines[0]
+    value      = lines[0].rstrip()
     common_ws  = ""
     common_len = 0
     if len(non_empty_lines) >= 2:
-- 
2.43.0


From 20249c8aadac1af22b607013c2c7279141eb4e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:31 +0000
Subject: [PATCH 32/35] fix: end column of a location on the first line of a
 file that begins with an empty line

---
 trlc/lexer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trlc/lexer.py b/trlc/lexer.py
index 3b0472f..246cc15 100644
--- a/trlc/lexer.py
+++ b/trlc/lexer.py
@@ -115,7 +115,7 @@ class Source_Reference(Location):
         end_line = self.line_no + lines_in_between
 
         end_col = self.end_pos + 1
-        for n in range(self.end_pos, 1, -1):
+        for n in range(self.end_pos, -1, -1):
             if self.lexer.content[n] == "\n":
                 end_col = max(self.end_pos - n, 1)
                 break
-- 
2.43.0


From a6c2454f6b5949beea2672d66c0fb5d644ff8f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 33/35] fix: require related member types in array membership
 tests of unions

---
 trlc/ast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trlc/ast.py b/trlc/ast.py
index 2693279..c5dd1b6 100644
--- a/trlc/ast.py
+++ b/trlc/ast.py
@@ -1568,6 +1568,11 @@ class Binary_Expression(Expression):
                 if not (self.n_lhs.typ.is_subclass_of(element_type) or
                         element_type.is_subclass_of(self.n_lhs.typ)):
                     self.n_lhs.ensure_type(mh, element_type)
+            elif isinstance(element_type, Union_Type):
+                if not any(lm.is_subclass_of(rm) or rm.is_subclass_of(lm)
+                           for lm in self.n_lhs.typ.types
+                           for rm in element_type.types):
+                    self.n_lhs.ensure_type(mh, element_type)
             elif isinstance(element_type, (Enumeration_Type, Tuple_Type)):
                 self.n_lhs.ensure_type(mh, element_type)
 
-- 
2.43.0


From 79a1272d97562b47e23be28db48cf030b1e36b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:09 +0000
Subject: [PATCH 34/35] fix: lint the element types of arrays

---
 trlc/lint.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trlc/lint.py b/trlc/lint.py
index d01056e..8f06b31 100644
--- a/trlc/lint.py
+++ b/trlc/lint.py
@@ -225,6 +225,8 @@ class Linter:
                           "be an optional %s instead." %
                           n_typ.element_type.name)
 
+        self.verify_type(n_typ.element_type)
+
     def markup_ref(self, item, string_literals):
         for string_literal in string_literals:
             for reference in string_literal.references:
-- 
2.43.0


From 066e131f481707dcecabecbbb452fe1e66b751e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:26 +0000
Subject: [PATCH 35/35] fix: declare the types met inside of checks before all
 of them in the verifier

The declaration of an enumeration or tuple type which is first met when a
check is translated (the element of a referenced record, for example) was
attached to the current node. This may be a verification condition, which
cannot take declarations (an assertion fails), or on a path that is left
again, so that later uses on other paths were not declared.
---
 trlc/vcg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trlc/vcg.py b/trlc/vcg.py
index 424ef67..c1a0504 100644
--- a/trlc/vcg.py
+++ b/trlc/vcg.py
@@ -693,7 +693,7 @@ class VCG:
                 for n_lit in n_type.literals.values():
                     s_sort.add_literal(n_lit.name)
                 self.enumerations[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Enumeration_Declaration(
                         s_sort,
                         "enumeration %s from %s" % (
@@ -712,7 +712,7 @@ class VCG:
                         s_sort.add_component(n_component.name + ".valid",
                                              smt.BUILTIN_BOOLEAN)
                 self.tuples[n_type] = s_sort
-                self.start.add_statement(
+                self.preamble.add_statement(
                     smt.Record_Declaration(
                         s_sort,
                         "tuple %s from %s" % (
-- 
2.43.0

