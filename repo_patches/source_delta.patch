From 7f81142ac9c615ad164cba12bcbc18b784f23a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 01/54] fix: Vector and Set comparison return the verdict, not
 the always-true (verdict, splitted) pair

---
 math_evaluation/core/type_evaluations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index fb984dd..e985c0a 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -113,7 +113,7 @@ def is_equiv_vector(
     grt_normalized = preprocess(grt_normalized)
     pre_normalized = preprocess(pre_normalized)
     try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)
+        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
 
@@ -134,7 +134,7 @@ def is_equiv_set(
     grt_normalized = preprocess(grt_normalized)
     pre_normalized = preprocess(pre_normalized)
     try:
-        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)
+        return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
         return False
 
-- 
2.43.0


From b337e99970621dba9225f5eb7d8d0f1274301d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 02/54] fix: is_equiv_type no longer raises on a missing answer
 type or on answers with several normal forms

---
 math_evaluation/core/type_evaluations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index e985c0a..2c20414 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -161,8 +161,13 @@ def is_equiv_type(
     }
     is_equal = False
     for type_name, check_func in equiv_checks.items():
-        if re.search(type_name, answer_type): 
-            if check_func(ground_truth, prediction):
+        if answer_type and re.search(type_name, answer_type): 
+            try:
+                type_equal = check_func(ground_truth, prediction)
+            except Exception:
+                # e.g., answers without a single normal form (10\\%, 30^\\circ), fall back to is_equiv
+                type_equal = False
+            if type_equal:
                 is_equal = True
                 break 
         else:
-- 
2.43.0


From 2e712121721497e9887cfe57f45e8b3561684a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 03/54] fix: a negative mixed number is -(whole + fraction),
 not -whole + fraction

---
 math_evaluation/core/latex_normalize.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 50742d0..ab84a5e 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -167,12 +167,13 @@ def _inject_implicit_mixed_number(expr: str):
         7\\frac34 => 7+\\frac34: space is optional
     """
     regex_cands = [
-        r"(\d+) +(\d+/\d+)",                    
-        r"(\d+) *(\\frac(\d|{\d+})(\d|{\d+}))",  
+        r"(-?)(\d+) +(\d+/\d+)",                    
+        r"(-?)(\d+) *(\\frac(\d|{\d+})(\d|{\d+}))",  
     ]
     for regex in regex_cands:
         pattern = re.compile(regex)
-        expr = pattern.sub(r"\1+\2", expr)
+        # the sign of a mixed number applies to both parts: -1\\frac12 => -1-\\frac12
+        expr = pattern.sub(lambda m: f"{m.group(1)}{m.group(2)}{m.group(1) or '+'}{m.group(3)}", expr)
     return expr
 
 
-- 
2.43.0


From c53aa1bf639c6253c8b9a64333a4ec381798923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 04/54] fix: only well-formed thousands groups are merged,
 (12,3456) stays a pair

---
 math_evaluation/core/latex_normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index ab84a5e..a5e4960 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -186,7 +186,7 @@ def _str_to_decimal(digits: str, base: str):
 
 
 def _strip_properly_formatted_commas(expr: str):
-    expr = re.sub(r"\d{1,3}(?:, ?\d{3})+", lambda x: x.group(0).replace(',', ''), expr)
+    expr = re.sub(r"(?<![\d.])\d{1,3}(?:, ?\d{3})+(?!\d)", lambda x: x.group(0).replace(',', ''), expr)
     return expr
 
 
-- 
2.43.0


From 937d51b66be1a0d0e5a6e67c70110bfdbc6fe880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 05/54] fix: an element "\in" in the prediction does not switch
 off the length check of tuples

---
 math_evaluation/core/evaluations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index 83ab1fd..6dac43d 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -117,7 +117,7 @@ def is_equiv_possible_tuple(
             return is_equiv(ground_truth_elems, given_elems, verbose), splitted
 
     is_correct = False
-    if len(ground_truth_elems) != len(given_elems) and not '\\in' in given_elems:
+    if len(ground_truth_elems) != len(given_elems):
         is_correct = False
     elif type(ground_truth_elems) != type(given_elems):
         is_correct = False
-- 
2.43.0


From b58c90bb115aff8aa094e4f3253fc78bda000648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 06/54] fix: unordered lists are matched one to one
 independently of element order and hash order

---
 math_evaluation/core/evaluations.py | 32 ++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index 6dac43d..b2bdfae 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -127,16 +127,28 @@ def is_equiv_possible_tuple(
                 return False, splitted
         return True, splitted
     elif isinstance(ground_truth_elems, set):
-        gt_found_matches = [False] * len(ground_truth_elems)
-        gv_found_matches = [False] * len(given_elems)
-        for i, ground_truth_elem in enumerate(ground_truth_elems):
-            if not gt_found_matches[i]:
-                for j, given_elem in enumerate(given_elems):
-                    if not gv_found_matches[j] and is_equiv(ground_truth_elem, given_elem, verbose):
-                        gt_found_matches[i] = True
-                        gv_found_matches[j] = True
-                        break
-        return all(gt_found_matches), splitted
+        # is_equiv is not transitive (tolerance), so a greedy choice may block a later element: find a perfect matching
+        gt_elems, gv_elems = list(ground_truth_elems), list(given_elems)
+        gv_matches = [None] * len(gv_elems)
+        equal = {}
+
+        def find_match(i, visited):
+            for j, given_elem in enumerate(gv_elems):
+                if j in visited:
+                    continue
+                if (i, j) not in equal:
+                    equal[i, j] = is_equiv(gt_elems[i], given_elem, verbose)
+                if equal[i, j]:
+                    visited.add(j)
+                    if gv_matches[j] is None or find_match(gv_matches[j], visited):
+                        gv_matches[j] = i
+                        return True
+            return False
+
+        for i in range(len(gt_elems)):
+            if not find_match(i, set()):
+                return False, splitted
+        return True, splitted
 
     return is_correct, splitted
 
-- 
2.43.0


From 467338efd0623e105d7c4c62ae396e3420279956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 07/54] fix: x != a is accepted for a != x

---
 math_evaluation/core/latex_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index 53f435e..dcc075e 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -341,7 +341,7 @@ def _are_equal_latex_sympy(
             # must be `Unequality` with rel_op !=
             # A != B, A1 != B1, we compare two sets: {A, B} and {A1, B1}
             gt_latex_sympy = _uneq_to_set(gt_latex_sympy)
-            gt_latex_sympy = _uneq_to_set(gt_latex_sympy)
+            gv_latex_sympy = _uneq_to_set(gv_latex_sympy)
             gt_type = _get_sympy_type(gt_latex_sympy)
             gv_type = _get_sympy_type(gv_latex_sympy)
             return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, gt_type, gv_type)
-- 
2.43.0


From 7202ce88322a4c1e06a4287321c489bb996d7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 08/54] fix: x = 5 is accepted for 5 = x and rejected for 2x =
 5

---
 math_evaluation/core/latex_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/math_evaluation/core/latex_parser.py b/math_evaluation/core/latex_parser.py
index dcc075e..6f1557f 100644
--- a/math_evaluation/core/latex_parser.py
+++ b/math_evaluation/core/latex_parser.py
@@ -397,6 +397,10 @@ def _are_equal_latex_sympy(
         if gt_is_cplx or gv_is_cplx:
             return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, ANSWER_TYPE_CPLX, ANSWER_TYPE_CPLX)
     
+    if {gt_type, gv_type} == {ANSWER_TYPE_FUNC, ANSWER_TYPE_EQUL}:
+        # e.g., x = 5 and 5 = x
+        return _are_equal_latex_sympy(gt_latex_sympy, gv_latex_sympy, ANSWER_TYPE_EQUL, ANSWER_TYPE_EQUL)
+
     if gt_type == ANSWER_TYPE_FUNC or gv_type == ANSWER_TYPE_FUNC:
         if isinstance(gt_latex_sympy, Equality):
             gt_latex_sympy = gt_latex_sympy.rhs
-- 
2.43.0


From 629336df96daa9aa7a1cbd5258b4f7ec8eaa56f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 09/54] fix: negating a matrix raised TypeError

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index bc076fd..0d916cf 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -447,7 +447,7 @@ def convert_unary(unary):
     elif unary.SUB():
         tmp_convert_nested_unary = convert_unary(nested_unary)
         if tmp_convert_nested_unary.is_Matrix:
-            return mat_mul_flat(-1, tmp_convert_nested_unary, evaluate=False)
+            return mat_mul_flat(-1, tmp_convert_nested_unary)
         else:
             if tmp_convert_nested_unary.func.is_Number:
                 return -tmp_convert_nested_unary
-- 
2.43.0


From 55d1ff04e0b449d63f5d30b3fc56118cdd435067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 10/54] fix: variable values are kept while parsing a
 derivative

---
 latex2sympy/latex2sympy2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 0d916cf..1454cea 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -776,9 +776,9 @@ def convert_frac(frac):
 
             expr_top = None
             if diff_op and upper_text.startswith('d'):
-                expr_top = latex2sympy(upper_text[1:])
+                expr_top = latex2sympy(upper_text[1:], VARIABLE_VALUES)
             elif partial_op and frac.upper.start.text == '\\partial':
-                expr_top = latex2sympy(upper_text[len('\\partial'):])
+                expr_top = latex2sympy(upper_text[len('\\partial'):], VARIABLE_VALUES)
             if expr_top:
                 return sympy.Derivative(expr_top, wrt)
 
-- 
2.43.0


From 3b97c6e630aa26552e79d38e6d5b757cf3fb9803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 11/54] fix: lists of rows, columns or eigenvectors are
 returned, whatever was parsed before

---
 latex2sympy/latex2sympy2.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 1454cea..a3903cc 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -474,10 +474,9 @@ def convert_postfix_list(arr, i=0):
                 return mat_mul_flat(res, rh)
             else:
                 return mul_flat(res, rh)
-    elif isinstance(res, (tuple, dict)):
-        return res
+    elif isinstance(res, (tuple, dict)) or not isinstance(res[0], sympy.Symbol):
+        return res  # e.g. the list of rows of a matrix
     else:  # must be derivative
-        assert diff_op or partial_op
         wrt = res[0]
         if i == len(arr) - 1:
             raise Exception("Expected expression for derivative")
-- 
2.43.0


From 5de94acc9f487c9ee509c49830ea7d01125bd638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 12/54] fix: plain Python numbers are usable as variable values

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index a3903cc..fecae4b 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -707,7 +707,7 @@ def convert_atom(atom):
         # replace the variable for already known variable values
         if name in VARIABLE_VALUES:
             # if a sympy class
-            if VARIABLE_VALUES[name].__module__.startswith("sympy"):
+            if type(VARIABLE_VALUES[name]).__module__.startswith("sympy"):
                 symbol = VARIABLE_VALUES[name]
 
             # if NOT a sympy class
-- 
2.43.0


From fe7c4caab5bfd535b3e07e636f254dcb4bcbde92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 13/54] fix: a function name with exponent 0 is the function to
 the power 0

---
 latex2sympy/latex2sympy2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index fecae4b..395fc3b 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -892,7 +892,7 @@ def convert_func(func):
                 should_pow = False
             expr = getattr(sympy.functions, name)(arg, evaluate=False)
 
-        if func_pow and should_pow:
+        if func_pow is not None and should_pow:
             expr = sympy.Pow(expr, func_pow, evaluate=False)
 
         return expr
@@ -940,7 +940,7 @@ def convert_func(func):
             else:
                 func_pow = convert_atom(func.supexpr().atom())
 
-        if func_pow and should_pow:
+        if func_pow is not None and should_pow:
             expr = sympy.Pow(expr, func_pow, evaluate=False)
 
         return expr
-- 
2.43.0


From 91ecaaafaa47b772b99287a7da0c79a52ff76c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 14/54] fix: an empty nullspace is returned as an empty list

---
 latex2sympy/latex2sympy2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 395fc3b..6f60b81 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -474,7 +474,7 @@ def convert_postfix_list(arr, i=0):
                 return mat_mul_flat(res, rh)
             else:
                 return mul_flat(res, rh)
-    elif isinstance(res, (tuple, dict)) or not isinstance(res[0], sympy.Symbol):
+    elif isinstance(res, (tuple, dict)) or not (res and isinstance(res[0], sympy.Symbol)):
         return res  # e.g. the list of rows of a matrix
     else:  # must be derivative
         wrt = res[0]
-- 
2.43.0


From dd8d4bfc4ceb6047e43b37be340f6cc26f35a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 15/54] fix: interval openness comes from the outer brackets,
 and an empty intersection stays empty

---
 math_evaluation/core/latex_normalize.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index a5e4960..4105bc8 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -128,12 +128,14 @@ def _str_to_interval(x: str):
         x = x.split('⋃') if '⋃' in x else x.split('\\cup')
         _interval = sympy.EmptySet
         for or_interval in x:
-            _or_interval = sympy.EmptySet
+            _or_interval = None
             for and_interval in or_interval.split('∩') if '∩' in or_interval else or_interval.split('\\cap'):
                 and_interval = and_interval.strip()
                 int_start, int_end = and_interval.split(',')
-                int_start = latex2sympy(int_start.replace('(', '').replace('[', ''))
-                int_end = latex2sympy(int_end.replace(')', '').replace(']', ''))
+                # only the outermost brackets are the interval's, e.g., [-(1/2), 3]
+                left_open, right_open = int_start.startswith('('), int_end.endswith(')')
+                int_start = latex2sympy(int_start[1:] if int_start[0] in '([' else int_start)
+                int_end = latex2sympy(int_end[:-1] if int_end[-1] in ')]' else int_end)
                 # check validation
                 if int_start.is_number:
                     int_start = int_start.evalf()
@@ -146,8 +148,8 @@ def _str_to_interval(x: str):
                 if int_start.is_number and int_end.is_number and int_start > int_end:
                     raise Exception('Illegal Interval range')
                 # define sympy Interval
-                temp_int = sympy.Interval(int_start, int_end, left_open='(' in and_interval, right_open=')' in and_interval)
-                if _or_interval.is_empty:
+                temp_int = sympy.Interval(int_start, int_end, left_open=left_open, right_open=right_open)
+                if _or_interval is None:
                     _or_interval = temp_int
                 else:
                     _or_interval = _or_interval.intersect(temp_int)
-- 
2.43.0


From 372e6ffcf5d86d874c9f1d2df0b77362b1c5d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 16/54] fix: scientific notation has one reading, mantissa
 times power of ten, and keeps its digits

---
 math_evaluation/core/latex_normalize.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 4105bc8..eabf962 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -389,10 +389,11 @@ def further_string_normalize(expr: str):
     if len(expr) > 0 and expr[0] == "{" and expr[-1] == "}":
         expr = expr[1:-1]
     
-    if _is_float(expr) and _is_int(float(expr)):
-        if re.search("e", expr):
+    if _is_float(expr):
+        if re.search("[eE]", expr):
+            # "e" must not be read as the constant, e.g., 1.5e-3 -> 1.5*10^{-03}, not 1.5*e-3
             expr = float_to_latex_scientific(expr)
-        else:
+        elif _is_int(float(expr)):
             expr = str(int(round(float(expr))))
 
     if "\\" in expr:
@@ -426,11 +427,12 @@ def float_to_latex_scientific(expr: str) -> str:
     if _is_float(expr):
         num = float(expr)
         if num != 0:
-            # float to sci num, x.xxxe+02
-            sci_num = '{:e}'.format(num)
+            # float to sci num, x.xxxe+02, without losing digits
+            sci_num = '{:.15e}'.format(num)
             # computable latex, e -> *10
             latex_sci_num = sci_num.replace('e', '*10^{') + '}'
             return latex_sci_num
+        return "0"
 
     return expr
 
-- 
2.43.0


From 49917e74c31d8d2a45c46efd7dc7915c67073ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 17/54] fix: a percentage below 0.01% is not read as an
 expression in the constant e

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index eabf962..3f37960 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -299,8 +299,8 @@ def _string_normalize(expr: str):
         expr = expr.replace("%", "")
         if _is_float(expr):
             return {
-                str(float(expr) / 100), 
-                str(float(expr)),
+                further_string_normalize(str(float(expr) / 100)),
+                further_string_normalize(str(float(expr))),
             }
 
     # Remove $
-- 
2.43.0


From b8f018577d5fac5f71cd1e72a498450367a7bd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 18/54] fix: a unit name is removed only as a whole word

---
 math_evaluation/core/latex_normalize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 3f37960..88283a6 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -356,14 +356,14 @@ def _string_normalize(expr: str):
     # MUST have space between value and unit, e.g., 5cm -> 5*c*m
     # single letter unit is not considered, e.g., m in 5 + m or 5 m
     for unit in UNIT_LONG_LIST:
-        regex = r" *{unit}(es|s)? *(\^\d|\^{{\d+}}+)?".format(unit=unit)
+        regex = r" *(?<![a-zA-Z\\]){unit}(es|s)?(?![a-zA-Z]) *(\^\d|\^{{\d+}}+)?".format(unit=unit)
         expr = re.sub(regex, "", expr)
     # For short unit: 
     #   MUST have space between value and unit, 
     #   e.g., 5 cm, 5 cm^2 -> 5
     #         5cm -> 5*c*m
     for unit in UNIT_SHORT_LIST:
-        regex = r" +{unit}(es|s)? *(\^\d|\^{{\d+}}+)?".format(unit=unit)
+        regex = r" +{unit}(es|s)?(?![a-zA-Z]) *(\^\d|\^{{\d+}}+)?".format(unit=unit)
         expr = re.sub(regex, "", expr)
     # We didn't consider single letter unit without \\text{}.
 
-- 
2.43.0


From b777617cfc20601b78095892173debf6f4be1736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 19/54] fix: extract_boxed handles a box at the start of the
 output and stops at its own closing brace

---
 example_tora_eval.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/example_tora_eval.py b/example_tora_eval.py
index 1512ca8..37998f4 100644
--- a/example_tora_eval.py
+++ b/example_tora_eval.py
@@ -1,4 +1,5 @@
 import os
+import re
 import json
 from tqdm import tqdm
 
@@ -29,10 +30,14 @@ for t_d in test_data:
 
 def extract_boxed(output):
     lidx = output.rfind("\\boxed{")
-    if lidx > 0:
+    if lidx >= 0:
         lidx += len("\\boxed{")
-        ridx = output.rfind("}")
-        return output[lidx: ridx]
+        depth = 1
+        # the brace that closes the box, `\{` and `\}` are not braces
+        for m in re.finditer(r"\\.|[{}]", output[lidx:], re.DOTALL):
+            depth += {"{": 1, "}": -1}.get(m.group(), 0)
+            if depth == 0:
+                return output[lidx: lidx + m.start()]
     return None
 
 cnt = 0
-- 
2.43.0


From 6bbb3c67501ff7892894e64ff44712aa0b7f08f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 20/54] fix: AsciiMath powers, reciprocals and factorials group
 their operand

---
 latex2sympy/asciimath_printer.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/latex2sympy/asciimath_printer.py b/latex2sympy/asciimath_printer.py
index dd1b676..729bc14 100644
--- a/latex2sympy/asciimath_printer.py
+++ b/latex2sympy/asciimath_printer.py
@@ -1,5 +1,6 @@
 from sympy.printing.str import StrPrinter
 from sympy.core import S
+from sympy.printing.precedence import PRECEDENCE
 
 class AsciiMathPrinter(StrPrinter):
 
@@ -24,7 +25,7 @@ class AsciiMathPrinter(StrPrinter):
         return "prod_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self._print(e))
 
     def _print_factorial(self, expr):
-        return "%s!" % self._print(expr.args[0])
+        return "%s!" % self.parenthesize(expr.args[0], PRECEDENCE["Pow"])
 
     def _print_Derivative(self, expr):
         e = expr.args[0]
@@ -38,13 +39,14 @@ class AsciiMathPrinter(StrPrinter):
         return "%s = %s" % (self._print(expr.args[0]), self._print(expr.args[1]))
 
     def _print_Pow(self, expr):
-        b = self._print(expr.base)
         if expr.exp is S.Half:
-            return "sqrt(%s)" % b
+            return "sqrt(%s)" % self._print(expr.base)
 
         if -expr.exp is S.Half:
-            return "1/sqrt(%s)" % b
-        if expr.exp is -S.One:
+            return "1/sqrt(%s)" % self._print(expr.base)
+        # a base that is not an atom has to be grouped, e.g., (x + 1)^(2), 1/(x + 1)
+        b = self.parenthesize(expr.base, PRECEDENCE["Pow"])
+        if expr.exp is S.NegativeOne:
             return "1/%s" % b
 
         return "%s^(%s)" % (b, self._print(expr.exp)) 
-- 
2.43.0


From 9ccb0853d5111d51f065b5217e05a1c99d1d142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:53 +0000
Subject: [PATCH 21/54] fix: AsciiMath limits, derivatives, integrals, sums and
 products print, and group their operand

---
 latex2sympy/asciimath_printer.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/latex2sympy/asciimath_printer.py b/latex2sympy/asciimath_printer.py
index 729bc14..12ebd55 100644
--- a/latex2sympy/asciimath_printer.py
+++ b/latex2sympy/asciimath_printer.py
@@ -1,36 +1,42 @@
 from sympy.printing.str import StrPrinter
 from sympy.core import S
-from sympy.printing.precedence import PRECEDENCE
+from sympy.printing.precedence import PRECEDENCE, precedence_traditional
 
 class AsciiMathPrinter(StrPrinter):
 
+    def parenthesize(self, item, level, strict=False):
+        # sums, products, limits, integrals and derivatives extend as far as a product does
+        if precedence_traditional(item) < level or (not strict and precedence_traditional(item) <= level):
+            return "(%s)" % self._print(item)
+        return self._print(item)
+
     def _print_Limit(self, expr):
-        e, z = expr.args
+        e, z, z0 = expr.args[:3]
 
-        return "lim_(%s -> %s) %s" % (self._print(z), self._print(z), self._print(e))
+        return "lim_(%s -> %s) %s" % (self._print(z), self._print(z0), self.parenthesize(e, PRECEDENCE["Add"]))
 
     def _print_Integral(self, expr):
         e, lims = expr.args
         if len(lims) > 1:
             return "int_(%s)^(%s) %s d%s" % (self._print(lims[1]), self._print(lims[2]), self._print(e), self._print(lims[0]))
         else:
-            return "int %s d%s" % (self._print(e), self._print(lims))
+            return "int %s d%s" % (self._print(e), self._print(lims[0]))
     
     def _print_Sum(self, expr):
         e, lims = expr.args
-        return "sum_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self._print(e))
+        return "sum_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self.parenthesize(e, PRECEDENCE["Add"]))
 
     def _print_Product(self, expr):
         e, lims = expr.args
-        return "prod_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self._print(e))
+        return "prod_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self.parenthesize(e, PRECEDENCE["Add"]))
 
     def _print_factorial(self, expr):
         return "%s!" % self.parenthesize(expr.args[0], PRECEDENCE["Pow"])
 
     def _print_Derivative(self, expr):
         e = expr.args[0]
-        wrt = expr.args[1]
-        return "d/d%s %s" % (self._print(wrt), self._print(e))
+        wrt = "".join("d/d%s " % self._print(v) for v in reversed(expr.variables))
+        return wrt + self.parenthesize(e, PRECEDENCE["Add"])
 
     def _print_Abs(self, expr):
         return "|%s|" % self._print(expr.args[0])
-- 
2.43.0


From d5386b94aa701d43e37f34b575b8923a75b044b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:10 +0000
Subject: [PATCH 22/54] fix: AsciiMath groups the factorial inside a factorial

---
 latex2sympy/asciimath_printer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2sympy/asciimath_printer.py b/latex2sympy/asciimath_printer.py
index 12ebd55..e2a202b 100644
--- a/latex2sympy/asciimath_printer.py
+++ b/latex2sympy/asciimath_printer.py
@@ -31,7 +31,7 @@ class AsciiMathPrinter(StrPrinter):
         return "prod_(%s = %s)^(%s) %s" % (self._print(lims[0]), self._print(lims[1]), self._print(lims[2]), self.parenthesize(e, PRECEDENCE["Add"]))
 
     def _print_factorial(self, expr):
-        return "%s!" % self.parenthesize(expr.args[0], PRECEDENCE["Pow"])
+        return "%s!" % self.parenthesize(expr.args[0], PRECEDENCE["Func"])
 
     def _print_Derivative(self, expr):
         e = expr.args[0]
-- 
2.43.0


From 2a3493ac93f45de0672bc2e9f7026de024b4d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 23/54] fix: mixed numbers with a blank after \frac (3\frac 12)
 keep the implicit plus

---
 math_evaluation/core/latex_normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 88283a6..ab1bc2d 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -170,7 +170,7 @@ def _inject_implicit_mixed_number(expr: str):
     """
     regex_cands = [
         r"(-?)(\d+) +(\d+/\d+)",                    
-        r"(-?)(\d+) *(\\frac(\d|{\d+})(\d|{\d+}))",  
+        r"(-?)(\d+) *(\\frac *(\d|{\d+}) *(\d|{\d+}))",  
     ]
     for regex in regex_cands:
         pattern = re.compile(regex)
-- 
2.43.0


From 2f5221e3d94e0dd8f2acc1574f50bb7c48be25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:57 +0000
Subject: [PATCH 24/54] fix: dots of a.m./p.m. are literal when units are
 removed (army, pump are no units)

---
 math_evaluation/core/latex_normalize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index ab1bc2d..3cb4753 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -342,9 +342,9 @@ def _string_normalize(expr: str):
     #         \\text{cm}^10 does not meet latex syntax.
     #         \\text{cm}^{10} is valid.
     for unit in UNIT_LIST:
-        regex = r"(\\)+text{{\s*{unit}(es|s)? *(\^\d|\^{{\d+}})?}} *(\^\d|\^{{\d+}})?".format(unit=unit)
+        regex = r"(\\)+text{{\s*{unit}(es|s)? *(\^\d|\^{{\d+}})?}} *(\^\d|\^{{\d+}})?".format(unit=re.escape(unit))
         expr = re.sub(regex, "", expr)
-        regex = r"(\\)+mbox{{\s*{unit}(es|s)? *(\^\d|\^{{\d+}})?}} *(\^\d|\^{{\d+}})?".format(unit=unit)
+        regex = r"(\\)+mbox{{\s*{unit}(es|s)? *(\^\d|\^{{\d+}})?}} *(\^\d|\^{{\d+}})?".format(unit=re.escape(unit))
         expr = re.sub(regex, "", expr)
 
     # remove all \\text{xxx} no matter what xxx is?
@@ -363,7 +363,7 @@ def _string_normalize(expr: str):
     #   e.g., 5 cm, 5 cm^2 -> 5
     #         5cm -> 5*c*m
     for unit in UNIT_SHORT_LIST:
-        regex = r" +{unit}(es|s)?(?![a-zA-Z]) *(\^\d|\^{{\d+}}+)?".format(unit=unit)
+        regex = r" +{unit}(es|s)?(?![a-zA-Z]) *(\^\d|\^{{\d+}}+)?".format(unit=re.escape(unit))
         expr = re.sub(regex, "", expr)
     # We didn't consider single letter unit without \\text{}.
 
-- 
2.43.0


From 328f31220f28581f4880061b6f7957ddd5d94f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 25/54] fix: dollar signs and eaten backslashes are undone
 before the answer is looked at ($10\%$, $12_{8}$)

---
 math_evaluation/core/latex_normalize.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 3cb4753..1f9b46b 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -252,6 +252,16 @@ def _string_normalize(expr: str):
     if expr is None:
         return None
     
+    expr = expr.replace('\f', '\\f')    # \x0c -> \\a    
+    expr = expr.replace('\b', '\\b')    # \x08 -> \\b
+    expr = expr.replace('\a', '\\a')    # \x07 -> \\a
+    expr = expr.replace('\t', '\\t')
+    expr = expr.replace('\r', '\\r')    # for \right -> \\right
+
+    # Remove $
+    expr = expr.replace("\\$", "$")
+    expr = expr.replace("$", "")
+
     # remove leading and trailing space
     expr = expr.strip(" ")
 
@@ -303,10 +313,6 @@ def _string_normalize(expr: str):
                 further_string_normalize(str(float(expr))),
             }
 
-    # Remove $
-    expr = expr.replace("\\$", "$")
-    expr = expr.replace("$", "")
-
     # Normalize "or" and "and" to " , "
     regex = r",? *((\\text\{ *(and|or) *\})| (and|or) )"
     expr = re.sub(regex, " , ", expr)
@@ -315,12 +321,6 @@ def _string_normalize(expr: str):
     expr = expr.replace("billion", "*10^9")
     expr = expr.replace("trillion", "*10^12")
 
-    expr = expr.replace('\f', '\\f')    # \x0c -> \\a    
-    expr = expr.replace('\b', '\\b')    # \x08 -> \\b
-    expr = expr.replace('\a', '\\a')    # \x07 -> \\a
-    expr = expr.replace('\t', '\\t')
-    expr = expr.replace('\r', '\\r')    # for \right -> \\right
-
     # change \\left( or [ -> (, [, and \\right
     expr = re.sub(r"\\left\(", "(", expr)
     expr = re.sub(r"\\left\[", "[", expr)
-- 
2.43.0


From 1d610cb3e706087048fb0385ae9ecd665ebbeb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 26/54] fix: \left and \right may be separated from their
 bracket by blanks

---
 math_evaluation/core/latex_normalize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 1f9b46b..d2cfe01 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -322,10 +322,10 @@ def _string_normalize(expr: str):
     expr = expr.replace("trillion", "*10^12")
 
     # change \\left( or [ -> (, [, and \\right
-    expr = re.sub(r"\\left\(", "(", expr)
-    expr = re.sub(r"\\left\[", "[", expr)
-    expr = re.sub(r"\\right\)", ")", expr)
-    expr = re.sub(r"\\right\]", "]", expr)
+    expr = re.sub(r"\\left *\(", "(", expr)
+    expr = re.sub(r"\\left *\[", "[", expr)
+    expr = re.sub(r"\\right *\)", ")", expr)
+    expr = re.sub(r"\\right *\]", "]", expr)
 
     # remove x \in
     expr = re.sub(r"[a-zA-Z]+\s*\\in", "", expr)
-- 
2.43.0


From ab457e3bcdac28553fa6a3dd351aab779e95ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 27/54] fix: \{1,2\} is an unordered list like {1,2}

---
 math_evaluation/core/latex_normalize.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index d2cfe01..f133a02 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -326,10 +326,17 @@ def _string_normalize(expr: str):
     expr = re.sub(r"\\left *\[", "[", expr)
     expr = re.sub(r"\\right *\)", ")", expr)
     expr = re.sub(r"\\right *\]", "]", expr)
+    expr = re.sub(r"\\left *\\{", r"\\{", expr)
+    expr = re.sub(r"\\right *\\}", r"\\}", expr)
 
     # remove x \in
     expr = re.sub(r"[a-zA-Z]+\s*\\in", "", expr)
 
+    # \{1, 2\} -> {1, 2}, a set has no order
+    m = re.search(r"^ *\\{(.+)\\} *$", expr, re.DOTALL)
+    if m and "\\{" not in m.group(1) and "\\}" not in m.group(1):
+        expr = "{" + m.group(1) + "}"
+
     # units in \\text{xxx}
     # Special case for time, transform to list, e.g., "08:30 \\text{pm}" -> "[8, 30]"
     expr = _str_to_time_list(expr)
-- 
2.43.0


From f5191e1d0662e0adc3ccfc98341644969c4eb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 28/54] fix: only \in itself is removed, not the start of
 \infty, \int or \inf

---
 math_evaluation/core/latex_normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index f133a02..b2d8d28 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -330,7 +330,7 @@ def _string_normalize(expr: str):
     expr = re.sub(r"\\right *\\}", r"\\}", expr)
 
     # remove x \in
-    expr = re.sub(r"[a-zA-Z]+\s*\\in", "", expr)
+    expr = re.sub(r"[a-zA-Z]+\s*\\in(?![a-zA-Z])", "", expr)
 
     # \{1, 2\} -> {1, 2}, a set has no order
     m = re.search(r"^ *\\{(.+)\\} *$", expr, re.DOTALL)
-- 
2.43.0


From da6f8a1f3c629712e8680fecbbc9d38d915eb6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:50 +0000
Subject: [PATCH 29/54] fix: the column specification of an array is not part
 of its first entry

---
 math_evaluation/core/latex_normalize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index b2d8d28..f9d2885 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -117,6 +117,8 @@ def _str_matrix_normalize(expr: str):
     if "{cases}" in expr:
         expr = expr.replace("{cases}", "{matrix}")
     if "{array}" in expr:
+        # the column specification is not an entry, e.g., \\begin{array}{cc} 1 & 2 \\end{array}
+        expr = re.sub(r"\{array\}\s*\{[lcr|\s]*\}", "{array}", expr)
         expr = expr.replace("{array}", "{matrix}")
     if not (not "\\\\begin" in expr and "\\begin" in expr and "matrix" in expr):
         expr = expr.replace("\\\\", "\\")
-- 
2.43.0


From 653bed1a66b1ec150b851537632d60c82475d689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 30/54] fix: a row vector written [[1, 2]] is the flat list [1,
 2]

---
 math_evaluation/core/evaluations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index b2bdfae..1283dfc 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -116,6 +116,12 @@ def is_equiv_possible_tuple(
         else:
             return is_equiv(ground_truth_elems, given_elems, verbose), splitted
 
+    # brackets around a single element, e.g., [[1, 2]] and [1, 2]
+    if isinstance(ground_truth_elems, str) and ground_truth_elems != ground_truth_normalized:
+        return is_equiv(ground_truth_elems, given_normalized, verbose), splitted
+    if isinstance(given_elems, str) and given_elems != given_normalized:
+        return is_equiv(ground_truth_normalized, given_elems, verbose), splitted
+
     is_correct = False
     if len(ground_truth_elems) != len(given_elems):
         is_correct = False
-- 
2.43.0


From 8fe89d8086b8d9468c7c62422e8051889dae0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 31/54] fix: the last row of a matrix may be terminated by a
 row separator

---
 math_evaluation/core/latex_normalize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index f9d2885..035879f 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -550,6 +550,9 @@ def split_matrix(expr: str):
     elements = []
     if match:
         rows = match.group(1).split("\\\\")
+        if len(rows) > 1 and not rows[-1].strip():
+            # the last row may be terminated too, e.g., 1 & 2 \\\\ 3 & 4 \\\\
+            rows.pop()
         for row in rows:
             col = row.split("&")
             if len(col) == 1:
-- 
2.43.0


From b3e1cd670d85fa1eccf533c813a6b20887c389de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 32/54] fix: a reply that names no type is retried

---
 math_evaluation/llms/llm_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math_evaluation/llms/llm_models.py b/math_evaluation/llms/llm_models.py
index 476f6c6..55fa29c 100644
--- a/math_evaluation/llms/llm_models.py
+++ b/math_evaluation/llms/llm_models.py
@@ -72,7 +72,7 @@ def get_llm_type(
     while retry < max_try:
         try:
             resp_text = call_llm(messages)
-            answer_type = re.search(r"Type:[\s]*(.*)", resp_text).group(1)
+            answer_type = re.search(r"Type:[\s]*(\S.*)", resp_text).group(1)
             break
         except:
             retry += 1
-- 
2.43.0


From 57f8c0a2d09775af3ecbeae16dc790586ee55166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 33/54] fix: as Vector or Set, only brackets that match each
 other are outer brackets, and (1,2) is 1,2

---
 math_evaluation/core/type_evaluations.py | 31 +++++++++++++-----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/math_evaluation/core/type_evaluations.py b/math_evaluation/core/type_evaluations.py
index 2c20414..1a70171 100644
--- a/math_evaluation/core/type_evaluations.py
+++ b/math_evaluation/core/type_evaluations.py
@@ -93,6 +93,19 @@ def is_equiv_function(
     return is_equiv(grt_func, pre_func)
 
 
+def strip_outer_brackets(expr: str) -> str:
+    """ e.g., (1,2) -> 1,2 while (1,2),(3,4) and (1,2] are kept """
+    if expr[:1] + expr[-1:] not in ("()", "[]", "{}"):
+        return expr
+    cnt = 0
+    for i, ch in enumerate(expr):
+        cnt += ch in "([{"
+        cnt -= ch in ")]}"
+        if cnt == 0 and i < len(expr) - 1:
+            return expr
+    return expr[1:-1]
+
+
 def is_equiv_vector(
     ground_truth: str,
     prediction: str,
@@ -102,13 +115,8 @@ def is_equiv_vector(
     pre_normalized = string_normalize(prediction)
 
     def preprocess(normalized: str) -> str:
-        if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")):
-            return normalized
-        elif normalized.startswith("{") and normalized.endswith("}"):
-            normalized = "[" + normalized[1:-1] + "]"
-        else:
-            normalized = "[" + normalized + "]"
-        return normalized
+        # e.g., 1,2 and (1,2) and {1,2} -> [1,2]
+        return "[" + strip_outer_brackets(normalized) + "]"
 
     grt_normalized = preprocess(grt_normalized)
     pre_normalized = preprocess(pre_normalized)
@@ -126,13 +134,8 @@ def is_equiv_set(
     grt_normalized = string_normalize(ground_truth)
     pre_normalized = string_normalize(prediction)
 
-    def preprocess(normalized: str) -> str:
-        if (normalized.startswith("(") and normalized.endswith(")")) or (normalized.startswith("[") and normalized.endswith("]")):
-            normalized = normalized[1:-1]
-        return normalized
-
-    grt_normalized = preprocess(grt_normalized)
-    pre_normalized = preprocess(pre_normalized)
+    grt_normalized = strip_outer_brackets(grt_normalized)
+    pre_normalized = strip_outer_brackets(pre_normalized)
     try:
         return is_equiv_possible_tuple(grt_normalized, pre_normalized, verbose)[0]
     except:
-- 
2.43.0


From a97b670a8c3d7e51a5de157f98b13ed6efbaffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 34/54] fix: arguments of a function are separated at their own
 commas only, and keep their spaces

---
 latex2sympy/latex2sympy2.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 6f60b81..548f2b3 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -742,6 +742,22 @@ def rule2text(ctx):
     return stream.getText(startIdx, stopIdx)
 
 
+def split_args(text):
+    # split at the commas that are not inside brackets
+    args = ['']
+    depth = 0
+    for ch in text:
+        if ch in '([{':
+            depth += 1
+        elif ch in ')]}':
+            depth -= 1
+        if ch == ',' and depth == 0:
+            args.append('')
+        else:
+            args[-1] += ch
+    return args
+
+
 def convert_frac(frac):
     global diff_op, partial_op
     diff_op, partial_op = False, False
@@ -899,9 +915,9 @@ def convert_func(func):
 
     elif func.func_normal_multi_arg():
         if func.L_PAREN():  # function called with parenthesis
-            args = func.func_multi_arg().getText().split(",")
+            args = split_args(rule2text(func.func_multi_arg()))
         else:
-            args = func.func_multi_arg_noparens().split(",")
+            args = split_args(rule2text(func.func_multi_arg_noparens()))
 
         args = list(map(lambda arg: latex2sympy(arg, VARIABLE_VALUES), args))
         name = func.func_normal_multi_arg().start.text[1:]
@@ -948,8 +964,8 @@ def convert_func(func):
         # define a function
         f = sympy.Function(func.atom_expr_no_supexpr().getText())
         # args
-        args = func.func_common_args().getText().split(",")
-        if args[-1] == '':
+        args = split_args(rule2text(func.func_common_args()))
+        if args[-1].strip() == '':
             args = args[:-1]
         args = [latex2sympy(arg, VARIABLE_VALUES) for arg in args]
         # supexpr
-- 
2.43.0


From 519b02de0fa99676d79b46c4b1be5101701e0e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 35/54] fix: a matrix minus (or the negative of) a matrix
 product

---
 latex2sympy/latex2sympy2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 548f2b3..f9183f1 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -380,7 +380,7 @@ def convert_add(add):
         rh = convert_add(add.additive(1))
 
         if lh.is_Matrix or rh.is_Matrix:
-            return mat_add_flat(lh, mat_mul_flat(-1, rh))
+            return mat_add_flat(lh, mat_mul_flat(sympy.S.NegativeOne, rh))
         else:
             # If we want to force ordering for variables this should be:
             # return Sub(lh, rh, evaluate=False)
@@ -447,7 +447,7 @@ def convert_unary(unary):
     elif unary.SUB():
         tmp_convert_nested_unary = convert_unary(nested_unary)
         if tmp_convert_nested_unary.is_Matrix:
-            return mat_mul_flat(-1, tmp_convert_nested_unary)
+            return mat_mul_flat(sympy.S.NegativeOne, tmp_convert_nested_unary)
         else:
             if tmp_convert_nested_unary.func.is_Number:
                 return -tmp_convert_nested_unary
-- 
2.43.0


From 5f69085214db7cf833d1242690e87d2a67e8902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:33 +0000
Subject: [PATCH 36/54] fix: row and column numbers of matrix operations are
 read

---
 latex2sympy/latex2sympy2.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index f9183f1..f9c3ff8 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -207,7 +207,7 @@ def convert_elementary_transform(matrix, transform):
         transform_scale = transform.transform_scale()
         transform_atom = transform_scale.transform_atom()
         k = None
-        num = int(transform_atom.NUMBER().getText()) - 1
+        num = int(transform_atom.number().getText()) - 1
         if transform_scale.expr():
             k = convert_expr(transform_scale.expr())
         elif transform_scale.group():
@@ -226,8 +226,8 @@ def convert_elementary_transform(matrix, transform):
     elif transform.transform_swap():
         first_atom = transform.transform_swap().transform_atom()[0]
         second_atom = transform.transform_swap().transform_atom()[1]
-        first_num = int(first_atom.NUMBER().getText()) - 1
-        second_num = int(second_atom.NUMBER().getText()) - 1
+        first_num = int(first_atom.number().getText()) - 1
+        second_num = int(second_atom.number().getText()) - 1
         if first_atom.LETTER_NO_E().getText() != second_atom.LETTER_NO_E().getText():
             raise Exception('Row and col don\'s match')
         elif first_atom.LETTER_NO_E().getText() == 'r':
@@ -250,8 +250,8 @@ def convert_elementary_transform(matrix, transform):
             k = -1
         else:
             k = 1
-        first_num = int(first_atom.NUMBER().getText()) - 1
-        second_num = int(second_atom.NUMBER().getText()) - 1
+        first_num = int(first_atom.number().getText()) - 1
+        second_num = int(second_atom.number().getText()) - 1
         if first_atom.LETTER_NO_E().getText() != second_atom.LETTER_NO_E().getText():
             raise Exception('Row and col don\'s match')
         elif first_atom.LETTER_NO_E().getText() == 'r':
-- 
2.43.0


From eb4d0bcbf7777c6616a513c92f62ae58be084d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 37/54] fix: a power of a matrix is a matrix power

---
 latex2sympy/latex2sympy2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index f9c3ff8..d7ae7ba 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -553,6 +553,8 @@ def convert_exp(exp):
             exponent = convert_atom(exp.atom())
         elif exp.expr():
             exponent = convert_expr(exp.expr())
+        if base.is_Matrix:
+            return sympy.MatPow(base, exponent)
         return sympy.Pow(base, exponent, evaluate=False)
     else:
         if hasattr(exp, 'comp'):
-- 
2.43.0


From 6e89b60127bb6b00fa8e64926999cc34898ec945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 38/54] fix: powers and subscripts of the letter I are not
 dropped

---
 latex2sympy/latex2sympy2.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index d7ae7ba..896b8f3 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -597,8 +597,6 @@ def convert_atom(atom):
         atom_text = ''
         if atom_expr.LETTER_NO_E():
             atom_text = atom_expr.LETTER_NO_E().getText()
-            if atom_text == "I":
-                return sympy.I
         elif atom_expr.GREEK_CMD():
             atom_text = atom_expr.GREEK_CMD().getText()[1:].strip()
         elif atom_expr.OTHER_SYMBOL_CMD():
@@ -639,7 +637,10 @@ def convert_atom(atom):
                 subscript_text = '_' + subscript_inner_text
 
         # construct the symbol using the text and optional subscript
-        atom_symbol = sympy.Symbol(atom_text + subscript_text, real=is_real)
+        if atom_text + subscript_text == "I":
+            atom_symbol = sympy.I
+        else:
+            atom_symbol = sympy.Symbol(atom_text + subscript_text, real=is_real)
         # for matrix symbol
         matrix_symbol = None
         global var
-- 
2.43.0


From fd645654dcb1062aa5267be4e4e5797e61c33482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 39/54] fix: derivatives with respect to a Greek letter

---
 latex2sympy/latex2sympy2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 896b8f3..4620712 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -774,11 +774,11 @@ def convert_frac(frac):
         elif (lower_itv_len == 2 and
               frac.lower.start.type == PSLexer.SYMBOL and
               frac.lower.start.text == '\\partial' and
-              (frac.lower.stop.type == PSLexer.LETTER_NO_E or frac.lower.stop.type == PSLexer.SYMBOL)):
+              frac.lower.stop.type in (PSLexer.LETTER_NO_E, PSLexer.SYMBOL, PSLexer.GREEK_CMD)):
             partial_op = True
             wrt = frac.lower.stop.text
-            if frac.lower.stop.type == PSLexer.SYMBOL:
-                wrt = wrt[1:]
+            if frac.lower.stop.type != PSLexer.LETTER_NO_E:
+                wrt = wrt[1:].strip()
 
         if diff_op or partial_op:
             wrt = sympy.Symbol(wrt, real=is_real)
-- 
2.43.0


From 57c21e72ef08358332ce28a3d2a9788319ec60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 40/54] fix: gcd and lcm of a nested gcd or lcm

---
 latex2sympy/latex2sympy2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 4620712..64f47ce 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -1103,7 +1103,8 @@ def handle_gcd_lcm(f, args):
     args: List[Expr] - list of function arguments
     """
 
-    args = tuple(map(sympy.nsimplify, args))
+    # the value of a nested gcd() or lcm()
+    args = tuple(sympy.nsimplify(arg.doit()) for arg in args)
 
     # gcd() and lcm() don't support evaluate=False
     return sympy.UnevaluatedExpr(getattr(sympy, f)(args))
-- 
2.43.0


From 6f43d12a7f5bc2a6d8d53ee159ddd40e6b513ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 41/54] fix: the power in \log_b^n x belongs to the logarithm

---
 latex2sympy/latex2sympy2.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 64f47ce..329801f 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -878,9 +878,14 @@ def convert_func(func):
             elif operatorname in ['svd', 'SVD']:
                 expr = arg.singular_value_decomposition()
         elif name in ["log", "ln"]:
+            log_pow = None
             if func.subexpr():
                 if func.subexpr().atom():
-                    base = convert_atom(func.subexpr().atom())
+                    base_atom = func.subexpr().atom()
+                    base = convert_atom(base_atom)
+                    # in \log_b^n x, the power is the logarithm's and not the base's
+                    if base_atom.atom_expr() and base_atom.atom_expr().supexpr():
+                        base, log_pow = base.args
                 else:
                     base = convert_expr(func.subexpr().expr())
             elif name == "log":
@@ -888,6 +893,8 @@ def convert_func(func):
             elif name == "ln":
                 base = sympy.E
             expr = sympy.log(arg, base, evaluate=False)
+            if log_pow is not None:
+                expr = sympy.Pow(expr, log_pow, evaluate=False)
         elif name in ["exp", "exponentialE"]:
             expr = sympy.exp(arg)
         elif name == "floor":
-- 
2.43.0


From 734640b58eaca976d75180b169acd857e175cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:06 +0000
Subject: [PATCH 42/54] fix: the exponential of a logarithm keeps its base

---
 latex2sympy/latex2sympy2.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 329801f..1ca6919 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -896,7 +896,7 @@ def convert_func(func):
             if log_pow is not None:
                 expr = sympy.Pow(expr, log_pow, evaluate=False)
         elif name in ["exp", "exponentialE"]:
-            expr = sympy.exp(arg)
+            expr = exponential(arg)
         elif name == "floor":
             expr = handle_floor(arg)
         elif name == "ceil":
@@ -1098,8 +1098,13 @@ def handle_exp(func):
         else:  # ^atom
             exp_arg = convert_atom(func.supexpr().atom())
     else:
-        exp_arg = 1
-    return sympy.exp(exp_arg)
+        exp_arg = sympy.S.One
+    return exponential(exp_arg)
+
+
+def exponential(arg):
+    # sympy simplifies exp(log(x, base)) to x, whatever the base
+    return sympy.exp(arg, evaluate=all(log.args[1:] in [(), (sympy.E,)] for log in arg.atoms(sympy.log)))
 
 
 def handle_gcd_lcm(f, args):
-- 
2.43.0


From 67bfad25e9d9be61698b9d4b8d8d83a36f0bc56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 43/54] fix: AsciiMath groups the factors of a negative product

---
 latex2sympy/asciimath_printer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/latex2sympy/asciimath_printer.py b/latex2sympy/asciimath_printer.py
index e2a202b..726a142 100644
--- a/latex2sympy/asciimath_printer.py
+++ b/latex2sympy/asciimath_printer.py
@@ -1,5 +1,6 @@
 from sympy.printing.str import StrPrinter
 from sympy.core import S
+from sympy.core.mul import _keep_coeff
 from sympy.printing.precedence import PRECEDENCE, precedence_traditional
 
 class AsciiMathPrinter(StrPrinter):
@@ -44,6 +45,13 @@ class AsciiMathPrinter(StrPrinter):
     def _print_Equality(self, expr):
         return "%s = %s" % (self._print(expr.args[0]), self._print(expr.args[1]))
 
+    def _print_Mul(self, expr):
+        # the factors of a negative product are grouped like the ones of any product
+        c, e = expr.as_coeff_Mul()
+        if c < 0:
+            return "-%s" % self.parenthesize(_keep_coeff(-c, e), PRECEDENCE["Add"])
+        return super()._print_Mul(expr)
+
     def _print_Pow(self, expr):
         if expr.exp is S.Half:
             return "sqrt(%s)" % self._print(expr.base)
-- 
2.43.0


From 87823b549cdc7146d179a8120a5c5e3cd594e7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 44/54] fix: rendered function arguments end at their bracket

---
 latex2sympy/latex2sympy2.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 1ca6919..ea9584f 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -58,6 +58,8 @@ def latex2sympy(sympy: str, variable_values={}):
     sympy = sympy.replace(r'\mathrm{T}', 'T', -1)
     # Translate Derivative
     sympy = sympy.replace(r'\mathrm{d}', 'd', -1).replace(r'{\rm d}', 'd', -1)
+    # Translate Inverse Functions
+    sympy = re.sub(r'\\operatorname{(arc(?:sin|cos|tan|csc|sec|cot))}', r'\\\1 ', sympy)
     # Translate Matrix
     sympy = sympy.replace(r'\left[\begin{matrix}', r'\begin{bmatrix}', -1).replace(r'\end{matrix}\right]', r'\end{bmatrix}', -1)
     # Translate Permutation
@@ -1159,7 +1161,7 @@ def get_differential_var_str(text):
 
 def latex(tex):
     global frac_type
-    result = sympy.latex(tex)
+    result = unbrace_arguments(sympy.latex(tex, inv_trig_style='full'))
     result = result.replace(r'\frac', frac_type, -1).replace(r'\dfrac', frac_type, -1).replace(r'\tfrac', frac_type, -1)
     result = result.replace(r'\left[\begin{matrix}', r'\begin{bmatrix}', -1).replace(r'\end{matrix}\right]', r'\end{bmatrix}', -1)
     result = result.replace(r'\left', r'', -1).replace(r'\right', r'', -1)
@@ -1168,6 +1170,22 @@ def latex(tex):
     return result
 
 
+def unbrace_arguments(tex):
+    # \ln{\left(x \right)}^{2} -> \ln\left(x \right)^{2}: in braces, the argument would go on behind its bracket
+    function = r'\\(?:(?:arc)?(?:sin|cos|tan|csc|sec|cot)h?|ln|log|operatorname\{\w+\})(?:\^\{(?:[^{}]|\{[^{}]*\})*\})?$'
+    result, opened = [], []
+    for token in re.split(r'(\{\\left\(|\\left|\\right\)\}|\\right)', tex):
+        if token.endswith((r'\left(', r'\left')):
+            opened.append(len(result) if token.startswith('{') and re.search(function, ''.join(result)) else None)
+        elif token.startswith(r'\right') and opened:
+            start = opened.pop()
+            if token.endswith('}') and start is not None:
+                result[start] = r'\left('
+                token = r'\right)'
+        result.append(token)
+    return ''.join(result)
+
+
 def latex2latex(tex):
     result = latex2sympy(tex)
     # if result is a list or tuple or dict
-- 
2.43.0


From 7dd7dd7952071f843418b2df1781a6d6bfe4f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 45/54] fix: factorials and their powers are rendered so that
 they read back

---
 latex2sympy/latex2sympy2.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index ea9584f..69286a5 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -14,6 +14,7 @@ except Exception:
     from .gen.PSListener import PSListener
 
 from sympy.printing.str import StrPrinter
+from sympy.printing.latex import LatexPrinter
 
 from sympy.parsing.sympy_parser import parse_expr
 
@@ -1159,9 +1160,16 @@ def get_differential_var_str(text):
     return text
 
 
+class _LatexPrinter(LatexPrinter):
+    def _print_factorial(self, expr, exp=None):
+        # the parser reads no power behind a factorial
+        result = super()._print_factorial(expr)
+        return result if exp is None else r'\left(%s\right)^{%s}' % (result, exp)
+
+
 def latex(tex):
     global frac_type
-    result = unbrace_arguments(sympy.latex(tex, inv_trig_style='full'))
+    result = unbrace_arguments(_LatexPrinter({'inv_trig_style': 'full'}).doprint(tex))
     result = result.replace(r'\frac', frac_type, -1).replace(r'\dfrac', frac_type, -1).replace(r'\tfrac', frac_type, -1)
     result = result.replace(r'\left[\begin{matrix}', r'\begin{bmatrix}', -1).replace(r'\end{matrix}\right]', r'\end{bmatrix}', -1)
     result = result.replace(r'\left', r'', -1).replace(r'\right', r'', -1)
@@ -1192,7 +1200,9 @@ def latex2latex(tex):
     if isinstance(result, list) or isinstance(result, tuple) or isinstance(result, dict):
         return latex(result)
     else:
-        return latex(simplify(result.subs(variances).doit().doit()))
+        result = simplify(result.subs(variances).doit().doit())
+        # simplify() writes factorials as gamma functions
+        return latex(result.rewrite(sympy.gamma, sympy.factorial))
 
 
 # Set image value
-- 
2.43.0


From 8fce8974f00fb9ff7749a01e4811417e46b67594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 46/54] fix: the rendered modulus reads back

---
 latex2sympy/latex2sympy2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 69286a5..98719aa 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -59,6 +59,8 @@ def latex2sympy(sympy: str, variable_values={}):
     sympy = sympy.replace(r'\mathrm{T}', 'T', -1)
     # Translate Derivative
     sympy = sympy.replace(r'\mathrm{d}', 'd', -1).replace(r'{\rm d}', 'd', -1)
+    # Translate Modulus
+    sympy = sympy.replace(r'\bmod', r'\mod', -1)
     # Translate Inverse Functions
     sympy = re.sub(r'\\operatorname{(arc(?:sin|cos|tan|csc|sec|cot))}', r'\\\1 ', sympy)
     # Translate Matrix
-- 
2.43.0


From 6ec6e225a662a1b99ae9f20b8f8a92a18f134352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:08 +0000
Subject: [PATCH 47/54] fix: text behind a formula is not dropped silently

---
 latex2sympy/latex2sympy2.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 98719aa..ef22dd8 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -101,6 +101,14 @@ def latex2sympy(sympy: str, variable_values={}):
     return_data = None
     math = parser.math()
 
+    # text behind the formula is not part of what was read (closing brackets without a partner are ignored)
+    rest = tokens.LT(1)
+    while rest.text in (')', ']', '}'):
+        tokens.consume()
+        rest = tokens.LT(1)
+    if rest.type != rest.EOF:
+        matherror.syntaxError(parser, rest, rest.line, rest.column, 'extraneous input', None)
+
     # if a list
     if math.relation_list():
         return_data = []
-- 
2.43.0


From b7f7b7dd615228f1dd9e8cc484e75dd9f00e4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:10 +0000
Subject: [PATCH 48/54] fix: the variable d before an operator, a fraction, a
 root or a bracket is not a differential

---
 latex2sympy/latex2sympy2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index ef22dd8..bf650e6 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -73,6 +73,9 @@ def latex2sympy(sympy: str, variable_values={}):
     sympy = sympy.replace(r'\quad', ' ', -1).replace(r'\qquad', ' ', -1).replace(r'~', ' ', -1).replace(r'\,', ' ', -1)
     # Remove $
     sympy = sympy.replace(r'$', ' ', -1)
+    # The variable d before an operator, a fraction, a root or a bracket is no differential of a symbol of that name, e.g., d\cdot 3, d\le 3 or d\sqrt{2}
+    sympy = re.sub(r'(?<!\\mo)d(?=\s*\\(?:cdot|times|div|mod|choose|le(?!ft)|ge|ne|lt|gt|mright|right|r(?:group|vert|brack|brace|floor|ceil)|end))', '{d}', sympy)
+    sympy = re.sub(r'(?<!\\mo)(?<!\\frac{)d(?=\s*\\(?:frac|sqrt|left|mleft|l(?:group|vert|brack|brace|floor|ceil)))', '{d}', sympy)
 
     # variable values
     global VARIABLE_VALUES
-- 
2.43.0


From 9f057a837779cb9a2e115c38f86660c6c8bd4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:23 +0000
Subject: [PATCH 49/54] fix: a command whose name ends in d, e.g. \gcd, keeps
 its name before a bracket or fraction

---
 latex2sympy/latex2sympy2.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index bf650e6..8f7cdf3 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -74,8 +74,9 @@ def latex2sympy(sympy: str, variable_values={}):
     # Remove $
     sympy = sympy.replace(r'$', ' ', -1)
     # The variable d before an operator, a fraction, a root or a bracket is no differential of a symbol of that name, e.g., d\cdot 3, d\le 3 or d\sqrt{2}
-    sympy = re.sub(r'(?<!\\mo)d(?=\s*\\(?:cdot|times|div|mod|choose|le(?!ft)|ge|ne|lt|gt|mright|right|r(?:group|vert|brack|brace|floor|ceil)|end))', '{d}', sympy)
-    sympy = re.sub(r'(?<!\\mo)(?<!\\frac{)d(?=\s*\\(?:frac|sqrt|left|mleft|l(?:group|vert|brack|brace|floor|ceil)))', '{d}', sympy)
+    # (commands are skipped: the d of \gcd\left( or \mod\frac is part of the name)
+    sympy = re.sub(r'(\\[a-zA-Z]+)|d(?=\s*\\(?:cdot|times|div|mod|choose|le(?!ft)|ge|ne|lt|gt|mright|right|r(?:group|vert|brack|brace|floor|ceil)|end))', lambda m: m.group(1) or '{d}', sympy)
+    sympy = re.sub(r'(\\[a-zA-Z]+)|(?<!\\frac{)d(?=\s*\\(?:frac|sqrt|left|mleft|l(?:group|vert|brack|brace|floor|ceil)))', lambda m: m.group(1) or '{d}', sympy)
 
     # variable values
     global VARIABLE_VALUES
-- 
2.43.0


From f4376f243ee9b8d6971e6b9aa9371aa9ae8304b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:18 +0000
Subject: [PATCH 50/54] fix: a set-builder prefix ends at its first bar and its
 braces match

\{x | |x-1| < 2\} lost everything up to the last bar, \{x|x>3\} \cup \{x|x<1\} everything but its last condition, and \{|x|, 2\} its first element.
---
 math_evaluation/core/latex_normalize.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 035879f..116da56 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -277,10 +277,15 @@ def _string_normalize(expr: str):
         return string_normalize(expr)
 
     # Extract yyy from {xxx | yyy }
-    m = re.search(r"^\\{(.*)\|(.*)\\}$", expr, re.DOTALL)
+    # The first bar separates, later ones belong to the condition, e.g., \\{x | |x| < 2\\}.
+    # Braces are matched: \\{x | x > 3\\} \\cup \\{x | x < 1\\} is not one set. \\{|x|, 2\\} has no prefix.
+    regex = r"^(?:\\left *)?\\{{{prefix}\|(?P<condition>{inner}+?)(?:\\right *)?\\}}$".format(
+        prefix=r"(?:(?!\\[{}])[^|]|\\{(?:(?!\\[{}])[^|])*\\})*?(?:[a-zA-Z)}\]]|_\d|\\{(?:(?!\\[{}])[^|])*\\})(?:\\[,;:!]|\s)*",
+        inner=r"(?:(?!\\[{}]).|\\{(?:(?!\\[{}]).)*\\})",
+    )
+    m = re.search(regex, expr, re.DOTALL)
     if m:
-        expr = m.group(2) if m.group(2) else m.group(3)
-        return string_normalize(expr)
+        return string_normalize(m.group("condition"))
 
     # Remove all kinds of space
     expr = re.sub(r"\\:", "", expr)
-- 
2.43.0


From 169d9dc31851d19c054cdc3cef649256d666ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 51/54] fix: a transposition written with blanks, e.g. ^ {T},
 is not a power

---
 latex2sympy/latex2sympy2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 8f7cdf3..1c9b512 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -57,6 +57,8 @@ def latex2sympy(sympy: str, variable_values={}):
     sympy = sympy.replace(r'\tfrac', r'\frac')
     # Translate Transpose
     sympy = sympy.replace(r'\mathrm{T}', 'T', -1)
+    # the lexer takes ^{T} as one word, write ^ { T } so
+    sympy = re.sub(r"\^\s*(\{)?\s*(T|\\top)(?(1)\s*\}|(?![a-zA-Z]))", r"^{\2}", sympy)
     # Translate Derivative
     sympy = sympy.replace(r'\mathrm{d}', 'd', -1).replace(r'{\rm d}', 'd', -1)
     # Translate Modulus
-- 
2.43.0


From 8f77773a51c08fb9879eca9b0164b63bdf2fb018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 52/54] fix: blanks behind Greek letters and braces around one
 index are not part of a name

x_{\alpha + 1} and x_{\alpha+1}, \bar{\alpha } and \bar{\alpha}, f_{1}(x) and f_1(x) were different.
---
 latex2sympy/latex2sympy2.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/latex2sympy/latex2sympy2.py b/latex2sympy/latex2sympy2.py
index 1c9b512..9bd54fa 100644
--- a/latex2sympy/latex2sympy2.py
+++ b/latex2sympy/latex2sympy2.py
@@ -608,6 +608,12 @@ def convert_comp(comp):
         return convert_func(comp.func())
 
 
+def get_name(ctx):
+    # a Greek command includes the blank behind it, which only matters before a letter:
+    # x_{\alpha + 1} is x_{\alpha+1}, \bar{\alpha } is \bar{\alpha}
+    return re.sub(r"\s+(?![a-zA-Z])", "", ctx.getText())
+
+
 def convert_atom(atom):
     if atom.atom_expr():
         atom_expr = atom.atom_expr()
@@ -625,7 +631,7 @@ def convert_atom(atom):
             # get name for accent
             name = atom_accent.start.text
             # get the base (variable)
-            base = atom_accent.base.getText()
+            base = get_name(atom_accent.base)
             _name = name[1:]
             # exception: check if bar or overline which are treated both as bar
             if _name in ["bar", "overline"]:
@@ -644,11 +650,11 @@ def convert_atom(atom):
             subexpr = atom_expr.subexpr()
             subscript = None
             if subexpr.expr():  # subscript is expr
-                subscript = subexpr.expr().getText().strip()
+                subscript = get_name(subexpr.expr())
             elif subexpr.atom():  # subscript is atom
-                subscript = subexpr.atom().getText().strip()
+                subscript = get_name(subexpr.atom())
             elif subexpr.args():  # subscript is args
-                subscript = subexpr.args().getText().strip()
+                subscript = get_name(subexpr.args())
             subscript_inner_text = StrPrinter().doprint(subscript)
             if len(subscript_inner_text) > 1:
                 subscript_text = '_{' + subscript_inner_text + '}'
@@ -991,7 +997,9 @@ def convert_func(func):
         return expr
     elif func.atom_expr_no_supexpr():
         # define a function
-        f = sympy.Function(func.atom_expr_no_supexpr().getText())
+        # f_{1}(x) is f_1(x)
+        name = re.sub(r"_\{(\w|\\[a-zA-Z]+)\}$", r"_\1", get_name(func.atom_expr_no_supexpr()))
+        f = sympy.Function(name)
         # args
         args = split_args(rule2text(func.func_common_args()))
         if args[-1].strip() == '':
-- 
2.43.0


From f6ada4839e9063855ae2006ea21b9b624a553138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:38 +0000
Subject: [PATCH 53/54] fix: an enumeration is no interval: [1,2] was accepted
 for 1,2 but not the other way round

---
 math_evaluation/core/latex_normalize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 116da56..013088d 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -134,10 +134,13 @@ def _str_to_interval(x: str):
             for and_interval in or_interval.split('∩') if '∩' in or_interval else or_interval.split('\\cap'):
                 and_interval = and_interval.strip()
                 int_start, int_end = and_interval.split(',')
+                # an enumeration is no interval, e.g., 1, 2
+                if int_start[0] not in '([' or int_end[-1] not in ')]':
+                    raise Exception('Illegal Interval brackets')
                 # only the outermost brackets are the interval's, e.g., [-(1/2), 3]
                 left_open, right_open = int_start.startswith('('), int_end.endswith(')')
-                int_start = latex2sympy(int_start[1:] if int_start[0] in '([' else int_start)
-                int_end = latex2sympy(int_end[:-1] if int_end[-1] in ')]' else int_end)
+                int_start = latex2sympy(int_start[1:])
+                int_end = latex2sympy(int_end[:-1])
                 # check validation
                 if int_start.is_number:
                     int_start = int_start.evalf()
-- 
2.43.0


From f2f2fd081e7d21867eda589f3037cfdf37994697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:38 +0000
Subject: [PATCH 54/54] fix: answers in words: \text{red},\text{blue} was
 \text{red},\text{green}, (\text{red},1) was (\text{blue},1), \text{on} was
 \text{no}

---
 math_evaluation/core/evaluations.py     |  7 +++++++
 math_evaluation/core/latex_normalize.py | 27 +++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/math_evaluation/core/evaluations.py b/math_evaluation/core/evaluations.py
index 1283dfc..0754520 100644
--- a/math_evaluation/core/evaluations.py
+++ b/math_evaluation/core/evaluations.py
@@ -2,6 +2,7 @@ from typing import Optional, Tuple
 
 from .latex_normalize import (
     string_normalize,
+    _is_text,
     split_tuple,
     split_matrix,
     _is_frac, 
@@ -36,6 +37,12 @@ def is_equiv(ground_truth: str, given: str, verbose: bool = False):
     if str_pass:
         return True
 
+    # words are no products of letters, e.g., \\text{on} and \\text{no}
+    if (_is_text(ground_truth) or _is_text(given)) and all(
+        isinstance(x, str) and x.isalpha() for x in (ground_truth_normalized, given_normalized)
+    ):
+        return False
+
     try:
         # e.g., gt = 30^\\circ -> {30, pi/6}, gv = pi/6
         if isinstance(ground_truth_normalized, set) or isinstance(given_normalized, set):
diff --git a/math_evaluation/core/latex_normalize.py b/math_evaluation/core/latex_normalize.py
index 013088d..8c60331 100644
--- a/math_evaluation/core/latex_normalize.py
+++ b/math_evaluation/core/latex_normalize.py
@@ -125,6 +125,21 @@ def _str_matrix_normalize(expr: str):
     return expr
 
 
+def _is_balanced(expr: str):
+    """every brace closes one opened in the text, unlike in \\text{a}, \\text{b} without the first and the last"""
+    depth = 0
+    for c in expr.replace("\\{", "").replace("\\}", ""):
+        depth += (c == "{") - (c == "}")
+        if depth < 0:
+            return False
+    return True
+
+
+def _is_text(expr: str):
+    """words in text mode, e.g., \\text{no solution}"""
+    return re.search(r"^[\s$]*\\(?:text|mbox)\s*\{\s*\{?[a-zA-Z ]+\}?\s*\}[\s$]*$", expr) is not None
+
+
 def _str_to_interval(x: str):
     try:
         x = x.split('⋃') if '⋃' in x else x.split('\\cup')
@@ -274,8 +289,8 @@ def _string_normalize(expr: str):
     expr = _str_matrix_normalize(expr)
 
     # Remove enclosing `\\text{}` or `\\mbox{}`.
-    m = re.search(r"^\\\s*(text|mbox){\s*(?P<text>.+?)}$", expr, re.DOTALL)
-    if m:
+    m = re.search(r"^\\\s*(text|mbox)\s*{\s*(?P<text>.+?)}$", expr, re.DOTALL)
+    if m and _is_balanced(m.group("text")):
         expr = m.group("text")
         return string_normalize(expr)
 
@@ -353,6 +368,14 @@ def _string_normalize(expr: str):
     if isinstance(expr, set):
         return expr
 
+    # words which are an answer themselves are no unit, e.g., x = \\text{east}, (\\text{red}, 1)
+    word, end = r"\\(?:text|mbox)\s*\{\s*([a-zA-Z ]+?)\s*\}", r"\s*(?:,|\)|\]|\\?\}|$)"
+    expr = re.sub(r"(=\s*|^\s*\\?\{\s*)" + word + "(?=" + end + ")", r"\1\2", expr)
+    expr = re.sub(r"((?:&|\\\\|\\begin\{\w*matrix\})\s*)" + word + r"(?=\s*(?:&|\\\\|\\end))", r"\1\2", expr)
+    # elements stay words, they are compared without their brackets or commas
+    expr = re.sub(r"(,\s*)" + word + "(?=" + end + ")", r"\1\\text{{\2}}", expr)
+    expr = re.sub(r"(^\s*[(\[{]*\s*)" + word + r"(?=\s*,)", r"\1\\text{{\2}}", expr)
+
     # remove unit
     # we only deal with valid power,
     #   e.g., \\text{cm}^d, d must be single digit. 
-- 
2.43.0

