From 172e8d208f4bc55b26ead5f099fbbc10cd293f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 01/42] fix: floor, ceil and round accept a negative number of
 places

---
 modularcalculator/features/numerical/numericalfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/numericalfunctions.py b/modularcalculator/features/numerical/numericalfunctions.py
index 61a9b9f..54c0ece 100755
--- a/modularcalculator/features/numerical/numericalfunctions.py
+++ b/modularcalculator/features/numerical/numericalfunctions.py
@@ -138,7 +138,7 @@ class NumericalFunctionsFeature(Feature):
             base = vals[0].number_cast['base']
         if vals[0].number_cast is not None and 'places_offset' in vals[0].number_cast:
             places += vals[0].number_cast['places_offset']
-        p = Number(base ** places)
+        p = Number(base) ** Number(places)
         val = vals[0]
         val *= p
         val = f(val)
-- 
2.43.0


From e6e0e9ddf2814a1f0be56653e672155700e82d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 02/42] fix: a small negative number is never displayed as '-0'

---
 modularcalculator/objects/number.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 301bf97..80a356d 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -67,10 +67,11 @@ class Number:
                 self,
                 *(self.number_cast['args'] if 'args' in self.number_cast else []))
         dec_num = self.to_decimal()
+        dec_num = round(dec_num, NUMBER['decimal_places'])
         if dec_num == 0:
             # This is to avoid getting '-0'
             dec_num = 0
-        val = "{0:f}".format(round(dec_num, NUMBER['decimal_places']))
+        val = "{0:f}".format(dec_num)
         if val.find('.') > -1:
             val = val.rstrip('0')
             if val[-1] == '.':
-- 
2.43.0


From c73a13587a59c302947439dd55a3178de8148586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:59 +0000
Subject: [PATCH 03/42] fix: numbers too big to round to the displayed decimal
 places can be displayed

---
 modularcalculator/objects/number.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/objects/number.py b/modularcalculator/objects/number.py
index 80a356d..af78e76 100644
--- a/modularcalculator/objects/number.py
+++ b/modularcalculator/objects/number.py
@@ -67,7 +67,11 @@ class Number:
                 self,
                 *(self.number_cast['args'] if 'args' in self.number_cast else []))
         dec_num = self.to_decimal()
-        dec_num = round(dec_num, NUMBER['decimal_places'])
+        try:
+            dec_num = round(dec_num, NUMBER['decimal_places'])
+        except InvalidOperation:
+            # The number is so big that it has fewer decimal places than this already
+            pass
         if dec_num == 0:
             # This is to avoid getting '-0'
             dec_num = 0
-- 
2.43.0


From 544efbf8c7846b237546b3697abcd2ecbe7f03bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 04/42] fix: digits of an arbitrary-base number that look like
 its prefix are kept

---
 modularcalculator/features/numerical/bases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 421005d..34ab0da 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -30,7 +30,7 @@ class BasesFeature(Feature):
     digits = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'
 
     def number_remove_prefix(self, val, prefix):
-        return val.lower().replace(prefix, '')
+        return val.lower().replace(prefix, '', 1)
 
     def number_add_prefix(self, val, prefix):
         if val[0] == '-':
-- 
2.43.0


From ac294e0205b8f0123dc000fb8f393c9e68c1eaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 05/42] fix: a number in base 10 can be displayed

---
 modularcalculator/features/numerical/bases.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 34ab0da..25a3b28 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -101,6 +101,8 @@ class BasesFeature(Feature):
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
         if base == 10:
+            val = val.copy()
+            val.number_cast = None
             return val.to_string(self)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
-- 
2.43.0


From 58dac83b246ca6f17e57c1d4213e9ac4f2aaad31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 06/42] fix: numbers too small for the displayed places of a
 base have no trailing point

---
 modularcalculator/features/numerical/bases.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 25a3b28..84df62d 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -127,8 +127,8 @@ class BasesFeature(Feature):
                 places += 1
             power -= 1
 
-        if negative:
-            string = '-' + string
         if string.find('.') > -1:
-            string = string.rstrip('0')
+            string = string.rstrip('0').rstrip('.')
+        if negative and string != '0':
+            string = '-' + string
         return string
-- 
2.43.0


From 8f57b9124c29b8401c868bbd51888cf8dece2527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:16 +0000
Subject: [PATCH 07/42] fix: the width of bitwise operands is their number of
 binary digits

---
 modularcalculator/features/numerical/bitwiseoperators.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/numerical/bitwiseoperators.py b/modularcalculator/features/numerical/bitwiseoperators.py
index fac5101..25ce67f 100755
--- a/modularcalculator/features/numerical/bitwiseoperators.py
+++ b/modularcalculator/features/numerical/bitwiseoperators.py
@@ -107,12 +107,9 @@ class BitwiseOperatorsFeature(Feature):
             raise CalculatorException('Operator requires positive integers')
 
         int_val = int(dec_num)
-        if hasattr(dec_num, 'binary_number_width'):
-            mask_val = 2**dec_num.binary_number_width - 1
-        else:
-            mask_val = 2**math.ceil(math.log(int_val, 2)) - 1
+        mask_val = 2**BitwiseOperatorsFeature.get_biggest_width(self, [dec_num]) - 1
         flipped_val = ~int_val
-        masked_flipped_val = Number(flipped_val & mask_val, number_cast=vals[0].number_cast)
+        masked_flipped_val = Number(flipped_val & mask_val, number_cast=dec_num.number_cast)
 
         masked_flipped_val.binary_number_width = BitwiseOperatorsFeature.get_biggest_width(self, [dec_num, masked_flipped_val])
 
@@ -138,5 +135,5 @@ class BitwiseOperatorsFeature(Feature):
             if hasattr(val, 'binary_number_width'):
                 width = max(width, val.binary_number_width)
             else:
-                width = max(width, BasesFeature.get_number_width(self, val.to_string(self), BinaryNumbersFeature.bin_prefix))
+                width = max(width, 1, int(val).bit_length())
         return width
-- 
2.43.0


From 6bfb21d45357211c0538c437868639cd45a4da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:38 +0000
Subject: [PATCH 08/42] fix: mean, median and mode give exact values

---
 .../features/numerical/statisticalfunctions.py      | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/numerical/statisticalfunctions.py b/modularcalculator/features/numerical/statisticalfunctions.py
index a91bd13..6e5014f 100755
--- a/modularcalculator/features/numerical/statisticalfunctions.py
+++ b/modularcalculator/features/numerical/statisticalfunctions.py
@@ -121,16 +121,17 @@ class StatisticalFunctionsFeature(Feature):
         return res
 
     def func_mean(self, vals, units, refs, flags):
-        values = [v.value.to_decimal() for v in vals[0]]
-        return OperationResult(Number(statistics.mean(values)))
+        values = [v.value for v in vals[0]]
+        return OperationResult(sum(values, Number(0)) / Number(len(values)))
 
     def func_median(self, vals, units, refs, flags):
-        values = [v.value.to_decimal() for v in vals[0]]
-        return OperationResult(Number(statistics.median(values)))
+        values = sorted(v.value for v in vals[0])
+        middle = values[(len(values) - 1) // 2:len(values) // 2 + 1]
+        return OperationResult(sum(middle, Number(0)) / Number(len(middle)))
 
     def func_mode(self, vals, units, refs, flags):
-        values = [v.value.to_decimal() for v in vals[0]]
-        return OperationResult(Number(statistics.mode(values)))
+        values = [v.value for v in vals[0]]
+        return OperationResult(statistics.mode(values).copy())
 
     def func_stdev(self, vals, units, refs, flags):
         values = [v.value.to_decimal() for v in vals[0]]
-- 
2.43.0


From 72782245e94b9e6526ad16ab067c32e4f255dbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 09/42] fix: a function's result never changes the
 representation of a stored value

---
 modularcalculator/objects/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/objects/operators.py b/modularcalculator/objects/operators.py
index 9f315d8..258fe4f 100755
--- a/modularcalculator/objects/operators.py
+++ b/modularcalculator/objects/operators.py
@@ -4,6 +4,7 @@ from modularcalculator.objects.items import *
 from modularcalculator.objects.exceptions import *
 from modularcalculator.objects.number import *
 
+from copy import copy
 import re
 
 
@@ -211,6 +212,8 @@ class Operation:
 
                 # Convert the number type of the result
                 if self.auto_convert_numerical_result and isinstance(result_value, Number) and number_cast:
+                    # The value might be one that's stored elsewhere, so change a copy of it
+                    result_value = copy(result_value)
                     result_value.number_cast = number_cast
 
                 # If result is an array, restore each element back to its original value and unit
-- 
2.43.0


From bdb8551470e32d03f3afbca493d8a15ba82d58c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:49 +0000
Subject: [PATCH 10/42] fix: finalizing an answer never changes the elements of
 a stored array

---
 modularcalculator/engine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/engine.py b/modularcalculator/engine.py
index 9394240..2ba9de4 100755
--- a/modularcalculator/engine.py
+++ b/modularcalculator/engine.py
@@ -326,9 +326,9 @@ class Engine:
             return None
         if type(answer.value) == list:
             # If answer is an array, apply finalization to each element
-            for i, ans in enumerate(answer.value):
-                answer.value[i] = self.finalize(ans)
+            answer = OperandResult([self.finalize(ans) for ans in answer.value], answer.unit, answer.ref)
         else:
+            answer = OperandResult(answer.value, answer.unit, answer.ref)
             if self.unit_normaliser is not None and self.unit_simplification and answer.unit is not None and not answer.unit.no_simplify:
                 # Simplify the answer's unit
                 answer.value, answer.unit = self.unit_normaliser.simplify_units(answer.value, answer.unit)
-- 
2.43.0


From 04995d819fcfcca7beffbcf923867c9d2ec28660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:01 +0000
Subject: [PATCH 11/42] fix: where a statement ends does not depend on earlier
 statements

---
 modularcalculator/features/structure/terminator.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/modularcalculator/features/structure/terminator.py b/modularcalculator/features/structure/terminator.py
index 8e72159..15aa9c0 100755
--- a/modularcalculator/features/structure/terminator.py
+++ b/modularcalculator/features/structure/terminator.py
@@ -33,7 +33,6 @@ class TerminatorFeature(Feature):
 
         calculator.feature_options['structure.terminator'] = cls.default_options()
 
-        calculator.last_failed_terminator = None
 
     def parse_terminator(self, expr, i, items, flags):
         if 'ignore_terminators' in flags and flags['ignore_terminators']:
@@ -43,10 +42,6 @@ class TerminatorFeature(Feature):
         symbol = self.feature_options['structure.terminator']['Symbol']
         if next[0:len(symbol)] == symbol:
             func_items = functional_items(items)
-            func_item_text = items_text(func_items)
-            if func_item_text == self.last_failed_terminator:
-                return None, None, None
-
             backup_vars = self.vars.copy()
 
             try:
@@ -54,7 +49,6 @@ class TerminatorFeature(Feature):
             except ExecuteException as e:
                 if str(e.message).startswith('Missing right operands for operator '):
                     self.vars = backup_vars
-                    self.last_failed_terminator = func_item_text
                     return None, None, None
             except Exception:
                 pass
-- 
2.43.0


From d0acb71a35c974eda8f82b602f3026613c6a6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:13 +0000
Subject: [PATCH 12/42] fix: variables are restored whatever way an inline
 function fails

---
 modularcalculator/features/structure/inlinefunctions.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 97ffdeb..3396ca2 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -158,15 +158,11 @@ class InlineFunctionsPointerHandler:
             if len(functional_items(statement_items)) > 0:
                 val = calculator.execute(statement_items, flags.copy())
             if isinstance(val.value, Exception):
-                calculator.vars = backup_vars
                 raise val.value
 
-            # Restore calculator state
-            calculator.vars = backup_vars
-
             res = OperationResult(val.value)
             res.set_unit(val.unit)
             return res
-        except ExecuteException as err:
+        finally:
+            # Restore calculator state
             calculator.vars = backup_vars
-            raise err
-- 
2.43.0


From 2b93ae74854d163bdc5a27e3056c675af21e6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 13/42] fix: an array index below 1 is out of range

---
 modularcalculator/features/arrays/arrayfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/arrays/arrayfunctions.py b/modularcalculator/features/arrays/arrayfunctions.py
index 6d63d1a..564b156 100755
--- a/modularcalculator/features/arrays/arrayfunctions.py
+++ b/modularcalculator/features/arrays/arrayfunctions.py
@@ -96,6 +96,8 @@ class ArrayFunctionsFeature(Feature):
     def func_array_element(self, vals, units, refs, flags):
         array = vals[0]
         index = int(vals[1]) - 1
+        if index < 0:
+            raise CalculatorException("Array index must be at least 1")
         element = array[index]
         res =  OperationResult(element.value)
         res.set_unit(element.unit)
-- 
2.43.0


From a235538b119d5b60acd02cc1ec3b9fe7a0b076b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 14/42] fix: converting an array's units never changes the
 units of the stored array

---
 modularcalculator/features/units/units.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modularcalculator/features/units/units.py b/modularcalculator/features/units/units.py
index 6d4f4b7..d64e02c 100755
--- a/modularcalculator/features/units/units.py
+++ b/modularcalculator/features/units/units.py
@@ -125,6 +125,7 @@ class UnitsFeature(Feature):
             raise CalculatorException("Second operand is not a unit")
 
         num, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
+        tounit = tounit.copy()
         tounit.no_simplify = True
 
         res = OperationResult(num)
-- 
2.43.0


From 6be868e39e9a390e488cdc3779f1ab5a02e0ed2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:59 +0000
Subject: [PATCH 15/42] fix: units that cancel out are no longer an error

---
 .../features/numerical/basicarithmetic.py         | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/features/numerical/basicarithmetic.py b/modularcalculator/features/numerical/basicarithmetic.py
index 41012e4..ce8f137 100755
--- a/modularcalculator/features/numerical/basicarithmetic.py
+++ b/modularcalculator/features/numerical/basicarithmetic.py
@@ -89,10 +89,19 @@ class BasicArithmeticFeature(Feature):
         calculator.multiply_op = '*'
         calculator.divide_op = '/'
 
+    def unit_result(self, unit):
+        if unit is None:
+            # All the units have cancelled out
+            return OperationResult(Number(1))
+        unit.no_simplify = True
+        return OperationResult(unit)
+
     def op_number_power(self, vals, units, refs, flags):
         power = vals[1]
         if isinstance(vals[0], UnitPowerList):
             unit = vals[0].power(power)
+            if unit is None:
+                return OperationResult(Number(1))
             return OperationResult(unit)
         num_res = vals[0] ** power
         res = OperationResult(num_res)
@@ -105,8 +114,7 @@ class BasicArithmeticFeature(Feature):
     def op_number_multiply(self, vals, units, refs, flags):
         if isinstance(vals[0], UnitPowerList) and isinstance(vals[1], UnitPowerList):
             unit = UnitPowerList.new([vals[0], Number(1), vals[1], Number(1)])
-            unit.no_simplify = True
-            return OperationResult(unit)
+            return BasicArithmeticFeature.unit_result(self, unit)
         for i in range(0, len(vals)):
             if isinstance(vals[i], UnitPowerList):
                 units[i] = vals[i]
@@ -126,8 +134,7 @@ class BasicArithmeticFeature(Feature):
     def op_number_divide(self, vals, units, refs, flags):
         if isinstance(vals[0], UnitPowerList) and isinstance(vals[1], UnitPowerList):
             unit = UnitPowerList.new([vals[0], Number(1), vals[1], Number(-1)])
-            unit.no_simplify = True
-            return OperationResult(unit)
+            return BasicArithmeticFeature.unit_result(self, unit)
         for i in range(0, len(vals)):
             if isinstance(vals[i], UnitPowerList):
                 units[i] = vals[i]
-- 
2.43.0


From f453de27cf618bc749d76776f899f105b7e9ba0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:11 +0000
Subject: [PATCH 16/42] fix: array ranges accept every value that counts as a
 number

---
 modularcalculator/features/arrays/arrays.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index e3ba9b4..fc38641 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -217,6 +217,8 @@ class ArrayElement():
         state['items'] += len(self.element)
 
         end_element_result = None
+        if self.end_element is not None:
+            element_result = OperandResult(calculator.number(element_result.value), element_result.unit, element_result.ref)
         if self.end_element is not None:
             state['items'] += 1
             end_element_result = calculator.execute(self.end_element, flags)
@@ -224,6 +226,7 @@ class ArrayElement():
                 raise end_element_result.value
             if not calculator.validate_number(end_element_result.value):
                 raise ExecuteException("Arrays with range must be numerical", [], None)
+            end_element_result = OperandResult(calculator.number(end_element_result.value), end_element_result.unit, end_element_result.ref)
             state['items'] += len(self.end_element)
         else:
             return [element_result]
@@ -238,6 +241,7 @@ class ArrayElement():
                 raise step_result.value
             if not calculator.validate_number(step_result.value):
                 raise ExecuteException("Arrays with range must be numerical", [], None)
+            step_result = OperandResult(calculator.number(step_result.value), step_result.unit, step_result.ref)
             state['items'] += len(self.step)
 
         if element_result.unit is not None or end_element_result.unit is not None or step_result.unit is not None:
-- 
2.43.0


From 523c7fa1315f3f2b44ee447466b27d9da5f75f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:23 +0000
Subject: [PATCH 17/42] fix: delete and reset change no variable when stateless

---
 modularcalculator/features/state/assignmentfunctions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 212e740..655d4fe 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -45,13 +45,17 @@ class AssignmentFunctionsFeature(Feature):
             1)
 
     def func_reset(self, vals, units, refs, flags):
-        self.vars = {}
+        if 'stateless' not in flags.keys() or not flags['stateless']:
+            self.vars = {}
         return OperationResult(None)
 
     def func_delete(self, vals, units, refs, flags):
         if isinstance(refs[0], VariableItem):
             varname = refs[0].var
-            del self.vars[varname]
+            if varname not in self.vars:
+                raise CalculatorException("Variable {0} not found".format(varname))
+            if 'stateless' not in flags.keys() or not flags['stateless']:
+                del self.vars[varname]
             return OperationResult(None)
         else:
             raise ExecuteException("Expecting variable, received".format(refs[0].desc()), [], None)
-- 
2.43.0


From a17cd0a3cdac72b6773e8381e2e63f708527f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:34 +0000
Subject: [PATCH 18/42] fix: compound assignments give their result when
 stateless

---
 .../features/state/assignmentoperators.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 608f561..4a328b4 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -136,14 +136,14 @@ class AssignmentOperatorsFeature(Feature):
 
     def assignment_operator(self, sym, vals, units, refs, flags):
         if isinstance(refs[0], VariableItem):
+            varname = refs[0].var
+            var = self.vars[varname]
+            op = self.ops_list[sym]
+            op_result = op.call(self, [OperandResult(var[0], var[1], None), OperandResult(vals[1], units[1], refs[1])], flags)
             if 'stateless' not in flags.keys() or not flags['stateless']:
-                varname = refs[0].var
-                var = self.vars[varname]
-                op = self.ops_list[sym]
-                op_result = op.call(self, [OperandResult(var[0], var[1], None), OperandResult(vals[1], units[1], refs[1])], flags)
                 self.vars[varname] = (op_result.value, op_result.unit)
-            res = OperationResult(self.vars[varname][0])
-            res.set_unit(self.vars[varname][1])
+            res = OperationResult(op_result.value)
+            res.set_unit(op_result.unit)
             return res
         else:
             raise ExecuteException("Expecting variable, received".format(refs[0].desc()), [], None)
-- 
2.43.0


From e2d4e1d37d095eb93300058df999331270a49a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:53 +0000
Subject: [PATCH 19/42] fix: simplifying a unit with several subunits of one
 dimension keeps the quantity

---
 modularcalculator/services/unitnormaliser.py | 42 +++++++++-----------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 900b90a..8b89dce 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -241,15 +241,15 @@ class UnitNormaliser:
                                     else:
                                         replace_value = value
                                         for unitpower in unitsfound:
-                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), False)
-                                        replace_value = replace_unit.convert(replace_value, (power * multpower), False)
+                                            replace_value = unitpower.unit.convert(replace_value, -(unitpower.power * multpower), True)
+                                        replace_value = replace_unit.convert(replace_value, (power * multpower), True)
                                         if closest_value is None or self.get_closeness(replace_value) < self.get_closeness(closest_value):
                                             closest_unit = replace_unit
                                             closest_value = replace_value
                             if closest_unit is not None:
                                 for subunit in unitsfound:
-                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, False)
-                                value = unit.addandconvert(value, closest_unit, power * multpower, False)
+                                    value = unit.removeandconvert(value, subunit.unit, subunit.power * multpower, True)
+                                value = unit.addandconvert(value, closest_unit, power * multpower, True)
                                 found = True
                                 break
                     if found:
@@ -264,33 +264,29 @@ class UnitNormaliser:
     # Check if any remaining subunits are the same dimension
     def dedupe(self, value, unit):
         if len(unit.list()) > 1:
-            # Get list of dimensions and index of subunits
+            # Get list of dimensions and their subunits
             dimensions = {}
-            for di in [(u.unit.dimension, i) for i, u in enumerate(unit.list())]:
-                if di[0] not in dimensions:
-                    dimensions[di[0]] = []
-                dimensions[di[0]].append(di[1])
+            for subunit in unit.copy().list():
+                if subunit.unit.dimension not in dimensions:
+                    dimensions[subunit.unit.dimension] = []
+                dimensions[subunit.unit.dimension].append(subunit)
 
-            for dimension in dimensions:
-                units_i = dimensions[dimension]
-                if len(units_i) > 1:
+            for subunits in dimensions.values():
+                if len(subunits) > 1:
                     # Need to de-dupe
                     power = Number(0)
-                    for i in units_i:
-                        power += unit.list()[i].power
+                    for subunit in subunits:
+                        power += subunit.power
                     if power.to_decimal() != 0:
                         # Multiple units for the same dimension, choose one and replace the others
-                        replace_all_with_unit = unit.list()[0].unit
-                        for i in units_i:
-                            if unit.list()[i].unit != replace_all_with_unit:
-                                power = unit.list()[i].power
-                                value = unit.removeandconvert(value, unit.list()[i].unit, power, False)
-                                value = unit.addandconvert(value, replace_all_with_unit, power, False)
+                        replace_all_with_unit = subunits[0].unit
+                        for subunit in subunits[1:]:
+                            value = unit.removeandconvert(value, subunit.unit, subunit.power, True)
+                            value = unit.addandconvert(value, replace_all_with_unit, subunit.power, True)
                     else:
                         # Units cancel out
-                        units_to_remove = [unit.list()[i] for i in units_i]
-                        for unit_to_remove in units_to_remove:
-                            value = unit.removeandconvert(value, unit_to_remove.unit, unit_to_remove.power, False)
+                        for subunit in subunits:
+                            value = unit.removeandconvert(value, subunit.unit, subunit.power, True)
 
 
         return value, unit
-- 
2.43.0


From a846f91698d759b3d1c1e9f3d8e65224ec9202b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 20/42] fix: temperatures inside a compound unit convert
 relatively

---
 modularcalculator/services/unitnormaliser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 8b89dce..2c11946 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -126,12 +126,19 @@ class UnitNormaliser:
         if self.unit_normalised_dimensionlist(fromunit) != self.unit_normalised_dimensionlist(tounit):
             raise CalculatorException("Can't convert units: {0} and {1}".format(fromunit.plural(), tounit.plural()))
 
+        if not self.unit_is_simple(fromunit) or not self.unit_is_simple(tounit):
+            # Only a simple unit can measure an absolute temperature
+            relative = True
+
         if fromunit != tounit:
             num = fromunit.convertfrom(num, relative)
             num = tounit.convertto(num, relative)
 
         return num, tounit
 
+    def unit_is_simple(self, unit):
+        return len(unit.list()) == 1 and unit.list()[0].power.to_decimal() == 1
+
     def make_multiunit(self, units):
         units = units.copy()
         for i in range(0, len(units), 2):
-- 
2.43.0


From ca302a88d614660d458408bf3a3149b647783a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:17 +0000
Subject: [PATCH 21/42] fix: array ranges compare their ends in the unit of the
 start

---
 modularcalculator/features/arrays/arrays.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/modularcalculator/features/arrays/arrays.py b/modularcalculator/features/arrays/arrays.py
index fc38641..c6ca97f 100755
--- a/modularcalculator/features/arrays/arrays.py
+++ b/modularcalculator/features/arrays/arrays.py
@@ -232,8 +232,6 @@ class ArrayElement():
             return [element_result]
 
         step_result = OperandResult(Number(1), element_result.unit, None)
-        if end_element_result is not None and end_element_result.value < element_result.value:
-            step_result = OperandResult(Number(-1), element_result.unit, None)
         if self.step is not None:
             state['items'] += 1
             step_result = calculator.execute(self.step, flags)
@@ -250,9 +248,10 @@ class ArrayElement():
             for right_element in (end_element_result, step_result):
                 if right_element.unit is None:
                     raise ExecuteException("Arrays with range must have a consistent unit for the start, end and step components", [], None)
-                values, units, resultunit = calculator.unit_normaliser.normalise_inputs([element_result.value, right_element.value], [element_result.unit, right_element.unit], True, False)
-                right_element.value = values[1]
-                right_element.unit = units[1]
+                right_element.value, right_element.unit = calculator.unit_normaliser.unit_conversion(right_element.value, right_element.unit, element_result.unit, right_element is step_result)
+
+        if self.step is None and end_element_result.value < element_result.value:
+            step_result.value = Number(-1)
 
         if ((end_element_result.value - element_result.value) * step_result.value).to_decimal() < 0:
             raise ExecuteException("Can't get from {0} to {1} with step {2}".format(element_result.value, end_element_result.value, step_result.value), [], None)
-- 
2.43.0


From 0daa477ed583a44f7549edffe551a794c396bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:29 +0000
Subject: [PATCH 22/42] fix: sum adds temperatures relatively like the addition
 operator

---
 modularcalculator/features/numerical/statisticalfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/numerical/statisticalfunctions.py b/modularcalculator/features/numerical/statisticalfunctions.py
index 6e5014f..054d483 100755
--- a/modularcalculator/features/numerical/statisticalfunctions.py
+++ b/modularcalculator/features/numerical/statisticalfunctions.py
@@ -38,6 +38,8 @@ class StatisticalFunctionsFeature(Feature):
             1,
             'array[number]')
 
+        calculator.funcs['sum'].units_relative = True
+
         calculator.funcs['min'] = FunctionDefinition(
             'Statistics',
             'min',
-- 
2.43.0


From 23144b4b6ee74a57af455c380b289057627bfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 23/42] fix: compound assignments give what their operator
 gives

---
 .../features/state/assignmentoperators.py     | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/modularcalculator/features/state/assignmentoperators.py b/modularcalculator/features/state/assignmentoperators.py
index 4a328b4..c0d0ab8 100755
--- a/modularcalculator/features/state/assignmentoperators.py
+++ b/modularcalculator/features/state/assignmentoperators.py
@@ -50,8 +50,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_add,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '-=',
@@ -59,8 +59,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_subtract,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '*=',
@@ -68,8 +68,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_multiply,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '/=',
@@ -77,8 +77,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_divide,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '^=',
@@ -86,8 +86,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_power,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             '%=',
@@ -95,8 +95,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_modulus,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
         calculator.add_op(OperatorDefinition(
             'Assignment',
             r'\=',
@@ -104,8 +104,8 @@ class AssignmentOperatorsFeature(Feature):
             AssignmentOperatorsFeature.op_var_integer_divide,
             1,
             1,
-            ['variable', 'number']),
-        {'units_normalise': False})
+            ['variable', ['number', 'array']]),
+        {'units_normalise': False, 'auto_convert_numerical_result': False})
 
     def op_var_increment(self, vals, units, refs, flags):
         return AssignmentOperatorsFeature.assignment_operator(self, '+', [vals[0], Number(1)], [units[0], None], [refs[0], None], flags)
-- 
2.43.0


From 457b4cba08ae05c1b7cf2ecc295009ccd7e95937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:09 +0000
Subject: [PATCH 24/42] fix: an inline function fails when any of its
 statements fails

---
 .../features/structure/inlinefunctions.py           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index 3396ca2..a514409 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -136,6 +136,13 @@ class InlineFunctionsPointerHandler:
 
         return func
 
+    @staticmethod
+    def do_statement(calculator, items, flags):
+        val = calculator.execute(items, flags.copy())
+        if isinstance(val.value, Exception):
+            raise val.value
+        return val
+
     @staticmethod
     def do_function(ref, calculator, vals, units, refs, flags):
         # Back up the calculator state
@@ -151,14 +158,12 @@ class InlineFunctionsPointerHandler:
             for item in ref.items:
                 if item.desc() == 'terminator':
                     if len(functional_items(statement_items)) > 0:
-                        val = calculator.execute(statement_items, flags.copy())
+                        val = InlineFunctionsPointerHandler.do_statement(calculator, statement_items, flags)
                     statement_items = []
                 else:
                     statement_items.append(item)
             if len(functional_items(statement_items)) > 0:
-                val = calculator.execute(statement_items, flags.copy())
-            if isinstance(val.value, Exception):
-                raise val.value
+                val = InlineFunctionsPointerHandler.do_statement(calculator, statement_items, flags)
 
             res = OperationResult(val.value)
             res.set_unit(val.unit)
-- 
2.43.0


From 57dda39c346dfaa29b5c264cec673ba5e48f7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:56 +0000
Subject: [PATCH 25/42] fix: delete removes an array variable, not the
 variables its elements came from

---
 modularcalculator/features/state/assignmentfunctions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/assignmentfunctions.py b/modularcalculator/features/state/assignmentfunctions.py
index 655d4fe..20ea2eb 100755
--- a/modularcalculator/features/state/assignmentfunctions.py
+++ b/modularcalculator/features/state/assignmentfunctions.py
@@ -42,7 +42,8 @@ class AssignmentFunctionsFeature(Feature):
             ['variable'],
             AssignmentFunctionsFeature.func_delete, 
             1, 
-            1)
+            1,
+            'variable')
 
     def func_reset(self, vals, units, refs, flags):
         if 'stateless' not in flags.keys() or not flags['stateless']:
-- 
2.43.0


From 41fe3663cc585338daf94463975cc899206dd388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:43 +0000
Subject: [PATCH 26/42] fix: lstrip, substr and join use the text of a number
 given as a string

---
 modularcalculator/features/strings/stringarrayfunctions.py | 2 +-
 modularcalculator/features/strings/stringfunctions.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/strings/stringarrayfunctions.py b/modularcalculator/features/strings/stringarrayfunctions.py
index 08d4a07..57d5230 100755
--- a/modularcalculator/features/strings/stringarrayfunctions.py
+++ b/modularcalculator/features/strings/stringarrayfunctions.py
@@ -57,6 +57,6 @@ class StringArrayFunctionsFeature(Feature):
     def func_join(self, vals, units, refs, flags):
         delimiter = ''
         if len(vals) > 1:
-            delimiter = vals[1]
+            delimiter = StringsFeature.string(self, vals[1])
         values = [StringsFeature.string(self, v.value) for v in vals[0]]
         return OperationResult(delimiter.join(values))
diff --git a/modularcalculator/features/strings/stringfunctions.py b/modularcalculator/features/strings/stringfunctions.py
index 81465c8..69d95ef 100755
--- a/modularcalculator/features/strings/stringfunctions.py
+++ b/modularcalculator/features/strings/stringfunctions.py
@@ -128,7 +128,7 @@ class StringFunctionsFeature(Feature):
         return OperationResult(StringsFeature.string(self, vals[0]).upper())
 
     def func_lstrip(self, vals, units, refs, flags):
-        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(vals[1]))
+        return OperationResult(StringsFeature.string(self, vals[0]).lstrip(StringsFeature.string(self, vals[1])))
 
     def func_rstrip(self, vals, units, refs, flags):
         return OperationResult(StringsFeature.string(self, vals[0]).rstrip(StringsFeature.string(self, vals[1])))
@@ -149,7 +149,7 @@ class StringFunctionsFeature(Feature):
         elif len(vals) == 3:
             end = int(vals[2]) + 1
             if end <= 0:
-                end += len(vals[0])
+                end += len(StringsFeature.string(self, vals[0]))
             return OperationResult(StringsFeature.string(self, vals[0])[start:end])
         else:
             raise CalculatorException("substr needs either 2 or 3 arguments, found {0}".format(len(vals)))
-- 
2.43.0


From 57f61d2237e006e542ec75f971b3ee81d4ea2843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:55 +0000
Subject: [PATCH 27/42] fix: substr to an end before the start of the string is
 empty

---
 modularcalculator/features/strings/stringfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/strings/stringfunctions.py b/modularcalculator/features/strings/stringfunctions.py
index 69d95ef..6b02854 100755
--- a/modularcalculator/features/strings/stringfunctions.py
+++ b/modularcalculator/features/strings/stringfunctions.py
@@ -149,7 +149,7 @@ class StringFunctionsFeature(Feature):
         elif len(vals) == 3:
             end = int(vals[2]) + 1
             if end <= 0:
-                end += len(StringsFeature.string(self, vals[0]))
+                end = max(0, end + len(StringsFeature.string(self, vals[0])))
             return OperationResult(StringsFeature.string(self, vals[0])[start:end])
         else:
             raise CalculatorException("substr needs either 2 or 3 arguments, found {0}".format(len(vals)))
-- 
2.43.0


From bfaf92ce326fc54af3c89437aae1aedc1fc569c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 28/42] fix: join rejects arrays holding arrays or errors

---
 modularcalculator/features/strings/strings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modularcalculator/features/strings/strings.py b/modularcalculator/features/strings/strings.py
index c533a58..4198976 100755
--- a/modularcalculator/features/strings/strings.py
+++ b/modularcalculator/features/strings/strings.py
@@ -91,6 +91,8 @@ class StringsFeature(Feature):
         return str(val)
 
     def validate_string(self, value, unit, ref):
+        if isinstance(value, (list, Exception)):
+            return False
         try:
             if isinstance(value, Number):
                 value.to_string(self)
-- 
2.43.0


From 337f39849b180f1f7880742bc7f35c8548c42309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:54 +0000
Subject: [PATCH 29/42] fix: unit restrictions accept the dimensions in any
 order

---
 modularcalculator/services/unitnormaliser.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 2c11946..fb8e83f 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -404,6 +404,11 @@ class UnitNormaliser:
         return [(d.dimension, d.power) for d in dimensionlist]
 
     def check_unit_dimensions(self, unit, relationship):
-        unit_relationship = self.unit_to_relationship(unit)
-        expected_relationship = self.standardise_relationship(relationship.copy())
-        return unit_relationship == expected_relationship
+        if unit is None:
+            return False
+        # Derived dimensions are compared by what they are made of, and the order doesn't matter
+        expected_dimensions = DimensionPowerList([
+            DimensionPower(n.dimension, n.power * d.power)
+            for d in self.relationship_to_dimensions(relationship)
+            for n in self.normalised_dimension(d.dimension)]).deduplicate()
+        return self.unit_normalised_dimensionlist(unit) == expected_dimensions
-- 
2.43.0


From c7b37e294e09645a1a245f1b78e2d44dc6baa24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:06 +0000
Subject: [PATCH 30/42] fix: inline functions can use their own variables when
 stateless

---
 modularcalculator/features/structure/inlinefunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/features/structure/inlinefunctions.py b/modularcalculator/features/structure/inlinefunctions.py
index a514409..e73b0e1 100644
--- a/modularcalculator/features/structure/inlinefunctions.py
+++ b/modularcalculator/features/structure/inlinefunctions.py
@@ -148,6 +148,9 @@ class InlineFunctionsPointerHandler:
         # Back up the calculator state
         backup_vars = dict(calculator.vars)
 
+        # The function can always use its own variables, as the state is restored afterwards
+        flags = dict([(flag, val) for flag, val in flags.items() if flag != 'stateless'])
+
         # For each input, set it in the calculator state as a variable called "PARAM" + n
         for i in range(0, len(vals)):
             calculator.vars["PARAM{}".format(i + 1)] = (vals[i], units[i])
-- 
2.43.0


From a3b4c6958faf93969604f2620b00e42bd2f40cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 31/42] fix: simplifying the unit of zero can choose a compound
 unit

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index fb8e83f..82cea57 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -242,7 +242,7 @@ class UnitNormaliser:
                                 else:
                                     if value.to_decimal() == 0:
                                         # Value is 0, so just get the simplest unit possible
-                                        if closest_unit is None or abs(replace_unit.unitscale.log(10)) < abs(closest_unit.unitscale.log(10)):
+                                        if closest_unit is None or abs(replace_unit.convertfrom(Number(1), True).log(10)) < abs(closest_unit.convertfrom(Number(1), True).log(10)):
                                             closest_unit = replace_unit
                                             closest_value = value
                                     else:
-- 
2.43.0


From 7a49a45e25c61ebd50924e6703d3cff9c5debb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 32/42] fix: simplifying the unit of a value too small for a
 float

---
 modularcalculator/services/unitnormaliser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index 82cea57..b0305ba 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -299,7 +299,7 @@ class UnitNormaliser:
         return value, unit
 
     def get_closeness(self, num):
-        closeness = abs(math.log10(abs(float(num))) - self.simplify_preferred_magnitude)
+        closeness = abs(float(abs(num.to_decimal()).log10()) - self.simplify_preferred_magnitude)
         if num < self.simplify_penalise_below:
             closeness *= self.simplify_penalty
         return closeness
-- 
2.43.0


From 872efa2129049efb724228a492e450d09427955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 33/42] fix: simplifying units always terminates

---
 modularcalculator/services/unitnormaliser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modularcalculator/services/unitnormaliser.py b/modularcalculator/services/unitnormaliser.py
index b0305ba..6eadca1 100755
--- a/modularcalculator/services/unitnormaliser.py
+++ b/modularcalculator/services/unitnormaliser.py
@@ -205,7 +205,12 @@ class UnitNormaliser:
             powerlist = [Number(1), Number(-1)]
             replacedimensions_list = [self.normalised_dimension(d).multiply(p) for d in dimensions_list for p in powerlist]
 
+            previous_units = []
             while True:
+                if unit in previous_units:
+                    # Already been here, continuing would go round in circles
+                    break
+                previous_units.append(unit.copy())
                 unitlist = self.get_subunit_list(unit)
                 systems = set([s for u in unitlist for s in u.unit.systems])
                 unitsfound_list_list = self.find_units_matching_dimensions(replacedimensions_list, unitlist)
-- 
2.43.0


From 2a4e8450524a2e7cc7d7b7d021ed7b4fb3b3111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 34/42] fix: a constant's name is not the start of a unit with
 other letters

---
 modularcalculator/features/state/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modularcalculator/features/state/constants.py b/modularcalculator/features/state/constants.py
index f9e2061..ab8d362 100755
--- a/modularcalculator/features/state/constants.py
+++ b/modularcalculator/features/state/constants.py
@@ -30,7 +30,7 @@ class ConstantsFeature(Feature):
 
         calculator.constants = {}
 
-    constant_regex = re.compile(r'([a-zA-Z]+)')
+    constant_regex = re.compile(r'([^\W\d_]+)')
 
     def parse_constant(self, expr, i, items, flags):
         next = expr[i:]
-- 
2.43.0


From 924daabc21485a543c464c9224cc075901a18c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 35/42] fix: unit text with negative powers does not also
 divide by them

---
 modularcalculator/objects/units.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/objects/units.py b/modularcalculator/objects/units.py
index c8ab9b2..6f09692 100755
--- a/modularcalculator/objects/units.py
+++ b/modularcalculator/objects/units.py
@@ -341,7 +341,8 @@ class UnitPowerList(AbstractPowerList):
 
         finalstrings = []
         if len(mults) > 0 and len(divs) > 0:
-            finalstrings = multstrings + [('/', 'op')] + divstrings
+            separator = (' ', 'whitespace') if negative_powers else ('/', 'op')
+            finalstrings = multstrings + [separator] + divstrings
         elif len(mults) > 0:
             finalstrings = multstrings
         elif len(divs) > 0:
-- 
2.43.0


From 82c0750b0ce112ba03cdc366787c060fb93f32e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:21 +0000
Subject: [PATCH 36/42] fix: items reported for a failing function include its
 empty arguments

---
 modularcalculator/features/structure/functionpointers.py | 3 +++
 modularcalculator/features/structure/functions.py        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/modularcalculator/features/structure/functionpointers.py b/modularcalculator/features/structure/functionpointers.py
index c282a5f..fdb4836 100644
--- a/modularcalculator/features/structure/functionpointers.py
+++ b/modularcalculator/features/structure/functionpointers.py
@@ -99,6 +99,9 @@ class FunctionPointerItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            # Empty arguments aren't in the list of arguments, but their separators are in the list of items
+            while isinstance(self.items[itemsi], FunctionParamItem):
+                itemsi += 1
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
diff --git a/modularcalculator/features/structure/functions.py b/modularcalculator/features/structure/functions.py
index 4b95711..0e91651 100755
--- a/modularcalculator/features/structure/functions.py
+++ b/modularcalculator/features/structure/functions.py
@@ -106,6 +106,9 @@ class FunctionItem(RecursiveOperandItem):
         inputs = []
         itemsi = 2
         for i, arg in enumerate(self.args):
+            # Empty arguments aren't in the list of arguments, but their separators are in the list of items
+            while isinstance(self.items[itemsi], FunctionParamItem):
+                itemsi += 1
             old_itemsi = itemsi
             try:
                 argresult = self.calculator.execute(arg, flags)
-- 
2.43.0


From 8112b49834e4429a71092bb4a09f7c992f99f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 37/42] fix: a string ending in a new line is not a number

---
 modularcalculator/features/numerical/decimalnumbers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modularcalculator/features/numerical/decimalnumbers.py b/modularcalculator/features/numerical/decimalnumbers.py
index 9ca2029..b914d23 100755
--- a/modularcalculator/features/numerical/decimalnumbers.py
+++ b/modularcalculator/features/numerical/decimalnumbers.py
@@ -34,7 +34,6 @@ class DecimalNumbersFeature(Feature):
 
     num_pattern = r'(\-?\d+(\.\d+)?)'
     num_regex = re.compile(num_pattern)
-    num_is_regex = re.compile('^' + num_pattern + '$')
 
     def parse_number(self, expr, i, items, flags):
         next = expr[i:]
@@ -59,7 +58,7 @@ class DecimalNumericalRepresentation:
 
     @staticmethod
     def parse(calculator, val):
-        if isinstance(val, str) and DecimalNumbersFeature.num_is_regex.match(val):
+        if isinstance(val, str) and DecimalNumbersFeature.num_regex.fullmatch(val):
             dec_num = Number(val)
             dec_num.number_cast = {'to_string': DecimalNumericalRepresentation.to_string}
             return dec_num
-- 
2.43.0


From 3ee4221a84d42b4db338677840bbef949373d331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 38/42] fix: zero has no digits in a base that does not exist

---
 modularcalculator/features/numerical/bases.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index 84df62d..cfccdaf 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -61,14 +61,14 @@ class BasesFeature(Feature):
         return ''.join(split_num)
 
     def base_to_dec(self, val, base):
-        if val == '0':
-            return Number(0)
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
-        if base == 10:
-            return Number(val)
         if base < 2 or base > 36:
             raise CalculatorException("Base must be between 2 and 36")
+        if val == '0':
+            return Number(0)
+        if base == 10:
+            return Number(val)
 
         negative = False
         if val[0] == '-':
@@ -96,16 +96,16 @@ class BasesFeature(Feature):
         return dec
 
     def dec_to_base(self, val, base):
-        if val.to_decimal() == 0:
-            return '0'
         if not isinstance(base, int):
             raise Exception("Base must be type int, was given {}".format(type(base)))
+        if base < 2 or base > 36:
+            raise CalculatorException("Base must be between 2 and 36")
+        if val.to_decimal() == 0:
+            return '0'
         if base == 10:
             val = val.copy()
             val.number_cast = None
             return val.to_string(self)
-        if base < 2 or base > 36:
-            raise CalculatorException("Base must be between 2 and 36")
 
         negative = val.to_decimal() < 0
         val = abs(val)
-- 
2.43.0


From bbf50afd35e03ad7be5c9ea1dc4219a7a989db2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 39/42] fix: letters are not digits in base 10

---
 modularcalculator/features/numerical/bases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modularcalculator/features/numerical/bases.py b/modularcalculator/features/numerical/bases.py
index cfccdaf..1a40982 100755
--- a/modularcalculator/features/numerical/bases.py
+++ b/modularcalculator/features/numerical/bases.py
@@ -68,6 +68,9 @@ class BasesFeature(Feature):
         if val == '0':
             return Number(0)
         if base == 10:
+            for c in val.upper():
+                if c not in '-.' and BasesFeature.digits.find(c) not in range(0, base):
+                    raise CalculatorException("Illegal digit: {0}".format(c))
             return Number(val)
 
         negative = False
-- 
2.43.0


From 562f5e42b6f0400bffb168b4dfc4e614135722ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 40/42] fix: dates are exact to the microsecond however far
 apart

---
 modularcalculator/features/dates/datefunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modularcalculator/features/dates/datefunctions.py b/modularcalculator/features/dates/datefunctions.py
index dba4109..cc614c0 100755
--- a/modularcalculator/features/dates/datefunctions.py
+++ b/modularcalculator/features/dates/datefunctions.py
@@ -132,7 +132,8 @@ class DateFunctionsFeature(Feature):
         num, fromunit = vals[1], units[1]
         tounit = self.unit_normaliser.get_unit('seconds')
         seconds, tounit = self.unit_normaliser.unit_conversion(num, fromunit, tounit, False)
-        td = timedelta(seconds=float(seconds))
+        # A float can't hold every number of microseconds between two dates
+        td = timedelta(microseconds=int(round(seconds * Number(1000000))))
 
         dt += td
 
@@ -150,8 +151,7 @@ class DateFunctionsFeature(Feature):
             raise CalculatorException("Cannot compare dates with timezones and dates without timezones")
         td = abs(date1 - date2)
 
-        seconds = Number(str(td.total_seconds()))
-        seconds = round(seconds, min(6, getcontext().prec))
+        seconds = Number(td // timedelta(microseconds=1), 1000000)
         fromunit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         tounit = UnitPowerList.new([self.unit_normaliser.get_unit('seconds'), Number(1)])
         value = seconds
-- 
2.43.0


From 12f2b9b70141cc17f2acbba37a248029402f8155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:49 +0000
Subject: [PATCH 41/42] fix: dates before the year 1000 are written with four
 digits of the year

---
 modularcalculator/features/dates/dates.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modularcalculator/features/dates/dates.py b/modularcalculator/features/dates/dates.py
index 28a4f7b..d844c20 100755
--- a/modularcalculator/features/dates/dates.py
+++ b/modularcalculator/features/dates/dates.py
@@ -95,8 +95,10 @@ class DatesFeature(Feature):
 
     def date_to_string(self, dt):
         dt_format, dt_padding = DatesFeature.correct_format_for_date(self, dt)
+        # strftime doesn't pad the years before 1000
+        dt_format = self.feature_options['dates.dates'][dt_format].replace('%Y', '%04d' % dt.year)
         return format(
-            dt.strftime(self.feature_options['dates.dates'][dt_format]), 
+            dt.strftime(dt_format),
             self.feature_options['dates.dates'][dt_padding])
 
     def validate_date(self, value, unit, ref):
-- 
2.43.0


From 8106e419fcc161818a92eb49a9c8f0fb2c17cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 42/42] fix: formatting a temperature does not count its offset
 twice

---
 modularcalculator/features/units/unitfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modularcalculator/features/units/unitfunctions.py b/modularcalculator/features/units/unitfunctions.py
index d221f93..9117673 100755
--- a/modularcalculator/features/units/unitfunctions.py
+++ b/modularcalculator/features/units/unitfunctions.py
@@ -75,8 +75,10 @@ class GeneralUnitFunctionsFeature(Feature):
 
         parts = []
         for systemunit in nonprefixedsystemunits:
-            num = unit.convertfrom(num, False)
-            num = systemunit.convertto(num, False)
+            # Only the first part of a temperature is absolute
+            relative = len(parts) > 0
+            num = unit.convertfrom(num, relative)
+            num = systemunit.convertto(num, relative)
             unit = systemunit
             last = (systemunit == nonprefixedsystemunits[-1])
             if num.to_decimal() >= 1 or last:
-- 
2.43.0

