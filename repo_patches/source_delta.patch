From ac20c4200303564f15e2e70e32eb470becf1b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 01/34] fix: parse actions without a precondition or without an
 effect

---
 pddl/parser/domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index ffaca9f..138e75e 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -160,7 +160,9 @@ class DomainTransformer(Transformer[Any, Domain]):
         # process action body
         _children = args[5].children
         action_body = {
-            _children[i][1:]: _children[i + 1] for i in range(0, len(_children), 2)
+            _children[i][1:]: _children[i + 1]
+            for i in range(0, len(_children), 2)
+            if _children[i] is not None
         }
         return Action(action_name, variables, **action_body)
 
-- 
2.43.0


From cf4aa334b658ff4e2414701e8f55750655541cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 02/34] fix: read an empty "()" condition or effect as the
 empty conjunction

---
 pddl/parser/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 138e75e..17aa13f 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -231,7 +231,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_pregd(self, args):
         """Process the 'emptyor_pregd' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             assert_(len(args) == 1)
             return args[0]
@@ -336,7 +336,7 @@ class DomainTransformer(Transformer[Any, Domain]):
     def emptyor_effect(self, args):
         """Process the 'emptyor_effect' rule."""
         if len(args) == 2:
-            return Or()
+            return And()
         else:
             return args[0]
 
-- 
2.43.0


From a299051855f86fde1af37e02c2acf75dddb8944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 03/34] fix: make the order of requirements strict

---
 pddl/requirements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/requirements.py b/pddl/requirements.py
index f6fc2f8..a4df5b0 100644
--- a/pddl/requirements.py
+++ b/pddl/requirements.py
@@ -79,7 +79,7 @@ class Requirements(Enum):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, Requirements):
-            return self.value <= other.value
+            return self.value < other.value
         else:
             return super().__lt__(other)
 
-- 
2.43.0


From 1a6501c481ec2f78d234cce19b606c2d71faa22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 04/34] fix: compare the conditions when ordering derived
 predicates

---
 pddl/logic/predicates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index bdc562e..323a7a8 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -225,7 +225,7 @@ class DerivedPredicate(Atomic):
     def __lt__(self, other):
         """Compare with another object."""
         if isinstance(other, DerivedPredicate):
-            return (self.predicate, self._predicate) < (
+            return (self.predicate, self.condition) < (
                 other.predicate,
                 other.condition,
             )
-- 
2.43.0


From 3ee2e3f9de9338e8f554aae87299202bceb07afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 05/34] fix: make the order of terms consistent with their
 equality

---
 pddl/logic/terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pddl/logic/terms.py b/pddl/logic/terms.py
index f5397d7..5506a36 100644
--- a/pddl/logic/terms.py
+++ b/pddl/logic/terms.py
@@ -68,6 +68,9 @@ class Term:
         """Compare with another term."""
         if not isinstance(other, Term):
             return super().__lt__(other)
+        if self == other:
+            # e.g. two constants with the same name are equal whatever their types
+            return False
         lhs = (type(self).__name__, self.name, sorted(self.type_tags))
         rhs = (type(other).__name__, other.name, sorted(other.type_tags))
         return lhs < rhs
-- 
2.43.0


From 1e8ec1f46195130ee53b6148fda4e4cb44da27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 06/34] fix: print numbers without an exponent

---
 pddl/logic/functions.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index a54362c..7d50b90 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -15,6 +15,7 @@
 import functools
 from abc import abstractmethod
 from collections.abc import Mapping
+from decimal import Decimal
 from typing import Sequence, cast
 
 from pddl.custom_types import namelike, parse_function
@@ -145,6 +146,10 @@ class NumericValue(FunctionExpression):
 
     def __str__(self) -> str:
         """Get the string representation."""
+        if isinstance(self._value, float) and "e" in str(self._value):
+            # PDDL numbers have no exponent
+            digits = format(Decimal(str(self._value)), "f")
+            return digits if "." in digits else f"{digits}.0"
         return str(self._value)
 
 
-- 
2.43.0


From 825980c5ae9493c183fe3951419dc1f8145d67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:26 +0000
Subject: [PATCH 07/34] fix: read the numbers of a metric as numbers

---
 pddl/parser/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index d8dca2d..26a3913 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -188,7 +188,7 @@ class ProblemTransformer(Transformer[Any, Problem]):
         """Process the 'metric_f_exp' rule."""
         if len(args) == 1:
             if not isinstance(args[0], NumericFunction):
-                return NumericValue(args[0])
+                return NumericValue(self.num_literal(args))
             return args[0]
         op = None
         if args[1] == Symbols.MINUS.value:
-- 
2.43.0


From c40038bed2ff0921547cc43af73c411b46225f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 08/34] fix: print several types of a parameter as an 'either'
 type

---
 pddl/helpers/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index d69b7b3..a2f4dd7 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -124,6 +124,12 @@ def find(seq: Sequence, condition: Callable[[Any], bool]) -> int:
     return next((i for i, x in enumerate(seq) if condition(x)), -1)
 
 
+def _print_types(type_tags: Collection[str]) -> str:
+    """Print the type, or the 'either' type, of a non-empty set of type tags."""
+    tags = sorted(type_tags)
+    return tags[0] if len(tags) == 1 else f"(either {' '.join(tags)})"
+
+
 def _typed_parameters(parameters) -> str:
     """Return a list of parameters along with types if available."""
     result = ""
@@ -131,7 +137,7 @@ def _typed_parameters(parameters) -> str:
         if i > 0:
             result += " "
         if p.type_tags:
-            result += f"?{p.name} - {' '.join(map(str, p.type_tags))}"
+            result += f"?{p.name} - {_print_types(p.type_tags)}"
         else:
             result += str(p)
     return result.strip()
-- 
2.43.0


From 349d481eeaed900225f8ad1e8fd7d3303d795fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 09/34] fix: print quantified variables in a fixed order with
 'either' types, untyped last

---
 pddl/helpers/base.py  | 5 +++++
 pddl/logic/base.py    | 9 ++-------
 pddl/logic/effects.py | 4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pddl/helpers/base.py b/pddl/helpers/base.py
index a2f4dd7..8943fa3 100644
--- a/pddl/helpers/base.py
+++ b/pddl/helpers/base.py
@@ -143,6 +143,11 @@ def _typed_parameters(parameters) -> str:
     return result.strip()
 
 
+def _sort_variables(variables: Collection) -> List:
+    """Sort a set of variables, the untyped ones last as a typed list requires."""
+    return sorted(variables, key=lambda v: (len(v.type_tags) == 0, v))
+
+
 class RegexConstrainedString(str):
     """
     A string that is constrained by a regex.
diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index a69ef43..a7e9f1c 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -16,7 +16,7 @@ import functools
 from abc import abstractmethod
 from typing import AbstractSet, Any, Collection, List, Mapping, Optional, Sequence
 
-from pddl.helpers.base import ensure_set
+from pddl.helpers.base import _sort_variables, _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic.terms import Term, Variable
 from pddl.parser.symbols import Symbols
@@ -217,12 +217,7 @@ class QuantifiedCondition(Formula):
     def __str__(self) -> str:
         """Get the string representation."""
 
-        def build_tags(tags):
-            if len(tags) == 0:
-                return ""
-            return f" - {' '.join(tags)}"
-
-        var_block = " ".join([f"{v}{build_tags(v.type_tags)}" for v in self.variables])
+        var_block = _typed_parameters(_sort_variables(self.variables))
         return f"({self.SYMBOL} ({var_block}) {self.condition})"
 
     def __repr__(self) -> str:
diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index 8fe9929..ae62b7b 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -15,7 +15,7 @@
 import functools
 from typing import AbstractSet, Collection, Optional, Union
 
-from pddl.helpers.base import _typed_parameters, ensure_set
+from pddl.helpers.base import _sort_variables, _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
@@ -98,7 +98,7 @@ class Forall:
 
     def __str__(self) -> str:
         """Get the string representation."""
-        return f"({Symbols.FORALL.value} ({_typed_parameters(self.variables)}) {self.effect})"
+        return f"({Symbols.FORALL.value} ({_typed_parameters(_sort_variables(self.variables))}) {self.effect})"
 
     def __repr__(self) -> str:
         """Get an unambiguous string representation."""
-- 
2.43.0


From dc75aeaeee1484180dba5aef358bf2919053ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:30 +0000
Subject: [PATCH 10/34] fix: print all the types of a function's parameter

---
 pddl/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 007311f..3d4fd81 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -15,6 +15,7 @@
 from typing import Callable, Collection, Dict, List, Optional, TypeVar
 
 from pddl.custom_types import name
+from pddl.helpers.base import _print_types
 from pddl.logic.functions import NumericFunction
 from pddl.logic.terms import Constant
 
@@ -114,7 +115,7 @@ def print_function_skeleton(function: NumericFunction) -> str:
         result += f"({function.name}"
         for t in function.terms:
             result += (
-                f" ?{t.name} - {sorted(t.type_tags)[0]}"
+                f" ?{t.name} - {_print_types(t.type_tags)}"
                 if t.type_tags
                 else f" ?{t.name}"
             )
-- 
2.43.0


From 62ac7b23a6a7c66fb6f21e42d7aed7c9cdee9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 11/34] fix: print a type hierarchy as it was declared

---
 pddl/formatter.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pddl/formatter.py b/pddl/formatter.py
index 3d4fd81..a176a3d 100644
--- a/pddl/formatter.py
+++ b/pddl/formatter.py
@@ -139,21 +139,18 @@ def print_typed_lists(
         }
 
         # first print those types that have no parents
-        subtypes = set()
-        for subs in super_to_subs.values():
-            subtypes |= set(subs)
-
-        no_parents = set(super_to_subs.keys()) - subtypes
-        no_parents |= set(super_to_subs.get(None, []))
+        no_parents = set(super_to_subs.get(None, []))
         no_parents |= set(super_to_subs.get("object", []))
-        no_parents.discard(None)
-        no_parents.discard("object")
-
-        result += (
-            "\n    "
-            + " ".join(sorted(to_string(n) for n in no_parents))
-            + " - object\n"
-        )
+
+        result += "\n"
+        if no_parents:
+            # the supertype 'object' is only allowed if the domain has typing
+            has_hierarchy = any(k is not None for k in super_to_subs)
+            result += (
+                "    "
+                + " ".join(sorted(to_string(n) for n in no_parents))
+                + (" - object\n" if has_hierarchy else "\n")
+            )
 
         # sort the rest of the parent types based on (1) if their subtypes are already defined and (2) their name
         remaining = sorted(str(k) for k in super_to_subs if k not in ("object", None))
-- 
2.43.0


From 18f86dc7771d553fa8ea2afed9cdeeca7b98e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 12/34] fix: walk up the whole type hierarchy when checking
 derived predicates

---
 pddl/parser/domain.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 17aa13f..60c682e 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -535,18 +535,24 @@ class DomainTransformer(Transformer[Any, Domain]):
         self, type_tags_left: AbstractSet[name], type_tags_right: AbstractSet[name]
     ):
         """Check that each type tag in the left set is a subtype of (one of) the type tags of the right."""
-        if len(type_tags_right) == 0:
+        if len(type_tags_right) == 0 or Symbols.OBJECT.value in type_tags_right:
             # 'object' type includes everything
             return
 
+        types = self._types if self._types is not None else {}
+
         # for each left type, navigate the type hierarchy until we find a type in the right set, or fail
         for left_type in type_tags_left:
-            current_type = left_type
-            parent_type: Optional[name] = left_type
-            while parent_type is not None and parent_type not in type_tags_right:
-                parent_type = self.types_hierarchy.get(current_type, None)
-
-            if parent_type is None:
+            current_type: Optional[name] = left_type
+            visited: Set[name] = set()
+            while current_type is not None and current_type not in type_tags_right:
+                # stop at a cycle; the hierarchy is only validated later
+                visited.add(current_type)
+                current_type = types.get(current_type, None)
+                if current_type in visited:
+                    current_type = None
+
+            if current_type is None:
                 raise PDDLParsingError(
                     f"Type '{left_type}' not found in types: '{type_tags_right}'."
                 )
-- 
2.43.0


From 4c2e00f8ffd3f5d6a9a21d9168dda3665f69e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 13/34] fix: parse goals with gated or quantified conditions

---
 pddl/parser/problem.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index 26a3913..1169071 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -12,7 +12,7 @@
 
 """Implementation of the PDDL problem parser."""
 
-from typing import Any, Dict
+from typing import Any, Dict, Set
 
 from lark import ParseError, Transformer
 
@@ -35,7 +35,7 @@ from pddl.logic.terms import Constant
 from pddl.parser.base import BaseParser
 from pddl.parser.domain import DomainTransformer
 from pddl.parser.symbols import Symbols
-from pddl.requirements import Requirements
+from pddl.requirements import Requirements, _extend_domain_requirements
 
 
 class ProblemTransformer(Transformer[Any, Problem]):
@@ -47,6 +47,15 @@ class ProblemTransformer(Transformer[Any, Problem]):
 
         self._domain_transformer = DomainTransformer()
         self._objects_by_name: Dict[str, Constant] = {}
+        # a problem that does not state requirements is not restricted
+        self._set_requirements(set(Requirements))
+
+    def _set_requirements(self, requirements: Set[Requirements]) -> None:
+        """Set the requirements that the goal is checked against."""
+        self._domain_transformer._requirements = requirements
+        self._domain_transformer._extended_requirements = _extend_domain_requirements(
+            requirements
+        )
 
     def start(self, args):
         """Process the rule 'start'."""
@@ -71,7 +80,9 @@ class ProblemTransformer(Transformer[Any, Problem]):
 
     def requirements(self, args):
         """Process the 'requirements' rule."""
-        return "requirements", {Requirements(r[1:]) for r in args[2:-1]}
+        requirements = {Requirements(r[1:]) for r in args[2:-1]}
+        self._set_requirements(requirements)
+        return "requirements", requirements
 
     def objects(self, args):
         """Process the 'problem_domain' rule."""
@@ -92,6 +103,14 @@ class ProblemTransformer(Transformer[Any, Problem]):
         """
         return self._domain_transformer.typed_list_name(args)
 
+    def typed_list_variable(self, args):
+        """Process the 'typed_list_variable' rule."""
+        return self._domain_transformer.typed_list_variable(args)
+
+    def type_def(self, args):
+        """Process the 'type_def' rule."""
+        return self._domain_transformer.type_def(args)
+
     def domain__type_def(self, names):
         """Process a domain type def."""
         assert_(len(names) == 1)
-- 
2.43.0


From 495b32ea527be3466a17b8456a752cf92e0dc5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 14/34] fix: do not re-associate differences, quotients and
 equalities

---
 pddl/logic/functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pddl/logic/functions.py b/pddl/logic/functions.py
index 7d50b90..e30f674 100644
--- a/pddl/logic/functions.py
+++ b/pddl/logic/functions.py
@@ -254,7 +254,7 @@ class Metric(Atomic):
         return hash((self.expression, self.optimization))
 
 
-class EqualTo(BinaryFunction, metaclass=BinaryOpMetaclass):
+class EqualTo(BinaryFunction):
     """Equal to operator."""
 
     SYMBOL = Symbols.EQUAL
@@ -354,7 +354,7 @@ class Decrease(BinaryFunction):
         super().__init__(*operands)
 
 
-class Minus(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Minus(BinaryFunction):
     """Minus operator."""
 
     SYMBOL = Symbols.MINUS
@@ -396,7 +396,7 @@ class Times(BinaryFunction, metaclass=BinaryOpMetaclass):
         super().__init__(*operands)
 
 
-class Divide(BinaryFunction, metaclass=BinaryOpMetaclass):
+class Divide(BinaryFunction):
     """Divide operator."""
 
     SYMBOL = Symbols.DIVIDE
-- 
2.43.0


From 78f997f1679b72eff2299707873ab0a0079ec506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 15/34] fix: keep the repeated operands of sums and products

---
 pddl/logic/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index a7e9f1c..bd03ddf 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -300,7 +300,7 @@ def _simplify_monotone_op_operands(cls, *operands, idempotency: bool = False):
     while len(stack) > 0:
         element = stack.pop()
         if not isinstance(element, cls):
-            if element not in seen:
+            if not idempotency or element not in seen:
                 seen.add(element)
                 new_operands.append(element)
             continue
-- 
2.43.0


From f90d4ff099e160ba513f6d0b6ffb85ee4e85d9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 16/34] fix: parse differences and quotients

---
 pddl/parser/grammar.lark | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index 8c12e03..fba473c 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -67,17 +67,14 @@ constant: NAME
             | GREATER_EQUAL_OP
             | LESSER_EQUAL_OP
 
-?binary_op: multi_op
-          | MINUS
-          | DIVIDE
-
 ?multi_op: TIMES
          | PLUS
 
 num_literal: NUMBER
 
 f_exp:      num_literal
-      |     LPAR binary_op f_exp f_exp RPAR
+      |     LPAR MINUS f_exp f_exp RPAR
+      |     LPAR DIVIDE f_exp f_exp RPAR
       |     LPAR multi_op f_exp f_exp+ RPAR
       |     LPAR MINUS f_exp RPAR
       |     f_head
@@ -130,7 +127,8 @@ metric_spec: LPAR METRIC optimization metric_f_exp RPAR
 ?optimization: MAXIMIZE
              | MINIMIZE
 
-metric_f_exp: LPAR binary_op metric_f_exp metric_f_exp RPAR
+metric_f_exp: LPAR MINUS metric_f_exp metric_f_exp RPAR
+            | LPAR DIVIDE metric_f_exp metric_f_exp RPAR
             | LPAR multi_op metric_f_exp metric_f_exp+ RPAR
             | LPAR MINUS metric_f_exp RPAR
             | basic_function_term
-- 
2.43.0


From c6a7ba8452f4dac674822bb40de70443a3f50a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 17/34] fix: do not instantiate quantified variables

---
 pddl/logic/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/base.py b/pddl/logic/base.py
index bd03ddf..a1a9f4e 100644
--- a/pddl/logic/base.py
+++ b/pddl/logic/base.py
@@ -212,7 +212,10 @@ class QuantifiedCondition(Formula):
 
     def instantiate(self, mapping: Mapping[Variable, Term]) -> "Formula":
         """Instantiate the formula with a mapping from variables to terms."""
-        return type(self)(self.condition.instantiate(mapping), self.variables)
+        # the quantified variables hide the outer variables with the same name
+        bound = {v.name for v in self.variables}
+        free = {v: term for v, term in mapping.items() if v.name not in bound}
+        return type(self)(self.condition.instantiate(free), self.variables)
 
     def __str__(self) -> str:
         """Get the string representation."""
-- 
2.43.0


From e98d5ac0aa46e3127cd76971d92f7d6326a7c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 18/34] fix: instantiate conditional and universal effects

---
 pddl/logic/effects.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/effects.py b/pddl/logic/effects.py
index ae62b7b..c13f9a7 100644
--- a/pddl/logic/effects.py
+++ b/pddl/logic/effects.py
@@ -13,12 +13,13 @@
 """This modules implements PDDL effects."""
 
 import functools
-from typing import AbstractSet, Collection, Optional, Union
+from typing import AbstractSet, Collection, Mapping, Optional, Union
 
 from pddl.helpers.base import _sort_variables, _typed_parameters, ensure_set
 from pddl.helpers.cache_hash import cache_hash
 from pddl.logic import Variable
 from pddl.logic.base import And, Atomic, Formula, Not, OneOf
+from pddl.logic.terms import Term
 from pddl.parser.symbols import Symbols
 
 
@@ -47,6 +48,12 @@ class When:
         """Get the effect."""
         return self._effect
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "When":
+        """Instantiate the effect with a mapping from variables to terms."""
+        return When(
+            self.condition.instantiate(mapping), self.effect.instantiate(mapping)
+        )
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.WHEN.value} {self._condition} {self.effect})"
@@ -96,6 +103,13 @@ class Forall:
         """Get the variables."""
         return self._variables
 
+    def instantiate(self, mapping: Mapping[Variable, Term]) -> "Forall":
+        """Instantiate the effect with a mapping from variables to terms."""
+        # the quantified variables hide the outer variables with the same name
+        bound = {v.name for v in self.variables}
+        free = {v: term for v, term in mapping.items() if v.name not in bound}
+        return Forall(self.effect.instantiate(free), self.variables)
+
     def __str__(self) -> str:
         """Get the string representation."""
         return f"({Symbols.FORALL.value} ({_typed_parameters(_sort_variables(self.variables))}) {self.effect})"
-- 
2.43.0


From 4491d95f79ed43a1a1768b68c8293dc0dced154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 19/34] fix: require consistent type tags of variables only

---
 pddl/logic/predicates.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pddl/logic/predicates.py b/pddl/logic/predicates.py
index 323a7a8..61d462d 100644
--- a/pddl/logic/predicates.py
+++ b/pddl/logic/predicates.py
@@ -27,10 +27,13 @@ def _check_terms_consistency(terms: Sequence[Term]):
     """
     Check that the term sequence have consistent type tags.
 
-    In particular, terms with the same name must have the same type tags.
+    In particular, variables with the same name must have the same type tags.
     """
     seen: Dict[name, Set[name]] = {}
     for term in terms:
+        if not isinstance(term, Variable):
+            # constants are identified by their name only
+            continue
         if term.name not in seen:
             seen[term.name] = set(term.type_tags)
         else:
-- 
2.43.0


From 22ba878d675599f197ba7509c121276fb49a75f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 20/34] fix: give quantified variables the types of their
 quantifier

---
 pddl/parser/_update_type_tags.py | 275 +++++++++++++++++--------------
 pddl/parser/domain.py            |   9 +-
 2 files changed, 155 insertions(+), 129 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index ea422f5..dff6834 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,127 +1,148 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when(
+    formula: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_condition = _update_type_tags(formula.condition, var_to_types)
+    new_effect = _update_type_tags(formula.effect, var_to_types)
+    return When(new_condition, new_effect)
+
+
+@_update_type_tags.register
+def _update_type_tags_forall(
+    formula: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(formula.effect, new_var_to_types)
+    return Forall(new_effect, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 60c682e..4d7b541 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -289,7 +289,9 @@ class DomainTransformer(Transformer[Any, Domain]):
         ):
             raise PDDLMissingRequirementError(req)
         variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-        condition = args[5]
+        condition = update_type_tags(
+            args[5], {v.name: frozenset(v.type_tags) for v in variables}
+        )
         return cond_class(cond=condition, variables=variables)
 
     def gd_comparison(self, args):
@@ -354,7 +356,10 @@ class DomainTransformer(Transformer[Any, Domain]):
             return args[0]
         if args[1] == Symbols.FORALL.value:
             variables = [Variable(var_name, tags) for var_name, tags in args[3]]
-            return Forall(effect=args[-2], variables=variables)
+            effect = update_type_tags(
+                args[-2], {v.name: frozenset(v.type_tags) for v in variables}
+            )
+            return Forall(effect=effect, variables=variables)
         if args[1] == Symbols.WHEN.value:
             return When(args[2], args[3])
         if args[1] == Symbols.ONEOF.value:
-- 
2.43.0


From f0331fc2d3d1cac1edec70e484e5c69978c714fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 21/34] fix: forget an action's parameters after the action

---
 pddl/parser/domain.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 4d7b541..8d0e35a 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -156,6 +156,8 @@ class DomainTransformer(Transformer[Any, Domain]):
         """Process the 'action_def' rule."""
         action_name = args[2]
         variables = args[4]
+        # the parameters are not visible after the action
+        self._current_parameters_by_name = {}
 
         # process action body
         _children = args[5].children
-- 
2.43.0


From 3a5da37f867ce46112df9bac25f8bfb5e9924a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 22/34] fix: reset the parser state before each parse

---
 pddl/parser/base.py    | 3 +++
 pddl/parser/domain.py  | 3 +++
 pddl/parser/problem.py | 5 +++++
 3 files changed, 11 insertions(+)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index a2be041..2d8baab 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -43,6 +43,9 @@ class BaseParser(Transformer[Any, T], ABC):
 
     def __call__(self, text: str) -> T:
         """Call."""
+        reset = getattr(self._transformer, "reset", None)
+        if reset is not None:
+            reset()
         return self._call_parser(text, self._parser)
 
     @classmethod
diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 8d0e35a..44331e5 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -66,7 +66,10 @@ class DomainTransformer(Transformer[Any, Domain]):
     def __init__(self, *args, **kwargs) -> None:
         """Initialize the domain transformer."""
         super().__init__(*args, **kwargs)
+        self.reset()
 
+    def reset(self) -> None:
+        """Forget everything about the text parsed before."""
         self._constants_by_name: Dict[str, Constant] = {}
         self._predicates_by_name: Dict[str, Predicate] = {}
         self._functions_by_name: Dict[str, FunctionExpression] = {}
diff --git a/pddl/parser/problem.py b/pddl/parser/problem.py
index 1169071..19b2875 100644
--- a/pddl/parser/problem.py
+++ b/pddl/parser/problem.py
@@ -46,6 +46,11 @@ class ProblemTransformer(Transformer[Any, Problem]):
         super().__init__()
 
         self._domain_transformer = DomainTransformer()
+        self.reset()
+
+    def reset(self) -> None:
+        """Forget everything about the text parsed before."""
+        self._domain_transformer.reset()
         self._objects_by_name: Dict[str, Constant] = {}
         # a problem that does not state requirements is not restricted
         self._set_requirements(set(Requirements))
-- 
2.43.0


From 70bc6c23bf9a306e2e48d225385c071561929a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 23/34] fix: restore the traceback limit after parsing

---
 pddl/parser/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pddl/parser/base.py b/pddl/parser/base.py
index 2d8baab..3b5b335 100644
--- a/pddl/parser/base.py
+++ b/pddl/parser/base.py
@@ -61,12 +61,14 @@ class BaseParser(Transformer[Any, T], ABC):
         :param transformer: the Lark transformer object
         :return: the object returned by the parser
         """
+        had_tracebacklimit = hasattr(sys, "tracebacklimit")
         old_tracebacklimit = getattr(sys, "tracebacklimit", None)
         try:
             sys.tracebacklimit = 0  # noqa
             result = cast(T, parser.parse(text))
-            sys.tracebacklimit = None  # type: ignore
         finally:
-            if old_tracebacklimit is not None:
-                sys.tracebacklimit = old_tracebacklimit
+            if had_tracebacklimit:
+                sys.tracebacklimit = old_tracebacklimit  # type: ignore
+            else:
+                del sys.tracebacklimit
         return result
-- 
2.43.0


From 1bed00221f8f2c4dbaece3f59abb4a9f3f51a847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 24/34] fix: accept the built-in type 'object' without a
 declaration

---
 pddl/_validation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 041ca7f..92c082d 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -36,6 +36,9 @@ from pddl.logic.terms import Term
 from pddl.parser.symbols import Symbols
 from pddl.requirements import Requirements, _extend_domain_requirements
 
+# the type that includes every other type and need not be declared
+OBJECT_TYPE = name_type(Symbols.OBJECT.value)
+
 
 def validate(condition: bool, message: str = "") -> None:
     """
@@ -60,7 +63,7 @@ def _find_inconsistencies_in_typed_terms(
         return None
     for term in terms:
         for type_tag in sorted(term.type_tags):
-            if type_tag is not None and type_tag not in all_types:
+            if type_tag not in all_types and type_tag != OBJECT_TYPE:
                 return term, type_tag
     return None
 
@@ -214,7 +217,7 @@ class TypeChecker:
         self, type_tags: Collection[name_type], what: str
     ) -> None:
         """Check that the types are available in the domain."""
-        if not self._types.all_types.issuperset(type_tags):
+        if not self._types.all_types.issuperset(set(type_tags) - {OBJECT_TYPE}):
             raise PDDLValidationError(
                 f"types {sorted(type_tags)} of {what} are not in available types {self._types.all_types}"
             )
-- 
2.43.0


From ab066327816cf165a66fa6bb9507e519a62024b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 25/34] fix: check the types of functions and derived
 predicates

---
 pddl/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pddl/core.py b/pddl/core.py
index 25ac328..87fb7ef 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -91,9 +91,11 @@ class Domain:
         type_checker = TypeChecker(self._types, self.requirements)
         type_checker.check_type(self._constants)
         type_checker.check_type(self._predicates)
+        type_checker.check_type(self.functions)
         type_checker.check_type(self._actions)
         _check_types_in_has_terms_objects(self._actions, self._types.all_types)  # type: ignore
         self._check_types_in_derived_predicates()
+        type_checker.check_type(self._derived_predicates)
 
     def _check_types_in_derived_predicates(self) -> None:
         """Check types in derived predicates."""
-- 
2.43.0


From eef7e740b43fb9c5bf68e879fff512b1db8f291b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 26/34] fix: type-check actions without a precondition or
 without an effect

---
 pddl/_validation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 92c082d..6985f1b 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -308,8 +308,10 @@ class TypeChecker:
     def _(self, action: Action) -> None:
         """Check types annotations of a PDDL term."""
         self.check_type(action.parameters)
-        self.check_type(action.precondition)
-        self.check_type(action.effect)
+        if action.precondition is not None:
+            self.check_type(action.precondition)
+        if action.effect is not None:
+            self.check_type(action.effect)
 
 
 class Functions:
-- 
2.43.0


From 9581c432183c3611ad854b2eafbabb9eafa888f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 27/34] fix: accept a type hierarchy under :adl

---
 pddl/_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 6985f1b..3215bd6 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -161,7 +161,9 @@ class Types:
 
         # check typing requirement
         supertypes = {t for t in type_dict.values() if t is not None}
-        if len(supertypes) > 0 and Requirements.TYPING not in requirements:
+        if len(
+            supertypes
+        ) > 0 and Requirements.TYPING not in _extend_domain_requirements(requirements):
             raise PDDLValidationError(
                 "typing requirement is not specified, but types are used: '"
                 + "', '".join(map(str, sorted(supertypes)))
-- 
2.43.0


From 808af740dee640b6e5a869a789acb35757487ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 28/34] fix: copy the functions given to a domain

---
 pddl/_validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/_validation.py b/pddl/_validation.py
index 3215bd6..1cc1699 100644
--- a/pddl/_validation.py
+++ b/pddl/_validation.py
@@ -326,7 +326,7 @@ class Functions:
         skip_checks: bool = False,
     ) -> None:
         """Initialize the Functions object."""
-        self._functions = ensure(functions, dict())
+        self._functions = dict(ensure(functions, dict()))
         self._all_function = self._get_all_functions()
 
         if not skip_checks:
-- 
2.43.0


From cbafb983c3a98bb1ca76e195a0d690f28041e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 29/34] fix: reject an empty string as the supertype of a
 declared type

---
 pddl/custom_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pddl/custom_types.py b/pddl/custom_types.py
index 1c9e8cf..a1726cc 100644
--- a/pddl/custom_types.py
+++ b/pddl/custom_types.py
@@ -109,7 +109,9 @@ def to_type(names: Collection[namelike]) -> List[name]:
 def to_types(names: Dict[namelike, Optional[namelike]]) -> Dict[name, Optional[name]]:
     """From name-like dictionary to name dictionary."""
     return {
-        parse_type(type_): parse_type(ancestor) if ancestor else None
+        parse_type(type_): (
+            parse_type(ancestor) if ancestor is not None else None
+        )
         for type_, ancestor in names.items()
     }
 
-- 
2.43.0


From be5d1ef665a11fe9b202c0e2e5bad4686c74527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:51 +0000
Subject: [PATCH 30/34] fix: keep the parameters of a declared total-cost
 function

---
 pddl/parser/domain.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 44331e5..77abbda 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -450,7 +450,6 @@ class DomainTransformer(Transformer[Any, Domain]):
         if args[1] == Symbols.TOTAL_COST.value:
             if not bool({Requirements.ACTION_COSTS}):
                 raise PDDLMissingRequirementError(Requirements.ACTION_COSTS)
-            return NumericFunction("total-cost")
         function_name = args[1]
         variables = self._formula_skeleton(args)
         return NumericFunction(function_name, *variables)
-- 
2.43.0


From 2b2beb42a4e6ded566e1f15727b48d9b1961f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:53 +0000
Subject: [PATCH 31/34] fix: keep the line endings of the type tag updater as
 they were

---
 pddl/parser/_update_type_tags.py | 296 +++++++++++++++----------------
 1 file changed, 148 insertions(+), 148 deletions(-)

diff --git a/pddl/parser/_update_type_tags.py b/pddl/parser/_update_type_tags.py
index dff6834..0412595 100644
--- a/pddl/parser/_update_type_tags.py
+++ b/pddl/parser/_update_type_tags.py
@@ -1,148 +1,148 @@
-#
-# Copyright 2021-2025 WhiteMech
-#
-# ------------------------------
-#
-# This file is part of pddl.
-#
-# Use of this source code is governed by an MIT-style
-# license that can be found in the LICENSE file or at
-# https://opensource.org/licenses/MIT.
-#
-
-"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
-
-import copy
-from functools import singledispatch
-from typing import FrozenSet, Mapping, Optional
-
-from pddl.custom_types import namelike
-from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
-from pddl.logic.effects import Forall, When
-from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
-from pddl.logic.predicates import EqualTo as EqualToPredicate
-from pddl.logic.predicates import Predicate
-from pddl.logic.terms import Term, Variable
-
-
-def update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    """Update type tags of variables in a formula."""
-    return _update_type_tags(formula, var_to_types)
-
-
-@singledispatch
-def _update_type_tags(
-    formula: Formula,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_op(
-    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-@_update_type_tags.register
-def _update_type_tags_unary_op(
-    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operand = _update_type_tags(formula.argument, var_to_types)
-    return formula.__class__(new_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_quantified_condition(
-    formula: QuantifiedCondition,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_operand = _update_type_tags(formula.condition, new_var_to_types)
-    return formula.__class__(new_operand, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_when(
-    formula: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_condition = _update_type_tags(formula.condition, var_to_types)
-    new_effect = _update_type_tags(formula.effect, var_to_types)
-    return When(new_condition, new_effect)
-
-
-@_update_type_tags.register
-def _update_type_tags_forall(
-    formula: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_var_to_types = dict(copy.copy(var_to_types))
-    for var in formula.variables:
-        new_var_to_types[var.name] = frozenset(var.type_tags)
-    new_effect = _update_type_tags(formula.effect, new_var_to_types)
-    return Forall(new_effect, list(formula.variables))
-
-
-@_update_type_tags.register
-def _update_type_tags_equal_to_predicate(
-    formula: EqualToPredicate,
-    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
-):
-    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
-    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
-    return EqualToPredicate(left_operand, right_operand)
-
-
-@_update_type_tags.register
-def _update_type_tags_predicate(
-    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return Predicate(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_function(
-    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_terms = []
-    for term in formula.terms:
-        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
-    return NumericFunction(formula.name, *new_terms)
-
-
-@_update_type_tags.register
-def _update_type_tags_numeric_value(
-    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    return copy.copy(formula)
-
-
-@_update_type_tags.register
-def _update_type_tags_binary_function(
-    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-):
-    new_operands = []
-    for operand in formula.operands:
-        new_operand = _update_type_tags(operand, var_to_types)
-        new_operands.append(new_operand)
-    return formula.__class__(*new_operands)
-
-
-def _replace_term_with_type_tags_if_var(
-    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
-) -> Term:
-    if isinstance(term, Variable) and term.name in var_to_types:
-        return term.with_type_tags(var_to_types[term.name])
-    return term
+#
+# Copyright 2021-2025 WhiteMech
+#
+# ------------------------------
+#
+# This file is part of pddl.
+#
+# Use of this source code is governed by an MIT-style
+# license that can be found in the LICENSE file or at
+# https://opensource.org/licenses/MIT.
+#
+
+"""This module contains a utility function to propagate type tags of variables correctly along the formula."""
+
+import copy
+from functools import singledispatch
+from typing import FrozenSet, Mapping, Optional
+
+from pddl.custom_types import namelike
+from pddl.logic.base import BinaryOp, Formula, QuantifiedCondition, UnaryOp
+from pddl.logic.effects import Forall, When
+from pddl.logic.functions import BinaryFunction, NumericFunction, NumericValue
+from pddl.logic.predicates import EqualTo as EqualToPredicate
+from pddl.logic.predicates import Predicate
+from pddl.logic.terms import Term, Variable
+
+
+def update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    """Update type tags of variables in a formula."""
+    return _update_type_tags(formula, var_to_types)
+
+
+@singledispatch
+def _update_type_tags(
+    formula: Formula,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    raise NotImplementedError(f"Formula of type {type(formula)} cannot be processed.")
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_op(
+    formula: BinaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+@_update_type_tags.register
+def _update_type_tags_unary_op(
+    formula: UnaryOp, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operand = _update_type_tags(formula.argument, var_to_types)
+    return formula.__class__(new_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_quantified_condition(
+    formula: QuantifiedCondition,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_operand = _update_type_tags(formula.condition, new_var_to_types)
+    return formula.__class__(new_operand, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_when(
+    formula: When, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_condition = _update_type_tags(formula.condition, var_to_types)
+    new_effect = _update_type_tags(formula.effect, var_to_types)
+    return When(new_condition, new_effect)
+
+
+@_update_type_tags.register
+def _update_type_tags_forall(
+    formula: Forall, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_var_to_types = dict(copy.copy(var_to_types))
+    for var in formula.variables:
+        new_var_to_types[var.name] = frozenset(var.type_tags)
+    new_effect = _update_type_tags(formula.effect, new_var_to_types)
+    return Forall(new_effect, list(formula.variables))
+
+
+@_update_type_tags.register
+def _update_type_tags_equal_to_predicate(
+    formula: EqualToPredicate,
+    var_to_types: Mapping[str, Optional[FrozenSet[namelike]]],
+):
+    left_operand = _replace_term_with_type_tags_if_var(formula.left, var_to_types)
+    right_operand = _replace_term_with_type_tags_if_var(formula.right, var_to_types)
+    return EqualToPredicate(left_operand, right_operand)
+
+
+@_update_type_tags.register
+def _update_type_tags_predicate(
+    formula: Predicate, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return Predicate(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_function(
+    formula: NumericFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_terms = []
+    for term in formula.terms:
+        new_terms.append(_replace_term_with_type_tags_if_var(term, var_to_types))
+    return NumericFunction(formula.name, *new_terms)
+
+
+@_update_type_tags.register
+def _update_type_tags_numeric_value(
+    formula: NumericValue, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    return copy.copy(formula)
+
+
+@_update_type_tags.register
+def _update_type_tags_binary_function(
+    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+):
+    new_operands = []
+    for operand in formula.operands:
+        new_operand = _update_type_tags(operand, var_to_types)
+        new_operands.append(new_operand)
+    return formula.__class__(*new_operands)
+
+
+def _replace_term_with_type_tags_if_var(
+    term: Term, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]
+) -> Term:
+    if isinstance(term, Variable) and term.name in var_to_types:
+        return term.with_type_tags(var_to_types[term.name])
+    return term
-- 
2.43.0


From 560932c01f1376ecb6a8a2027dc09e79bb111fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 32/34] fix: reject a number with several dots while reading it

---
 pddl/parser/grammar.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/grammar.lark b/pddl/parser/grammar.lark
index fba473c..6d4271f 100644
--- a/pddl/parser/grammar.lark
+++ b/pddl/parser/grammar.lark
@@ -211,7 +211,7 @@ DECREASE: "decrease"
 MAXIMIZE: "maximize"
 MINIMIZE: "minimize"
 TOTAL_COST: "total-cost"
-NUMBER: /[0-9]+(\.[0-9]+)*/
+NUMBER: /[0-9]+(\.[0-9]+)?/
 
 // available requirements
 STRIPS: ":strips"
-- 
2.43.0


From 8479c5406b8cdc2904cf39c0fc8e9186b694579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 33/34] fix: report a repeated function as a parsing error

---
 pddl/parser/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pddl/parser/domain.py b/pddl/parser/domain.py
index 77abbda..f7aad59 100644
--- a/pddl/parser/domain.py
+++ b/pddl/parser/domain.py
@@ -516,7 +516,7 @@ class DomainTransformer(Transformer[Any, Domain]):
 
     def _raise_typed_list_parsing_error(self, args, exception) -> PDDLParsingError:
         string_list = [
-            str(arg) if isinstance(arg, str) else list(map(str, arg)) for arg in args
+            list(map(str, arg)) if isinstance(arg, list) else str(arg) for arg in args
         ]
         return PDDLParsingError(
             f"error while parsing tokens {string_list}: {str(exception)}"
-- 
2.43.0


From a1090ce266088bffe8ae507718dffbc94a92353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 34/34] fix: leave a problem as it was if the domain it is
 given does not fit

---
 pddl/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pddl/core.py b/pddl/core.py
index 87fb7ef..d99ddd8 100644
--- a/pddl/core.py
+++ b/pddl/core.py
@@ -321,9 +321,14 @@ class Problem:
     @domain.setter
     def domain(self, domain: Domain) -> None:
         """Set the domain."""
-        self._domain_name = domain.name
-        self._domain = domain
-        self._check_consistency()
+        previous = self._domain_name, self._domain
+        self._domain_name, self._domain = domain.name, domain
+        try:
+            self._check_consistency()
+        except Exception:
+            # a rejected domain leaves the problem as it was
+            self._domain_name, self._domain = previous
+            raise
 
     @property
     def domain_name(self) -> name_type:
-- 
2.43.0

