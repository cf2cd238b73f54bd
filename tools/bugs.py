"""Planted bugs: edits of /repo's source, each with a demonstration."""

PRELUDE = '''import copy, os, pickle, subprocess, sys, tempfile
from pddl.action import Action
from pddl.core import Domain, Plan, Problem
from pddl.exceptions import PDDLError, PDDLValidationError
from pddl.logic.base import And, ExistsCondition, ForallCondition, Imply, Not, OneOf, Or
from pddl.logic.effects import Forall, When
from pddl.logic.functions import (Assign, Decrease, Divide, GreaterThan, Increase, LesserThan, Metric, Minus,
                                  NumericFunction, NumericValue, Plus, Times)
from pddl.logic.functions import EqualTo as FEqualTo
from pddl.logic.predicates import DerivedPredicate, EqualTo, Predicate
from pddl.logic.terms import Constant, Variable
from pddl.parser.domain import DomainParser
from pddl.parser.plan import PlanParser
from pddl.parser.problem import ProblemParser
from pddl.requirements import Requirements


def accepts(fn, *a, **k):
    try:
        fn(*a, **k)
        return True
    except Exception as e:
        print("rejected:", type(e).__name__, e)
        return False


def fails_validation(fn, *a, **k):
    try:
        fn(*a, **k)
        return False
    except PDDLValidationError:
        return True


P, Q = Predicate("p"), Predicate("q")
'''

BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


F, V, C, B = "pddl/formatter.py", "pddl/_validation.py", "pddl/core.py", "pddl/logic/base.py"
FN, PR, TM, AC = "pddl/logic/functions.py", "pddl/logic/predicates.py", "pddl/logic/terms.py", "pddl/action.py"
PD, PP, PL, TL = "pddl/parser/domain.py", "pddl/parser/problem.py", "pddl/parser/plan.py", "pddl/parser/typed_list_parser.py"
UT, PB, HB, HC = "pddl/parser/_update_type_tags.py", "pddl/parser/base.py", "pddl/helpers/base.py", "pddl/helpers/cache_hash.py"
CT, RQ, SY, MN, GR = "pddl/custom_types.py", "pddl/requirements.py", "pddl/parser/symbols.py", "pddl/__main__.py", "pddl/parser/grammar.lark"
EF = "pddl/logic/effects.py"

# ---------------------------------------------------------------- C01
bug("c01-empty-effect", "C01",
    [(AC, "        if self.effect is not None:\n            operator_str", "        if self.effect is not None and self.effect != And():\n            operator_str"),
     (AC, "from pddl.logic.base import Formula\n", "from pddl.logic.base import And, Formula\n")],
    "an action whose effect is the empty conjunction", "the empty effect is not printed, so it is parsed back as an absent effect",
    '''
d = Domain("d", actions=[Action("a", [], precondition=P, effect=And())], predicates=[P])
assert DomainParser()(str(d)) == d, str(d)
''')
bug("c01-either-in-predicate", "C01",
    [(F, "                    result += f\" ?{t.name} - (either {' '.join(sorted(t.type_tags))})\"\n",
         "                    result += f\" ?{t.name} - (either {' '.join(sorted(t.type_tags)[:2])})\"\n")],
    "a predicate with a parameter of three types", "only two types of a parameter are printed in the predicates section",
    '''
d = Domain("d", requirements=[Requirements.TYPING], types={"t1": None, "t2": None, "t3": None},
           predicates=[Predicate("p", Variable("x", {"t1", "t2", "t3"}))])
assert DomainParser()(str(d)) == d, str(d)
''')




# ---------------------------------------------------------------- C02
bug("c02-value-digits", "C02",
    [(FN, "        return str(self._value)\n", '        return f"{self._value:g}" if isinstance(self._value, float) else str(self._value)\n')],
    "an initial value with more than six significant digits", "the printed value is rounded",
    '''
f = NumericFunction("f")
p = Problem("p", domain_name="d", init=[FEqualTo(f, NumericValue(1234.5678))], goal=P)
assert ProblemParser()(str(p)) == p, str(p)
''')
bug("c02-untyped-objects", "C02",
    [(F, '        result += " ".join(sorted(to_string(n) for n in names_with_none_types))\n',
         '        if prefix != "(:objects" or len(names_by_obj) != 1:\n            result += " ".join(sorted(to_string(n) for n in names_with_none_types))\n')],
    "a problem with typed objects of one type and untyped objects together", "the untyped objects are not printed",
    '''
p = Problem("p", domain_name="d", objects=[Constant("a", "t"), Constant("b")], goal=P)
assert ProblemParser()(str(p)) == p, str(p)
''')

bug("c02-metric-direction", "C02",
    [(FN, '        return f"{self.optimization} {self.expression}"\n',
          '        if isinstance(self.expression, NumericValue):\n            return f"{self.MINIMIZE} {self.expression}"\n        return f"{self.optimization} {self.expression}"\n')],
    "a metric that maximizes a number", "the direction is lost in print",
    '''
p = Problem("p", domain_name="d", goal=P, metric=Metric(NumericValue(3), Metric.MAXIMIZE))
assert ProblemParser()(str(p)) == p, str(p)
''')

# ---------------------------------------------------------------- C03
bug("c03-eq-order", "C03",
    [(C, "        return isinstance(other, Plan) and self._actions == other._actions\n",
         "        return isinstance(other, Plan) and sorted(map(str, self._actions)) == sorted(\n            map(str, other._actions)\n        )\n")],
    "two plans with the same steps in another order", "the plans are equal",
    '''
a, b = ("a", [Constant("x")]), ("b", [Constant("x")])
assert Plan([a, b]) != Plan([b, a])
assert Plan([a, b]) == Plan([a, b])
''')

bug("c03-lower", "C03",
    [(PL, "        parameters = [Constant(str(param)) for param in parameters]\n        return (action_name, parameters)\n",
          "        parameters = [Constant(str(param).lower()) for param in parameters]\n        return (action_name, parameters)\n")],
    "a plan with an upper-case argument", "arguments lose their case",
    '''
p = PlanParser()("(move A b)")
assert p.actions[0][1][0].name == "A", p
''')
bug("c03-str-repeat", "C03",
    [(C, '        return "\\n".join(actions)\n', '        return "\\n".join(dict.fromkeys(actions))\n')],
    "a plan with the same step twice", "repeated steps are printed once",
    '''
p = PlanParser()("(a x) (b) (a x)")
assert PlanParser()(str(p)) == p and str(p).count("(a x)") == 2, str(p)
''')

# ---------------------------------------------------------------- C04
bug("c04-repeated-variable", "C04",
    [(TL, "        return tuple(self._item_to_types_sequence)\n", "        return tuple(self._item_to_types.items())\n")],
    "a predicate signature that names a variable twice", "the repeated parameter is dropped and the arity changes",
    '''
d = DomainParser()("(define (domain d) (:predicates (p ?x ?x)))")
assert next(iter(d.predicates)).arity == 2, d
''')
bug("c04-untyped-repeat", "C04",
    [(TL, "        if item_name in self._item_to_types:\n            previous_type_tags = self._item_to_types[item_name]\n            if previous_type_tags != type_tags:",
          "        if item_name in self._item_to_types:\n            previous_type_tags = self._item_to_types[item_name]\n            if type_tags and previous_type_tags != type_tags:")],
    "a variable repeated first with a type and then without", "the inconsistent repetition is accepted",
    '''
ok = accepts(DomainParser(), "(define (domain d) (:requirements :typing) (:types t) (:predicates (p ?x ?y - t)) (:action a :parameters (?x - t ?y - t ?x)))")
assert not ok
''')
bug("c04-object-case", "C04",
    [(PD, "            if types_definition[k] == Symbols.OBJECT.value:\n", "            if str(types_definition[k]).lower() == Symbols.OBJECT.value:\n")],
    "a declared supertype called Object", "the written supertype is replaced by the root type",
    '''
d = DomainParser()("(define (domain d) (:requirements :typing) (:types a - Object Object - b))")
assert d.types["a"] == "Object", d.types
''')
bug("c04-trailing-untyped", "C04",
    [(TL, "        if start_index != end_index:\n", "        if start_index + 1 < end_index:\n")],
    "a typed list with exactly one untyped item at the end", "the last item is dropped",
    '''
d = DomainParser()("(define (domain d) (:requirements :typing) (:types t) (:constants a - t b))")
assert {c.name for c in d.constants} == {"a", "b"}, d
''')

# ---------------------------------------------------------------- C05
bug("c05-empty-condition", "C05",
    [(PD, "            return When(args[2], args[3])\n",
          "            return When(args[2], args[3]) if args[2] != And() else args[3]\n")],
    "a conditional effect with an empty condition", "the condition is dropped",
    '''
d = DomainParser()("(define (domain d) (:requirements :conditional-effects) (:predicates (p)) (:action a :parameters () :effect (when (and) (p))))")
assert next(iter(d.actions)).effect == When(And(), P), next(iter(d.actions)).effect
''')

bug("c05-oneof-merge", "C05",
    [(PD, "            return OneOf(*args[2:-1])\n", "            return OneOf(*dict.fromkeys(args[2:-1]))\n")],
    "a nondeterministic effect with the same outcome twice", "the repeated outcome is dropped",
    '''
d = DomainParser()("(define (domain d) (:requirements :non-deterministic) (:action a :parameters () :effect (oneof (p) (q) (p))))")
assert next(iter(d.actions)).effect.operands == (P, Q, P), d
''')
bug("c05-imply-chain", "C05",
    [(PD, "        return Imply(args[2], args[3])\n",
          "        if isinstance(args[3], Imply):\n            return Imply(And(args[2], args[3].operands[0]), args[3].operands[1])\n        return Imply(args[2], args[3])\n")],
    "an implication as the consequence of another", "the nested implication is rewritten",
    '''
d = DomainParser()("(define (domain d) (:requirements :adl) (:action a :parameters () :precondition (imply (p) (imply (q) (p)))))")
assert next(iter(d.actions)).precondition == Imply(P, Imply(Q, P)), d
''')
bug("c05-double-negation", "C05",
    [(PD, '        return Not(args[2])\n\n    def gd_and', '        return args[2].argument if isinstance(args[2], Not) else Not(args[2])\n\n    def gd_and')],
    "a negated negation", "the two negations are dropped",
    '''
d = DomainParser()("(define (domain d) (:requirements :adl) (:action a :parameters () :precondition (not (not (p)))))")
assert next(iter(d.actions)).precondition == Not(Not(P)), d
''')

# ---------------------------------------------------------------- C06
bug("c06-shadow", "C06",
    [(UT, "    for var in formula.variables:\n        new_var_to_types[var.name] = frozenset(var.type_tags)\n    new_operand",
          "    for var in formula.variables:\n        if var.type_tags or var.name not in new_var_to_types:\n            new_var_to_types[var.name] = frozenset(var.type_tags)\n    new_operand")],
    "a quantifier that declares again, without a type, a variable of an enclosing quantifier with a type", "the inner occurrences get the outer types",
    '''
d = DomainParser()("""(define (domain d) (:requirements :adl) (:types s t) (:predicates (p ?x - s) (q ?x))
 (:action a :parameters () :precondition (forall (?x - s) (and (p ?x) (exists (?x) (q ?x))))))""")
pre = next(iter(d.actions)).precondition
inner = pre.condition.operands[1].condition
assert inner.terms[0].type_tags == set(), inner.terms[0].type_tags
''')

bug("c06-second-either", "C06",
    [(PD, "                    current_var_to_types[term.name] = frozenset(\n                        predicate_def.terms[idx].type_tags\n                    )",
          "                    current_var_to_types[term.name] = frozenset(\n                        sorted(predicate_def.terms[idx].type_tags)[:1]\n                    )")],
    "an untyped derived-predicate argument at a position declared with an either type", "the argument gets only one of the declared types",
    '''
d = DomainParser()("""(define (domain d) (:requirements :typing :derived-predicates) (:types s t) (:predicates (p ?x - (either s t)) (q ?x))
 (:derived (p ?x) (q ?x)))""")
dp = next(iter(d.derived_predicates))
assert dp.predicate.terms[0].type_tags == {"s", "t"} == dp.condition.terms[0].type_tags
''')
bug("c06-equality-right", "C06",
    [(UT, "    return EqualToPredicate(left_operand, right_operand)", "    if formula.right == formula.left:\n        right_operand = left_operand\n    elif isinstance(formula.left, Variable):\n        right_operand = formula.right\n    return EqualToPredicate(left_operand, right_operand)")],
    "an equality between two different quantified variables", "the right variable keeps no types",
    '''
d = DomainParser()("""(define (domain d) (:requirements :adl) (:types t)
 (:action a :parameters () :precondition (forall (?x ?y - t) (= ?x ?y))))""")
eq = next(iter(d.actions)).precondition.condition
assert eq.right.type_tags == {"t"}, eq.right.type_tags
''')

# ---------------------------------------------------------------- C07
bug("c07-big-int", "C07",
    [(PD, '        return float(n) if "." in n else int(n)\n', '        return float(n) if "." in n else int(float(n))\n')],
    "an integer above 2**53", "the written value is rounded",
    '''
p = ProblemParser()("(define (problem p) (:domain d) (:init (= (f) 9007199254740993)) (:goal (p)))")
assert next(iter(p.init)).operands[1].value == 9007199254740993, p
''')
bug("c07-object-case", "C07",
    [(PP, "            name: Constant(name, type_tag=type_) for name, type_ in object_names.items()\n        }\n        return \"objects\", list(self._objects_by_name.values())",
          "            name: Constant(name, type_tag=type_) for name, type_ in object_names.items()\n        }\n        self._objects_by_name.update(\n            {name.lower(): obj for name, obj in self._objects_by_name.items()}\n        )\n        return \"objects\", list(self._objects_by_name.values())")],
    "two objects whose names differ only by letter case, one of them lower-case", "the lower-case object may be replaced by the other one",
    '''
p = ProblemParser()("(define (problem p) (:domain d) (:objects a - s A - t) (:init (q a)) (:goal (p)))")
o = next(iter(p.init)).terms[0]
assert o.name == "a" and o.type_tag == "s", (o, o.type_tag)
assert {c.name for c in p.objects} == {"a", "A"}
''')
bug("c07-negative-number", "C07",
    [(PP, "                return FunctionEqualTo(args[2], NumericValue(args[3]))\n            else:", "                return FunctionEqualTo(args[2], NumericValue(args[3] or 0))\n            else:"),
     (PP, "                return NumericValue(self.num_literal(args))\n" if False else "        if len(args) == 1:\n            return args[0]\n        elif args[1] == Symbols.NOT.value:\n            return Not(args[2])", "        if len(args) == 1:\n            return args[0]\n        elif args[1] == Symbols.NOT.value:\n            if not args[2].terms:\n                return args[2]\n            return Not(args[2])")],
    "a negated atom without arguments in the initial state", "the negation is dropped",
    '''
p = ProblemParser()("(define (problem p) (:domain d) (:init (not (q))) (:goal (p)))")
assert set(p.init) == {Not(Q)}, p
''')

# ---------------------------------------------------------------- C08
bug("c08-empty-operand", "C08",
    [(B, "        if not isinstance(element, cls):\n", "        if isinstance(element, (And, Or)) and len(element.operands) == 0:\n            continue\n        if not isinstance(element, cls):\n")],
    "a conjunction with an empty disjunction (or the reverse) among its operands", "false disappears from a conjunction and true from a disjunction",
    '''
assert And(P, Or()) != P and Or() in And(P, Or()).operands, And(P, Or())
assert And() in Or(P, And()).operands
''')
bug("c08-implies-chain", "C08",
    [(B, "        return Or(Not(self), other)\n", "        return Or(Not(self) if not isinstance(self, Not) else self.argument, other)\n" if False else "        if isinstance(self, Or):\n            return Or(*(Not(op) for op in self.operands), other)\n        return Or(Not(self), other)\n")],
    "an implication from a disjunction, built with the >> operator", "the negation of the disjunction is taken for a disjunction of negations",
    '''
f = Or(P, Q) >> Predicate("r")
assert f == Or(Not(Or(P, Q)), Predicate("r")), f
''')
bug("c08-text-merge", "C08",
    [(B, "    seen = set()\n    new_operands = []\n", "    seen: set = set()\n    if idempotency:\n        old_operands = list({str(op): op for op in old_operands}.values())\n    new_operands = []\n")],
    "two atoms of variables with one name and different types in one conjunction", "one of the two atoms is dropped",
    '''
a, b = Predicate("p", Variable("x", {"s"})), Predicate("p", Variable("x", {"t"}))
f = And(a, b, Q)
assert set(f.operands) == {a, b, Q}, [t.type_tags for o in f.operands for t in getattr(o, "terms", ())]
''')

# ---------------------------------------------------------------- C09
bug("c09-instantiate-merge", "C09",
    [(FN, "            *(cast(FunctionExpression, op.instantiate(mapping)) for op in self.operands)\n",
          "            *dict.fromkeys(\n                cast(FunctionExpression, op.instantiate(mapping)) for op in self.operands\n            )\n")],
    "an expression of two fluents that instantiation makes equal", "the equal operands are merged",
    '''
x, y, a = Variable("x"), Variable("y"), Constant("a")
e = Plus(NumericFunction("f", x), NumericFunction("f", y))
assert e.instantiate({x: a, y: a}) == Plus(NumericFunction("f", a), NumericFunction("f", a)), e.instantiate({x: a, y: a})
''')
bug("c09-times-flat", "C09",
    [(B, "        if not isinstance(element, cls):\n", "        if not isinstance(element, cls) and not (\n            not cls.idempotency and len(new_operands) == 0 and len(getattr(element, 'operands', ())) == 2\n            and getattr(cls, 'SYMBOL', None) is Symbols.TIMES and element.SYMBOL is Symbols.DIVIDE\n            and len(seen) == 0 and stack\n        ):\n")],
    "a product whose first operand is a quotient", "the quotient is read as a product of its operands",
    '''
f, g, h = (NumericFunction(n) for n in "fgh")
assert Times(Divide(f, g), h).operands == (Divide(f, g), h), Times(Divide(f, g), h)
''')
bug("c09-metric-minus", "C09",
    [(PP, "        if args[1] == Symbols.MINUS.value:\n            op = Minus\n", "        if args[1] == Symbols.MINUS.value:\n            op = Minus\n            if len(args) == 5 and isinstance(args[2], Minus):\n                return Minus(args[2].operands[0], Plus(*args[2].operands[1:], args[3]))\n")],
    "a metric with a unary minus as the first operand of a difference", "-a-b becomes a-b",
    '''
p = ProblemParser()("(define (problem p) (:domain d) (:init) (:goal (p)) (:metric minimize (- (- (f)) (g))))")
f, g = NumericFunction("f"), NumericFunction("g")
assert p.metric.expression == Minus(Minus(f), g), p.metric
''')

# ---------------------------------------------------------------- C10
bug("c10-equality", "C10",
    [(PR, "        if isinstance(self._right, Variable) and self._right in mapping:\n", "        if isinstance(self._right, Variable) and self._right in mapping and self._right != self._left:\n")],
    "an equality between a parameter and itself", "only the left side is replaced",
    '''
x, y, a, b = Variable("x"), Variable("y"), Constant("a"), Constant("b")
assert EqualTo(x, y).instantiate({x: a, y: b}) == EqualTo(a, b), EqualTo(x, y).instantiate({x: a, y: b})
assert EqualTo(x, x).instantiate({x: a, y: b}) == EqualTo(a, a), EqualTo(x, x).instantiate({x: a, y: b})
''')

bug("c10-chain", "C10",
    [(PR, "                instantiated_terms.append(mapping[term])\n", "                replacement = mapping[term]\n                instantiated_terms.append(mapping.get(replacement, replacement))\n")],
    "parameters that are replaced by other parameters of the same action", "the replacement is replaced again",
    '''
x, y = Variable("x"), Variable("y")
a = Action("a", [x, y], precondition=Predicate("p", x, y), effect=None)
b = a.instantiate([y, x])
assert b.precondition == Predicate("p", y, x), b
''')
bug("c10-numeric-value-terms", "C10",
    [(FN, "            if isinstance(term, Variable) and term in mapping:\n                # Instantiate the variable\n                instantiated_terms.append(mapping[term])\n            else:\n                # The function",
          "            if isinstance(term, Variable) and term in mapping and term not in instantiated_terms:\n                # Instantiate the variable\n                instantiated_terms.append(mapping[term])\n            else:\n                # The function")],
    "a numeric function over two parameters that swap places", "the second parameter is not replaced",
    '''
x, y = Variable("x"), Variable("y")
f = NumericFunction("f", x, y)
assert f.instantiate({x: y, y: x}) == NumericFunction("f", y, x), f.instantiate({x: y, y: x})
''')

# ---------------------------------------------------------------- C11
bug("c11-arity", "C11",
    [(C, "                len(parameters) == len(name_to_schema[action_name].parameters),\n", "                len(parameters) == len(set(name_to_schema[action_name].parameters)),\n")],
    "an action with the same parameter twice", "the number of arguments that is demanded is wrong",
    '''
x = Variable("x")
a = Action("a", [x, x], precondition=Predicate("p", x))
d = Domain("d", predicates=[Predicate("p", x)], actions=[a], constants=[Constant("c")])
pb = Problem("p", domain=d, goal=P)
assert accepts(Plan([("a", [Constant("c")] * 2)]).check, d, pb)
assert not accepts(Plan([("a", [Constant("c")])]).check, d, pb)
''')
bug("c11-first-step", "C11",
    [(C, "        for action_name, parameters in self._actions:\n            action = self._action_to_string(action_name, parameters)\n",
         "        checked = set()\n        for action_name, parameters in self._actions:\n            if (action_name, len(parameters)) in checked:\n                continue\n            checked.add((action_name, len(parameters)))\n            action = self._action_to_string(action_name, parameters)\n")],
    "a plan whose second step with an action uses an unknown object", "later steps of the same action are not checked",
    '''
x = Variable("x")
d = Domain("d", predicates=[Predicate("p", x)], actions=[Action("a", [x], precondition=Predicate("p", x))])
pb = Problem("p", domain=d, objects=[Constant("o")], goal=P)
assert accepts(Plan([("a", [Constant("o")])]).check, d, pb)
assert not accepts(Plan([("a", [Constant("o")]), ("a", [Constant("u")])]).check, d, pb)
''')
bug("c11-constants", "C11",
    [(C, "        all_objects = problem.objects | domain.constants\n", "        all_objects = problem.objects or domain.constants\n")],
    "a plan over constants of the domain and objects of the problem together", "constants are unknown when the problem has objects",
    '''
x = Variable("x")
d = Domain("d", predicates=[Predicate("p", x)], constants=[Constant("c")], actions=[Action("a", [x], precondition=Predicate("p", x))])
pb = Problem("p", domain=d, objects=[Constant("o")], goal=P)
assert accepts(Plan([("a", [Constant("o")]), ("a", [Constant("c")])]).check, d, pb)
''')

# ---------------------------------------------------------------- C12
bug("c12-self-loop", "C12",
    [(V, "                key: {value} if value is not None else set()\n", "                key: {value} if value is not None and value != key else set()\n")],
    "a type that is its own supertype", "the cycle of length one is accepted",
    '''
assert fails_validation(Domain, "d", requirements=[Requirements.TYPING], types={"a": "a"})
assert fails_validation(Domain, "d", requirements=[Requirements.TYPING], types={"b": None, "a": "a"})
''')
bug("c12-visited", "C12",
    [(HB, "                if current in path:\n                    return path\n", "                if path and current == path[0]:\n                    return path\n                if current in visited:\n                    continue\n")],
    "a cycle that does not contain the type it is first reached from", "the cycle is not found",
    '''
assert fails_validation(Domain, "d", requirements=[Requirements.TYPING], types={"a": "b", "b": "c", "c": "b"})
''')
bug("c12-object-supertype", "C12",
    [(V, "        if object_name in type_dict and type_dict[object_name] is not None:\n", "        if object_name in type_dict and type_dict[object_name] not in (None, *type_dict):\n")],
    "'object' declared below a type that is itself declared", "object gets a supertype",
    '''
assert fails_validation(Domain, "d", requirements=[Requirements.TYPING], types={"object": "a", "a": None})
''')


# ---------------------------------------------------------------- C13
bug("c13-when-condition", "C13",
    [(V, "        self.check_type(effect.condition)\n        self.check_type(effect.effect)\n", "        self.check_type(effect.effect)\n")],
    "an undeclared type only in the condition of a conditional effect", "the undeclared type is accepted",
    '''
x = Variable("x", {"u"})
a = Action("a", [], effect=When(ForallCondition(Predicate("p", x), [x]), Q))
assert fails_validation(Domain, "d", requirements=[Requirements.ADL], types={"t": None}, actions=[a])
''')
bug("c13-quantified", "C13",
    [(V, "        \"\"\"Check types annotations of a PDDL quantified condition.\"\"\"\n        self.check_type(formula.variables)\n", "        \"\"\"Check types annotations of a PDDL quantified condition.\"\"\"\n")],
    "a quantifier over an undeclared type whose variable is not used", "the undeclared type is accepted",
    '''
x = Variable("x", {"u"})
a = Action("a", [], precondition=ForallCondition(Q, [x]))
assert fails_validation(Domain, "d", requirements=[Requirements.ADL], types={"t": None}, actions=[a])
''')
bug("c13-typing-cache", "C13",
    [(V, "        if not self.has_typing and len(type_tags) > 0:\n", "        if len(type_tags) == 1 and not self.has_typing:\n")],
    "an either type in a domain without typing", "the types are accepted without the requirement",
    '''
x = Variable("x", {"s", "t"})
assert fails_validation(Domain, "d", requirements=[Requirements.STRIPS], types={"s": None, "t": None}, predicates=[Predicate("p", x)])
''')

# ---------------------------------------------------------------- C14
bug("c14-init", "C14",
    [(C, "        type_checker.check_type(self.init)\n", "        type_checker.check_type([f for f in self.init if not isinstance(f, Not)])\n"),
     (C, "from pddl.logic.base import And, Formula, is_literal\n", "from pddl.logic.base import And, Formula, Not, is_literal\n")],
    "an undeclared type in a negative initial literal", "the type is not checked",
    '''
d = Domain("d", requirements=[Requirements.TYPING], types={"t": None})
pb = Problem("p", domain_name="d", init=[Not(Predicate("p", Constant("c", "u")))], goal=P)
assert not accepts(pb.check, d)
''')
bug("c14-requirements", "C14",
    [(C, "            self._requirements is None or self._requirements <= domain.requirements,\n", "            not self._requirements or not (self._requirements - domain.requirements) or Requirements.ADL in domain.requirements,\n")],
    "a problem that states more requirements than an :adl domain", "the extra requirement is accepted",
    '''
d = Domain("d", requirements=[Requirements.ADL])
pb = Problem("p", domain_name="d", requirements=[Requirements.ACTION_COSTS], goal=P)
assert not accepts(pb.check, d)
''')
bug("c14-literal", "C14",
    [(B, "        or isinstance(formula, Not)\n        and isinstance(formula.argument, Atomic)\n", "        or isinstance(formula, Not)\n        and is_literal(formula.argument)\n")],
    "a double negation in the initial state", "a formula that is not a literal is accepted",
    '''
assert not accepts(Problem, "p", domain_name="d", init=[Not(Not(P))], goal=P)
assert accepts(Problem, "p", domain_name="d", init=[Not(P)], goal=P)
''')

# ---------------------------------------------------------------- C15
bug("c15-quantifier-swap", "C15",
    [(PD, "            {req, Requirements.QUANTIFIED_PRECONDITION, Requirements.ADL}\n            & self._extended_requirements\n        ):\n            raise PDDLMissingRequirementError(req)",
          "            {req, *Requirements.quantified_precondition_requirements(), Requirements.ADL}\n            & self._extended_requirements\n        ):\n            raise PDDLMissingRequirementError(req)")],
    "an existential condition in a domain with only universal preconditions (or the reverse)", "the wrong requirement allows the quantifier",
    '''
t = "(define (domain d) (:requirements %s) (:action a :parameters () :precondition (exists (?x) (p ?x))))"
assert accepts(DomainParser(), t % ":existential-preconditions")
assert not accepts(DomainParser(), t % ":universal-preconditions")
''')
bug("c15-imply-empty", "C15",
    [(PD, "            raise PDDLMissingRequirementError(Requirements.DIS_PRECONDITION)\n        return Imply(args[2], args[3])\n",
          "            if args[2] == And():\n                return args[3]\n            raise PDDLMissingRequirementError(Requirements.DIS_PRECONDITION)\n        return Imply(args[2], args[3])\n")],
    "an implication from the empty conjunction without :disjunctive-preconditions", "the implication is accepted",
    '''
t = "(define (domain d) (:requirements %s) (:action a :parameters () :precondition (imply (and) (p))))"
assert accepts(DomainParser(), t % ":adl")
assert not accepts(DomainParser(), t % ":strips")
''')

bug("c15-nested-goal", "C15",
    [(PD, "        operands = args[2:-1]\n        return Or(*operands)\n", "        operands = args[2:-1]\n        return Or(*operands)\n" if False else "        operands = args[2:-1]\n        return Or(*operands)\n\n    gd_disjunction = gd_or\n"),
     (PD, "        if not bool(\n            {Requirements.DIS_PRECONDITION, Requirements.ADL}\n            & self._extended_requirements\n        ):\n            raise PDDLMissingRequirementError(Requirements.DIS_PRECONDITION)\n        operands",
          "        if len(args) > 4 and not bool(\n            {Requirements.DIS_PRECONDITION, Requirements.ADL}\n            & self._extended_requirements\n        ):\n            raise PDDLMissingRequirementError(Requirements.DIS_PRECONDITION)\n        operands")],
    "a disjunction of at most one operand without the requirement", "the disjunction is accepted",
    '''
t = "(define (domain d) (:requirements :strips) (:action a :parameters () :precondition %s))"
assert not accepts(DomainParser(), t % "(or (p) (q))")
assert not accepts(DomainParser(), t % "(or (p))")
''')

# ---------------------------------------------------------------- C16
bug("c16-reserved-hyphen", "C16",
    [(SY, "ALL_SYMBOLS: Set[str] = {v.value for v in Symbols}\n", "ALL_SYMBOLS: Set[str] = {v.value for v in Symbols if '-' not in v.value[1:]}\n")],
    "a reserved word with a hyphen as a name", "scale-up and scale-down are accepted as names",
    '''
assert not accepts(Predicate, "scale-up")
assert not accepts(Constant, "scale-down")
''')
bug("c16-keyword-case", "C16",
    [(CT, "    return word not in ignore_set and word in ALL_SYMBOLS\n", "    return word not in ignore_set and word.lower() in ALL_SYMBOLS\n")],
    "a name that differs from a reserved word by letter case", "a legal name is rejected",
    '''
assert accepts(Constant, "And") and accepts(Predicate, "OBJECT")
''')
bug("c16-trailing-newline", "C16",
    [(HB, "        if not self.REGEX.fullmatch(self):\n", "        if not self.REGEX.match(self) or self.REGEX.sub('', self, count=1).strip():\n")],
    "a name followed by white space", "the string is accepted",
    '''
assert not accepts(Constant, "abc\\n")
assert not accepts(Predicate, "p ")
''')

# ---------------------------------------------------------------- C17
bug("c17-quantifier-kind", "C17",
    [(B, "            isinstance(other, type(self))\n            and self.variables == other.variables\n", "            isinstance(other, QuantifiedCondition)\n            and self.variables == other.variables\n")],
    "a universal and an existential condition with the same parts", "they compare equal",
    '''
x = Variable("x")
assert ForallCondition(Predicate("p", x), [x]) != ExistsCondition(Predicate("p", x), [x])
''')
bug("c17-hash-order", "C17",
    [(TM, "        return hash((Variable, self._name))\n", "        return hash((Variable, self._name, tuple(self._type_tags)))\n")],
    "two equal variables whose sets of types are iterated in different orders", "equal variables have different hashes",
    '''
import itertools
names = ["t%d" % i for i in range(40)]
for a, b in itertools.combinations(names, 2):
    x, y = Variable("x", [a, b]), Variable("x", [b, a])
    assert x == y and hash(x) == hash(y), (a, b)
''')
bug("c17-domain-eq", "C17",
    [(C, "            and self.derived_predicates == other.derived_predicates\n", "            and {dp.predicate for dp in self.derived_predicates} == {dp.predicate for dp in other.derived_predicates}\n")],
    "two domains that differ only in the condition of a derived predicate", "they compare equal",
    '''
mk = lambda c: Domain("d", predicates=[P, Q], derived_predicates=[DerivedPredicate(P, c)])
assert mk(Q) == mk(Q) and mk(Q) != mk(Not(Q))
''')

# ---------------------------------------------------------------- C18
bug("c18-term-tags", "C18",
    [(TM, "        lhs = (type(self).__name__, self.name, sorted(self.type_tags))\n        rhs = (type(other).__name__, other.name, sorted(other.type_tags))\n",
          "        lhs = (type(self).__name__, self.name, self.type_tags)\n        rhs = (type(other).__name__, other.name, other.type_tags)\n")],
    "two variables with one name and types neither of which include the other's", "they are unordered though different",
    '''
x, y = Variable("x", {"s"}), Variable("x", {"t"})
assert (x < y) != (y < x), (x < y, y < x)
''')
bug("c18-function-text", "C18",
    [(FN, "        return (self.name, self.terms) < (other.name, other.terms)\n", "        return str(self) < str(other)\n")],
    "two functions that print the same but differ in types", "they are unordered though different",
    '''
f, g = (NumericFunction("f", Variable("x", {t})) for t in "st")
assert f != g and (f < g) != (g < f)
''')
bug("c18-term-names", "C18",
    [(PR, "            return (self.name, self.terms) < (other.name, other.terms)\n", "            return (self.name, [t.name for t in self.terms]) < (\n                other.name,\n                [t.name for t in other.terms],\n            )\n")],
    "two predicates whose terms agree in name but not in kind or types", "they are unordered though different",
    '''
a, b = Predicate("p", Constant("x")), Predicate("p", Variable("x"))
assert a != b and (a < b) != (b < a)
''')

# ---------------------------------------------------------------- C19
bug("c19-stale-hash", "C19",
    [(TM, '        return hash((Constant, self._name))\n', '        if "_key" not in self.__dict__:\n            self._key = hash((Constant, self._name))\n        return self._key\n')],
    "a constant hashed, pickled, and loaded in another process", "the loaded constant keeps the hash of the other process",
    '''
code = "import sys,pickle; from pddl.logic.terms import Constant as C; o = C('p'); hash(o); sys.stdout.buffer.write(pickle.dumps(o))"
data = subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": "77"}, capture_output=True, check=True).stdout
o = pickle.loads(data)
assert o == Constant("p") and hash(o) == hash(Constant("p")) and o in {Constant("p")}
''')

bug("c19-getstate-float", "C19",
    [(HC, '        d.pop("__hash", None)\n        return d\n', '        return {k: float(v) if type(v) is int else v for k, v in d.items() if k != "__hash"}\n')],
    "a copy of an integer value", "the copy is a float: equal, but printed as 3.0",
    '''
o = copy.copy(NumericValue(3))
assert o == NumericValue(3) and str(o) == "3", o
''')



# ---------------------------------------------------------------- C20
bug("c20-either-order", "C20",
    [(F, "(either {' '.join(sorted(t.type_tags))})", "(either {' '.join(t.type_tags)})")],
    "a predicate with an either type whose set is iterated in another order", "the printed text depends on the order of the set",
    '''
code = "from pddl.core import *; from pddl.requirements import Requirements as R; from pddl.logic.terms import Variable as V; from pddl.logic.predicates import Predicate as P; print(Domain('d', requirements=[R.TYPING], types={'s': None, 't': None, 'u': None}, predicates=[P('p', V('x', ['s', 't', 'u']))]))"
texts = {subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": str(i)}, capture_output=True, check=True).stdout for i in range(8)}
assert len(texts) == 1, texts
''')

bug("c20-actions-by-name", "C20",
    [(C, '            self.actions,\n            "",\n            to_string=lambda obj: str(obj) + "\\n",\n        )\n        result = ', '            self.actions,\n            "",\n            to_string=lambda obj: str(obj) + "\\n",\n        ) if len({a.name for a in self.actions}) == len(self.actions) else "".join(\n            f"{a}\\n" for a in sorted(self.actions, key=lambda a: a.name)\n        )\n        result = ')],
    "two actions with one name in a domain", "their order in the text depends on the order of the set",
    '''
code = "from pddl.core import *; from pddl.action import Action as A; from pddl.logic.predicates import Predicate as P; print(Domain('d', actions=[A('a', [], P(n)) for n in 'pqrs']))"
texts = {subprocess.run([sys.executable, "-c", code], env={**os.environ, "PYTHONHASHSEED": str(i)}, capture_output=True, check=True).stdout for i in range(8)}
assert len(texts) == 1, texts
''')

# ---------------------------------------------------------------- C21

bug("c21-subtype-memo", "C21",
    [(PD, "                try:\n                    self._check_subtypes(\n                        term.type_tags, predicate_def.terms[idx].type_tags\n                    )\n",
          "                key = (term.type_tags, predicate_def.terms[idx].type_tags)\n                try:\n                    if key not in self._compatible:\n                        self._check_subtypes(*key)\n                        self._compatible.add(key)\n"),
     (PD, '    """Domain Transformer."""\n', '    """Domain Transformer."""\n\n    _compatible: Set[Any] = set()\n')],
    "two domains parsed in turn with derived predicates over types of the same names but another hierarchy", "the second is accepted although its types do not fit",
    '''
t = "(define (domain d) (:requirements :typing :derived-predicates) (:types %s) (:predicates (p ?x - t) (q)) (:derived (p ?x - s) (q)))"
assert not accepts(DomainParser(), t % "s t")
assert accepts(DomainParser(), t % "s - t t")
assert not accepts(DomainParser(), t % "s t")
''')


# ---------------------------------------------------------------- C22
bug("c22-set-alias", "C22",
    [(HB, "    return op(arg) if arg is not None else op()\n\n\ndef check_no", "    if isinstance(arg, (set, frozenset)):\n        return arg\n    return op(arg) if arg is not None else op()\n\n\ndef check_no")],
    "a set that the caller changes after it was passed to a constructor", "the constructed object changes with it",
    '''
s = {Predicate("p")}
d = Domain("d", predicates=s)
t = str(d)
s.add(Predicate("q"))
assert str(d) == t, d
''')
bug("c22-problem-requirements", "C22",
    [(C, '            return set(cast(Collection[Requirements], requirements))\n', '            return (\n                requirements\n                if isinstance(requirements, AbstractSet)\n                else set(requirements)\n            )\n')],
    "a set of requirements that the caller changes after it was passed to a problem without a domain", "the problem changes with it",
    '''
rs = {Requirements.STRIPS}
p = Problem("p", domain_name="d", requirements=rs)
t = str(p)
rs.add(Requirements.TYPING)
assert str(p) == t and p.requirements == {Requirements.STRIPS}
''')



# ---------------------------------------------------------------- C23
bug("c23-either-first", "C23",
    [(PD, "        for left_type in type_tags_left:\n", "        for left_type in sorted(type_tags_left)[:1]:\n")],
    "a derived predicate argument with an either type, one of whose types does not conform", "only one of the types is checked",
    '''
t = "(define (domain d) (:requirements :typing :derived-predicates) (:types s t) (:predicates (p ?x - s) (q)) (:derived (p ?x - (either %s)) (q)))"
assert accepts(DomainParser(), t % "s")
assert not accepts(DomainParser(), t % "s t") and not accepts(DomainParser(), t % "t s")
''')
bug("c23-arity", "C23",
    [(PD, "        if len(predicate_def.terms) != len(dp_predicate.terms):\n", "        if len(predicate_def.terms) < len(dp_predicate.terms):\n")],
    "a derived predicate with fewer arguments than declared", "it is accepted",
    '''
t = "(define (domain d) (:requirements :derived-predicates) (:predicates (p ?x ?y) (q)) (:derived (p ?x %s) (q)))"
assert accepts(DomainParser(), t % "?y")
assert not accepts(DomainParser(), t % "")
''')

# ---------------------------------------------------------------- C24
bug("c24-prefix", "C24",
    [(V, "                    and not f.name == Symbols.TOTAL_COST.value\n", "                    and not f.name.startswith(Symbols.TOTAL_COST.value)\n")],
    "a numeric function whose name starts with total-cost next to total-cost itself", "it is accepted without numeric fluents",
    '''
assert fails_validation(Domain, "d", requirements=[Requirements.ACTION_COSTS], functions={NumericFunction("total-cost"): None, NumericFunction("total-cost-2"): None})
''')
bug("c24-all", "C24",
    [(V, "                if any(\n                    isinstance(f, FunctionExpression)\n", "                if all(\n                    isinstance(f, FunctionExpression)\n")],
    "total-cost next to another numeric function", "the other function needs no requirement",
    '''
assert fails_validation(Domain, "d", requirements=[Requirements.ACTION_COSTS], functions={NumericFunction("total-cost"): None, NumericFunction("f"): None})
''')

# ---------------------------------------------------------------- C25
bug("c25-comment", "C25",
    [(GR, "COMMENT: /;[^\\n]*/\n", "COMMENT: /;[^\\n]*\\n/\n")],
    "a comment on the last line of a text without a line break", "the text is rejected",
    '''
assert accepts(DomainParser(), "(define (domain d)) ; the end")
''')
bug("c25-whitespace", "C25",
    [(GR, "%ignore /\\s+/\n", "%ignore /[ \\n\\t]+/\n")],
    "a text with Windows line breaks or form feeds", "the text is rejected",
    '''
assert accepts(DomainParser(), "(define (domain d)\\r\\n (:constants a))")
''')
bug("c25-priority", "C25",
    [(GR, 'WHEN: "when"\n', 'WHEN.2: "when"\n')],
    "a predicate whose name starts with 'when' in an effect or condition", "the name is split",
    '''
d = DomainParser()("(define (domain d) (:predicates (whenever)) (:action a :parameters () :effect (whenever)))")
assert next(iter(d.actions)).effect == Predicate("whenever")
''')

# ---------------------------------------------------------------- C26
bug("c26-quiet", "C26",
    [(MN, "    if plan_file is None:\n        return\n", "    if plan_file is None or quiet:\n        return\n")],
    "a wrong plan with the quiet option", "the tool succeeds",
    '''
from click.testing import CliRunner
from pddl.__main__ import cli
with tempfile.TemporaryDirectory() as t:
    f = {}
    for k, v in dict(d="(define (domain d))", p="(define (problem p) (:domain d) (:init) (:goal (and)))", l="(nothing)").items():
        f[k] = os.path.join(t, k)
        open(f[k], "w").write(v)
    out, r = sys.stdout, None
    r = subprocess.run([sys.executable, "-m", "pddl", "-q", f["d"], f["p"], f["l"]], capture_output=True)
    assert r.returncode != 0
    assert subprocess.run([sys.executable, "-m", "pddl", "-q", f["d"], f["p"]], capture_output=True).returncode == 0
''')
bug("c26-order", "C26",
    [(MN, "    problem.check(domain)\n    print(problem_to_string(problem))\n    if plan_file is None:\n        return\n",
          "    print(problem_to_string(problem))\n    if plan_file is None:\n        problem.check(domain)\n        return\n")],
    "a problem that does not fit the domain, with a plan", "the problem is not checked when there is a plan",
    '''
with tempfile.TemporaryDirectory() as t:
    f = {}
    for k, v in dict(d="(define (domain d))", p="(define (problem p) (:domain e) (:init) (:goal (and)))", l="").items():
        f[k] = os.path.join(t, k)
        open(f[k], "w").write(v)
    assert subprocess.run([sys.executable, "-m", "pddl", f["d"], f["p"], f["l"]], capture_output=True).returncode != 0
''')

# ---------------------------------------------------------------- C27
bug("c27-not-more", "C27",
    [(GR, "  |                LPAR NOT gd RPAR\n", "  |                LPAR NOT gd+ RPAR\n")],
    "a negation with two operands", "the text is accepted, without its second operand",
    '''
T = "(define (domain d) (:requirements :adl) (:predicates (p) (q)) (:action a :parameters () :precondition (not (p) %s)))"
assert accepts(DomainParser(), T % "")
assert not accepts(DomainParser(), T % "(q)")
''')
bug("c27-effect-when", "C27",
    [(GR, "        |          LPAR WHEN gd cond_effect RPAR\n", "        |          LPAR WHEN gd c_effect RPAR\n        |          LPAR WHEN gd LPAR AND p_effect* RPAR RPAR\n"),
     (PD, "            return When(args[2], args[3])\n", "            return When(args[2], args[3] if len(args) == 5 else And(*args[5:-2]))\n")],
    "a conditional effect whose effect is a conditional effect", "the text is accepted",
    '''
T = "(define (domain d) (:requirements :adl) (:predicates (p) (q)) (:action a :parameters () :effect (when (p) %s)))"
assert accepts(DomainParser(), T % "(q)")
assert not accepts(DomainParser(), T % "(when (q) (p))")
''')
bug("c27-metric-rest", "C27",
    [(GR, "metric_spec: LPAR METRIC optimization metric_f_exp RPAR\n", "metric_spec: LPAR METRIC optimization metric_f_exp+ RPAR\n")],
    "a metric with two expressions", "the text is accepted, without its second expression",
    '''
T = "(define (problem n) (:domain d) (:init) (:goal (and)) (:metric minimize (f) %s))"
assert accepts(ProblemParser(), T % "")
assert not accepts(ProblemParser(), T % "(g)")
''')
# ---------------------------------------------------------------- C28
bug("c28-duplicates-run", "C28",
    [(HB, "        seen.add(x)\n    return arg\n", "        seen = {x}\n    return arg\n")],
    "a variable whose list of types has the same type twice, with another one between", "the repetition is not noticed",
    '''
assert accepts(Variable, "x", ["s", "t"])
assert not accepts(Variable, "x", ["s", "t", "s"])
''')
bug("c28-terms-consistency", "C28",
    [(PR, "            seen[term.name] = set(term.type_tags)\n        else:\n            check(\n                seen[term.name] == set(term.type_tags),\n",
          "            seen[term.name] = set(term.type_tags)\n        else:\n            check(\n                seen[term.name] >= set(term.type_tags),\n")],
    "a predicate with a variable first of two types, then of one of them", "the inconsistent types are accepted",
    '''
s, t, st = Variable("x", {"s"}), Variable("x", {"t"}), Variable("x", {"s", "t"})
assert accepts(Predicate, "p", st, st)
assert not accepts(Predicate, "p", s, t)
assert not accepts(Predicate, "p", st, s)
''')
bug("c28-call-zip", "C28",
    [(FN, '        assert_(len(terms) == self.arity, "Wrong number of terms.")\n', '        assert_(len(terms) <= self.arity, "Wrong number of terms.")\n')],
    "a function of two arguments called with one", "a function with fewer arguments is made",
    '''
x, y = Variable("x"), Variable("y")
assert accepts(NumericFunction("f", x, y), y, x)
assert not accepts(NumericFunction("f", x, y), y)
''')

# ================================================================ second batch
IN = "pddl/__init__.py"

bug("c01-overloaded-predicate", "C01",
    [(F, "    for p in sorted(predicates):\n", "    for p in sorted({p.name: p for p in sorted(predicates)}.values()):\n")],
    "two predicates with one name and different arguments", "only one of them is printed",
    '''
x, y = Variable("x"), Variable("y")
d = Domain("d", predicates=[Predicate("p", x), Predicate("p", x, y)])
assert DomainParser()(str(d)) == d, str(d)
''')
bug("c01-parent-order", "C01",
    [(F, "                # reset the index to 0\n                ind = 0\n", "                # go on with the previous one\n                ind = max(ind - 1, 0)\n")],
    "a hierarchy in which printing one supertype makes way for one several places before it", "printing the domain fails",
    '''
import itertools
for p in itertools.permutations("abcd"):
    types = {p[0]: None, p[1]: p[0], p[2]: p[1], p[3]: p[2], "z": p[3]}
    d = Domain("d", requirements=[Requirements.TYPING], types=types)
    assert DomainParser()(str(d)) == d, str(d)
''')
bug("c02-strips", "C02",
    [(C, '        body += f"(:domain {self.domain_name})\\n"' if False else '        result = f"(define (problem {self.name})"\n        body = f"(:domain {self.domain_name})\\n"\n        indentation = " " * 4\n        body += sort_and_print_collection("(:requirements ", self.requirements, ")\\n")\n',
         '        result = f"(define (problem {self.name})"\n        body = f"(:domain {self.domain_name})\\n"\n        indentation = " " * 4\n        if self.requirements != {Requirements.STRIPS}:\n            body += sort_and_print_collection(\n                "(:requirements ", self.requirements, ")\\n"\n            )\n')],
    "a problem whose only requirement is :strips", "the requirement is not printed, and the problem read back has none",
    '''
p = Problem("n", domain_name="d", requirements=[Requirements.STRIPS])
assert ProblemParser()(str(p)) == p, str(p)
''')
bug("c03-eq-zip", "C03",
    [(C, "        return isinstance(other, Plan) and self._actions == other._actions\n", "        return isinstance(other, Plan) and [\n            (name, frozenset(args)) for name, args in self._actions\n        ] == [(name, frozenset(args)) for name, args in other._actions]\n")],
    "two plans with the same arguments in another order", "they compare equal",
    '''
from pddl.logic.terms import Constant
a, b = Constant("a"), Constant("b")
assert Plan([("m", [a, b])]) == Plan([("m", [a, b])])
assert Plan([("m", [a, b])]) != Plan([("m", [b, a])])
''')
bug("c04-named-as-type", "C04",
    [(TL, "            type_tag = next(iter(types_tags)) if len(types_tags) == 1 else None\n            result[item] = type_tag\n", "            type_tag = next(iter(types_tags)) if len(types_tags) == 1 else None\n            result[item] = type_tag if type_tag != item else None\n")],
    "a constant with the name of its type", "the constant loses its type",
    '''
d = DomainParser()("(define (domain d) (:requirements :typing) (:types robot) (:constants robot - robot r - robot))")
assert {c.name: c.type_tag for c in d.constants} == {"robot": "robot", "r": "robot"}, d.constants
''')
bug("c05-when-empty-and", "C05",
    [(PD, "        if len(args) >= 3 and args[1] == Symbols.AND.value:\n            p_eff", "        if len(args) > 3 and args[1] == Symbols.AND.value:\n            p_eff")],
    "a conditional effect with an empty conjunction", "the effect is rejected",
    '''
d = DomainParser()("(define (domain d) (:requirements :adl) (:predicates (p) (q)) (:action a :parameters () :effect (when (p) (and))))")
assert next(iter(d.actions)).effect == When(P, And())
''')
bug("c05-oneof-single", "C05",
    [(PD, "            return OneOf(*args[2:-1])\n", "            return OneOf(*args[2:-1]) if len(args) != 4 else args[2]\n")],
    "a nondeterministic effect with one alternative", "the nondeterministic effect disappears",
    '''
d = DomainParser()("(define (domain d) (:requirements :non-deterministic) (:predicates (p) (q)) (:action a :parameters () :effect (oneof (q))))")
assert next(iter(d.actions)).effect == OneOf(Q)
''')
bug("c06-untyped-inner", "C06",
    [(UT, "    if isinstance(term, Variable) and term.name in var_to_types:\n", "    if isinstance(term, Variable) and var_to_types.get(term.name):\n")],
    "an untyped quantified variable with the name of a typed parameter", "its occurrences get the type of the parameter",
    '''
d = DomainParser()("""(define (domain d) (:requirements :adl) (:types t) (:predicates (p ?x))
 (:action a :parameters (?x - t) :effect (forall (?x) (p ?x))))""")
assert next(iter(d.actions)).effect == Forall(Predicate("p", Variable("x")), [Variable("x")])
''')
bug("c07-reassigned", "C07",
    [(PP, '        return "init", flat_args\n', '        values = {x.operands[0]: x for x in flat_args if isinstance(x, FunctionEqualTo)}\n        rest = [x for x in flat_args if not isinstance(x, FunctionEqualTo)]\n        return "init", rest + list(values.values())\n')],
    "a function that is given two initial values", "one of them is dropped",
    '''
p = ProblemParser()("(define (problem n) (:domain d) (:init (= (f a) 1) (= (f a) 2)) (:goal (and)))")
assert len(p.init) == 2, p.init
''')
bug("c08-hash-dedupe", "C08",
    [(B, "        list(dict.fromkeys(operands)) if idempotency else list(operands)\n", "        list({hash(o): o for o in reversed(operands)}.values())[::-1]\n        if idempotency\n        else list(operands)\n")],
    "operands with the same hash, such as comparisons with -1 and -2", "an operand of a conjunction is dropped",
    '''
f = NumericFunction("f")
a, b = GreaterThan(f, NumericValue(-1)), GreaterThan(f, NumericValue(-2))
assert And(b, a).operands == (b, a)
''')
bug("c09-metric-third", "C09",
    [(PP, "        return (\n            op(*args[2:-1])\n", "        return (\n            op(*args[2:4])\n            if len(args) > 4 and op in (Plus, Times)\n            else op(*args[2:-1])\n")],
    "a metric that is a sum of three expressions", "the third one is dropped",
    '''
p = ProblemParser()("(define (problem n) (:domain d) (:init) (:goal (and)) (:metric minimize (+ (f) (g) (h))))")
assert [o.name for o in p.metric.expression.operands] == ["f", "g", "h"], p.metric
''')
bug("c09-comparison-flip", "C09",
    [(PD, "            return LesserThan(left, right)\n", "            return (\n                LesserThan(left, right)\n                if not isinstance(left, NumericValue)\n                else LesserEqualThan(left, right)\n            )\n")],
    "a < comparison with a number on its left", "the comparison is no longer strict",
    '''
d = DomainParser()("(define (domain d) (:requirements :fluents) (:functions (f)) (:action a :parameters () :precondition (< 3 (f))))")
c = next(iter(d.actions)).precondition
assert type(c).__name__ in ("LesserThan", "GreaterThan"), c
''')
bug("c10-dedupe", "C10",
    [(B, "        return type(self)(*(op.instantiate(mapping) for op in self.operands))\n", "        return type(self)(*dict.fromkeys(op.instantiate(mapping) for op in self.operands))\n")],
    "an implication or nondeterministic effect whose operands become equal by instantiation", "an operand is dropped",
    '''
x, y, c = Variable("x"), Variable("y"), Constant("c")
p = lambda t: Predicate("p", t)
f = Imply(p(x), p(y))
assert f.instantiate({x: c, y: c}).operands == (p(c), p(c))
''')
bug("c10-derived-head", "C10",
    [(PR, "            self.predicate.instantiate(mapping),\n            self.condition.instantiate(mapping),\n", "            self.predicate.instantiate(mapping),\n            self.condition.instantiate(\n                {v: t for v, t in mapping.items() if v in self.predicate.terms}\n            ),\n")],
    "a derived predicate whose condition has a variable that its head has not", "this variable is not replaced",
    '''
x, y, c, d = Variable("x"), Variable("y"), Constant("c"), Constant("d")
f = DerivedPredicate(Predicate("p", x), Predicate("q", x, y))
assert f.instantiate({x: c, y: d}) == DerivedPredicate(Predicate("p", c), Predicate("q", c, d))
''')
bug("c11-checked-once", "C11",
    [(C, "        all_objects = problem.objects | domain.constants\n        for action_name, parameters in self._actions:\n", "        all_objects = problem.objects | domain.constants\n        for action_name, parameters in {\n            (a, len(p), *p[-1:]): (a, p) for a, p in self._actions\n        }.values():\n")],
    "a plan with two steps of one action with the same last argument, the first of which is wrong", "the first step is not checked",
    '''
d = Domain("d", actions=[Action("a", [Variable("x"), Variable("y")])])
p = Problem("n", domain=d, objects=[Constant("c")])
c, u = ("a", [Constant("c"), Constant("c")]), ("a", [Constant("u"), Constant("c")])
assert accepts(Plan([c, c]).check, d, p)
assert not accepts(Plan([u]).check, d, p)
assert not accepts(Plan([u, c]).check, d, p)
''')
bug("c12-declared-supertype", "C12",
    [(V, "        supertypes = {t for t in type_dict.values() if t is not None}\n", "        supertypes = {\n            t for t in type_dict.values() if type_dict.get(t, t) is not None\n        }\n")],
    "types without :typing whose supertypes are declared as root types", "the hierarchy is accepted",
    '''
assert fails_validation(Domain, "d", types={"a": "b"})
assert fails_validation(Domain, "d", types={"a": "b", "b": None})
assert accepts(Domain, "d", types={"a": None, "b": None})
''')
bug("c12-long-cycle", "C12",
    [(HB, "                if current in path:\n                    return path\n", "                if current in path[:6]:\n                    return path\n                if len(path) > len(graph):\n                    break\n")],
    "a cycle that is reached after a chain of six types", "the cycle is not noticed",
    '''
def types(n, back):
    r = {f"t{i}": f"t{i + 1}" for i in range(n)}
    r[f"t{n}"] = f"t{back}"
    return r
assert fails_validation(Domain, "d", requirements=[Requirements.TYPING], types=types(4, 0))
assert fails_validation(Domain, "d", requirements=[Requirements.TYPING], types=types(9, 7))
''')
bug("c13-any-tag", "C13",
    [(V, "        self._check_types_are_available(term.type_tags, f\"term {repr(term)}\")\n", "        if self._types.all_types.isdisjoint(term.type_tags):\n            self._check_types_are_available(term.type_tags, f\"term {repr(term)}\")\n")],
    "a predicate with a parameter of two types, one of them undeclared", "the undeclared type is accepted",
    '''
def make(tags):
    return dict(requirements=[Requirements.TYPING], types={"t": None}, predicates=[Predicate("p", Variable("x", tags))])
assert accepts(Domain, "d", **make({"t"}))
assert fails_validation(Domain, "d", **make({"u"}))
assert fails_validation(Domain, "d", **make({"t", "u"}))
''')
bug("c13-derived-condition", "C13",
    [(V, "        self.check_type(derived_predicate.predicate)\n        self.check_type(derived_predicate.condition)\n", "        self.check_type(derived_predicate.predicate)\n        if derived_predicate.predicate.terms:\n            self.check_type(derived_predicate.condition)\n")],
    "a derived predicate without arguments whose condition uses an undeclared type", "the type is accepted",
    '''
def make(head):
    c = ExistsCondition(Predicate("q", Variable("y", {"u"})), [Variable("y", {"u"})])
    return dict(requirements=[Requirements.ADL, Requirements.DERIVED_PREDICATES], types={"t": None}, derived_predicates=[DerivedPredicate(head, c)])
assert fails_validation(Domain, "d", **make(Predicate("p", Variable("x", {"t"}))))
assert fails_validation(Domain, "d", **make(Predicate("p")))
''')
bug("c14-problem-typing", "C14",
    [(C, "        type_checker = TypeChecker(types, domain.requirements)\n        type_checker.check_type(self.objects)\n", "        type_checker = TypeChecker(types, self._requirements or domain.requirements)\n        type_checker.check_type(self.objects)\n")],
    "a problem with typed objects that states some of the requirements of the domain, without :typing", "the problem is rejected",
    '''
d = Domain("d", requirements=[Requirements.STRIPS, Requirements.TYPING], types={"t": None})
p = Problem("n", domain_name="d", requirements=[Requirements.STRIPS], objects=[Constant("c", "t")])
assert accepts(p.check, d)
''')
bug("c14-either-case", "C14",
    [(C, "                domain.name == domain_name,\n", "                domain.name.startswith(domain_name),\n")],
    "a problem made with a domain and a domain name that is the beginning of the domain's name", "the differing names are accepted",
    '''
d = Domain("blocks-world")
assert accepts(Problem, "n", domain=d, domain_name="blocks-world")
assert not accepts(Problem, "n", domain=d, domain_name="blocks")
''')
bug("c15-adl-equality", "C15",
    [(RQ, "        extended_requirements.update(Requirements.adl_requirements())\n", "        extended_requirements.update(\n            Requirements.adl_requirements() - {Requirements.EQUALITY}\n            if Requirements.NON_DETERMINISTIC in requirements\n            else Requirements.adl_requirements()\n        )\n")],
    "a domain with :adl and :non-deterministic that uses equality", "the equality is rejected",
    '''
T = "(define (domain d) (:requirements %s) (:action a :parameters (?x ?y) :precondition (= ?x ?y)))"
assert accepts(DomainParser(), T % ":adl")
assert accepts(DomainParser(), T % ":adl :non-deterministic")
''')
bug("c15-gate-in-derived", "C15",
    [(PD, "    def gd_imply(self, args):\n        \"\"\"Process the 'gd' imply rule.\"\"\"\n        if not bool(\n", "    def gd_imply(self, args):\n        \"\"\"Process the 'gd' imply rule.\"\"\"\n        if self._current_parameters_by_name and not bool(\n")],
    "an implication in an action without parameters", "the implication is accepted without its requirement",
    '''
T = "(define (domain d) (:requirements :strips) (:predicates (p)) (:action a :parameters (%s) :precondition (imply (p) (p))))"
assert not accepts(DomainParser(), T % "?x")
assert not accepts(DomainParser(), T % "")
''')
bug("c16-unicode", "C16",
    [(CT, '    REGEX = re.compile("[A-Za-z][-_A-Za-z0-9]*")\n', '    REGEX = re.compile(r"[A-Za-z][-\\w]*")\n')],
    "a name with a letter that is not ASCII after the first", "the name is accepted",
    '''
assert accepts(Constant, "a-b_C9")
assert not accepts(Constant, "caf\\u00e9")
''')
bug("c17-repr-hash", "C17",
    [(EF, "        return hash((type(self), self.condition, self.effect))\n", "        return hash((type(self), repr(self.condition), self.effect))\n")],
    "equal conditional effects with a quantified condition over several variables, made in different orders", "their hashes differ",
    '''
names = ["x%d" % i for i in range(40)]
def make(order):
    vs = [Variable(n) for n in order]
    return When(ForallCondition(Predicate("p", Variable("x0")), vs), P)
for k in range(2, 40):
    a, b = make(names[:k]), make(list(reversed(names[:k])))
    assert a == b and hash(a) == hash(b), k
''')
bug("c17-constant-eq", "C17",
    [(TM, "        return isinstance(other, Constant) and self.name == other.name\n", "        return isinstance(other, Constant) and self.name == other.name and (\n            self.type_tag == other.type_tag\n            or self.type_tag is None\n            or other.type_tag is None\n        )\n")],
    "two constants with one name and different types", "they are different, although both equal the untyped constant of that name",
    '''
a, b, c = Constant("a", "s"), Constant("a", "t"), Constant("a")
assert a == c and b == c and a == b
''')
bug("c18-value-int", "C18",
    [(FN, "        return self.value < other.value\n", "        return int(self.value) < int(other.value)\n")],
    "two values with the same integral part", "neither is less than the other",
    '''
a, b = NumericValue(1.25), NumericValue(1.75)
assert a < b and not b < a and not a == b
assert sorted([b, a]) == [a, b]
''')
bug("c19-metric-reduce", "C19",
    [(FN, "    def __hash__(self):\n        \"\"\"Get the hash of a Metric.\"\"\"\n        return hash((self.expression, self.optimization))\n", "    def __hash__(self):\n        \"\"\"Get the hash of a Metric.\"\"\"\n        return hash((self.expression, self._optimization))\n\n    def __reduce__(self):\n        \"\"\"Pickle by the constructor's arguments.\"\"\"\n        return Metric, (self.expression,)\n")],
    "a copy or pickle of a metric to be maximized", "the copy is to be minimized",
    '''
f = NumericFunction("f")
for m in (Metric(f, "minimize"), Metric(f, "maximize")):
    assert pickle.loads(pickle.dumps(m)) == m and copy.deepcopy(m) == m and copy.copy(m) == m
''')
bug("c20-untyped-constants", "C20",
    [(F, '        result += " ".join(sorted(to_string(n) for n in names_with_none_types))\n', '        result += " ".join(to_string(n) for n in names_with_none_types)\n')],
    "two untyped constants", "they are printed in the order of a set, which depends on the hash seed",
    '''
code = "from pddl.core import Domain; from pddl.logic.terms import Constant; print(Domain('d', constants=[Constant('t%d' % i) for i in range(9)]))"
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True).stdout for s in range(4)}
assert len(out) == 1, out
''')
bug("c21-typed-list-memo", "C21",
    [(TL, "        result = TypedListParser(allow_duplicates=allow_duplicates)\n\n        type_sep_index = safe_index(tokens, Symbols.TYPE_SEP.value)\n\n        if type_sep_index is None:\n            # simple list of names\n            cls._add_typed_lists(result, 0, len(tokens), tokens, set())\n            return result\n",
          "        result = TypedListParser(allow_duplicates=allow_duplicates)\n\n        type_sep_index = safe_index(tokens, Symbols.TYPE_SEP.value)\n\n        if type_sep_index is None:\n            # simple list of names\n            memo = cls.__dict__.get(\"memo\", {})\n            cls.memo = memo  # type: ignore\n            if tuple(tokens) not in memo:\n                cls._add_typed_lists(result, 0, len(tokens), tokens, set())\n                memo[tuple(tokens)] = result\n            return memo[tuple(tokens)]\n")],
    "a list of objects with a repeated name after a quantifier over a repeated variable of that name was read", "the repeated object is accepted",
    '''
bad = "(define (problem n) (:domain d) (:objects x x) (:init) (:goal (and)))"
assert not accepts(ProblemParser(), bad)
q = ProblemParser()
q("(define (problem n) (:domain d) (:init) (:goal (forall (?x ?x) (p ?x))))")
assert not accepts(q, bad)
''')
bug("c28-adds-root", "C28",
    [(V, "        self._types = to_types(ensure(types, dict()))\n\n        self._all_types = self._get_all_types()\n", "        self._types = to_types(ensure(types, dict())) if not skip_checks else types\n\n        self._all_types = self._get_all_types()\n"),
     (V, "        result = set(self._types.keys()) | set(self._types.values())\n        result.discard(None)\n        return cast(Set[name_type], result)\n\n    @classmethod\n    def _check_types_dictionary(", "        for type_ in [t for t in self._types.values() if t is not None]:\n            self._types.setdefault(type_, None)\n        result = set(self._types.keys())\n        return cast(Set[name_type], result)\n\n    @classmethod\n    def _check_types_dictionary(")],
    "a domain with a supertype that is not declared itself", "the supertype is added to the types of the domain",
    '''
d = Domain("d", requirements=[Requirements.TYPING], types={"a": "b"})
assert d.types == {"a": "b"}, d.types
''')
bug("c23-depth", "C23",
    [(PD, "            while current_type is not None and current_type not in type_tags_right:\n" if False else "        # for each left type, navigate the type hierarchy until we find a type in the right set, or fail\n        for left_type in type_tags_left:\n            current_type: Optional[name] = left_type\n",
          "        # for each left type, navigate the type hierarchy until we find a type in the right set, or fail\n        for left_type in sorted(type_tags_left)[:2]:\n            current_type: Optional[name] = left_type\n")],
    "an argument with three types, the last of which is not a subtype of the declared one", "the derived predicate is accepted",
    '''
T = "(define (domain d) (:requirements :typing :derived-predicates) (:types a b c u - object) (:predicates (p ?x - (either a b c))) (:derived (p ?x - (either %s)) (and)))"
assert accepts(DomainParser(), T % "a b c")
assert not accepts(DomainParser(), T % "a u")
assert not accepts(DomainParser(), T % "a b u")
''')
bug("c24-cost-arity", "C24",
    [(V, "            if any(f.name == Symbols.TOTAL_COST.value for f in {*function_dict}):\n", "            if any(\n                f.name == Symbols.TOTAL_COST.value and f.arity == 0\n                for f in {*function_dict}\n            ):\n")],
    "a total-cost function with an argument", "numeric fluents are demanded for it instead of action costs",
    '''
f = NumericFunction("total-cost", Variable("x"))
assert accepts(Domain, "d", requirements=[Requirements.ACTION_COSTS], functions={f: None})
assert not accepts(Domain, "d", requirements=[Requirements.FLUENTS], functions={f: None})
''')
bug("c25-splitlines", "C25",
    [(PB, "            result = cast(T, parser.parse(text))\n", "            # comments are removed beforehand\n            lines = (line.partition(\";\")[0] for line in text.splitlines())\n            result = cast(T, parser.parse(\"\\n\".join(lines)))\n")],
    "a comment with a character, such as a form feed, that splitlines takes for the end of a line", "the rest of the comment is read as text",
    '''
T = "(define (domain d) ; a comment%swith more\\n)"
for c in (" ", "\\t", "\\x0c", "\\x0b", "\\x1c", "\\x85", "\\u2028"):
    assert accepts(DomainParser(), T % c), repr(c)
''')
bug("c26-exit-status", "C26",
    [(MN, "    plan.check(domain, problem)\n", "    try:\n        plan.check(domain, problem)\n    except ValueError as e:\n        print(e)\n    except Exception as e:\n        if not quiet:\n            raise\n")],
    "quiet mode and a plan with an error", "the exit status is 0",
    '''
with tempfile.TemporaryDirectory() as t:
    f = {}
    for k, v in dict(d="(define (domain d))", p="(define (problem p) (:domain d) (:init) (:goal (and)))", l="(a)").items():
        f[k] = os.path.join(t, k)
        open(f[k], "w").write(v)
    for q in ([], ["-q"]):
        assert subprocess.run([sys.executable, "-m", "pddl", *q, f["d"], f["p"], f["l"]], capture_output=True).returncode != 0
''')
bug("c26-plan-by-instantiation", "C26",
    [(MN, "    plan.check(domain, problem)\n    print(plan_to_string(plan))\n", "    plan.instantiate(domain)\n    print(plan_to_string(plan))\n")],
    "a plan with an object that is not in the problem", "the command succeeds",
    '''
with tempfile.TemporaryDirectory() as t:
    f = {}
    for k, v in dict(d="(define (domain d) (:action a :parameters (?x)))", p="(define (problem p) (:domain d) (:objects c) (:init) (:goal (and)))", l="(a %s)").items():
        f[k] = os.path.join(t, k)
        open(f[k], "w").write(v)
    for o, ok in (("c", True), ("u", False)):
        open(f["l"], "w").write(f"(a {o})")
        r = subprocess.run([sys.executable, "-m", "pddl", f["d"], f["p"], f["l"]], capture_output=True)
        assert (r.returncode == 0) == ok
''')
bug("c27-header", "C27",
    [(PB, "            result = cast(T, parser.parse(text))\n", "            result = cast(T, parser.parse(text[max(text.find(\"(define\"), 0) :]))\n")],
    "words before the first parenthesis of a domain", "they are skipped",
    '''
T = "%s (define (domain d))"
assert accepts(DomainParser(), T % "")
assert not accepts(DomainParser(), T % "foo")
''')
bug("c28-metric-case", "C28",
    [(FN, "        self._optimization = optimization\n", "        self._optimization = optimization.lower()\n")],
    "a metric made with a direction in capitals", "the direction is accepted and stored differently",
    '''
f = NumericFunction("f")
assert accepts(Metric, f, "maximize")
assert not accepts(Metric, f, "MAXIMIZE")
''')
bug("c28-constant-type", "C28",
    [(TM, "        super().__init__(name, type_tags={type_tag} if type_tag is not None else None)\n", "        super().__init__(\n            name,\n            type_tags={type_tag} if type_tag is not None and type_tag != \"object\" else None,\n        )\n")],
    "a constant of type object", "the constant has no type",
    '''
assert Constant("a", "t").type_tag == "t"
assert Constant("a", "object").type_tag == "object"
''')
bug("c29-cache", "C29",
    [(IN, "    from pddl.parser.plan import PlanParser\n\n    with open(fn, \"r\") as f:\n        plantext = f.read()\n    return PlanParser()(plantext)", "    import os\n\n    from pddl.parser.plan import PlanParser\n\n    key = os.path.abspath(fn), os.path.getsize(fn)\n    plans = globals().setdefault(\"_plans\", {})\n    if key not in plans:\n        with open(fn, \"r\") as f:\n            plantext = f.read()\n        plans[key] = PlanParser()(plantext)\n    return plans[key]")],
    "a plan file that is read, overwritten with another text of the same length, and read again", "the plan read first is given again",
    '''
import pddl
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "f")
    for text in ("(a b)", "(a b c)", "(a c)"):
        open(f, "w").write(text)
        assert str(pddl.parse_plan(f)) == text
''')
bug("c29-line-ends", "C29",
    [(IN, "    with open(fn, \"r\") as f:\n        ptext = f.read()\n", "    with open(fn, \"r\", newline=\"\\n\") as f:\n        ptext = f.read()\n")],
    "a problem file with carriage returns as line ends and a comment", "the rest of the file is taken for the comment",
    '''
import pddl
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "f")
    for end in ("\\n", "\\r\\n", "\\r"):
        open(f, "w", newline="").write(end.join(["(define ; comment", "(problem n) (:domain d) (:init) (:goal (and)))", ""]))
        assert accepts(pddl.parse_problem, f), repr(end)
''')
bug("c30-imply-requirement", "C30",
    [(PD, "            raise PDDLMissingRequirementError(Requirements.DIS_PRECONDITION)\n        return Imply(args[2], args[3])\n", "            raise PDDLMissingRequirementError(Requirements.CONDITIONAL_EFFECTS)\n        return Imply(args[2], args[3])\n")],
    "an implication without its requirement", "the error names another requirement",
    '''
from pddl.exceptions import PDDLMissingRequirementError
from lark.exceptions import VisitError
T = "(define (domain d) (:requirements %s) (:predicates (p)) (:action a :parameters () :precondition (imply (p) (p))))"
try:
    DomainParser()(T % ":strips")
    raise SystemExit(1)
except VisitError as e:
    assert accepts(DomainParser(), T % e.orig_exc.requirement)
except PDDLMissingRequirementError as e:
    assert accepts(DomainParser(), T % e.requirement)
''')
bug("c30-unknown-action", "C30",
    [(C, "            if action_name not in name_to_schema:\n                raise ValueError(f\"Action {action_name} not found in domain.\")\n            action_schema = name_to_schema[action_name]\n", "            action_schema = name_to_schema[action_name]\n")],
    "instantiating a plan with an unknown action", "a KeyError is raised",
    '''
try:
    Plan([("a", [])]).instantiate(Domain("d"))
    raise SystemExit(1)
except (ValueError, PDDLError) as e:
    print(e)
''')
bug("c31-repeated-literal", "C31",
    [(PP, '        return "init", flat_args\n', '        if any(a == b and isinstance(a, Not) for a, b in zip(flat_args, flat_args[1:])):\n            raise PDDLParsingError("repeated literal")\n        return "init", [x for x in flat_args if x is not None]\n')],
    "a negative initial literal that is written twice in a row", "the problem is rejected",
    '''
T = "(define (problem n) (:domain d) (:init %s) (:goal (and)))"
assert ProblemParser()(T % "(not (p)) (q) (not (p))") == ProblemParser()(T % "(not (p)) (q)")
assert accepts(ProblemParser(), T % "(not (p)) (not (p)) (q)")
''')
bug("c31-requirement-order", "C31",
    [(PD, "        self._requirements = {Requirements(r[1:]) for r in args[2:-1]}\n        self._extended_requirements = _extend_domain_requirements(self._requirements)\n\n        return dict(requirements=self._requirements)\n",
          "        self._requirements = {Requirements(r[1:]) for r in args[2:-1]}\n        self._extended_requirements = _extend_domain_requirements(\n            {Requirements(r[1:]) for r in args[2:-1][:9]}\n        )\n\n        return dict(requirements=self._requirements)\n")],
    "a requirement that is listed after nine others and implies others", "what it implies is not known",
    '''
R = ":strips :typing :negative-preconditions :conditional-effects :derived-predicates :fluents :numeric-fluents :non-deterministic :action-costs".split()
T = "(define (domain d) (:requirements %s) (:action a :parameters (?x ?y) :precondition (= ?x ?y)))"
assert DomainParser()(T % " ".join([":adl"] + R)) == DomainParser()(T % " ".join(R + [":adl"]))
''')
bug("c32-check-adopts", "C32",
    [(C, "        types = Types(domain.types, domain.requirements, skip_checks=True)  # type: ignore\n        type_checker = TypeChecker(types, domain.requirements)\n        type_checker.check_type(self.objects)\n        type_checker.check_type(self.init)\n        type_checker.check_type(self.goal)\n",
         "        own, self._domain = self._domain, domain\n        types = Types(domain.types, self.requirements, skip_checks=True)  # type: ignore\n        type_checker = TypeChecker(types, self.requirements)\n        type_checker.check_type(self.objects)\n        type_checker.check_type(self.init)\n        type_checker.check_type(self.goal)\n        self._domain = own\n")],
    "a check that fails because of a type", "the problem keeps the domain",
    '''
d = Domain("d", requirements=[Requirements.TYPING], types={"t": None})
p = Problem("n", domain_name="d", objects=[Constant("c", "u")])
before = str(p)
assert not accepts(p.check, d)
assert str(p) == before
''')

# ================================================================ third batch
IN = "pddl/__init__.py"
bug("c01-object-type", "C01",
    [(F, "                        if t.type_tags\n                        else f\" ?{t.name}\"\n                    )\n            result += \") \"\n", "                        if any(tag != \"object\" for tag in t.type_tags)\n                        else f\" ?{t.name}\"\n                    )\n            result += \") \"\n")],
    "a predicate with a parameter of type object", "the type is not printed, so it is read back as untyped",
    '''
d = DomainParser()("(define (domain d) (:requirements :typing) (:predicates (p ?x - object ?y)))")
assert DomainParser()(str(d)) == d
''')
bug("c02-repeated-argument", "C02",
    [(PP, "        objects = [Constant(x) for x in args[2:-1]]\n", "        objects = list(dict.fromkeys(Constant(x) for x in args[2:-1]))\n")],
    "an initial value of a function applied twice to one object", "the repeated argument is dropped when the printed text is read",
    '''
a = Constant("a")
p = Problem("n", domain_name="d", objects=[a], init=[FEqualTo(NumericFunction("f", a, a), NumericValue(1))])
assert ProblemParser()(str(p)) == p
''')
bug("c03-eq-case", "C03",
    [(C, "        return isinstance(other, Plan) and self._actions == other._actions\n", "        return isinstance(other, Plan) and [\n            (n.lower(), list(p)) for n, p in self._actions\n        ] == [(n.lower(), list(p)) for n, p in other._actions]\n")],
    "two plans with action names that differ by letter case", "they compare equal",
    '''
assert PlanParser()("(a c)\\n(b)") != PlanParser()("(A c)\\n(b)")
assert PlanParser()("(a c)\\n(b)") == PlanParser()("(a c) (b)")
''')
bug("c04-overload", "C04",
    [(PD, "        return dict(predicates=predicates)\n", "        return dict(predicates=list(self._predicates_by_name.values()))\n")],
    "two predicates of one name", "only the last one is declared",
    '''
d = DomainParser()("(define (domain d) (:predicates (p) (p ?x)))")
assert d.predicates == {Predicate("p"), Predicate("p", Variable("x"))}
''')
bug("c05-imply-same", "C05",
    [(PD, "        return Imply(args[2], args[3])\n", "        return And() if args[2] == args[3] else Imply(args[2], args[3])\n")],
    "an implication of a formula from itself", "it is replaced by the empty conjunction",
    '''
d = DomainParser()("(define (domain d) (:requirements :adl) (:predicates (p)) (:action a :parameters () :precondition (imply (p) (p))))")
assert next(iter(d.actions)).precondition == Imply(P, P)
''')
bug("c05-oneof-flatten", "C05",
    [(PD, "            return OneOf(*args[2:-1])\n", "            return OneOf(\n                *(\n                    x\n                    for op in args[2:-1]\n                    for x in (op.operands if isinstance(op, OneOf) else [op])\n                )\n            )\n")],
    "a nondeterministic effect inside another one", "the alternatives are merged",
    '''
d = DomainParser()("(define (domain d) (:requirements :non-deterministic) (:predicates (p) (q) (r)) (:action a :parameters () :effect (oneof (p) (oneof (q) (r)))))")
assert next(iter(d.actions)).effect == OneOf(P, OneOf(Q, Predicate("r")))
''')
bug("c06-nested-arithmetic", "C06",
    [(UT, "    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]\n):\n    new_operands = []\n    for operand in formula.operands:\n        new_operand = _update_type_tags(operand, var_to_types)\n", "    formula: BinaryFunction, var_to_types: Mapping[str, Optional[FrozenSet[namelike]]]\n):\n    new_operands = []\n    known = len(formula.operands) > 2\n    for operand in formula.operands:\n        new_operand = operand if known else _update_type_tags(operand, var_to_types)\n")],
    "a sum of three functions of a quantified variable", "the occurrences have no types",
    '''
d = DomainParser()("(define (domain d) (:requirements :adl :fluents) (:types t) (:functions (f ?x - t)) (:action a :parameters () :precondition (forall (?x - t) (> (+ 1 2 (f ?x)) 0))))")
c = next(iter(d.actions)).precondition.condition
assert c.operands[0].operands[2].terms[0].type_tags == {"t"}
''')
bug("c07-repeated-argument", "C07",
    [(PP, "                for _term_name in args[2:-1]\n            ]\n", "                for _term_name in dict.fromkeys(args[2:-1])\n            ]\n")],
    "an initial literal with the same object twice", "the repeated object is dropped",
    '''
p = ProblemParser()("(define (problem n) (:domain d) (:objects a b) (:init (p a b a)) (:goal (and)))")
a, b = Constant("a"), Constant("b")
assert p.init == {Predicate("p", a, b, a)}
''')
bug("c08-invert-implication", "C08",
    [(B, '        """Negate the formula."""\n        return Not(self)\n', '        """Negate the formula."""\n        if not isinstance(self, BinaryOp):\n            return Not(arg=self)\n        dual = Or if isinstance(self, And) else And\n        return dual(*(Not(op) for op in self.operands))\n')],
    "the ~ operator applied to an implication", "the negation of an implication is the conjunction of the negations of its parts",
    '''
f = ~Imply(P, Q)
assert not (isinstance(f, And) and set(f.operands) == {Not(P), Not(Q)})
''')
bug("c09-negative-number", "C09",
    [(PD, "        op = None\n        if args[1] == Symbols.MINUS.value:\n            op = Minus\n", "        op = None\n        if args[1] == Symbols.MINUS.value and isinstance(args[2], NumericValue):\n            return NumericValue(-args[2].value)\n        if args[1] == Symbols.MINUS.value:\n            op = Minus\n"),
     (PD, "            if not isinstance(args[0], NumericFunction):\n                return NumericValue(args[0])\n            return args[0]\n        op = None\n", "            if isinstance(args[0], NumericFunction):\n                return args[0]\n            return NumericValue(args[0])\n        op = None\n")],
    "a difference whose first operand is a number", "the second operand is dropped",
    '''
d = DomainParser()("(define (domain d) (:requirements :fluents) (:functions (f)) (:action a :parameters () :precondition (> (f) (- 3 (f)))))")
assert next(iter(d.actions)).precondition == GreaterThan(NumericFunction("f"), Minus(NumericValue(3), NumericFunction("f")))
''')
bug("c10-memo-text", "C10",
    [(AC, "        instantiation = {param: const for param, const in zip(self.parameters, mapping)}\n\n        return Action(\n", "        instantiation = {param: const for param, const in zip(self.parameters, mapping)}\n        key = \" \".join(map(str, mapping))\n        if key in self._instances:\n            return self._instances[key]\n\n        self._instances[key] = result = Action(\n"),
     (AC, "            effect=self.effect.instantiate(instantiation) if self.effect else None,\n        )\n", "            effect=self.effect.instantiate(instantiation) if self.effect else None,\n        )\n        return result\n"),
     (AC, "        self._effect = effect\n", "        self._effect = effect\n        self._instances = {}\n")],
    "an action instantiated twice with variables of the same names and other types", "the second call returns the result of the first",
    '''
x = Variable("x", ["t"])
a = Action("a", [x], precondition=Predicate("p", x))
for v in (Variable("y", ["t"]), Variable("y", ["u"])):
    assert a.instantiate([v]).precondition == Predicate("p", v)
''')
bug("c11-empty-arguments", "C11",
    [(C, "            instantiated_action = action_schema.instantiate(parameters)\n", "            instantiated_action = (\n                action_schema.instantiate(parameters) if parameters else action_schema\n            )\n")],
    "a step without arguments for an action that has parameters", "the step is not rejected",
    '''
d = Domain("d", actions=[Action("a", [Variable("x")]), Action("b", [])])
assert not accepts(Plan([("b", []), ("a", [])]).instantiate, d)
''')
bug("c11-object-case", "C11",
    [(C, "        all_objects = problem.objects | domain.constants\n", "        all_objects = {o.name.lower() for o in problem.objects | domain.constants}\n"),
     (C, "                all(param in all_objects for param in parameters),\n", "                all(param.name.lower() in all_objects for param in parameters),\n")],
    "a plan with an object in another letter case", "the check succeeds",
    '''
d = Domain("d", actions=[Action("a", [Variable("x")])])
p = Problem("n", domain=d, objects=[Constant("obj")])
assert accepts(Plan([("a", [Constant("obj")])]).check, d, p)
assert not accepts(Plan([("a", [Constant("OBJ")])]).check, d, p)
''')
bug("c12-object-parent", "C12",
    [(V, "        supertypes = {t for t in type_dict.values() if t is not None}\n", "        supertypes = {t for t in type_dict.values() if t not in (None, OBJECT_TYPE)}\n")],
    "types below 'object' in a domain without :typing", "the supertype is accepted without the requirement",
    '''
assert not accepts(Domain, "d", types={"a": "object"})
assert accepts(Domain, "d", types={"a": "object"}, requirements=[Requirements.TYPING])
''')
bug("c13-third-operand", "C13",
    [(V, "        self.check_type(binary_function.operands)\n", "        self.check_type(binary_function.operands[:2])\n")],
    "an undeclared type in the third operand of a sum", "it is not noticed",
    '''
x = Variable("x", ["u"])
f, g = NumericFunction("f"), NumericFunction("g", x)
a = Action("a", [], precondition=GreaterThan(f, Plus(f, NumericValue(1), g)))
assert not accepts(Domain, "d", requirements=[Requirements.TYPING, Requirements.FLUENTS], types={"t": None}, actions=[a])
''')
bug("c14-no-objects", "C14",
    [(C, "        type_checker.check_type(self.objects)\n        type_checker.check_type(self.init)\n        type_checker.check_type(self.goal)\n", "        if self.objects or self.init:\n            type_checker.check_type(self.objects)\n            type_checker.check_type(self.init)\n            type_checker.check_type(self.goal)\n")],
    "a problem without objects and initial state whose goal has an undeclared type", "the type is not checked",
    '''
d = Domain("d", requirements=[Requirements.ADL], types={"t": None})
g = ForallCondition(P, [Variable("x", ["u"])])
assert not accepts(Problem, "n", domain=d, goal=g)
''')
bug("c15-empty-quantifier", "C15",
    [(PD, "            & self._extended_requirements\n        ):\n            raise PDDLMissingRequirementError(req)\n", "            & self._extended_requirements\n        ) and len(args[3]) != 0:\n            raise PDDLMissingRequirementError(req)\n")],
    "a quantifier without variables and without its requirement", "the quantifier is accepted",
    '''
T = "(define (domain d) (:requirements :strips) (:predicates (p)) (:action a :parameters () :precondition (%s (%s) (p))))"
for k in ("forall", "exists"):
    for v in ("", "?x"):
        assert not accepts(DomainParser(), T % (k, v))
''')
bug("c16-length", "C16",
    [(CT, '    REGEX = re.compile("[A-Za-z][-_A-Za-z0-9]*")\n', '    REGEX = re.compile("[A-Za-z][-_A-Za-z0-9]{,63}")\n')],
    "a name of more than 64 characters", "the name is rejected",
    '''
for n in ("a" * 64, "a" * 65, "block-" * 20 + "x"):
    assert accepts(Constant, n)
''')
bug("c17-metric-text", "C17",
    [(FN, "            and self.expression == other.expression\n", "            and str(self.expression) == str(other.expression)\n")],
    "two metrics with the values 1 and 1.0", "they are different although their parts are equal",
    '''
assert Metric(Plus(NumericFunction("f"), NumericValue(1))) == Metric(Plus(NumericFunction("f"), NumericValue(1.0)))
''')
bug("c18-value-tolerance", "C18",
    [(FN, "        return self.value < other.value\n", "        return other.value - self.value > 1e-9\n")],
    "two values that differ by less than 1e-9", "they are unordered though different",
    '''
a, b = NumericValue(0.0), NumericValue(1e-10)
assert a != b and (a < b) and not (b < a)
''')
bug("c19-problem-copy", "C19",
    [(C, '    def _check_consistency(self) -> None:\n        """Check consistency of the PDDL Problem instance object."""\n        if self._domain is not None:\n            self.check(self._domain)\n',
      '    def _check_consistency(self) -> None:\n        """Check consistency of the PDDL Problem instance object."""\n        if self._domain:\n            self.check(self._domain)\n\n    def __copy__(self) -> "Problem":\n        """Copy the problem."""\n        return Problem(\n            self._name,\n            domain=self._domain,\n            domain_name=self._domain_name,\n            requirements=self._requirements,\n            objects=self._objects,\n            init=self._init,\n            goal=self._goal,\n        )\n')],
    "a shallow copy of a problem with a metric", "the metric is lost",
    '''
p = Problem("n", domain_name="d", metric=Metric(NumericFunction("f")))
assert copy.copy(p) == p and str(copy.copy(p)) == str(p)
''')
bug("c20-overload-types", "C20",
    [(F, "    for p in sorted(predicates):\n", "    for p in sorted(predicates, key=lambda p: (p.name, p.arity)):\n")],
    "two predicates with one name and arity and different types", "their order in the text depends on the order of a set",
    '''
code = "from pddl.core import Domain; from pddl.logic.predicates import Predicate; from pddl.logic.terms import Variable; from pddl.requirements import Requirements; ts = ['t%d' % i for i in range(7)]; print(Domain('d', [Requirements.TYPING], {t: None for t in ts}, predicates=[Predicate('p', Variable('v' + t, [t])) for t in ts]))"
out = {subprocess.run([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=str(s)), capture_output=True, text=True, check=True).stdout for s in range(8)}
assert len(out) == 1
''')
bug("c21-constant-registry", "C21",
    [(PD, "        constant = self._constants_by_name.get(args[0], None)\n", "        seen = self.__dict__.setdefault(\"_constants_seen\", {})\n        seen.update(self._constants_by_name)\n        constant = seen.get(args[0], None)\n")],
    "a text that uses a constant only the text before it declared", "the text is accepted",
    '''
T = "(define (domain d) %s (:predicates (p ?x)) (:action a :parameters () :precondition (p c)))"
q = DomainParser()
assert accepts(q, T % "(:constants c)") and not accepts(q, T % "")
''')
bug("c22-check-requirements", "C22",
    [(C, '            self._requirements is None or self._requirements <= domain.requirements,\n            "Requirements don\'t match.",\n        )\n', '            self._requirements is None or self._requirements <= domain.requirements,\n            "Requirements do not match.",\n        )\n        if self._requirements is None:\n            self._requirements = domain.requirements\n')],
    "a check of a problem that states no requirements", "the problem gets those of the domain",
    '''
p = Problem("n", domain_name="d")
before = str(p)
p.check(Domain("d", requirements=[Requirements.TYPING]))
assert str(p) == before
''')
bug("c23-repeated-variable", "C23",
    [(PD, "            # if the term has no type tags, we try to use the type tags from the predicate definition\n", "            if term.name in current_var_to_types:\n                continue  # the types of this variable are known\n\n            # if the term has no type tags, we try to use the type tags from the predicate definition\n"),
     (PD, "                # otherwise, we use the type tags from the definition of the derived predicate\n", "                # we use the type tags from the definition of the derived predicate\n")],
    "a derived predicate with one variable at two positions of different declared types", "the second position is not checked",
    '''
T = "(define (domain d) (:requirements :typing :derived-predicates) (:types a b) (:predicates (p ?x - a ?y - b)) (:derived (p ?x - a ?x - a) (and)))"
assert not accepts(DomainParser(), T)
''')
bug("c24-cost-by-fluents", "C24",
    [(V, "                    Requirements.ACTION_COSTS in requirements,\n", "                    Requirements.ACTION_COSTS in requirements\n                    or Requirements.FLUENTS in requirements,\n")],
    "total-cost in a domain with :fluents", "it is accepted without :action-costs",
    '''
f = {NumericFunction("total-cost"): None}
assert not accepts(Domain, "d", requirements=[Requirements.FLUENTS], functions=f)
assert accepts(Domain, "d", requirements=[Requirements.ACTION_COSTS], functions=f)
''')
bug("c25-comment-join", "C25",
    [(PB, "            result = cast(T, parser.parse(text))\n", "            # comments carry no meaning\n            result = cast(T, parser.parse(re.sub(r\";[^\\n]*\\n?\", \"\", text)))\n"),
     (PB, "import sys\nfrom abc", "import re\nimport sys\nfrom abc")],
    "a comment right after a name with another name at the start of the next line", "the names are joined",
    '''
T = "(define (problem n) (:domain d) (:objects a%sb) (:init) (:goal (and)))"
assert ProblemParser()(T % ";x\\n") == ProblemParser()(T % " ")
''')
bug("c26-empty-plan", "C26",
    [(MN, "    print(problem_to_string(problem))\n    if plan_file is None:\n", "    print(problem_to_string(problem))\n    if plan_file is None or os.path.getsize(plan_file) <= 1:\n")],
    "a plan file of one character that is not white space", "it is not parsed",
    '''
with tempfile.TemporaryDirectory() as t:
    for n, x in (("d", "(define (domain d))"), ("p", "(define (problem n) (:domain d) (:init) (:goal (and)))"), ("q", "x")):
        open(os.path.join(t, n), "w").write(x)
    assert subprocess.run([sys.executable, "-m", "pddl"] + [os.path.join(t, n) for n in "dpq"], capture_output=True).returncode != 0
''')
bug("c27-trailing", "C27",
    [(PB, "            result = cast(T, parser.parse(text))\n", "            # what follows the last parenthesis is a comment\n            result = cast(T, parser.parse(text[: text.rfind(\")\") + 1]))\n")],
    "a word after the end of a text", "the text is accepted",
    '''
T = "(define (domain d))"
assert accepts(DomainParser(), T) and accepts(DomainParser(), T + " ; comment") and not accepts(DomainParser(), T + " end")
''')
bug("c28-merge-quantifiers", "C28",
    [(B, "        self._cond = cond\n        self._variables = ensure_set(variables)\n", "        if type(cond) is type(self):\n            # Qx Qy f is Q x,y f\n            variables = {*ensure_set(variables), *cond.variables}\n            cond = cond.condition\n        self._cond: Formula = cond\n        self._variables = ensure_set(variables)\n")],
    "a quantifier directly inside another of the same kind", "the two are merged",
    '''
x, y = Variable("x"), Variable("y")
f = ForallCondition(ForallCondition(P, [y]), [x])
assert f.variables == {x} and f.condition == ForallCondition(P, [y])
''')
bug("c29-ascii", "C29",
    [(IN, '    with open(fn, "r") as f:\n        ptext = f.read()\n', '    with open(fn, "r", encoding="ascii") as f:\n        ptext = f.read()\n')],
    "a problem file with a letter outside of ASCII in a comment", "the file is rejected",
    '''
import pddl
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "f")
    open(f, "w").write("(define (problem n) (:domain d) ; caf\\u00e9\\n (:init) (:goal (and)))")
    assert pddl.parse_problem(f) == ProblemParser()(open(f).read())
''')
bug("c30-instantiate-lookup", "C30",
    [(C, "            if action_name not in name_to_schema:\n                raise ValueError(f\"Action {action_name} not found in domain.\")\n            action_schema = name_to_schema[action_name]\n",
      "            action_schema = name_to_schema[action_name]\n")],
    "instantiating a plan with an unknown action", "a KeyError is raised",
    '''
try:
    Plan([("a", [])]).instantiate(Domain("d"))
    raise SystemExit(1)
except (ValueError, PDDLError) as e:
    print(e)
''')
bug("c31-opposite-literal", "C31",
    [("pddl/parser/problem.py", "        return \"init\", flat_args\n", "        return \"init\", [\n            x for i, x in enumerate(flat_args) if Not(x) not in flat_args[:i]\n        ]\n")],
    "an initial literal and its negation", "the positive one is dropped when it comes second",
    '''
from pddl.parser.problem import ProblemParser
T = "(define (problem n) (:domain d) (:init %s) (:goal (and)))"
assert ProblemParser()(T % "(p) (not (p))") == ProblemParser()(T % "(not (p)) (p)")
''')
bug("c32-check-name", "C32",
    [(C, '            "Domain names don\'t match.",\n        )\n        validate(\n            self._requirements is None', '            "Domain names do not match.",\n        )\n        self._domain_name = domain.name\n        validate(\n            self._requirements is None')],
    "a failing check against a domain whose name has another letter case", "the problem gets the name of that domain",
    '''
p = Problem("n", domain_name="DD", requirements=[Requirements.TYPING])
before = str(p)
assert not accepts(p.check, Domain("dd"))
assert str(p) == before
''')
