"""Objects with one long list, or one deep nesting, of given names: used by several checks."""

from hx.lib import NOTYPE, R, build, fixed, norm, read, read_action, read_domain, read_plan, read_problem

N, T1, T2, Q = fixed("n"), fixed("t"), fixed("u"), fixed("q")
TYPES = [None, T1, T2, T1]


def _terms(xs):
    return tuple([("c", x) if i % 2 else ("v", x, NOTYPE) for i, x in enumerate(xs)])


def _lits(xs):
    return tuple([("not", ("pred", x, ())) if i % 2 else ("pred", x, ()) for i, x in enumerate(xs)])


def _vars(xs):
    return tuple([(x, frozenset([T1]) if 2 * i < len(xs) else NOTYPE) for i, x in enumerate(xs)])


def _left(op, xs):
    f = ("fn", xs[0], ())
    for x in xs[1:]:
        f = ("arith", op, (f, ("fn", x, ())))
    return f


def _deep(xs):
    f = ("pred", xs[0], ())
    for i, x in enumerate(xs[1:]):
        p = ("pred", x, ())
        f = [lambda: ("imply", p, ("not", f)), lambda: ("or", (f, ("not", p))), lambda: ("forall", ((x, NOTYPE),), ("and", (f, p))), lambda: ("not", ("and", (p, f)))][i % 4]()
    return f


def _deep_effect(xs):
    p = [("pred", x, ()) for x in xs]
    f = ("when", p[0], ("and", tuple([("not", q) if i % 2 else q for i, q in enumerate(p[1:3])])))
    for i, x in enumerate(xs[3:]):
        q = p[i + 3]
        f = [lambda: ("feff", ((x, NOTYPE),), f), lambda: ("and", (("not", q), ("oneof", (f, q)))), lambda: ("oneof", (q, f))][i % 3]()
    return f


SPECS = {
    "predicate terms": lambda xs: ("pred", N, _terms(xs)),
    "function terms": lambda xs: ("fn", N, _terms(xs)),
    "and": lambda xs: ("and", _lits(xs)),
    "or": lambda xs: ("or", _lits(xs)),
    "oneof": lambda xs: ("oneof", _lits(xs)),
    "sum": lambda xs: ("arith", "+", tuple([("fn", x, ()) for x in xs])),
    "product": lambda xs: ("arith", "*", tuple([("fn", x, ()) for x in xs])),
    "difference": lambda xs: _left("-", xs),
    "quotient": lambda xs: _left("/", xs),
    "forall": lambda xs: ("forall", _vars(xs), ("pred", N, ())),
    "exists": lambda xs: ("exists", _vars(xs), ("pred", N, ())),
    "feff": lambda xs: ("feff", _vars(xs), ("pred", N, ())),
    "deep condition": _deep,
    "deep effect": _deep_effect,
}


def _domain(**kw):
    from pddl.core import Domain

    base = dict(requirements=R("TYPING", "NUMERIC_FLUENTS"), types={T1: None, T2: T1})
    base.update(kw)
    return Domain(N, **base)


def _problem(**kw):
    from pddl.core import Problem

    return Problem(N, domain_name=N, requirements=R("TYPING"), **kw)


def _variable(xs):
    from pddl.logic.terms import Variable

    return Variable(N, list(xs))


def _action(xs):
    from pddl.action import Action

    return Action(N, variables(xs), build(("pred", N, ())), build(("not", ("pred", N, ()))))


def variables(xs):
    from pddl.logic.terms import Variable

    return [Variable(x, [T1] if i % 3 == 1 else None) for i, x in enumerate(xs)]


def constants(xs):
    from pddl.logic.terms import Constant

    return [Constant(x, TYPES[i % 4]) for i, x in enumerate(xs)]


def predicates(xs):
    from pddl.logic.predicates import Predicate

    return [Predicate(x, *variables([N, Q])[: i % 3]) for i, x in enumerate(xs)]


def functions(xs):
    from pddl.logic.functions import NumericFunction

    return {NumericFunction(x, *variables([N, Q])[: i % 3]): None for i, x in enumerate(xs)}


def derived(xs):
    from pddl.logic.predicates import DerivedPredicate, Predicate

    return [DerivedPredicate(Predicate(x), ~Predicate(N) if i % 2 else Predicate(Q)) for i, x in enumerate(xs)]


def actions(xs):
    from pddl.action import Action
    from pddl.logic.predicates import Predicate

    return [Action(x, variables([N, Q])[: i % 3], Predicate(N), ~Predicate(Q) if i % 2 else Predicate(N)) for i, x in enumerate(xs)]


def literals(xs):
    from pddl.logic.predicates import Predicate

    cs = constants([N, Q])
    return [~Predicate(x, *cs[: i % 3]) if i % 2 else Predicate(x, *cs[: i % 3]) for i, x in enumerate(xs)]


def values(xs):
    from pddl.logic.functions import EqualTo, NumericFunction, NumericValue

    return [EqualTo(NumericFunction(x), NumericValue(i)) for i, x in enumerate(xs)]


def _plan(steps):
    from pddl.core import Plan
    from pddl.logic.terms import Constant

    return Plan([(a, [Constant(c) for c in cs]) for a, cs in steps])


def _chain(xs):
    return {x: (None if i == 0 else xs[i - 1]) for i, x in enumerate(xs)}


def tagged(m):
    return lambda xs: frozenset([(x, i % m) for i, x in enumerate(xs)])


# name -> (constructor from the names, what tells two of them apart, reader, hashable)
OBJECTS = {
    "variable types": (_variable, frozenset, lambda v: (v.name, v.type_tags), True),
    "parameters": (_action, tuple, read_action, True),
    "type chain": (lambda xs: _domain(types=_chain(xs)), tuple, read_domain, False),
    "types": (lambda xs: _domain(types={x: (T1 if i % 2 else T2) for i, x in enumerate(xs)}), tagged(2), read_domain, False),
    "constants": (lambda xs: _domain(constants=constants(xs)), frozenset, read_domain, False),
    "predicates": (lambda xs: _domain(predicates=predicates(xs)), tagged(3), read_domain, False),
    "functions": (lambda xs: _domain(functions=functions(xs)), tagged(3), read_domain, False),
    "derived": (lambda xs: _domain(predicates=predicates(xs[:0]), derived_predicates=derived(xs)), tagged(2), read_domain, False),
    "actions": (lambda xs: _domain(actions=actions(xs)), tagged(6), read_domain, False),
    "objects": (lambda xs: _problem(objects=constants(xs)), frozenset, read_problem, False),
    "init": (lambda xs: _problem(init=literals(xs)), tagged(6), read_problem, False),
    "values": (lambda xs: _problem(init=values(xs)), tagged(99), read_problem, False),
    "goal": (lambda xs: _problem(goal=build(("and", _lits(xs)))), lambda xs: norm(("and", _lits(xs))), read_problem, False),
    "steps": (lambda xs: _plan([(x, [N, x][: i % 3]) for i, x in enumerate(xs)]), tuple, read_plan, False),
    "arguments": (lambda xs: _plan([(N, xs), (Q, xs[::-1])]), tuple, read_plan, False),
}
KINDS = list(SPECS) + list(OBJECTS)
ORDERED = {"predicate terms", "function terms", "difference", "quotient", "deep condition", "deep effect", "parameters", "type chain", "steps", "arguments",
           "and", "or", "oneof", "sum", "product", "goal"}


def make(kind, xs):
    return build(SPECS[kind](xs)) if kind in SPECS else OBJECTS[kind][0](xs)


def key(kind, xs):
    return norm(SPECS[kind](xs)) if kind in SPECS else OBJECTS[kind][1](xs)


def reader(kind):
    return (lambda f: norm(read(f))) if kind in SPECS else OBJECTS[kind][2]


def hashable(kind):
    return kind in SPECS or OBJECTS[kind][3]


def reordered(kind, names, order, col):
    """The object of a kind whose collection is given in another order, in a list or a set."""
    from pddl.logic import base, effects
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Variable

    c = lambda xs: col(order(xs))  # noqa: E731
    return {
        "variable types": lambda: Variable(N, c(names)),
        "types": lambda: _domain(types=dict(order([(x, T1 if i % 2 else T2) for i, x in enumerate(names)]))),
        "constants": lambda: _domain(constants=c(constants(names))),
        "predicates": lambda: _domain(predicates=c(predicates(names))),
        "functions": lambda: _domain(functions=dict(order(list(functions(names).items())))),
        "derived": lambda: _domain(derived_predicates=c(derived(names))),
        "actions": lambda: _domain(actions=c(actions(names))),
        "objects": lambda: _problem(objects=c(constants(names))),
        "init": lambda: _problem(init=c(literals(names))),
        "values": lambda: _problem(init=c(values(names))),
        "forall": lambda: base.ForallCondition(Predicate(N), c(variables(names))),
        "exists": lambda: base.ExistsCondition(Predicate(N), c(variables(names))),
        "feff": lambda: effects.Forall(Predicate(N), c(variables(names))),
    }[kind]()


def _consts(cs):
    return frozenset([(c.name, c.type_tag) for c in cs])


def _arity(xs):
    return frozenset([(x.name, len(x.terms)) for x in xs])


def _atom(f):
    from pddl.logic.base import Not

    neg = isinstance(f, Not)
    p = f.argument if neg else f
    return neg, p.name, tuple([t.name for t in p.terms])


# the part of an object that holds the elements, and what it has to be
HELD = {
    "variable types": lambda v: frozenset(v.type_tags),
    "parameters": lambda a: [(v.name, frozenset(v.type_tags)) for v in a.parameters],
    "type chain": lambda d: dict(d.types),
    "types": lambda d: dict(d.types),
    "constants": lambda d: _consts(d.constants),
    "predicates": lambda d: _arity(d.predicates),
    "functions": lambda d: _arity(d.functions),
    "derived": lambda d: frozenset([(p.predicate.name, read(p.condition)) for p in d.derived_predicates]),
    "actions": lambda d: frozenset([(a.name, len(a.parameters), read(a.precondition), read(a.effect)) for a in d.actions]),
    "objects": lambda p: _consts(p.objects),
    "init": lambda p: frozenset([_atom(f) for f in p.init]),
    "values": lambda p: frozenset([(e.operands[0].name, e.operands[1].value) for e in p.init]),
    "steps": lambda p: [(a, [c.name for c in cs]) for a, cs in p.actions],
    "arguments": lambda p: [(a, [c.name for c in cs]) for a, cs in p.actions],
}


def want(kind, xs):
    e = list(enumerate(xs))
    p = lambda x: ("pred", x, ())  # noqa: E731
    return {
        "variable types": lambda: frozenset(xs),
        "parameters": lambda: [(x, frozenset([T1]) if i % 3 == 1 else NOTYPE) for i, x in e],
        "type chain": lambda: _chain(xs),
        "types": lambda: {x: T1 if i % 2 else T2 for i, x in e},
        "constants": lambda: frozenset([(x, TYPES[i % 4]) for i, x in e]),
        "objects": lambda: frozenset([(x, TYPES[i % 4]) for i, x in e]),
        "predicates": lambda: frozenset([(x, i % 3) for i, x in e]),
        "functions": lambda: frozenset([(x, i % 3) for i, x in e]),
        "derived": lambda: frozenset([(x, ("not", p(N)) if i % 2 else p(Q)) for i, x in e]),
        "actions": lambda: frozenset([(x, i % 3, p(N), ("not", p(Q)) if i % 2 else p(N)) for i, x in e]),
        "init": lambda: frozenset([(i % 2 == 1, x, (N, Q)[: i % 3]) for i, x in e]),
        "values": lambda: frozenset([(x, i) for i, x in e]),
        "steps": lambda: [(x, [N, x][: i % 3]) for i, x in e],
        "arguments": lambda: [(N, list(xs)), (Q, list(xs[::-1]))],
    }[kind]()


EFFECTS = {"oneof", "feff", "deep effect"}
EXPRESSIONS = {"function terms", "sum", "product", "difference", "quotient"}


def placed(kind, xs):
    """(specification to write as a condition or effect, is it an effect, parameters, constants) around a kind of SPECS."""
    s = SPECS[kind](xs)
    ts = s[2] if kind.endswith("terms") else ()
    if kind in EXPRESSIONS:
        s = ("cmp", "<", s, ("val", 3))
    return s, kind in EFFECTS, [t for t in ts if t[0] == "v"], [t[1] for t in ts if t[0] == "c"]


MANY = [7, 9, 11, 13, 17, 21, 33]


def many(ctx, kind):
    """Names for a longer list: the one at any of the places is symbolic."""
    n = ctx.choice("n", MANY if ctx.thorough else MANY[:3] + [17])
    xs = [fixed(f"x{i}") for i in range(n)]
    xs[ctx.pick("place", n)] = ctx.name("x")
    return xs
