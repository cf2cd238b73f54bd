"""C20: the printed text does not depend on the order of unordered collections."""

from hx.lib import NOTYPE, R, Scenario, build, fixed

N = fixed(1)
M = fixed(2)
ORDERS = {2: [(1, 0)], 3: [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)], 1: [(0,)], 0: [()]}
HS = 12


def reorder(ctx, xs, label="order"):
    o = ctx.choice(label, ORDERS[len(xs)])
    return [xs[i] for i in o]


def same(ctx, make, xs, printer, what):
    """make(list) builds the object; print it for the given order, then for another one, all set orders symbolic."""
    ctx.permute(False)
    a = make(list(xs))
    ta = printer(a)
    ys = reorder(ctx, xs)
    ctx.permute(True)
    b = make(ys)
    tb = printer(b)
    ctx.observe(ta)
    ctx.observe(tb)
    ctx.permute(False)
    ctx.check(a == b, f"{what}: objects from reordered collections differ")
    ctx.check(ta == tb, f"{what}: two texts of equal objects: {ctx.show(ta)} and {ctx.show(tb)}")
    ctx.check(printer(a) == ta, f"{what}: the text changes from one print to the next")


def asset(ctx, label, xs):
    """The collection as a list, tuple, set or frozen set."""
    return ctx.choice(label, [list, set] + ([tuple, frozenset] if ctx.thorough else []))(xs)


# ------------------------------------------------------------------------------------------------- formulas
def variables(ctx):
    """Quantified variables in any order, typed or not."""
    from pddl.logic import base, effects
    from pddl.logic.terms import Variable

    ctx.canon_hash()
    k = ctx.choice("kind", ["forall", "exists", "feff"])
    cls = {"forall": base.ForallCondition, "exists": base.ExistsCondition, "feff": effects.Forall}[k]
    n = 1 + ctx.pick("n", 3)
    ns = ctx.distinct_names("v", n)
    full = n < 3 or ctx.thorough
    vs = [(x, [ctx.name(f"t{i}") if full else N] if ctx.flag(f"y{i}") else None) for i, x in enumerate(ns)]
    p = build(("pred", N, ()))
    as_set = ctx.flag("set") if full else True
    same(ctx, lambda xs: cls(p, (set if as_set else list)([Variable(v, t) for v, t in xs])), vs, str, k)


def same_variable(ctx):
    """One variable name with two types in one quantifier."""
    from pddl.logic import base, effects
    from pddl.logic.terms import Variable

    ctx.canon_hash()
    k = ctx.choice("kind", ["forall", "exists", "feff"])
    cls = {"forall": base.ForallCondition, "exists": base.ExistsCondition, "feff": effects.Forall}[k]
    x, y = ctx.names("v", 2)
    ts = [ctx.distinct_names(f"t{i}.", ctx.pick(f"k{i}", 3 if ctx.thorough or i == 0 else 2)) for i in range(2)]
    p = build(("pred", N, ()))
    same(ctx, lambda xs: cls(p, [Variable(v, list(t)) for v, t in xs]), [(x, ts[0]), (y, ts[1])], str, k)


def either(ctx):
    """The types of a variable: parameters, quantified variables, predicate and function declarations."""
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic import base, effects
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Variable

    ctx.canon_hash()
    k = ctx.choice("kind", ["forall", "feff", "action", "predicates", "functions", "derived"])
    ts = ctx.distinct_names("t", 2 + ctx.pick("n", 2))
    big = len(ts) == 3 and not ctx.thorough
    p = Predicate(N)
    req = R("TYPING", "NUMERIC_FLUENTS") if k == "functions" else R("TYPING")
    types = {t: None for t in ts}

    def make(xs):
        v = Variable(M, set(xs) if as_set else xs)
        if k == "forall":
            return base.ForallCondition(p, [v])
        if k == "feff":
            return effects.Forall(p, [v])
        if k == "action":
            return Action(N, [v])
        if k == "predicates":
            return Domain(N, requirements=req, types=types, predicates=[Predicate(N, v)])
        if k == "functions":
            return Domain(N, requirements=req, types=types, functions={NumericFunction(N, v): None})
        return Domain(N, requirements=req, types=types, derived_predicates=[DerivedPredicate(Predicate(N, v), p)])

    as_set = big or ctx.flag("set")
    same(ctx, make, ts, str, f"types in {k}")


def effects_text(ctx):
    """Formulas and effects that contain quantifiers below other operators."""
    from pddl.logic import base, effects
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Variable

    ctx.canon_hash()
    k = ctx.choice("kind", ["not", "and", "or", "imply", "when", "when effect", "oneof", "forall forall"])
    ns = ctx.distinct_names("v", 2)
    p = Predicate(ctx.name("p"))

    def make(xs):
        vs = {Variable(x) for x in xs}
        q, e = base.ForallCondition(p, vs), effects.Forall(p, vs)
        return {
            "not": lambda: base.Not(q), "and": lambda: base.And(p, q), "or": lambda: base.Or(q, p),
            "imply": lambda: base.Imply(q, base.ExistsCondition(p, vs)), "when": lambda: effects.When(q, p),
            "when effect": lambda: effects.When(p, base.And(p, p)) if False else effects.Forall(effects.When(p, p), vs),
            "oneof": lambda: base.OneOf(e, p), "forall forall": lambda: effects.Forall(e, {Variable(N)}),
        }[k]()

    same(ctx, make, ns, str, k)


# ------------------------------------------------------------------------------------------------- domains
DPARTS = ["requirements", "types", "types flat", "types two parents", "constants", "typed constants", "predicates", "predicate arities",
          "predicate types", "functions", "typed functions", "derived", "derived conditions", "actions"]


def domains(ctx):
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.formatter import domain_to_string
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable
    from pddl.requirements import Requirements

    ctx.canon_hash()
    w = ctx.choice("part", DPARTS)
    n = 3 if ctx.thorough or w in ("types", "types flat", "types two parents", "constants", "actions", "requirements") else 2
    req = R("NUMERIC_FLUENTS") if "functions" in w else R("DERIVED_PREDICATES") if "derived" in w else R("TYPING")
    col = ctx.choice("collection", [list, set])
    kw = dict(requirements=req)
    xs = ctx.distinct_names("x", n)
    key = "predicates"
    items = xs
    if w == "requirements":
        rs = list(Requirements)
        i = ctx.pick("r", len(rs) - 3)
        items = rs[i:i + 3]
        key, mk = "requirements", lambda ys: col(ys)
    elif w == "types":
        items = [(x, ctx.choice(f"up{i}", [None, "object"] + xs[:i])) for i, x in enumerate(xs)]
        key, mk = "types", dict
    elif w == "types flat":
        key, mk = "types", lambda ys: {y: None for y in ys}
    elif w == "types two parents":
        items = [(x, ctx.choice(f"up{i}", [N, M])) for i, x in enumerate(xs)] + [(N, None), (M, None)]
        key, mk = "types", lambda ys: dict(ys)
        items, tail = items[:3], items[3:]
        mk = lambda ys: dict(list(ys) + tail) if ctx_flag else dict(tail[::-1] + list(ys))  # noqa: E731
        ctx_flag = ctx.flag("parents last")
    elif w in ("constants", "typed constants"):
        kw["types"] = {N: None, M: None}
        items = [(x, ctx.choice(f"t{i}", [None, N, M]) if w != "constants" else None) for i, x in enumerate(xs)]
        key, mk = "constants", lambda ys: col([Constant(*y) for y in ys])
    elif w == "predicates":
        mk = lambda ys: col([Predicate(y) for y in ys])  # noqa: E731
    elif w == "predicate arities":
        items = [(ctx.name(f"p{i}"), i) for i in range(n)]
        mk = lambda ys: col([Predicate(y, *[Variable(N), Variable(M)][:k]) for y, k in ys])  # noqa: E731
    elif w == "predicate types":
        kw["types"] = {N: None, M: None}
        items = [(ctx.name(f"p{i}"), ctx.choice(f"t{i}", [(), (N,), (M,), (N, M)])) for i in range(n)]
        mk = lambda ys: col([Predicate(y, Variable(N, list(t))) for y, t in ys])  # noqa: E731
    elif w in ("functions", "typed functions"):
        key = "functions"
        items = [(ctx.name(f"p{i}"), i, ctx.choice(f"t{i}", [None, "number"]) if w != "functions" else None) for i in range(n)]
        mk = lambda ys: {NumericFunction(y, *[Variable(N), Variable(M)][:k]): t for y, k, t in ys}  # noqa: E731
    elif w == "derived":
        key, mk = "derived_predicates", lambda ys: col([DerivedPredicate(Predicate(y), Predicate(N)) for y in ys])
    elif w == "derived conditions":
        key, mk = "derived_predicates", lambda ys: col([DerivedPredicate(Predicate(N), ~Predicate(y)) for y in ys])
    else:
        items = [(ctx.name(f"p{i}"), x) for i, x in enumerate(xs)]
        key, mk = "actions", lambda ys: col([Action(a, [], effect=Predicate(x)) for a, x in ys])

    def make(ys):
        kw[key] = mk(ys)
        return Domain(N, **kw)

    same(ctx, make, items, domain_to_string if ctx.thorough and ctx.flag("formatter") else str, f"domain with {w}")


def whole(ctx):
    """A domain with every part; only set iteration orders vary while printing."""
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic.base import ForallCondition
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable

    ctx.canon_hash()
    t, c, p, f, d, a = [ctx.distinct_names(x, 2) for x in "tcpfda"]
    v = Variable(N, [t[0]])
    w = ctx.choice("pairs", ["types", "constants", "predicates", "functions", "derived", "actions"])
    two = lambda k, xs: xs if k == w else xs[:1]  # noqa: E731
    types = {x: None for x in two("types", t)}
    req = ["ADL", "NUMERIC_FLUENTS"] if ctx.thorough or w == "functions" else ["ADL"]

    def make(flip):
        o = (lambda xs: xs[::-1]) if flip else (lambda xs: xs)
        return Domain(
            N, requirements=set(o(list(R(*req)))), types=dict(o(list(types.items()))),
            constants=set(o([Constant(x, t[0]) for x in two("constants", c)])),
            predicates=set(o([Predicate(x, v) for x in two("predicates", p)])),
            functions={NumericFunction(x, v): None for x in o(two("functions", f)) if len(req) == 2},
            derived_predicates=set(o([DerivedPredicate(Predicate(x, v), Predicate(p[0], v)) for x in two("derived", d)])),
            actions=set(o([Action(x, [v], precondition=ForallCondition(Predicate(p[0], v), {v})) for x in two("actions", a)])),
        )

    da, db = make(False), make(True)
    ta = str(da)
    ctx.permute(True)
    tb = str(db)
    ctx.permute(False)
    ctx.observe(ta)
    ctx.observe(tb)
    ctx.check(da == db, "reordered domains differ")
    ctx.check(ta == tb, f"two texts of equal domains: {ctx.show(ta)} and {ctx.show(tb)}")


# ------------------------------------------------------------------------------------------------- problems
def problems(ctx):
    from pddl.core import Problem
    from pddl.logic.base import ExistsCondition
    from pddl.logic.functions import EqualTo, NumericFunction, NumericValue
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable
    from pddl.requirements import Requirements

    ctx.canon_hash()
    w = ctx.choice("part", ["requirements", "objects", "typed objects", "init", "init atoms", "fluents", "goal"])
    n = 3 if ctx.thorough or w in ("requirements", "objects", "init", "goal") else 2
    col = ctx.choice("collection", [list, set])
    xs = ctx.distinct_names("x", n)
    kw = dict(requirements=R("TYPING", "NEG_PRECONDITION"), objects=[Constant(N)], init=[Predicate(N)], goal=Predicate(N))
    items, key = xs, "objects"
    if w == "requirements":
        rs = list(Requirements)
        i = ctx.pick("r", len(rs) - 3)
        items = rs[i:i + 3]
        key, mk = w, col
    elif w in ("objects", "typed objects"):
        items = [(x, ctx.choice(f"t{i}", [None, N, M]) if w != "objects" else None) for i, x in enumerate(xs)]
        mk = lambda ys: col([Constant(*y) for y in ys])  # noqa: E731
    elif w == "init":
        key, mk = "init", lambda ys: col([Predicate(y) for y in ys])
    elif w == "init atoms":
        items = [(ctx.name(f"p{i}"), xs[i], ctx.flag(f"not{i}")) for i in range(n)]
        key = "init"
        mk = lambda ys: col([~Predicate(y, Constant(c)) if neg else Predicate(y, Constant(c)) for y, c, neg in ys])  # noqa: E731
    elif w == "fluents":
        items = [(x, ctx.int(f"v{i}")) for i, x in enumerate(xs)]
        key, mk = "init", lambda ys: col([EqualTo(NumericFunction(y), NumericValue(v)) for y, v in ys])
    else:
        key, mk = "goal", lambda ys: ExistsCondition(Predicate(N), col([Variable(y) for y in ys]))

    def make(ys):
        kw[key] = mk(ys)
        return Problem(N, domain_name=N, **kw)

    same(ctx, make, items, str, f"problem with {w}")


# ------------------------------------------------------------------------------------------------- parsed
def parsed(ctx):
    """Two texts that list the same things in another order print the same."""
    from hx.lib import parse_domain_text, parse_problem_text

    ctx.canon_hash()
    w = ctx.choice("part", ["requirements", "types", "constants", "predicates", "functions", "actions", "quantifier", "objects", "init"])
    a, b = ctx.distinct_names("x", 2)
    t, p = N, M

    def text(x, y):
        if w == "requirements":
            r = [":typing", ":equality"] if x is a else [":equality", ":typing"]
            return f"(define (domain {t}) (:requirements {' '.join(r)}))"
        body = {
            "types": f"(:types {x} {y} - {t} {t})", "constants": f"(:constants {x} {y})", "predicates": f"(:predicates ({x}) ({y} ?{x}))" if x is a else f"(:predicates ({x} ?{y}) ({y}))",
            "functions": f"(:functions ({x}) ({y}))", "actions": f"(:action {x} :parameters ()) (:action {y} :parameters ())",
            "quantifier": f"(:predicates ({p})) (:action {t} :parameters () :precondition (forall (?{x} ?{y}) ({p})))",
            "objects": f"(:objects {x} {y}) (:init) (:goal (and))", "init": f"(:init ({x}) ({y})) (:goal (and))",
        }[w]
        if w in ("objects", "init"):
            return f"(define (problem {t}) (:domain {t}) {body})"
        return f"(define (domain {t}) (:requirements :typing :adl :fluents) {body})"

    parse = parse_problem_text if w in ("objects", "init") else parse_domain_text
    da = parse(text(a, b))
    ta = str(da)
    ctx.permute(True)
    db = parse(text(b, a))
    tb = str(db)
    ctx.permute(False)
    ctx.observe(ta)
    ctx.observe(tb)
    ctx.check(da == db, f"the order of {w} changes the parsed object")
    ctx.check(ta == tb, f"the order of {w} changes the printed text: {ctx.show(ta)} and {ctx.show(tb)}")


def long(ctx):
    """Collections of 4 to 9 elements given in other orders; the order of the sets of 4 elements is symbolic."""
    from hx import big

    ctx.canon_hash()
    k = ctx.choice("kind", [k for k in big.OBJECTS if k not in big.ORDERED] + ["forall", "exists", "feff"])
    n = [4, 5, 9][ctx.pick("n", 3)]
    names = [fixed(f"x{i}") for i in range(n)]
    i = ctx.pick("place", n)
    names[i] = ctx.name("x")
    order = ctx.choice("order", ["reversed", "rotated", "swapped", "halves"])
    o = {"reversed": lambda xs: xs[::-1], "rotated": lambda xs: xs[n // 3:] + xs[:n // 3], "swapped": lambda xs: [xs[1], xs[0]] + xs[2:-2] + [xs[-1], xs[-2]],
         "halves": lambda xs: xs[1::2] + xs[::2]}[order]
    col = ctx.choice("collection", [list, set])

    def given(xs):
        return o(xs)

    def mk(flip):
        f = (lambda xs: given(list(xs))) if flip else list
        return big.reordered(k, names, f, col)

    a = mk(False)
    ta = str(a)
    if n == 4 and i == 1 and order == "reversed":
        ctx.permute(True)
    b = mk(True)
    tb = str(b)
    ctx.permute(False)
    ctx.observe(ta)
    ctx.observe(tb)
    ctx.check(a == b, f"{k}: objects from reordered collections differ")
    ctx.check(ta == tb, f"{k}: two texts of equal objects: {ctx.show(ta)} and {ctx.show(tb)}")


SCENARIOS = [
    Scenario("long", long, "15 kinds of collections of 4, 5 or 9 elements in 4 other orders, the element at any place symbolic; every order of the sets of 4", hashseeds=HS),
    Scenario("variables", variables, "quantifiers with at most 3 variables, each untyped or with a symbolic type, every order given and iterated", hashseeds=HS),
    Scenario("same-variable", same_variable, "quantifiers with two variables, maybe of one name, with at most 2 symbolic types each", hashseeds=HS),
    Scenario("either", either, "2 or 3 symbolic types of one variable in 6 places", hashseeds=HS),
    Scenario("nested", effects_text, "quantifiers of 2 variables below 8 operators", hashseeds=HS),
    Scenario("domains", domains, "domains with 2 or 3 symbolic elements in one of 14 kinds of part, every order given and iterated", hashseeds=HS),
    Scenario("whole", whole, "domains with all parts and 2 elements in one of them, every set order while printing", hashseeds=HS),
    Scenario("problems", problems, "problems with 2 or 3 symbolic elements in one of 7 kinds of part, every order given and iterated", hashseeds=HS),
    Scenario("parsed", parsed, "texts with two elements of a part swapped, 9 parts", hashseeds=HS),
]
