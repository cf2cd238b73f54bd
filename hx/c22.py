"""C22: reading changes nothing; constructed objects do not share the collections they were given."""

import copy
import pickle

from hx.lib import (NOTYPE, Gen, R, Scenario, build, fixed, read, read_action, read_domain, read_plan, read_problem)

N = fixed(1)
M = fixed(2)


def snap(x):
    """Content and text of any object."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.logic.functions import Metric
    from pddl.logic.terms import Term

    if isinstance(x, Domain):
        return read_domain(x), str(x)
    if isinstance(x, Problem):
        return read_problem(x), x._domain is None, str(x)
    if isinstance(x, Plan):
        return read_plan(x), str(x)
    if isinstance(x, Action):
        return read_action(x), read(x.precondition), read(x.effect), str(x)
    if isinstance(x, Metric):
        return x.optimization, read(x.expression), str(x)
    if isinstance(x, Term):
        return x.name, x.type_tags, str(x)
    if isinstance(x, (list, tuple)):
        return [snap(y) for y in x]
    if isinstance(x, dict):
        return [(snap(k), snap(v)) for k, v in x.items()]
    if x is None or isinstance(x, (str, int, float)):
        return x
    return read(x), str(x)


def unchanged(ctx, op, objs, names, what):
    before = [snap(o) for o in objs]
    ctx.attempt(op)  # a rejection changes nothing either
    for o, b, n in zip(objs, before, names):
        a = snap(o)
        ctx.check(a == b, f"{what} changes the {n}: {ctx.show(b)} becomes {ctx.show(a)}")
    ctx.attempt(op)
    for o, b, n in zip(objs, before, names):
        a = snap(o)
        ctx.check(a == b, f"{what}, done twice, changes the {n}: {ctx.show(b)} becomes {ctx.show(a)}")


def generic(x, y):
    """Operations that every object has."""
    return {
        "str": lambda: str(x), "repr": lambda: repr(x), "hash": lambda: hash(x), "equality": lambda: (x == y, y == x, x != y, x == None),  # noqa: E711
        "copy": lambda: copy.copy(x), "deepcopy": lambda: copy.deepcopy(x), "pickle": lambda: pickle.loads(pickle.dumps(x)),
        "set": lambda: {x, y}, "sort": lambda: sorted([y, x]), "less": lambda: (x < y, x >= y),
    }


# ------------------------------------------------------------------------------------------------- formulas
def formulas(ctx):
    """Formulas and effects: printing, comparing, hashing, copying, combining, instantiating."""
    from pddl.logic.base import And, Not, Or
    from pddl.logic.terms import Constant, Variable

    x = ctx.name("x")
    v = ("v", x, NOTYPE)
    g = Gen(ctx, [(N, 1)], [v, ("c", M)] if ctx.thorough else [v], fns=[(N, 1)], max_ops=2,
            qvars=[((x, NOTYPE),), ((M, NOTYPE), (x, NOTYPE))][0 if ctx.thorough else 1:])
    s = g.effect("f", 1) if ctx.flag("effect") else g.formula("f", 2 if ctx.thorough else 1)
    f = build(s)
    y = build(s) if ctx.flag("twin") else build(("and", (("pred", N, (v,)), ("pred", M, ()))))
    ops = generic(f, y)
    mapping = {Variable(x): Constant(ctx.name("c"))}
    ops.update({
        "instantiate": lambda: f.instantiate(mapping), "conjunction": lambda: And(f, y, f), "disjunction": lambda: Or(y, f),
        "negation": lambda: Not(f), "operators": lambda: (f & y, f | y, ~f, f >> y), "mapping": lambda: None,
    })
    op = ctx.choice("operation", list(ops))
    objs = [f, y]
    before = list(mapping.items())
    unchanged(ctx, ops[op], objs, ["formula", "other formula"], f"{op} of {ctx.show(str(f))}")
    ctx.check(list(mapping.items()) == before, "instantiating changes the mapping")


def expressions(ctx):
    """Sums and products of sums and products are flattened without touching the operands."""
    from pddl.logic import functions as F

    k, j = ctx.choice("outer", ["Plus", "Times", "Minus", "Divide"]), ctx.choice("inner", ["Plus", "Times", "Minus", "Divide"])
    a, b, c = [build(("fn", ctx.name(n), ())) for n in "abc"]
    inner = getattr(F, j)(a, b)
    outer = lambda: getattr(F, k)(inner, c, inner) if k in ("Plus", "Times") else getattr(F, k)(inner, c)  # noqa: E731
    o = outer()
    ops = dict(generic(o, inner), build=outer, compare=lambda: F.GreaterThan(o, inner), metric=lambda: F.Metric(o))
    op = ctx.choice("operation", list(ops))
    unchanged(ctx, ops[op], [a, b, c, inner, o], ["first operand", "second operand", "third operand", "inner expression", "expression"], op)


def conjunctions(ctx):
    """And, Or and their flattening leave the operands alone."""
    from pddl.logic.base import And, OneOf, Or

    cls = {"and": And, "or": Or, "oneof": OneOf}
    k, j = ctx.choice("outer", list(cls)), ctx.choice("inner", list(cls))
    a, b, c = [build(("pred", ctx.name(n), ())) for n in "abc"]
    inner = cls[j](a, b)
    before = [snap(x) for x in (inner, a, b, c)]
    o = cls[k](inner, c)
    so = snap(o)
    p = cls[k](o, inner)
    q = cls[k](inner, o, o)
    str(p), hash(q)
    ctx.check([snap(x) for x in (inner, a, b, c)] == before, f"building {k} of {j} changes an operand")
    ctx.check(snap(o) == so, f"building {k} from {k} changes the operand")


# ------------------------------------------------------------------------------------------------- domains
def things(ctx):
    """A domain, two problems and two plans that belong together or not."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.logic.base import And, ForallCondition
    from pddl.logic.functions import EqualTo, Increase, Metric, NumericFunction, NumericValue
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable
    from pddl.logic.effects import When, Forall

    t, p, a, c, x, f, N, M = ctx.distinct_names("n", 8)
    v = Variable(x, [t])
    cost = NumericFunction(f)
    d = Domain(
        fixed(1), requirements=R("ADL", "NUMERIC_FLUENTS", "DERIVED_PREDICATES"), types={t: M}, constants=[Constant(c, t)],
        predicates=[Predicate(p, v), Predicate(N)], functions={cost: "number"} if ctx.flag("typed function") else {cost: None},
        derived_predicates=[DerivedPredicate(Predicate(N), ForallCondition(Predicate(p, v), [v]))],
        actions=[Action(a, [v], precondition=~Predicate(p, v), effect=And(When(Predicate(N), Predicate(p, v)), Increase(cost, NumericValue(1)))),
                 Action(N, [], precondition=None, effect=Forall(Predicate(p, v), [v]))])
    o = ctx.name("o")
    pr = Problem(N, domain_name=fixed(1) if ctx.flag("right name") else fixed(2), requirements=R("ADL"), objects=[Constant(o, t), Constant(N)],
                 init=[Predicate(p, Constant(o, t)), EqualTo(cost, NumericValue(2))], goal=~Predicate(p, Constant(o)), metric=Metric(cost))
    pl = Plan([(a, [Constant(o)]), (ctx.name("act"), [Constant(c)])])
    return d, pr, pl, (t, p, a, c, o, N, M)


def objects(ctx):
    """Every reading operation on a domain, problem, plan or action."""
    from pddl.core import Domain, Problem
    from pddl.formatter import domain_to_string, plan_to_string, problem_to_string
    from pddl.logic.terms import Constant

    d, pr, pl, (t, p, a, c, o, N, M) = things(ctx)
    d2 = pickle.loads(pickle.dumps(d)) if ctx.flag("equal domain") else Domain(fixed(2))
    acts = list(d.actions)
    act = acts[ctx.pick("action", len(acts))]
    dp = list(d.derived_predicates)[0]
    who = ctx.choice("object", ["domain", "problem", "plan", "action", "derived"])
    x, y = {"domain": (d, d2), "problem": (pr, Problem(N, domain=d)), "plan": (pl, pl), "action": (act, acts[0]), "derived": (dp, dp)}[who]
    ops = generic(x, y)
    ops.update({
        "domain": {"format": lambda: domain_to_string(d), "problem of": lambda: Problem(N, domain=d, objects=pr.objects, init=pr.init)},
        "problem": {"format": lambda: problem_to_string(pr), "check": lambda: pr.check(d), "check with another domain": lambda: pr.check(d2),
                    "domain": lambda: pr.domain, "again": lambda: Problem(M, domain_name=fixed(1), objects=pr.objects, init=pr.init, goal=pr.goal, metric=pr.metric)},
        "plan": {"format": lambda: plan_to_string(pl), "check": lambda: pl.check(d, pr), "instantiate": lambda: pl.instantiate(d),
                 "check with another domain": lambda: pl.check(d2, pr)},
        "action": {"instantiate": lambda: act.instantiate([Constant(c)][:len(act.parameters)]), "instantiate wrongly": lambda: act.instantiate([Constant(c)] * 3)},
        "derived": {"instantiate": lambda: dp.instantiate({})},
    }[who])
    op = ctx.choice("operation", list(ops))
    unchanged(ctx, ops[op], [d, d2, pr, pl, act, y], ["domain", "other domain", "problem", "plan", "action", "other object"], f"{op} of a {who}")


def attached(ctx):
    """Attaching a domain to a problem leaves the domain as it was; problems of one domain do not affect each other."""
    from pddl.core import Problem

    d, pr, pl, (*_, N, M) = things(ctx)
    if ctx.flag("second problem"):
        other = Problem(M, domain=d)
    else:
        other = Problem(M, domain_name=fixed(1), requirements=R("ADL"))
    before = snap(d), snap(pl), snap(other)
    ctx.attempt(setattr, pr, "domain", d)
    ctx.attempt(pr.check, d)
    ctx.attempt(pl.check, d, pr)
    ctx.check(snap(d) == before[0], "attaching a domain changes the domain")
    ctx.check(snap(pl) == before[1] and snap(other) == before[2], "attaching a domain changes another object")


def checked(ctx):
    """A problem with or without each part is checked, accepted or rejected; a plan is checked against it."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable

    n, m, t, o = ctx.names("n", 4)
    v = Variable("x", [t])
    d = Domain(n, requirements=R(*[("TYPING",), ("TYPING", "ADL"), ("STRIPS", "TYPING", "NEG_PRECONDITION")][ctx.pick("stated", 3)]), types={t: None},
               constants=[Constant("k", t)] if ctx.flag("constant") else None, predicates=[Predicate("p", v)], actions=[Action("a", [v], Predicate("p", v))])
    how = ctx.choice("how", ["name", "other name", "requirements", "domain", "attached"])
    c = Constant(o, [t, None][ctx.pick("typed", 2)])
    parts = {"objects": [c] if ctx.flag("objects") else None, "init": [Predicate("p", c)] if ctx.flag("init") else None, "goal": Predicate("p", c) if ctx.flag("goal") else None}
    if how == "domain":
        pr = Problem("pp", domain=d, **parts)
    else:
        pr = Problem("pp", domain_name=m if how == "other name" else n, requirements=R("TYPING") if how == "requirements" else None, **parts)
    if how == "attached":
        ctx.attempt(setattr, pr, "domain", d)
    pl = Plan([("a", [c])] * ctx.pick("steps", 2))
    before = snap(d), snap(pr), snap(pl)
    for i in range(2):
        for what, op in (("checking the problem", lambda: pr.check(d)), ("checking the plan", lambda: pl.check(d, pr)), ("instantiating the plan", lambda: pl.instantiate(d))):
            ctx.attempt(op)
            for k, (label, x) in enumerate((("domain", d), ("problem", pr), ("plan", pl))):
                now = snap(x)
                ctx.check(now == before[k], f"{what} ({how}) changes the {label}: {ctx.show(before[k])} becomes {ctx.show(now)}")


def alone(ctx):
    """What an object is and prints does not depend on what was built, printed or checked before."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.logic.base import And, ForallCondition
    from pddl.logic.functions import EqualTo, Metric, NumericFunction, NumericValue
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable

    def names(lb):
        return ctx.names(lb, 4)

    def made(kind, ns, k):
        """An object of the kind; k varies its shape."""
        t, u, x, y = ns
        ty = [None, t, u][k]
        v, w = Variable(x, [t] if k else None), Variable(y, [u, t] if k == 2 else None)
        if kind == "types":
            return Domain(N, requirements=R("TYPING"), types={t: None, u: t if k else None} if k < 2 else {t: u, u: None})
        if kind == "constants":
            return Domain(N, requirements=R("TYPING"), types={t: None, u: None}, constants=[Constant(x, ty), Constant(y, u)])
        if kind == "predicates":
            return Domain(N, requirements=R("TYPING"), types={t: None, u: None}, predicates=[Predicate(x, v, w), Predicate(y)])
        if kind == "functions":
            return Domain(N, requirements=R("TYPING", "NUMERIC_FLUENTS"), types={t: None, u: None},
                          functions={NumericFunction(x, v): "number" if k else None, NumericFunction(y, w): "number"})
        if kind == "action":
            c = And(Predicate(x, v), ForallCondition(~Predicate(y, w), [w]))
            return Action(x, [v] if k else [v, w], precondition=c, effect=Predicate(y, v))
        if kind == "problem":
            return Problem(N, domain_name=M, objects=[Constant(x, ty), Constant(y, u)], init=[Predicate(t, Constant(x)), EqualTo(NumericFunction(u), NumericValue(k))],
                           goal=Predicate(t), metric=Metric(NumericFunction(u)) if k else None)
        if kind == "plan":
            return Plan([(t, [Constant(x), Constant(y)][:k]), (u, [])])
        return And(Predicate(x, v), Predicate(y, w))

    kind = ctx.choice("kind", ["types", "constants", "predicates", "functions", "action", "problem", "plan", "formula"])
    k, j = ctx.pick("shape", 3), ctx.pick("other shape", 3)
    a, b = names("a"), names("b")
    if ctx.flag("shared"):
        a = b[::-1]
    for ns in (a, b):
        ctx.distinct(ns)
    want = ctx.pristine(lambda: snap(made(kind, b, k)))
    first = made(kind, b, k) if ctx.flag("built before") else None
    other = made(kind, a, j)
    op = ctx.choice("operation", ["none", "print", "read", "hash", "copy"])
    {"none": lambda: None, "print": lambda: str(other), "read": lambda: snap(other), "copy": lambda: copy.deepcopy(other),
     "hash": lambda: ctx.attempt(hash, other)}[op]()
    got = snap(made(kind, b, k) if first is None else first)
    ctx.check(got == want, f"a {kind} object is {ctx.show(want)} alone but {ctx.show(got)} after {op} of {ctx.show(str(other))}")


# ------------------------------------------------------------------------------------------------- given collections
def mutate(ctx, c, extra):
    """Change a collection in place in several ways."""
    k = ctx.choice("change", ["clear", "add", "pop", "replace"])
    if isinstance(c, dict):
        if k == "clear":
            c.clear()
        elif k == "add":
            c[extra[0]] = extra[1]
        elif k == "pop":
            c.popitem()
        else:
            for key in c:
                c[key] = extra[1]
    elif isinstance(c, set):
        if k == "clear":
            c.clear()
        elif k == "add":
            c.add(extra)
        else:
            c.pop()
            if k == "replace":
                c.add(extra)
    else:
        if k == "clear":
            c.clear()
        elif k == "add":
            c.append(extra)
        elif k == "pop":
            c.pop()
        else:
            c[0] = extra


def given(ctx):
    """Collections passed to constructors, changed afterwards."""
    from pddl.action import Action
    from pddl.core import Domain, Problem
    from pddl.logic import base, effects
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable

    a, b, e, t = ctx.distinct_names("x", 4)
    col = ctx.choice("collection", [list, set])
    typ = ctx.flag("typed")
    tv = [t] if typ else None
    req = R("TYPING", "NUMERIC_FLUENTS", "DERIVED_PREDICATES", "NEG_PRECONDITION")
    types = {t: None}
    p = Predicate(N)
    D = lambda **k: Domain(N, **{**dict(requirements=req, types=types), **k})  # noqa: E731
    P = lambda **k: Problem(N, **{**dict(domain_name=N), **k})  # noqa: E731
    from pddl.requirements import Requirements as Rq

    cases = {
        "types of a variable": (lambda: col([a, b]), e, lambda c: Variable(N, c)),
        "variables of forall": (lambda: col([Variable(a, tv), Variable(b, tv)]), Variable(e, tv), lambda c: base.ForallCondition(p, c)),
        "variables of exists": (lambda: col([Variable(a, tv), Variable(b, tv)]), Variable(e, tv), lambda c: base.ExistsCondition(p, c)),
        "variables of a forall effect": (lambda: col([Variable(a, tv), Variable(b, tv)]), Variable(e, tv), lambda c: effects.Forall(p, c)),
        "parameters of an action": (lambda: [Variable(a, tv), Variable(b, tv)], Variable(e, tv), lambda c: Action(N, c, effect=p)),
        "requirements of a domain": (lambda: col([Rq.TYPING, Rq.EQUALITY]), Rq.STRIPS, lambda c: Domain(N, requirements=c)),
        "types of a domain": (lambda: {a: None, b: a if typ else None}, (e, None), lambda c: Domain(N, requirements=req, types=c)),
        "constants of a domain": (lambda: col([Constant(a), Constant(b)]), Constant(e), lambda c: D(constants=c)),
        "predicates of a domain": (lambda: col([Predicate(a), Predicate(b)]), Predicate(e), lambda c: D(predicates=c)),
        "functions of a domain": (lambda: {NumericFunction(a): None, NumericFunction(b): "number" if typ else None}, (NumericFunction(e), None),
                                  lambda c: D(functions=c)),
        "derived predicates of a domain": (lambda: col([DerivedPredicate(Predicate(a), p), DerivedPredicate(Predicate(b), p)]),
                                           DerivedPredicate(Predicate(e), p), lambda c: D(derived_predicates=c)),
        "actions of a domain": (lambda: col([Action(a, []), Action(b, [])]), Action(e, []), lambda c: D(actions=c)),
        "requirements of a problem": (lambda: col([Rq.TYPING, Rq.EQUALITY]), Rq.STRIPS, lambda c: P(requirements=c)),
        "objects of a problem": (lambda: col([Constant(a), Constant(b)]), Constant(e), lambda c: P(objects=c)),
        "initial state of a problem": (lambda: col([Predicate(a), ~Predicate(b)]), Predicate(e), lambda c: P(init=c, goal=p)),
        "parameters for instantiation": (lambda: [Constant(a), Constant(b)], Constant(e),
                                         lambda c: Action(N, [Variable(a), Variable(b)], effect=Predicate(N, Variable(a))).instantiate(c)),
        "types of a retyped variable": (lambda: col([a, b]), e, lambda c: Variable(N).with_type_tags(c)),
    }
    k = ctx.choice("case", list(cases))
    mk, extra, cons = cases[k]
    c = mk()
    x = cons(c)
    twin = cons(mk())
    hashed = ctx.flag("hashed before") and type(x).__hash__ is not None
    h = hash(x) if hashed else None
    before = snap(x)
    mutate(ctx, c, extra)
    ctx.check(snap(x) == before, f"changing the {k} afterwards changes the object: {ctx.show(before)} becomes {ctx.show(snap(x))}")
    ctx.check(x == twin and str(x) == str(twin), f"changing the {k} afterwards makes the object differ from its twin")
    if hashed:
        ctx.check(hash(x) == h and hash(x) == hash(twin), f"changing the {k} afterwards changes the hash")
    cons(mk())
    d = mk()
    s = list(d.items()) if isinstance(d, dict) else list(d)
    y = cons(d)
    str(y), y == x, copy.deepcopy(y)
    ctx.check((list(d.items()) if isinstance(d, dict) else list(d)) == s, f"the constructor changes the given {k}")


def long(ctx):
    """Objects with 4 to 7 elements in one list or nesting: every reading operation, twice."""
    from hx import big

    ctx.canon_hash()
    k = ctx.choice("kind", big.KINDS)
    n = 4 + ctx.pick("n", 4)
    xs = [fixed(f"x{i}") for i in range(n)]
    xs[ctx.pick("place", n)] = ctx.name("x")
    x, y = big.make(k, xs), big.make(k, xs[::-1] if ctx.flag("reversed") else xs)
    ops = generic(x, y)
    op = ctx.choice("operation", list(ops))
    unchanged(ctx, ops[op], [x, y], ["object", "other object"], f"{op} of {k} with {n} elements")


SCENARIOS = [
    Scenario("long", long, "29 kinds of objects with 4 to 7 elements in a list or nesting, the element at any place symbolic; 10 operations, each done twice"),
    Scenario("formulas", formulas, "formulas of depth 1 (thorough: 2) and effects of depth 1, symbolic names, 16 operations, each done twice"),
    Scenario("expressions", expressions, "expressions of depth 2 with symbolic functions, 13 operations"),
    Scenario("conjunctions", conjunctions, "conjunctions, disjunctions and oneof of each other with symbolic operands"),
    Scenario("objects", objects, "a domain with all parts, problem, plan, action, derived predicate with symbolic names; every reading operation, twice"),
    Scenario("attached", attached, "attaching a domain to a problem; another problem of the domain or none"),
    Scenario("checked", checked, "a problem made in 5 ways with or without each of 3 parts, checked against a domain and with a plan, twice; 4 symbolic names that may coincide"),
    Scenario("alone", alone, "8 kinds of objects in 3 shapes with 4 symbolic names, before and after 5 operations on another object of the kind"),
    Scenario("given", given, "17 collections given to constructors, list or set, 4 in-place changes afterwards, symbolic names"),
]
