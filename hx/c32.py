"""C32: an operation that is rejected leaves everything as it was."""

from hx.c22 import snap
from hx.lib import R, Scenario, fixed, read, subst  # noqa: F401

N, M, K = fixed(1), fixed(2), fixed(3)


def left_alone(ctx, op, things, what):
    """op is done; if it is rejected, the things (label -> object) are what they were."""
    before = {k: snap(x) for k, x in things.items()}
    hashes = {k: ctx.attempt(hash, x) for k, x in things.items()}
    ok, e = ctx.attempt(op)
    if ok:
        ctx.nacc += 1
        return True
    ctx.nrej += 1
    for k, x in things.items():
        now = ctx.attempt(snap, x)
        ctx.check(now[0] and now[1] == before[k], f"{what} is rejected ({type(e).__name__}), but changes the {k}: {ctx.show(before[k])} becomes {ctx.show(now[1])}")
        h = ctx.attempt(hash, x)
        ctx.check(h[0] == hashes[k][0] and (not h[0] or h[1] == hashes[k][1]), f"{what} is rejected, but changes the hash of the {k}")
    return False


def domain(ctx, lb, name, t, reqs):
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable

    v = Variable(K, [t])
    return Domain(name, requirements=reqs, types={t: None}, constants=[Constant(M, t)], predicates=[Predicate(N, v)],
                  actions=[Action(N, [v], Predicate(N, v), ~Predicate(N, v))])


REQS = [("TYPING",), ("TYPING", "ADL"), ("TYPING", "NUMERIC_FLUENTS"), ("STRIPS", "TYPING", "ADL")]


def attach(ctx):
    """A problem gets another domain; when that is rejected, it still has the old one and can be used as if nothing had happened."""
    from pddl.core import Problem
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant

    names = [ctx.name("d0"), ctx.name("d1")]
    ts = ctx.names("t", 2)
    o = Constant(ctx.name("o"), ts[0])
    ds = [domain(ctx, "d0", names[0], ts[0], R(*REQS[ctx.pick("r0", 4)])), domain(ctx, "d1", names[1], ts[1], R(*REQS[ctx.pick("r1", 4)]))]
    start = ctx.choice("start", ["name", "name and requirements", "domain", "attached"])
    where = ctx.choice("where", ["object", "goal", "init"])
    parts = dict(objects=[o] if where == "object" else None, init=[Predicate(N, o)] if where == "init" else None, goal=Predicate(N, o) if where == "goal" else None)

    def make():
        if start == "domain":
            return Problem(K, domain=ds[0], **parts)
        p = Problem(K, domain_name=names[0], requirements=R("TYPING", "ADL") if start == "name and requirements" else None, **parts)
        if start == "attached":
            p.domain = ds[0]
        return p

    p, twin = make(), make()

    def set_domain(d):
        p.domain = d

    if ctx.flag("checked first"):
        if left_alone(ctx, lambda: p.check(ds[1]), {"problem": p, "first domain": ds[0], "second domain": ds[1]}, f"checking a problem ({start}) against another domain"):
            ctx.check(p == twin and str(p) == str(twin), f"checking a problem ({start}) makes it {ctx.show(str(p))} instead of {ctx.show(str(twin))}")
            return
    n = 2 if ctx.thorough else 1
    rejected = []
    for i in range(n):
        if not left_alone(ctx, lambda: set_domain(ds[1]), {"problem": p, "first domain": ds[0], "second domain": ds[1]}, f"giving a problem ({start}) another domain"):
            rejected.append(1)
    if len(rejected) < n:
        ctx.check(p.domain is ds[1] and p.domain_name == names[1], f"a problem ({start}) that was given another domain has {ctx.show(p.domain_name)}")
        return
    # as a problem to which nothing happened
    ctx.check((ctx.attempt(lambda: p.domain)[0]) == (ctx.attempt(lambda: twin.domain)[0]), f"after a rejected domain, the problem ({start}) has one or none")
    ctx.check(p == twin and twin == p and str(p) == str(twin), f"after a rejected domain, the problem ({start}) is {ctx.show(str(p))}, not {ctx.show(str(twin))}")
    ctx.check(p.requirements == twin.requirements and p.domain_name == twin.domain_name, f"after a rejected domain, the problem ({start}) has other requirements or another domain name")
    for i, d in enumerate(ds):
        a, b = ctx.attempt(p.check, d), ctx.attempt(twin.check, d)
        ctx.check(a[0] == b[0], f"after a rejected domain, the problem ({start}) is {'accepted' if a[0] else 'rejected'} against domain {i}")
    a = ctx.attempt(set_domain, ds[0])
    b = ctx.attempt(lambda: setattr(twin, "domain", ds[0]))
    ctx.check(a[0] == b[0] and (not a[0] or p == twin), f"after a rejected domain, the problem ({start}) cannot be given the first one")


def operations(ctx):
    """Checks, instantiations and calls that fail."""
    from pddl.action import Action
    from pddl.core import Plan, Problem
    from pddl.logic.base import And, ForallCondition, Not
    from pddl.logic.effects import Forall, When
    from pddl.logic.functions import EqualTo, Increase, NumericFunction, NumericValue
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable

    ns = ctx.names("n", 3)
    t = ns[0]
    v, w = Variable(ns[1], [t]), Variable(K, [t])
    o = Constant(ns[2], [t, N][ctx.pick("type", 2)])
    f = NumericFunction(N, v, w)
    act = Action(ns[0], [v, w][:ctx.pick("parameters", 3)], And(Predicate(M, v), ForallCondition(Not(Predicate(N, v, w)), [w])),
                 And(Forall(When(Predicate(M, w), Not(Predicate(M, v))), [w]), Increase(f, NumericValue(3))))
    d = domain(ctx, "d", N, t, R("TYPING", "ADL", "NUMERIC_FLUENTS"))
    from pddl.core import Domain
    ok, d = ctx.attempt(Domain, N, requirements=R("TYPING", "ADL", "NUMERIC_FLUENTS"), types={t: None}, constants=[Constant(ns[1], t)], actions=[act])
    if not ok:
        return
    args = [o, Constant(ns[0]), o][:ctx.pick("args", 4)]
    p = Problem(M, domain_name=[N, ns[0], N.upper()][ctx.pick("name", 3)], objects=[o], init=[Predicate(M, o), EqualTo(NumericFunction(N, o, o), NumericValue(2))])
    plan = Plan([(ns[0], [o, o][:ctx.pick("first", 3)]), (ns[1], args)])
    pred = Predicate(N, v, w)
    ops = {
        "check": lambda: p.check(d), "plan check": lambda: plan.check(d, p), "plan instantiation": lambda: plan.instantiate(d),
        "instantiation": lambda: act.instantiate(args), "call": lambda: pred(*args), "function call": lambda: f(*args),
        "instantiation of formula": lambda: act.precondition.instantiate({v: None}), "instantiation of effect": lambda: act.effect.instantiate({v: w, w: 3}),
        "comparison": lambda: (p < d), "operators": lambda: pred & p,
    }
    what = ctx.choice("operation", list(ops))
    things = {"domain": d, "problem": p, "plan": plan, "action": act, "predicate": pred, "function": f, "arguments": args, "object": o}
    left_alone(ctx, ops[what], things, what)


def constructors(ctx):
    """Constructors that reject their parts leave the given collections and objects as they were."""
    from pddl.action import Action
    from pddl.core import Domain, Problem
    from pddl.logic.base import And, ForallCondition
    from pddl.logic.functions import EqualTo, Metric, NumericFunction, NumericValue
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable

    ns = ctx.names("n", 3)
    t = ns[0]
    v = Variable(ns[1], [t])
    w = Variable(ns[2], [N])
    kind = ctx.choice("collection", ["list", "set", "dict or tuple"])
    col = {"list": list, "set": lambda xs: set(xs), "dict or tuple": tuple}[kind]
    types = {ns[0]: [None, ns[1]][ctx.pick("parent", 2)], ns[1]: [None, ns[2]][ctx.pick("parent1", 2)]}
    reqs = col([*R("TYPING"), *R("NUMERIC_FLUENTS")][:ctx.pick("requirements", 3)])
    f = NumericFunction(M, v)
    given = {
        "types": types, "requirements": reqs, "constants": col([Constant(ns[0], t), Constant(ns[1], ns[2])]), "predicates": col([Predicate(N, v), Predicate(M, w)]),
        "functions": {f: "number"}, "actions": col([Action(N, [v], Predicate(N, v)), Action(ns[2], [w])]),
        "derived": col([DerivedPredicate(Predicate(N, v), Predicate(M, w))]), "terms": [v, Variable(ns[1], [N])], "tags": [ns[0], ns[1], ns[2]],
        "objects": col([Constant(ns[0], t), Constant(ns[1])]), "init": col([Predicate(M, Constant(ns[0], t)), EqualTo(NumericFunction(M), NumericValue(1))]),
    }
    d = domain(ctx, "d", N, M, R("TYPING"))
    ops = {
        "domain": lambda: Domain(N, requirements=given["requirements"], types=types, constants=given["constants"], predicates=given["predicates"],
                                 functions=given["functions"], actions=given["actions"], derived_predicates=given["derived"]),
        "problem": lambda: Problem(N, domain=d, requirements=given["requirements"], objects=given["objects"], init=given["init"], goal=Predicate(N, v)),
        "problem name": lambda: Problem(N, domain=d, domain_name=ns[0], objects=given["objects"], init=given["init"]),
        "problem without": lambda: Problem(N, objects=given["objects"], init=given["init"]),
        "predicate": lambda: Predicate(N, *given["terms"]), "variable": lambda: Variable(N, given["tags"]),
        "constant": lambda: Constant("object" if ctx.flag("word") else N, [ns[0], "and"][ctx.pick("tag", 2)]),
        "quantifier": lambda: ForallCondition(Predicate(N, v), given["terms"]), "metric": lambda: Metric(f, ns[0]),
        "action": lambda: Action(N, given["terms"] * 2, And(Predicate(N, v))), "action name": lambda: Action("define", given["terms"]),
    }
    what = ctx.choice("what", list(ops))
    shown = {k: sorted(x, key=str) if isinstance(x, (set, frozenset)) else x for k, x in given.items() if k != "requirements" and not (kind == "set" and k in ("nothing",))}
    sizes = {k: len(x) for k, x in given.items()}
    req = list(reqs)
    left_alone(ctx, ops[what], {**{k: x for k, x in shown.items()}, "domain": d, "function": f}, f"building a {what}")
    ctx.check({k: len(x) for k, x in given.items()} == sizes and list(reqs) == req, f"building a {what} adds to or takes from a given collection")


SCENARIOS = [
    Scenario("attach", attach, "a problem in 4 states, checked before or not, is given (thorough: twice) another domain with symbolic names, types and 4 requirement sets each; then used further"),
    Scenario("operations", operations, "10 operations on a domain, problem, plan, action and formulas over 3 symbolic names, many of which are rejected"),
    Scenario("constructors", constructors, "11 constructors with parts over 3 symbolic names in lists, sets, tuples and dictionaries"),
]
