"""C24: numeric functions and total-cost need their requirements."""

from hx.lib import NOTYPE, R, REQ_TEXT, Scenario, all_reqs, build, fixed, parse_domain_text, read

TC = "total-cost"
NEAR = ["total", "cost", "total-costs", "total_cost", "a-total-cost", "total-cost-a", "totalcost", "numeric-fluents", "Total-Cost"]


def allowed(names, reqs):
    """names of the functions -> whether the requirements admit them; reqs may be lazy."""
    fluents = lambda: any(r in reqs for r in R("NUMERIC_FLUENTS")) or any(r in reqs for r in R("FLUENTS"))  # noqa: E731
    for n in names:
        if n == TC:
            if not any(r in reqs for r in R("ACTION_COSTS")):
                return False
        elif not fluents():
            return False
    return True


def fname(ctx, label):
    k = ctx.choice(label + ".kind", ["symbolic", TC, "near"])
    return TC if k == TC else ctx.choice(label + ".near", NEAR) if k == "near" else ctx.name(label)


def function(ctx, label):
    """(name, number of parameters, declared value type)"""
    return fname(ctx, label), ctx.pick(label + ".ar", 3), ctx.choice(label + ".type", [None, "number"])


def constructed(ctx):
    from pddl.core import Domain
    from pddl.exceptions import PDDLValidationError
    from pddl.logic.functions import NumericFunction
    from pddl.logic.terms import Variable
    from pddl.requirements import Requirements

    reqs = ctx.reqs("req", list(Requirements))
    n = ctx.pick("n", 3)
    fs = []
    for i in range(n):
        f = function(ctx, f"f{i}") if ctx.thorough or i == 0 else (fname(ctx, f"f{i}"), 1, None)
        fs.append(f)
    if n == 2:
        ctx.assume(not (fs[0][0] == fs[1][0] and fs[0][1] == fs[1][1]))
    vs = [Variable("x"), Variable("y")]
    given = {NumericFunction(x, *vs[:k]): t for x, k, t in fs}
    none = ctx.flag("absent") if n == 0 else False
    ok, d = ctx.attempt(Domain, "dd", requirements=reqs, functions=None if none else given)
    what = f"the functions {fs}"
    if allowed([x for x, _, _ in fs], reqs):
        ctx.accepted(ok, d, what)
        ctx.check(frozenset([(f.name, f.arity, t) for f, t in d.functions.items()]) == frozenset(fs), f"stored {ctx.show(d.functions)} for {fs}")
    else:
        ctx.rejected(ok, what)
        ctx.check(isinstance(d, PDDLValidationError), f"{what} rejected with {type(d).__name__}")


def three(ctx):
    """Order and number of functions do not matter."""
    from pddl.core import Domain
    from pddl.logic.functions import NumericFunction
    from pddl.logic.terms import Variable
    from pddl.requirements import Requirements

    reqs = ctx.reqs("req", list(Requirements))
    n = 3 + (ctx.pick("more", 2) if ctx.thorough else 0)
    at = ctx.pick("total-cost at", n + 1)
    xs = ctx.distinct_names("x", n)
    names = [TC if i == at else x for i, x in enumerate(xs)]
    ok, d = ctx.attempt(Domain, "dd", requirements=reqs, functions={NumericFunction(x): None for x in names})
    if allowed(names, reqs):
        ctx.accepted(ok, d, f"the functions {names}")
    else:
        ctx.rejected(ok, f"the functions {names}")


def other_parts(ctx):
    """A domain without functions, but with every other part, is not rejected for lack of these requirements."""
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable
    from pddl.requirements import Requirements

    reqs = ctx.reqs("req", list(Requirements))
    a, b = ctx.name("a"), fname(ctx, "b")
    part = ctx.choice("part", ["predicates", "constants", "actions", "types", "derived"])
    if b == TC and part != "predicates":
        return
    kw = {"predicates": lambda: dict(predicates=[Predicate(a), Predicate(a, Variable("x"))]),
          "constants": lambda: dict(constants=[Constant(a), Constant(b)]),
          "actions": lambda: dict(actions=[Action(a, [Variable("x")], effect=~Predicate(b))]),
          "types": lambda: dict(types={a: None}),
          "derived": lambda: dict(derived_predicates=[DerivedPredicate(Predicate(a), Predicate(b))])}[part]()
    ok, d = ctx.attempt(Domain, "dd", requirements=reqs, **kw)
    ctx.accepted(ok, d, f"a domain without functions and with {part}")


def with_action(ctx):
    """Functions used in an action do not need to be declared for the check; declared ones need their requirement."""
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic.functions import Increase, NumericFunction, NumericValue
    from pddl.requirements import Requirements

    reqs = ctx.reqs("req", list(Requirements))
    f = NumericFunction(fname(ctx, "f"))
    act = Action(ctx.name("a"), [], effect=Increase(f, NumericValue(ctx.int("v"))))
    declared = ctx.flag("declared")
    ok, d = ctx.attempt(Domain, "dd", requirements=reqs, actions=[act], functions={f: "number"} if declared else None)
    if not declared or allowed([f.name], reqs):
        ctx.accepted(ok, d, f"an action with the {'declared' if declared else 'undeclared'} function {f}")
    else:
        ctx.rejected(ok, f"an action with the declared function {f}")


TEXT = ["STRIPS", "ADL", "TYPING", "FLUENTS", "NUMERIC_FLUENTS", "ACTION_COSTS"]


def parsed(ctx):
    rs = [r for r in TEXT if ctx.flag(r)]
    n = ctx.pick("n", 3)
    fs = [(fname(ctx, f"f{i}") if ctx.thorough else ctx.choice(f"f{i}.kind", [TC, None]) or ctx.name(f"f{i}"), ctx.pick(f"f{i}.ar", 2),
           ctx.flag(f"f{i}.number")) for i in range(n)]
    if n == 2:
        ctx.assume(not (fs[0][0] == fs[1][0]))
        ctx.assume(fs[0][2] or not fs[1][2])
    text = (f"(define (domain dd) {'(:requirements ' + ' '.join(REQ_TEXT[r] for r in rs) + ')' if rs else ''}"
            f"{'(:functions ' if n else ''}{' '.join('(' + x + (' ?x' if k else '') + ')' + (' - number' if t else '') for x, k, t in fs)}{')' if n else ''})")
    ok, d = ctx.attempt(parse_domain_text, text)
    if allowed([x for x, _, _ in fs], R(*rs)):
        ctx.accepted(ok, d, text)
        want = frozenset([(x, k) for x, k, _ in fs])
        ctx.check(frozenset([(f.name, f.arity) for f in d.functions]) == want, f"{text}: functions {ctx.show(d.functions)}")
    else:
        ctx.rejected(ok, text)


def many(ctx):
    """4 to 16 functions of several arities and types, total-cost with any arity at any place, once, twice or not at all."""
    from pddl.core import Domain
    from pddl.logic.functions import NumericFunction
    from pddl.logic.terms import Variable
    from pddl.requirements import Requirements

    n = ctx.choice("n", [4, 6, 9, 16] if ctx.thorough else [4, 9])
    ar = ctx.pick("arity of total-cost", 3 if ctx.thorough else 2)
    at = ctx.choice("at", list(range(n + 1)) if ctx.thorough else [0, 2, n - 2, n - 1, n])
    fs = [(fixed(i), i % 3) for i in range(n)]
    fs[ctx.choice("symbolic", [1, n - 1])] = (ctx.name("f"), ctx.pick("arity", 2))
    if at < n:
        fs[at] = (TC, ar)
    if ctx.flag("alone"):
        ctx.assume(n == 4 and at < n)
        fs = [(TC, i) for i in range(4)]
    elif ctx.flag("twice"):
        fs.append((TC, ar + 1))
    else:
        ctx.assume(at < n or ar == 0)
    number = ctx.pick("number", 3)
    vs = [Variable(v, {"tt"} if number else None) for v in "xyzw"]
    if ctx.flag("text"):
        rs = [r for r in ["TYPING", "NUMERIC_FLUENTS", *(["FLUENTS"] if ctx.thorough else []), "ACTION_COSTS"] if ctx.flag(r)]
        ctx.assume("TYPING" in rs or number == 0)
        sig = lambda k: " ".join([f"?{v.name}" + (" - tt" if number else "") for v in vs[:k]])  # noqa: E731
        text = (f"(define (domain dd) {'(:requirements ' + ' '.join(REQ_TEXT[r] for r in rs) + ')' if rs else ''} {'(:types tt)' if number else ''} (:functions "
                + " ".join([f"({x} {sig(k)})" for x, k in fs]) + (" - number" if number == 2 else "") + "))")
        ok, d = ctx.attempt(parse_domain_text, text)
        reqs, what = R(*rs), text
    else:
        reqs = ctx.reqs("req", [r for r in Requirements if r not in R("TYPING")])
        reqs.update(R("TYPING"))
        given = {NumericFunction(x, *vs[:k]): "number" if number == 2 and i % 2 else None for i, (x, k) in enumerate(fs)}
        ok, d = ctx.attempt(Domain, "dd", requirements=reqs, types={"tt": None}, functions=given)
        what = f"the functions {fs}"
    if allowed([x for x, _ in fs], reqs):
        ctx.accepted(ok, d, what)
        ctx.check(frozenset([(f.name, f.arity) for f in d.functions]) == frozenset(fs), f"{what}: functions {ctx.show(d.functions)}")
    else:
        ctx.rejected(ok, what)


SCENARIOS = [
    Scenario("many", many, "4 or 9 (thorough: 4 to 16) functions of arity at most 2, a symbolic one at 2 places, total-cost of arity at most 2 at 5 places (thorough: any), alone, twice or nowhere; symbolic requirement set or texts with every subset of 3 (thorough: 4)"),
    Scenario("constructed", constructed, "at most 2 functions: symbolic name, total-cost or 9 similar names, arity at most 2, symbolic requirement set over all 16 requirements"),
    Scenario("three", three, "3 (thorough: 4) functions, total-cost at any position or nowhere, symbolic requirement set"),
    Scenario("other-parts", other_parts, "domains without functions and with one of 5 other parts, symbolic requirement set"),
    Scenario("with-action", with_action, "a declared or undeclared function in an effect, symbolic requirement set"),
    Scenario("parsed", parsed, "texts with at most 2 functions and every subset of 6 requirements"),
]
