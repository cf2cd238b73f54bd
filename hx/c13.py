"""C13: no domain uses an undeclared type."""

from hx.lib import R, Scenario, fixed

N = fixed(1)


def V(ty):
    from pddl.logic.terms import Variable

    return Variable("xx", list(ty))


def C(ty):
    from pddl.logic.terms import Constant

    return Constant("cc", list(ty)[0])


def places():
    """name -> function(types) -> keyword arguments of Domain that use the types at that place."""
    from pddl.action import Action
    from pddl.logic import base as b
    from pddl.logic import effects as e
    from pddl.logic import functions as f
    from pddl.logic import predicates as p

    P = p.Predicate
    yy = None

    def pred(ty):
        return P("pp", V(ty))

    def cpred(ty):
        return P("pp", C(ty))

    def fn(ty):
        return f.NumericFunction("ff", V(ty))

    def pre(c):
        return dict(actions=[Action("aa", [], precondition=c, effect=P("other"))])

    def eff(c):
        return dict(actions=[Action("aa", [], precondition=P("other"), effect=c)])

    def der(c):
        return dict(derived_predicates=[p.DerivedPredicate(P("hh"), c)])

    q = P("qq")
    val = f.NumericValue(3)
    conds = {
        "atom": pred,
        "constant": cpred,
        "second term": lambda t: P("pp", V([]).__class__("yy"), V(t)),
        "equality left": lambda t: p.EqualTo(V(t), C([None])),
        "equality right": lambda t: p.EqualTo(C([None]), V(t)),
        "not": lambda t: b.Not(pred(t)),
        "and": lambda t: b.And(q, pred(t)),
        "or": lambda t: b.Or(q, pred(t)),
        "imply left": lambda t: b.Imply(pred(t), q),
        "imply right": lambda t: b.Imply(q, pred(t)),
        "forall variable": lambda t: b.ForallCondition(q, [V(t)]),
        "forall body": lambda t: b.ForallCondition(pred(t), []),
        "exists variable": lambda t: b.ExistsCondition(q, [V(t)]),
        "exists body": lambda t: b.ExistsCondition(pred(t), []),
        "greater left": lambda t: f.GreaterThan(fn(t), val),
        "greater right": lambda t: f.GreaterThan(val, fn(t)),
        "arithmetic": lambda t: f.LesserEqualThan(val, f.Plus(val, f.Minus(val, fn(t)))),
        "times divide": lambda t: f.EqualTo(f.Times(val, f.Divide(fn(t), val)), val),
        "deep": lambda t: b.And(q, b.Not(b.Or(q, b.Imply(q, b.ForallCondition(b.ExistsCondition(pred(t), []), []))))),
    }
    effs = {
        "atom": pred,
        "constant": cpred,
        "not": lambda t: b.Not(pred(t)),
        "and": lambda t: b.And(q, pred(t)),
        "oneof": lambda t: b.OneOf(q, pred(t)),
        "when condition": lambda t: e.When(pred(t), q),
        "when effect": lambda t: e.When(q, pred(t)),
        "forall variable": lambda t: e.Forall(q, [V(t)]),
        "forall body": lambda t: e.Forall(pred(t), []),
        "assign head": lambda t: f.Assign(fn(t), val),
        "assign value": lambda t: f.Assign(f.NumericFunction("ff"), fn(t)),
        "increase": lambda t: f.Increase(fn(t), val),
        "decrease": lambda t: f.Decrease(f.NumericFunction("ff"), f.Plus(val, fn(t))),
        "scale": lambda t: f.ScaleUp(f.NumericFunction("ff"), fn(t)),
        "scale down": lambda t: f.ScaleDown(fn(t), val),
        "deep": lambda t: b.And(q, e.Forall(e.When(q, b.And(q, b.Not(pred(t)))), [])),
        "deep oneof": lambda t: b.OneOf(q, b.And(q, e.When(b.Not(pred(t)), q))),
    }
    out = {
        "constants": lambda t: dict(constants=[C(t)]),
        "predicate": lambda t: dict(predicates=[P("other"), pred(t)]),
        "predicate second": lambda t: dict(predicates=[P("pp", C([None]), V(t))]),
        "function": lambda t: dict(functions={f.NumericFunction("gg"): None, fn(t): None}),
        "derived head": lambda t: dict(derived_predicates=[p.DerivedPredicate(pred(t), q)]),
        "parameter": lambda t: dict(actions=[Action("aa", [V(t)])]),
        "parameter second": lambda t: dict(actions=[Action("bb", []), Action("aa", [C([None]), V(t)], precondition=q)]),
    }
    for k, g in conds.items():
        out["precondition " + k] = lambda t, g=g: pre(g(t))
        out["derived " + k] = lambda t, g=g: der(g(t))
        out["when-condition " + k] = lambda t, g=g: eff(e.When(g(t), q))
    for k, g in effs.items():
        out["effect " + k] = lambda t, g=g: eff(g(t))
    return out


SINGLE = ("constant",)


def one_type_only(place):
    return place == "constants" or place.endswith(" constant")


def is_available(ty, declared):
    if ty == "object":
        return True
    for t, up in declared:
        if ty == t or (up is not None and ty == up):
            return True
    return False


def run(ctx, place, used, declared, reqs, typing):
    from pddl.core import Domain
    from pddl.exceptions import PDDLValidationError

    kw = places()[place](used)
    ok, d = ctx.attempt(Domain, "dd", requirements=reqs, types=dict(declared), **kw)
    want = all(is_available(t, declared) for t in used) and (len(used) == 0 or typing)
    what = f"types {used} at place '{place}' with declared {declared} and typing {typing}"
    if want:
        ctx.accepted(ok, d, what)
    else:
        ctx.rejected(ok, what)
        ctx.check(isinstance(d, PDDLValidationError), f"{what} is rejected with {type(d).__name__}")


def every_place(ctx):
    """One symbolic type at each place; declared: a symbolic type with an optional symbolic supertype."""
    place = ctx.choice("place", sorted(places()))
    up = ctx.name("up") if ctx.flag("hasup") else None
    t = ctx.name("t")
    if up is not None:
        ctx.differ(up, t)
    run(ctx, place, [ctx.name("used")], [(t, up)], R("TYPING", "NUMERIC_FLUENTS"), True)


def requirement(ctx):
    """The typing requirement at each place: any subset of four requirements."""
    place = ctx.choice("place", sorted(places()))
    reqs = ctx.reqs("req", R("TYPING", "ADL", "STRIPS", "EQUALITY")).union(R("NUMERIC_FLUENTS"))
    k = ctx.choice("kind", ["declared", "object", "none", "either"])
    t = ctx.name("t")
    if k in ("none", "either") and one_type_only(place):
        return
    used = {"declared": [t], "object": ["object"], "none": [], "either": [t, "object"]}[k]
    typing = len(used) == 0 or any(r in reqs for r in R("TYPING", "ADL"))
    run(ctx, place, used, [(t, None)], reqs, typing)


def either(ctx):
    """Two symbolic types of an 'either' type; two declared types with supertypes."""
    some = [p for p in sorted(places()) if not one_type_only(p)]
    if not ctx.thorough:
        some = [p for p in some if p in ("predicate", "function", "parameter", "precondition forall variable", "derived head",
                                         "effect forall variable", "precondition atom")]
    place = ctx.choice("place", some)
    ts = ctx.distinct_names("t", 2)
    used = ctx.names("used", 2)
    if used[0] == used[1]:
        used = used[:1]
    ups = [(None, None), ("x", None), ("x", "y")][ctx.pick("ups", 3)]
    declared = [(t, None if u is None else ctx.name("up" + u)) for t, u in zip(ts, ups)]
    for t, up in declared:  # keep the hierarchy free of cycles
        if up is not None:
            for u in ts:
                ctx.differ(up, u)
    run(ctx, place, used, declared, R("TYPING", "NUMERIC_FLUENTS"), True)


def nothing_declared(ctx):
    place = ctx.choice("place", sorted(places()))
    k = ctx.choice("kind", ["name", "object"])
    run(ctx, place, [ctx.name("used") if k == "name" else "object"], [], R("ADL", "NUMERIC_FLUENTS"), True)


def several_parts(ctx):
    """Several parts at once: the one with the undeclared type is found."""
    ps = ["constants", "predicate", "function", "derived head", "parameter"]
    from pddl.core import Domain

    t = ctx.name("t")
    kw, used = {}, []
    for i, p in enumerate(ps):
        u = ctx.name(f"u{i}") if ctx.flag(f"has{i}") else None
        if u is not None:
            used.append(u)
            kw.update(places()[p]([u]))
    ok, d = ctx.attempt(Domain, "dd", requirements=R("TYPING", "NUMERIC_FLUENTS"), types={t: None}, **kw)
    want = all(u == t for u in used)
    ctx.check(ok == want, f"types {used} with declared {t}: {'accepted' if ok else 'rejected'}")


def textual(ctx):
    """Through the parser."""
    from hx.lib import FULL_REQS, parse_domain_text

    t, u = ctx.name("t"), ctx.name("used")
    k = ctx.pick("place", 9)
    parts = ["(:constants c - {u})", "(:predicates (p ?x - {u}))", "(:functions (f ?x - {u}))",
             "(:predicates (p ?x)) (:derived (p ?x - {u}) (q))", "(:action a :parameters (?x - {u}))",
             "(:action a :parameters () :precondition (exists (?x - {u}) (q)))",
             "(:action a :parameters () :effect (forall (?x - {u}) (q)))",
             "(:predicates (p)) (:derived (p) (forall (?x - (either {t} {u})) (q)))",
             "(:action a :parameters (?y - (either {u} {t})) :precondition (q ?y))"][k]
    if k > 6:
        ctx.differ(t, u) if ctx.flag("diff") else None
    text = f"(define (domain dd) {FULL_REQS} (:types {t}) {parts.format(t=t, u=u)})"
    ok, d = ctx.attempt(parse_domain_text, text)
    if u == t:
        ctx.accepted(ok, d, text)
    else:
        ctx.rejected(ok, text)


def chains(ctx, lb, depth, inner):
    """The condition or effect `inner` below `depth` chosen connectives."""
    from pddl.logic import base as b
    from pddl.logic.predicates import Predicate

    q = Predicate("qq")
    f = inner
    for i in range(depth):
        k = ctx.choice(f"{lb}{i}", ["not", "and", "or", "implies", "implied", "forall", "exists"])
        f = {"not": lambda: b.Not(f), "and": lambda: b.And(q, b.Not(q), f), "or": lambda: b.Or(f, q, b.Not(q)), "implies": lambda: b.Imply(f, q),
             "implied": lambda: b.Imply(q, f), "forall": lambda: b.ForallCondition(f, []), "exists": lambda: b.ExistsCondition(f, [V([]).__class__("zz")])}[k]()
    return f


def deep(ctx):
    """A symbolic type below three (thorough: four) connectives of any kind."""
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic import effects as e
    from pddl.logic import predicates as p

    t, u = ctx.name("t"), ctx.name("used")
    inner = {"term": lambda: p.Predicate("pp", V([u])), "variable": lambda: p.Predicate("pp")}[ctx.choice("inner", ["term", "variable"])]()
    from pddl.logic import base as b

    if inner.arity == 0:
        inner = b.ExistsCondition(inner, [V([u])])
    f = chains(ctx, "k", 4 if ctx.thorough else 3, inner)
    where = ctx.choice("where", ["precondition", "derived", "when"])
    q = p.Predicate("qq")
    kw = {"precondition": lambda: dict(actions=[Action("aa", [], f, q)]), "derived": lambda: dict(derived_predicates=[p.DerivedPredicate(q, f)]),
          "when": lambda: dict(actions=[Action("aa", [], q, b.And(b.Not(q), e.Forall(e.When(f, q), [])))])}[where]()
    ok, d = ctx.attempt(Domain, "dd", requirements=R("TYPING"), types={t: None}, **kw)
    ctx.check(ok == (u == t), f"type {u} with declared {t} in {where} {ctx.show(str(f))}: {'accepted' if ok else 'rejected'}")


def long(ctx):
    """The undeclared type at any place of longer lists, and among up to four types of one variable."""
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic import base as b
    from pddl.logic import effects as e
    from pddl.logic import functions as f
    from pddl.logic import predicates as p
    from pddl.logic.terms import Constant, Variable

    n = 5
    i = ctx.pick("at", n)
    u = ctx.name("used")
    tt, uu, ww, vv = ctx.distinct_names("t", 4)
    decl = {tt: None, uu: tt, ww: vv}
    one = ctx.choice("types", [[uu], [tt], [vv]])
    tys = [one] * n
    k = ctx.choice("kind", ["single", "with others"])
    where = ctx.choice("where", ["constants", "terms", "predicates", "functions", "function terms", "parameters", "forall", "feff", "operands", "effects", "oneof", "actions", "derived", "atoms", "sum", "product", "sum effect"])
    if k == "with others" and where != "constants":
        ctx.assume(not any(u == t for t in (tt, uu, ww)))
        tys = tys[:i] + [ctx.choice("either", [[tt, u, uu, ww], [u, "object", tt], [uu, ww, u]])] + tys[i + 1 :]
    else:
        ctx.assume(k == "single")
        tys = tys[:i] + [[u]] + tys[i + 1 :]
    vs = [Variable(f"x{j}", t) for j, t in enumerate(tys)]
    q = p.Predicate("qq")
    at = [p.Predicate(f"p{j}", v) for j, v in enumerate(vs)]
    kw = {
        "constants": lambda: dict(constants=[Constant(f"c{j}", t[0]) for j, t in enumerate(tys)]),
        "terms": lambda: dict(predicates=[p.Predicate("pp", *vs)]),
        "predicates": lambda: dict(predicates=at),
        "functions": lambda: dict(functions={f.NumericFunction(f"f{j}", v): None for j, v in enumerate(vs)}),
        "function terms": lambda: dict(functions={f.NumericFunction("ff", *vs): None}),
        "parameters": lambda: dict(actions=[Action("aa", vs)]),
        "forall": lambda: dict(actions=[Action("aa", [], b.ForallCondition(q, vs), q)]),
        "feff": lambda: dict(actions=[Action("aa", [], q, e.Forall(q, vs))]),
        "operands": lambda: dict(actions=[Action("aa", [], ctx.choice("op", [b.And, b.Or])(*at), q)]),
        "effects": lambda: dict(actions=[Action("aa", [], q, b.And(*[b.Not(a) if j % 2 else a for j, a in enumerate(at)]))]),
        "oneof": lambda: dict(actions=[Action("aa", [], q, b.OneOf(*[b.And(a, b.Not(q)) for a in at]))]),
        "actions": lambda: dict(actions=[Action(f"a{j}", [v], q, q) for j, v in enumerate(vs)]),
        "derived": lambda: dict(derived_predicates=[p.DerivedPredicate(a, q) for a in at]),
        "sum": lambda: dict(actions=[Action("aa", [], f.LesserThan(f.NumericFunction("gg"), f.Plus(*[f.NumericFunction("hh", v) for v in vs])), q)]),
        "product": lambda: dict(derived_predicates=[p.DerivedPredicate(q, f.EqualTo(f.Times(*[f.Minus(f.NumericFunction("hh", v)) for v in vs]), f.NumericValue(1)))]),
        "sum effect": lambda: dict(actions=[Action("aa", [], q, f.Assign(f.NumericFunction("gg"), f.Divide(f.Plus(*[f.NumericFunction("hh", v) for v in vs]), f.NumericValue(2))))]),
        "atoms": lambda: dict(actions=[Action("aa", [], b.Not(p.Predicate("pp", *vs)), f.Increase(f.NumericFunction("ff"), f.Plus(f.NumericFunction("gg"), f.NumericFunction("hh", *vs))))]),
    }[where]()
    ok, d = ctx.attempt(Domain, "dd", requirements=R("TYPING", "NUMERIC_FLUENTS"), types=decl, **kw)
    want = is_available(u, list(decl.items()))
    ctx.check(ok == want, f"type {u} at {i} of {where} ({k}) with declared {decl}: {'accepted' if ok else 'rejected'}")


SCENARIOS = [
    Scenario("deep", deep, "a symbolic type in an atom or quantifier below 3 (thorough: 4) connectives of any kind, 3 places"),
    Scenario("long", long, "a symbolic type at any of 5 elements of 17 kinds of lists, alone or among 3 to 4 types of a variable, three declared symbolic types"),
    Scenario("every-place", every_place, "one symbolic type at each of the places of a domain, one declared symbolic type with optional symbolic supertype"),
    Scenario("requirement", requirement, "each place, declared type, 'object', no type or two types, any subset of 4 requirements"),
    Scenario("either", either, "two symbolic types at 7 places (thorough: all), two declared types with optional supertypes"),
    Scenario("nothing-declared", nothing_declared, "a symbolic type or 'object' at each place, no declared types"),
    Scenario("several", several_parts, "any subset of five parts, each with a symbolic type"),
    Scenario("text", textual, "nine places in parsed text"),
]
