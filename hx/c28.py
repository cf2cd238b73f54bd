"""C28: objects hold exactly the parts that were given to their constructors."""

from hx.lib import (CMP, FULL, NOTYPE, NUM, PARTS_D, PARTS_P, Gen, R, Scenario, build, build_term, build_vars, fixed,
                    full_reqs, norm, read, read_action, read_domain, read_plan, read_problem, read_term, same_parts)

def REQUIREMENTS():
    return sorted(R("ADL", "TYPING", "STRIPS", "FLUENTS", "NON_DETERMINISTIC"), key=lambda r: r.name)


CONTAINERS = ["list", "tuple", "set", "frozenset", "generator"]


def held(kind, xs):
    return {"list": list, "tuple": tuple, "set": set, "frozenset": frozenset, "generator": lambda ys: (y for y in ys),
            "dict": lambda ys: {y: None for y in ys}, "repeated": lambda ys: list(ys) + list(ys)}[kind](xs)


def repeated(xs):
    return any(xs[i] == xs[j] for i in range(len(xs)) for j in range(i))


def terms(ctx):
    """Constants and variables: name and types."""
    from pddl.logic.terms import Constant, Variable

    n = ctx.name("n")
    types = ctx.names("t", ctx.pick("types", 4))
    if ctx.flag("constant"):
        ctx.assume(len(types) <= 1)
        c = ctx.ok(Constant, n, *types, what="Constant constructor")
        ctx.check(c.name == n, f"the constant {n} is named {c.name}")
        ctx.check(c.type_tag == (types[0] if types else None), f"the constant of type {types} has type {c.type_tag}")
        ctx.check(frozenset(c.type_tags) == frozenset(types), f"the constant of type {types} has types {ctx.show(c.type_tags)}")
        return
    kind = ctx.choice("given", ["list", "tuple", "set", "frozenset"] + ([] if types else ["none", "absent"]))
    args = () if kind == "absent" else (None,) if kind == "none" else (held(kind, types),)
    ok, v = ctx.attempt(Variable, n, *args)
    if kind in ("list", "tuple") and repeated(types):
        ctx.rejected(ok, f"a variable with the list of types {types}")
        return
    ctx.accepted(ok, v, f"the variable {n} with types {types}")
    ctx.check(v.name == n, f"the variable {n} is named {v.name}")
    ctx.check(frozenset(v.type_tags) == frozenset(types), f"the variable with types {types} has {ctx.show(v.type_tags)}")


def helpers(ctx):
    """variables() and constants() give one term per listed name."""
    from pddl.logic.helpers import constants, variables
    from pddl.logic.terms import Constant, Variable

    ns = ctx.names("n", ctx.pick("n", 5 if ctx.thorough else 4))
    types = ctx.distinct_names("t", ctx.pick("types", 3))
    sep = ctx.choice("sep", [" ", "  "])
    text = sep.join(ns)
    if ctx.flag("constants"):
        ctx.assume(len(types) <= 1)
        got = ctx.ok(constants, text, *types, what="constants()")
        ctx.check([(type(c), c.name, c.type_tag) for c in got] == [(Constant, n, types[0] if types else None) for n in ns],
                  f"constants({text!r}) gave {ctx.show(got)}")
        return
    got = ctx.ok(variables, text, *([types] if types else []), what="variables()")
    ctx.check([(type(v), v.name, frozenset(v.type_tags)) for v in got] == [(Variable, n, frozenset(types)) for n in ns],
              f"variables({text!r}) gave {ctx.show(got)}")


def term(ctx, lb, types=1):
    if ctx.flag(lb + ".const"):
        return ("c", ctx.name(lb + ".n"))
    k = ctx.pick(lb + ".ty", types + 1)
    return ("v", ctx.name(lb + ".n"), frozenset(ctx.distinct_names(lb + ".t", k)))


def clash(ts):
    """Some variable name with two sets of types."""
    vs = [t for t in ts if t[0] == "v"]
    return any(vs[i][1] == vs[j][1] and not (vs[i][2] == vs[j][2]) for i in range(len(vs)) for j in range(i))


def atoms(ctx):
    """Predicates, functions and equalities: name and terms in the given order."""
    kind = ctx.choice("kind", ["pred", "fn", "eq"])
    n = 2 if kind == "eq" else ctx.pick("n", 4)
    ts = tuple([term(ctx, f"t{i}") for i in range(n)])
    spec = ("eq", *ts) if kind == "eq" else (kind, ctx.name("p"), ts)
    ok, a = ctx.attempt(build, spec)
    if kind == "pred" and clash(ts):
        ctx.rejected(ok, f"an atom with the terms {ctx.show(ts)}")
        return
    if kind != "pred":
        ctx.assume(not clash(ts))
    ctx.accepted(ok, a, f"the atom {ctx.show(spec)}")
    ctx.check_eq(read(a), spec, "the atom built from the given parts")
    if kind != "eq":
        ctx.check(a.arity == n, f"arity {a.arity} of an atom with {n} terms")


def called(ctx):
    """A predicate or function applied to terms."""
    kind = ctx.choice("kind", ["pred", "fn"])
    n, m = ctx.pick("n", 3), ctx.pick("m", 4)
    old = tuple([term(ctx, f"o{i}") for i in range(n)])
    new = tuple([term(ctx, f"t{i}") if m < 3 else ("c", ctx.name(f"t{i}.n")) for i in range(m)])
    ctx.assume(not clash(old) and not clash(new))
    name = ctx.name("p")
    a = ctx.ok(build, (kind, name, old), what="atom constructor")
    ok, b = ctx.attempt(a, *[build_term(t) for t in new])
    ctx.check_eq(read(a), (kind, name, old), "the atom after it was applied")
    types = lambda t: t[2] if t[0] == "v" else NOTYPE  # noqa: E731
    if n != m or kind == "fn" and any(not (types(x) == types(y)) for x, y in zip(old, new)):
        ctx.rejected(ok, f"{ctx.show(old)} replaced by {ctx.show(new)}")
        return
    ctx.accepted(ok, b, f"{ctx.show(old)} replaced by {ctx.show(new)}")
    ctx.check_eq(read(b), (kind, name, new), "the atom applied to terms")


def conditions(ctx):
    f = Gen(ctx, [], [], qvars=[((fixed(1), NOTYPE), (fixed(2), frozenset(["tt"])))], eq=False).formula("f", 2)
    ctx.check_eq(norm(read(build(f))), norm(f), "the condition built from the given parts")


def given_effects(ctx):
    g = Gen(ctx, [], [], qvars=[((fixed(1), NOTYPE),)], eq=False)
    f = g.effect("f", 2)
    ctx.check_eq(norm(read(build(f))), norm(f), "the effect built from the given parts")


def operators(ctx):
    """Every operator with two operands, or more where it takes them, keeps them in order."""
    kind = ctx.choice("kind", ["cmp", "num", "arith", "oneof", "and", "or", "imply", "when", "not"])
    n = ctx.pick("n", 3) + 2 if kind in ("oneof", "and", "or") else 2
    if kind == "arith":
        op = ctx.choice("op", list("+-*/"))
        if op in "+*":
            n = 2 + ctx.pick("n", 3)
    names = ctx.names("x", n)
    if kind in ("cmp", "num", "arith"):
        xs = [("fn", x, ()) if not ctx.flag(f"{i}.number") else ("val", ctx.int(f"{i}.value")) for i, x in enumerate(names)]
        if kind == "num":
            xs[0] = ("fn", names[0], ())
        if kind == "arith":
            spec = (kind, op, tuple(xs))
        else:
            spec = (kind, ctx.choice("op", list(CMP if kind == "cmp" else NUM)), xs[0], xs[1])
    else:
        xs = [("pred", x, ()) for x in names]
        spec = (kind, tuple(xs)) if kind in ("and", "or", "oneof") else (kind, xs[0]) if kind == "not" else (kind, xs[0], xs[1])
    o = ctx.ok(build, spec, what=f"{kind} constructor")
    ctx.check_eq(norm(read(o)), norm(spec), "the object built from the given parts")


def quantified(ctx):
    """Quantified variables, however they are given."""
    from pddl.logic.base import ExistsCondition, ForallCondition
    from pddl.logic.effects import Forall
    from pddl.logic.predicates import Predicate

    cls, kind = ctx.choice("kind", [(ForallCondition, "forall"), (ExistsCondition, "exists"), (Forall, "feff")])
    n = ctx.pick("n", 4 if ctx.thorough else 3)
    vs = [(ctx.name(f"v{i}"), frozenset(ctx.distinct_names(f"t{i}", ctx.pick(f"ty{i}", 3 if n < 2 else 2)))) for i in range(n)]
    how = ctx.choice("given", CONTAINERS + ["repeated"] + ([] if n else ["none", "absent"]))
    args = () if how == "absent" else (None,) if how == "none" else (held(how, build_vars(vs)),)
    p = ctx.name("p")
    q = ctx.ok(cls, Predicate(p), *args, what=f"{kind} constructor")
    ctx.check_eq(norm(read(q)), (kind, frozenset(vs), ("pred", p, ())), "the quantified formula")


def parts(ctx, lb, n=0):
    """An absent, empty or other condition or effect."""
    k = ctx.choice(lb, ["absent", "empty", "atom", "pair"])
    return {"absent": lambda: None, "empty": lambda: ("and", ()), "atom": lambda: ("pred", ctx.name(lb + ".p"), ()),
            "pair": lambda: ("and", (("pred", ctx.name(lb + ".p"), ()), ("not", ("pred", ctx.name(lb + ".q"), ()))))}[k]()


def actions(ctx):
    from pddl.action import Action

    n = ctx.pick("n", 4 if ctx.thorough else 3)
    ps = [(ctx.name(f"v{i}"), frozenset(ctx.distinct_names(f"t{i}", ctx.pick(f"ty{i}", 2)))) for i in range(n)]
    name, pre, eff = ctx.name("a"), parts(ctx, "pre"), parts(ctx, "eff")
    how = ctx.choice("given", ["list", "tuple", "generator"])
    route = ctx.choice("route", ["position", "keyword"])
    vs = held(how, build_vars(ps))
    if route == "position":
        a = ctx.ok(Action, name, vs, build(pre), build(eff), what="Action constructor")
    else:
        a = ctx.ok(Action, what="Action constructor", effect=build(eff), precondition=build(pre), parameters=vs, name=name)
    ctx.check_eq(read_action(a), ("action", name, tuple(ps), norm(pre), norm(eff)), "the action built from the given parts")
    ctx.check_eq(tuple([read_term(t) for t in a.terms]), tuple([("v", x, t) for x, t in ps]), "the terms of the action")


def derived(ctx):
    from pddl.logic.functions import Metric
    from pddl.logic.predicates import DerivedPredicate

    if ctx.flag("metric"):
        f = ("fn", ctx.name("f"), ()) if ctx.flag("function") else ("val", ctx.int("v"))
        o = ctx.choice("opt", ["minimize", "maximize", "minimise", "MINIMIZE", "symbolic"])
        ok, m = ctx.attempt(Metric, build(f), *[ctx.name("o") if o == "symbolic" else o])
        if o in ("minimize", "maximize"):
            ctx.accepted(ok, m, f"a metric to {o}")
            ctx.check_eq((m.optimization, read(m.expression)), (o, f), "the metric built from the given parts")
        elif o != "symbolic":
            ctx.rejected(ok, f"a metric to {o}")
        return
    head = ("pred", ctx.name("h"), tuple([term(ctx, f"t{i}") for i in range(ctx.pick("n", 3))]))
    ctx.assume(not clash(head[2]))
    c = ("not", ("pred", ctx.name("c"), ()))
    d = ctx.ok(DerivedPredicate, build(head), build(c), what="DerivedPredicate constructor")
    ctx.check_eq((read(d.predicate), read(d.condition)), (head, c), "the derived predicate built from the given parts")


def domains(ctx):
    """A domain holds the given elements, however they are given; every other part is empty."""
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant

    part = ctx.choice("part", ["requirements", "types", "constants", "predicates", "functions", "derived_predicates", "actions"])
    how = ctx.choice("given", {"types": ["dict"], "functions": ["dict"]}.get(part, CONTAINERS + ["repeated"]) + ["none", "absent"])
    n = 0 if how in ("none", "absent") else ctx.pick("n", 4)
    ns = ctx.names("x", n)
    name = ctx.name("d")
    reqs = full_reqs()
    want = {k: frozenset() for k in PARTS_D}
    if part == "requirements":
        reqs = [ctx.choice(f"r{i}", REQUIREMENTS()) for i in range(n)]
        xs, want["requirements"] = reqs, frozenset(reqs)
    else:
        want["requirements"] = frozenset(reqs)
    if part == "constants":
        xs, want["constants"] = [Constant(x, "object") for x in ns], frozenset([(x, "object") for x in ns])
    if part == "predicates":
        xs, want["predicates"] = [Predicate(x) for x in ns], frozenset([("pred", x, ()) for x in ns])
    if part == "functions":
        xs, want["functions"] = [NumericFunction(x) for x in ns], frozenset([(("fn", x, ()), "number") for x in ns])
        given = {x: "number" for x in xs}
    if part == "derived_predicates":
        xs = [DerivedPredicate(Predicate(x), Predicate("p")) for x in ns]
        want["derived predicates"] = frozenset([("derived", ("pred", x, ()), ("pred", "p", ())) for x in ns])
    if part == "actions":
        xs, want["actions"] = [Action(x, []) for x in ns], frozenset([("action", x, (), None, None) for x in ns])
    if part == "types":
        ctx.distinct(ns)
        parents = [ctx.choice(f"p{i}", [None, "object"] + ns[:i]) for i in range(n)]
        want["types"] = frozenset(zip(ns, parents))
        given = dict(zip(ns, parents))
    elif part != "functions":
        given = None if how in ("none", "absent") else held(how, xs)
    kw = {} if part == "requirements" else {"requirements": reqs}
    if how != "absent":
        kw[part] = None if how == "none" else given
    d = ctx.ok(Domain, name, what="Domain constructor", **kw)
    same_parts(ctx, read_domain(d), [name] + [want[k] for k in PARTS_D[1:]], PARTS_D, f"domain with {part} {ns} given as {how}")


def problems(ctx):
    """A problem holds the given elements."""
    from pddl.core import Domain, Problem
    from pddl.logic.functions import Metric, NumericFunction
    from pddl.logic.terms import Constant

    part = ctx.choice("part", ["requirements", "objects", "init", "goal", "metric"])
    how = ctx.choice("given", {"goal": ["given"], "metric": ["given"]}.get(part, CONTAINERS + ["repeated"]) + ["none", "absent"])
    n = 0 if how in ("none", "absent") else 1 if how == "given" else ctx.pick("n", 4)
    ns = ctx.names("x", n)
    name, dn = ctx.name("p"), ctx.name("d")
    want = {k: frozenset() for k in PARTS_P}
    want["goal"], want["metric"] = ("and", ()), None
    xs = []
    if part == "requirements":
        xs = [ctx.choice(f"r{i}", REQUIREMENTS()) for i in range(n)]
        want["requirements"] = frozenset(xs)
    if part == "objects":
        xs, want["objects"] = [Constant(x, "object") for x in ns], frozenset([(x, "object") for x in ns])
    if part == "init":
        k = ctx.choice("literal", ["pred", "not", "value"])
        fs = [{"pred": ("pred", x, ()), "not": ("not", ("pred", x, ())), "value": ("cmp", "=", ("fn", x, ()), ("val", 3))}[k] for x in ns]
        xs, want["initial state"] = [build(f) for f in fs], frozenset(fs)
    if part == "goal" and n:
        f = ("or", (("pred", ns[0], ()), ("not", ("pred", "qq", ()))))
        given, want["goal"] = build(f), f
    elif part == "metric" and n:
        o = ctx.choice("optimization", ["minimize", "maximize"])
        given, want["metric"] = Metric(NumericFunction(ns[0]), o), (o, ("fn", ns[0], ()))
    elif how not in ("none", "absent"):
        given = held(how, xs)
    kw = {} if how == "absent" else {part: None if how == "none" else given}
    route = ctx.choice("route", ["name", "domain"])
    if route == "name":
        kw["domain_name"] = dn
    else:
        kw["domain"] = Domain(dn, requirements=xs if part == "requirements" and n else full_reqs())
        if not (part == "requirements" and n):
            want["requirements"] = frozenset(full_reqs())
            ctx.assume(part != "requirements" or how in ("none", "absent"))
    p = ctx.ok(Problem, name, what="Problem constructor", **kw)
    same_parts(ctx, read_problem(p), [name, dn] + [want[k] for k in PARTS_P[2:]], PARTS_P, f"problem with {part} {ns} given as {how}")
    if route == "domain":
        ctx.check(p.domain is kw["domain"], "another domain than the given one")


def plans(ctx):
    from pddl.core import Plan
    from pddl.logic.terms import Constant

    n = ctx.pick("n", 4)
    steps = [(ctx.name(f"a{i}"), ctx.names(f"o{i}.", ctx.pick(f"k{i}", 3))) for i in range(n)]
    p = ctx.ok(Plan, [(a, [Constant(o) for o in os]) for a, os in steps], what="Plan constructor")
    ctx.check_eq(read_plan(p), steps, "the plan built from the given steps")


def long(ctx):
    """Objects with 4 to 12 elements in one list or nesting hold them all."""
    from hx import big

    k = ctx.choice("kind", list(big.SPECS))
    n = [4, 5, 6, 8, 12][ctx.pick("n", 5)]
    xs = [fixed(f"x{i}") for i in range(n)]
    xs[ctx.pick("place", n)] = ctx.name("x")
    ctx.check_eq(norm(read(build(big.SPECS[k](xs)))), norm(big.SPECS[k](xs)), f"{k} with {n} elements")


def long_parts(ctx):
    """Domains, problems, actions, plans and variables with 4 to 12 elements in one part."""
    from hx import big

    k = ctx.choice("kind", list(big.HELD))
    n = [4, 5, 6, 8, 12][ctx.pick("n", 5)]
    xs = [fixed(f"x{i}") for i in range(n)]
    xs[ctx.pick("place", n)] = ctx.name("x")
    ctx.check_eq(big.HELD[k](big.make(k, xs)), big.want(k, xs), f"{k} with {n} elements")


SCENARIOS = [
    Scenario("long", long, "14 kinds of formulas and expressions with 4 to 12 elements in a list or nesting, the element at any place symbolic"),
    Scenario("long-parts", long_parts, "14 parts of other objects with 4 to 12 elements, the element at any place symbolic"),
    Scenario("terms", terms, "a constant, or a variable with at most 3 symbolic types given in 6 ways"),
    Scenario("helpers", helpers, "variables() and constants() of at most 3 (thorough: 4) symbolic names and 2 types"),
    Scenario("atoms", atoms, "predicates and functions with at most 3 terms, equalities; symbolic names and types"),
    Scenario("called", called, "predicates and functions of arity at most 2 applied to at most 3 terms, symbolic names and types"),
    Scenario("conditions", conditions, "conditions of depth 2 with symbolic atoms"),
    Scenario("effects", given_effects, "effects of depth 2 with symbolic atoms"),
    Scenario("operators", operators, "every operator with at most 4 symbolic operands: atoms, functions, symbolic integers"),
    Scenario("quantified", quantified, "quantifiers over at most 2 (thorough: 3) variables with symbolic names and types, given in 8 ways"),
    Scenario("actions", actions, "actions with at most 2 (thorough: 3) parameters, absent, empty and other parts, given in 6 ways"),
    Scenario("derived", derived, "derived predicates with at most 2 arguments; metrics with 5 directions"),
    Scenario("domains", domains, "at most 3 symbolic elements in each part of a domain, given in 8 ways"),
    Scenario("problems", problems, "at most 3 symbolic elements in each part of a problem, given in 8 ways, with a domain or its name"),
    Scenario("plans", plans, "plans of at most 3 steps with at most 2 arguments, all names symbolic"),
]
