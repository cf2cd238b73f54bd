"""C14: a problem is accepted against a domain exactly when it is consistent."""

from hx.c13 import is_available
from hx.lib import R, Scenario


def domain(name="dd", reqs=None, types=None):
    from pddl.core import Domain

    return Domain(name, requirements=reqs, types=types)


def mode_call(ctx, d, how, pname, **kw):
    """Check a problem by the chosen route; the name agreement is only asked on request and at construction."""
    from pddl.core import Problem

    if how == "check":
        p = Problem("pp", domain_name=pname, **kw)
        return ctx.attempt(p.check, d)
    if how == "construct":
        return ctx.attempt(Problem, "pp", domain=d, **kw)
    p = Problem("pp", domain_name=pname, **kw)

    def attach():
        p.domain = d

    return ctx.attempt(attach)


def verdict(ctx, ok, res, want, what):
    from pddl.exceptions import PDDLValidationError

    if want:
        ctx.accepted(ok, res, what)
    else:
        ctx.rejected(ok, what)
        ctx.check(isinstance(res, PDDLValidationError), f"{what} is rejected with {type(res).__name__}")


def names(ctx):
    """The domain names agree up to letter case."""
    a, b = ctx.name("problem-says"), ctx.name("domain-is")
    ok, res = mode_call(ctx, domain(b), "check", a)
    verdict(ctx, ok, res, a.lower() == b.lower(), f"domain name {a} against {b}")


def attach(ctx):
    """Attaching a domain checks the problem and gives it the domain's name."""
    from pddl.core import Problem

    b = ctx.name("domain-is")
    p = Problem("pp", domain_name=ctx.name("problem-says"))
    d = domain(b)
    p.domain = d
    ctx.check(p.domain_name == b and p.domain is d, "the attached domain is not the problem's domain")
    ctx.ok(p.check, d, what="check after attaching")


def universe():
    return list(R("TYPING", "ADL", "STRIPS", "EQUALITY"))


def requirements(ctx):
    how = ctx.choice("how", ["check", "attach"])
    has = ctx.flag("stated")
    reqs = ctx.reqs("p", universe()) if has else None
    dr = ctx.reqs("d", universe())
    ok, res = mode_call(ctx, domain(reqs=dr), how, "dd", requirements=reqs)
    want = not has or all((r not in reqs) or (r in dr) for r in universe())
    verdict(ctx, ok, res, want, f"problem requirements {ctx.show(reqs)} against {ctx.show(dr)}")


def requirements_construct(ctx):
    from pddl.core import Problem

    reqs = ctx.reqs("p", universe()) if ctx.flag("stated") else None
    dr = ctx.reqs("d", universe())
    d = domain(reqs=dr)
    ok, p = ctx.attempt(Problem, "pp", domain=d, requirements=reqs)
    want = reqs is None or all((r in reqs) == (r in dr) for r in universe())
    ctx.check(ok == want, f"requirements {ctx.show(reqs)} with a domain of {ctx.show(dr)}: {'accepted' if ok else 'rejected'}")
    if ok:
        ctx.check(all((r in p.requirements) == (r in dr) for r in universe()), "requirements of the problem differ from the domain's")


def V(t):
    from pddl.logic.terms import Variable

    return Variable("xx", [x for x in t if x is not None])


def C(t):
    from pddl.logic.terms import Constant

    return Constant("cc", t[0])


def places():
    from pddl.logic import base as b
    from pddl.logic import functions as f
    from pddl.logic import predicates as p

    P, q, val = p.Predicate, p.Predicate("qq"), f.NumericValue(3)
    a = lambda t: P("pp", C(t))  # noqa
    v = lambda t: P("pp", V(t))  # noqa
    fn = lambda t: f.NumericFunction("ff", C(t))  # noqa
    goal = {
        "constant": a, "variable": v, "not": lambda t: b.Not(a(t)), "and": lambda t: b.And(q, v(t)), "or": lambda t: b.Or(q, v(t)),
        "imply": lambda t: b.Imply(v(t), q), "imply right": lambda t: b.Imply(q, a(t)),
        "forall": lambda t: b.ForallCondition(q, [V(t)]), "exists": lambda t: b.ExistsCondition(q, [V(t)]),
        "forall body": lambda t: b.ForallCondition(v(t), []), "exists body": lambda t: b.ExistsCondition(b.Not(v(t)), []),
        "equal": lambda t: p.EqualTo(V(t), C([None])), "equal right": lambda t: p.EqualTo(C([None]), V(t)),
        "compare": lambda t: f.GreaterThan(fn(t), val), "arithmetic": lambda t: f.LesserThan(val, f.Plus(val, fn(t))),
        "deep": lambda t: b.And(q, b.Or(q, b.Not(b.ExistsCondition(b.Imply(q, v(t)), [])))),
    }
    out = {
        "objects": lambda t: dict(objects=[C(t)]),
        "init atom": lambda t: dict(init=[q, a(t)]),
        "init not": lambda t: dict(init=[b.Not(a(t))]),
        "init value": lambda t: dict(init=[q, f.EqualTo(fn(t), val)]),
        "init second": lambda t: dict(init=[P("pp", C([None]), C(t))]),
    }
    for k, g in goal.items():
        out["goal " + k] = lambda t, g=g: dict(goal=g(t))
    return out


def types(ctx):
    """One symbolic type at each place; declared a symbolic type with an optional symbolic supertype."""
    place = ctx.choice("place", sorted(places()))
    how = ctx.choice("how", ["check", "construct", "attach"])
    up = ctx.name("up") if ctx.flag("hasup") else None
    u, t = ctx.name("used"), ctx.name("t")
    if up is not None:
        ctx.differ(up, t)
    d = domain(reqs=R("TYPING"), types={t: up})
    ok, res = mode_call(ctx, d, how, "dd", **places()[place]([u]))
    verdict(ctx, ok, res, is_available(u, [(t, up)]), f"type {u} at '{place}' ({how}) with declared {t} - {up}")


FEW = ("objects", "init atom", "goal constant", "goal forall", "goal compare")


def typing(ctx):
    """Types are allowed by the domain's requirements only."""
    place = ctx.choice("place", sorted(places()))
    how = ctx.choice("how", ["check", "construct", "attach"])
    used = ctx.choice("used", ["declared", "object", "none"])
    reqs = ctx.reqs("d", universe())
    t = ctx.name("t")
    d = domain(reqs=reqs, types={t: None})
    ty = {"declared": t, "object": "object", "none": None}[used]
    kw = dict(places()[place]([ty]))
    # what the problem itself requires has no influence beyond being a part of the domain's
    own = ctx.choice("own", ["", "STRIPS", "TYPING", "STRIPS TYPING"]) if how != "construct" and place in FEW else ""
    if own:
        kw["requirements"] = set(R(*own.split()))
    ok, res = mode_call(ctx, d, how, "dd", **kw)
    want = (ty is None or any(r in reqs for r in R("TYPING", "ADL"))) and all(r in reqs for r in R(*own.split()))
    verdict(ctx, ok, res, want, f"{used} type at '{place}' ({how}) with requirements {ctx.show(reqs)} and the problem's own {own}")


def several(ctx):
    """Objects, initial state and goal together."""
    ps = ["objects", "init atom", "goal forall"]
    t = ctx.name("t")
    us, kw = [], {}
    for i, p in enumerate(ps):
        if ctx.flag(f"has{i}"):
            us.append(ctx.name(f"u{i}"))
            kw.update(places()[p]([us[-1]]))
    ok, res = mode_call(ctx, domain(reqs=R("TYPING"), types={t: None}), "check", "dd", **kw)
    verdict(ctx, ok, res, all(u == t for u in us), f"types {us} with declared {t}")


def construct(ctx):
    """Which of domain and domain name are given."""
    from pddl.core import Problem

    has_d, has_n = ctx.flag("domain"), ctx.flag("name")
    a, b = ctx.name("given"), ctx.name("domain-is")
    kw = {}
    if has_d:
        kw["domain"] = domain(b)
    if has_n:
        kw["domain_name"] = a
    n = ctx.name("n")
    ok, p = ctx.attempt(Problem, n, **kw)
    want = (has_d or has_n) and (not (has_d and has_n) or a == b)
    ctx.check(ok == want, f"domain {b if has_d else None}, domain name {a if has_n else None}: {'accepted' if ok else 'rejected'}")
    if ok:
        ctx.check_eq(p.name, n, "name")
        ctx.check_eq(p.domain_name, b if has_d else a, "domain name")


def literals(ctx):
    """Initial formulas must be literals."""
    from pddl.core import Problem
    from pddl.logic import base as b
    from pddl.logic import functions as f
    from pddl.logic import predicates as p

    P = p.Predicate
    x, y = P(ctx.name("p")), P(ctx.name("q"))
    from pddl.logic.terms import Constant, Variable

    k = Constant(ctx.name("c"))
    fn = f.NumericFunction(ctx.name("f"))
    forms = [("atom", x, True), ("not", b.Not(x), True), ("eq", p.EqualTo(k, k), True), ("value", f.EqualTo(fn, f.NumericValue(3)), True),
             ("not not", b.Not(b.Not(x)), False), ("empty and", b.And(), False), ("empty or", b.Or(), False),
             ("and", b.And(x, b.Not(x)), False), ("or", b.Or(x, b.Not(x)), False), ("imply", b.Imply(x, y), False),
             ("oneof", b.OneOf(x, y), False), ("forall", b.ForallCondition(x, [Variable("xx")]), False),
             ("exists", b.ExistsCondition(x, [Variable("xx")]), False), ("not and", b.Not(b.And()), False),
             ("not forall", b.Not(b.ForallCondition(x, [])), False), ("two", b.And(x, y), None)]
    name, form, want = forms[ctx.pick("form", len(forms))]
    if want is None:  # a conjunction of two atoms is an atom when they are the same
        want = x == y
    others = [y] if ctx.flag("other") else []
    kw = dict(domain=domain()) if ctx.flag("domain") else dict(domain_name="dd")
    ok, res = ctx.attempt(Problem, "pp", init=[form] + others, **kw)
    verdict(ctx, ok, res, want, f"initial formula {name}")
    if ok:
        ctx.check(form in res.init, "the initial formula is dropped")


def reattach(ctx):
    """A problem that already has a domain (at construction or attached) gets another one; checks against a third."""
    from pddl.core import Problem

    a, b, c = ctx.names("d", 3)
    ts = ctx.distinct_names("t", 2)
    used = ctx.choice("used", [None, ts[0], ts[1]])
    first = domain(a, reqs=R("TYPING", "ADL"), types={ts[0]: None, ts[1]: None})
    kw = dict(objects=[C([used])])
    stated = ctx.flag("stated")
    if ctx.flag("constructed"):
        p = Problem("pp", domain=first, requirements=R("TYPING", "ADL") if stated else None, **kw)
    else:
        p = Problem("pp", domain_name=a, requirements=R("TYPING", "ADL") if stated else None, **kw)
        p.domain = first
    rb = R("TYPING", "ADL") if ctx.flag("reqs") else R("TYPING")
    second = domain(b, reqs=rb, types={ts[0]: None})
    ok, res = ctx.attempt(setattr, p, "domain", second)
    # attached before: its requirements are those of the first domain
    fits = used is None or used == ts[0]
    if len(rb) == 2:
        verdict(ctx, ok, res, fits, f"another domain for a problem with type {used}")
    elif not fits:
        ctx.rejected(ok, f"another domain without the type {used}")
    if ok:
        ctx.check(p.domain is second and p.domain_name == b, "the domain attached last is not the problem's domain")
        ok, res = ctx.attempt(p.check, domain(c, reqs=R("TYPING", "ADL"), types={ts[0]: None}))
        ctx.check(ok == (c.lower() == b.lower()), f"the problem of {b} against the domain {c}: {'accepted' if ok else 'rejected'}")


REQ_WINDOWS = [("FLUENTS", "NUMERIC_FLUENTS", "ACTION_COSTS"), ("QUANTIFIED_PRECONDITION", "UNIVERSAL_PRECONDITION", "EXISTENTIAL_PRECONDITION"),
               ("ADL", "DIS_PRECONDITION", "CONDITIONAL_EFFECTS"), ("NEG_PRECONDITION", "NON_DETERMINISTIC", "DERIVED_PREDICATES")]


def other_requirements(ctx):
    """Requirements that imply others are still compared as stated."""
    how = ctx.choice("how", ["check", "attach", "construct"])
    u = list(R(*ctx.choice("window", REQ_WINDOWS)))
    reqs, dr = ctx.reqs("p", u), ctx.reqs("d", u)
    ok, res = mode_call(ctx, domain(reqs=dr), how, "dd", requirements=reqs)
    if how == "construct":
        want = all((r in reqs) == (r in dr) for r in u)
    else:
        want = all((r not in reqs) or (r in dr) for r in u)
    ctx.check(ok == want, f"problem requirements {ctx.show(reqs)} against {ctx.show(dr)} ({how}): {'accepted' if ok else 'rejected'}")


def long(ctx):
    """A type of the problem at any place of longer lists or below three connectives."""
    from pddl.logic import base as b
    from pddl.logic import functions as f
    from pddl.logic import predicates as p
    from pddl.logic.terms import Constant, Variable

    from hx.c13 import chains

    i, n = ctx.pick("at", 4), 4
    u = ctx.name("used")
    tt, uu = ctx.distinct_names("t", 2)
    ty = [None, tt, uu, tt]
    ty = ty[:i] + [u] + ty[i + 1 :]
    cs = [Constant(f"c{j}", t) for j, t in enumerate(ty)]
    vs = [Variable(f"x{j}", [t] if t else None) for j, t in enumerate(ty)]
    where = ctx.choice("where", ["objects", "init", "init terms", "init values", "goal", "goal terms", "goal variables", "either", "deep"])
    kw = {
        "objects": lambda: dict(objects=cs),
        "init": lambda: dict(init=[b.Not(p.Predicate("pp", c)) if j % 2 else p.Predicate("pp", c) for j, c in enumerate(cs)]),
        "init terms": lambda: dict(init=[p.Predicate("pp", *cs)]),
        "init values": lambda: dict(init=[f.EqualTo(f.NumericFunction("ff", c), f.NumericValue(j)) for j, c in enumerate(cs)]),
        "goal": lambda: dict(goal=ctx.choice("op", [b.And, b.Or])(*[p.Predicate(f"p{j}", c) for j, c in enumerate(cs)])),
        "goal terms": lambda: dict(goal=b.Not(p.Predicate("pp", *vs))),
        "goal variables": lambda: dict(goal=ctx.choice("op", [b.ForallCondition, b.ExistsCondition])(p.Predicate("pp"), vs)),
        "either": lambda: dict(goal=b.ExistsCondition(p.Predicate("pp"), [Variable("zz", {tt, uu, "object", u})])),
        "deep": lambda: dict(goal=chains(ctx, "k", 3, p.Predicate("pp", vs[i]))),
    }[where]()
    ctx.assume(i == 0 or where not in ("deep", "either"))
    how = ctx.choice("how", ["check", "construct", "attach"]) if where != "deep" else "check"
    ok, res = mode_call(ctx, domain(reqs=R("TYPING"), types={uu: tt}), how, "dd", **kw)
    verdict(ctx, ok, res, is_available(u, [(uu, tt)]), f"type {u} at {i} of {where} ({how})")


SCENARIOS = [
    Scenario("reattach", reattach, "a problem with a domain gets another one, three symbolic domain names, two symbolic types; then a check against a third"),
    Scenario("other-requirements", other_requirements, "any two subsets of 4 windows of requirements, one implying others, three routes"),
    Scenario("long", long, "a symbolic type at any of 4 elements of 8 kinds of lists, three routes; in a goal below 3 connectives of any kind"),
    Scenario("names", names, "two symbolic names of at most 12 characters, compared character by character"),
    Scenario("attach", attach, "two symbolic names"),
    Scenario("requirements", requirements, "any two subsets of 4 requirements, or none stated; on request and when attached"),
    Scenario("requirements-construct", requirements_construct, "the same at construction with a domain"),
    Scenario("types", types, "one symbolic type at each of the places of a problem, three routes, one declared symbolic type with optional supertype"),
    Scenario("typing", typing, "declared type, 'object' or none at each place, three routes, any subset of 4 requirements of the domain; at 5 places the problem states one of 3 lists of its own"),
    Scenario("several", several, "symbolic types of objects, initial state and goal together"),
    Scenario("construct", construct, "domain and domain name given or not, all names symbolic"),
    Scenario("literals", literals, "16 kinds of initial formulas over symbolic atoms, with and without a domain"),
]
