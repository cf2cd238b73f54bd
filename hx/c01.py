"""C01: printed domains parse back to an equal domain."""

from hx.lib import (EITHER, FULL, NOTYPE, PARTS_D, Gen, R, Scenario, all_reqs, build, build_vars, expressible, fixed, full_reqs,
                    long_effect, long_formula, long_list, parse_domain_text, read_domain, same_parts)

NUMS = [0, 7, 1234567, 12345678901234567890, 0.5, 1.5, 0.1, 1e-07, 1e22, 123456.789, 100000.0]


def roundtrip(ctx, d):
    text = ctx.ok(str, d, what="printing the domain")
    again = ctx.ok(parse_domain_text, text, what=f"parsing the printed domain {text}")
    same_parts(ctx, read_domain(again), read_domain(d), PARTS_D, f"printed domain {text}")
    ctx.check(again == d and d == again, f"the domain parsed from its own text is not equal to it: {text}")
    ctx.check(str(again) == text, f"the parsed domain prints differently: {text} / {str(again)}")
    ctx.observe(text)


def make(ctx, **kw):
    from pddl.core import Domain

    kw.setdefault("requirements", full_reqs())
    return ctx.ok(Domain, kw.pop("name", "dd"), what="Domain constructor", **kw)


def requirements(ctx):
    k = ctx.pick("window", len(FULL) + 2)
    if k < len(FULL):
        chosen = [w for w in [FULL[(k + i) % len(FULL)] for i in (0, 1, 3, 7)] if ctx.flag("req." + w)]
    else:
        chosen = [[], FULL][k - len(FULL)]
    roundtrip(ctx, make(ctx, name=ctx.name("n"), requirements=R(*chosen)))


def acyclic(parents):
    for start in range(len(parents)):
        cur, steps = parents[start], 0
        while isinstance(cur, int) and steps <= len(parents):
            cur, steps = parents[cur], steps + 1
        if steps > len(parents):
            return False
    return True


def hierarchy(ctx, n, typing=True):
    """Types with every acyclic choice of parents: none, another declared type, or an undeclared supertype."""
    names = ctx.distinct_names("t", n + 1)
    par = [ctx.choice(f"par{i}", [None] + ([j for j in range(n) if j != i] + ["undeclared"] if typing else [])) for i in range(n)]
    ctx.assume(acyclic(par))
    return {names[i]: (None if p is None else names[n] if p == "undeclared" else names[p]) for i, p in enumerate(par)}


def types(ctx):
    typing = ctx.flag("typing")
    n = ctx.pick("n", 5 if ctx.thorough else 4)
    d = make(ctx, types=hierarchy(ctx, n, typing), requirements=R("TYPING") if typing else R("STRIPS"))
    roundtrip(ctx, d)


def types_adl(ctx):
    d = make(ctx, types=hierarchy(ctx, 2), requirements=R(ctx.choice("req", ["ADL", "TYPING"])))
    roundtrip(ctx, d)


TY = {"tt": None, "uu": "tt", "ww": None}
TSETS = [NOTYPE, frozenset(["tt"]), frozenset(["uu", "ww"]), frozenset(["object"]), frozenset(["ww", "tt"])]


def constants(ctx):
    from pddl.logic.terms import Constant

    n = ctx.pick("n", 5 if ctx.thorough else 4)
    cs = [Constant(ctx.name(f"c{i}"), ctx.choice(f"ty{i}", [None, "tt", "uu", "object"])) for i in range(n)]
    for i in range(n):
        for j in range(i):
            # one constant with two types is not expressible
            ctx.assume(cs[i].type_tag == cs[j].type_tag or cs[i].name != cs[j].name)
    roundtrip(ctx, make(ctx, types=TY, constants=cs))


def params(ctx, label, n, options, distinct=True):
    names = ctx.distinct_names(label, n) if distinct else ctx.names(label, n)
    vs = tuple([(names[i], ctx.choice(f"{label}ty{i}", options)) for i in range(n)])
    ctx.assume(expressible(vs))
    return vs


def predicates(ctx):
    from pddl.logic.predicates import Predicate

    n = 1 + ctx.pick("n", 2)
    ps = []
    for i in range(n):
        k = ctx.pick(f"k{i}", 3 if i == 0 or ctx.thorough else 2)
        vs = params(ctx, f"v{i}.", k, TSETS if i == 0 else TSETS[:3])
        ps.append(Predicate(ctx.name(f"p{i}"), *build_vars(vs)))
    roundtrip(ctx, make(ctx, types=TY, predicates=ps))


def many_predicates(ctx):
    """Three predicates or functions of arities 0 to 2 whose names may coincide."""
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import Predicate

    a, b = ctx.names("v", 2)
    vs = build_vars([(a, NOTYPE), (b, NOTYPE)])
    cls = ctx.choice("cls", [Predicate, NumericFunction])
    ps = [cls(ctx.name(f"p{i}"), *vs[: ctx.pick(f"k{i}", 3)]) for i in range(3)]
    if cls is Predicate:
        roundtrip(ctx, make(ctx, predicates=ps))
    else:
        kinds = [ctx.choice(f"t{i}", [None, "number"]) for i in range(3)]
        roundtrip(ctx, make(ctx, functions=dict(zip(ps, kinds))))


def functions(ctx):
    from pddl.logic.functions import NumericFunction

    n = 1 + ctx.pick("n", 2)
    fs = {}
    for i in range(n):
        if ctx.flag(f"tc{i}"):
            f = NumericFunction("total-cost")
        else:
            k = ctx.pick(f"k{i}", 3 if i == 0 else 2)
            f = NumericFunction(ctx.name(f"f{i}"), *build_vars(params(ctx, f"v{i}.", k, TSETS if i == 0 else TSETS[:3])))
        fs[f] = ctx.choice(f"ft{i}", [None, "number"])
    roundtrip(ctx, make(ctx, types=TY, functions=fs))


def derived(ctx):
    """Derived predicates; head types equal to or below those of the declaration."""
    from pddl.logic.predicates import DerivedPredicate, Predicate

    k = ctx.pick("k", 3)
    vs = params(ctx, "v", k, TSETS)
    g = Gen(ctx, [], [], qvars=[((ctx.name("q"), frozenset(["uu"])),)] if k < 2 else [], eq=False)
    f = g.formula("f", 1)
    if k > 0 and ctx.flag("use"):
        f = ("and", (("pred", ctx.name("use.p"), tuple([("v", a, b) for a, b in vs])), f))
    head = Predicate("hh", *build_vars(vs))
    n = 1 + ctx.pick("n", 2)
    dps = [DerivedPredicate(head, build(f))]
    if n == 2:
        dps.append(DerivedPredicate(head, build(("not", ("pred", ctx.name("other"), ())))))
    roundtrip(ctx, make(ctx, types=TY, predicates=[head], derived_predicates=dps))


def below(ts, us):
    """Each type of ts is one of us or lies below one of them."""
    return not us or "object" in us or all(t in us or TY.get(t) in us for t in ts)


def derived_head(ctx):
    """The head of a derived predicate may be typed more narrowly than, and named differently from, the declaration."""
    from pddl.logic.predicates import DerivedPredicate, Predicate

    k = 1 + ctx.pick("k", 2)
    opts = TSETS if k == 1 or ctx.thorough else TSETS[:3]
    decl, head = params(ctx, "d", k, opts), params(ctx, "h", k, opts)
    for d, h in zip(decl, head):
        # an untyped argument of the head takes the type of the declaration
        ctx.assume(below(h[1], d[1]) and (len(h[1]) > 0 or len(d[1]) == 0))
    use = tuple([("v", a, b) for a, b in head])
    f = ctx.choice("f", [("pred", "hh", use), ("not", ("pred", "other", use[::-1])), ("forall", (head[0],), ("pred", "hh", use))])
    dps = [DerivedPredicate(Predicate("hh", *build_vars(head)), build(f))]
    if ctx.flag("two"):
        dps.append(DerivedPredicate(Predicate("hh", *build_vars(decl)), build(("pred", "hh", tuple([("v", a, b) for a, b in decl])))))
    roundtrip(ctx, make(ctx, types=TY, predicates=[Predicate("hh", *build_vars(decl))], derived_predicates=dps))


def action_parameters(ctx):
    from pddl.action import Action

    k = ctx.pick("k", 4)
    vs = params(ctx, "v", k, TSETS if k < 3 else TSETS[:3])
    pre = ctx.choice("pre", ["absent", "true", "false", "atom"])
    eff = ctx.choice("eff", ["absent", "true", "atom"])
    p, q = ctx.names("p", 2)
    use = tuple([("v", a, b) for a, b in vs])
    fm = {"absent": None, "true": ("and", ()), "false": ("or", ())}
    a = Action(ctx.name("a"), build_vars(vs), build(fm.get(pre, ("pred", p, use))), build(fm.get(eff, ("pred", q, use))))
    roundtrip(ctx, make(ctx, types=TY, actions=[a]))


def conditions(ctx):
    """Preconditions of depth 2 whose atoms are fresh symbolic names."""
    from pddl.action import Action

    g = Gen(ctx, [], [], qvars=[((fixed(1), frozenset(["uu", "tt"])), (fixed(2), NOTYPE))], eq=False)
    a = Action("aa", [], build(g.formula("f", 2)))
    roundtrip(ctx, make(ctx, types=TY, actions=[a]))


def quantified(ctx):
    """Quantified conditions and effects: variables with all type sets, occurrences free and bound."""
    from pddl.action import Action

    n = 1 + ctx.pick("n", 3 if ctx.thorough else 2)
    q = tuple([(ctx.name(f"q{i}"), ctx.choice(f"qt{i}", TSETS[:4])) for i in range(n)])
    for i in range(n):
        for j in range(i):
            ctx.assume(q[i][1] == q[j][1] or q[i][0] != q[j][0])
    p = (ctx.name("x"), frozenset(["tt"]))
    v = ctx.choice("use", [("v",) + q[0], ("v",) + q[-1], ("v",) + p])
    if v[1] == p[0]:
        # the innermost declaration is the one an occurrence refers to
        ctx.assume(not any(v[1] == b[0] for b in q) or any(v[1:] == b for b in q))
    f = ("pred", "pp", (v,))
    kind = ctx.choice("kind", ["forall", "exists", "feff", "when"])
    if kind in ("forall", "exists"):
        a = Action("aa", build_vars([p]), build((kind, q, f)), None)
    else:
        e = f if kind == "feff" else ("when", f, ("and", (("not", f),)))
        a = Action("aa", build_vars([p]), None, build(("feff", q, e)))
    roundtrip(ctx, make(ctx, types=TY, actions=[a]))


def effects(ctx):
    from pddl.action import Action

    g = Gen(ctx, [], [], qvars=[((fixed(1), frozenset(["uu", "tt"])), (fixed(2), NOTYPE))])
    a = Action("aa", [], None, build(g.effect("e", 2)))
    roundtrip(ctx, make(ctx, types=TY, actions=[a]))


def atoms(ctx):
    """Atoms and equalities with constants and variables."""
    from pddl.action import Action
    from pddl.logic.terms import Constant

    n = ctx.pick("n", 3)
    ts = tuple([("v", ctx.name(f"t{i}"), NOTYPE) if ctx.flag(f"var{i}") else ("c", ctx.name(f"t{i}")) for i in range(n)])
    kind = ctx.choice("kind", ["pred", "eq", "cmp", "num"])
    if kind == "eq":
        ctx.assume(n == 2)
        f = ("eq", ts[0], ts[1])
    elif kind == "pred":
        f = ("pred", ctx.name("p"), ts)
    else:
        h = ("fn", ctx.name("p"), ts)
        e = ("arith", ctx.choice("op", list("+-*/")), (h, ("val", 3)))
        f = ("cmp", ctx.choice("c", [">", "<", ">=", "<=", "="]), h, e) if kind == "cmp" else (
            "num", ctx.choice("c", ["assign", "scale-up", "scale-down", "increase", "decrease"]), h, e)
    a = Action("aa", [], None if kind == "num" else build(f), build(f) if kind in ("num", "pred") else None)
    roundtrip(ctx, make(ctx, constants=[Constant(t[1]) for t in ts if t[0] == "c"], actions=[a]))


def numbers(ctx):
    from pddl.action import Action

    fs = [(ctx.name("f"), 0)]
    g = Gen(ctx, [], [], fns=fs, numbers=[5])
    if ctx.flag("value"):
        e = ("val", ctx.choice("v", NUMS))
    else:
        e = g.expr("e", 2 if ctx.thorough else 1)
    kind = ctx.choice("kind", ["cmp", "num"])
    if kind == "cmp":
        a = Action("aa", [], build(("cmp", "<", e, ("val", 1.25))))
    else:
        a = Action("aa", [], None, build(("and", (("num", "assign", ("fn", fs[0][0], ()), e),))))
    roundtrip(ctx, make(ctx, actions=[a]))


def several_actions(ctx):
    """Two or three actions that differ in any part."""
    from pddl.action import Action

    n = 2 + ctx.pick("n", 2)
    acts = []
    for i in range(n):
        vs = [(ctx.name(f"v{i}"), NOTYPE)] if ctx.flag(f"par{i}") else []
        acts.append(Action(ctx.name(f"a{i}"), build_vars(vs), build(("pred", ctx.name(f"p{i}"), ())) if ctx.flag(f"pre{i}") else None))
    roundtrip(ctx, make(ctx, actions=acts))


def wide(ctx):
    """One section with more elements than elsewhere, in every order of their symbolic names."""
    from pddl.action import Action
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable

    where = ctx.choice("where", ["types", "constants", "typed constants", "predicates", "functions", "derived", "actions",
                                 "terms", "function terms", "parameters", "either", "either in a function", "either parameter"])
    if where.startswith("either"):
        ts = ctx.choice("either.types", EITHER)
        vs = [Variable(ctx.name("v"), set(ts)), Variable(fixed(1), {"tt"})]
        vs = vs if ctx.flag("first") else vs[::-1]
        if where == "either":
            return roundtrip(ctx, make(ctx, types=TY, predicates=[Predicate("pp", *vs)]))
        if where == "either parameter":
            return roundtrip(ctx, make(ctx, types=TY, actions=[Action("aa", vs, Predicate("pp", *vs), None)]))
        return roundtrip(ctx, make(ctx, types=TY, functions={NumericFunction("pp", *vs): "number"}))
    if where in ("terms", "function terms", "parameters"):
        ns = long_list(ctx, "l", ctx.name)
        for i in range(len(ns)):
            for j in range(i):
                ctx.assume(ns[i] != ns[j])
        ts = ctx.choice("types", [[None] * 5, [{"tt"}, {"uu"}, {"tt"}, None, None], [EITHER[0], {"ww"}, {"uu"}, {"tt", "ww"}, {"tt"}]])
        vs = [Variable(n, set(t) if t else None) for n, t in zip(ns, ts)]
        if where == "terms":
            return roundtrip(ctx, make(ctx, types=TY, predicates=[Predicate("pp", *vs)]))
        if where == "parameters":
            return roundtrip(ctx, make(ctx, types=TY, actions=[Action("aa", vs, None, ~Predicate("pp", *vs[::-1]))]))
        return roundtrip(ctx, make(ctx, types=TY, functions={NumericFunction("pp", *vs): None}))
    ns = ctx.distinct_names("l", 5 if ctx.thorough else 4)
    if where == "types":
        par = ctx.choice("parents", [[None] * 5, [None, 0, 1, 2, 3], [4, 3, None, None, None], [1, None, 1, None, 0], [2, 2, None, 2, 2]])
        par = [p if p is None or p < len(ns) else None for p in par[: len(ns)]]
        return roundtrip(ctx, make(ctx, types={n: None if p is None else ns[p] for n, p in zip(ns, par)}))
    if where == "constants":
        return roundtrip(ctx, make(ctx, constants=[Constant(n) for n in ns]))
    if where == "typed constants":
        return roundtrip(ctx, make(ctx, types=TY, constants=[Constant(n, t) for n, t in zip(ns, ["tt", "uu", None, "tt", "ww"])]))
    if where == "predicates":
        return roundtrip(ctx, make(ctx, predicates=[Predicate(n) for n in ns]))
    if where == "functions":
        return roundtrip(ctx, make(ctx, functions={NumericFunction(n): t for n, t in zip(ns, ["number", None, None, "number", None])}))
    if where == "derived":
        ps = [Predicate(n) for n in ns]
        return roundtrip(ctx, make(ctx, predicates=ps, derived_predicates=[DerivedPredicate(p, ~ps[0]) for p in ps]))
    roundtrip(ctx, make(ctx, actions=[Action(n, [], Predicate(n), None) for n in ns]))


def long_bodies(ctx):
    """A condition or effect with one long list, or a deep one."""
    from pddl.action import Action
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant

    where = ctx.choice("where", ["precondition", "effect", "derived"])
    f = long_effect(ctx, "e") if where == "effect" else long_formula(ctx, "f")
    ts = f[2] if f[0] == "pred" else ()
    vs = [t for t in ts if t[0] == "v"]
    for i in range(len(vs)):
        for j in range(i):
            ctx.assume(vs[i][1] != vs[j][1])
    cs, vs = [Constant(t[1]) for t in ts if t[0] == "c"], build_vars([t[1:] for t in vs])
    if where == "derived":
        h = Predicate("hh", *vs)
        return roundtrip(ctx, make(ctx, types=TY, constants=cs, predicates=[h], derived_predicates=[DerivedPredicate(h, build(f))]))
    pre, eff = (None, build(f)) if where == "effect" else (build(f), None)
    roundtrip(ctx, make(ctx, types=TY, constants=cs, actions=[Action("aa", vs, pre, eff)]))


def everything(ctx):
    """All sections together; names symbolic across sections."""
    from pddl.action import Action
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable

    t = ctx.name("t")
    c, p, q, f, a, v = ctx.names("n", 6)
    has = {s: ctx.flag(s) for s in ("types", "constants", "predicates", "functions", "derived", "actions")}
    ty = {t} if has["types"] else None
    x = Variable(v, ty)
    pr = Predicate(p, x)
    d = make(
        ctx,
        types={t: None} if has["types"] else None,
        constants=[Constant(c, t if has["types"] else None)] if has["constants"] else None,
        predicates=[pr, Predicate(q)] if has["predicates"] or has["derived"] else None,
        functions={NumericFunction(f, x): "number"} if has["functions"] else None,
        derived_predicates=[DerivedPredicate(pr, Predicate(q))] if has["derived"] else None,
        actions=[Action(a, [x], pr, ~pr)] if has["actions"] else None,
    )
    if has["derived"]:
        ctx.assume(p != q)
    roundtrip(ctx, d)


def many(ctx):
    """Domains with 7 to 33 elements in one list, conditions and effects nested as deep."""
    from pddl.action import Action
    from pddl.logic.terms import Constant

    from hx import big

    k = ctx.choice("kind", [k for k in big.KINDS if k in big.SPECS or k in ("parameters", "variable types") or big.reader(k) is read_domain])
    xs = big.many(ctx, k)
    types = {big.T1: None, big.T2: big.T1}
    if k in big.SPECS:
        f, eff, vs, cs = big.placed(k, xs)
        a = Action("aa", build_vars([v[1:] for v in vs]), None if eff else build(f), build(f) if eff else None)
        return roundtrip(ctx, make(ctx, types=types, constants=[Constant(c) for c in cs], actions=[a]))
    if k == "parameters":
        vs = [(x, frozenset([big.T1]) if 2 * i < len(xs) else NOTYPE) for i, x in enumerate(xs)]
        return roundtrip(ctx, make(ctx, types=types, actions=[Action("aa", build_vars(vs), None, None)]))
    if k == "variable types":
        return roundtrip(ctx, make(ctx, types={x: None for x in xs}, actions=[Action("aa", [big.make(k, xs)], None, None)]))
    kw = {"type chain": lambda: dict(types=big._chain(xs)), "types": lambda: dict(types={x: (big.T1 if i % 2 else big.T2) for i, x in enumerate(xs)}),
          "constants": lambda: dict(types=types, constants=big.constants(xs)), "predicates": lambda: dict(predicates=[build(("pred", x, ())) for x in xs]),
          "functions": lambda: dict(functions={build(("fn", x, ())): None for x in xs}), "derived": lambda: dict(predicates=[build(("pred", x, ())) for x in xs], derived_predicates=big.derived(xs)),
          "actions": lambda: dict(types=types, actions=[Action(x, [], build(("pred", big.N, ())), None) for x in xs])}[k]()
    roundtrip(ctx, make(ctx, **kw))


SCENARIOS = [
    Scenario("longer", many, "22 kinds of lists and nestings with 7 to 17 (thorough: 33) elements, the element at any place symbolic"),
    Scenario("wide", wide, "one of 13 lists of a domain with 3 to 4 (thorough: 5) elements, symbolic names; 'either' of 2 to 4 types"),
    Scenario("long-bodies", long_bodies, "conditions and effects with one list of 3 to 4 (thorough: 5) elements, 'either' of 2 to 4 types, or of depth 3 (thorough: 4)"),
    Scenario("requirements", requirements, "requirement subsets (windows of 4, none, all), symbolic domain name"),
    Scenario("types", types, "at most 3 (thorough: 4) symbolic types with every acyclic choice of parents (declared, undeclared, none)"),
    Scenario("types-adl", types_adl, "two types under :adl or :typing"),
    Scenario("constants", constants, "at most 3 (thorough: 4) symbolic constants over 4 types"),
    Scenario("predicates", predicates, "at most 2 predicates with at most 2 parameters, 5 type sets incl. 'either' and 'object', names symbolic"),
    Scenario("many", many_predicates, "3 predicates or functions of arity at most 2, all names symbolic"),
    Scenario("functions", functions, "at most 2 functions with at most 2 parameters, total-cost, 5 type sets"),
    Scenario("derived", derived, "at most 2 derived predicates over a head with at most 2 arguments, condition depth 1"),
    Scenario("derived-head", derived_head, "1 or 2 derived predicates whose head of at most 2 arguments has types below the declared ones and other names"),
    Scenario("action-parameters", action_parameters, "at most 3 parameters over 5 type sets, absent/empty/atomic condition and effect"),
    Scenario("conditions", conditions, "preconditions of depth 2, at most 2 operands, nullary atoms with symbolic names"),
    Scenario("quantified", quantified, "quantifiers over at most 2 (thorough: 3) symbolic variables with 4 type sets in conditions and effects"),
    Scenario("effects", effects, "effects of depth 2, at most 2 operands"),
    Scenario("atoms", atoms, "atoms, equalities, comparisons and numeric effects over at most 2 symbolic terms"),
    Scenario("numbers", numbers, "11 numbers and arithmetic of depth 1 (thorough: 2)"),
    Scenario("several-actions", several_actions, "2 or 3 actions with symbolic names, parameters and conditions"),
    Scenario("everything", everything, "every combination of sections, all names symbolic"),
]
