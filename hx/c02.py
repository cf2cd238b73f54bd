"""C02: printed problems parse back to an equal problem."""

from hx.c01 import NUMS
from hx.lib import (FULL, NOTYPE, PARTS_P, Gen, R, Scenario, build, fixed, full_reqs, parse_problem_text, read,
                    long_expr, long_formula, long_list, read_problem, same_parts)


def roundtrip(ctx, p):
    text = ctx.ok(str, p, what="printing the problem")
    again = ctx.ok(parse_problem_text, text, what=f"parsing the printed problem {text}")
    same_parts(ctx, read_problem(again), read_problem(p), PARTS_P, f"printed problem {text}")
    ctx.check(p.name == again.name and p.domain_name == again.domain_name and p.requirements == again.requirements
              and p.objects == again.objects and p.init == again.init and p.goal == again.goal and p.metric == again.metric,
              f"the problem parsed from its own text has unequal parts: {text}")
    ctx.check(str(again) == text, f"the parsed problem prints differently: {text} / {str(again)}")
    ctx.observe(text)
    return again


def make(ctx, **kw):
    from pddl.core import Problem

    if "domain" not in kw:
        kw.setdefault("domain_name", "dd")
    return ctx.ok(Problem, kw.pop("name", "pp"), what="Problem constructor", **kw)


def header(ctx):
    k = ctx.pick("window", len(FULL) + 3)
    if k < len(FULL):
        reqs = R(*[w for w in [FULL[(k + i) % len(FULL)] for i in (0, 1, 3, 7)] if ctx.flag("req." + w)])
    else:
        reqs = [None, set(), full_reqs()][k - len(FULL)]
    p = make(ctx, name=ctx.name("n"), domain_name=ctx.name("d"), requirements=reqs)
    again = roundtrip(ctx, p)
    ctx.check(again == p, "the problem parsed from its own text is not equal to it")


def objects(ctx):
    from pddl.logic.terms import Constant

    n = ctx.pick("n", 5 if ctx.thorough else 4)
    ts = ctx.names("ty", 2)
    cs = [Constant(ctx.name(f"c{i}"), ctx.choice(f"ty{i}.", [None, "object"] + ts)) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(cs[i].type_tag == cs[j].type_tag or cs[i].name != cs[j].name)
    roundtrip(ctx, make(ctx, objects=cs))


def init(ctx):
    from pddl.logic.terms import Constant

    n = ctx.pick("n", 4 if ctx.thorough else 3)
    os = [Constant(ctx.name(f"o{i}")) for i in range(2)]
    fs = []
    for i in range(n):
        f = ("pred", ctx.name(f"p{i}"), tuple([("c", os[ctx.pick(f"a{i}{j}", 2)].name) for j in range(ctx.pick(f"k{i}", 3 if i == 0 else 2))]))
        kind = ctx.choice(f"kind{i}", ["pos", "neg", "num"])
        f = {"pos": f, "neg": ("not", f), "num": ("cmp", "=", ("fn", f[1], f[2]), ("val", 3 + i))}[kind]
        fs.append(build(f))
    roundtrip(ctx, make(ctx, objects=os, init=fs))


def values(ctx):
    v = ctx.choice("v", NUMS)
    f = "total-cost" if ctx.flag("tc") else ctx.name("f")
    roundtrip(ctx, make(ctx, init=[build(("cmp", "=", ("fn", f, ()), ("val", v)))], metric=metric_of(("val", v), "minimize"),
                        goal=build(("cmp", ">=", ("fn", f, ()), ("val", v)))))


def symbolic_value(ctx):
    v = ctx.int("v")
    f = ctx.name("f")
    roundtrip(ctx, make(ctx, init=[build(("cmp", "=", ("fn", f, ()), ("val", v)))]))


def metric_of(e, d):
    from pddl.logic.functions import Metric

    return Metric(build(e), d)


def goal(ctx):
    g = Gen(ctx, [], [], qvars=[((fixed(1), frozenset(["tt", "uu"])), (fixed(2), NOTYPE))], eq=False)
    roundtrip(ctx, make(ctx, goal=build(g.formula("g", 2)), requirements=full_reqs() if ctx.flag("reqs") else None))


def goal_quantified(ctx):
    n = 1 + ctx.pick("n", 2)
    ts = ctx.names("ty", 2)
    sets = [NOTYPE, frozenset([ts[0]]), frozenset(ts), frozenset(["object"])]
    q = tuple([(ctx.name(f"q{i}"), ctx.choice(f"qt{i}", sets)) for i in range(n)])
    for i in range(n):
        for j in range(i):
            ctx.assume(q[i][1] == q[j][1] or q[i][0] != q[j][0])
    use = ctx.choice("use", [("v",) + q[0], ("v",) + q[-1], ("v", ctx.name("x"), NOTYPE)])
    ctx.assume(not any(use[1] == b[0] for b in q) or any(use[1:] == b for b in q))
    f = (ctx.choice("k", ["forall", "exists"]), q, ("pred", "pp", (use,)))
    roundtrip(ctx, make(ctx, goal=build(f)))


def goal_atoms(ctx):
    n = ctx.pick("n", 3)
    ts = tuple([("v", ctx.name(f"t{i}"), NOTYPE) if ctx.flag(f"var{i}") else ("c", ctx.name(f"t{i}")) for i in range(n)])
    kind = ctx.choice("kind", ["pred", "eq", "cmp"])
    if kind == "eq":
        ctx.assume(n == 2)
        f = ("eq", ts[0], ts[1])
    elif kind == "pred":
        f = ("pred", ctx.name("p"), ts)
    else:
        h = ("fn", ctx.name("p"), ts)
        f = ("cmp", ctx.choice("c", [">", "<", ">=", "<=", "="]), h, ("arith", ctx.choice("op", list("+-*/")), (h, ("val", 3))))
    roundtrip(ctx, make(ctx, goal=build(f)))


def metric(ctx):
    d = ctx.choice("dir", ["minimize", "maximize"])
    if ctx.flag("args"):
        e = ("fn", ctx.name("h"), tuple([("c", x) for x in ctx.names("a", ctx.pick("k", 3))]))
    else:
        g = Gen(ctx, [], [], fns=[(ctx.name("f"), 0), ("total-cost", 0)], numbers=[4, 0.25])
        e = g.expr("e", 2 if ctx.thorough else 1)
    roundtrip(ctx, make(ctx, metric=metric_of(e, d)))


def metric_deep(ctx):
    g = Gen(ctx, [], [], fns=[(ctx.name("f"), 0)], numbers=[4])
    roundtrip(ctx, make(ctx, metric=metric_of(g.expr("e", 2), "maximize")))


def with_domain(ctx):
    """A problem with an attached domain prints the domain's name and requirements."""
    from pddl.core import Domain

    reqs = R(*[w for w in ("STRIPS", "TYPING", "ADL") if ctx.flag(w)])
    n = ctx.name("d")
    dom = Domain(n, requirements=reqs)
    k = ctx.choice("how", ["domain", "both", "set"])
    if k == "domain":
        p = make(ctx, domain=dom)
    elif k == "both":
        p = make(ctx, domain=dom, domain_name=n, requirements=reqs)
    else:
        p = make(ctx, domain_name=n)
        p.domain = dom
    again = roundtrip(ctx, p)
    ctx.check_eq(again.domain_name, n, "domain name")
    ctx.check(again.requirements == reqs, "requirements")


def long(ctx):
    """One part with more elements, or deeper, than elsewhere."""
    from pddl.logic.terms import Constant

    where = ctx.choice("where", ["objects", "typed objects", "literals", "arguments", "assignments", "goal", "metric"])
    if where == "goal":
        return roundtrip(ctx, make(ctx, goal=build(long_formula(ctx, "g"))))
    if where == "metric":
        return roundtrip(ctx, make(ctx, metric=metric_of(long_expr(ctx, "m"), ctx.choice("dir", ["minimize", "maximize"]))))
    ns = ctx.distinct_names("l", 5 if ctx.thorough else 4) if "objects" in where or where == "arguments" else long_list(ctx, "l", ctx.name)
    if where == "objects":
        return roundtrip(ctx, make(ctx, objects=[Constant(n) for n in ns]))
    if where == "typed objects":
        ts = ctx.choice("types", [["tt", "uu", None, "tt", "object"], ["tt", "tt", "tt", "uu", "ww"], [None, "tt", None, "tt", "tt"]])
        return roundtrip(ctx, make(ctx, objects=[Constant(n, t) for n, t in zip(ns, ts)]))
    if where == "arguments":
        os = [Constant(n) for n in ns]
        f = ("pred", "pp", tuple([("c", n) for n in ns]))
        g = ("pred", "pp", f[2][::-1])
        return roundtrip(ctx, make(ctx, objects=os, init=[build(f), build(("not", g))], goal=build(g)))
    if where == "literals":
        fs = [("pred", n, ()) for n in ns]
        return roundtrip(ctx, make(ctx, init=[build(("not", f) if i % 2 else f) for i, f in enumerate(fs)]))
    fs = [build(("cmp", "=", ("fn", n, ()), ("val", v))) for n, v in zip(ns, [3, 0.5, 3, 0, 12])]
    roundtrip(ctx, make(ctx, init=fs))


def everything(ctx):
    from pddl.logic.terms import Constant

    n = ctx.names("n", 5)
    has = {s: ctx.flag(s) for s in ("objects", "init", "goal", "metric", "reqs")}
    roundtrip(ctx, make(
        ctx,
        requirements=R("STRIPS") if has["reqs"] else None,
        objects=[Constant(n[0]), Constant(n[1], "tt")] if has["objects"] and n[0] != n[1] else None,
        init=[build(("pred", n[2], (("c", n[0]),))), build(("not", ("pred", n[3], (("c", n[0]),)))), build(("pred", n[3], ()))] if has["init"] else None,
        goal=build(("pred", n[3], (("c", n[1]),))) if has["goal"] else None,
        metric=metric_of(("fn", n[4], ()), "maximize") if has["metric"] else None,
    ))


def many(ctx):
    """Problems with 7 to 33 elements in one list, goals and metrics nested as deep."""
    from hx import big

    ks = ["objects", "init", "values", "arguments", "sum", "product", "difference", "quotient", "function terms"]
    k = ctx.choice("kind", ks + [k for k in big.SPECS if k not in ks and k not in big.EFFECTS and k != "predicate terms"])
    xs = big.many(ctx, k)
    from pddl.logic.terms import Constant

    if k in big.EXPRESSIONS:
        s = big.SPECS[k](xs)
        if k == "function terms":
            s = ("fn", s[1], tuple([("c", x) for x in xs]))
            return roundtrip(ctx, make(ctx, objects=[Constant(x) for x in xs], metric=metric_of(s, "minimize")))
        return roundtrip(ctx, make(ctx, metric=metric_of(s, "maximize")))
    if k in big.SPECS:
        return roundtrip(ctx, make(ctx, goal=build(big.SPECS[k](xs))))
    kw = {"objects": lambda: dict(objects=big.constants(xs)), "init": lambda: dict(init=[build(("not", ("pred", x, ())) if i % 2 else ("pred", x, ())) for i, x in enumerate(xs)]),
          "values": lambda: dict(init=big.values(xs)),
          "arguments": lambda: dict(objects=[Constant(x) for x in xs], init=[build(("pred", "pp", tuple([("c", x) for x in xs])))])}[k]()
    roundtrip(ctx, make(ctx, **kw))


SCENARIOS = [
    Scenario("many", many, "16 kinds of lists and nestings with 7 to 17 (thorough: 33) elements, the element at any place symbolic"),
    Scenario("header", header, "symbolic names, requirement subsets (windows of 4, absent, empty, all)"),
    Scenario("objects", objects, "at most 3 (thorough: 4) symbolic objects over two symbolic types, 'object' and none"),
    Scenario("init", init, "at most 2 (thorough: 3) literals or numeric assignments with at most 2 arguments"),
    Scenario("values", values, "11 numbers in initial state, goal and metric"),
    Scenario("symbolic-value", symbolic_value, "one symbolic non-negative integer"),
    Scenario("goal", goal, "goals of depth 2 with at most 2 operands, nullary atoms with symbolic names"),
    Scenario("goal-quantified", goal_quantified, "quantified goals over at most 2 symbolic variables and symbolic types"),
    Scenario("goal-atoms", goal_atoms, "atoms, equalities and comparisons with at most 2 symbolic terms"),
    Scenario("metric", metric, "metrics with at most 2 arguments or arithmetic of depth 1 (thorough: 2)"),
    Scenario("metric-deep", metric_deep, "metrics with arithmetic of depth 2"),
    Scenario("with-domain", with_domain, "problems with an attached domain, three ways, 8 requirement sets"),
    Scenario("long", long, "one of 7 parts with 3 to 4 (thorough: 5) elements and symbolic names, or a goal or metric of depth 3 (thorough: 4)"),
    Scenario("everything", everything, "every combination of sections"),
]
