"""C07: problem text is read exactly as written."""

from hx.c04 import GROUPS, grouped, has_duplicates, typed_list
from hx.lib import (FULL, NOTYPE, PARTS_P, Gen, R, REQ_TEXT, Scenario, fixed, norm, parse_problem_text, read,
                    read_problem, long_expr, long_formula, long_list, same_parts, to_text, untyped)

NUMBERS = ["0", "7", "10", "1234567", "12345678901234567890", "0.5", "1.50", "0.1", "100000.0", "123456.789", "00012",
           "3.0", "0.000001"]
EXACT = [0, 7, 10, 1234567, 12345678901234567890, 0.5, 1.5, 0.1, 100000.0, 123456.789, 12, 3.0, 1e-06]


def header(ctx):
    n, dn = ctx.names("n", 2)
    k = ctx.pick("window", len(FULL) + 2)
    if k < len(FULL):
        chosen = [w for w in [FULL[(k + i) % len(FULL)] for i in (0, 1, 5)] if ctx.flag("req." + w)]
    else:
        chosen = [[], list(reversed(FULL))][k - len(FULL)]
    req = "(:requirements " + " ".join([REQ_TEXT[c] for c in chosen]) + ")" if chosen else ""
    o = ctx.name("o")
    has_o, has_m = ctx.flag("objects"), ctx.flag("metric")
    g = ctx.name("g")
    text = (f"(define (problem {n}) (:domain {dn}) {req} {'(:objects ' + o + ')' if has_o else ''} (:init) "
            f"(:goal ({g})) {'(:metric maximize (total-cost))' if has_m else ''})")
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    want = (n, dn, frozenset(R(*chosen)), frozenset([(o, None)] if has_o else []), frozenset(), ("pred", g, ()),
            ("maximize", ("fn", "total-cost", ())) if has_m else None)
    same_parts(ctx, read_problem(p), want, PARTS_P, text)
    ctx.check(has_m or p.metric is None, "a metric appears")


def objects(ctx):
    n = ctx.pick("n", 5 if ctx.thorough else 4)
    types = ctx.names("type", 2)
    lst, items = typed_list(ctx, "o", n, types + ["object"])
    text = f"(define (problem pp) (:domain dd) (:objects {lst}) (:init) (:goal (gg)))"
    ok, p = ctx.attempt(parse_problem_text, text)
    if has_duplicates([a for a, _ in items]):
        ctx.check(not ok, f"an object named twice is accepted: {text}")
        return
    ctx.accepted(ok, p, text)
    ctx.check_eq(frozenset([(c.name, c.type_tag) for c in p.objects]), frozenset(items), f"objects of {text}")


def init(ctx):
    """Literals over declared and undeclared objects, all names symbolic."""
    objs = ctx.distinct_names("o", 2)
    n = ctx.pick("n", 4 if ctx.thorough else 3)
    lits, want = [], []
    for i in range(n):
        p = ctx.name(f"p{i}")
        k = ctx.pick(f"k{i}", 3)
        args = ctx.names(f"a{i}", k)
        a = ("pred", p, tuple([("c", x) for x in args]))
        if ctx.flag(f"neg{i}"):
            a = ("not", a)
        lits.append(to_text(a))
        want.append(a)
    text = f"(define (problem pp) (:domain dd) (:objects {objs[0]} - tt {objs[1]}) (:init {' '.join(lits)}) (:goal (gg)))"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    ctx.check_eq(frozenset([read(f) for f in p.init]), frozenset(want), f"initial state of {text}")
    for f in p.init:
        atom = f if hasattr(f, "terms") else f.argument
        for t in atom.terms:
            tag = "tt" if t.name == objs[0] else None
            if t.name == objs[0] or t.name == objs[1]:
                ctx.check(t.type_tag == tag, f"object {t.name} in {f} has type {t.type_tag}, declared {tag}")


def values(ctx):
    """Initial numeric values: number, function, arguments."""
    n = 1 + ctx.pick("n", 2)
    els, want = [], []
    for i in range(n):
        f = ctx.name(f"f{i}") if not ctx.flag(f"tc{i}") else "total-cost"
        k = ctx.pick(f"k{i}", 3) if f != "total-cost" else 0
        bare = k == 0 and ctx.flag(f"bare{i}")
        args = ctx.names(f"a{i}", k)
        j = ctx.pick(f"num{i}", len(NUMBERS)) if i == 0 else 5
        head = f if bare else "(" + " ".join([f] + args) + ")"
        els.append(f"(= {head} {NUMBERS[j]})")
        want.append(("cmp", "=", ("fn", f, tuple([("c", x) for x in args])), ("val", EXACT[j])))
    lit = ctx.name("p")
    els.insert(ctx.pick("at", n + 1), f"({lit})")
    text = f"(define (problem pp) (:domain dd) (:init {' '.join(els)}) (:goal (gg)))"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    got = [read(f) for f in p.init]
    ctx.check_eq(frozenset(got), frozenset(want + [("pred", lit, ())]), f"initial state of {text}")
    for g in got:
        if g[0] == "cmp":
            ctx.check(isinstance(g[3][1], (int, float)) and not isinstance(g[3][1], str), f"value {g[3][1]} is not a number")


def symbolic_value(ctx):
    v = ctx.int("v")
    f = ctx.name("f")
    text = f"(define (problem pp) (:domain dd) (:init (= ({f}) {v})) (:goal (> ({f}) {v})) (:metric minimize (+ {v} ({f}))))"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    fn = ("fn", f, ())
    ctx.check_eq([read(x) for x in p.init], [("cmp", "=", fn, ("val", v))], f"initial state of {text}")
    ctx.check_eq(read(p.goal), ("cmp", ">", fn, ("val", v)), f"goal of {text}")
    ctx.check_eq(read(p.metric.expression), ("arith", "+", (("val", v), fn)), f"metric of {text}")


def goal(ctx):
    g = Gen(ctx, [], [], qvars=[((fixed(1), NOTYPE),)], eq=False)
    f = g.formula("g", 2)
    stated = ctx.flag("reqs")
    req = "(:requirements :adl :fluents)" if stated else ""
    text = f"(define (problem pp) (:domain dd) {req} (:init) (:goal {to_text(f)}))"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    ctx.check_eq(norm(untyped(read(p.goal))), norm(untyped(f)), f"goal of {text}")


def goal_atoms(ctx):
    """Atoms, equalities and comparisons of the goal."""
    k = ctx.choice("kind", ["pred", "eq", "cmp"])
    n = ctx.pick("n", 3)
    ts = tuple([("v", ctx.name(f"t{i}"), NOTYPE) if ctx.flag(f"var{i}") else ("c", ctx.name(f"t{i}")) for i in range(n)])
    if k == "pred":
        f = ("pred", ctx.name("p"), ts)
    elif k == "eq":
        if n != 2:
            return
        f = ("eq", ts[0], ts[1])
    else:
        gen = Gen(ctx, [], [], fns=[(ctx.name("f"), 0)], numbers=[3, 0.25])
        f = ("cmp", ctx.choice("op", [">", "<", ">=", "<=", "="]), ("fn", ctx.name("h"), ts), gen.expr("e", 1))
    decl = "".join([f"(:objects {ts[0][1]} - tt)"]) if n > 0 and ts[0][0] == "c" and ctx.flag("decl") else ""
    text = f"(define (problem pp) (:domain dd) {decl} (:init) (:goal {to_text(f)}))"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    ctx.check_eq(norm(untyped(read(p.goal))), norm(untyped(f)), f"goal of {text}")


def metric(ctx):
    """Direction and expression of the metric."""
    d = ctx.choice("dir", ["minimize", "maximize"])
    fs = [(ctx.name("f"), 0), ("total-cost", 0)]
    depth = 2 if ctx.thorough else 1
    g = Gen(ctx, [], [], fns=fs, numbers=[NUMBERS[i] for i in (1, 3, 5, 9)])
    e = g.expr("e", depth) if ctx.flag("deep") else ("fn", ctx.name("h"), tuple([("c", x) for x in ctx.names("a", ctx.pick("k", 3))]))
    text = f"(define (problem pp) (:domain dd) (:init) (:goal (gg)) (:metric {d} {to_text(e)}))"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    ctx.check(p.metric is not None, "the metric is dropped")
    ctx.check_eq(p.metric.optimization, d, f"direction of {text}")
    ctx.check_eq(norm(read(p.metric.expression)), norm(values_of(e)), f"metric of {text}")


def metric_deep(ctx):
    g = Gen(ctx, [], [], fns=[(ctx.name("f"), 0)], numbers=["4"])
    e = g.expr("e", 2)
    text = f"(define (problem pp) (:domain dd) (:init) (:goal (gg)) (:metric minimize {to_text(e)}))"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    ctx.check_eq(norm(read(p.metric.expression)), norm(values_of(e)), f"metric of {text}")


def values_of(e):
    """Numbers of a specification as values instead of text."""
    if e[0] == "val":
        return ("val", float(e[1]) if "." in e[1] else int(e[1]))
    if e[0] == "arith":
        return ("arith", e[1], tuple([values_of(x) for x in e[2]]))
    return e


def long(ctx):
    """Longer lists and deeper goals and metrics than elsewhere."""
    where = ctx.choice("where", ["objects", "literals", "arguments", "assignments", "goal", "metric"])
    objs, init, g, metric = "", "", "(gg)", ""
    if where == "objects":
        objs, items = grouped(ctx.distinct_names("o", 6 if ctx.thorough else 5), ctx.choice("groups", GROUPS))
    elif where == "literals":
        fs = [("pred", n, ()) for n in long_list(ctx, "l", ctx.name)]
        fs = [("not", f) if i % 2 else f for i, f in enumerate(fs)]
        init = " ".join([to_text(f) for f in fs])
    elif where == "arguments":
        ns = long_list(ctx, "l", ctx.name)
        fs = [("pred", "pp", tuple([("c", n) for n in ns])), ("not", ("pred", "pp", tuple([("c", n) for n in ns[::-1]])))]
        init = " ".join([to_text(f) for f in fs])
    elif where == "assignments":
        ns = long_list(ctx, "l", ctx.name)
        fs = [("cmp", "=", ("fn", n, (("c", "oo"),) * (i % 3)), ("val", v)) for i, (n, v) in enumerate(zip(ns, [3, 0.5, 3, 0, 12]))]
        init = " ".join([to_text(f) for f in fs])
    elif where == "goal":
        f = long_formula(ctx, "g")
        g = to_text(f)
    else:
        f = long_expr(ctx, "m")
        metric = f"(:metric maximize {to_text(f)})"
    objs = f"(:objects {objs})" if objs else ""
    text = f"(define (problem pp) (:domain dd) {objs} (:init {init}) (:goal {g}) {metric})"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    if where == "objects":
        ctx.check_eq(frozenset([(c.name, c.type_tag) for c in p.objects]), frozenset(items), f"objects of {text}")
    elif where == "goal":
        ctx.check_eq(norm(untyped(read(p.goal))), norm(untyped(f)), f"goal of {text}")
    elif where == "metric":
        ctx.check_eq(p.metric.optimization, "maximize", f"direction of {text}")
        ctx.check_eq(norm(read(p.metric.expression)), norm(f), f"metric of {text}")
    else:
        ctx.check_eq(frozenset([read(f) for f in p.init]), frozenset(fs), f"initial state of {text}")


def many(ctx):
    """Problems with 7 to 33 elements in one list, goals and metrics nested as deep."""
    from hx import big

    k = ctx.choice("kind", ["objects", "literals", "arguments", "assignments"] + [k for k in big.SPECS if k not in big.EFFECTS])
    ns = big.many(ctx, k)
    objs, init, g, metric, items = "", "", "(gg)", "", None
    if k == "objects":
        ts = ctx.choice("types", [["tt"], ["+", "+", "tt", "uu"], [None], ["+"]])
        objs, items = grouped(ns, (ts * len(ns))[: len(ns)])
    elif k == "literals":
        fs = [("not", ("pred", n, ())) if i % 2 else ("pred", n, (("c", "oo"),) * (i % 3)) for i, n in enumerate(ns)]
        init = " ".join([to_text(f) for f in fs])
    elif k == "arguments":
        fs = [("pred", "pp", tuple([("c", n) for n in ns])), ("not", ("pred", "pp", tuple([("c", n) for n in ns[::-1]])))]
        init = " ".join([to_text(f) for f in fs])
    elif k == "assignments":
        fs = [("cmp", "=", ("fn", n, (("c", "oo"),) * (i % 3)), ("val", i)) for i, n in enumerate(ns)]
        init = " ".join([to_text(f) for f in fs])
    else:
        f = big.SPECS[k](ns)
        if k in big.EXPRESSIONS:
            if k == "function terms":
                f = ("fn", f[1], tuple([("c", n) for n in ns]))
            metric = f"(:metric maximize {to_text(f)})"
        else:
            g = to_text(f)
    objs = f"(:objects {objs})" if objs else ""
    text = f"(define (problem pp) (:domain dd) {objs} (:init {init}) (:goal {g}) {metric})"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    if items is not None:
        ctx.check_eq(frozenset([(c.name, c.type_tag) for c in p.objects]), frozenset(items), f"objects of {text}")
    elif metric:
        ctx.check_eq(norm(read(p.metric.expression)), norm(f), f"metric of {text}")
    elif k in big.SPECS:
        ctx.check_eq(norm(untyped(read(p.goal))), norm(untyped(f)), f"goal of {text}")
    else:
        ctx.check_eq(frozenset([read(f) for f in p.init]), frozenset(fs), f"initial state of {text}")


SCENARIOS = [
    Scenario("many", many, "one of 15 lists and nestings of a problem with 7 to 17 (thorough: 33) elements, the element at any place symbolic"),
    Scenario("long", long, "one of 6 parts with 3 to 5 (thorough: 6) elements and symbolic names, or a goal or metric of depth 3 (thorough: 4)"),
    Scenario("header", header, "problem and domain name, requirement subsets (windows of 3, none, all), optional objects and metric"),
    Scenario("objects", objects, "object lists of at most 3 (thorough: 4) symbolic names in every grouping over two symbolic types and 'object'"),
    Scenario("init", init, "at most 2 (thorough: 3) literals with at most 2 arguments, all names symbolic, two declared objects"),
    Scenario("values", values, "at most 2 numeric assignments and a literal in every place, 13 number spellings, names symbolic"),
    Scenario("symbolic-value", symbolic_value, "one symbolic non-negative integer in initial state, goal and metric"),
    Scenario("goal", goal, "goals of connective depth 2, nullary atoms with symbolic names, with and without stated requirements"),
    Scenario("goal-atoms", goal_atoms, "atoms, equalities and comparisons with at most 2 terms, names symbolic"),
    Scenario("metric", metric, "metrics with arithmetic of depth 1 (thorough: 2) or a function with at most 2 arguments"),
    Scenario("metric-deep", metric_deep, "metrics with arithmetic of depth 2 over one function and a number"),
]
