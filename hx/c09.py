"""C09: arithmetic expressions and comparisons keep their value."""

from hx.lib import CMP, FULL_REQS, NOTYPE, NUM, Gen, Scenario, build, fixed, long_expr, parse_domain_text, parse_problem_text, read, to_text


def value(alg, s):
    k = s[0]
    if k == "fn":
        return alg.real(s[1], tuple([t[1] for t in s[2]]))
    if k == "val":
        return alg.num(s[1])
    if k != "arith":
        raise ValueError(f"unexpected expression {s}")
    vs = [value(alg, x) for x in s[2]]
    r = vs[0]
    if s[1] == "-" and len(vs) == 1:
        return -r
    for v in vs[1:]:
        r = r + v if s[1] == "+" else r * v if s[1] == "*" else r - v if s[1] == "-" else r / v
    return r


def same_value(ctx, obj, spec, what):
    got = read(obj)
    ctx.valid(lambda alg: value(alg, got) == value(alg, spec), f"{what} has the value of {got}, prescribed {spec}")


def same_sides(ctx, obj, spec, what):
    """A comparison or numeric effect keeps its operator and the values of both sides."""
    got = read(obj)
    ctx.check(got is not None and got[0] == spec[0] and got[1] == spec[1] and len(got) == 4,
              f"{what} is {ctx.show(got)}, prescribed {ctx.show(spec)}")
    for i, side in ((2, "left"), (3, "right")):
        ctx.valid(lambda alg: value(alg, got[i]) == value(alg, spec[i]),
                  f"the {side} side of {what} has the value of {got[i]}, prescribed {spec[i]}")


def expr(ctx, lb, depth, top, g):
    """An expression whose outermost operator is given; the leaves are functions with symbolic names or numbers."""
    n = {"neg": 1, "-": 2, "/": 2}.get(top) or 2 + ctx.pick(lb + ".n", 2 if depth < 2 or ctx.thorough else 1)
    return ("arith", "-" if top == "neg" else top, tuple([g.expr(f"{lb}{i}", depth - 1) for i in range(n)]))


def constructors(ctx):
    e = expr(ctx, "e", 2, ctx.choice("top", ["+", "*", "-", "/", "neg"]), gen_small(ctx))
    same_value(ctx, build(e), e, "the constructed expression")


def gen_small(ctx):
    return Gen(ctx, [], [], fns=[(ctx.name("f"), 0), (ctx.name("h"), 0)], numbers=[7], max_ops=2)


def wide(ctx):
    """Sums and products of up to four operands (possibly the same ones)."""
    op = ctx.choice("op", ["+", "*"])
    n = 2 + ctx.pick("n", 3)
    ops = []
    for i in range(n):
        k = ctx.choice(f"k{i}", ["fn", "int", "same", "other"] if i < 2 else ["fn", "int"])
        f = ("fn", ctx.name(f"f{i}"), ())
        if k == "fn":
            ops.append(f)
        elif k == "int":
            ops.append(("val", ctx.int(f"v{i}")))
        elif k == "same":
            ops.append(("arith", op, (f, ("val", ctx.int(f"v{i}")))))
        else:
            ops.append(("arith", ctx.choice(f"o{i}", ["-", "/", "+" if op == "*" else "*"]), (f, ("fn", ctx.name(f"h{i}"), ()))))
    e = ("arith", op, tuple(ops))
    same_value(ctx, build(e), e, "the constructed expression")


def sides(ctx):
    """Comparisons and numeric effects: both sides stay, also when they are equal."""
    kind = ctx.choice("kind", ["cmp", "num"])
    op = ctx.choice("op", list(CMP if kind == "cmp" else NUM))
    g = gen_small(ctx)
    s = (kind, op, g.expr("l", 1) if kind == "cmp" else g.fn("l"), g.expr("r", 1))
    same_sides(ctx, build(s), s, "the constructed comparison" if kind == "cmp" else "the constructed effect")


def domain_text(pre="", eff="", decl=""):
    pre = f":precondition {pre}" if pre else ""
    eff = f":effect {eff}" if eff else ""
    return f"(define (domain dd) {FULL_REQS} {decl} (:action aa :parameters () {pre} {eff}))"


def parsed(ctx):
    kind = ctx.choice("kind", ["cmp", "num"])
    op = ctx.choice("op", list(CMP if kind == "cmp" else NUM))
    g = gen_small(ctx)
    top = ctx.choice("top", ["+", "*", "-", "/", "neg"])
    s = (kind, op, g.fn("l"), expr(ctx, "e", 1 if not ctx.thorough else 2, top, g))
    text = to_text(s)
    text = domain_text(text) if kind == "cmp" else domain_text("", text)
    a = list(ctx.ok(parse_domain_text, text, what=f"domain parser on {text}").actions)[0]
    same_sides(ctx, a.precondition if kind == "cmp" else a.effect, s, "the parsed " + text)


def parsed_deep(ctx):
    """Nested expressions of depth 2 in one place, and again after printing and parsing."""
    g = Gen(ctx, [], [], fns=[(ctx.name("f"), 0)], numbers=[7], max_ops=2)
    e = expr(ctx, "e", 2, ctx.choice("top", ["+", "*", "-", "/", "neg"]), g)
    s = ("cmp", "<=", ("fn", fixed(1), ()), e)
    text = domain_text(to_text(s))
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    same_sides(ctx, list(d.actions)[0].precondition, s, "the parsed " + text)
    d = ctx.ok(parse_domain_text, domain_text(str(build(s))), what="parsing the printed expression")
    same_sides(ctx, list(d.actions)[0].precondition, s, "the printed and parsed expression")


def compared(ctx):
    """Comparisons whose sides are each a function, a number or an expression; in four places, read and printed and read again."""
    op = ctx.choice("op", list(CMP))

    def side(lb):
        k = ctx.choice(lb + ".k", ["fn", "int", "arith"])
        f = ("fn", ctx.name(lb + ".f"), ())
        if k != "arith":
            return f if k == "fn" else ("val", ctx.int(lb + ".v"))
        o = ctx.choice(lb + ".o", ["+", "-", "*", "/"])
        return ("arith", o, (("val", ctx.int(lb + ".v")), f) if ctx.pick(lb + ".w", 2) else (f, ("val", ctx.int(lb + ".v"))))

    s = ("cmp", op, side("l"), side("r"))
    kind = ctx.choice("kind", ["condition", "when", "goal"])
    inner = to_text(s)
    for what in ("parsed", "printed and parsed"):
        if kind == "condition":
            d = ctx.ok(parse_domain_text, domain_text(inner), what=f"domain parser on {inner}")
            o = list(d.actions)[0].precondition
        elif kind == "when":
            d = ctx.ok(parse_domain_text, domain_text("", f"(when {inner} (pp))", "(:predicates (pp))"),
                       what=f"domain parser on {inner}")
            o = list(d.actions)[0].effect.condition
        else:
            text = f"(define (problem pp) (:domain dd) (:init) (:goal {inner}))"
            o = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}").goal
        same_sides(ctx, o, s, f"the {what} {inner}")
        inner = str(build(s))


def printed(ctx):
    g = gen_small(ctx)
    kind = ctx.choice("kind", ["cmp", "num"])
    op = ctx.choice("op", list(CMP if kind == "cmp" else NUM))
    s = (kind, op, g.fn("l"), g.expr("r", 1))
    text = str(build(s))
    text = domain_text(text) if kind == "cmp" else domain_text("", text)
    a = list(ctx.ok(parse_domain_text, text, what=f"parsing the printed {text}").actions)[0]
    same_sides(ctx, a.precondition if kind == "cmp" else a.effect, s, "the printed and parsed " + text)


def metric(ctx):
    """Metrics, initial values and goals of a problem, read and after printing and parsing."""
    g = Gen(ctx, [], [], fns=[(ctx.name("f"), 0), (ctx.name("h"), 0)], numbers=[ctx.int("v"), 2.5], max_ops=2)
    e = expr(ctx, "e", 1, ctx.choice("top", ["+", "*", "-", "/", "neg"]), g)
    init = ("cmp", "=", ("fn", ctx.name("i"), ()), ("val", ctx.int("w")))
    goal = ("cmp", ctx.choice("op", list(CMP)), ("fn", ctx.name("k"), ()), ("val", ctx.int("u")))
    text = (f"(define (problem pp) (:domain dd) (:init {to_text(init)}) (:goal {to_text(goal)}) "
            f"(:metric minimize {to_text(e)}))")
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    for what, p in (("parsed", p), ("printed and parsed", None)):
        if p is None:
            p = ctx.ok(parse_problem_text, str(last), what="parsing the printed problem")
        same_value(ctx, p.metric.expression, e, f"the {what} metric")
        same_sides(ctx, p.goal, goal, f"the {what} goal")
        ctx.check(len(p.init) == 1, "one initial value written")
        same_sides(ctx, list(p.init)[0], init, f"the {what} initial value")
        last = p


def metric_deep(ctx):
    g = Gen(ctx, [], [], fns=[(ctx.name("f"), 0)], numbers=[4], max_ops=2)
    e = expr(ctx, "e", 2, ctx.choice("top", ["+", "*", "-", "/", "neg"]), g)
    text = f"(define (problem pp) (:domain dd) (:init) (:goal (gg)) (:metric maximize {to_text(e)}))"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    same_value(ctx, p.metric.expression, e, "the parsed metric")
    p = ctx.ok(parse_problem_text, str(p), what="parsing the printed problem")
    same_value(ctx, p.metric.expression, e, "the printed and parsed metric")


def instantiated(ctx):
    """Instantiation keeps the operands of expressions over functions of a parameter."""
    from pddl.logic.terms import Constant, Variable

    x = ("v", fixed(1), NOTYPE)
    fs = [(ctx.name("f"), 1), (ctx.name("h"), 0)]
    g = Gen(ctx, [], [x], fns=fs, numbers=[7], max_ops=2)
    kind = ctx.choice("kind", ["cmp", "num"])
    op = ctx.choice("op", list(CMP if kind == "cmp" else NUM))
    s = (kind, op, g.fn("l"), expr(ctx, "e", 1, ctx.choice("top", ["+", "*", "-", "/", "neg"]), g))
    o = build(s).instantiate({Variable(fixed(1)): Constant(fixed(1))})
    same_sides(ctx, o, s, "the instantiated comparison")


def long(ctx):
    """Long sums and products and deep expressions, constructed, instantiated, printed and parsed, in a metric."""
    from pddl.core import Problem
    from pddl.logic.functions import Metric

    e = long_expr(ctx, "e", False)
    kind = ctx.choice("kind", ["constructed", "instantiated", "condition", "effect", "metric", "goal"])
    if kind == "constructed":
        return same_value(ctx, build(e), e, "the constructed expression")
    s = ("num", "decrease", ("fn", fixed(1), ()), e) if kind == "effect" else ("cmp", ">=", e, ("fn", fixed(1), ()))
    if kind == "instantiated":
        return same_sides(ctx, build(s).instantiate({}), s, "the instantiated comparison")
    if kind in ("condition", "effect"):
        text = str(build(s))
        text = domain_text(text) if kind == "condition" else domain_text("", text)
        a = list(ctx.ok(parse_domain_text, text, what=f"domain parser on {text}").actions)[0]
        return same_sides(ctx, a.precondition if kind == "condition" else a.effect, s, "the printed and parsed " + text)
    p = Problem("pp", domain_name="dd", goal=build(s) if kind == "goal" else None, metric=Metric(build(e), "maximize") if kind == "metric" else None)
    p = ctx.ok(parse_problem_text, str(p), what="parsing the printed problem")
    if kind == "goal":
        return same_sides(ctx, p.goal, s, "the printed and parsed goal")
    same_value(ctx, p.metric.expression, e, "the printed and parsed metric")


SCENARIOS = [
    Scenario("long", long, "sums and products of 3 to 4 (thorough: 5) symbolic functions, chains of 3 (thorough: 4) operators to the left or right; constructed, instantiated, printed and parsed in 4 places"),
    Scenario("constructors", constructors, "expressions of depth 2 over two functions with symbolic names and a number"),
    Scenario("wide", wide, "sums and products of 2 to 4 operands: functions, symbolic integers, nested expressions"),
    Scenario("sides", sides, "comparisons and numeric effects with arithmetic of depth 1 on each side"),
    Scenario("parsed", parsed, "comparisons and numeric effects parsed from text, arithmetic of depth 1 (thorough: 2)"),
    Scenario("parsed-deep", parsed_deep, "arithmetic of depth 2 parsed from text, and printed and parsed again"),
    Scenario("compared", compared, "comparisons whose two sides are each a function, a symbolic integer or an operation of the two; in a condition, a conditional effect and a goal"),
    Scenario("printed", printed, "constructed comparisons and effects printed and parsed, arithmetic of depth 1"),
    Scenario("metric", metric, "metric of depth 1, initial value and goal with symbolic integers, read and printed and read again"),
    Scenario("metric-deep", metric_deep, "metric of depth 2 over one function and a number"),
    Scenario("instantiated", instantiated, "comparisons and effects over functions of a parameter, depth 1"),
]
