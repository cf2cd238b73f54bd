"""C03: plans survive printing and parsing unchanged."""

from hx.lib import Scenario, fixed, plan_parser


def build(ctx, label, nmax, amax):
    n = ctx.pick(label + ".n", nmax + 1)
    steps = []
    for i in range(n):
        k = ctx.pick(f"{label}.{i}.k", amax + 1)
        steps.append((ctx.name(f"{label}.{i}.act"), ctx.names(f"{label}.{i}.arg", k)))
    return steps


def text_of(steps):
    return "\n".join("(" + " ".join([a] + args) + ")" for a, args in steps)


def read(plan):
    return [(a, [c.name for c in ps]) for a, ps in plan.actions]


def same(x, y):
    if len(x) != len(y):
        return False
    for (a, p), (b, q) in zip(x, y):
        if not (a == b) or len(p) != len(q):
            return False
        for s, t in zip(p, q):
            if not (s == t):
                return False
    return True


def parsed_as_written(ctx):
    steps = build(ctx, "s", 3, 3 if ctx.thorough else 2)
    plan = ctx.ok(plan_parser(), text_of(steps), what="plan parser")
    ctx.check(same(read(plan), steps), f"parsed plan differs: {read(plan)} from {steps}")
    again = ctx.ok(plan_parser(), str(plan), what="parsing the printed plan")
    ctx.observe(str(plan))
    ctx.check(again == plan, f"printed plan parses to a different plan: {str(plan)}")
    ctx.check(plan == again, "plan equality is not symmetric")
    ctx.check(same(read(again), steps), "printed plan reads differently")


def constructed(ctx):
    from pddl.core import Plan
    from pddl.logic.terms import Constant

    steps = build(ctx, "s", 3, 2)
    typed = ctx.flag("typed")
    ty = ctx.name("type") if typed else None
    plan = Plan([(a, [Constant(x, ty) for x in args]) for a, args in steps])
    again = ctx.ok(plan_parser(), str(plan), what="parsing the printed plan")
    ctx.check(again == plan, f"printed plan parses to a different plan: {str(plan)}")
    ctx.check(same(read(again), steps), "printed plan reads differently")


def equality(ctx):
    from pddl.core import Plan
    from pddl.logic.terms import Constant

    a = build(ctx, "s", 2, 2)
    b = build(ctx, "t", 2, 2)
    pa = Plan([(x, [Constant(y) for y in args]) for x, args in a])
    pb = Plan([(x, [Constant(y) for y in args]) for x, args in b])
    want = same(a, b)
    ctx.check((pa == pb) == want, f"equality of {a} and {b} is {pa == pb}")
    ctx.check((pa != pb) == (not want), "!= disagrees with ==")
    ctx.check((pb == pa) == want, "equality is not symmetric")


def long(ctx):
    """Longer plans and steps; steps may repeat."""
    n = 4 + ctx.pick("n", 3)
    a, b = ctx.name("a"), ctx.name("b")
    xs = ctx.names("x", 3 if not ctx.thorough else 4)
    args = [[], xs[:1], xs[:2], xs, xs + xs[:2], xs[::-1]]
    if ctx.flag("one step"):
        steps = [(a, xs * n)]
    else:
        shift = ctx.pick("shift", len(args))
        steps = [((a, b, b)[i % 3], args[(i * 5 + shift) % len(args)]) for i in range(n)]
        if ctx.flag("repeat"):
            steps = steps[:2] * n
    plan = ctx.ok(plan_parser(), text_of(steps), what="plan parser")
    ctx.check(same(read(plan), steps), f"parsed plan differs: {read(plan)} from {steps}")
    again = ctx.ok(plan_parser(), str(plan), what="parsing the printed plan")
    ctx.check(again == plan and same(read(again), steps), f"printed plan parses to a different plan: {str(plan)}")
    other = steps[:-1] + [steps[-1], steps[-1]]
    ctx.check(ctx.ok(plan_parser(), text_of(other), what="plan parser") != plan, "plans of different length are equal")
    k = ctx.pick("changed", len(steps))
    other = [(x, ys) if i != k else (x, ys + [b]) for i, (x, ys) in enumerate(steps)]
    ctx.check(ctx.ok(plan_parser(), text_of(other), what="plan parser") != plan, "plans with different steps are equal")


def many(ctx):
    """Plans of up to 60 steps and steps of up to 40 arguments, a symbolic action or object at any place."""
    a, x = ctx.name("a"), ctx.name("x")
    n = ctx.choice("n", [7, 11, 17, 26, 33] + ([60] if ctx.thorough else []))
    i = ctx.pick("place", n)
    if ctx.flag("one step"):
        args = [fixed(j) for j in range(n)]
        args[i] = x
        steps = [(a, args), (fixed(0), args[::-1])]
    else:
        steps = [(fixed(j % 5), [fixed(h) for h in range((j * 3) % 4)]) for j in range(n)]
        steps[i] = (a, [x, fixed(1), x])
    plan = ctx.ok(plan_parser(), text_of(steps), what="plan parser")
    ctx.check(same(read(plan), steps), f"parsed plan differs: {read(plan)} from {steps}")
    again = ctx.ok(plan_parser(), str(plan), what="parsing the printed plan")
    ctx.check(again == plan and same(read(again), steps), f"printed plan parses to a different plan: {str(plan)}")


SCENARIOS = [
    Scenario("many", many, "plans of 7 to 33 (thorough: 60) steps or 2 steps of that many arguments, the action or object at any place symbolic"),
    Scenario("long", long, "plans of 4 to 12 steps with at most 5 arguments, or one step with 12 to 18, over 5 symbolic names; one step changed or repeated"),
    Scenario("parsed", parsed_as_written, "plans of at most 3 steps with at most 2 (thorough: 3) arguments, all names symbolic"),
    Scenario("constructed", constructed, "constructed plans of at most 3 steps, at most 2 arguments, optional argument type"),
    Scenario("equality", equality, "two plans of at most 2 steps with at most 2 arguments each"),
]
