"""C11: plan checking and plan instantiation follow the action signatures."""

from hx.lib import NOTYPE, Scenario, build_vars, norm, read, subst


def world(ctx, nact, nobj, ncon, amax, repeat=False):
    from pddl.action import Action
    from pddl.core import Domain, Problem
    from pddl.logic.base import Not
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant
    from pddl.requirements import Requirements

    acts = []
    names = ctx.distinct_names("act", nact)
    objs = []
    for i in range(nact):
        k = ctx.pick(f"arity{i}", amax + 1)
        ps = [("v", "xx", NOTYPE), ("v", "yy", NOTYPE)][:k]
        if k == 2 and repeat and ctx.flag(f"repeat{i}"):
            ps = ps[:1] * 2
        acts.append((names[i], ps, ("pred", f"pre{i}", tuple(ps)), ("not", ("pred", f"eff{i}", tuple(reversed(ps))))))
        vs = build_vars([(p[1], p[2]) for p in ps])
        objs.append(Action(names[i], vs, Predicate(f"pre{i}", *vs), Not(Predicate(f"eff{i}", *reversed(vs)))))
    consts = ctx.names("con", ncon)
    os = ctx.names("obj", nobj)
    typed = ctx.flag("typed")
    d = Domain("dd", requirements={Requirements.TYPING}, types={"tt": None}, constants=[Constant(c, "tt" if typed else None) for c in consts], actions=objs)
    p = Problem("pp", domain_name="dd", objects=[Constant(o, "tt" if typed else None) for o in os])
    return d, p, acts, consts + os


def steps_of(ctx, nmax, amax):
    n = ctx.pick("steps", nmax + 1)
    return [(ctx.name(f"s{i}"), ctx.names(f"a{i}.", ctx.pick(f"k{i}", amax + 1))) for i in range(n)]


def plan_of(ctx, steps):
    from pddl.core import Plan
    from pddl.logic.terms import Constant

    if ctx.flag("parsed"):
        from hx.lib import parse_plan_text

        return parse_plan_text(" ".join("(" + " ".join([a] + xs) + ")" for a, xs in steps))
    return Plan([(a, [Constant(x) for x in xs]) for a, xs in steps])


def find(acts, n):
    for a in acts:
        if a[0] == n:
            return a
    return None


def check(ctx, nact, nobj, ncon, amax, nsteps, repeat=False):
    d, p, acts, objs = world(ctx, nact, nobj, ncon, amax, repeat)
    steps = steps_of(ctx, nsteps, amax)
    plan = plan_of(ctx, steps)
    ok, res = ctx.attempt(plan.check, d, p)
    want = True
    for a, xs in steps:
        act = find(acts, a)
        if act is None or len(act[1]) != len(xs) or any(not any(x == o for o in objs) for x in xs):
            want = False
            break
    ctx.check(ok == want, f"plan {steps} with actions {[(a[0], len(a[1])) for a in acts]} and objects {objs} is "
              f"{'accepted' if ok else 'rejected'}")


def names_and_arity(ctx):
    check(ctx, 2, 1, 0, 2 if ctx.thorough else 1, 2)


def arguments(ctx):
    check(ctx, 1, ctx.pick("nobj", 3), ctx.pick("ncon", 2), 2, 1, True)


def order(ctx):
    """Three steps: a bad one in any place is found."""
    check(ctx, 1, 1, 1, 1, 3)


def instantiate(ctx):
    d, p, acts, objs = world(ctx, 2, 0, 0, 2)
    steps = steps_of(ctx, 2, 2)
    plan = plan_of(ctx, steps)
    ok, res = ctx.attempt(plan.instantiate, d)
    want = []
    for a, xs in steps:
        act = find(acts, a)
        if act is None or len(act[1]) != len(xs):
            ctx.rejected(ok, f"instantiation of the step {a} {xs}")
            return
        m = [((p[1], NOTYPE), ("c", x)) for p, x in zip(act[1], xs)]
        want.append((a, list(xs), norm(subst(act[2], m)), norm(subst(act[3], m))))
    ctx.accepted(ok, res, f"instantiation of {steps}")
    got = [(r.name, [t.name for t in r.parameters], norm(read(r.precondition)), norm(read(r.effect))) for r in res]
    ctx.check_eq(got, want, f"instantiation of {steps}")


def instantiate_longer(ctx):
    """Order of the steps: three steps of unary actions."""
    d, p, acts, objs = world(ctx, 2, 0, 0, 1)
    steps = [(ctx.choice(f"s{i}", [acts[0], acts[1]]), ctx.name(f"x{i}")) for i in range(3)]
    from pddl.core import Plan
    from pddl.logic.terms import Constant

    plan = Plan([(a[0], [Constant(x)] if a[1] else []) for a, x in steps])
    res = ctx.ok(plan.instantiate, d, what="instantiate")
    ctx.check_eq([(r.name, [t.name for t in r.parameters]) for r in res], [(a[0], [x] if a[1] else []) for a, x in steps], "instances")
    ctx.check(plan.actions == [(a[0], [Constant(x)] if a[1] else []) for a, x in steps], "the plan is modified")


def pairs(ctx):
    """Two (thorough: three) steps of one binary action, every argument symbolic: none is checked on behalf of another."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.logic.terms import Constant, Variable

    objs = ctx.distinct_names("obj", 2)
    a = ctx.name("act")
    d = Domain("dd", constants=[Constant(objs[0])], actions=[Action(a, [Variable("xx"), Variable("yy")])])
    p = Problem("pp", domain_name="dd", objects=[Constant(objs[1])])
    steps = [ctx.names(f"a{i}.", 2) for i in range(3 if ctx.thorough else 2)]
    plan = Plan([(a, [Constant(x) for x in xs]) for xs in steps])
    ok, res = ctx.attempt(plan.check, d, p)
    want = all(any(x == o for o in objs) for xs in steps for x in xs)
    ctx.check(ok == want, f"plan {ctx.show(steps)} with objects {objs} is {'accepted' if ok else 'rejected'}")


def long(ctx):
    """Longer plans over three actions of arity 0, 2 and 4, several objects and constants; one step may be wrong anywhere."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable

    vs = [Variable(f"v{i}") for i in range(4)]
    an = ctx.distinct_names("act", 3)
    acts = [Action(a, vs[:k], Predicate("p", *vs[:k]), Predicate("q", *vs[:k][::-1])) for a, k in zip(an, (0, 2, 4))]
    ns = ctx.distinct_names("n", 5)
    con, obj = ns[:2], ns[2:]
    d = Domain("dd", constants=[Constant(c) for c in con], actions=acts)
    p = Problem("pp", domain_name="dd", objects=[Constant(o) for o in obj])
    steps = [(an[2], [ns[0], ns[4], ns[2], ns[1]]), (an[0], []), (an[1], [ns[3], ns[3]]), (an[1], [ns[1], ns[3]]), (an[2], [ns[4]] * 3 + [ns[1]]), (an[0], [])]
    steps = steps[: 4 + ctx.pick("n", 3)]
    i = ctx.pick("at", len(steps))
    a, xs = steps[i]
    k = ctx.choice("change", ["none", "other action", "other argument", "more", "less", "empty"])
    if k == "other action":
        a = ctx.name("a")
    elif k == "other argument":
        ctx.assume(len(xs) > 0)
        j = ctx.pick("arg", len(xs))
        xs = xs[:j] + [ctx.name("x")] + xs[j + 1 :]
    elif k == "more":
        xs = xs + [ns[ctx.pick("arg", 5)]]
    elif k == "less":
        ctx.assume(len(xs) > 0)
        xs = xs[:-1]
    elif k == "empty":
        xs = []
    steps[i] = (a, xs)
    plan = plan_of(ctx, steps)
    arity = [(an[0], 0), (an[1], 2), (an[2], 4)]
    applies = all(any(a == b and len(xs) == m for b, m in arity) for a, xs in steps)
    known = all(any(x == y for y in ns) for _, xs in steps for x in xs)
    ok, res = ctx.attempt(plan.check, d, p)
    ctx.check(ok == (applies and known), f"plan {ctx.show(steps)} is {'accepted' if ok else 'rejected'}")
    ok, res = ctx.attempt(plan.instantiate, d)
    ctx.check(ok == applies, f"plan {ctx.show(steps)} is {'' if ok else 'not '}instantiated")
    if ok:
        got = [(r.name, [t.name for t in r.parameters], read(r.precondition), read(r.effect)) for r in res]
        c = lambda xs: tuple([("c", x) for x in xs])  # noqa: E731
        ctx.check_eq(got, [(a, list(xs), ("pred", "p", c(xs)), ("pred", "q", c(xs[::-1]))) for a, xs in steps], f"instantiation of {ctx.show(steps)}")


SCENARIOS = [
    Scenario("long", long, "plans of 4 to 6 steps over actions of arity 0, 2, 4, two constants and three objects, one step with another action, argument or number of arguments"),
    Scenario("names", names_and_arity, "two actions of arity at most 1 (thorough: 2), one object, plans of at most 2 steps, all names symbolic"),
    Scenario("arguments", arguments, "one action of arity at most 2 (also with the same parameter twice), at most 2 objects and 1 constant, plans of at most 1 step"),
    Scenario("pairs", pairs, "two (thorough: three) steps of one binary action, all four arguments symbolic, a constant and an object"),
    Scenario("order", order, "one action, one object, one constant, plans of at most 3 steps"),
    Scenario("instantiate", instantiate, "two actions of arity at most 2, plans of at most 2 steps with at most 2 arguments"),
    Scenario("instantiate-longer", instantiate_longer, "plans of 3 steps over two actions"),
]
