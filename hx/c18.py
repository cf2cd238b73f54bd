"""C18: '<' is a strict total order that agrees with equality on terms, predicates, functions, numbers, requirements."""

from hx.lib import NOTYPE, Scenario, all_reqs, build, build_term, fixed

N = fixed(1)


def pair(ctx, a, b, what):
    """Exactly one of <, ==, >; the other operators agree. Returns -1, 0, 1."""
    lt, eq, gt = a < b, a == b, b < a
    s = f"{what} {ctx.show(a)} and {ctx.show(b)}"
    ctx.check(isinstance(lt, bool) and isinstance(gt, bool), f"{s}: < gives no truth value")
    ctx.check(lt + eq + gt == 1, f"{s}: not exactly one of <, == and > holds (<: {lt}, ==: {eq}, >: {gt})")
    ctx.check((b > a) == lt and (a > b) == gt, f"{s}: > disagrees with <")
    ctx.check((a <= b) == (lt or eq) and (b >= a) == (lt or eq), f"{s}: <= and >= disagree with < and ==")
    ctx.check((b <= a) == (gt or eq) and (a >= b) == (gt or eq), f"{s}: <= and >= disagree with < and ==")
    return -1 if lt else 1 if gt else 0


def self_check(ctx, a, what):
    ctx.check(not (a < a) and not (a > a) and a <= a and a >= a, f"{what} {ctx.show(a)} is not in order with itself")


def chain(ctx, xs, what):
    """Transitivity and the result of sorting three objects."""
    a, b, c = xs
    for x, y, z in ((a, b, c), (a, c, b), (b, a, c), (b, c, a), (c, a, b), (c, b, a)):
        if x <= y and y <= z:
            ctx.check(x <= z, f"{what}: <= is not transitive on {ctx.show(x)}, {ctx.show(y)}, {ctx.show(z)}")
            if x < y or y < z:
                ctx.check(x < z, f"{what}: < is not transitive on {ctx.show(x)}, {ctx.show(y)}, {ctx.show(z)}")
    want = sorted([a, b, c])
    ctx.check(want[0] <= want[1] and want[1] <= want[2], f"{what}: sorting gives {ctx.show(want)}")
    ctx.check(sorted([c, b, a]) == want and sorted([b, c, a]) == want and sorted([b, a, c]) == want,
              f"{what}: the result of sorting depends on the order of {ctx.show(want)}")
    ctx.check(min([a, b, c]) == want[0] and max([c, a, b]) == want[2], f"{what}: minimum or maximum of {ctx.show(want)}")


def term(ctx, lb, types):
    if ctx.flag(lb + ".const"):
        return ("c", ctx.name(lb + ".n")) + ((ctx.name(lb + ".t0"),) if ctx.flag(lb + ".typed") else ())
    k = ctx.pick(lb + ".k", types + 1)
    return ("v", ctx.name(lb + ".n"), frozenset(ctx.names(lb + ".t", k)))


def terms(ctx):
    a, b = build_term(term(ctx, "a", 2)), build_term(term(ctx, "b", 2))
    pair(ctx, a, b, "terms")
    self_check(ctx, a, "term")


def terms3(ctx):
    t = 2 if ctx.thorough else 1
    chain(ctx, [build_term(term(ctx, x, t)) for x in "abc"], "terms")


def atom(ctx, lb, kind, arity, typed):
    n = ctx.pick(lb + ".ar", arity + 1)
    ts = []
    for i in range(n):
        if ctx.flag(f"{lb}.c{i}"):
            ts.append(("c", ctx.name(f"{lb}.x{i}")))
        else:
            ts.append(("v", ctx.name(f"{lb}.x{i}"), frozenset(ctx.names(f"{lb}.t{i}", 1)) if typed and ctx.flag(f"{lb}.y{i}") else NOTYPE))
    return build((kind, ctx.name(lb + ".p"), tuple(ts)))


def atoms(ctx):
    k = ctx.choice("kind", ["pred", "fn"])
    a, b = (atom(ctx, x, k, 2, ctx.thorough) for x in "ab")
    pair(ctx, a, b, k)
    self_check(ctx, a, k)


def typed_atoms(ctx):
    """The atoms differ in types only where terms do."""
    k = ctx.choice("kind", ["pred", "fn"])
    a, b = (build((k, N, (("c", N), build_spec))) for build_spec in (term(ctx, "a", 2), term(ctx, "b", 2)))
    pair(ctx, a, b, k)


def atoms3(ctx):
    k = ctx.choice("kind", ["pred", "fn"])
    chain(ctx, [atom(ctx, x, k, 1, False) for x in "abc"], k)


FLOATS = [0.0, 0.25, 1.0, 1.5, 2.0, 1e3, 1e-3, 12345.5, 1e22, 1e300, 5e-324, float("inf")]


def numbers(ctx):
    from pddl.logic.functions import NumericValue

    xs = [NumericValue(ctx.int(x)) if ctx.flag(x + ".symbolic") else NumericValue(ctx.number(ctx.choice(x + ".f", FLOATS))) for x in "ab"]
    a, b = xs
    u, v = a.value, b.value
    r = pair(ctx, a, b, "numbers")
    ctx.check(r == (0 if v == u else -1 if v > u else 1), f"the order of {ctx.show(a)} and {ctx.show(b)} is not that of their values")
    self_check(ctx, a, "number")


def numbers3(ctx):
    from pddl.logic.functions import NumericValue

    chain(ctx, [NumericValue(ctx.int(x)) if ctx.flag(x + ".symbolic") else NumericValue(ctx.number(ctx.choice(x + ".f", FLOATS[:6]))) for x in "abc"],
          "numbers")


def requirements(ctx):
    from pddl.requirements import Requirements

    rs = list(Requirements)
    a, b = ctx.choice("a", rs), ctx.choice("b", rs)
    r = pair(ctx, a, b, "requirements")
    ctx.check((r == 0) == (a is b), f"{ctx.show(a)} and {ctx.show(b)}: equal without being the same")
    self_check(ctx, a, "requirement")
    ctx.check((str(a) == str(b)) == (a is b), f"{ctx.show(a)} and {ctx.show(b)} print the same")


def requirements3(ctx):
    from pddl.requirements import Requirements

    rs = list(Requirements)
    a, b, c = ctx.choice("a", rs), ctx.choice("b", rs), ctx.choice("c", rs)
    chain(ctx, [a, b, c], "requirements")


def derived(ctx):
    """Derived predicates with atomic conditions."""
    from pddl.logic.predicates import DerivedPredicate

    def one(lb):
        return DerivedPredicate(build(("pred", ctx.name(lb + ".p"), ())), build(("pred", ctx.name(lb + ".c"), ())))

    xs = [one(x) for x in "abc"]
    pair(ctx, xs[0], xs[1], "derived predicates")
    self_check(ctx, xs[0], "derived predicate")
    chain(ctx, xs, "derived predicates")


def long(ctx):
    """Atoms with 3 to 5 terms and variables with 3 or 4 types that differ at one place or in their length."""
    k = ctx.choice("kind", ["pred", "fn", "variable"])
    n = 3 + ctx.pick("n", 3)
    xs = ctx.names("x", 2)
    shape = ctx.choice("shape", ["variables", "constants", "both"])
    i, j = ctx.pick("i", n), ctx.pick("j", n)

    def one(at, x, m):
        ns = [fixed(f"x{h}") for h in range(m)]
        if at < m:
            ns[at] = x
        if k == "variable":
            return build_term(("v", N, frozenset(ns)))
        return build((k, N, tuple([("c", y) if shape == "constants" or shape == "both" and h % 2 else ("v", y, NOTYPE) for h, y in enumerate(ns)])))

    more = ctx.pick("more", 2)
    a, b = one(i, xs[0], n), one(j, xs[1], n + more)
    pair(ctx, a, b, k)
    self_check(ctx, a, k)
    if k == "variable":
        return
    c = one(i, xs[1], n)
    chain(ctx, [a, b, c], k)


SCENARIOS = [
    Scenario("long", long, "atoms with 3 to 5 terms or variables with 3 to 5 types, symbolic at any place, with as many or one more; triples"),
    Scenario("terms", terms, "pairs of terms, symbolic names, at most 2 symbolic types"),
    Scenario("terms-3", terms3, "triples of terms, symbolic names, at most 1 (thorough: 2) symbolic types"),
    Scenario("atoms", atoms, "pairs of predicates or functions with at most 2 terms, symbolic names (thorough: at most 1 symbolic type per variable)"),
    Scenario("typed-atoms", typed_atoms, "pairs of predicates or functions that differ in one term with at most 2 symbolic types"),
    Scenario("atoms-3", atoms3, "triples of predicates or functions with at most 1 term, symbolic names"),
    Scenario("numbers", numbers, "pairs of numeric values, symbolic integers or 12 floats"),
    Scenario("numbers-3", numbers3, "triples of numeric values, symbolic integers or 6 floats"),
    Scenario("requirements", requirements, "every pair of requirements"),
    Scenario("requirements-3", requirements3, "every triple of requirements"),
    Scenario("derived", derived, "triples of derived predicates with atomic conditions, symbolic names"),
]
