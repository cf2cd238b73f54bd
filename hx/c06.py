"""C06: each variable occurrence carries its innermost declaration's types."""

from hx.lib import EITHER, FULL_REQS, NOTYPE, Gen, Scenario, fixed, norm, parse_domain_text, read, retype, to_text, vars_text

TYPES = "(:types tt ww - object uu - tt)"
TSETS = [NOTYPE, frozenset(["tt"]), frozenset(["uu"]), frozenset(["tt", "ww"])]


def declared(ctx, label, n, options):
    """n declarations with symbolic names; typed ones first."""
    names = ctx.distinct_names(label, n)
    vs = [(names[i], ctx.choice(f"{label}.ty{i}", options)) for i in range(n)]
    ctx.assume(not any(len(vs[i][1]) == 0 and len(vs[i + 1][1]) > 0 for i in range(n - 1)))
    return tuple(vs)


def leaf(ctx, label, n=1):
    return ("pred", "pp", tuple([("v", ctx.name(f"{label}.v{i}"), NOTYPE) for i in range(n)]))


def compare(ctx, got, want, env, text, what):
    want = norm(retype(want, list(env)))
    got = norm(read(got))
    ctx.check(got == want, f"{what} of {text} read as {ctx.show(got)}, expected {ctx.show(want)}")


def action_text(params, body):
    return (f"(define (domain dd) {FULL_REQS} {TYPES} (:constants cc - tt) (:predicates (pp)) "
            f"(:action aa :parameters ({vars_text(params)}) {body}))")


def parsed_action(ctx, text):
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    return list(d.actions)[0]


def wrap(ctx, kind, vs, f, label):
    """Put f below a quantifier and optionally more structure."""
    if kind == "when":
        return ("when", f, leaf(ctx, label + ".e"))
    return (kind, vs, f)


def nested(ctx):
    """Parameters, an outer and an inner quantifier, and occurrences at every level."""
    params = declared(ctx, "par", 1, TSETS)
    outer = declared(ctx, "out", 1, TSETS if ctx.thorough else TSETS[:2])
    inner = declared(ctx, "inn", 1, TSETS[:3] if ctx.thorough else TSETS[1:3])
    k1, k2 = ctx.choice("k1", ["forall", "exists"]), "exists"
    shape = ctx.pick("shape", 3)
    a, b = leaf(ctx, "a"), leaf(ctx, "b")
    if shape == 0:
        f = (k1, outer, ("and", (a, (k2, inner, ("not", b)))))
    elif shape == 1:
        f = ("and", ((k1, outer, a), (k2, inner, b)))
    else:
        f = (k1, outer, (k2, inner, ("imply", a, b)))
    c = leaf(ctx, "c")
    text = action_text(params, f":precondition {to_text(('or', (f, c)))}")
    compare(ctx, parsed_action(ctx, text).precondition, ("or", (f, c)), params, text, "precondition")


def constructs(ctx):
    """Occurrences inside every kind of condition below one quantifier and two parameters."""
    params = declared(ctx, "par", 2, TSETS[:3])
    q = declared(ctx, "q", 1, TSETS)
    kind = ctx.choice("kind", ["or", "imply", "eq", "cmp", "arith", "pred2", "not"])
    v, w = ("v", ctx.name("v"), NOTYPE), ("v", ctx.name("w"), NOTYPE)
    pv, pw = ("pred", "pp", (v,)), ("pred", "pp", (w,))
    f = {"or": ("or", (pv, pw)), "imply": ("imply", pv, pw), "eq": ("eq", v, w), "not": ("not", pv),
         "pred2": ("pred", "pp", (v, ("c", "cc"), w)),
         "cmp": ("cmp", "<=", ("fn", "ff", (v,)), ("fn", "ff", (w, v))),
         "arith": ("cmp", ">", ("arith", "-", (("fn", "ff", (v,)), ("val", 2))), ("arith", "+", (("val", 1), ("fn", "ff", (w,)))))}[kind]
    if ctx.flag("quant"):
        f = (ctx.choice("k", ["forall", "exists"]), q, f)
    text = action_text(params, f":precondition {to_text(f)}")
    compare(ctx, parsed_action(ctx, text).precondition, f, params, text, "precondition")


def effects(ctx):
    params = declared(ctx, "par", 1, TSETS[:2])
    q = declared(ctx, "q", 1, TSETS)
    q2 = declared(ctx, "r", 1, [TSETS[2]])
    a, b = leaf(ctx, "a"), leaf(ctx, "b")
    shape = ctx.pick("shape", 7)
    e = [
        ("feff", q, a),
        ("feff", q, ("when", ("not", a), ("and", (b, ("not", a))))),
        ("and", (("feff", q, a), b)),
        ("feff", q, ("and", (("feff", q2, a), b))),
        ("feff", q, ("oneof", (a, ("and", (b,))))),
        ("feff", q, ("num", "increase", ("fn", "ff", (a[2][0],)), ("fn", "ff", (b[2][0],)))),
        ("when", ("exists", q, a), b),
    ][shape]
    text = action_text(params, f":effect {to_text(e)}")
    compare(ctx, parsed_action(ctx, text).effect, e, params, text, "effect")


def two_actions(ctx):
    """The parameters of one action are not visible in another action or in a derived predicate."""
    p1 = declared(ctx, "p1", 1, TSETS[1:3])
    p2 = declared(ctx, "p2", ctx.pick("n2", 2), TSETS[1:3])
    x, y, z = ctx.names("o", 3)
    a1 = f"(:action a1 :parameters ({vars_text(p1)}) :precondition (pp ?{x}))"
    a2 = f"(:action a2 :parameters ({vars_text(p2)}) :precondition (pp ?{y}) :effect (pp ?{x}))"
    dp = f"(:derived (dd) (not (pp ?{z})))"
    parts = [[a1, a2, dp], [a2, dp, a1], [dp, a1, a2]][ctx.pick("order", 3)]
    text = f"(define (domain dd) {FULL_REQS} {TYPES} (:predicates (dd)) {' '.join(parts)})"
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    by = {a.name: a for a in d.actions}

    def var(n, env):
        return retype(("pred", "pp", (("v", n, NOTYPE),)), list(env))

    ctx.check_eq(read(by["a1"].precondition), var(x, p1), f"precondition of a1 in {text}")
    ctx.check_eq(read(by["a2"].precondition), var(y, p2), f"precondition of a2 in {text}")
    ctx.check_eq(read(by["a2"].effect), var(x, p2), f"effect of a2 in {text}")
    ctx.check_eq(read(list(d.derived_predicates)[0].condition), ("not", var(z, [])), f"derived condition in {text}")


def derived(ctx):
    """Head and condition of a derived predicate, against the predicate's declaration."""
    n = 1 + ctx.pick("n", 2)
    decl = [(ctx.name(f"d{i}"), ctx.choice(f"dt{i}", [NOTYPE, frozenset(["tt"]), frozenset(["tt", "ww"])])) for i in range(n)]
    head = [(ctx.name(f"h{i}"), ctx.choice(f"ht{i}", [NOTYPE, frozenset(["tt"]), frozenset(["uu"])])) for i in range(n)]
    for vs in (decl, head):
        ctx.assume(not any(len(vs[i][1]) == 0 and len(vs[i + 1][1]) > 0 for i in range(n - 1)))
        if n == 2:
            ctx.assume(vs[0][0] != vs[1][0])
    v, w = leaf(ctx, "v"), leaf(ctx, "w")
    shape = ctx.pick("shape", 3)
    q = (ctx.name("q"), frozenset(["ww"]))
    f = [v, ("and", (v, ("exists", (q,), w))), ("forall", (q,), ("imply", v, w))][shape] if n == 1 or ctx.thorough else v
    text = (f"(define (domain dd) {FULL_REQS} {TYPES} (:predicates (dp {vars_text(decl)})) "
            f"(:derived (dp {vars_text(head)}) {to_text(f)}))")
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    got = list(d.derived_predicates)[0]
    env = [(h[0], h[1] if len(h[1]) > 0 else decl[i][1]) for i, h in enumerate(head)]
    ctx.check_eq(read(got.predicate), ("pred", "dp", tuple([("v", a, b) for a, b in env])), f"head in {text}")
    compare(ctx, got.condition, f, env, text, "derived condition")


def problem_goal(ctx):
    """Quantified variables of a goal."""
    from hx.lib import parse_problem_text

    q = declared(ctx, "q", 1, TSETS)
    r = declared(ctx, "r", 1, TSETS[:2])
    a, b = leaf(ctx, "a"), leaf(ctx, "b")
    g = ("and", (("exists", q, ("and", (a, ("forall", r, b)))), ("not", a)))
    text = f"(define (problem pp) (:domain dd) (:init) (:goal {to_text(g)}))"
    p = ctx.ok(parse_problem_text, text, what=f"problem parser on {text}")
    compare(ctx, p.goal, g, [], text, "goal")


def deep(ctx):
    """Three nested quantifiers, each with or without types, and an occurrence at every level below something else."""
    sets = [NOTYPE, frozenset(["tt"]), EITHER[0]][: 3 if ctx.thorough else 2]
    x = ctx.name("x")  # the innermost occurrences are of this variable; declarations may or may not be
    params = ((ctx.name("par"), frozenset(["uu"])),)
    occ = ("pred", "pp", (("v", x, NOTYPE),))
    effect = ctx.flag("effect")
    f = occ
    for i in range(3):
        q = ((ctx.name(f"q{i}"), ctx.choice(f"ty{i}", sets)),)
        if effect:
            k = ctx.choice(f"k{i}", ["feff", "both", "when"])
            f = {"feff": ("feff", q, f), "both": ("and", (("feff", q, f), occ)), "when": ("feff", q, ("when", ("exists", q, occ), occ))}[k]
            if k == "both" and i < 2:
                f = ("oneof", (f, occ))
        else:
            k = ctx.choice(f"k{i}", ["forall", "beside", "imply"])
            f = {"forall": ("forall", q, f), "beside": ("and", (("exists", q, f), occ)), "imply": ("imply", occ, ("not", ("exists", q, ("or", (f, occ)))))}[k]
    text = action_text(params, f"{':effect' if effect else ':precondition'} {to_text(f)}")
    a = parsed_action(ctx, text)
    compare(ctx, a.effect if effect else a.precondition, f, params, text, "effect" if effect else "precondition")


def several_variables(ctx):
    """One quantifier over three variables, and occurrences of each, then of each after it."""
    vs = tuple([(n, t) for n, t in zip(ctx.distinct_names("q", 3), ctx.choice("types", [
        [frozenset(["tt"])] * 3, [frozenset(["tt"]), EITHER[0], frozenset(["uu"])], [EITHER[1], frozenset(["ww"]), NOTYPE], [NOTYPE] * 3]))])
    params = ((ctx.name("par"), frozenset(["ww"])), )
    occ = tuple([("v", n, NOTYPE) for n, _ in vs])
    o = ctx.name("o")
    inner = ("pred", "pp", occ[::-1] + (("v", o, NOTYPE),))
    after = ("pred", "pp", (("v", o, NOTYPE),) + occ)
    k = ctx.choice("k", ["forall", "exists", "feff"])
    f = ("and", ((k, vs, inner), after))
    place = ":effect" if k == "feff" else ":precondition"
    text = action_text(params, f"{place} {to_text(f)}")
    a = parsed_action(ctx, text)
    compare(ctx, a.effect if k == "feff" else a.precondition, f, params, text, place)


def wide(ctx):
    """Operands and terms far from the first: sums of 2 to 4 operands, nested, and lists of 5 operands or terms."""
    q = declared(ctx, "q", 1, [TSETS[0], TSETS[3]])
    params = declared(ctx, "par", 1, TSETS[1:2])
    v = ("v", ctx.name("v"), NOTYPE)
    other = ("fn", "gg", (("c", "cc"),))
    k = ctx.choice("kind", ["arith", "list", "terms"])
    n = 2 + ctx.pick("n", 3)
    at = ctx.pick("at", 5)
    if k == "arith":
        if at >= n:
            return
        xs = [("val", 2), other, ("val", 3), other][:n]
        inner = ctx.choice("inner", ["fn", "-", "neg", "/", "+"])
        e = ("fn", "ff", (v, ("c", "cc")))
        e = {"fn": e, "neg": ("arith", "-", (e,))}.get(inner) or ("arith", inner, (other, e) if inner != "+" else (("val", 1), ("val", 2), e))
        xs[at] = e
        e = ("arith", "+" if at % 2 else "*", tuple(xs))
        if (at + n) % 2:
            e = ("arith", "-", (other, ("arith", "/", (other, e))))
        place = ctx.choice("place", ["left", "right", "effect"])
        effect = place == "effect"
        f = {"left": ("cmp", ">=", e, other), "right": ("cmp", "=", other, e), "effect": ("num", ["assign", "decrease", "scale-up"][n - 2], other, e)}[place]
    else:
        if n != 2:
            return
        effect = ctx.flag("effect")
        pc = ("pred", "pp", (("c", "cc"),))
        if k == "terms":
            f = ("pred", "pp", tuple([v if i == at else ("c", "cc") for i in range(5)]))
        else:
            x = ("not", ("pred", "pp", (v,)))
            f = (ctx.choice("op", ["and", "oneof"] if effect else ["and", "or"]), tuple([x if i == at else ("pred", f"p{i}", ()) for i in range(5)]))
            f = ("and", (pc, f, pc)) if f[0] != "and" else f
    f = ("feff", q, f) if effect else (ctx.choice("k", ["forall", "exists"]), q, f)
    if ctx.flag("twice"):
        r = ((fixed(7), frozenset(["ww"])),)
        f = ("feff", r, ("when", ("not", ("pred", "pp", ())), f) if f[0] not in ("feff",) else f) if effect else ("forall", r, ("not", f))
    place = ":effect" if effect else ":precondition"
    text = action_text(params, f"{place} {to_text(f)}")
    a = parsed_action(ctx, text)
    compare(ctx, a.effect if effect else a.precondition, f, params, text, place)


SCENARIOS = [
    Scenario("wide", wide, "an occurrence at any place of sums and products of 2 to 4 operands (nested up to 3 deep), of 5 operands or of 5 terms below a quantifier"),
    Scenario("deep", deep, "three nested quantifiers with symbolic names and 2 (thorough: 3) type sets below one parameter, in conditions and effects"),
    Scenario("variables", several_variables, "one quantifier over three symbolic variables in 4 typings (single, 'either', none), occurrences inside and after"),
    Scenario("nested", nested, "one parameter and two nested or parallel quantifiers with symbolic names, three occurrences, types from 4 type sets"),
    Scenario("constructs", constructs, "two parameters and an optional quantifier over every kind of condition, symbolic names"),
    Scenario("effects", effects, "universal, conditional, nondeterministic and numeric effects with symbolic names, nesting at most 2"),
    Scenario("two-actions", two_actions, "two actions and a derived predicate in three orders, symbolic names"),
    Scenario("derived", derived, "derived predicates with at most 2 arguments, typed or untyped in head and declaration"),
    Scenario("goal", problem_goal, "quantified goals of problems, nesting 2, symbolic names"),
]
