"""C05: conditions and effects are read with the written structure."""

from hx.lib import FULL_REQS, NOTYPE, Gen, Scenario, fixed, long_effect, long_expr, long_formula, norm, parse_domain_text, read, to_text, untyped

X, Y = ("v", "xx", NOTYPE), ("v", "yy", NOTYPE)


def domain(body, params="", extra=""):
    return f"(define (domain dd) {FULL_REQS} {extra} (:action aa :parameters ({params}) {body}))"


def the_action(ctx, text):
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    ctx.check(len(d.actions) == 1, f"one action written, {len(d.actions)} read")
    return list(d.actions)[0]


def compare(ctx, got, want, text, what):
    got = norm(untyped(read(got)))
    want = norm(untyped(want))
    ctx.check(got == want, f"{what} read as {ctx.show(got)}, written {ctx.show(want)} in {text}")


def shape(ctx, where, depth, quant):
    """A condition whose atoms are fresh symbolic names."""
    g = Gen(ctx, [], [], qvars=[((fixed(1), NOTYPE),)] if quant else [], eq=False)
    f = g.formula("f", depth)
    if where == "derived":
        text = f"(define (domain dd) {FULL_REQS} (:predicates ({fixed(9)})) (:derived ({fixed(9)}) {to_text(f)}))"
        d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
        ctx.check(len(d.derived_predicates) == 1, "one derived predicate written")
        compare(ctx, list(d.derived_predicates)[0].condition, f, text, "derived condition")
    elif where == "when":
        e = ("when", f, ("pred", fixed(3), ()))
        text = domain(":effect " + to_text(e))
        compare(ctx, the_action(ctx, text).effect, e, text, "conditional effect")
    else:
        text = domain(":precondition " + to_text(f))
        a = the_action(ctx, text)
        compare(ctx, a.precondition, f, text, "precondition")
        ctx.check(a.effect is None, "an absent effect is read as an effect")


def conditions(ctx):
    shape(ctx, "pre", 2, True)


def conditions_deep(ctx):
    shape(ctx, "pre", 3, False)


def conditions_elsewhere(ctx):
    shape(ctx, ctx.choice("where", ["derived", "when"]), 1 if not ctx.thorough else 2, True)


def atoms(ctx):
    """Atoms with several terms: names and order."""
    n = ctx.pick("arity", 4)
    names = ctx.names("t", n)
    terms = tuple([("v" if ctx.flag(f"var{i}") else "c", names[i]) for i in range(n)])
    terms = tuple([t + (NOTYPE,) if t[0] == "v" else t for t in terms])
    p = ("pred", ctx.name("p"), terms)
    cs = []
    for t in terms:
        if t[0] == "c" and not any(t[1] == c for c in cs):
            cs.append(t[1])
    extra = f"(:constants {' '.join(cs)})" if cs else ""
    where = ctx.choice("where", ["pre", "not", "effect", "eq", "fn"])
    if where == "eq":
        if n != 2:
            return
        p = ("eq", terms[0], terms[1])
    if where == "fn":
        p = ("cmp", ">", ("fn", p[1], p[2]), ("val", 3))
    if where == "not":
        p = ("not", p)
    text = domain((":effect " if where == "effect" else ":precondition ") + to_text(p), extra=extra)
    a = the_action(ctx, text)
    compare(ctx, a.effect if where == "effect" else a.precondition, p, text, "atom")


def effects(ctx):
    g = Gen(ctx, [], [], qvars=[((fixed(1), NOTYPE),)])
    e = g.effect("e", 2)
    text = domain(":effect " + to_text(e))
    a = the_action(ctx, text)
    compare(ctx, a.effect, e, text, "effect")
    ctx.check(a.precondition is None, "an absent precondition is read as a precondition")


def numeric(ctx):
    """Comparisons and numeric effects with arithmetic expressions."""
    fs = [(ctx.name("f0"), 0), (ctx.name("f1"), 0)]
    depth = 2 if ctx.thorough else 1
    where = ctx.choice("where", ["cmp", "effect"])
    g = Gen(ctx, [], [], fns=fs, numbers=[7, 2.5])
    if where == "cmp":
        op = ctx.choice("op", [">", "<", ">=", "<=", "="])
        s = ("cmp", op, g.expr("l", depth), g.expr("r", 0))
        if ctx.flag("swap"):
            s = ("cmp", op, s[3], s[2])
        text = domain(":precondition " + to_text(s))
        compare(ctx, the_action(ctx, text).precondition, s, text, "comparison")
    else:
        s = ("num", ctx.choice("op", ["assign", "scale-up", "scale-down", "increase", "decrease"]), g.fn("h"), g.expr("r", depth))
        text = domain(":effect " + to_text(s))
        compare(ctx, the_action(ctx, text).effect, s, text, "numeric effect")


def arithmetic_deep(ctx):
    fs = [(ctx.name("f0"), 0)]
    g = Gen(ctx, [], [], fns=fs, numbers=[7], max_ops=2)
    s = ("cmp", ">=", g.expr("l", 2), ("val", 3))
    text = domain(":precondition " + to_text(s))
    compare(ctx, the_action(ctx, text).precondition, s, text, "comparison")


def absent(ctx):
    pre = ctx.choice("pre", ["absent", "()", "and", "or", "atom"])
    eff = ctx.choice("eff", ["absent", "()", "and", "atom"])
    p, q = ctx.names("p", 2)
    words = {"()": "()", "and": "(and)", "or": "(or)"}
    body = ""
    if pre != "absent":
        body += ":precondition " + words.get(pre, f"({p})")
    if eff != "absent":
        body += " :effect " + words.get(eff, f"({q})")
    text = domain(body)
    a = the_action(ctx, text)
    want = {"absent": None, "()": ("and", ()), "and": ("and", ()), "or": ("or", ())}
    ctx.check_eq(norm(read(a.precondition)), want.get(pre, ("pred", p, ())), f"precondition of {text}")
    ctx.check_eq(norm(read(a.effect)), want.get(eff, ("pred", q, ())), f"effect of {text}")


def several(ctx):
    """Two actions and two derived predicates keep their own parts."""
    n = ctx.names("n", 4)
    ctx.distinct([n[0], n[1]])
    ctx.distinct([n[2], n[3]])
    p = ctx.names("p", 6)
    order = ctx.pick("order", 3)
    a0 = f"(:action {n[0]} :parameters () :precondition ({p[0]}) :effect ({p[1]}))"
    a1 = f"(:action {n[1]} :parameters () :precondition ({p[2]}) :effect (not ({p[3]})))"
    d0 = f"(:derived ({n[2]}) ({p[4]}))"
    d1 = f"(:derived ({n[3]}) (not ({p[5]})))"
    parts = [[a0, a1, d0, d1], [d0, a0, d1, a1], [d1, d0, a1, a0]][order]
    text = f"(define (domain dd) {FULL_REQS} (:predicates ({n[2]}) ({n[3]})) {' '.join(parts)})"
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    got = frozenset([(a.name, read(a.precondition), read(a.effect)) for a in d.actions])
    P = [("pred", x, ()) for x in p]
    ctx.check_eq(got, frozenset([(n[0], P[0], P[1]), (n[1], P[2], ("not", P[3]))]), "actions")
    got = frozenset([(read(x.predicate), read(x.condition)) for x in d.derived_predicates])
    ctx.check_eq(got, frozenset([(("pred", n[2], ()), P[4]), (("pred", n[3], ()), ("not", P[5]))]), "derived predicates")


def long(ctx):
    """Longer lists and deeper nesting than elsewhere, at every place of a condition, effect or expression."""
    where = ctx.choice("where", ["precondition", "when", "derived", "effect", "comparison", "numeric effect"])
    decl = "(:types uu - tt tt ww)"
    if where in ("comparison", "numeric effect"):
        e = long_expr(ctx, "e")
        f = ("cmp", "<", e, ("val", 3)) if where == "comparison" else ("num", "increase", ("fn", fixed(90), ()), e)
        cs = e[2] if e[0] == "fn" else ()
    else:
        f = long_effect(ctx, "e") if where == "effect" else long_formula(ctx, "f")
        cs = [t for t in f[2] if t[0] == "c"] if f[0] == "pred" else ()
        if where == "when":
            f = ("when", f, ("pred", fixed(3), ()))
    names = []
    for c in cs:
        if not any(c[1] == n for n in names):
            names.append(c[1])
    decl += f"(:constants {' '.join(names)})" if names else ""
    if where == "derived":
        text = f"(define (domain dd) {FULL_REQS} {decl} (:predicates ({fixed(9)})) (:derived ({fixed(9)}) {to_text(f)}))"
        d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
        return compare(ctx, list(d.derived_predicates)[0].condition, f, text, "derived condition")
    pre = where in ("precondition", "comparison")
    text = domain((":precondition " if pre else ":effect ") + to_text(f), extra=decl)
    a = the_action(ctx, text)
    compare(ctx, a.precondition if pre else a.effect, f, text, where)


def many(ctx):
    """Conditions and effects with 7 to 33 elements in one list or nesting."""
    from hx import big

    k = ctx.choice("kind", list(big.SPECS))
    f, eff, vs, cs = big.placed(k, big.many(ctx, k))
    decl = f"(:types {big.T1})" + (f"(:constants {' '.join(cs)})" if cs else "")
    params = " ".join(["?" + v[1] for v in vs])
    part = (":effect " if eff else ":precondition ") + to_text(f)
    text = f"(define (domain dd) {FULL_REQS} {decl} (:action aa :parameters ({params}) {part}))"
    a = the_action(ctx, text)
    compare(ctx, a.effect if eff else a.precondition, f, text, k)


SCENARIOS = [
    Scenario("many", many, "14 kinds of lists and nestings with 7 to 17 (thorough: 33) elements, the element at any place symbolic"),
    Scenario("long", long, "conditions, effects and expressions with one list of 3 to 4 (thorough: 5) elements, or of depth 3 (thorough: 4), at 6 places"),
    Scenario("conditions", conditions, "preconditions of connective depth 2, at most 2 operands, nullary atoms with symbolic names, quantifiers over one variable"),
    Scenario("conditions-deep", conditions_deep, "preconditions of connective depth 3 without quantifiers", quick=False),
    Scenario("conditions-elsewhere", conditions_elsewhere, "derived conditions and conditions of conditional effects of depth 1 (thorough: 2)"),
    Scenario("atoms", atoms, "atoms, equalities and function terms with at most 3 terms, all names symbolic"),
    Scenario("effects", effects, "effects of depth 2 with at most 2 operands, nullary atoms with symbolic names"),
    Scenario("numeric", numeric, "comparisons and numeric effects with arithmetic of depth 1 (thorough: 2)"),
    Scenario("arithmetic", arithmetic_deep, "a comparison with arithmetic of depth 2 over one symbolic function and a number"),
    Scenario("absent", absent, "every combination of absent, '()', empty and atomic condition and effect"),
    Scenario("several", several, "two actions and two derived predicates in three orders, all names symbolic"),
]
