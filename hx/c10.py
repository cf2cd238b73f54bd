"""C10: instantiation substitutes every free parameter and nothing else."""

from hx.lib import CMP, NOTYPE, NUM, Gen, Scenario, build, build_term, build_vars, fixed, norm, read, read_action, subst


def replacement(ctx, lb, others=()):
    """A term that replaces a parameter: a constant, or a variable that no quantifier of the formula binds."""
    k = ctx.pick(lb + ".kind", 2 + len(others))
    if k == 0:
        return ("c", ctx.name(lb + ".c"), None) if ctx.flag(lb + ".typed") else ("c", ctx.name(lb + ".c"), ctx.name(lb + ".ty"))
    if k == 1:
        return ("v", ctx.name(lb + ".v"), NOTYPE)
    return others[k - 2]


def plain(t):
    return t[:2] if t[0] == "c" else t


def params(ctx, n=2):
    """n parameters with distinct names; the first one may be typed."""
    ps = ctx.distinct_names("param", n)
    ty = frozenset([ctx.name("ptype")]) if ctx.flag("ptyped") else NOTYPE
    return [("v", p, ty if i == 0 else NOTYPE) for i, p in enumerate(ps)]


def mapping_of(pairs):
    return {build_term(v): build_term(t) for v, t in pairs}


def spec_map(pairs):
    return [((v[1], v[2]), plain(t)) for v, t in pairs]


def compare(ctx, obj, spec, pairs, what):
    before = read(obj)
    got = norm(read(obj.instantiate(mapping_of(pairs))))
    want = norm(subst(spec, spec_map(pairs)))
    ctx.check(got == want, f"{what} {ctx.show(spec)} instantiated with {ctx.show(pairs)} is {ctx.show(got)}")
    ctx.check(read(obj) == before, f"{what} is modified by its instantiation")


def atoms(ctx):
    """Atoms of every kind, all names symbolic, partial mappings."""
    ps = params(ctx)
    n = ctx.pick("arity", 4)
    kind = ctx.choice("kind", ["pred", "fn", "eq", "derived"])
    if kind == "eq" and n != 2:
        return
    ts = []
    for i in range(n):
        k = ctx.pick(f"t{i}", 4)
        ts.append(ps[k] if k < 2 else ("c", ctx.name(f"c{i}")) if k == 2 else ("v", ctx.name(f"v{i}"), NOTYPE))
    for t in ts:  # the other variables are not the parameters
        if t[0] == "v" and t not in ps[:]:
            for p in ps:
                ctx.differ(t[1], p[1])
    s = (kind, ts[0], ts[1]) if kind == "eq" else (kind, ctx.name("p"), tuple(ts))
    pairs = [(p, replacement(ctx, f"r{i}")) for i, p in enumerate(ps) if ctx.flag(f"in{i}")]
    for i, (_, t) in enumerate(pairs):  # one name, one type: otherwise the atom itself is illegal
        if t[0] == "v":
            for u in list(ps) + ts + [r for _, r in pairs[:i]]:
                if u[0] == "v" and u is not t:
                    ctx.differ(t[1], u[1])
    if kind == "derived":
        from pddl.logic.predicates import DerivedPredicate

        # the condition mentions both parameters, also those that the head has not
        a, c = ("pred", s[1], s[2]), ("not", ("pred", fixed(3), tuple(ts[::-1]) + tuple(ps)))
        d = DerivedPredicate(build(a), build(c))
        r = d.instantiate(mapping_of(pairs))
        m = spec_map(pairs)
        ctx.check(read(r.predicate) == subst(a, m) and read(r.condition) == subst(c, m), f"derived predicate {ctx.show(s)} becomes {ctx.show(r)}")
        return
    o = build(s)
    compare(ctx, o, s, pairs, "atom")
    # the given terms themselves are put in
    r = o.instantiate(mapping_of(pairs))
    got = [r.left, r.right] if kind == "eq" else list(r.terms)
    for t, g in zip(ts, got):
        for v, new in pairs:
            if t == v:
                ctx.check(build_term(new).type_tags == g.type_tags, f"the type of {ctx.show(new)} is lost")


def unbound(ctx, pairs, bound):
    """Assume that no quantifier captures a replacing variable."""
    for _, t in pairs:
        if t[0] == "v":
            for b in bound:
                if t[1] is not b:
                    ctx.differ(t[1], b)
                else:
                    return False
    return True


def conditions(ctx):
    """One parameter and a quantified variable that may have its name."""
    ps = params(ctx, 1)
    b = ctx.name("bound")
    bty = frozenset([ctx.name("btype")]) if ctx.thorough and ctx.flag("btyped") else NOTYPE
    bound = ("v", b, bty)
    g = Gen(ctx, [(ctx.name("p"), 1)], [ps[0], bound], qvars=[((b, bty),)], max_ops=2, eq=False)
    f = g.formula("f", 2)
    pairs = [(ps[0], ctx.choice("r", [("c", ctx.name("c0")), ("v", ctx.name("v0"), NOTYPE)]))]
    if not unbound(ctx, pairs, [b]):
        return
    free_clash(ctx, ps, bound)
    compare(ctx, build(f), f, pairs, "condition")


def conditions_two(ctx):
    """Two parameters, replaced by constants, new variables or each other."""
    ps = params(ctx)
    b = ctx.name("bound")
    bty = frozenset([ctx.name("btype")]) if ctx.flag("btyped") else NOTYPE
    bound = ("v", b, bty)
    g = Gen(ctx, [], [ps[0], ps[1], bound], qvars=[((b, bty),)], max_ops=2, arity=1, eq=False)
    f = g.formula("f", 2 if ctx.thorough else 1)
    pairs = [(p, replacement(ctx, f"r{i}", [ps[1 - i]])) for i, p in enumerate(ps)]
    if not unbound(ctx, pairs, [b]):
        return
    free_clash(ctx, ps, bound)
    compare(ctx, build(f), f, pairs, "condition")


def free_clash(ctx, ps, bound):
    """A variable named like a parameter has the parameter's types (or is hidden by the quantifier)."""
    for p in ps:
        if p[1] == bound[1]:
            ctx.assume(p[2] == bound[2])


def quantified(ctx):
    """Two nested quantifiers, the bound names may be the parameters' names."""
    ps = params(ctx)
    b0, b1 = ctx.names("bound", 2)
    terms = [ps[0], ps[1], ("v", b0, NOTYPE), ("v", b1, NOTYPE)]
    free_clash(ctx, ps, terms[2])
    free_clash(ctx, ps, terms[3])
    kind = ctx.choice("kind", ["condition", "effect"])
    a = ("pred", ctx.name("p"), (ctx.choice("t0", terms), ctx.choice("t1", terms)))
    b = ("pred", ctx.name("q"), (ctx.choice("u0", terms),))
    if kind == "condition":
        q0, q1 = ctx.choice("q0", ["forall", "exists"]), ctx.choice("q1", ["forall", "exists"])
        f = (q0, ((b0, NOTYPE),), ("or", (b, (q1, ((b1, NOTYPE),), a))))
    else:
        f = ("feff", ((b0, NOTYPE),), ("and", (("when", b, a), ("feff", ((b1, NOTYPE),), ("not", a)))))
    if ctx.flag("and"):
        f = ("and", (f, ("pred", ctx.name("r"), (ps[0],))))
    pairs = [(ps[0], ("c", ctx.name("c0"))), (ps[1], ctx.choice("r1", [("c", ctx.name("c1")), ps[0]]))]
    if not unbound(ctx, pairs, [b0, b1]):
        return
    compare(ctx, build(f), f, pairs, "quantified formula")


def effects(ctx):
    ps = params(ctx)
    b = ctx.name("bound")
    bound = ("v", b, NOTYPE)
    free_clash(ctx, ps, bound)
    g = Gen(ctx, [], [ps[0], bound], qvars=[((b, NOTYPE),)], max_ops=2 if ctx.thorough else 1, arity=1)
    e = g.effect("e", 2)
    pairs = [(ps[0], ctx.choice("r", [("c", ctx.name("c0")), ("v", ctx.name("v0"), NOTYPE)]))]
    if not unbound(ctx, pairs, [b]):
        return
    compare(ctx, build(e), e, pairs, "effect")


def numeric(ctx):
    ps = params(ctx)
    if ctx.flag("exchange"):  # the parameters replace each other, or one replaces both
        op = ctx.choice("xop", ["cmp", "num", "eq"])
        ts = tuple([ctx.choice(f"x{i}", ps) for i in range(3)])
        f, h = ("fn", ctx.name("f"), ts), ("fn", ctx.name("h"), ts[:1])
        s = ("eq", ts[0], ts[1]) if op == "eq" else (op, "<" if op == "cmp" else "increase", f, ("arith", "-", (h, f)))
        pairs = [(p, ctx.choice(f"y{i}", ps)) for i, p in enumerate(ps)]
        compare(ctx, build(s), s, pairs, "numeric formula")
        return
    g = Gen(ctx, [], [ps[0], ps[1], ("c", ctx.name("k"))], fns=[(ctx.name("f"), 1)], numbers=[7], max_ops=2)
    kind = ctx.choice("kind", ["cmp", "num"])
    op = ctx.choice("op", list(CMP if kind == "cmp" else NUM)) if ctx.thorough else ctx.choice("op", list(CMP if kind == "cmp" else NUM)[:2])
    s = (kind, op, g.fn("l"), g.expr("r", 1))
    pairs = [(p, ("c", ctx.name(f"c{i}"))) for i, p in enumerate(ps)]
    compare(ctx, build(s), s, pairs, "numeric formula")


def numeric_ops(ctx):
    """Every comparison, assignment and arithmetic operator."""
    ps = params(ctx, 1)
    kind = ctx.choice("kind", ["cmp", "num"])
    op = ctx.choice("op", list(CMP if kind == "cmp" else NUM))
    f = ("fn", ctx.name("f"), (ps[0],))
    ar = ctx.choice("ar", ["+", "-", "*", "/", "neg"])
    h = ("fn", ctx.name("h"), (ps[0], ("c", ctx.name("k"))))
    e = ("arith", "-", (h,)) if ar == "neg" else ("arith", ar, (h, ("arith", ar, (f, ("val", ctx.int("n"))))))
    pairs = [(ps[0], replacement(ctx, "r"))]
    compare(ctx, build((kind, op, f, e)), (kind, op, f, e), pairs, "numeric formula")


def action(ctx):
    """Whole actions: name, parameters, precondition, effect, and the number of terms."""
    from pddl.action import Action

    n = ctx.pick("params", 4)
    ps = [("v", p, NOTYPE) for p in ctx.distinct_names("param", n)]
    if n and ctx.flag("typed"):
        ps[0] = ps[0][:2] + (frozenset([ctx.name("ptype")]),)
    g = lambda lb, i: ("pred", ctx.name(lb), (ps[i],) if i < n else ())  # noqa
    pre = ctx.choice("pre", [None, "atom", "not", "and"])
    if pre is not None:
        a = g("p", 0)
        pre = {"atom": a, "not": ("not", a), "and": ("and", (a, g("q", 1), ("or", ())))}[pre]
    eff = ctx.choice("eff", [None, "atom", "when", "empty"])
    if eff is not None:
        eff = {"atom": g("e", n - 1 if n else 0), "when": ("when", g("e", 0), ("not", g("d", 1))), "empty": ("and", ())}[eff]
    nm = ctx.name("a")
    a = Action(nm, build_vars([(p[1], p[2]) for p in ps]), precondition=build(pre), effect=build(eff))
    before = read_action(a)
    m = ctx.pick("terms", 4)
    kinds = ctx.choice("kind", ["c", "rot"])
    ts = [("c", ctx.name(f"c{i}")) if kinds == "c" or i >= n else ps[(i + 1) % n] for i in range(m)]
    ok, r = ctx.attempt(a.instantiate, [build_term(t) for t in ts])
    ctx.check(read_action(a) == before, "the action is modified by its instantiation")
    if m != n:
        ctx.rejected(ok, f"{m} terms for {n} parameters")
        return
    ctx.accepted(ok, r, "instantiation")
    mp = [((p[1], p[2]), t) for p, t in zip(ps, ts)]
    ctx.check_eq(r.name, nm, "name of the instance")
    ctx.check_eq(tuple([("c", p.name) if t[0] == "c" else ("v", p.name, frozenset(p.type_tags)) for p, t in zip(r.parameters, ts)]),
                 tuple(ts), "parameters of the instance")
    ctx.check(len(r.parameters) == n, "number of parameters of the instance")
    want = None if pre is None else norm(subst(pre, mp))
    ctx.check(norm(read(r.precondition)) == want, f"precondition {ctx.show(pre)} becomes {ctx.show(r.precondition)}")
    want = None if eff is None else norm(subst(eff, mp))
    ctx.check(norm(read(r.effect)) == want, f"effect {ctx.show(eff)} becomes {ctx.show(r.effect)}")


def parsed_action(ctx):
    """A parsed action with typed parameters: occurrences carry the types and are all replaced."""
    from hx.lib import FULL_REQS, parse_domain_text
    from pddl.logic.terms import Constant

    x, y, z = ctx.distinct_names("x", 3)
    p, q, r, t = ctx.names("p", 4)
    body = ctx.pick("body", 5)
    pre = [f"(and ({p} ?{x}) (not ({q} ?{y} ?{x})))", f"(forall (?{z} - {t}) (imply ({p} ?{x}) ({q} ?{z} ?{y})))",
           f"(exists (?{x}) (or ({p} ?{x}) ({q} ?{y} ?{y})))", f"(and (= ?{x} ?{y}) (> ({r} ?{x}) 3))",
           f"(and ({p} ?{x}) (exists (?{x} - {t}) ({p} ?{x})))"][body]
    X, Y, TX = ("v", x, frozenset([t])), ("v", y, NOTYPE), ("v", x, NOTYPE)
    pr = [("and", (("pred", p, (X,)), ("not", ("pred", q, (Y, X))))),
          ("forall", ((z, frozenset([t])),), ("imply", ("pred", p, (X,)), ("pred", q, (("v", z, frozenset([t])), Y)))),
          ("exists", ((x, NOTYPE),), ("or", (("pred", p, (TX,)), ("pred", q, (Y, Y))))),
          ("and", (("eq", X, Y), ("cmp", ">", ("fn", r, (X,)), ("val", 3)))),
          ("and", (("pred", p, (X,)), ("exists", ((x, frozenset([t])),), ("pred", p, (X,)))))][body]
    text = (f"(define (domain dd) {FULL_REQS} (:types {t}) (:action aa :parameters (?{x} - {t} ?{y}) :precondition {pre} "
            f":effect (when ({p} ?{y}) (not ({q} ?{x} ?{y})))))")
    a = list(ctx.ok(parse_domain_text, text, what=f"domain parser on {text}").actions)[0]
    c, d = ctx.names("c", 2)
    i = ctx.ok(a.instantiate, [Constant(c, t), Constant(d)], what="instantiate")
    mp = [((x, frozenset([t])), ("c", c)), ((y, NOTYPE), ("c", d))]
    ctx.check_eq(norm(read(i.precondition)), norm(subst(pr, mp)), f"instance of the precondition {pre}")
    ctx.check_eq(norm(read(i.effect)), ("when", ("pred", p, (("c", d),)), ("not", ("pred", q, (("c", c), ("c", d))))), "instance of the effect")


def deep(ctx):
    """Three nested quantifiers, each maybe over a parameter's name, and occurrences of two parameters at every level."""
    x, y = ctx.distinct_names("param", 2)
    X, Y = ("v", x, NOTYPE), ("v", y, NOTYPE)
    occ = lambda i: ("pred", f"p{i}", (X, ("c", "kk"), Y))  # noqa: E731
    effect = ctx.flag("effect")
    f = occ(9)
    for i in range(3):
        b = ((ctx.name(f"b{i}"), NOTYPE),)
        if effect:
            k = ctx.choice(f"k{i}", ["feff", "both", "when"])
            f = {"feff": ("feff", b, f), "both": ("and", (occ(i), ("feff", b, f))), "when": ("feff", b, ("when", ("exists", b, occ(i)), occ(i)))}[k]
            if k == "both" and i < 2:
                f = ("oneof", (f, ("not", occ(i))))
        else:
            k = ctx.choice(f"k{i}", ["forall", "exists", "imply", "eq"])
            f = {"forall": ("forall", b, f), "exists": ("and", (occ(i), ("exists", b, f))), "imply": ("imply", ("forall", b, ("or", (("not", occ(i)), f))), occ(i)),
                 "eq": ("or", (("eq", X, Y), f, ("cmp", "<", ("fn", "ff", (Y,)), ("arith", "+", (("fn", "ff", (X,)), ("val", 1))))))}[k]
    pairs = [(X, ("c", ctx.name("c0")))] + ([(Y, ("c", ctx.name("c1")))] if ctx.flag("both") else [])
    compare(ctx, build(f), f, pairs, "formula")


def long(ctx):
    """More parameters and longer lists: an action with four parameters, replaced by constants, one another, or the same term."""
    from pddl.action import Action

    n = 4 + ctx.pick("n", 2)
    ns = ctx.distinct_names("param", n)
    ty = ctx.choice("types", [[NOTYPE] * 5, [frozenset(["tt"]), frozenset(["tt", "uu", "ww"]), frozenset(["tt"]), frozenset(["object"]), NOTYPE]])
    ps = [("v", a, ty[i]) for i, a in enumerate(ns)]
    k = ctx.choice("terms", ["constants", "same constant", "rotated", "reversed", "mixed"])
    cs = [("c", c) for c in ctx.names("c", n)]
    ts = {"constants": cs, "same constant": cs[:1] * n, "rotated": ps[1:] + ps[:1], "reversed": ps[::-1], "mixed": [cs[i] if i % 2 else ps[(i + 2) % n] for i in range(n)]}[k]
    pre = ("and", tuple([("pred", f"p{i}", tuple(ps[i:] + ps[:i])) for i in range(n)]) + (("not", ("pred", "q", (ps[-1],))), ("eq", ps[0], ps[-1])))
    eff = ("and", (("when", ("pred", "p0", (ps[1],)), ("and", (("pred", "p1", (ps[2],)), ("not", ("pred", "p2", (ps[3],)))))),
                   ("oneof", (("pred", "p3", tuple(ps)), ("not", ("pred", "p4", (ps[0],))), ("pred", "p5", (ps[-1], ps[-1])))),
                   ("num", "increase", ("fn", "ff", (ps[2],)), ("fn", "ff", (ps[3], ps[0])))))
    if ctx.flag("only one occurrence"):
        i = ctx.pick("which", n)
        pre, eff = ("imply", ("and", ()), ("not", ("not", ("pred", "p", (ps[i],))))), ("feff", ((fixed(3), NOTYPE),), ("pred", "q", (("v", fixed(3), NOTYPE), ps[i])))
    a = Action("aa", build_vars([(p[1], p[2]) for p in ps]), build(pre), build(eff))
    before = read_action(a)
    r = ctx.ok(a.instantiate, [build_term(t) for t in ts], what="instantiate")
    mp = [((p[1], p[2]), t) for p, t in zip(ps, ts)]
    ctx.check_eq(norm(read(r.precondition)), norm(subst(pre, mp)), "precondition of the instance")
    ctx.check_eq(norm(read(r.effect)), norm(subst(eff, mp)), "effect of the instance")
    ctx.check_eq([p.name for p in r.parameters], [t[1] for t in ts], "parameters of the instance")
    ctx.check(read_action(a) == before, "the action is modified by its instantiation")


def again(ctx):
    """The same formula or action instantiated several times, with terms that print alike; and instances instantiated again."""
    from pddl.action import Action

    x, y = [("v", n, NOTYPE) for n in ctx.distinct_names("param", 2)]
    if ctx.flag("typed"):
        x = ("v", x[1], frozenset(["tt"]))
    n, m = ctx.name("n"), ctx.name("m")
    ctx.assume(n != x[1] and n != y[1] and m != x[1] and m != y[1])
    pool = [("v", n, NOTYPE), ("v", n, frozenset(["tt"])), ("v", n, frozenset(["uu"])), ("c", n, None), ("c", n, "tt"), ("v", m, frozenset(["tt"])), y]
    a = ("pred", ctx.name("p"), (x, ("c", "kk")))
    f = ctx.choice("f", [a, ("not", a), ("and", (a, ("pred", "q", (y,)))), ("forall", ((y[1], NOTYPE),), a), ("cmp", "<", ("fn", "ff", (x,)), ("val", 1)),
                         ("when", a, ("not", a)), ("feff", ((fixed(5), NOTYPE),), a), ("num", "assign", ("fn", "ff", (x,)), ("val", 1))])
    rs = [ctx.choice(f"r{i}", pool) for i in range(2)]
    if f[0] == "forall" and y in rs:
        return
    effect = f[0] in ("when", "feff", "num")
    o = build(f)
    act = Action("aa", build_vars([(x[1], x[2])]), effect=o) if effect else Action("aa", build_vars([(x[1], x[2])]), precondition=o)
    for r in rs + rs[:1]:
        new = build_term(r)
        want = norm(subst(f, [((x[1], x[2]), plain(r))]))
        ctx.check_eq(norm(read(o.instantiate({build_term(x): new}))), want, f"{ctx.show(f)} with {ctx.show(r)} after other terms")
        i = act.instantiate([new])
        ctx.check_eq(norm(read(i.effect if effect else i.precondition)), want, f"the action with {ctx.show(r)} after other terms")
        p = i.parameters[0]
        ctx.check(type(p) is type(new) and p.name == new.name and p.type_tags == new.type_tags, f"the parameter becomes {ctx.show(p)}, not {ctx.show(r)}")
    if rs[0][0] == "v":  # the instance is an action over its new parameter
        j = i.instantiate([build_term(rs[1])])
        want = norm(subst(want, [((rs[0][1], rs[0][2]), plain(rs[1]))]))
        ctx.check_eq(norm(read(j.effect if effect else j.precondition)), want, "an instance instantiated again")


def wide(ctx):
    """An occurrence at any place of a list of 5 operands or terms, of sums of up to 4 operands, or below nested arithmetic."""
    x, y = [("v", n, NOTYPE) for n in ctx.distinct_names("param", 2)]
    if ctx.flag("typed"):
        x = ("v", x[1], frozenset([ctx.name("t")]))
    k = ctx.choice("kind", ["sum", "terms", "fterms", "and", "or", "oneof", "effects"])
    at = ctx.pick("at", 5)
    c = ("c", "kk")
    q = ("pred", "qq", (y,))
    if k == "sum":
        xs = [("val", 2), ("fn", "gg", (c,)), ("val", 3), ("fn", "gg", (y, c)), ("val", 2)][: 2 + ctx.pick("n", 4)]
        if at >= len(xs):
            return
        e = ("fn", "ff", (c, x))
        i = ctx.choice("inner", ["fn", "neg", "-", "/", "+"])
        xs[at] = {"fn": e, "neg": ("arith", "-", (e,)), "-": ("arith", "-", (("val", 1), e)), "/": ("arith", "/", (e, ("val", 7))), "+": ("arith", "+", (("val", 1), ("val", 1), e))}[i]
        e = ("arith", "*" if at % 2 else "+", tuple(xs))
        f = ctx.choice("place", [("cmp", "<=", e, ("val", 4)), ("cmp", ">", ("val", 4), ("arith", "-", (("val", 5), e))), ("num", "scale-down", ("fn", "gg", (x,)), e)])
    elif k == "terms" or k == "fterms":
        ts = tuple([x if i == at else c for i in range(5)])
        f = ("pred", "pp", ts) if k == "terms" else ("cmp", "=", ("fn", "ff", ts), ("fn", "ff", (y,) + ts[1:]))
    elif k == "effects":
        f = ("and", tuple([("when", q, ("and", (q, ("not", ("pred", "pp", (x,)))))) if i == at else ("feff", ((fixed(3 + i), NOTYPE),), ("pred", "pp", (("v", fixed(3 + i), NOTYPE),))) for i in range(5)]))
    else:
        f = (k, tuple([("not", ("pred", "pp", (x,))) if i == at else ("pred", f"p{i}", (y,)) for i in range(5)]))
    pairs = [(x, ("c", ctx.name("c0")))] + ([(y, ("c", ctx.name("c1")))] if ctx.flag("both") else [])
    compare(ctx, build(f), f, pairs, "formula")


ASSUMPTIONS = ["no quantifier captures a replacing variable (the property says nothing about capture)"]

SCENARIOS = [
    Scenario("wide", wide, "an occurrence at any place of 5 operands, terms or effects and of sums and products of 2 to 5 operands, nested arithmetic"),
    Scenario("again", again, "formulas, effects and actions instantiated three times with terms that may print alike (types, constants or variables), and an instance again"),
    Scenario("deep", deep, "three nested quantifiers (conditions, effects) over symbolic names, two parameters occurring at every level, one or both replaced"),
    Scenario("long", long, "actions with 4 or 5 typed or untyped parameters replaced by constants or one another, 8 operands, atoms with 5 terms"),
    Scenario("atoms", atoms, "predicates, function terms, equalities and derived predicates with at most 3 terms; partial mappings of two parameters"),
    Scenario("conditions", conditions, "conditions of depth 2 over one predicate, a parameter and a quantified variable that may have the parameter's name"),
    Scenario("conditions-two", conditions_two, "conditions of depth 1 (thorough: 2) over two parameters and a quantified variable that may have a parameter's name; the parameters may be exchanged"),
    Scenario("quantified", quantified, "two nested quantifiers (conditions and effects) with symbolic names, possibly a parameter's"),
    Scenario("effects", effects, "effects of depth 2 over a parameter and a quantified variable"),
    Scenario("numeric", numeric, "comparisons and numeric effects with arithmetic of depth 1 over two parameters"),
    Scenario("numeric-ops", numeric_ops, "every comparison, assignment and arithmetic operator over function terms"),
    Scenario("action", action, "actions with at most 3 parameters, at most 3 terms, absent, empty and other conditions and effects"),
    Scenario("parsed", parsed_action, "five parsed actions with typed parameters and quantifiers, all names symbolic"),
]
