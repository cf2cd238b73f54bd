"""C08: logical connectives keep their truth-functional meaning."""

from hx.lib import FULL_REQS, NOTYPE, Gen, Scenario, build, fixed, parse_domain_text, read


def value(alg, s):
    k = s[0]
    if k == "pred":
        return alg.bool(s[1], tuple([x for t in s[2] for x in (t[1],) + tuple(t[2] if t[0] == "v" else ())]))
    if k == "not":
        return alg.Not(value(alg, s[1]))
    if k == "and":
        return alg.And([value(alg, x) for x in s[1]])
    if k == "or":
        return alg.Or([value(alg, x) for x in s[1]])
    if k == "imply":
        return alg.Implies(value(alg, s[1]), value(alg, s[2]))
    raise ValueError(f"unexpected formula {s}")


def same_meaning(ctx, obj, spec, what):
    got = read(obj)
    ctx.valid(lambda alg: value(alg, got) == value(alg, spec), f"{what} means {got}, prescribed {spec}")


def gen(ctx, max_ops=2, arity=0):
    return Gen(ctx, [], [], max_ops=max_ops, eq=False, arity=arity)


def constructors(ctx):
    f = gen(ctx).formula("f", 2)
    same_meaning(ctx, build(f), f, "the constructed formula")


def constructors_deep(ctx):
    f = gen(ctx).formula("f", 3)
    same_meaning(ctx, build(f), f, "the constructed formula")


def wide(ctx):
    """One n-ary connective over leaves, negated leaves and pairs."""
    op = ctx.choice("op", ["and", "or"])
    n = ctx.pick("n", 5 if ctx.thorough else 4)
    ops = []
    for i in range(n):
        k = ctx.choice(f"k{i}", ["leaf", "not", "same", "other", "single", "empty"])
        a = ("pred", ctx.name(f"p{i}"), ())
        if k == "leaf":
            ops.append(a)
        elif k == "not":
            ops.append(("not", a))
        elif k == "single":
            ops.append((op, (a,)))
        elif k == "empty":
            ops.append((ctx.choice(f"e{i}", ["and", "or"]), ()))
        else:
            o = op if k == "same" else {"and": "or", "or": "and"}[op]
            ops.append((o, (a, ("pred", ctx.name(f"q{i}"), ()))))
    f = (op, tuple(ops))
    same_meaning(ctx, build(f), f, "the constructed formula")


def nested(ctx):
    """Repeated operands: every position refers to one of two subformulas."""
    a, b = ("pred", ctx.name("a"), ()), ("pred", ctx.name("b"), ())
    pool = [a, b, ("not", a), ("and", (a, b)), ("or", (a, b)), ("or", (b, a)), ("imply", a, b)]
    xs = [ctx.choice(f"x{i}", pool) for i in range(3)]
    op, op2 = ctx.choice("op", ["and", "or"]), ctx.choice("op2", ["and", "or"])
    f = (op, (xs[0], (op2, (xs[1], xs[2])), xs[0]))
    same_meaning(ctx, build(f), f, "the constructed formula")


def operators(ctx):
    """Expressions over & | ~ and >>."""

    def go(lb, depth):
        k = ctx.choice(lb, ["leaf"] + (["&", "|", "~", ">>"] if depth else []))
        if k == "leaf":
            s = ("pred", ctx.name(lb + "p"), ())
            return s, build(s)
        if k == "~":
            s, o = go(lb + "n", depth - 1)
            return ("not", s), ~o
        s, o = go(lb + "l", depth - 1)
        t, q = go(lb + "r", depth - 1)
        if k == "&":
            return ("and", (s, t)), o & q
        if k == "|":
            return ("or", (s, t)), o | q
        return ("imply", s, t), o >> q

    s, o = go("e", 2)
    same_meaning(ctx, o, s, "the expression")
    again = ctx.ok(parse_domain_text, text(o), what="parsing the printed expression")
    same_meaning(ctx, list(again.actions)[0].precondition, s, "the expression after printing and parsing")


def text(obj):
    return f"(define (domain dd) {FULL_REQS} (:action aa :parameters (?xx) :precondition {obj}))"


def instantiated(ctx):
    """Instantiation with the identity, printing and parsing, of formulas over atoms p(x)."""
    from pddl.logic.terms import Variable

    x = ("v", fixed(1), NOTYPE)
    g = Gen(ctx, [], [x], max_ops=2, eq=False, arity=1)
    f = g.formula("f", 2)
    v = Variable(fixed(1))
    o = build(f).instantiate(ctx.choice("map", [{}, {v: v}]))
    same_meaning(ctx, o, f, "the formula instantiated with the identity")


def typed(ctx):
    """Atoms that differ only in the types or the kind of a term are different atoms."""
    op, op2 = ctx.choice("op", ["and", "or"]), ctx.choice("op2", ["and", "or", "not", "none"])
    ts = ctx.names("t", 2)
    pool = [("v", fixed(1), NOTYPE), ("v", fixed(1), frozenset([ts[0]])), ("v", fixed(1), frozenset([ts[1]])), ("c", fixed(1)),
            ("v", ctx.name("v"), NOTYPE)]
    p = ctx.name("p")
    a, b, c = [("pred", p, (ctx.choice(f"x{i}", pool),)) for i in range(3)]
    inner = {"and": ("and", (b, c)), "or": ("or", (b, c)), "not": ("not", b), "none": b}[op2]
    f = (op, (a, inner, c))
    same_meaning(ctx, build(f), f, "the constructed formula")
    same_meaning(ctx, build(f).instantiate({}), f, "the formula instantiated with nothing")


def reparsed(ctx):
    f = gen(ctx).formula("f", 2)
    d = ctx.ok(parse_domain_text, text(build(f)), what="parsing the printed formula")
    same_meaning(ctx, list(d.actions)[0].precondition, f, "the formula after printing and parsing")


def deep(ctx):
    """Chains of four (thorough: five) connectives over three symbolic atoms, built by constructors or operators, also reparsed."""
    at = [("pred", n, ()) for n in ctx.names("p", 3)]
    ops = ctx.flag("operators")
    f = at[0]
    o = build(f)
    for i in range(5 if ctx.thorough else 4):
        a = at[(i + 1) % 3]
        k = ctx.choice(f"k{i}", ["not", "and", "dna", "or", "implies", "implied"])
        b = build(a)
        g = {"not": ("not", f), "and": ("and", (f, a)), "dna": ("and", (a, f)), "or": ("or", (a, f)), "implies": ("imply", f, a), "implied": ("imply", a, f)}[k]
        if ops:
            o = {"not": lambda: ~o, "and": lambda: o & b, "dna": lambda: b & o, "or": lambda: b | o, "implies": lambda: o >> b, "implied": lambda: b >> o}[k]()
        f = g
    if not ops:
        o = build(f)
    same_meaning(ctx, o, f, "the formula")
    if ops:
        d = ctx.ok(parse_domain_text, text(o), what="parsing the printed formula")
        same_meaning(ctx, list(d.actions)[0].precondition, f, "the formula after printing and parsing")


def many(ctx):
    """Conjunctions and disjunctions of 5 to 8 operands: symbolic atoms, some repeated, and one other operand anywhere."""
    op = ctx.choice("op", ["and", "or"])
    a = [("pred", n, ()) for n in ctx.names("p", 3)]
    xs = [a[0], a[1], a[0], ("not", a[1]), a[2], a[2], ("not", a[0]), a[1]][: 5 + ctx.pick("n", 4)]
    k = ctx.choice("other", ["none", "same", "dual", "empty", "imply"])
    if k != "none":
        dual = {"and": "or", "or": "and"}[op]
        x = {"same": (op, (a[0], (op, (a[1], a[2])))), "dual": (dual, (a[0], (op, (a[1], ("not", a[2]))), a[1])), "empty": (dual, ()), "imply": ("imply", a[2], a[1])}[k]
        xs.insert(ctx.pick("at", len(xs) + 1), x)
    f = (op, tuple(xs))
    same_meaning(ctx, build(f), f, "the formula")
    o = build(xs[0])
    for x in xs[1:]:
        o = o & build(x) if op == "and" else o | build(x)
    same_meaning(ctx, o, f, "the formula built by operators")


def mixed(ctx):
    """Operators applied to formulas built by constructors, also from what printing and parsing gives."""
    at = [("pred", n, ()) for n in ctx.names("p", 3)]

    def operand(lb):
        a, b = at[0], at[1 + ctx.pick(lb + ".b", 2)]
        return ctx.choice(lb, [a, b, ("not", a), ("and", (a, b)), ("or", (a, b)), ("imply", a, b), ("and", ()), ("or", ()), ("not", ("and", (a, b))),
                               ("not", ("imply", b, a)), ("imply", ("not", a), ("or", (b, a))), ("imply", ("and", ()), b)])

    s = operand("l")
    o = build(s)
    k = ctx.choice("k", ["&", "|", "~", ">>"])
    if k == "~":
        s, o = ("not", s), ~o
    else:
        t = operand("r")
        q = build(t)
        if ctx.flag("inverted"):
            t, q = ("not", t), ~q
        s, o = {"&": ("and", (s, t)), "|": ("or", (s, t)), ">>": ("imply", s, t)}[k], {"&": lambda: o & q, "|": lambda: o | q, ">>": lambda: o >> q}[k]()
    if ctx.flag("again"):
        s, o = ("not", s), ~o
    same_meaning(ctx, o, s, "the expression")


SCENARIOS = [
    Scenario("mixed", mixed, "~, &, | and >> applied to twelve kinds of formulas made by constructors (implications, empty and negated ones) over 3 symbolic atoms"),
    Scenario("deep", deep, "chains of 4 (thorough: 5) connectives over 3 symbolic atoms, by constructors, or by operators and then printed and parsed"),
    Scenario("many", many, "5 to 8 operands over 3 symbolic atoms with one nested, empty or other operand anywhere, by constructors and operators"),
    Scenario("constructors", constructors, "formulas of connective depth 2 with 0 to 2 operands, atoms with symbolic names (possibly equal)"),
    Scenario("constructors-deep", constructors_deep, "the same of depth 3", quick=False),
    Scenario("wide", wide, "conjunctions and disjunctions of at most 3 (thorough: 4) operands: leaves, negations, pairs, singletons, empty ones"),
    Scenario("nested", nested, "repeated operands in nested conjunctions and disjunctions over two symbolic atoms"),
    Scenario("operators", operators, "expressions over & | ~ >> of depth 2, evaluated directly and after printing and parsing"),
    Scenario("instantiated", instantiated, "formulas of depth 2 over unary atoms, instantiated with the identity or nothing"),
    Scenario("typed", typed, "two connectives over atoms whose term is a variable with one of two symbolic types, without type, or a constant"),
    Scenario("reparsed", reparsed, "formulas of depth 2, printed and parsed as a precondition"),
]
