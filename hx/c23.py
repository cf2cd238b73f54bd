"""C23: derived predicates conform to the declared predicate."""

from hx.lib import NOTYPE, Scenario, dedup, fixed, parse_domain_text, read, types_text

REQ = "(:requirements :typing :derived-predicates :adl)"


def up(t, parent):
    """t and everything above it; None when the hierarchy has a cycle above t."""
    out = []
    while t is not None and t not in out:
        out.append(t)
        t = parent.get(t)
    return out


def cyclic(parent):
    for t in parent:
        seen = []
        while t is not None:
            if t in seen:
                return True
            seen.append(t)
            t = parent.get(t)
    return False


def conforms(given, declared, parent):
    """given and declared: lists of type indexes or "object"."""
    if not given or not declared or "object" in declared:
        return True
    return all(any(u in declared for u in up(t, parent)) for t in given)


def hierarchy(ctx, n, label="up"):
    """parent of each type: None, object or another type, itself included."""
    return {i: ctx.choice(f"{label}{i}", [None, "object"] + list(range(n))) for i in range(n)}


def hierarchy_text(names, parent):
    nm = lambda t: "object" if t == "object" else names[t]  # noqa: E731
    items = [(t, p) for t, p in parent.items() if p is not None] + [(t, p) for t, p in parent.items() if p is None]
    return "(:types " + " ".join(f"{nm(t)} - {nm(p)}" if p is not None else nm(t) for t, p in items) + ")" if items else ""


def typed(names, ts):
    return " - " + types_text(["object" if t == "object" else names[t] for t in ts]) if ts else ""


def outcome(ctx, text, want, what):
    ok, d = ctx.attempt(parse_domain_text, text)
    if want:
        ctx.accepted(ok, d, f"{what}: {text}")
        return d
    ctx.rejected(ok, f"{what}: {text}")
    return None


def tset(names, ts):
    return frozenset(["object" if t == "object" else names[t] for t in ts])


def one_argument(ctx):
    """Every hierarchy, every single type, object, no type or pair of types on both sides."""
    n = 4 if ctx.thorough else 3
    parent = hierarchy(ctx, n)
    names = ctx.distinct_names("t", n)
    opts = [(), ("object",)] + [(i,) for i in range(n)] + [(i, j) for i in range(n) for j in range(i + 1, n)]
    given, decl = ctx.choice("given", opts), ctx.choice("declared", opts)
    judge(ctx, names, parent, [given], [decl])


def deep(ctx):
    """Single types only, longer hierarchies."""
    n = 5 if ctx.thorough else 4
    parent = hierarchy(ctx, n)
    names = ctx.distinct_names("t", n)
    # by symmetry the declared type is the first
    judge(ctx, names, parent, [(ctx.pick("given", n),)], [(0,)])


def pairs(ctx):
    """either on both sides over a hierarchy of three."""
    n = 3
    parent = {0: ctx.choice("up0", [None, "object", 1]), 1: ctx.choice("up1", [None, 2]), 2: ctx.choice("up2", [None, "object"])}
    names = ctx.distinct_names("t", n)
    opts = [(0, 1), (0, 2), (1, 2), (0, 1, 2), (2,), (0, "object")]
    judge(ctx, names, parent, [ctx.choice("given", opts)], [ctx.choice("declared", opts)])


def positions(ctx):
    """Two or three arguments: each is compared with its own position."""
    k = 2 + ctx.pick("arity", 2)
    parent = {0: None, 1: 0}
    names = ctx.distinct_names("t", 2)
    opts = [(), (0,), (1,)]
    judge(ctx, names, parent, [ctx.choice(f"given{i}", opts) for i in range(k)], [ctx.choice(f"declared{i}", opts) for i in range(k)])


def judge(ctx, names, parent, given, decl):
    # a typed list cannot give types after an untyped item
    for ts in (given, decl):
        ctx.assume(not any(len(ts[i]) == 0 and len(ts[i + 1]) > 0 for i in range(len(ts) - 1)))
    p, q = ctx.distinct_names("p", 2)
    xs, ys = ctx.distinct_names("x", len(given)), ctx.distinct_names("y", len(decl))
    if len(given) > 1 and given[0] and all(g == given[0] for g in given) and ctx.flag("one variable"):
        xs = [xs[0]] * len(given)
    text = (f"(define (domain dd) {REQ} {hierarchy_text(names, parent)}"
            f"(:predicates ({p} {' '.join('?' + y + typed(names, t) for y, t in zip(ys, decl))}) ({q}))"
            f"(:derived ({p} {' '.join('?' + x + typed(names, t) for x, t in zip(xs, given))}) (and ({q}) ({p} {' '.join('?' + x for x in xs)}))))")
    want = not cyclic(parent) and all(conforms(g, d, parent) for g, d in zip(given, decl))
    d = outcome(ctx, text, want, "derived predicate")
    if d is not None:
        ctx.check(len(d.derived_predicates) == 1, "the derived predicate is lost")
        got = read(list(d.derived_predicates)[0])
        terms = tuple([("v", x, tset(names, g if g else t)) for x, g, t in zip(xs, given, decl)])
        ctx.check(got[1] == ("pred", p, terms), f"{text}: the derived predicate reads {ctx.show(got[1])}, expected {ctx.show(terms)}")
        ctx.check(got[2] == ("and", (("pred", q, ()), ("pred", p, terms))), f"{text}: the condition reads {ctx.show(got[2])}")


def arity(ctx):
    """Name and number of arguments."""
    p, q = ctx.name("p"), ctx.name("q")
    a, b = ctx.pick("declared", 4), ctx.pick("given", 4)
    xs, ys = ctx.distinct_names("x", 3), ctx.distinct_names("y", 3)
    text = (f"(define (domain dd) {REQ} (:predicates ({p} {' '.join('?' + y for y in ys[:a])}))"
            f"(:derived ({q} {' '.join('?' + x for x in xs[:b])}) (or)))")
    d = outcome(ctx, text, p == q and a == b, "derived predicate")
    if d is not None:
        got = read(list(d.derived_predicates)[0])
        ctx.check(got[1] == ("pred", q, tuple([("v", x, NOTYPE) for x in xs[:b]])), f"{text} reads {ctx.show(got)}")


def several(ctx):
    """Two declared predicates and two derived ones: each is compared with the declaration of its name."""
    p, q, r, s = ctx.names("p", 4)
    ctx.assume(not p == q)
    t, u = ctx.distinct_names("t", 2)
    ta, tb = ctx.choice("first", ["", t, u]), ctx.choice("second", ["", t])
    ga, gb = ctx.choice("given", ["", t, u]), ctx.choice("given second", ["", u])
    ty = lambda x: f" - {x}" if x else ""  # noqa: E731
    text = (f"(define (domain dd) {REQ} (:types {u} - {t} {t}) (:predicates ({p} ?x{ty(ta)}) ({q} ?x{ty(tb)}))"
            f"(:derived ({r} ?y{ty(ga)}) ({q} ?y)) (:derived ({s} ?z{ty(gb)}) ({p} ?z)))")

    def fine(n, g):
        if n == p:
            d = ta
        elif n == q:
            d = tb
        else:
            return False
        return not g or not d or d == t or g == d

    d = outcome(ctx, text, fine(r, ga) and fine(s, gb), "derived predicates")
    if d is not None:
        got = dedup([x.predicate.name for x in d.derived_predicates])
        ctx.check(len(got) == len(dedup([r, s])), f"{text}: derived predicates {ctx.show(got)}")


def undeclared(ctx):
    """No predicates or no types declared at all."""
    p, q, t = ctx.names("p", 3)
    preds = ctx.choice("predicates", ["", f"(:predicates ({p} ?x))", f"(:predicates ({p} ?x - object))"])
    types = ctx.flag("types")
    g = ctx.choice("given", ["", " - object"])
    text = f"(define (domain dd) {REQ} {'(:types ' + t + ')' if types else ''} {preds} (:derived ({q} ?y{g}) (or)))"
    outcome(ctx, text, preds != "" and p == q, "derived predicate")


def chain(ctx):
    """A type up to nine steps below the declared one, also above a fork, with several types on both sides."""
    n = 10
    ts = [fixed(i) for i in range(n)]
    ts[ctx.pick("symbolic", n)] = ctx.name("t")
    parent = {i: i + 1 if i + 1 < n else None for i in range(n)}
    kind = ctx.choice("kind", ["chain", "object", "split", "cycle"])
    if kind == "object":
        parent[n - 1] = "object"
    elif kind == "split":
        parent[ctx.pick("cut", n - 1)] = None
    elif kind == "cycle":
        parent[n - 1] = ctx.pick("back", n)
    if ctx.flag("reversed"):
        parent = {i: parent[i] for i in reversed(range(n))}
    given = ctx.choice("given", [(0,), (1,), (4,), (9,), (0, 5), (3, 2, 6)])
    decl = ctx.choice("declared", [(i,) for i in range(n)] + [(2, 8), (7, 1, 5), ("object",)])
    judge(ctx, ts, parent, [given], [decl])


def last_of_many(ctx):
    """Four or five arguments, one of which does not conform."""
    n = 4 + ctx.pick("n", 2)
    i = ctx.pick("at", n)
    names = ctx.distinct_names("t", 3)
    parent = {0: None, 1: 0, 2: None}
    given, decl = [(1,)] * n, [(0,), (1,), (0, 2), (0,), ("object",)][:n]
    given[i] = ctx.choice("given", [(0,), (1,), (2,), (1, 2), (0, 1, 2), ("object",)])
    judge(ctx, names, parent, given, decl)


SCENARIOS = [
    Scenario("chain", chain, "chains of 10 types, closed, cut or ending at object, one name symbolic; 6 given and 13 declared types"),
    Scenario("last-of-many", last_of_many, "4 or 5 arguments, the types of one vary"),
    Scenario("one-argument", one_argument, "every hierarchy (cycles included) of 3 (thorough: 4) types; no, one or two types given and declared; symbolic names"),
    Scenario("deep", deep, "every hierarchy (cycles included) of 4 (thorough: 5) types, one type given and declared"),
    Scenario("pairs", pairs, "either of 2 or 3 types on both sides, chains of 3 types"),
    Scenario("positions", positions, "2 or 3 arguments, each untyped or one of two types, given and declared"),
    Scenario("arity", arity, "declared and derived predicates of arity 0 to 3 with symbolic names that may coincide"),
    Scenario("several", several, "two declared and two derived predicates whose symbolic names may coincide in any way"),
    Scenario("undeclared", undeclared, "no predicates, no types, or only object"),
]
