"""C12: a type hierarchy is accepted exactly when it is well-formed."""

from hx.lib import R, Scenario, fixed


def well_formed(items, reqs_typing):
    """items: list of (type, parent or None) with distinct types."""
    if any(p is not None for _, p in items) and not reqs_typing():
        return False
    for t, p in items:
        if t == "object" and p is not None:
            return False
    for t, _ in items:
        cur, n = t, 0
        while cur is not None:
            n += 1
            if n > len(items) + 1:
                return False
            nxt = None
            for u, p in items:
                if u == cur:
                    nxt = p
            cur = nxt
    return True


def typing_in(reqs):
    return lambda: any(r in reqs for r in R("TYPING", "ADL"))


def run(ctx, items, reqs):
    from pddl.core import Domain
    from pddl.exceptions import PDDLValidationError

    given = dict(items)
    ok, d = ctx.attempt(Domain, "dd", requirements=reqs, types=given)
    want = well_formed(items, typing_in(reqs))
    if want:
        ctx.accepted(ok, d, f"the hierarchy {items}")
        ctx.check(len(d.types) == len(items), f"stored {ctx.show(d.types)} for {items}")
        ctx.check_eq(frozenset(d.types.items()), frozenset(items), "stored hierarchy")
    else:
        ctx.rejected(ok, f"the hierarchy {items}")
        ctx.check(isinstance(d, PDDLValidationError), f"{items} is rejected with {type(d).__name__}")


def universe():
    return list(R("TYPING", "ADL", "STRIPS", "FLUENTS", "QUANTIFIED_PRECONDITION"))


def reqs_of(ctx):
    return ctx.reqs("req", universe())


def hierarchy(ctx, n):
    ts = ctx.distinct_names("t", n)
    items = []
    for i in range(n):
        k = ctx.choice(f"k{i}", ["none", "name", "object"])
        items.append((ts[i], {"none": None, "object": "object"}.get(k, None) if k != "name" else ctx.name(f"up{i}")))
    return items


def small(ctx):
    run(ctx, hierarchy(ctx, ctx.pick("n", 4)), reqs_of(ctx))


def with_object(ctx):
    """'object' itself is declared, in every place of the dictionary."""
    items = hierarchy(ctx, ctx.pick("n", 3))
    up = ctx.choice("object", ["none", "name", "object"])
    up = {"none": None, "object": "object", "name": None}[up] if up != "name" else ctx.name("up.object")
    items.insert(ctx.pick("at", len(items) + 1), ("object", up))
    run(ctx, items, reqs_of(ctx))


def larger(ctx):
    """Parents among the declared types: chains, trees and cycles of every shape."""
    n = 5 if ctx.thorough else 4
    ts = ctx.distinct_names("t", n)
    order = ctx.pick("rev", 2)
    items = []
    for i in range(n):
        k = ctx.pick(f"up{i}", n + 1)
        items.append((ts[i], None if k == n else ts[k]))
    if order:
        items.reverse()
    run(ctx, items, R("TYPING"))


def symbolic_parents(ctx):
    """All parents symbolic: every coincidence of parents and types."""
    n = 4
    ts = ctx.distinct_names("t", n)
    run(ctx, [(t, ctx.name(f"up{i}")) for i, t in enumerate(ts)], R("TYPING"))


def textual(ctx):
    """The same through the parser (with the typing requirement)."""
    from hx.lib import parse_domain_text

    n = 3
    ts = ctx.distinct_names("t", n)
    items = [(t, ctx.name(f"up{i}") if ctx.flag(f"has{i}") else None) for i, t in enumerate(ts)]
    decl = " ".join(f"{t} - {u}" for t, u in items if u is not None) + " " + " ".join(t for t, u in items if u is None)
    ok, d = ctx.attempt(parse_domain_text, f"(define (domain dd) (:requirements :typing) (:types {decl}))")
    if well_formed(items, lambda: True):
        ctx.accepted(ok, d, f"the hierarchy {decl}")
        ctx.check_eq(frozenset(d.types.items()), frozenset(items), "stored hierarchy")
    else:
        ctx.rejected(ok, f"the hierarchy {decl}")


def long(ctx):
    """Chains of 5 to 9 types, closed to a cycle at any of them, ending at 'object' or nowhere, beside other types, in several orders."""
    n = 5 + ctx.pick("n", 5)
    ts = [fixed(i) for i in range(n)]
    ts[ctx.pick("symbolic", n)] = ctx.name("t")
    end = ctx.choice("end", ["none", "object", "undeclared"] + list(range(n)))
    last = {"none": None, "object": "object", "undeclared": ctx.name("up")}.get(end, None) if not isinstance(end, int) else ts[end]
    items = [(t, ts[i + 1] if i + 1 < n else last) for i, t in enumerate(ts)]
    k = ctx.choice("beside", ["nothing", "alone", "tree", "object"])
    more = {"nothing": [], "alone": [("alone", None)], "tree": [("left", ts[2]), ("right", ts[2]), ("below", "left")], "object": [("object", None)]}[k]
    for t, _ in items:
        for u, _ in more:
            ctx.assume(t != u)
    o = ctx.pick("order", 4)
    items = [items + more, more + items[::-1], items[n // 2 :] + more + items[: n // 2], items[::2] + more + items[1::2]][o]
    if k != "object" and ctx.flag("text"):
        from hx.lib import parse_domain_text

        decl = " ".join(f"{t} - {u}" for t, u in items if u is not None) + " " + " ".join(t for t, u in items if u is None)
        ok, d = ctx.attempt(parse_domain_text, f"(define (domain dd) (:requirements :typing) (:types {decl}))")
        return ctx.check(ok == well_formed(items, lambda: True), f"the hierarchy {decl} is {'accepted' if ok else 'rejected'}")
    run(ctx, items, R("TYPING"))


SCENARIOS = [
    Scenario("long", long, "chains of 5 to 9 types with every end or cycle, one name symbolic, with other types and in 4 orders"),
    Scenario("small", small, "at most 3 types with symbolic distinct names, each with no parent, a symbolic parent or 'object'; any subset of 5 requirements"),
    Scenario("with-object", with_object, "'object' declared among at most 2 other types, with any parent"),
    Scenario("larger", larger, "every hierarchy over 4 (thorough: 5) types, in two orders"),
    Scenario("symbolic", symbolic_parents, "4 types whose parents are arbitrary symbolic names"),
    Scenario("text", textual, "3 types with optional symbolic parents, through the parser"),
]
