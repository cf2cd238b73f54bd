"""C17: equality is structural and hashing agrees with it."""

from hx.lib import (CMP, NOTYPE, NUM, R, Gen, Scenario, build, build_term, build_vars, fixed, norm)

N = fixed(1)


def agree(ctx, a, b, want, what):
    """a == b exactly when want; hashes, sets and dictionaries agree."""
    ctx.check(a == a and b == b and not (a != a), f"{what}: not equal to itself")
    ctx.check((a == b) == want, f"{what}: {ctx.show(a)} == {ctx.show(b)} is {not want}")
    ctx.check((b == a) == want, f"{what}: equality of {ctx.show(a)} and {ctx.show(b)} is not symmetric")
    ctx.check((a != b) == (not want), f"{what}: != disagrees with == on {ctx.show(a)} and {ctx.show(b)}")


def hashes(ctx, a, b, want, what, before=None):
    if before:
        hash(a)
    agree(ctx, a, b, want, what)
    ha, hb = hash(a), hash(b)
    ctx.check(hash(a) == ha and hash(b) == hb, f"{what}: the hash changes")
    if want:
        ctx.check(ha == hb, f"{what}: equal objects {ctx.show(a)} and {ctx.show(b)} have different hashes")
    ctx.check((b in {a}) == want and (a in {b: 1}) == want, f"{what}: membership disagrees with equality: {ctx.show(a)}, {ctx.show(b)}")
    ctx.check(len({a, b}) == (1 if want else 2), f"{what}: the set of both has the wrong size")
    agree(ctx, a, b, want, what + " after hashing")


# ------------------------------------------------------------------------------------------------- terms
def term(ctx, lb, types=2):
    if ctx.flag(lb + ".const"):
        return ("c", ctx.name(lb + ".n")) + ((ctx.name(lb + ".t0"),) if ctx.flag(lb + ".typed") else ())
    ts = ctx.names(lb + ".t", ctx.pick(lb + ".k", types + 1))
    return ("v", ctx.name(lb + ".n"), frozenset(ts))


def tkey(t):
    return t[:2] if t[0] == "c" else t


def terms(ctx):
    ctx.canon_hash()
    a, b = term(ctx, "a"), term(ctx, "b")
    hashes(ctx, build_term(a), build_term(b), tkey(a) == tkey(b), "terms", ctx.flag("before"))


def atoms(ctx):
    """Predicates, functions, equalities and numbers with up to two terms."""
    ctx.canon_hash()

    def one(lb):
        k = ctx.choice(lb + ".kind", ["pred", "fn", "eq", "val"])
        if k == "val":
            n = ctx.choice(lb + ".num", ["int", 0.0, 1.0, 0.5])
            return ("val", ctx.int(lb + ".i") if n == "int" else ctx.number(n))
        n = 2 if k == "eq" else ctx.pick(lb + ".ar", 3)
        ts = tuple(("c" if ctx.flag(f"{lb}.c{i}") else "v", ctx.name(f"{lb}.x{i}")) for i in range(n))
        ts = tuple(t if t[0] == "c" else t + (NOTYPE,) for t in ts)
        if k == "eq":
            return ("eq",) + ts
        return (k, ctx.name(lb + ".p"), ts)

    a, b = one("a"), one("b")
    hashes(ctx, build(a), build(b), a == b, "atoms", ctx.flag("before") if ctx.thorough else False)


def typed_atoms(ctx):
    """The types of the variables of an atom count, the types of its constants do not."""
    ctx.canon_hash()
    k = ctx.choice("kind", ["pred", "fn", "eq"])

    def one(lb):
        t = term(ctx, lb)
        return t, ("eq", t, ("c", N)) if k == "eq" else (k, N, (("c", N), t))

    (t, a), (u, b) = one("a"), one("b")
    hashes(ctx, build(a), build(b), tkey(t) == tkey(u), k)


# ------------------------------------------------------------------------------------------------- composites
def shapes():
    """name -> (number of leaves, constructor of a specification from the leaves, kind of leaf)."""
    out = {
        "atom": (1, lambda x: x, "p"),
        "not": (1, lambda x: ("not", x), "p"),
        "empty and": (0, lambda: ("and", ()), "p"),
        "empty or": (0, lambda: ("or", ()), "p"),
        "empty oneof": (0, lambda: ("oneof", ()), "p"),
        "oneof 1": (1, lambda x: ("oneof", (x,)), "p"),
        "not not": (1, lambda x: ("not", ("not", x)), "p"),
        "forall": (1, lambda x: ("forall", (), x), "p"),
        "exists": (1, lambda x: ("exists", (), x), "p"),
        "feff": (1, lambda x: ("feff", (), x), "p"),
        "value": (0, lambda: ("val", 3), "p"),
        "function": (1, lambda x: ("fn", x[1], ()), "p"),
        "minus 1": (1, lambda x: ("arith", "-", (x,)), "f"),
        "nested minus": (3, lambda x, y, z: ("arith", "-", (("arith", "-", (x, y)), z)), "f"),
        "minus nested": (3, lambda x, y, z: ("arith", "-", (x, ("arith", "-", (y, z)))), "f"),
        "not and": (2, lambda x, y: ("not", ("and", (x, y))), "p"),
        "and of or": (3, lambda x, y, z: ("and", (x, ("or", (y, z)))), "p"),
        "or of and": (3, lambda x, y, z: ("or", (("and", (x, y)), z)), "p"),
        "and of and": (3, lambda x, y, z: ("and", (x, ("and", (y, z)))), "p"),
        "when not": (2, lambda x, y: ("when", ("not", x), y), "p"),
        "comparison of sum": (3, lambda x, y, z: ("cmp", "<", ("arith", "+", (x, y)), z), "f"),
    }
    for k in ("and", "or", "oneof"):
        out[k + " 2"] = (2, lambda x, y, k=k: (k, (x, y)), "p")
        out[k + " 3"] = (3, lambda x, y, z, k=k: (k, (x, y, z)), "p")
    for k in ("imply", "when"):
        out[k] = (2, lambda x, y, k=k: (k, x, y), "p")
    for k in CMP:
        out["cmp " + k] = (2, lambda x, y, k=k: ("cmp", k, x, y), "f")
    for k in NUM:
        out["num " + k] = (2, lambda x, y, k=k: ("num", k, x, y), "f")
    for k in "+-*/":
        out["arith " + k] = (2, lambda x, y, k=k: ("arith", k, (x, y)), "f")
    for k in "+*":
        out["arith 3 " + k] = (3, lambda x, y, z, k=k: ("arith", k, (x, y, z)), "f")
    return out


def leaves(ctx, lb, n, kind):
    if kind == "p":
        return [("pred", ctx.name(f"{lb}{i}"), ()) for i in range(n)]
    return [("fn", ctx.name(f"{lb}{i}"), ()) for i in range(n)]


def composite(ctx):
    """Every pair of shapes, all leaves symbolic."""
    ctx.canon_hash()
    sh = shapes()
    ka, kb = ctx.choice("first", list(sh)), ctx.choice("second", list(sh))
    if kb < ka:
        return
    na, fa, la = sh[ka]
    nb, fb, lb = sh[kb]
    if ka == kb:
        a, b = fa(*leaves(ctx, "a", na, la)), fb(*leaves(ctx, "b", nb, lb))
    else:  # distinct shapes: the leaves of the second are those of the first where they exist
        x = leaves(ctx, "a", max(na, nb), la)
        y = x if la == lb else [(("pred" if lb == "p" else "fn"),) + v[1:] for v in x]
        a, b = fa(*x[:na]), fb(*y[:nb])
    hashes(ctx, build(a), build(b), norm(a) == norm(b), f"{ka} and {kb}", ctx.flag("before") if ka == kb else False)


def variables(ctx):
    """Quantified variables are a set; every quantifier."""
    ctx.canon_hash()
    kinds = ["forall", "exists", "feff"]
    ka, kb = ctx.choice("first", kinds), ctx.choice("second", kinds)

    def vs(lb):
        n = ctx.pick(lb + ".n", 3)
        return tuple((ctx.name(f"{lb}{i}"), frozenset([ctx.name(f"{lb}{i}t")]) if ctx.flag(f"{lb}{i}.typed") else NOTYPE)
                     for i in range(n))

    p = ("pred", N, ())
    if ka != kb:
        v = vs("a")
        a, b = (ka, v, p), (kb, v, p)
    else:
        a, b = (ka, vs("a"), p), (kb, vs("b"), p)
    hashes(ctx, build(a), build(b), norm(a) == norm(b), f"{ka} and {kb}")


def permuted(ctx):
    """The same variables or types in another order, or repeated, give an equal object."""
    ctx.canon_hash()
    k = ctx.choice("kind", ["forall", "exists", "feff"])
    ns = ctx.names("v", 3)
    vs = [(n, NOTYPE) for n in ns]
    order = ctx.choice("order", [(0, 1, 2), (2, 1, 0), (1, 0, 2), (0, 0, 1, 2), (2, 0, 1, 2)])
    ws = [vs[i] for i in order]
    hashes(ctx, build((k, vs, ("pred", N, ()))), build((k, ws, ("pred", N, ()))), True, f"{k} with reordered variables")
    a, b = ("v", N, ctx.names("t", 2)), None
    from pddl.logic.terms import Variable

    if not a[2][0] == a[2][1]:
        hashes(ctx, Variable(N, list(a[2])), Variable(N, list(reversed(a[2]))), True, "variables with reordered types")


def around(k):
    """The formulas that an effect or a condition can be a part of."""
    from pddl.logic import base as b
    from pddl.logic.effects import Forall, When
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Variable

    p = Predicate(N)
    out = {
        "nothing": lambda f: f, "and": lambda f: b.And(p, f), "forall": lambda f: Forall(f, [Variable(N)]), "when": lambda f: When(p, f),
        "oneof": lambda f: b.OneOf(f, p),
    }
    if k != "feff":
        out.update({
            "or": lambda f: b.Or(f, p), "not": b.Not, "imply": lambda f: b.Imply(p, f), "condition": lambda f: When(f, p),
            "exists": lambda f: b.ExistsCondition(f, [Variable(N)]), "for all": lambda f: b.ForallCondition(f, [Variable(N)]),
            "derived": lambda f: DerivedPredicate(p, f),
        })
    return out


def iteration(ctx):
    """Equal objects have equal hashes and texts whatever the iteration order of the sets in them."""
    from pddl.logic.base import ExistsCondition, ForallCondition
    from pddl.logic.effects import Forall
    from pddl.logic.predicates import EqualTo, Predicate
    from pddl.logic.terms import Constant, Variable

    ctx.canon_hash()
    ctx.permute(True)
    x, y = ctx.distinct_names("x", 2)
    k = ctx.choice("kind", ["variable", "atom", "equality", "forall", "exists", "feff", "bound", "domain", "action"])

    within = ctx.choice("within", list(around(k))) if k in ("forall", "exists", "feff", "atom", "equality", "bound") else "nothing"

    def make(x, y):
        return around(k)[within](inner(x, y)) if k not in ("domain", "action", "variable") else inner(x, y)

    def inner(x, y):
        if k in ("forall", "exists", "feff"):
            cls = {"forall": ForallCondition, "exists": ExistsCondition, "feff": Forall}[k]
            return cls(Predicate(N), [Variable(x), Variable(y)])
        v = Variable(N, [x, y])
        if k == "variable":
            return v
        if k == "atom":
            return Predicate(N, v, Constant(N))
        if k == "equality":
            return EqualTo(v, Constant(N))
        if k == "bound":
            return ForallCondition(~Predicate(N, v), [v])
        from pddl.action import Action

        a = Action(N, [v], precondition=Predicate(N, v), effect=ForallCondition(Predicate(N, v), [v]))
        if k == "action":
            return a
        from pddl.core import Domain

        return Domain(N, requirements=R("TYPING"), types={x: None, y: None}, predicates=[Predicate(N, v)], actions=[a])

    for i in range(1 if ctx.symbolic else 60):  # the real sets are only seldom in another order
        n, m = (x, y) if i == 0 else (f"{x}{i}", f"{y}{i}")
        a, b = make(n, m), make(m, n)
        if k == "domain":
            agree(ctx, a, b, True, "domains built in two orders")
        else:
            hashes(ctx, a, b, True, f"{k} built in two orders ({within})")
        ctx.check(str(a) == str(b), f"{k} built in two orders: prints as {ctx.show(str(a))} and {ctx.show(str(b))}")


def derived(ctx):
    from pddl.logic.functions import Metric
    from pddl.logic.predicates import DerivedPredicate

    ctx.canon_hash()
    k = ctx.choice("kind", ["derived", "metric", "derived and atom"])
    if k == "metric":
        oa, ob = [ctx.choice(x, ["minimize", "maximize"]) for x in ("oa", "ob")]
        fa, fb = [("fn", ctx.name(x), ()) if ctx.flag(x + ".fn") else ("val", ctx.int(x + ".i")) for x in ("fa", "fb")]
        hashes(ctx, Metric(build(fa), oa), Metric(build(fb), ob), oa == ob and fa == fb, "metrics")
        return
    p, q = ("pred", ctx.name("p"), ()), ("pred", ctx.name("q"), ())
    c, e = ("pred", ctx.name("c"), ()), ("pred", ctx.name("e"), ())
    if ctx.flag("not"):
        c = ("not", c)
    a = DerivedPredicate(build(p), build(c))
    if k == "derived":
        if ctx.flag("not2"):
            e = ("not", e)
        hashes(ctx, a, DerivedPredicate(build(q), build(e)), p == q and c == e, "derived predicates")
    else:
        hashes(ctx, a, build(q), False, "derived predicate and atom")


# ------------------------------------------------------------------------------------------------- actions etc.
def actions(ctx):
    from pddl.action import Action

    ctx.canon_hash()

    part = ctx.choice("part", ["name", "parameters", "precondition", "effect"] + (["all"] if ctx.thorough else []))

    def one(lb):
        on = lambda x: part in (x, "all")  # noqa: E731
        ps = tuple(("v", ctx.name(f"{lb}.x{i}"), NOTYPE) for i in range(ctx.pick(lb + ".n", 2 if part == "all" else 3))) if on("parameters") else ()
        pre = eff = ("pred", N, ())
        kinds = ["none", "atom"] if part == "all" else ["none", "empty", "atom", "not"]
        if on("precondition"):
            k = ctx.choice(lb + ".pre", kinds)
            p = ("pred", ctx.name(lb + ".p"), ())
            pre = {"none": None, "empty": ("and", ()), "atom": p, "not": ("not", p)}[k]
        if on("effect"):
            k = ctx.choice(lb + ".eff", kinds)
            p = ("pred", ctx.name(lb + ".e"), ())
            eff = {"none": None, "empty": ("and", ()), "atom": p, "not": ("not", p)}[k]
        s = (ctx.name(lb + ".a") if on("name") else N, ps, pre, eff)
        return s, Action(s[0], [build_term(t) for t in ps], precondition=build(pre), effect=build(eff))

    (s, a), (t, b) = one("a"), one("b")
    hashes(ctx, a, b, s == t, "actions")


def action_types(ctx):
    """Parameter types, constants as parameters."""
    from pddl.action import Action

    ctx.canon_hash()
    t, u = term(ctx, "a"), term(ctx, "b")
    e = ("pred", N, ())
    hashes(ctx, Action(N, [build_term(t)], effect=build(e)), Action(N, [build_term(u)], effect=build(e)),
           tkey(t) == tkey(u), "actions with typed parameters")


def domain_of(ctx, lb, which):
    """A domain whose part `which` has symbolic content; the other parts are fixed."""
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable

    kw = dict(requirements=R("TYPING", "NUMERIC_FLUENTS"), types={N: None}, constants=[Constant(N)],
              predicates=[Predicate(N)], functions={NumericFunction(N): None},
              derived_predicates=[DerivedPredicate(Predicate(N), Predicate(N))], actions=[Action(N, [])])
    name, key = N, None
    n = ctx.pick(lb + ".n", 3)
    if which == "name":
        name = key = ctx.name(lb + ".x0")
    elif which == "requirements":
        extra = ["STRIPS", "ADL", "EQUALITY"]
        on = [r for r in extra if ctx.flag(f"{lb}.{r}")]
        kw["requirements"] = R("TYPING", "NUMERIC_FLUENTS", *on)
        key = frozenset(on)
    elif which == "types":
        ts = ctx.distinct_names(lb + ".x", n)
        kw["types"] = {t: (N if ctx.flag(f"{lb}.up{i}") else None) for i, t in enumerate(ts)}
        kw["types"][N] = None
        key = frozenset(kw["types"].items())
    elif which == "functions":
        xs = ctx.distinct_names(lb + ".x", n)
        kw["functions"] = {NumericFunction(x, *([Variable(N)] if ctx.flag(f"{lb}.ar{i}") else [])):
                           ("number" if ctx.flag(f"{lb}.num{i}") else None) for i, x in enumerate(xs)}
        key = frozenset([(f.name, f.arity, t) for f, t in kw["functions"].items()])
    else:
        xs = ctx.names(lb + ".x", n)
        make = {
            "constants": lambda x: Constant(x), "predicates": lambda x: Predicate(x, Variable(N, [N])),
            "derived_predicates": lambda x: DerivedPredicate(Predicate(N), Predicate(x)),
            "actions": lambda x: Action(N, [], effect=Predicate(x)),
        }[which]
        kw[which] = [make(x) for x in xs]
        key = frozenset(xs)
    return Domain(name, **kw), key


PARTS = ["name", "requirements", "types", "constants", "predicates", "functions", "derived_predicates", "actions"]


def domains(ctx):
    """Domains that differ at most in one part, each part in turn."""
    ctx.canon_hash()
    w = ctx.choice("part", PARTS)
    (a, ka), (b, kb) = domain_of(ctx, "a", w), domain_of(ctx, "b", w)
    agree(ctx, a, b, ka == kb, f"domains with {w}")


def absent(ctx):
    """Domains with and without each part."""
    ctx.canon_hash()
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant

    full = dict(types={N: None}, constants=[Constant(N)], predicates=[Predicate(N)],
                functions={NumericFunction(N): None},
                derived_predicates=[DerivedPredicate(Predicate(N), Predicate(N))], actions=[Action(N, [])])
    req = R("NUMERIC_FLUENTS")
    w = ctx.choice("part", list(full))
    v = ctx.choice("other", list(full))
    a = Domain(N, requirements=req, **{k: x for k, x in full.items() if k != w})
    b = Domain(N, requirements=req, **{k: x for k, x in full.items() if k != v})
    c = Domain(N, requirements=req, **full)
    agree(ctx, a, b, w == v, f"domains without {w} and without {v}")
    agree(ctx, a, c, False, f"domains with and without {w}")
    for x in (None, N, c.name, 0, (), str(c)):
        ctx.check(not (c == x) and c != x, f"a domain equals {x}")


def problem_of(ctx, lb, which):
    from pddl.core import Domain, Problem
    from pddl.logic.functions import EqualTo, Metric, NumericFunction, NumericValue
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant

    kw = dict(domain_name=N, requirements=R("TYPING"), objects=[Constant(N)], init=[Predicate(N)], goal=Predicate(N),
              metric=Metric(NumericFunction(N)))
    name, key = N, None
    n = ctx.pick(lb + ".n", 3)
    xs = ctx.names(lb + ".x", n)
    if which == "name":
        name = key = ctx.name(lb + ".y")
    elif which == "domain_name":
        kw["domain_name"] = key = ctx.name(lb + ".y")
    elif which == "requirements":
        on = [r for r in ["STRIPS", "ADL", "EQUALITY"] if ctx.flag(f"{lb}.{r}")]
        kw["requirements"] = R(*on)
        if not on and ctx.flag(lb + ".absent"):
            kw["requirements"] = None
        key = frozenset(on)
    elif which == "objects":
        kw["objects"], key = [Constant(x) for x in xs], frozenset(xs)
    elif which == "init":
        kw["init"] = [Predicate(x) for x in xs]
        key = [frozenset(xs), None]
        if ctx.flag(lb + ".fluent"):
            v = ctx.int(lb + ".v")
            kw["init"].append(EqualTo(NumericFunction(N), NumericValue(v)))
            key[1] = v
        key = tuple(key)
    elif which == "goal":
        k = ctx.choice(lb + ".goal", ["absent", "empty", "atom", "not"])
        p = ("pred", ctx.name(lb + ".y"), ())
        key = {"absent": ("and", ()), "empty": ("and", ()), "atom": p, "not": ("not", p)}[k]
        kw["goal"] = None if k == "absent" else build(key)
    elif which == "metric":
        k = ctx.choice(lb + ".metric", ["absent", "minimize", "maximize"])
        y = ctx.name(lb + ".y")
        kw["metric"] = None if k == "absent" else Metric(NumericFunction(y), k)
        key = (k, None if k == "absent" else y)
    elif which == "domain":
        y = ctx.name(lb + ".y")
        d = Domain(y, requirements=R("TYPING"), constants=[Constant(x) for x in xs])
        del kw["domain_name"]
        kw["domain"] = d
        key = (y, frozenset(xs))
    return Problem(name, **kw), key


def problems(ctx):
    ctx.canon_hash()
    w = ctx.choice("part", ["name", "domain_name", "requirements", "objects", "init", "goal", "metric", "domain"])
    (a, ka), (b, kb) = problem_of(ctx, "a", w), problem_of(ctx, "b", w)
    agree(ctx, a, b, ka == kb, f"problems with {w}")
    for x in (None, N, 0, ()):
        ctx.check(not (a == x) and a != x, f"a problem equals {x}")


def plans(ctx):
    from pddl.core import Plan
    from pddl.logic.terms import Constant

    ctx.canon_hash()

    def one(lb):
        s = [(ctx.name(f"{lb}{i}"), [("c", ctx.name(f"{lb}{i}.{j}")) for j in range(ctx.pick(f"{lb}{i}.ar", 2))])
             for i in range(ctx.pick(lb + ".n", 3))]
        return s, Plan([(n, [Constant(t[1]) for t in ts]) for n, ts in s])

    (s, a), (t, b) = one("a"), one("b")
    agree(ctx, a, b, s == t, "plans")


def others(ctx):
    """Nothing equals an object of another kind."""
    from pddl.core import Domain, Plan, Problem
    from pddl.action import Action
    from pddl.logic.terms import Constant, Variable

    ctx.canon_hash()
    x = ctx.name("x")
    mk = {
        "constant": lambda: Constant(x), "variable": lambda: Variable(x), "predicate": lambda: build(("pred", x, ())),
        "function": lambda: build(("fn", x, ())), "predicate of": lambda: build(("pred", x, (("c", x),))),
        "function of": lambda: build(("fn", x, (("c", x),))), "equality": lambda: build(("eq", ("c", x), ("c", x))),
        "action": lambda: Action(x, []), "domain": lambda: Domain(x), "problem": lambda: Problem(x, domain_name=x),
        "plan": lambda: Plan([(x, [])]), "string": lambda: x, "none": lambda: None, "not": lambda: build(("not", ("pred", x, ()))),
        "numeric equality": lambda: build(("cmp", "=", ("fn", x, ()), ("fn", x, ()))),
    }
    ks = list(mk)
    i, j = ctx.pick("i", len(ks)), ctx.pick("j", len(ks))
    if i >= j:
        return
    a, b = mk[ks[i]](), mk[ks[j]]()
    ctx.check(not (a == b) and not (b == a) and a != b and b != a, f"a {ks[i]} equals a {ks[j]}")


def nested(ctx):
    """Two formulas or effects of depth 2 that have the same shape up to one subformula."""
    ctx.canon_hash()
    quant = [((N, NOTYPE),)]
    g = Gen(ctx, [], [], qvars=quant, eq=False, max_ops=2)
    if ctx.flag("effect"):
        a, b = g.effect("a", 1), g.effect("b", 1)
    else:
        a, b = g.formula("a", 1), g.formula("b", 1)
    want = norm(a) == norm(b)
    outer = ctx.choice("outer", ["none", "not", "forall", "when"])
    if outer == "none":
        oa, ob = build(a), build(b)
    else:
        p = ("pred", N, ())
        w = {"not": lambda s: ("not", s), "forall": lambda s: ("feff", ((N, NOTYPE),), s), "when": lambda s: ("when", p, s)}[outer]
        oa, ob = build(w(a)), build(w(b))
    hashes(ctx, oa, ob, want, f"{outer} around {a[0]} and {b[0]}")


def long(ctx):
    """Objects with 4 to 6 elements in one list or nesting: the element at a place is another one, or the order is."""
    from hx import big

    ctx.canon_hash()
    k = ctx.choice("kind", big.KINDS)
    n = 4 + ctx.pick("n", 3)
    xs = [fixed(f"x{i}") for i in range(n)]
    i = ctx.pick("place", n)
    a, b = list(xs), list(xs)
    a[i] = ctx.name("a")
    how = ctx.choice("other", ["same place", "moved", "swapped", "shorter"])
    if how == "same place":
        b[i] = ctx.name("b")
    elif how == "moved":
        b[(i + 1 + ctx.pick("by", n - 1)) % n] = ctx.name("b")
    elif how == "swapped":
        j = (i + 1 + ctx.pick("by", n - 1)) % n
        b[i], b[j] = xs[j], a[i]
    else:
        b[i] = a[i]
        b = b[:-1] if ctx.flag("last") else b[1:]
    f = hashes if big.hashable(k) else lambda *x: agree(*x[:5])
    f(ctx, big.make(k, a), big.make(k, b), big.key(k, a) == big.key(k, b), f"{k} with {n} elements", ctx.flag("before") if big.hashable(k) else False)


def within(ctx):
    """Two leaves that print alike but differ, or print differently but are equal, inside every kind of object."""
    from pddl.action import Action
    from pddl.core import Domain, Problem
    from pddl.logic import base as b
    from pddl.logic import effects as e
    from pddl.logic import functions as f
    from pddl.logic import predicates as p
    from pddl.logic.terms import Constant, Variable

    ctx.canon_hash()
    n = ctx.name("n")
    kind = ctx.choice("leaf", ["number", "constant", "variable"])
    if kind == "number":
        va, vb = [ctx.choice(x, ["i", "j", 1.0, 0.5, 1e16]) for x in ("va", "vb")]
        va, vb = [ctx.int(v) if isinstance(v, str) else ctx.number(v) for v in (va, vb)]
        want = va == vb
        va, vb = f.NumericValue(va), f.NumericValue(vb)
    elif kind == "constant":
        va, vb = [Constant(n, t) for t in (ctx.choice("ta", [None, "tt"]), ctx.choice("tb", ["tt", "uu"]))]
        want = True
    else:
        ts = [[], ["tt"], ["uu"], ["uu", "tt"], ["object"]]
        ta, tb = ctx.choice("ta", ts), ctx.choice("tb", ts)
        va, vb = Variable(n, ta), Variable(n, tb)
        want = frozenset(ta) == frozenset(tb)
    x = lambda v: v if kind == "number" else f.NumericFunction("ff", v)  # noqa: E731
    q = p.Predicate("qq")
    at = lambda v: f.GreaterThan(f.NumericFunction("gg"), x(v)) if kind == "number" else p.Predicate("pp", v)  # noqa: E731
    whole = {
        "metric": lambda v: f.Metric(x(v)),
        "metric sum": lambda v: f.Metric(f.Plus(f.NumericFunction("gg"), f.Minus(x(v)), f.Times(x(v), x(v))), "maximize"),
        "assign": lambda v: f.Assign(f.NumericFunction("gg"), f.Divide(f.NumericFunction("gg"), x(v))),
        "equal": lambda v: f.EqualTo(f.NumericFunction("gg"), x(v)),
        "not": lambda v: b.Not(at(v)),
        "and": lambda v: b.And(q, b.Not(at(v))),
        "or": lambda v: b.Or(b.Imply(at(v), q), q),
        "imply": lambda v: b.Imply(q, b.OneOf(q, at(v))),
        "forall": lambda v: b.ForallCondition(at(v), [Variable("yy")]),
        "exists": lambda v: b.ExistsCondition(b.Not(at(v)), []),
        "when": lambda v: e.When(at(v), q),
        "when effect": lambda v: e.When(q, b.And(q, at(v))),
        "feff": lambda v: e.Forall(at(v), [Variable("yy", ["tt"])]),
        "derived": lambda v: p.DerivedPredicate(q, at(v)),
        "precondition": lambda v: Action("aa", [], at(v), q),
        "effect": lambda v: Action("aa", [], q, e.When(q, at(v))),
        "function": lambda v: f.NumericFunction("ff", Constant("kk"), v),
        "predicate": lambda v: p.Predicate("ff", Constant("kk"), v),
        "term equality": lambda v: p.EqualTo(Constant("kk"), v),
        "parameter": lambda v: Action("aa", [Variable("yy"), v]),
        "init": lambda v: Problem("nn", domain_name="dd", init=[f.EqualTo(f.NumericFunction("gg"), x(v)) if kind == "number" else b.Not(at(v)), q]),
        "goal": lambda v: Problem("nn", domain_name="dd", goal=b.Not(at(v))),
        "problem metric": lambda v: Problem("nn", domain_name="dd", metric=f.Metric(x(v))),
        "domain action": lambda v: Domain("dd", R("ADL"), types={"tt": None, "uu": None}, actions=[Action("aa", [], at(v))]),
        "domain derived": lambda v: Domain("dd", R("ADL"), types={"tt": None, "uu": None}, derived_predicates=[p.DerivedPredicate(q, at(v))]),
        "domain predicate": lambda v: Domain("dd", R("ADL"), types={"tt": None, "uu": None}, predicates=[p.Predicate("pp", v), q]),
        "domain function": lambda v: Domain("dd", R("ADL", "FLUENTS"), types={"tt": None, "uu": None}, functions={f.NumericFunction("pp", v): None}),
    }
    names = [k for k in whole if kind != "number" or k not in ("function", "predicate", "term equality", "parameter", "domain predicate", "domain function")]
    k = ctx.choice("whole", names)
    oa, ob = whole[k](va), whole[k](vb)
    if "problem" in k or "domain" in k or k in ("init", "goal"):
        agree(ctx, oa, ob, want, f"{kind} in {k}")
    else:
        hashes(ctx, oa, ob, want, f"{kind} in {k}")


SCENARIOS = [
    Scenario("within", within, "27 kinds of objects around two leaves: numbers (integers, floats, a symbolic integer), constants and variables of one symbolic name with other types"),
    Scenario("long", long, "29 kinds of objects with 4 to 6 elements in a list or nesting, the element at any place symbolic; another of them, two places exchanged, one left out"),
    Scenario("terms", terms, "pairs of terms, symbolic names, up to 2 symbolic types, hashed before or not"),
    Scenario("atoms", atoms, "pairs of predicates, functions, equalities (at most 2 terms) and numbers (symbolic integer or a constant), symbolic names"),
    Scenario("typed-atoms", typed_atoms, "atoms that differ in a term with up to 2 symbolic types"),
    Scenario("composite", composite, "every pair of 40 shapes of formulas, effects and expressions with at most 3 symbolic leaves (unlike shapes share their leaves)"),
    Scenario("variables", variables, "quantifiers with at most 2 variables, symbolic names and at most 1 symbolic type each"),
    Scenario("permuted", permuted, "reordered and repeated variables and types"),
    Scenario("iteration", iteration, "9 kinds of objects over two symbolic names given in both orders, every iteration order of every set"),
    Scenario("nested", nested, "pairs of formulas or effects of depth 1 with at most 2 operands and symbolic leaves, inside 4 contexts"),
    Scenario("derived", derived, "pairs of derived predicates and of metrics with symbolic names and numbers"),
    Scenario("actions", actions, "pairs of actions with at most 2 parameters, absent, empty or atomic parts, symbolic names"),
    Scenario("action-types", action_types, "actions whose parameters have up to 2 symbolic types"),
    Scenario("domains", domains, "pairs of domains that differ in one part with at most 2 symbolic elements"),
    Scenario("absent", absent, "domains without one part against the others"),
    Scenario("problems", problems, "pairs of problems that differ in one part with at most 2 symbolic elements"),
    Scenario("plans", plans, "pairs of plans with at most 2 steps and at most 1 argument each, symbolic names"),
    Scenario("others", others, "pairs of objects of different kinds made from one symbolic name"),
]
