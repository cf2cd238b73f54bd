"""C31: the order in which things are declared in a text never changes what is read."""

from hx.lib import Scenario, fixed, parse_domain_text, parse_problem_text

N = fixed(1)
REQS = [":strips", ":typing", ":adl", ":fluents", ":derived-predicates", ":non-deterministic", ":action-costs", ":equality",
        ":disjunctive-preconditions", ":universal-preconditions", ":conditional-effects", ":negative-preconditions"]
ALL = "(:requirements :typing :adl :fluents :derived-predicates :non-deterministic :action-costs)"


def arranged(ctx, lb, items):
    """Another order of the items."""
    left, out = list(items), []
    while len(left) > 1:
        out.append(left.pop(ctx.pick(f"{lb}.{len(left)}", len(left))))
    return out + left


def few(ctx, lb, items):
    """One of few other orders: reversed, rotated, two neighbours exchanged."""
    k = ctx.pick(lb, len(items) + 1)
    if k == len(items):
        return list(items)[::-1]
    if k == 0:
        return list(items[1:]) + list(items[:1])
    return list(items[:k - 1]) + [items[k], items[k - 1]] + list(items[k + 1:])


def repeated(ctx, items):
    """One of the items is written again, at the end or right after itself."""
    i = ctx.pick("again", len(items))
    at = i if ctx.flag("at once") else len(items)
    return items[:at] + [items[i]] + items[at:]


def same(ctx, parse, a, b):
    ok1, x = ctx.attempt(parse, a)
    ok2, y = ctx.attempt(parse, b)
    ctx.check(ok1 == ok2, f"{ctx.show(a if ok1 else b)} is accepted, but {ctx.show(b if ok1 else a)} is not: {ctx.show(y if ok1 else x)}")
    if not ok1:
        ctx.nrej += 1
        return
    ctx.nacc += 1
    ctx.check(x == y and y == x, f"{ctx.show(a)} and {ctx.show(b)} give different objects: {ctx.show(str(x))} / {ctx.show(str(y))}")
    ctx.check(hash(x) == hash(y) if type(x).__hash__ else True, f"{ctx.show(a)} and {ctx.show(b)} give objects with different hashes")
    ctx.check(str(x) == str(y), f"{ctx.show(a)} and {ctx.show(b)} are printed differently: {ctx.show(str(x))} / {ctx.show(str(y))}")


def dom(body, reqs=ALL):
    return f"(define (domain {N}) {reqs} {body})"


def prob(body, goal="(and)", objects="", metric=""):
    return f"(define (problem pp) (:domain dd) (:requirements :adl :fluents) {objects} (:init {body}) (:goal {goal}) {metric})"


def requirements(ctx):
    """The requirements, and what they enable."""
    s = ctx.pick("start", len(REQS))
    rs = [REQS[(s + i * 5) % len(REQS)] for i in range(3 + ctx.flag("four"))]
    x = ctx.name("x")
    body = ctx.choice("body", ["", "(:types {0} uu-of-the-harness - {0})", "(:action a :parameters (?{0}) :precondition (or (= ?{0} ?{0})))",
                               "(:functions (total-cost) ({0}))", "(:action a :parameters () :effect (oneof ({0})))"]).format(x)
    other = arranged(ctx, "order", rs)
    if ctx.flag("repeated"):
        other = repeated(ctx, other)
    same(ctx, parse_domain_text, dom(body, f"(:requirements {' '.join(rs)})"), dom(body, f"(:requirements {' '.join(other)})"))
    if ctx.flag("problem"):
        p = "(define (problem pp) (:domain dd) (:requirements {}) (:init ({})) (:goal (or ({}))))"
        same(ctx, parse_problem_text, p.format(" ".join(rs), x, x), p.format(" ".join(other), x, x))


def groups(ctx, lb, names, types, untyped=True):
    """Groups of names with one type each; the last may have none."""
    gs, g = [], []
    for i, n in enumerate(names):
        g.append(n)
        if i == len(names) - 1 or ctx.flag(f"{lb}.end{i}"):
            last = i == len(names) - 1
            t = ctx.pick(f"{lb}.type{i}", len(types) + (1 if last and untyped else 0))
            gs.append((g, types[t] if t < len(types) else None))
            g = []
    return gs


def typed(gs, mark=""):
    """The text of typed groups; the untyped one is the last."""
    gs = [g for g in gs if g[1] is not None] + [g for g in gs if g[1] is None]
    return " ".join([" ".join([mark + n for n in g]) + ("" if t is None else f" - {t}") for g, t in gs])


def split(ctx, lb, gs):
    """The same typing in another order: groups taken apart or not, all in another order, names of a group in another order."""
    if ctx.flag(lb + ".apart"):
        single = [([n], t) for g, t in gs for n in g]
        return few(ctx, lb + ".order", single) if len(single) > 3 else arranged(ctx, lb + ".order", single)
    return [(g[::-1] if ctx.flag(f"{lb}.rev{i}") else g, t) for i, (g, t) in enumerate(arranged(ctx, lb + ".order", gs))]


def types(ctx):
    """Type declarations with symbolic names and parents."""
    n = 3 + (ctx.pick("n", 2) if ctx.thorough else 0)
    ns = ctx.names("t", n)
    gs = groups(ctx, "g", ns, [ns[0], fixed(2)] + (["object"] if ctx.thorough else []))
    body = ctx.choice("use", ["", f"(:constants cc-of-the-harness - {ns[1]})", f"(:predicates (pp-of-the-harness ?x - {ns[0]})) (:derived (pp-of-the-harness ?x - {ns[2]}) (and))"])
    same(ctx, parse_domain_text, dom(f"(:types {typed(gs)}) {body}"), dom(f"(:types {typed(split(ctx, 's', gs))}) {body}"))


def constants(ctx):
    """Constants or objects with symbolic names, used in formulas."""
    ns = ctx.names("c", 3)
    gs = groups(ctx, "g", ns, ["tt-of-the-harness", "uu-of-the-harness"])
    other = split(ctx, "s", gs)
    if ctx.flag("problem"):
        goal = f"(and (pp-of-the-harness {ns[0]} {ns[2]}) (or (pp-of-the-harness {ns[1]}) (= {ns[0]} {ns[1]})))"
        same(ctx, parse_problem_text, prob(f"(pp-of-the-harness {ns[1]})", goal, f"(:objects {typed(gs)})"), prob(f"(pp-of-the-harness {ns[1]})", goal, f"(:objects {typed(other)})"))
    else:
        body = f"(:action a :parameters (?x) :precondition (pp-of-the-harness {ns[0]} ?x {ns[2]}) :effect (not (pp-of-the-harness {ns[1]})))"
        same(ctx, parse_domain_text, dom(f"(:types tt-of-the-harness uu-of-the-harness) (:constants {typed(gs)}) {body}"), dom(f"(:types tt-of-the-harness uu-of-the-harness) (:constants {typed(other)}) {body}"))


def predicates(ctx):
    """Predicates with symbolic names and variables; a derived predicate for one of them."""
    ns = ctx.names("p", 3)
    x, y = ctx.name("x"), fixed(3)
    sig = ["", f" ?{x} - tt-of-the-harness", f" ?{x} ?{y}", f" ?{x} - (either uu-of-the-harness tt-of-the-harness) ?{y} - uu-of-the-harness"]
    ps = [f"({n}{sig[(ctx.pick(f'sig{i}', len(sig)) if i else 1)]})" for i, n in enumerate(ns)]
    derived = ctx.flag("derived")
    if derived:
        ctx.distinct(ns)
    body = f"(:types tt-of-the-harness uu-of-the-harness) (:predicates {{}}) {f'(:derived ({ns[0]} ?{x}) (pp-of-the-harness ?{x}))' if derived else ''}"
    same(ctx, parse_domain_text, dom(body.format(" ".join(ps))), dom(body.format(" ".join(arranged(ctx, "order", ps)))))


def functions(ctx):
    """Functions with symbolic names and arguments."""
    ns = ctx.names("f", 2) + ["total-cost"]
    x = ctx.name("x")
    sig = ["", f" ?{x} - tt-of-the-harness", f" ?{x} ?yy-of-the-harness"]
    fs = [f"({n}{sig[ctx.pick(f'sig{i}', 3)] if i < 2 else ''})" for i, n in enumerate(ns)]
    k = ctx.pick("with number", 4)  # the first k have '- number', the others no type
    other = arranged(ctx, "order", fs[:k]) + arranged(ctx, "order of others", fs[k:])
    num = [" - number" if i == k - 1 or i < k and ctx.flag(f"apart{i}") else "" for i in range(3)]
    a = " ".join(fs[:k]) + (" - number " if k else "") + " ".join(fs[k:])
    b = " ".join([f + n for f, n in zip(other, num)])
    use = ctx.choice("use", ["", f"(:action a :parameters (?{x}) :effect (increase (total-cost) ({ns[0]} ?{x})))"])
    body = "(:types tt-of-the-harness) (:functions {}) " + use
    same(ctx, parse_domain_text, dom(body.format(a)), dom(body.format(b)))


def structure(ctx):
    """Actions and derived predicates that use the same variable and constant names, with their own types."""
    x, y = ctx.name("x"), ctx.name("y")
    a, b = ctx.names("a", 2)
    kinds = [
        f"(:action {a} :parameters (?{x} - tt-of-the-harness) :precondition (p-of-the-harness ?{x}) :effect (q-of-the-harness ?{y}))",
        f"(:action {b} :parameters (?{x} - uu-of-the-harness ?{y} - tt-of-the-harness) :precondition (forall (?{y} - uu-of-the-harness) (q-of-the-harness ?{y})) :effect (when (p-of-the-harness ?{x}) (q-of-the-harness ?{y})))",
        f"(:action {b} :parameters () :precondition (p-of-the-harness ?{x}) :effect (forall (?{x} - uu-of-the-harness) (and (p-of-the-harness ?{x}) (increase (f-of-the-harness ?{x}) 1))))",
        f"(:derived (p-of-the-harness ?{x}) (exists (?{y} - tt-of-the-harness) (and (p-of-the-harness ?{x}) (q-of-the-harness ?{y}))))",
        f"(:derived (q-of-the-harness ?{y} - uu-of-the-harness) (or (p-of-the-harness ?{x}) (q-of-the-harness ?{y}) (= ?{x} cc-of-the-harness)))",
        f"(:derived (q-of-the-harness ?{x}) (>= (f-of-the-harness ?{x}) (f-of-the-harness ?{y})))",
        f"(:action {a} :parameters (?{y} - (either tt-of-the-harness uu-of-the-harness)) :effect (oneof (p-of-the-harness ?{x}) (q-of-the-harness ?{y})))",
    ]
    n = 4 if ctx.thorough else 3
    start = ctx.pick("start", len(kinds))
    step = 1 + ctx.pick("step", 3)
    items = [kinds[(start + i * step) % len(kinds)] for i in range(n)]
    head = "(:types tt-of-the-harness uu-of-the-harness) (:constants cc-of-the-harness - tt-of-the-harness) (:predicates (p-of-the-harness ?x - tt-of-the-harness) (q-of-the-harness ?x)) (:functions (f-of-the-harness ?x)) "
    same(ctx, parse_domain_text, dom(head + " ".join(items)), dom(head + " ".join(arranged(ctx, "order", items))))


def init(ctx):
    """Initial literals and assignments with symbolic names."""
    ps = ctx.names("p", 2)
    o, r = ctx.names("o", 2)
    pool = [f"({ps[0]} {o} {r})", f"(not ({ps[1]} {o}))", f"({ps[0]} {r})", f"(= ({ps[0]} {o}) 3)", f"(= ({ps[1]} {r}) 0.50)", f"({ps[1]})", "(= (total-cost) 0)"]
    start = ctx.pick("start", len(pool))
    n = 4 if ctx.thorough else 3
    items = [pool[(start + i * (1 + ctx.pick("step", 2) * 4)) % len(pool)] for i in range(n)]
    other = arranged(ctx, "order", items)
    if ctx.flag("repeated"):
        other = repeated(ctx, other)
    objs = f"(:objects {o} zz-of-the-harness)"
    same(ctx, parse_problem_text, prob(" ".join(items), objects=objs), prob(" ".join(other), objects=objs))


def alternatives(ctx):
    """The types of an 'either' and the variables of a quantifier."""
    ts = ctx.names("t", 3) if ctx.thorough else ctx.names("t", 2) + [fixed(4)]
    xs = ctx.distinct_names("x", 3 if ctx.thorough else 2) + [fixed(5)]
    e = ts[:2 + ctx.pick("types", 2)]
    f = arranged(ctx, "types order", e)
    vs = [(xs[0], [ts[0]]), (xs[1], e), (xs[2], [ts[2]])][:1 + ctx.pick("vars", 3 if ctx.thorough else 2)]
    ws = [(x, f if t is e else t) for x, t in arranged(ctx, "vars order", vs)]

    def text(vs, either):
        vl = " ".join([f"?{x} - " + (t[0] if len(t) == 1 else f"(either {' '.join(t)})") for x, t in vs])
        at = " ".join(["?" + x for x, _ in sorted(vs, key=lambda v: [str.__str__(x) for x in xs].index(str.__str__(v[0])))])
        q = ctx.choice("quantifier", [f":precondition (forall ({vl}) (q-of-the-harness {at}))", f":precondition (exists ({vl}) (not (q-of-the-harness {at})))",
                                      f":effect (forall ({vl}) (q-of-the-harness {at}))"])
        return dom(f"(:types {ts[0]} {ts[1]} {ts[2]}) (:predicates (p-of-the-harness ?x - (either {' '.join(either)}))) (:action a :parameters (?v - (either {' '.join(either)})) {q})")

    same(ctx, parse_domain_text, text(vs, e), text(ws, f))


def everything(ctx):
    """All parts of a domain or problem at once in other orders."""
    ns = ctx.names("n", 4) if ctx.thorough else [ctx.name("n0"), fixed(6), ctx.name("n2"), fixed(7)]
    parts = {
        "types": [f"{ns[0]} - object", f"{ns[1]} - {ns[0]}", f"tt-of-the-harness uu-of-the-harness - {ns[1]}"],
        "constants": [f"{ns[2]} - tt-of-the-harness", "cc-of-the-harness bb-of-the-harness - uu-of-the-harness", f"{ns[3]} - {ns[0]}"],
        "predicates": [f"(p-of-the-harness ?x - {ns[0]})", "(q-of-the-harness)", f"({ns[2]} ?x ?y)", f"({ns[3]} ?x - uu-of-the-harness)"],
        "functions": [f"({ns[2]}) - number", f"(f-of-the-harness ?x - {ns[1]}) - number", f"({ns[3]} ?x) - number"],
        "structure": [f"(:action {ns[2]} :parameters (?x - tt-of-the-harness) :precondition (p-of-the-harness ?x) :effect (q-of-the-harness))", f"(:derived (p-of-the-harness ?x) (or (q-of-the-harness) (p-of-the-harness {ns[2]})))",
                      f"(:action {ns[3]} :parameters (?x) :effect (increase (f-of-the-harness ?x) ({ns[2]})))", "(:derived (q-of-the-harness) (p-of-the-harness cc-of-the-harness))"],
    }

    def text(d):
        return dom(f"(:types {' '.join(d['types'])}) (:constants {' '.join(d['constants'])}) (:predicates {' '.join(d['predicates'])})"
                   f" (:functions {' '.join(d['functions'])}) {' '.join(d['structure'])}")

    same(ctx, parse_domain_text, text(parts), text({k: few(ctx, k, v) if ctx.thorough else few(ctx, "all", v)[:len(v)] if len(v) == 3 else few(ctx, "structure", v) for k, v in parts.items()}))


EVERY = [":strips", ":typing", ":equality", ":negative-preconditions", ":disjunctive-preconditions", ":existential-preconditions",
         ":universal-preconditions", ":conditional-effects", ":derived-predicates", ":numeric-fluents", ":action-costs",
         ":non-deterministic", ":quantified-preconditions", ":fluents", ":adl"]
IMPLIED = {":adl": [":typing", ":equality", ":disjunctive-preconditions", ":existential-preconditions"], ":fluents": [":numeric-fluents"],
           ":quantified-preconditions": [":existential-preconditions", ":universal-preconditions"]}
BODIES = {":typing": "(:types tt - uu)", ":equality": "(:action a :parameters (?x) :precondition (= ?x ?x))",
          ":disjunctive-preconditions": "(:action a :parameters () :precondition (or (p) (q)))",
          ":existential-preconditions": "(:action a :parameters () :precondition (exists (?x) (q ?x)))",
          ":universal-preconditions": "(:action a :parameters () :precondition (forall (?x) (q ?x)))",
          ":numeric-fluents": "(:functions (f))", ":action-costs": "(:functions (total-cost))", ":non-deterministic": "(:action a :parameters () :effect (oneof (p) (q)))"}


def moved(ctx, items, place):
    """The item at a place moved to the front, the end or past its neighbour; or all items reversed."""
    how = ctx.choice("how", ["front", "end", "next", "reversed"])
    if how == "reversed":
        return items[::-1]
    rest = items[:place] + items[place + 1:]
    at = {"front": 0, "end": len(rest), "next": place + 1 if place < len(rest) else place - 1}[how]
    return rest[:at] + [items[place]] + rest[at:]


def many_requirements(ctx):
    """A long list of requirements; one of them, at any place, is what enables a construct."""
    need = ctx.choice("construct", list(BODIES))
    by = ctx.choice("by", [None, need] + [k for k in IMPLIED if need in IMPLIED[k]])
    rs = [r for r in EVERY if r != need and need not in IMPLIED.get(r, [])]
    n = ctx.choice("n", [7, len(rs)])
    place = ctx.pick("place", n)
    rs = rs[:n - 1]
    if by is not None:
        rs = rs[:place] + [by] + rs[place:]
    other = moved(ctx, rs, min(place, len(rs) - 1))
    same(ctx, parse_domain_text, dom(BODIES[need], f"(:requirements {' '.join(rs)})"), dom(BODIES[need], f"(:requirements {' '.join(other)})"))


T, U = "tt-of-the-harness", "uu-of-the-harness"
LISTS = ["types", "type parents", "constants", "objects", "predicates", "functions", "actions", "derived", "init", "values", "either", "quantified"]


def many(ctx):
    """A long list of one kind, in which one name at any place is symbolic and moves."""
    kind = ctx.choice("kind", LISTS)
    n = ctx.choice("n", [7, 12, 17, 33] if ctx.thorough else [7, 12])
    ns = [fixed(10 + i) for i in range(n)]
    place = ctx.pick("place", n)
    ns[place] = ctx.name("x")
    e = list(enumerate(ns))

    def both(parse, items, text):
        again = kind in ("init", "values") and ctx.flag("repeated")
        other = moved(ctx, items, place)
        if again:
            i = other.index(items[place])
            other = other[:i] + [items[place]] + other[i:]
        same(ctx, parse, text(" ".join(items)), text(" ".join(other)))

    if kind == "types":
        both(parse_domain_text, [f"{x} - {T if i % 2 else U}" for i, x in e], lambda b: dom(f"(:types {b})"))
    elif kind == "type parents":
        both(parse_domain_text, [f"{x} - {ns[i - 1] if i else 'object'}" for i, x in e],
             lambda b: dom(f"(:types {b}) (:predicates (pp-of-the-harness ?x - {ns[0]})) (:derived (pp-of-the-harness ?x - {ns[-1]}) (and))"))
    elif kind == "constants":
        both(parse_domain_text, [f"{x} - {T if i % 2 else U}" for i, x in e], lambda b: dom(f"(:types {T} {U}) (:constants {b}) (:action a :parameters () :precondition (q-of-the-harness {ns[0]} {ns[-1]}))"))
    elif kind == "objects":
        both(parse_problem_text, [f"{x} - {T if i % 2 else U}" for i, x in e], lambda b: prob(f"(q-of-the-harness {ns[0]} {ns[-1]})", "(and)", f"(:objects {b})"))
    elif kind == "predicates":
        both(parse_domain_text, [f"({x}{' ?x ?y'[:3 * (i % 3)]})" for i, x in e], lambda b: dom(f"(:predicates {b})"))
    elif kind == "functions":
        both(parse_domain_text, [f"({x}{' ?x ?y'[:3 * (i % 3)]})" for i, x in e], lambda b: dom(f"(:functions {b})"))
    elif kind == "actions":
        both(parse_domain_text, [f"(:action {x} :parameters (?{x}) :precondition (p-of-the-harness ?{ns[0]} ?{x}))" for i, x in e], dom)
    elif kind == "derived":
        ctx.distinct(ns)
        ps = " ".join([f"({x} ?x - {T if i % 2 else U})" for i, x in e])
        both(parse_domain_text, [f"(:derived ({x} ?{x}) (p-of-the-harness ?{ns[0]} ?{x}))" for i, x in e], lambda b: dom(f"(:types {T} {U}) (:predicates {ps}) {b}"))
    elif kind == "init":
        both(parse_problem_text, [f"(not ({x}))" if i % 2 else f"({x} {ns[i - 1]})" for i, x in e], prob)
    elif kind == "values":
        both(parse_problem_text, [f"(= ({x}) {i % 3})" for i, x in e], prob)
    elif kind == "either":
        both(parse_domain_text, ns, lambda b: dom(f"(:types {T} {' '.join(ns[:3] if ctx.thorough else ns)}) (:predicates (q-of-the-harness ?x - (either {b})))"))
    else:
        ctx.distinct(ns)
        q = ctx.choice("quantifier", [":precondition (forall ({}) (q-of-the-harness ?" + ns[0] + "))", ":effect (forall ({}) (q-of-the-harness ?" + ns[-1] + "))"])
        both(parse_domain_text, [f"?{x} - {T if i % 2 else U}" for i, x in e], lambda b: dom(f"(:types {T} {U}) (:action a :parameters () {q.format(b)})"))


SCENARIOS = [
    Scenario("many-requirements", many_requirements, "7 or all requirements, the one that enables one of 8 constructs (directly or not) at any place, moved to 3 other places, or all reversed"),
    Scenario("many", many, "lists of 7 and 12 (thorough: 17, 33) elements of 12 kinds; the one at any place has a symbolic name and is moved to 3 other places, or all are reversed"),
    Scenario("requirements", requirements, "3 to 4 requirements in every order, repeated or not, 5 contents, in domains and problems"),
    Scenario("types", types, "3 (thorough: 4) types with symbolic names in every grouping under 2 (thorough: 3) parents or none, taken apart and in every order"),
    Scenario("constants", constants, "3 constants or objects with symbolic names in every grouping under 2 types or none, in every order"),
    Scenario("predicates", predicates, "3 predicates with symbolic names and 4 signatures in every order, with a derived predicate (then with different names) or not"),
    Scenario("functions", functions, "3 functions with symbolic names and 3 signatures in every order, with and without '- number'"),
    Scenario("structure", structure, "3 (thorough: 4) of 7 actions and derived predicates that share symbolic variables, in every order"),
    Scenario("init", init, "3 (thorough: 4) of 7 initial literals and assignments with symbolic names, in every order, repeated or not"),
    Scenario("alternatives", alternatives, "2 to 3 alternatives of an 'either' and up to 2 (thorough: 3) quantified variables in every order, 2 (thorough: 3) of each with symbolic names"),
    Scenario("everything", everything, "a domain with all sections reversed, rotated or with neighbours exchanged, 2 (thorough: 4) symbolic names"),
]
