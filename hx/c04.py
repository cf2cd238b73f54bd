"""C04: domain declarations are read exactly as written."""

from hx.lib import EITHER, FULL, FULL_REQS, NOTYPE, R, REQ_TEXT, Scenario, fixed, parse_domain_text, read, vars_text, same_parts, PARTS_D, read_domain


def header(ctx):
    """Name, requirements and the presence of every section."""
    n = ctx.name("name")
    k = ctx.pick("window", len(FULL) + 2)
    if k < len(FULL):
        window = [FULL[(k + i) % len(FULL)] for i in (0, 1, 5)]
        chosen = [w for w in window if ctx.flag("req." + w)]
    else:
        chosen = [[], list(reversed(FULL))][k - len(FULL)]
    if ctx.flag("twice") and chosen:
        chosen = chosen + chosen[:1]
    req = "(:requirements " + " ".join([REQ_TEXT[c] for c in chosen]) + ")" if chosen else ""
    p = ctx.name("pred")
    c = ctx.name("const")
    has_p, has_c = ctx.flag("has_p"), ctx.flag("has_c")
    secs = (f"(:constants {c})" if has_c else "") + (f"(:predicates ({p}))" if has_p else "")
    text = f"(define (domain {n}) {req} {secs})"
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    want = (n, frozenset(R(*chosen)), frozenset(), frozenset([(c, None)] if has_c else []),
            frozenset([("pred", p, ())] if has_p else []), frozenset(), frozenset(), frozenset())
    same_parts(ctx, read_domain(d), want, PARTS_D, text)


def typed_list(ctx, label, n, types):
    """A typed list of n names, grouped in every way; returns (text, [(name, type or None)])."""
    names = ctx.names(label, n)
    out, items, group = [], [], []
    for i in range(n):
        out.append(names[i])
        group.append(names[i])
        k = ctx.pick(f"{label}.sep{i}", len(types) + 1)
        if k > 0:
            out.append("- " + types[k - 1])
            items += [(g, types[k - 1]) for g in group]
            group = []
    items += [(g, None) for g in group]
    return " ".join(out), items


def has_duplicates(xs):
    return any(xs[i] == xs[j] for i in range(len(xs)) for j in range(i))


def constants(ctx):
    n = 1 + ctx.pick("n", 4 if ctx.thorough else 3)
    types = ctx.distinct_names("type", 2)
    text, items = typed_list(ctx, "c", n, types + ["object"])
    text = f"(define (domain dd) (:requirements :typing) (:types {' '.join(types)}) (:constants {text}))"
    ok, d = ctx.attempt(parse_domain_text, text)
    if has_duplicates([a for a, _ in items]):
        ctx.check(not ok, f"a constant named twice is accepted: {text}")
        return
    ctx.accepted(ok, d, text)
    got = frozenset([(c.name, c.type_tag) for c in d.constants])
    ctx.check_eq(got, frozenset(items), f"constants of {text}")
    ctx.check_eq(d.types, {types[0]: None, types[1]: None}, f"types of {text}")


def reaches(start, parent):
    """Whether following the parent links from start comes back to it."""
    cur, steps = start, 0
    while steps <= len(parent):
        nxt = None
        for a, b in parent:
            if a == cur:
                nxt = b
        if nxt is None:
            return False
        if nxt == start:
            return True
        cur, steps = nxt, steps + 1
    return False


def types(ctx):
    n = 1 + ctx.pick("n", 4 if ctx.thorough else 3)
    sups = ctx.names("sup", 2)
    text, items = typed_list(ctx, "t", n, sups + ["object"])
    items = [(a, None if b == "object" else b) for a, b in items]
    text = f"(define (domain dd) (:requirements :typing) (:types {text}))"
    ok, d = ctx.attempt(parse_domain_text, text)
    names = [a for a, _ in items]
    if has_duplicates(names):
        ctx.check(not ok, f"a type named twice is accepted: {text}")
        return
    links = [(a, b) for a, b in items if b is not None]
    if any(reaches(a, links) for a in names):
        ctx.check(not ok, f"a cyclic hierarchy is accepted: {text}")
        return
    ctx.accepted(ok, d, text)
    ctx.check_eq(frozenset([(a, b) for a, b in d.types.items()]), frozenset(items), f"types of {text}")


def var_list(ctx, label, n, types):
    """A typed list of n variables in groups, with single and 'either' types."""
    names = ctx.names(label, n)
    tops = [[types[0]], [types[1]], ["either", types[0], types[1]], ["either", types[1]], ["object"]]
    out, items, group = [], [], []
    for i in range(n):
        out.append("?" + names[i])
        group.append(names[i])
        k = ctx.pick(f"{label}.sep{i}", len(tops) + 1)
        if k > 0:
            t = tops[k - 1]
            out.append("- " + (t[0] if len(t) == 1 else "(" + " ".join(t) + ")"))
            items += [(g, frozenset([x for x in t if x != "either"])) for g in group]
            group = []
    items += [(g, NOTYPE) for g in group]
    return " ".join(out), items


def conflicting(items):
    return any(items[i][0] == items[j][0] and items[i][1] != items[j][1] for i in range(len(items)) for j in range(i))


PRE = "(define (domain dd) (:requirements :typing :fluents) (:types tt uu)"


def signatures(ctx):
    """Predicate and function signatures and action parameters."""
    where = ctx.choice("where", ["predicate", "function", "action"])
    n = ctx.pick("n", 4 if ctx.thorough else 3)
    text, items = var_list(ctx, "v", n, ["tt", "uu"])
    p = ctx.name("p")
    if where == "predicate":
        text = f"{PRE} (:predicates ({p} {text})))"
    elif where == "function":
        text = f"{PRE} (:functions ({p} {text})))"
    else:
        text = f"{PRE} (:action {p} :parameters ({text}) ))"
    if where == "action" and has_duplicates([a for a, _ in items]):
        return  # a repeated parameter: the language does not say whether it counts once
    ok, d = ctx.attempt(parse_domain_text, text)
    if conflicting(items):
        ctx.check(not ok, f"a variable with two types is accepted: {text}")
        return
    ctx.accepted(ok, d, text)
    if where == "predicate":
        got = [(x.name, x.terms) for x in d.predicates]
    elif where == "function":
        got = [(x.name, x.terms) for x in d.functions]
    else:
        got = [(x.name, x.parameters) for x in d.actions]
    got = [(a, [(t.name, frozenset(t.type_tags)) for t in ts]) for a, ts in got]
    ctx.check_eq(got, [(p, items)], f"signature in {text}")


def symbolic_types(ctx):
    """Type names are symbolic: one predicate with two variables and either types."""
    ts = ctx.names("t", 3)
    decl = []
    for t in ts:
        if not any(t == u for u in decl):
            decl.append(t)
    text = (f"(define (domain dd) (:requirements :typing) (:types {' '.join(decl)}) "
            f"(:predicates (pp ?aa - (either {ts[0]} {ts[1]}) ?bb - {ts[2]} ?cc)))")
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    p = list(d.predicates)[0]
    got = [(t.name, frozenset(t.type_tags)) for t in p.terms]
    ctx.check_eq(got, [("aa", frozenset(ts[:2])), ("bb", frozenset(ts[2:])), ("cc", NOTYPE)], f"signature in {text}")


def several_predicates(ctx):
    n = 1 + ctx.pick("n", 3)
    names = ctx.names("p", n)
    ar = [ctx.pick(f"k{i}", 3) for i in range(n)]
    vs = ctx.names("v", 2)
    where = ctx.choice("where", ["predicates", "functions"])
    sk = [f"({names[i]}" + "".join([" ?" + vs[j] for j in range(ar[i])]) + ")" for i in range(n)]
    want = [(names[i], tuple([("v", vs[j], NOTYPE) for j in range(ar[i])])) for i in range(n)]
    if where == "functions":
        if any(want[i] == want[j] for i in range(n) for j in range(i)):
            return
        seps = [ctx.pick(f"s{i}", 2) for i in range(n)]
        sk = [sk[i] + (" - number" if seps[i] else "") for i in range(n)]
        last = max([i + 1 for i in range(n) if seps[i]] + [0])
        text = f"(define (domain dd) (:requirements :fluents) (:functions {' '.join(sk)}))"
        d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
        got = frozenset([(f.name, read(f)[2], t) for f, t in d.functions.items()])
        ctx.check_eq(got, frozenset([(w[0], w[1], "number" if i < last else None) for i, w in enumerate(want)]), f"functions of {text}")
    else:
        text = f"(define (domain dd) (:predicates {' '.join(sk)}))"
        d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
        got = frozenset([(f.name, read(f)[2]) for f in d.predicates])
        ctx.check_eq(got, frozenset(want), f"predicates of {text}")


def total_cost(ctx):
    req = ctx.flag("fluents")
    other = ctx.name("f") if req else None
    first = ctx.flag("first")
    num = ctx.flag("num")
    fs = ["(total-cost)"] + ([f"({other})"] if req else [])
    if first:
        fs = fs[::-1]
    text = (f"(define (domain dd) (:requirements :action-costs {':fluents' if req else ''}) "
            f"(:functions {' '.join(fs)} {'- number' if num else ''}))")
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    got = frozenset([(f.name, f.arity, t) for f, t in d.functions.items()])
    t = "number" if num else None
    ctx.check_eq(got, frozenset([("total-cost", 0, t)] + ([(other, 0, t)] if req else [])), f"functions of {text}")


GROUPS = [[None] * 6, ["tt"] * 6, ["+", "+", "tt", "+", "uu", None], ["tt", "uu", "tt", "uu", "+", "ww"], ["+", "+", "+", "+", "+", "ww"],
          ["object", "tt", "+", "object", None, None]]


def grouped(ns, groups, prefix=""):
    """Names in groups: '+' takes the type of the next one."""
    groups = list(groups[: len(ns)])
    if groups[-1] == "+":
        groups[-1] = "uu"
    text = " ".join([prefix + n + ("" if g in (None, "+") else f" - {g}") for n, g in zip(ns, groups)])
    for i in reversed(range(len(ns))):
        if groups[i] == "+":
            groups[i] = groups[i + 1]
    return text, list(zip(ns, groups))


def long(ctx):
    """Longer lists, and 'either' of more types, than elsewhere."""
    where = ctx.choice("where", ["constants", "types", "predicate", "function", "action", "predicates", "functions", "actions", "either"])
    pre = "(define (domain dd) (:requirements :typing :fluents) (:types uu - tt tt ww)"
    if where == "either":
        k = ctx.choice("kind", ["predicate", "function", "action"])
        e = ctx.choice("types", EITHER)
        order = sorted(e) if ctx.flag("sorted") else sorted(e)[::-1]
        v, w = ctx.distinct_names("v", 2)
        sig = f"?{v} - (either {' '.join(order)}) ?{w} - uu"
        items = [(v, e), (w, frozenset(["uu"]))]
        if ctx.flag("shared"):
            sig, items = f"?{w} ?{v} - (either {' '.join(order)})", [(w, e), (v, e)]
    else:
        ns = ctx.distinct_names("n", 6 if ctx.thorough else 5)
        g = ctx.choice("groups", GROUPS)
    if where == "constants":
        t, items = grouped(ns, g)
        text = f"{pre} (:constants {t}))"
        d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
        return ctx.check_eq(frozenset([(c.name, c.type_tag) for c in d.constants]), frozenset(items), f"constants of {text}")
    if where == "types":
        for n in ns:
            ctx.assume(n != "tt" and n != "uu" and n != "ww")
        t, items = grouped(ns, g)
        text = f"(define (domain dd) (:requirements :typing) (:types {t}))"
        d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
        items = [(a, None if b == "object" else b) for a, b in items]
        return ctx.check_eq(frozenset(d.types.items()), frozenset(items), f"types of {text}")
    if where in ("predicates", "functions", "actions"):
        if where == "predicates":
            text = f"{pre} (:predicates {' '.join([f'({n})' for n in ns])}))"
        elif where == "functions":
            last = ctx.pick("number", len(ns) + 1)
            text = f"{pre} (:functions {' '.join([f'({n})' + (' - number' if i + 1 == last else '') for i, n in enumerate(ns)])}))"
        else:
            text = f"{pre} {' '.join([f'(:action {n} :parameters ())' for n in ns])})"
        d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
        if where == "functions":
            return ctx.check_eq(frozenset([(f.name, f.arity, t) for f, t in d.functions.items()]),
                                frozenset([(n, 0, "number" if i < last else None) for i, n in enumerate(ns)]), f"functions of {text}")
        got = d.predicates if where == "predicates" else d.actions
        ctx.check(len(got) == len(ns), f"{len(got)} {where} read from {text}")
        return ctx.check_eq(frozenset([x.name for x in got]), frozenset(ns), f"{where} of {text}")
    if where != "either":
        k = where
        sig, items = grouped(ns, g, "?")
        items = [(a, NOTYPE if b is None else frozenset([b])) for a, b in items]
    body = {"predicate": f"(:predicates (pp {sig}))", "function": f"(:functions (pp {sig}))", "action": f"(:action pp :parameters ({sig}))"}[k]
    text = f"{pre} {body})"
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    x = list(d.predicates if k == "predicate" else d.functions if k == "function" else d.actions)[0]
    got = x.parameters if k == "action" else x.terms
    ctx.check_eq([(t.name, frozenset(t.type_tags)) for t in got], items, f"signature in {text}")


def many(ctx):
    """Declarations with 7 to 33 elements in one list."""
    from hx import big

    where = ctx.choice("where", ["constants", "types", "predicate", "function", "action", "predicates", "functions", "actions", "either"])
    ns = big.many(ctx, where)
    ts = ctx.choice("types", [["tt"], ["+", "+", "tt", "uu"], [None], ["+"]])
    t, items = grouped(ns, (ts * len(ns))[: len(ns)], "?" if where in ("predicate", "function", "action") else "")
    pre = "(define (domain dd) (:requirements :typing :fluents) (:types uu - tt tt ww)"
    tagged = [(n, frozenset([y]) if y else NOTYPE) for n, y in items]
    if where == "types":
        for n in ns:
            ctx.assume(n != "tt" and n != "uu")
        text = f"(define (domain dd) (:requirements :typing) (:types {t}))"
        return ctx.check_eq(frozenset(ctx.ok(parse_domain_text, text, what=text).types.items()), frozenset(items), f"types of {text}")
    if where == "either":
        text = f"(define (domain dd) (:requirements :typing) (:types {' '.join(ns)}) (:predicates (pp ?y ?z - (either {' '.join(ns)}))))"
        p = list(ctx.ok(parse_domain_text, text, what=text).predicates)[0]
        return ctx.check_eq([frozenset(v.type_tags) for v in p.terms], [frozenset(ns)] * 2, f"types in {text}")
    body = {"constants": f"(:constants {t})", "predicate": f"(:predicates (pp {t}))", "function": f"(:functions (ff {t}))", "action": f"(:action aa :parameters ({t}))",
            "predicates": "(:predicates " + " ".join([f"({n} ?x - tt)" for n in ns]) + ")", "functions": "(:functions " + " ".join([f"({n} ?x - tt) - number" for n in ns]) + ")",
            "actions": " ".join([f"(:action {n} :parameters (?x - tt))" for n in ns])}[where]
    text = f"{pre} {body})"
    d = ctx.ok(parse_domain_text, text, what=f"domain parser on {text}")
    if where == "constants":
        return ctx.check_eq(frozenset([(c.name, c.type_tag) for c in d.constants]), frozenset(items), f"constants of {text}")
    if where in ("predicate", "function", "action"):
        got = {"predicate": lambda: list(d.predicates)[0].terms, "function": lambda: list(d.functions)[0].terms, "action": lambda: list(d.actions)[0].parameters}[where]()
        return ctx.check_eq([(v.name, frozenset(v.type_tags)) for v in got], tagged, f"the {where} of {text}")
    got = {"predicates": lambda: [(p.name, p.terms[0].type_tags) for p in d.predicates], "functions": lambda: [(f.name, f.terms[0].type_tags) for f in d.functions],
           "actions": lambda: [(a.name, a.parameters[0].type_tags) for a in d.actions]}[where]()
    ctx.check_eq(frozenset([(n, frozenset(y)) for n, y in got]), frozenset([(n, frozenset(["tt"])) for n in ns]), f"{where} of {text}")


SCENARIOS = [
    Scenario("many", many, "one of 9 lists of a domain with 7 to 17 (thorough: 33) elements in 4 ways of typing, the element at any place symbolic"),
    Scenario("long", long, "9 kinds of lists with 5 (thorough: 6) symbolic distinct names in 6 groupings, 'either' of 2 to 4 types"),
    Scenario("header", header, "domain name, requirement subsets (windows of 3, none, all, repeated), optional sections"),
    Scenario("constants", constants, "constant lists of at most 3 (thorough: 4) symbolic names in every grouping over two types and 'object'"),
    Scenario("types", types, "type lists of at most 3 (thorough: 4) symbolic names in every grouping over two symbolic supertypes and 'object'"),
    Scenario("signatures", signatures, "signatures of at most 2 (thorough: 3) variables with symbolic names in every grouping over single, 'either' and 'object' types"),
    Scenario("symbolic-types", symbolic_types, "a signature over three symbolic types"),
    Scenario("several", several_predicates, "at most 3 predicates or functions with at most 2 parameters, names symbolic, '- number' in every place"),
    Scenario("total-cost", total_cost, "total-cost with or without another function"),
]
