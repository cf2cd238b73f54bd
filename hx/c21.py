"""C21: a parser object carries nothing from one parse to the next, and leaves sys.tracebacklimit alone."""

import sys

from hx.lib import Scenario, domain_parser, fixed, plan_parser, problem_parser

N = fixed(1)
UNSET = object()
FULL = ":adl :fluents :derived-predicates :non-deterministic :action-costs"


def limit():
    return getattr(sys, "tracebacklimit", UNSET)


def parse(ctx, parser, text):
    """Outcome of one parse; the traceback setting must be as before."""
    before = limit()
    ok, res = ctx.attempt(parser, text)
    after = limit()
    ctx.check(after is before or after == before, f"parsing {ctx.show(text)} changes sys.tracebacklimit to {'unset' if after is UNSET else after}")
    return ok, res


def reference(ctx, parser, text):
    ok, res = parse(ctx, parser, text)
    return ok, res if ok else ctx.show(res)


def compare(ctx, got, want, text, history):
    what = f"after {ctx.show(history)}, {ctx.show(text)}"
    ctx.check(got[0] == want[0], f"{what} is {'accepted' if got[0] else 'rejected'}, but {'accepted' if want[0] else 'rejected'} by a fresh parser: "
              f"{ctx.show(got[1])} / {ctx.show(want[1])}")
    if want[0]:
        ctx.check(got[1] == want[1] and want[1] == got[1], f"{what} gives another object than from a fresh parser: {ctx.show(str(got[1]))} / {ctx.show(str(want[1]))}")
        ctx.check(str(got[1]) == str(want[1]), f"{what} prints differently than from a fresh parser: {ctx.show(str(got[1]))} / {ctx.show(str(want[1]))}")


class Limit:
    """The interpreter-wide setting, one of several values, put back at the end."""

    def __init__(self, ctx):
        self.value = ctx.choice("limit", [UNSET, 0, 5, None] if ctx.thorough else [UNSET, 5])

    def __enter__(self):
        self.old = limit()
        self.set(self.value)

    def __exit__(self, *a):
        self.set(self.old)

    @staticmethod
    def set(v):
        if v is UNSET:
            if hasattr(sys, "tracebacklimit"):
                del sys.tracebacklimit
        else:
            sys.tracebacklimit = v


def sequence(ctx, make, histories, targets):
    """fresh(target) must be what the parser says after any history."""
    hs = [histories[ctx.choice("history", list(histories))]]
    if ctx.thorough and ctx.flag("two before"):
        hs.insert(0, histories[ctx.choice("history0", [k for k in list(histories)[::2]])])
    t = targets[ctx.choice("target", list(targets))]
    with Limit(ctx):
        want = ctx.pristine(lambda: reference(ctx, make(), t))
        parser, other = (make(), make()) if ctx.flag("first") else (make(), make())[::-1]
        for h in hs:
            parse(ctx, parser, h)
        got = parse(ctx, parser, t)
        compare(ctx, got, want, t, hs)
        compare(ctx, parse(ctx, parser, t), want, t, hs + [t])
        compare(ctx, parse(ctx, other, t), want, t, hs + [t])
        compare(ctx, parse(ctx, make(), t), want, t, hs + [t])


def dom(body, reqs="", name=N):
    return f"(define (domain {name}) {'(:requirements ' + reqs + ')' if reqs else ''} {body})"


LONG = "(:predicates " + " ".join(f"(a-long-list-of-predicates-{i})" for i in range(60)) + ")"


def domain_histories(t, c, p, x, a, f):
    full = (f"(:types {t}) (:constants {c} - {t}) (:predicates ({p} ?{x} - {t})) (:functions ({f}))"
            f"(:derived ({p} ?{x} - {t}) (exists (?{x} - {t}) ({p} ?{x})))"
            f"(:action {a} :parameters (?{x} - {t}) :precondition (and ({p} ?{x}) (forall (?{x} - {t}) (not ({p} {c})))) :effect (not ({p} ?{x})))")
    return {
        "full": dom(full, FULL),
        "adl": dom(f"(:constants {c}) (:action {a} :parameters (?{x}) :precondition (= ?{x} {c}))", ":adl"),
        "types": dom(f"(:types {t})", ":typing"),
        "constants": dom(f"(:constants {c})"),
        "predicates": dom(f"(:predicates ({p} ?{x}))"),
        "action": dom(f"(:action {a} :parameters (?{x}) :precondition ({p} ?{x}))"),
        "unknown variable": dom(f"(:constants {c}) (:action {a} :parameters (?{x}) :precondition ({p} ?{x}) :effect ({p} ?{f}))", FULL),
        "unknown variable below a quantifier": dom(f"(:action {a} :parameters () :precondition (forall (?{x}) (and ({p} ?{x}) ({p} ?{f}))))", FULL),
        "syntax error at the end": dom(full, FULL) + ")",
        "syntax error in an action": dom(f"(:types {t}) (:constants {c}) (:predicates ({p})) (:action {a} :parameters (?{x}) :precondition (and ({p} ?{x}) (:oops)))", FULL),
        "unknown type": dom(f"(:types {t}) (:constants {c} - {f})", FULL),
        "duplicate predicate": dom(f"(:types {t}) (:predicates ({p} ?{x}) ({p} ?{x}))", FULL),
        "missing requirement": dom(f"(:constants {c}) (:action {a} :parameters (?{x}) :precondition (not ({p} ?{x})))", ":strips"),
        "unknown requirement": dom("", ":fancy"),
        "garbage": "(define (problem",
        "empty": "",
        "long": dom(f"{LONG} (:action {a} :parameters (?{x}) :precondition ({p} ?{x}))"),
    }


def domain_targets(t, c, p, x, a, f):
    act = lambda pre, ps="": dom(f"(:action {a} :parameters ({ps}) :precondition {pre})")  # noqa: E731
    return {
        "full": domain_histories(t, c, p, x, a, f)["full"],
        "nothing": dom(""),
        "constant": act(f"({p} {c})"),
        "variable": act(f"({p} ?{x})"),
        "variable below": act(f"(and ({p} ?{x}) ({p}))", f"?{f}"),
        "own variable": act(f"({p} ?{x})", f"?{x}"),
        "negation": act(f"(not ({p}))"),
        "equality": act(f"(= ?{x} ?{x})", f"?{x}"),
        "disjunction": act(f"(or ({p}) ({p}))"),
        "quantifier": act(f"(forall (?{x}) ({p} ?{x}))"),
        "comparison": act(f"(>= ({f}) 1)"),
        "typed": dom(f"(:predicates ({p} ?{x} - {t}))", ":typing"),
        "typed without requirement": dom(f"(:types {t}) (:predicates ({p} ?{x} - {t}))"),
        "types": dom(f"(:types {t})", ":typing"),
        "no types": dom(f"(:constants {c} - {t})", ":typing"),
        "derived": dom(f"(:derived ({p} ?{x}) ({a} ?{x}))", ":derived-predicates"),
        "derived declared": dom(f"(:predicates ({p} ?{x})) (:derived ({p} ?{x}) ({a} ?{x}))", ":derived-predicates"),
        "function": dom(f"(:functions ({f} ?{x}))", ":numeric-fluents"),
        "effects": dom(f"(:action {a} :parameters (?{x}) :effect (and (when ({p} ?{x}) (not ({p} ?{x}))) (forall (?{f}) ({p} ?{f}))))", ":adl"),
        "duplicate": dom(f"(:predicates ({p}) ({p}))"),
        "long": dom(f"{LONG} (:action {a} :parameters (?{x}) :effect ({p} ?{x}))"),
    }


def domains(ctx):
    hn = ctx.distinct_names("h", 6)
    same = ctx.flag("same names")
    tn = hn if same else ctx.distinct_names("t", 6)
    sequence(ctx, domain_parser, domain_histories(*hn), domain_targets(*tn))


def shared(ctx):
    """One name of the history may occur in any role in the next text."""
    hn = ctx.distinct_names("h", 6)
    i, j = ctx.pick("role before", 4), ctx.pick("role after", 4)
    tn = ctx.distinct_names("t", 6)
    tn[j] = hn[i]
    ctx.distinct(tn)
    hs, ts = domain_histories(*hn), domain_targets(*tn)
    sequence(ctx, domain_parser, {k: hs[k] for k in ("full", "unknown variable", "predicates")},
             {k: ts[k] for k in ("constant", "variable", "own variable", "derived", "typed", "duplicate")})


def domain_pieces(s, t):
    """Variants of every part of one domain; the first one of each goes with the first ones of the others."""
    return {
        "reqs": [FULL, "", ":strips", ":typing :fluents :derived-predicates", ":adl :derived-predicates", ":typing :derived-predicates :action-costs"],
        "types": [f"(:types {s} - {t} {t})", f"(:types {t} - {s} {s})", f"(:types {s} {t})", "", f"(:types {s} - object {t})"],
        "constants": [f"(:constants c - {s})", "(:constants c)", f"(:constants c - {t})", "", f"(:constants c d - {s})"],
        "predicates": [f"(:predicates (q0) (p ?x - {s}))", "(:predicates (p ?x))", f"(:predicates (p ?x - {t}))", "(:predicates (p))",
                       f"(:predicates (p ?x - (either {s} {t})) (q0 ?x))", "(:predicates (p ?x - object))", ""],
        "functions": ["(:functions (f) (total-cost) - number)", f"(:functions (f ?x - {s}))", "(:functions (f) - number)", "", "(:functions (total-cost))"],
        "derived": [f"(:derived (p ?x - {s}) (q0 ?x))", "", "(:derived (p ?x) (q0))", f"(:derived (p ?y - {t}) (q0 ?y))", "(:derived (p) (and))"],
        "params": [f"?x - {s}", "", "?x", f"?x - {t}", f"?x - (either {s} {t})", "?y ?x"],
        "pre": ["(q0 ?x)", "(and)", "(q0 c)", "(or (q0) (not (q0 ?x)))", f"(forall (?x - {t}) (q0 ?x))", "(= ?x c)", "(exists (?y) (q0 ?y ?x))", "(> (f) 3)"],
        "eff": ["(q0 ?x)", "(and)", "(when (q0 ?x) (not (q0 ?x)))", "(oneof (q0) (q0 c))", "(increase (f) 1)", f"(forall (?z - {s}) (q0 ?z))"],
    }


def domain_of(v):
    return dom(f"{v['types']} {v['constants']} {v['predicates']} {v['functions']} {v['derived']} "
               f"(:action a :parameters ({v['params']}) :precondition {v['pre']} :effect {v['eff']})", v["reqs"])


def problem_pieces(s, t):
    return {
        "reqs": [FULL, "", ":strips", ":typing :negative-preconditions", ":numeric-fluents"],
        "objects": [f"(:objects c - {s} d - {t})", "(:objects c d)", f"(:objects c - {t} d - {s})", "", f"(:objects c d - {s})", "(:objects c d c)"],
        "init": [f"(p c d)", "(p c)", "", "(not (p c)) (p d)", "(= (f c) 3)", "(= (f) 1) (= (f c) 1.5)", "(p e)"],
        "goal": ["(p c)", "(and)", "(not (p c))", "(or (p c) (p d))", f"(forall (?x - {s}) (p ?x))", "(exists (?x) (p ?x c))", "(= c d)", "(> (f c) 1)", "(p ?x)"],
        "metric": ["", "(:metric minimize (f))", "(:metric maximize (f c))", "(:metric minimize (total-cost))", "(:metric minimize (+ (f) 2))"],
    }


def problem_of(v):
    return prob(v["objects"], v["reqs"], f"(:init {v['init']}) (:goal {v['goal']}) {v['metric']}")


def variants(ctx, pieces, text_of, make):
    """Two texts that differ in one part (thorough: two), any other part varied in both alike."""
    parts = list(pieces)
    i = ctx.pick("varied", len(parts))
    j = ctx.pick("alike", len(parts))
    ctx.assume(i != j)
    v = {k: pieces[k][0] for k in parts}
    w = dict(v)
    v[parts[i]] = ctx.choice("before", pieces[parts[i]])
    w[parts[i]] = ctx.choice("after", pieces[parts[i]])
    v[parts[j]] = w[parts[j]] = ctx.choice("both", pieces[parts[j]])
    if ctx.thorough:
        k = ctx.pick("also", len(parts))
        ctx.assume(k != i and k != j)
        v[parts[k]] = ctx.choice("also before", pieces[parts[k]][:3])
    h, t = text_of(v), text_of(w)
    want = ctx.pristine(lambda: reference(ctx, make(), t))
    parser = make()
    parse(ctx, parser, h)
    compare(ctx, parse(ctx, parser, t), want, t, [h])
    compare(ctx, parse(ctx, make(), t), want, t, [h, t])


def domain_variants(ctx):
    variants(ctx, domain_pieces(*ctx.distinct_names("t", 2)), domain_of, domain_parser)


def problem_variants(ctx):
    variants(ctx, problem_pieces(*ctx.distinct_names("t", 2)), problem_of, problem_parser)


def prob(body, reqs="", tail="(:init) (:goal (and))"):
    return f"(define (problem {N}) (:domain {N}) {'(:requirements ' + reqs + ')' if reqs else ''} {body} {tail})"


def problem_histories(t, c, p, x, f, _):
    return {
        "full": prob(f"(:objects {c} - {t})", FULL, f"(:init ({p} {c}) (= ({f}) 3)) (:goal (not ({p} {c}))) (:metric minimize ({f}))"),
        "strips": prob(f"(:objects {c})", ":strips", f"(:init ({p} {c})) (:goal ({p} {c}))"),
        "no requirements": prob(f"(:objects {c})", "", f"(:init) (:goal (or ({p} {c})))"),
        "metric": prob("", ":numeric-fluents", f"(:init (= ({f}) 1.5)) (:goal (and)) (:metric maximize (+ ({f}) 2))"),
        "missing requirement": prob(f"(:objects {c})", ":strips", f"(:init) (:goal (not ({p} {c})))"),
        "unknown requirement": prob(f"(:objects {c})", ":fancy"),
        "unknown object": prob(f"(:objects {c})", ":strips", f"(:init ({p} {x})) (:goal (and))"),
        "quantified goal": prob(f"(:objects {c})", FULL, f"(:init) (:goal (exists (?{x}) ({p} ?{x})))"),
        "unknown variable": prob(f"(:objects {c})", FULL, f"(:init) (:goal (exists (?{x}) ({p} ?{f})))"),
        "duplicate object": prob(f"(:objects {c} {c})"),
        "syntax error": prob(f"(:objects {c} - {t})", FULL) + ")",
        "garbage": "(define (domain",
    }


def problem_targets(t, c, p, x, f, _):
    g = lambda goal, reqs="": prob("", reqs, f"(:init) (:goal {goal})")  # noqa: E731
    return {
        "full": problem_histories(t, c, p, x, f, _)["full"],
        "nothing": prob(""),
        "object in init": prob("", "", f"(:init ({p} {c})) (:goal (and))"),
        "object in goal": g(f"({p} {c})"),
        "negated goal": g(f"(not ({p}))", ":strips"),
        "negated goal without requirements": g(f"(not ({p}))"),
        "disjunction": g(f"(or ({p}) ({p}))", ":strips"),
        "quantified": g(f"(forall (?{x}) ({p} ?{x}))", ":strips"),
        "variable": g(f"({p} ?{x})"),
        "variable below": g(f"(exists (?{f}) ({p} ?{x}))"),
        "equality": prob(f"(:objects {c})", ":strips", f"(:init) (:goal (= {c} {c}))"),
        "typed": prob(f"(:objects {c} - {t})"),
        "metric": prob("", "", f"(:init (= ({f}) 1)) (:goal (and)) (:metric minimize ({f}))"),
        "duplicate": prob(f"(:objects {c} {c})"),
    }


def problems(ctx):
    hn = ctx.distinct_names("h", 6)
    tn = hn if ctx.flag("same names") else ctx.distinct_names("t", 6)
    sequence(ctx, problem_parser, problem_histories(*hn), problem_targets(*tn))


def lists(v, x, y, t, u):
    x, y = v + x, v + y
    return [f"{x}", f"{x} {x}", f"{x} {y}", f"{x} - {t}", f"{x} - {t} {x} - {u}", f"{x} - {t} {x} - {t}", f"{x} {y} - {t}", f"{x} - {t} {y}",
            f"{x} - (either {t} {u})", f"{x} - (either {t} {u}) {x} - {t}", ""]


def in_roles(ctx, i, names):
    """Texts in which one list stands in the place of each kind of list: the parser, and the text."""
    c, q = lists("", *names)[i], lists("?", *names)[i]
    tp = f"(:types {names[2]} {names[3]})"
    return {
        "types": (domain_parser, dom(f"(:types {c})", FULL)),
        "constants": (domain_parser, dom(f"{tp} (:constants {c})", FULL)),
        "predicate": (domain_parser, dom(f"{tp} (:predicates (p {q}))", FULL)),
        "function": (domain_parser, dom(f"{tp} (:functions (p {q}))", FULL)),
        "derived": (domain_parser, dom(f"{tp} (:derived (p {q}) (and))", FULL)),
        "parameters": (domain_parser, dom(f"{tp} (:action a :parameters ({q}) :effect (p))", FULL)),
        "quantifier": (domain_parser, dom(f"{tp} (:action a :parameters () :precondition (exists ({q}) (p ?{names[0]})))", FULL)),
        "effect": (domain_parser, dom(f"{tp} (:action a :parameters () :effect (forall ({q}) (p ?{names[0]})))", FULL)),
        "objects": (problem_parser, prob(f"(:objects {c})")),
        "goal": (problem_parser, prob("", FULL, f"(:init) (:goal (forall ({q}) (p ?{names[0]})))")),
    }


def roles(ctx):
    """The same list, or one over the same names, read in one place and then in another one, possibly by the other kind of parser."""
    names = ctx.distinct_names("n", 4)
    h = ctx.pick("list", 11)
    t = ctx.pick("target", 11) if ctx.thorough else h
    a, b = in_roles(ctx, h, names), in_roles(ctx, t, names)
    mh, th = a[ctx.choice("before", list(a))]
    mt, tt = b[ctx.choice("after", list(b))]
    want = ctx.pristine(lambda: reference(ctx, mt(), tt))
    first, second = mh(), mt()
    if mh is mt and ctx.flag("one parser"):
        first = second
    parse(ctx, first, th)
    compare(ctx, parse(ctx, second, tt), want, tt, [th])


def alternating(ctx):
    """Four parses by two parsers of one kind, of texts over the same names."""
    names = ctx.distinct_names("n", 6)
    k = ctx.choice("kind", ["domain", "problem"])
    make, hs, ts = ((domain_parser, domain_histories(*names), domain_targets(*names)) if k == "domain" else
                    (problem_parser, problem_histories(*names), problem_targets(*names)))
    h = hs[ctx.choice("history", list(hs)[:: 1 if ctx.thorough else 2])]
    t, u = [ts[ctx.choice(x, list(ts)[i :: 1 if ctx.thorough else 3])] for i, x in enumerate(("one", "two"))]
    wt, wu = ctx.pristine(lambda: reference(ctx, make(), t)), ctx.pristine(lambda: reference(ctx, make(), u))
    a, b = make(), make()
    parse(ctx, a, h)
    compare(ctx, parse(ctx, b, t), wt, t, [h])
    compare(ctx, parse(ctx, a, u), wu, u, [h, t])
    compare(ctx, parse(ctx, b, u), wu, u, [h, t, u])
    compare(ctx, parse(ctx, a, t), wt, t, [h, t, u, u])


def plans(ctx):
    h, t = ctx.names("h", 3), ctx.names("t", 3)
    texts = lambda a, c, d: {  # noqa: E731
        "one": f"({a} {c} {d})", "two": f"({a} {c})\n({d})", "none": "", "open": f"({a} {c}", "variable": f"({a} ?{c})",
        "comment": f"; {a}\n({c})", "closed": f"({a}))", "nested": f"(({a}))", "number": f"({a} 1)",
    }
    sequence(ctx, plan_parser, texts(*h), texts(*t))


def failing_fresh(ctx):
    """The traceback setting after the construction of parsers and after each kind of failure."""
    k = ctx.choice("parser", ["domain", "problem", "plan"])
    mk = {"domain": domain_parser, "problem": problem_parser, "plan": plan_parser}[k]
    with Limit(ctx):
        b = limit()
        p = mk()
        ctx.check(limit() is b, "constructing a parser changes sys.tracebacklimit")
        for bad in ("", "(", ")", "(define", None, 5, b"(define)", "(define (domain a) (:requirements :x))"):
            parse(ctx, p, bad)


SCENARIOS = [
    Scenario("domains", domains, "17 texts parsed before (9 rejected) times 21 domain texts, 6 symbolic names each, the same or independent; thorough: two texts before"),
    Scenario("domain-variants", domain_variants, "two domains of 9 parts that differ in one part (5 to 8 variants), with any variant of another part in both (thorough: a third part differs too), symbolic types"),
    Scenario("problem-variants", problem_variants, "two problems of 5 parts in the same way"),
    Scenario("shared", shared, "a symbolic name of the text before in another role of the next one"),
    Scenario("problems", problems, "12 texts parsed before (6 rejected) times 14 problem texts, 5 symbolic names each; thorough: two texts before"),
    Scenario("roles", roles, "11 typed lists over 4 symbolic names in 10 places of a text, followed by the same one (thorough: any of them) in any of the places"),
    Scenario("alternating", alternating, "four parses by two parsers: a history text and two targets over the same symbolic names, in alternation"),
    Scenario("plans", plans, "9 by 9 plan texts, 3 symbolic names each"),
    Scenario("traceback", failing_fresh, "traceback setting unset or set, after construction and 8 bad inputs"),
]
