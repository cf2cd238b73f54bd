"""C30: whatever is rejected is rejected with an error about the input: a parse error of lark or a PDDLError for texts,
PDDLError or ValueError for constructors and checks; a missing requirement that is named is really missing."""

from hx import c27
from hx.c27 import FEW, TEXTS, split
from hx.lib import FULL, REQ_TEXT, Scenario, fixed, parse_domain_text, parse_problem_text

N, M = fixed(1), fixed(2)


def proper(e):
    from lark.exceptions import LarkError
    from pddl.exceptions import PDDLError

    return isinstance(e, (LarkError, PDDLError))


def decide(ctx, which, toks, compact=False):
    text = c27.written(toks, lambda t: t.text, compact)
    ok, res = ctx.attempt(c27.PARSERS[which], text)
    if ok:
        ctx.nacc += 1
        return
    ctx.nrej += 1
    ctx.check(proper(res), f"the {which} {' '.join([t.word() for t in toks]) if not proper(res) else text} is rejected with {type(res).__name__}: {ctx.show(res)}")


STRANGE = ["\x00", "\x0b", "\x85", "\u2028", "\ud7ff", "\U0001f600", "'", "\\", "%s", "{0}", "$END", ":", "::", "?:", "-1", "1e5", "1.5.2", "=>", ";", "--", "00"]


def vocabulary(ctx, lb):
    # one word for each kind of token, several for names and reserved words, and strange ones
    keep = ["(", ")", "-", "?", "=", ">", "+", "/", "7", "1.5", "and", "or", "not", "imply", "forall", "exists", "when", "oneof", "either", "object",
            "assign", "increase", "minimize", "define", "domain", "total-cost", "number", ":types", ":predicates", ":functions", ":constants", ":derived",
            ":action", ":parameters", ":precondition", ":effect", ":requirements", ":typing", ":init", ":goal", ":metric", ":objects", ":domain", "#"]
    return [("", ctx.name(lb))] + [("", w) for w in keep] + [("", w) for w in STRANGE]


def window(names, old, new):
    def run(ctx):
        which, text = TEXTS[ctx.choice("text", names)]
        pre, mid, post = split(text)
        r = ctx.choice("removed", old)
        k = ctx.choice("given", new)
        p = ctx.pick("position", len(mid) - r + 1)
        decide(ctx, which, pre + mid[:p] + [ctx.token(f"t{i}", vocabulary(ctx, f"n{i}")) for i in range(k)] + mid[p + r:] + post)

    return run


def via(fn):
    """A scenario of C27 that judges the errors instead of the acceptance."""

    def run(ctx):
        old = c27.decide
        c27.decide = decide
        try:
            fn(ctx)
        finally:
            c27.decide = old

    return run


def text_error(ctx, parse, text):
    ok, e = ctx.attempt(parse, text)
    if ok:
        ctx.nacc += 1
    else:
        ctx.nrej += 1
        ctx.check(proper(e), f"{ctx.show(text)} is rejected with {type(e).__name__}: {ctx.show(e)}")


def pool(ctx, n):
    """Symbolic names and words with a meaning, which may stand anywhere a name is expected."""
    return ctx.names("n", n) + ["object", "number", "total-cost", "either", "and"]


LISTS = {
    "types": "(:types {list})",
    "constants": "(:types {a}) (:constants {list})",
    "predicates": "(:types {a}) (:predicates {skeletons})",
    "functions": "(:types {a}) (:functions {skeletons})",
    "numbered": "(:types {a}) (:functions {numbered})",
    "parameters": "(:types {a}) (:action {b} :parameters ({variables}) :precondition (and))",
    "quantifier": "(:types {a}) (:action {b} :parameters () :precondition (forall ({variables}) ({b} {ts})))",
    "effect": "(:types {a}) (:action {b} :parameters () :effect (forall ({variables}) ({b} {ts})))",
    "derived": "(:types {a}) (:predicates ({b} {variables})) (:derived ({b} {variables2}) (and))",
}


def declarations(ctx):
    """Lists of any names, repeated or not, with any types."""
    what = ctx.choice("what", list(LISTS))
    ns = pool(ctx, 2)
    two = what not in ("types", "derived") and not ctx.thorough
    items = [ns[ctx.pick(f"item{i}", len(ns))] for i in range(2 + (0 if two else ctx.pick("three", 2)))]
    ts = [ns[0], ns[1], "object", f"(either {ns[0]} {ns[1]})", f"(either {ns[1]} {ns[1]})", None]
    tags = [ts[ctx.pick(f"tag{i}", len(ts))] for i in range(len(items))] if len(items) < 3 else [None, ts[ctx.pick("tag1", 3)], ts[ctx.pick("tag2", 6)]]

    def lst(mark="", of=None):
        return " ".join([mark + n + (f" - {t}" if t else "") for n, t in zip(of or items, tags)])

    v = lst("?")
    body = LISTS[what].format(list=lst(), a=ns[0], b=fixed(3), skeletons=" ".join([f"({n}{' ?x - ' + t if t else ''})" for n, t in zip(items, tags)]),
                              numbered=" ".join([f"({n}){' - number' if t else ''}" for n, t in zip(items, tags)]), variables=v,
                              variables2=v if ctx.flag("same") else lst("?", items[::-1]), ts=" ".join(["?" + n for n in items])) \
        if what == "derived" else LISTS[what].format(list=lst(), a=ns[0], b=fixed(3), variables=v, ts=" ".join(["?" + n for n in items]),
                                                      skeletons=" ".join([f"({n}{' ?x - ' + t if t else ''})" for n, t in zip(items, tags)]),
                                                      numbered=" ".join([f"({n}){' - number' if t else ''}" for n, t in zip(items, tags)]))
    r = ctx.choice("requirements", ["(:requirements :typing :adl :fluents :derived-predicates)", ""])
    text_error(ctx, parse_domain_text, f"(define (domain {N}) {r} {body})")


USES = [":precondition ({p} {t} {u})", ":precondition (= {t} {u})", ":precondition (not ({p} {t}))", ":precondition (>= ({p} {t}) (* 2 ({q} {u})))",
        ":precondition (exists ({t0}) (and ({p} {t}) ({q} {u})))", ":precondition (imply (or) (and ({p} {t}) (or ({q} {u}))))",
        ":effect ({p} {t} {u})", ":effect (when ({p} {t}) (and ({q} {u}) (not ({p} {u}))))", ":effect (forall ({t0}) (oneof ({p} {t}) (increase ({q} {u}) 1)))",
        ":effect (assign ({p} {t}) (- ({q} {u})))", ":effect (scale-up ({p} {t} {t}) ({q}))", ":effect (and (increase (total-cost) ({q} {u})))"]


def uses(ctx):
    """Names and variables, declared or not, in all kinds of conditions and effects."""
    ns = ctx.names("n", 2)
    terms = ["?" + ns[0], "?" + ns[1], ns[0], ns[1]]
    t, u = terms[ctx.pick("t", 4)], terms[ctx.pick("u", 4)]
    p, q = [[ns[0], ns[1]], [ns[1], ns[1]], [fixed(4), ns[0]], ["total-cost", ns[0]]][ctx.pick("heads", 4)]
    params = ctx.choice("parameters", ["", "?{0}", "?{0} - {1} ?{1}", "?{0} ?{1} - (either {0} {1})"]).format(*ns)
    decl = ctx.choice("declared", ["", "(:types {0}) (:constants {1} - {0}) (:predicates ({0} ?{1} - {0} ?{0}))",
                                   "(:constants {0}) (:predicates ({1} ?{0})) (:functions ({0} ?{1}) (total-cost))"]).format(*ns)
    use = ctx.choice("use", USES).format(p=p, q=q, t=t, u=u, t0="?" + ns[0])
    r = ctx.choice("requirements", ["(:requirements :typing :adl :fluents :non-deterministic :action-costs)", "(:requirements :typing :fluents)"])
    body = f"(:action {fixed(5)} :parameters ({params}) {use})"
    text_error(ctx, parse_domain_text, f"(define (domain {N}) {r} {decl} {body})")


def problems(ctx):
    """Problems with any names, declared or not, repeated or not."""
    ns = ctx.names("n", 2)
    objs = ctx.choice("objects", ["", "(:objects {0})", "(:objects {0} {1})", "(:objects {0} - {1} {1} - {0})", "(:objects {0} - {1} {1} - object)",
                                  "(:objects {0} - (either {0} {1}))", "(:objects {0} object)", "(:objects)"]).format(*ns)
    init = ctx.choice("init", ["", "({0} {1})", "(not ({0} {1})) ({0} {1})", "(= ({0}) 1) (= ({0}) 2)", "(= ({0} {1}) 0.5)", "(= (total-cost) 0)", "(= {0} 3)",
                               "({0} {0} {1} {0})", "(= {0} {1})"]).format(*ns)
    goal = ctx.choice("goal", ["({0} {1})", "(and)", "()", "(or ({0} {0}) ({1}))", "(forall (?{0}) ({1} ?{0}))", "({0} ?{1})", "(= {0} {1})", "(> ({0}) 3)"]).format(*ns)
    metric = ctx.choice("metric", ["", "(:metric minimize (total-cost))", "(:metric maximize ({0} {1}))", "(:metric minimize {0})", "(:metric minimize (- 3))"]).format(*ns)
    r = ctx.choice("requirements", ["(:requirements :adl :fluents)", ""])
    text_error(ctx, parse_problem_text, f"(define (problem {N}) (:domain {ns[0]}) {r} {objs} (:init {init}) (:goal {goal}) {metric})")


def missing(ctx):
    """A missing requirement that is named is not among the stated ones, and adding it removes this error."""
    from pddl.exceptions import PDDLMissingRequirementError

    p = ctx.name("p")
    conds = ["(or ({p}))", "(imply ({p}) ({p}))", "(forall (?x) ({p} ?x))", "(exists (?x) ({p} ?x))", "(= ?{p} ?{p})", "(not (or ({p})))", "(> (f) 3)",
             "(forall (?x) (exists (?y) (or ({p} ?x) (= ?x ?y))))", "(and ({p}) (exists (?x) (imply ({p} ?x) (forall (?y) ({p})))))"]
    c = ctx.choice("condition", conds).format(p=p)
    place = ctx.choice("place", ["precondition", "derived", "when", "oneof", "types", "goal"])
    mask = {"none": [], "typing": ["TYPING"], "fluents": ["FLUENTS"]}
    on = list(mask[ctx.choice("others", list(mask))])
    for r in ("DIS_PRECONDITION", "UNIVERSAL_PRECONDITION", "EQUALITY", "EXISTENTIAL_PRECONDITION"):
        if ctx.flag(r):
            on.append(r)
    if place in ("oneof", "types"):
        c = "({p})".format(p=p) if len(on) % 2 else c

    def text(on):
        rs = f"(:requirements {' '.join([REQ_TEXT[r] for r in on])})" if on else ""
        body = {"precondition": f"(:action a :parameters (?{p}) :precondition {c})", "derived": f"(:predicates ({p} ?x)) (:derived ({p} ?x) {c})",
                "when": f"(:action a :parameters () :effect (forall (?x) (when {c} ({p}))))",
                "oneof": f"(:action a :parameters () :precondition (not {c}) :effect (oneof ({p}) ({p})))",
                "types": f"(:types {p} - object) (:action a :parameters () :precondition {c})", "goal": ""}[place]
        if place == "goal":
            return f"(define (problem {N}) (:domain {M}) {rs} (:init) (:goal {c.replace('?' + p, p)}))"
        return f"(define (domain {N}) {rs} {body})"

    parse = parse_problem_text if place == "goal" else parse_domain_text
    named = []
    for _ in range(8):
        ok, e = ctx.attempt(parse, text(on))
        if ok or not isinstance(e, PDDLMissingRequirementError):
            break
        name = e.requirement.name
        ctx.check(name in FULL and name not in on, f"{ctx.show(text(on))} is rejected because {name} is missing")
        ctx.check(str(e.requirement) in str(e), f"the error for {ctx.show(text(on))} is {str(e)!r} and does not name {e.requirement}")
        named.append(name)
        on = on + [name]
    else:
        ctx.fail(f"{ctx.show(text(on))} is still rejected for a requirement after {named} were added")
    if ok:
        ctx.nacc += 1
    else:
        ctx.nrej += 1
        ctx.check(proper(e), f"{ctx.show(text(on))} is rejected with {type(e).__name__}: {ctx.show(e)}")


def checks(ctx):
    """Checks of problems and plans against domains, plan and action instantiation, calls, attached domains."""
    from pddl.action import Action
    from pddl.core import Domain, Plan, Problem
    from pddl.exceptions import PDDLError
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable
    from pddl.requirements import Requirements

    ns = ctx.names("n", 2)
    t = [ns[0], ns[1], None, "object"][ctx.pick("type", 4)]
    var, obj = Variable(ns[0], [ns[0]]), Constant(ns[1], t)
    typing = {Requirements.TYPING} if ctx.flag("typing") else set()
    act = Action(ns[0], [var][:ctx.pick("parameters", 2)], Predicate(ns[0], var) if ctx.flag("pre") else None, None)
    ok, d = ctx.attempt(Domain, N, requirements=typing, types={ns[0]: None} if ctx.flag("types") else {}, actions=[act],
                        constants=[Constant(ns[0], ns[0])] if ctx.flag("constant") else [])
    if not ok:
        ctx.nrej += 1
        ctx.check(isinstance(d, (PDDLError, ValueError)), f"a domain is rejected with {type(d).__name__}: {ctx.show(d)}")
        return
    what = ctx.choice("what", ["check", "attach", "with domain", "plan", "instantiate", "action"])
    name = [N, ns[1]][ctx.pick("name", 2)]
    args = [obj, Constant(ns[0])][:ctx.pick("args", 3)]

    def problem():
        return Problem("pp", domain_name=name, objects=[obj], init=[Predicate(ns[1], obj)], goal=Predicate(ns[0], obj),
                       requirements=[Requirements.TYPING] if ctx.flag("its typing") else None)

    def go():
        if what == "check":
            problem().check(d)
        elif what == "attach":
            problem().domain = d
        elif what == "with domain":
            Problem("pp", domain=d, domain_name=name, objects=[obj], requirements=[Requirements.TYPING] if ctx.flag("its typing") else None)
        elif what == "plan":
            Plan([(ns[1], args), (ns[0], [obj])]).check(d, problem())
        elif what == "instantiate":
            Plan([(ns[1], args), (ns[0], [obj])]).instantiate(d)
        else:
            act.instantiate(args)

    ok, e = ctx.attempt(go)
    if ok:
        ctx.nacc += 1
    else:
        ctx.nrej += 1
        ctx.check(isinstance(e, (PDDLError, ValueError)), f"{what} is rejected with {type(e).__name__}: {ctx.show(e)}")


def deep(ctx):
    """Deep and long texts, well-formed or broken at the innermost place."""
    n = ctx.choice("depth", [1, 7, 30, 60])
    inner = ctx.choice("inner", ["({p})", "(= ?{p} ?{p})", "()", "({p} {p})", "({p}", "({p}))", "(and ({p})) ({p})", "7", "?{p}"]).format(p=ctx.name("p"))
    link = ctx.choice("link", ["(not {})", "(and {0} {0})", "(or (a) {})", "(imply {} (and))", "(forall (?x) {})", "(exists (?x - object ?y) {})", "(and (not {}) (b))"])
    for _ in range(n if "{0} {0}" not in link else min(n, 7)):
        inner = link.format(inner)
    where = ctx.choice("where", ["precondition", "when", "derived", "goal"])
    r = "(:requirements :adl :derived-predicates)" if ctx.flag("adl") else ""
    if where == "goal":
        text_error(ctx, parse_problem_text, f"(define (problem {N}) (:domain {M}) {r} (:init) (:goal {inner}))")
    else:
        body = {"precondition": f"(:action a :parameters (?z) :precondition {inner})", "when": f"(:action a :parameters (?z) :effect (forall (?w) (when {inner} (b))))",
                "derived": f"(:predicates (b)) (:derived (b) {inner})"}[where]
        text_error(ctx, parse_domain_text, f"(define (domain {N}) {r} {body})")


SCENARIOS = [
    Scenario("declarations", declarations, "9 kinds of lists of 2 to 3 names: 2 symbolic ones and 5 words with a meaning in any combination, with 6 types each, with and without requirements"),
    Scenario("uses", uses, "12 kinds of conditions and effects over 2 symbolic names as variables, constants, predicates, functions and types, declared or not"),
    Scenario("problems", problems, "8 object lists, 9 initial states, 8 goals, 5 metrics over 2 symbolic names"),
    Scenario("missing", missing, "9 gated conditions in 6 places under any of 4 requirements and others: the missing requirement is named, added, and so on until none is missing"),
    Scenario("checks", checks, "problems, plans and actions over 2 symbolic names that serve as types, predicates, objects, actions and domain names"),
    Scenario("deep", deep, "formulas of 4 depths up to 60, 7 connectives, 9 innermost texts (right and wrong), 4 places"),
    Scenario("one", window(list(TEXTS), [0, 1, 2], [1]), "18 texts, at most 2 consecutive tokens replaced by one of 65 words, 21 of them strange"),
    Scenario("two", window(FEW, [0, 1], [2]), "3 texts, at most 1 token replaced by any two of 65 words", quick=False),
    Scenario("exchange", via(c27.exchange), "a stretch of at most 6 tokens of 18 texts repeated or left out, texts cut or doubled, with another token at the end or not; usual spacing, or spaces everywhere"),
    Scenario("sections", via(c27.sections), "every sequence of at most 3 (problems: 5, actions: 4) parts; usual spacing, or spaces everywhere"),
]
