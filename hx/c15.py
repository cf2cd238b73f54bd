"""C15: gated constructs parse only under a requirement that allows them."""

from hx.lib import FULL, REQ_TEXT, Scenario, fixed, parse_domain_text, parse_problem_text

DIS = ("DIS_PRECONDITION", "ADL")
UNI = ("UNIVERSAL_PRECONDITION", "QUANTIFIED_PRECONDITION", "ADL")
EXI = ("EXISTENTIAL_PRECONDITION", "QUANTIFIED_PRECONDITION", "ADL")
EQU = ("EQUALITY", "ADL")
NON = ("NON_DETERMINISTIC",)
TYP = ("TYPING", "ADL")
NUM = ("NUMERIC_FLUENTS", "FLUENTS")

CONDS = {
    "or": ("(or ({p}) ({q}))", DIS),
    "or of one": ("(or ({p}))", DIS),
    "empty or": ("(or)", DIS),
    "imply": ("(imply ({p}) ({q}))", DIS),
    "forall": ("(forall (?x) ({p} ?x))", UNI),
    "forall without variables": ("(forall () ({p}))", UNI),
    "exists": ("(exists (?x) ({p} ?x))", EXI),
    "exists without variables": ("(exists () ({p}))", EXI),
    "equality": ("(= ?x ?y)", EQU),
    "nothing gated": ("(and (not ({p})) (> (fn) 3))", None),
}
PLACES = {
    "precondition": "(:action a :parameters () :precondition {c} :effect ({q}))",
    "in a conjunction": "(:action a :parameters () :precondition (and ({q}) {c}))",
    "under not": "(:action a :parameters () :precondition (and ({q}) (not {c})))",
    "when-condition": "(:action a :parameters () :precondition () :effect (when {c} ({q})))",
    "inner when-condition": "(:action a :parameters () :effect (and ({q}) (forall (?z) (when (and ({q} ?z) (not {c})) ({q})))))",
    "derived condition": "(:derived (d ?w) {c})",
    "deep in a derived condition": "(:derived (d ?w) (and (not (and ({q} ?w) {c})) ({q})))",
    "second action": "(:action a :parameters ()) (:action b :parameters (?x ?y) :precondition {c})",
}
EFFS = {
    "oneof": "(oneof ({p}) ({q}))",
    "oneof of one": "(oneof ({p}))",
    "oneof in and": "(and ({q}) (oneof ({p}) (and ({q}) ({p}))))",
    "oneof in forall": "(forall (?x) (oneof ({p} ?x) ({q})))",
    "oneof in oneof": "(oneof (oneof ({p}) ({q})) ({q}))",
    "deep oneof": "(and ({q}) (forall (?x) (and ({p}) (oneof (when ({p}) ({q})) ({p} ?x)))))",
}


def stated(ctx, relevant, full_others):
    """Any subset of the relevant requirements, with none, all or a single one of the other requirements."""
    on = [r for r in relevant if ctx.flag("req." + r)]
    others = [r for r in FULL if r not in relevant]
    if full_others or ctx.thorough:
        k = ctx.pick("others", 2 + len(others))
    else:
        k = ctx.pick("others", 2)
    on += [] if k == 0 else others if k == 1 else [others[k - 2]]
    if ctx.flag("reversed"):
        on.reverse()
    return on


def reqs_text(on):
    return "(:requirements " + " ".join(REQ_TEXT[r] for r in on) + ")" if on else ""


def verdict(ctx, text, want, parse=parse_domain_text):
    ok, res = ctx.attempt(parse, text)
    if want:
        ctx.accepted(ok, res, text)
    else:
        ctx.rejected(ok, text)


def names(ctx):
    return ctx.name("p"), ctx.name("q")


def domain_condition(ctx):
    c, allowed = CONDS[ctx.choice("construct", list(CONDS))]
    place = ctx.choice("place", list(PLACES))
    p, q = names(ctx)
    on = stated(ctx, allowed or ("ADL",), place == "precondition")
    body = PLACES[place].replace("{c}", c).format(p=p, q=q)
    want = allowed is None or any(a in on for a in allowed)
    verdict(ctx, f"(define (domain dd) {reqs_text(on)} (:predicates (d ?w)) {body})", want)


def domain_effect(ctx):
    e = EFFS[ctx.choice("effect", list(EFFS))]
    p, q = names(ctx)
    on = stated(ctx, NON, True)
    pre = ctx.choice("before", ["", ":precondition ({q})"])
    body = f"(:action a :parameters () {pre} :effect {e})".format(p=p, q=q)
    verdict(ctx, f"(define (domain dd) {reqs_text(on)} (:predicates (d)) {body})", "NON_DETERMINISTIC" in on)


def subtype(ctx):
    t, u = ctx.distinct_names("t", 2)
    rel = ctx.choice("decl", ["{t} - {u}", "{t} - {u} {u}", "{a} {t} - {u}", "{t} {u}", "{t} - object {u}", ""])
    on = stated(ctx, TYP, True)
    gated = " - " in rel
    verdict(ctx, f"(define (domain dd) {reqs_text(on)} (:types {rel.format(t=t, u=u, a=fixed(1))}))",
            not gated or any(r in on for r in TYP))


def function(ctx):
    f = ctx.name("f")
    decl, kind = ctx.choice("decl", [
        ("({f})", "num"), ("({f} ?x)", "num"), ("({f}) - number", "num"), ("(a-fixed-name-of-the-harness-1 ?y) ({f})", "num"),
        ("(total-cost) ({f} ?x)", "both"), ("({f}) - number (total-cost) - number", "both"),
        ("(total-cost)", "cost"), ("(total-cost) - number", "cost")])
    on = stated(ctx, NUM + ("ACTION_COSTS",), True)
    num, cost = any(r in on for r in NUM), "ACTION_COSTS" in on
    want = {"num": num, "cost": cost, "both": num and cost}[kind]
    if kind != "num" and not cost:
        ctx.assume(False)  # total-cost without action costs is C24
    verdict(ctx, f"(define (domain dd) {reqs_text(on)} (:functions {decl.format(f=f)}))", want)


def pairs(ctx):
    """Two gated constructs in one domain need both requirements."""
    kinds = ["or", "forall", "exists", "equality"]
    a, b = ctx.choice("first", kinds), ctx.choice("second", kinds + ["oneof"])
    p, q = names(ctx)
    rel = ["DIS_PRECONDITION", "UNIVERSAL_PRECONDITION", "EXISTENTIAL_PRECONDITION", "QUANTIFIED_PRECONDITION",
           "EQUALITY", "NON_DETERMINISTIC", "ADL"]
    if not ctx.thorough:
        need = set(CONDS[a][1]) | set(NON if b == "oneof" else CONDS[b][1])
        rel = [r for r in rel if r in need]
    on = [r for r in rel if ctx.flag("req." + r)]
    nest = ctx.flag("nested")
    ca = CONDS[a][0].format(p=p, q=q)
    want = any(r in on for r in CONDS[a][1])
    if b == "oneof":
        body = f":precondition {ca} :effect (oneof ({p}) ({q}))"
        want = want and "NON_DETERMINISTIC" in on
    else:
        cb = CONDS[b][0].format(p=p, q=q)
        want = want and any(r in on for r in CONDS[b][1])
        if nest and a != "equality":
            ca = {"or": f"(or ({p}) {cb})", "forall": f"(forall (?x) {cb})", "exists": f"(exists (?x) {cb})"}[a]
            body = f":precondition {ca}"
        else:
            body = f":precondition (and {ca} {cb})" if not nest else f":precondition {ca} :effect (when {cb} ({q}))"
    verdict(ctx, f"(define (domain dd) {reqs_text(on)} (:action a :parameters () {body}))", want)


OPERANDS = ["({p})", "(and)", "(not (and))", "(and ({p}))", "(not ({p}))", "(and (and) (and ({p}) (and)))", "(< (fn) 3)", "(not (not ({q})))", "({q} WW)"]


def operands(ctx):
    """The gated construct around every kind of operand, also trivial and repeated ones."""
    kind = ctx.choice("construct", ["or", "or of one", "or of three", "imply", "forall", "exists", "forall of two", "exists of two"])
    k1 = ctx.choice("first", OPERANDS)
    k2 = ctx.choice("second", OPERANDS) if kind in ("or", "or of three", "imply") else ""
    c = {"or": "(or {a} {b})", "or of one": "(or {a})", "or of three": "(or {a} {b} {a})", "imply": "(imply {a} {b})",
         "forall": "(forall (?x) {a})", "exists": "(exists (?x) {a})", "forall of two": "(forall (?x ?y) {a})", "exists of two": "(exists (?x ?w) {a})"}[kind]
    c = c.replace("{a}", k1).replace("{b}", k2)
    allowed = CONDS[kind.split()[0]][1]
    p, q = names(ctx)
    on = [r for r in FULL if r not in allowed] if ctx.flag("others") else []
    if ctx.flag("allowed"):
        on = on + [ctx.choice("which", allowed)]
    want = any(r in on for r in allowed)
    where = ctx.choice("where", ["precondition", "when", "derived", "goal"])
    c = c.replace("WW", "o1" if where == "goal" else "?w").format(p=p, q=q)
    if where == "goal":
        if not on:
            return
        return verdict(ctx, f"(define (problem pp) (:domain dd) {reqs_text(on)} (:init) (:goal {c}))", want, parse_problem_text)
    body = {"precondition": f"(:action a :parameters (?w) :precondition {c})", "derived": f"(:derived (d ?w) {c})",
            "when": f"(:action a :parameters (?w) :effect (when {c} (d ?w)))"}[where]
    verdict(ctx, f"(define (domain dd) {reqs_text(on)} (:predicates (d ?w)) {body})", want)


EOPERANDS = ["({p})", "(not ({p}))", "(and)", "(and ({p}) (not ({q})))", "(when ({p}) ({q}))", "(forall (?x) ({p} ?x))", "(increase (f) 1)"]


def oneof_operands(ctx):
    n = 1 + ctx.pick("n", 3)
    p, q = names(ctx)
    ops = [ctx.choice(f"op{i}", EOPERANDS) for i in range(min(n, 2))]
    ops = (ops * 2)[:n]
    e = ctx.choice("below", ["{e}", "(and {e})", "(forall (?x) {e})"]).replace("{e}", f"(oneof {' '.join(ops)})").format(p=p, q=q)
    on = [r for r in FULL if r not in NON] if ctx.flag("others") else []
    if ctx.flag("allowed"):
        on = on + list(NON)
    verdict(ctx, f"(define (domain dd) {reqs_text(on)} (:action a :parameters () :effect {e}))", any(r in on for r in NON))


def equality_operands(ctx):
    """Equalities between variables and constants, equal or not, at every place."""
    x, y = ctx.name("x"), ctx.name("y")
    ts = {"variables": ("?" + x, "?" + y), "constants": (x, y), "mixed": ("?" + x, y)}[ctx.choice("terms", ["variables", "constants", "mixed"])]
    c = ctx.choice("around", ["{c}", "(and {c})", "(not {c})", "(and (and) (not (and {c})))"]).format(c=f"(= {ts[0]} {ts[1]})")
    on = [r for r in FULL if r not in EQU] if ctx.flag("others") else []
    if ctx.flag("allowed"):
        on = on + [ctx.choice("which", EQU)]
    body = ctx.choice("where", ["(:action a :parameters ({v}) :precondition {c})", "(:action a :parameters ({v}) :effect (when {c} (d)))", "(:derived (d {v}) {c})"])
    v = []
    for t in ts:
        if t.startswith("?") and not any(t == u for u in v):
            v.append(t)
    cs = " ".join([t for i, t in enumerate(ts) if not t.startswith("?") and not any(t == u for u in ts[:i])])
    decl = "(:predicates (d " + " ".join([f"?z{i}" for i in range(len(v))]) + "))" if ":derived" in body else "(:predicates (d))"
    consts = f"(:constants {cs})" if cs else ""
    body = body.format(v=" ".join(v), c=c)
    verdict(ctx, f"(define (domain dd) {reqs_text(on)} {consts} {decl} {body})", any(r in on for r in EQU))


GPLACES = {"goal": "{c}", "in a conjunction": "(and ({q}) {c})", "under not": "(not {c})",
           "deep": "(and ({q}) (and ({p}) (not (and {c} ({q})))))"}


def goal(ctx):
    """Problem goals: gated by the stated requirements, not gated without any."""
    kind = ctx.choice("construct", list(CONDS))
    c, allowed = CONDS[kind]
    p, q = names(ctx)
    c = GPLACES[ctx.choice("place", list(GPLACES))].replace("{c}", c).format(p=p, q=q)
    on = stated(ctx, allowed or ("ADL",), True)
    want = allowed is None or not on or any(a in on for a in allowed)
    objs = "(:objects o1)" if ctx.flag("objects") else ""
    verdict(ctx, f"(define (problem pp) (:domain dd) {reqs_text(on)} {objs} (:init) (:goal {c}))", want, parse_problem_text)


SCENARIOS = [
    Scenario("operands", operands, "disjunctions, implications and quantifiers around 9 kinds of operands (trivial, repeated, nested), at 4 places; one or none of the allowing requirements, with none or all of the others"),
    Scenario("oneof-operands", oneof_operands, "oneof with 1 to 3 operands of 7 kinds, at 3 places"),
    Scenario("equality-operands", equality_operands, "equalities of two symbolic variables or constants, 4 surroundings, 3 places"),
    Scenario("condition", domain_condition, "10 condition constructs (8 gated) at 8 places of a domain, two symbolic predicate names; any subset of the requirements that allow the construct, combined with none or all of the others (single others at one place; thorough: everywhere), in two orders"),
    Scenario("effect", domain_effect, "6 shapes of nondeterministic effects, two symbolic names, with none, all or any single other requirement"),
    Scenario("subtype", subtype, "type declarations with and without supertypes, two symbolic types, any subset of the typing requirements, none, all or any single other"),
    Scenario("function", function, "numeric function declarations with and without total-cost, a symbolic name, any subset of the relevant requirements, none, all or any single other"),
    Scenario("pairs", pairs, "two gated constructs side by side or nested, any subset of the requirements that allow one of them (thorough: of 7)"),
    Scenario("goal", goal, "the same constructs at 4 places of a problem goal, with stated requirements or none"),
]
