"""C16: a name is accepted exactly when it is a legal PDDL name."""

from hx.lib import FULL_REQS, R, Scenario, fixed, parse_domain_text, parse_plan_text, parse_problem_text

WORDS = ["and", "define", "domain", "either", "exists", "forall", "imply", "not", "object", "oneof", "or", "problem", "when",
         "assign", "scale-up", "scale-down", "increase", "decrease", "maximize", "minimize", "total-cost"]
N = fixed(1)


def constructors():
    """name -> (constructor of one string, reader of the stored string, words that are legal there)."""
    from pddl.action import Action
    from pddl.core import Domain, Problem
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable

    typing = R("TYPING")

    def named(o):
        return o.name

    def only(xs):
        xs = list(xs)
        return xs[0] if len(xs) == 1 else xs

    def with_terms(s):
        return Predicate(s, Constant(N), Variable(N))

    return {
        "constant": (Constant, named, ()),
        "typed constant": (lambda s: Constant(s, N), named, ()),
        "variable": (Variable, named, ()),
        "typed variable": (lambda s: Variable(s, {N}), named, ()),
        "predicate": (Predicate, named, ()),
        "predicate with terms": (with_terms, named, ()),
        "function": (NumericFunction, named, ("total-cost",)),
        "function with terms": (lambda s: NumericFunction(s, Variable(N)), named, ("total-cost",)),
        "action": (lambda s: Action(s, []), named, ()),
        "action with parts": (lambda s: Action(s, [Variable(N)], precondition=Predicate(N), effect=Predicate(N)), named, ()),
        "domain": (Domain, named, ()),
        "problem": (lambda s: Problem(s, domain_name=N), named, ()),
        "problem with domain": (lambda s: Problem(s, domain=Domain(N)), named, ()),
        "domain name of a problem": (lambda s: Problem(N, domain_name=s), lambda p: p.domain_name, ()),
        "type of a constant": (lambda s: Constant(N, s), lambda c: c.type_tag, ("object",)),
        "type of a variable": (lambda s: Variable(N, {s}), lambda v: only(v.type_tags), ("object",)),
        "type of a variable, list": (lambda s: Variable(N, [s]), lambda v: only(v.type_tags), ("object",)),
        "either type": (lambda s: Variable(N, [N, s]), lambda v: only(x for x in v.type_tags if not x == N), ("object",)),
        "new types of a variable": (lambda s: Variable(N).with_type_tags([s]), lambda v: only(v.type_tags), ("object",)),
        "declared type": (lambda s: Domain(N, requirements=typing, types={s: None}), lambda d: only(d.types), ("object",)),
        "declared subtype": (lambda s: Domain(N, requirements=typing, types={s: N}), lambda d: only(d.types), ()),
        "declared supertype": (lambda s: Domain(N, requirements=typing, types={N: s}), lambda d: only(d.types.values()),
                               ("object",)),
    }


def construct(ctx):
    """A symbolic string (any characters) through every constructor."""
    c = constructors()
    k = ctx.choice("constructor", list(c))
    make, get, also = c[k]
    s = ctx.raw("s")
    ok, o = ctx.attempt(make, s)
    want = ctx.legal(s) and (s not in WORDS or s in also)
    what = f"the string {ctx.show(s)} as {k}"
    if want:
        ctx.accepted(ok, o, what)
        ctx.check(get(o) == s, f"{what} is stored as {ctx.show(get(o))}")
        ctx.check(str(get(o)) == s, f"{what} is printed as {ctx.show(str(get(o)))}")
    else:
        ctx.rejected(ok, what)


def words(ctx):
    """Every reserved word, and its variations that are not reserved."""
    c = constructors()
    k = ctx.choice("constructor", list(c))
    make, get, also = c[k]
    w = ctx.choice("word", WORDS)
    how = ctx.pick("how", 6)
    s = [w, w.upper(), w + "-x", "x" + w, w[:-1], w + "s"][how]
    want = s not in WORDS or s in also
    ok, o = ctx.attempt(make, s)
    if want:
        ctx.accepted(ok, o, f"the string {s} as {k}")
        ctx.check(get(o) == s, f"the string {s} as {k} is stored as {get(o)}")
    else:
        ctx.rejected(ok, f"the string {s} as {k}")


def replaced(ctx):
    """A name object is a string too: passing stored names on gives the same names."""
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant, Variable

    s = ctx.name("s")
    v = Variable(s)
    p = Predicate(v.name, Constant(v.name), v)
    ctx.check(p.name == s and p.terms[0].name == s and p(*p.terms).name == s, "a name passed on has changed")
    ctx.check(v.with_type_tags([v.name]).name == s, "a retyped variable has another name")


DOM = "(define (domain %s) " + FULL_REQS + " %s)"
TEXTS = {
    "domain name": (lambda s: DOM % (s, ""), lambda d: d.name),
    "type": (lambda s: DOM % (N, f"(:types {s})"), lambda d: one(d.types)),
    "supertype": (lambda s: DOM % (N, f"(:types {N} - {s})"), lambda d: one(d.types.values())),
    "constant": (lambda s: DOM % (N, f"(:constants {s})"), lambda d: one(d.constants).name),
    "constant type": (lambda s: DOM % (N, f"(:types {s}) (:constants {N} - {s})"), lambda d: one(d.constants).type_tag),
    "predicate": (lambda s: DOM % (N, f"(:predicates ({s} ?x))"), lambda d: one(d.predicates).name),
    "parameter": (lambda s: DOM % (N, f"(:predicates (p ?{s}))"), lambda d: one(d.predicates).terms[0].name),
    "function": (lambda s: DOM % (N, f"(:functions ({s} ?x) - number)"), lambda d: one(d.functions).name),
    "function parameter": (lambda s: DOM % (N, f"(:functions (f ?{s}))"), lambda d: one(d.functions).terms[0].name),
    "action": (lambda s: DOM % (N, f"(:action {s} :parameters ())"), lambda d: one(d.actions).name),
    "action parameter": (lambda s: DOM % (N, f"(:action a :parameters (?{s}))"), lambda d: one(d.actions).parameters[0].name),
    "atom": (lambda s: DOM % (N, f"(:action a :parameters () :precondition ({s}))"), lambda d: one(d.actions).precondition.name),
    "effect": (lambda s: DOM % (N, f"(:action a :parameters () :effect (not ({s})))"), lambda d: one(d.actions).effect.argument.name),
    "fluent": (lambda s: DOM % (N, f"(:action a :parameters () :effect (assign ({s}) 1))"),
               lambda d: one(d.actions).effect.operands[0].name),
    "plain fluent": (lambda s: DOM % (N, f"(:action a :parameters () :precondition (> {s} 1))"),
                     lambda d: one(d.actions).precondition.operands[0].name),
    "quantified variable": (lambda s: DOM % (N, f"(:action a :parameters () :precondition (exists (?{s}) (q)))"),
                            lambda d: one(one(d.actions).precondition.variables).name),
    "derived": (lambda s: DOM % (N, f"(:predicates ({s})) (:derived ({s}) (q))"), lambda d: one(d.derived_predicates).predicate.name),
}
PRB = "(define (problem %s) (:domain %s) %s)"
END = "(:init) (:goal (g))"
PTEXTS = {
    "problem name": (lambda s: PRB % (s, N, END), lambda p: p.name),
    "domain name": (lambda s: PRB % (N, s, END), lambda p: p.domain_name),
    "object": (lambda s: PRB % (N, N, f"(:objects {s})" + END), lambda p: one(p.objects).name),
    "object type": (lambda s: PRB % (N, N, f"(:objects {N} - {s})" + END), lambda p: one(p.objects).type_tag),
    "initial atom": (lambda s: PRB % (N, N, f"(:init ({s})) (:goal (g))"), lambda p: one(p.init).name),
    "initial argument": (lambda s: PRB % (N, N, f"(:init (not (p {s}))) (:goal (g))"), lambda p: one(p.init).argument.terms[0].name),
    "initial fluent": (lambda s: PRB % (N, N, f"(:init (= ({s}) 1)) (:goal (g))"), lambda p: one(p.init).operands[0].name),
    "initial fluent argument": (lambda s: PRB % (N, N, f"(:init (= (f {s}) 1)) (:goal (g))"),
                                lambda p: one(p.init).operands[0].terms[0].name),
    "goal atom": (lambda s: PRB % (N, N, f"(:init) (:goal ({s}))"), lambda p: p.goal.name),
    "goal argument": (lambda s: PRB % (N, N, f"(:init) (:goal (p {s}))"), lambda p: p.goal.terms[0].name),
    "goal variable": (lambda s: PRB % (N, N, f"(:init) (:goal (p ?{s}))"), lambda p: p.goal.terms[0].name),
    "metric": (lambda s: PRB % (N, N, f"(:init) (:goal (g)) (:metric minimize ({s}))"), lambda p: p.metric.expression.name),
    "plain metric": (lambda s: PRB % (N, N, f"(:init) (:goal (g)) (:metric maximize {s})"), lambda p: p.metric.expression.name),
}
STEPS = {
    "action": (lambda s: f"({s})", lambda p: p.actions[0][0]),
    "argument": (lambda s: f"(a {N} {s})", lambda p: p.actions[0][1][1].name),
}


def one(xs):
    xs = list(xs)
    assert len(xs) == 1, xs
    return xs[0]


def read(ctx):
    """A legal name at every place of the texts is read as itself."""
    which = ctx.choice("text", ["domain", "problem", "plan"])
    table, parse = {"domain": (TEXTS, parse_domain_text), "problem": (PTEXTS, parse_problem_text),
                    "plan": (STEPS, parse_plan_text)}[which]
    k = ctx.choice("place." + which, list(table))
    text, get = table[k]
    kind = ctx.pick("name", 4)
    if kind == 0:
        s = ctx.name("s")
    else:  # names built from reserved words
        w = ctx.choice("word", WORDS)
        s = {1: w + "-x", 2: w + "s", 3: "x" + w}[kind]
    t = text(s)
    o = ctx.ok(parse, t, what=t)
    got = ctx.ok(get, o, what=f"reading the {which} of {t}")
    ctx.check(got == s, f"the {k} {ctx.show(s)} of {t} is read as {ctx.show(got)}")


LENGTHS = [13, 15, 16, 17, 20, 24, 30, 31, 32, 33, 40, 50, 63, 64, 65, 80, 99, 100, 101, 120, 127, 128, 129, 200, 254, 255, 256, 257, 512, 1000, 1025]
SHAPES = {  # (characters repeated after the first letter, last characters, legal)
    "letters": ("bcdE", "f", True), "digits": ("0123456789", "7", True), "dashes": ("-", "-", True), "underscores": ("_", "_", True),
    "mixed": ("a-1_Z", "-0", True), "blank inside": ("b", " c", False), "blank last": ("b", " ", False), "newline last": ("b", "\n", False),
    "dot": ("b", ".c", False), "accent": ("b", "é", False), "other digit": ("b", "\u0663", False), "control": ("b", "\x00", False), "colon": ("b", ":", False),
    "parenthesis": ("b", ")", False), "question mark": ("?b", "c", False),
}


def long_name(ctx):
    n = ctx.choice("length", LENGTHS if ctx.thorough else LENGTHS[::2] + [100, 256])
    body, last, ok = SHAPES[ctx.choice("shape", list(SHAPES))]
    first = ctx.choice("first", ["a", "Z"]) if ok else "a"
    k = n - 1 - len(last)
    return first + (body * (k // len(body) + 1))[:k] + last, ok


def lengths(ctx):
    """Names of up to 1025 characters through every constructor."""
    c = constructors()
    k = ctx.choice("constructor", list(c))
    make, get, also = c[k]
    s, want = long_name(ctx)
    ok, o = ctx.attempt(make, s)
    what = f"the string {s!r} of {len(s)} characters as {k}"
    if want:
        ctx.accepted(ok, o, what)
        ctx.check(get(o) == s and str(get(o)) == s, f"{what} is stored as {ctx.show(get(o))}")
    else:
        ctx.rejected(ok, what)


def read_lengths(ctx):
    """Names of up to 1025 characters at every place of the texts."""
    which = ctx.choice("text", ["domain", "problem", "plan"])
    table, parse = {"domain": (TEXTS, parse_domain_text), "problem": (PTEXTS, parse_problem_text), "plan": (STEPS, parse_plan_text)}[which]
    k = ctx.choice("place." + which, list(table))
    text, get = table[k]
    s, want = long_name(ctx)
    ctx.assume(want)
    t = text(s)
    got = ctx.ok(get, ctx.ok(parse, t, what=t), what=f"reading the {which} of {t}")
    ctx.check(got == s, f"the {k} {s} of {t} is read as {ctx.show(got)}")


SCENARIOS = [
    Scenario("lengths", lengths, "every constructor on names of 18 (thorough: 31) lengths from 13 to 1025 and 15 shapes, 5 of them legal"),
    Scenario("read-lengths", read_lengths, "legal names of these lengths at 32 places of domain, problem and plan texts"),
    Scenario("construct", construct, "every constructor on a symbolic string of at most 12 characters, each any of the codes 1..255"),
    Scenario("words", words, "every constructor on each reserved word and five variations of it"),
    Scenario("passed-on", replaced, "a stored symbolic name passed to further constructors"),
    Scenario("read", read, "a symbolic legal name of at most 12 characters, or a legal name built from a reserved word, at 32 places of domain, problem and plan texts"),
]
