"""C19: copies and unpickled pickles equal the original, which stays as it was."""

import copy
import pickle

from hx.c17 import shapes
from hx.lib import NOTYPE, Gen, R, Scenario, build, build_term, fixed, read, read_action, read_domain, read_plan, read_problem

N = fixed(1)
OPS = ["copy", "deepcopy", "copy of copy", "copy of pickle"] + [f"pickle {i}" for i in range(pickle.HIGHEST_PROTOCOL + 1)]


def duplicate(op, x):
    if op == "copy":
        return copy.copy(x)
    if op == "deepcopy":
        return copy.deepcopy(x)
    if op == "copy of copy":
        return copy.copy(copy.deepcopy(copy.copy(x)))
    if op == "copy of pickle":
        return copy.copy(pickle.loads(pickle.dumps(x)))
    return pickle.loads(pickle.dumps(x, int(op.split()[1])))


def there(a, b):
    """Runs in the other process: a was hashed before it was pickled, b was not."""
    if not (a == b) or not (b == a):
        return "objects equal before pickling are not equal after unpickling in another process"
    if not (str(a) == str(b)):
        return "objects equal before pickling print differently after unpickling in another process"
    if type(a).__hash__ is not None and (hash(a) != hash(b) or a not in {b} or len({a, b}) != 1):
        return "equal objects have different hashes after unpickling in another process"
    return ""


def copies(ctx, make, reader, what, hashable=True):
    """make() builds the same object again and again."""
    op = ctx.choice("operation", OPS)
    x, twin = make(), make()
    before = hashable and ctx.flag("hashed before")
    h = hash(x) if before else None
    text = str(x)
    y = ctx.ok(duplicate, op, x, what=f"{op} of {what}")
    ctx.check(type(y) is type(x), f"the {op} of {what} has another type")
    ctx.check(y == x and x == y and not (y != x), f"the {op} of {what} is not equal to the original")
    ctx.check(str(y) == text, f"the {op} of {what} prints {ctx.show(str(y))} and not {ctx.show(text)}")
    if reader is not None:
        ctx.check(reader(y) == reader(twin), f"the {op} of {what} has other content")
    if hashable:
        if ctx.flag("copy hashed first"):
            hy = hash(y)
            hx = hash(x)
        else:
            hx = hash(x)
            hy = hash(y)
        ctx.check(hy == hx and hy == hash(twin), f"the {op} of {what} has another hash")
        ctx.check(not before or hx == h, f"the hash of {what} changes with a {op}")
        ctx.check(y in {x} and x in {y} and x in {twin} and y in {twin}, f"the {op} of {what} is not found in a set with the original")
    ctx.check(x == x and x == twin and twin == x and twin == y, f"{what} changes with a {op}")
    ctx.check(str(x) == text and str(twin) == text, f"the text of {what} changes with a {op}")
    if reader is not None:
        ctx.check(reader(x) == reader(twin), f"the content of {what} changes with a {op}")


def moved(ctx, make, what, hashable=True):
    """Pickled here, unpickled in a process with another hash seed."""
    a, b = make(), make()
    if hashable:
        hash(a)
    msg = ctx.elsewhere(there, a, b)
    ctx.check(not msg, f"{what}: {msg}")


def run(ctx, make, reader, what, hashable=True):
    if ctx.flag("another process"):
        moved(ctx, make, what, hashable)
    else:
        copies(ctx, make, reader, what, hashable)


# ------------------------------------------------------------------------------------------------- objects
def terms(ctx):
    k = ctx.pick("types", 3)
    n, ts = ctx.name("n"), ctx.distinct_names("t", k)
    from pddl.logic.terms import Constant, Variable

    if ctx.flag("const"):
        if k == 2:
            return
        run(ctx, lambda: Constant(n, *ts), lambda t: (t.name, t.type_tag), "a constant")
    else:
        run(ctx, lambda: Variable(n, list(ts) if ctx.thorough or k else None), lambda t: (t.name, t.type_tags), "a variable")


def atoms(ctx):
    ctx.canon_hash()
    k = ctx.choice("kind", ["pred", "fn", "eq", "val", "metric", "derived", "requirement"])
    if k == "val":
        v = ctx.int("v") if ctx.flag("int") else 0.25
        return run(ctx, lambda: build(("val", v)), read, "a number")
    n = 2 if k == "eq" else ctx.pick("arity", 3)
    xs = ctx.distinct_names("x", n)  # a variable has one type in an atom
    ts = tuple((("c", xs[i]) if ctx.flag(f"c{i}") else
                ("v", xs[i], frozenset([ctx.name(f"t{i}")]) if ctx.flag(f"y{i}") else NOTYPE)) for i in range(n))
    if k == "eq":
        return run(ctx, lambda: build(("eq",) + ts), read, "an equality")
    s = (k if k in ("pred", "fn") else "pred", ctx.name("p"), ts)
    if k == "metric":
        from pddl.logic.functions import Metric

        o = ctx.choice("opt", ["minimize", "maximize"])
        s = ("fn",) + s[1:]
        return run(ctx, lambda: Metric(build(s), o), lambda m: (m.optimization, read(m.expression)), "a metric")
    if k == "derived":
        from pddl.logic.predicates import DerivedPredicate

        c = ("not", ("pred", ctx.name("c"), ()))
        return run(ctx, lambda: DerivedPredicate(build(s), build(c)), read, "a derived predicate")
    if k == "requirement":
        from pddl.requirements import Requirements

        r = ctx.choice("r", list(Requirements))
        y = ctx.ok(duplicate, ctx.choice("operation", OPS), r, what="copy")
        ctx.check(y is r, f"a copy of {ctx.show(r)} is another object")
        return None
    return run(ctx, lambda: build(s), read, "a predicate" if k == "pred" else "a function")


def composite(ctx):
    """Every shape of formula, effect and expression of C17."""
    sh = shapes()
    k = ctx.choice("shape", list(sh))
    n, f, kind = sh[k]
    s = f(*[("pred" if kind == "p" else "fn", x, ()) for x in ctx.names("x", n)])
    run(ctx, lambda: build(s), read, k)


def quantified(ctx):
    ctx.canon_hash()
    k = ctx.choice("kind", ["forall", "exists", "feff"])
    vs = tuple((ctx.name(f"v{i}"), frozenset([ctx.name(f"t{i}")]) if ctx.flag(f"y{i}") else NOTYPE) for i in range(ctx.pick("n", 3)))
    p = ("pred", ctx.name("p"), ())
    run(ctx, lambda: build((k, vs, p)), lambda o: (read(o)[0], frozenset(read(o)[1]), read(o)[2]), k)


def nested(ctx):
    g = Gen(ctx, [], [], qvars=[((N, NOTYPE),)], eq=False, max_ops=2)
    s = g.effect("a", 2 if ctx.thorough else 1) if ctx.flag("effect") else g.formula("a", 2)
    op = ctx.choice("operation", ["deepcopy", "pickle 4"] if ctx.thorough else ["pickle 4"])
    x, twin = build(s), build(s)
    hash(x)
    y = ctx.ok(duplicate, op, x, what=f"{op} of a formula")
    ctx.check(x == y and y == twin and hash(y) == hash(twin), f"the {op} of {ctx.show(str(x))} differs")
    ctx.check(str(y) == str(twin) and str(x) == str(twin), f"the {op} of {ctx.show(str(x))} prints differently")
    ctx.check(read(y) == read(twin), f"the {op} of {ctx.show(str(x))} has other content")


def actions(ctx):
    from pddl.action import Action

    ctx.canon_hash()
    n = ctx.pick("n", 3)
    ns = ctx.distinct_names("x", 2 * n + 2)
    ps = tuple(("v", ns[2 * i], frozenset([ns[2 * i + 1]]) if ctx.flag(f"y{i}") else NOTYPE) for i in range(n))
    pre = ctx.choice("pre", [None, ("and", ()), ("not", ("pred", ns[-2], ()))])
    eff = ctx.choice("eff", [None, ("when", ("pred", N, ()), ("pred", ns[-1], ()))])
    a = ctx.name("a")
    run(ctx, lambda: Action(a, [build_term(t) for t in ps], precondition=build(pre), effect=build(eff)), read_action, "an action")


def make_domain(ctx, names, parts):
    from pddl.action import Action
    from pddl.core import Domain
    from pddl.logic.functions import NumericFunction
    from pddl.logic.predicates import DerivedPredicate, Predicate
    from pddl.logic.terms import Constant, Variable

    d, t, c, p, f, q, a, x = names

    def make():
        v = Variable(x, [t])
        kw = {}
        if "types" in parts:
            kw["types"] = {t: None, N: t}
        else:
            v = Variable(x)
        if "constants" in parts:
            kw["constants"] = [Constant(c, t if "types" in parts else None)]
        if "predicates" in parts:
            kw["predicates"] = {Predicate(p, v), Predicate(N)}
        if "functions" in parts:
            kw["functions"] = {NumericFunction(f, v): "number"}
        if "derived" in parts:
            kw["derived_predicates"] = [DerivedPredicate(Predicate(q), Predicate(N))]
        if "actions" in parts:
            kw["actions"] = [Action(a, [v], effect=Predicate(p, v))]
        return Domain(d, requirements=R("TYPING", "NUMERIC_FLUENTS", "DERIVED_PREDICATES"), **kw)

    return make


PARTS = ["types", "constants", "predicates", "functions", "derived", "actions"]


def domains(ctx):
    names = ctx.distinct_names("x", 8)
    parts = [x for x in PARTS if ctx.flag(x)]
    run(ctx, make_domain(ctx, names, parts), read_domain, "a domain", hashable=False)


def problems(ctx):
    from pddl.core import Problem
    from pddl.logic.functions import EqualTo, Metric, NumericFunction, NumericValue
    from pddl.logic.predicates import Predicate
    from pddl.logic.terms import Constant

    n, o, p, g, f, dn = ctx.distinct_names("x", 6)
    on = {x: ctx.flag(x) for x in ("objects", "init", "goal", "metric", "domain")}
    v = ctx.int("v")
    md = make_domain(ctx, ctx.distinct_names("y", 8), ["types", "predicates", "actions"])

    def make():
        kw = {}
        if on["objects"]:
            kw["objects"] = [Constant(o)]
        if on["init"]:
            kw["init"] = [Predicate(p), EqualTo(NumericFunction(f), NumericValue(v))]
        if on["goal"]:
            kw["goal"] = ~Predicate(g)
        if on["metric"]:
            kw["metric"] = Metric(NumericFunction(f), "maximize")
        if on["domain"]:
            kw["domain"] = md()
        else:
            kw["domain_name"] = dn
            kw["requirements"] = R("NEG_PRECONDITION", "TYPING")
        return Problem(n, **kw)

    def whole(pr):
        return read_problem(pr), (read_domain(pr.domain) if on["domain"] else None)

    run(ctx, make, whole, "a problem", hashable=False)


def plans(ctx):
    from pddl.core import Plan
    from pddl.logic.terms import Constant

    steps = [(ctx.name(f"a{i}"), ctx.names(f"x{i}", ctx.pick(f"k{i}", 3))) for i in range(ctx.pick("n", 3))]
    run(ctx, lambda: Plan([(a, [Constant(x) for x in xs]) for a, xs in steps]), read_plan, "a plan", hashable=False)


def parsed(ctx):
    """Objects that come from the parsers, formatted before and after."""
    from hx.lib import domain_parser, plan_parser, problem_parser
    from pddl.formatter import domain_to_string, problem_to_string

    d, t, p, a, x, o = ctx.distinct_names("x", 6)
    k = ctx.choice("kind", ["domain", "problem", "plan"])
    op = ctx.choice("operation", OPS)
    if k == "domain":
        y = domain_parser()(f"(define (domain {d}) (:requirements :typing) (:types {t}) (:predicates ({p} ?{x} - {t})) "
                            f"(:action {a} :parameters (?{x} - {t}) :precondition ({p} ?{x}) :effect (not ({p} ?{x}))))")
        fmt = domain_to_string
    elif k == "problem":
        y = problem_parser()(f"(define (problem {d}) (:domain {t}) (:requirements :typing) (:objects {o} - {t}) (:init ({p} {o})) (:goal ({p} {o})))")
        fmt = problem_to_string
    else:
        y = plan_parser()(f"({a} {o})\n({p} {o} {o})")
        fmt = str
    text = fmt(y)
    z = ctx.ok(duplicate, op, y, what=f"{op} of a parsed {k}")
    ctx.check(z == y and y == z, f"the {op} of a parsed {k} differs")
    ctx.check(fmt(z) == text and fmt(y) == text, f"the {op} of a parsed {k} prints differently")


def long(ctx):
    """Objects with 4 to 8 elements in one list or nesting."""
    from hx import big

    ctx.canon_hash()
    k = ctx.choice("kind", big.KINDS)
    n = [4, 5, 8][ctx.pick("n", 3)]
    xs = [fixed(f"x{i}") for i in range(n)]
    xs[ctx.pick("place", n)] = ctx.name("x")
    run(ctx, lambda: big.make(k, xs), big.reader(k), f"{k} with {n} elements", big.hashable(k))


SCENARIOS = [
    Scenario("long", long, "29 kinds of objects with 4, 5 or 8 elements in a list or nesting, the element at any place symbolic; same operations"),
    Scenario("terms", terms, "constants and variables with at most 2 types; copy, deepcopy, pickle protocols 0-5, another process; hashed before or not; symbolic names"),
    Scenario("atoms", atoms, "predicates, functions, equalities, numbers, metrics, derived predicates with at most 2 terms; same operations"),
    Scenario("composite", composite, "40 shapes of formulas, effects and expressions with symbolic leaves; same operations"),
    Scenario("quantified", quantified, "quantifiers with at most 2 typed or untyped variables; same operations"),
    Scenario("nested", nested, "formulas of depth 2 and effects of depth 1 (thorough: 2); pickle (thorough: deepcopy)"),
    Scenario("actions", actions, "actions with at most 2 parameters, absent, empty and other parts; same operations"),
    Scenario("domains", domains, "domains with every subset of 6 parts; same operations"),
    Scenario("problems", problems, "problems with every subset of 5 parts; same operations"),
    Scenario("plans", plans, "plans of at most 2 steps with at most 2 arguments; same operations"),
    Scenario("parsed", parsed, "a parsed domain, problem and plan; same operations"),
]
