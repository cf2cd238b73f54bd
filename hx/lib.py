"""Common harness code: parsers, specification trees, their text, and reading objects back through the public API.

A specification is a plain nested tuple that is written independently of the library:
  terms        ("v", name, types)   ("c", name)            types: frozenset of names
  formulas     ("pred", name, terms)  ("eq", t, t)  ("not", f)  ("and", fs)  ("or", fs)  ("imply", f, f)
               ("forall", vars, f)  ("exists", vars, f)  ("cmp", op, e, e)     vars: tuple of (name, types)
  effects      ("and", es)  ("not", pred)  ("feff", vars, e)  ("when", f, e)  ("oneof", es)  ("num", op, fn, e)
  expressions  ("fn", name, terms)  ("val", number)  ("arith", op, es)
"""

from sx.ctx import Scenario, fixed  # noqa: F401

NOTYPE = frozenset()


# ------------------------------------------------------------------------------------------------- parsers
def domain_parser():
    from pddl.parser.domain import DomainParser

    return DomainParser()


def problem_parser():
    from pddl.parser.problem import ProblemParser

    return ProblemParser()


def plan_parser():
    from pddl.parser.plan import PlanParser

    return PlanParser()


def parse_domain_text(text):
    return domain_parser()(text)


def parse_problem_text(text):
    return problem_parser()(text)


def parse_plan_text(text):
    return plan_parser()(text)


# ------------------------------------------------------------------------------------------------- text
def types_text(types):
    ts = list(types)
    if len(ts) == 1:
        return ts[0]
    return "(either " + " ".join(ts) + ")"


def vars_text(vs):
    """Typed list of variables; every variable carries its own type, the untyped ones must be last."""
    out = []
    for v, ts in vs:
        out.append("?" + v)
        if len(ts) > 0:
            out.append("- " + types_text(ts))
    return " ".join(out)


def expressible(vs):
    """Whether a typed list can express these types: once untyped, always untyped."""
    untyped = False
    for _, ts in vs:
        if len(ts) == 0:
            untyped = True
        elif untyped:
            return False
    return True


def term_text(t):
    return "?" + t[1] if t[0] == "v" else t[1]


def num_text(x):
    return x if isinstance(x, str) else str(x)


def to_text(s):
    k = s[0]
    if k == "pred" or k == "fn":
        return "(" + " ".join([s[1]] + [term_text(t) for t in s[2]]) + ")"
    if k == "eq":
        return f"(= {term_text(s[1])} {term_text(s[2])})"
    if k == "not":
        return f"(not {to_text(s[1])})"
    if k in ("and", "or", "oneof"):
        return "(" + " ".join([k] + [to_text(x) for x in s[1]]) + ")"
    if k == "imply":
        return f"(imply {to_text(s[1])} {to_text(s[2])})"
    if k in ("forall", "exists"):
        return f"({k} ({vars_text(s[1])}) {to_text(s[2])})"
    if k == "feff":
        return f"(forall ({vars_text(s[1])}) {to_text(s[2])})"
    if k == "when":
        return f"(when {to_text(s[1])} {to_text(s[2])})"
    if k in ("cmp", "num"):
        return f"({s[1]} {to_text(s[2])} {to_text(s[3])})"
    if k == "val":
        return num_text(s[1])
    if k == "arith":
        return "(" + " ".join([s[1]] + [to_text(x) for x in s[2]]) + ")"
    raise ValueError(s)


# ------------------------------------------------------------------------------------------------- normal form
def dedup(xs):
    out = []
    for x in xs:
        if not any(x == y for y in out):
            out.append(x)
    return out


def norm(s):
    """Flatten and deduplicate conjunctions and disjunctions, flatten sums and products, quantified variables as a set."""
    if s is None:
        return None
    k = s[0]
    if k in ("and", "or"):
        flat = []
        for x in [norm(y) for y in s[1]]:
            if x[0] == k:
                flat.extend(x[1])
            else:
                flat.append(x)
        flat = dedup(flat)
        if len(flat) == 1:
            return flat[0]
        return (k, tuple(flat))
    if k in ("not",):
        return (k, norm(s[1]))
    if k in ("imply", "when"):
        return (k, norm(s[1]), norm(s[2]))
    if k == "oneof":
        return (k, tuple([norm(x) for x in s[1]]))
    if k in ("forall", "exists", "feff"):
        return (k, frozenset(s[1]), norm(s[2]))
    if k in ("cmp", "num"):
        return (k, s[1], norm(s[2]), norm(s[3]))
    if k == "arith":
        ops = [norm(x) for x in s[2]]
        if s[1] in ("+", "*"):
            flat = []
            for x in ops:
                if x[0] == "arith" and x[1] == s[1]:
                    flat.extend(x[2])
                else:
                    flat.append(x)
            ops = flat
        return (k, s[1], tuple(ops))
    return s


def untyped(s):
    """The specification without the types of its term occurrences (declarations of quantifiers keep theirs)."""
    if s is None or not isinstance(s, tuple):
        return s
    k = s[0]
    if k == "v":
        return ("v", s[1], NOTYPE)
    if k in ("pred", "fn"):
        return (k, s[1], tuple([untyped(t) for t in s[2]]))
    if k in ("forall", "exists", "feff"):
        return (k, s[1], untyped(s[2]))
    if k in ("and", "or", "oneof"):
        return (k, tuple([untyped(x) for x in s[1]]))
    if k == "arith":
        return (k, s[1], tuple([untyped(x) for x in s[2]]))
    if k in ("cmp", "num"):
        return (k, s[1], untyped(s[2]), untyped(s[3]))
    if k == "val":
        return s
    return (k,) + tuple([untyped(x) for x in s[1:]])


def subst(s, m):
    """Simultaneous capture-ignoring substitution of the variables free in s: m is a list of ((name, types), term)."""
    k = s[0]
    if k == "v":
        for (n, ts), t in m:
            if s[1] == n and s[2] == ts:
                return t
        return s
    if k in ("c", "val"):
        return s
    if k in ("pred", "fn"):
        return (k, s[1], tuple([subst(t, m) for t in s[2]]))
    if k in ("forall", "exists", "feff"):
        inner = [(v, t) for v, t in m if not any(v[0] == b for b, _ in s[1])]
        return (k, s[1], subst(s[2], inner))
    if k in ("and", "or", "oneof"):
        return (k, tuple([subst(x, m) for x in s[1]]))
    if k == "arith":
        return (k, s[1], tuple([subst(x, m) for x in s[2]]))
    if k in ("cmp", "num"):
        return (k, s[1], subst(s[2], m), subst(s[3], m))
    return (k,) + tuple([subst(x, m) for x in s[1:]])


def retype(s, env):
    """Give every variable occurrence the types of its innermost declaration (env: list of (name, types), innermost last)."""
    k = s[0]
    if k == "v":
        for n, ts in reversed(env):
            if n == s[1]:
                return ("v", s[1], frozenset(ts))
        return ("v", s[1], NOTYPE)
    if k in ("c", "val"):
        return s
    if k in ("pred", "fn"):
        return (k, s[1], tuple([retype(t, env) for t in s[2]]))
    if k in ("forall", "exists", "feff"):
        return (k, s[1], retype(s[2], env + list(s[1])))
    if k in ("and", "or", "oneof"):
        return (k, tuple([retype(x, env) for x in s[1]]))
    if k == "arith":
        return (k, s[1], tuple([retype(x, env) for x in s[2]]))
    if k in ("cmp", "num"):
        return (k, s[1], retype(s[2], env), retype(s[3], env))
    return (k,) + tuple([retype(x, env) for x in s[1:]])


# ------------------------------------------------------------------------------------------------- building objects
def build_term(t):
    from pddl.logic.terms import Constant, Variable

    return Variable(t[1], set(t[2]) if t[2] else None) if t[0] == "v" else Constant(t[1], *t[2:])


def build_vars(vs):
    from pddl.logic.terms import Variable

    return [Variable(n, set(ts) if ts else None) for n, ts in vs]


ARITH = {"+": "Plus", "-": "Minus", "*": "Times", "/": "Divide"}
CMP = {">": "GreaterThan", "<": "LesserThan", ">=": "GreaterEqualThan", "<=": "LesserEqualThan", "=": "EqualTo"}
NUM = {"assign": "Assign", "scale-up": "ScaleUp", "scale-down": "ScaleDown", "increase": "Increase",
       "decrease": "Decrease"}


def build(s):
    """Build the library object of a specification through its constructors."""
    from pddl.logic import base, effects, functions, predicates

    if s is None:
        return None
    k = s[0]
    if k == "pred":
        return predicates.Predicate(s[1], *[build_term(t) for t in s[2]])
    if k == "fn":
        return functions.NumericFunction(s[1], *[build_term(t) for t in s[2]])
    if k == "val":
        return functions.NumericValue(s[1])
    if k == "eq":
        return predicates.EqualTo(build_term(s[1]), build_term(s[2]))
    if k == "not":
        return base.Not(build(s[1]))
    if k == "and":
        return base.And(*[build(x) for x in s[1]])
    if k == "or":
        return base.Or(*[build(x) for x in s[1]])
    if k == "oneof":
        return base.OneOf(*[build(x) for x in s[1]])
    if k == "imply":
        return base.Imply(build(s[1]), build(s[2]))
    if k == "forall":
        return base.ForallCondition(build(s[2]), build_vars(s[1]))
    if k == "exists":
        return base.ExistsCondition(build(s[2]), build_vars(s[1]))
    if k == "feff":
        return effects.Forall(build(s[2]), build_vars(s[1]))
    if k == "when":
        return effects.When(build(s[1]), build(s[2]))
    if k == "cmp":
        return getattr(functions, CMP[s[1]])(build(s[2]), build(s[3]))
    if k == "num":
        return getattr(functions, NUM[s[1]])(build(s[2]), build(s[3]))
    if k == "arith":
        return getattr(functions, ARITH[s[1]])(*[build(x) for x in s[2]])
    raise ValueError(s)


# ------------------------------------------------------------------------------------------------- reading objects
def read_term(t):
    from pddl.logic.terms import Constant, Variable

    if isinstance(t, Variable):
        return ("v", t.name, frozenset(t.type_tags))
    if isinstance(t, Constant):
        return ("c", t.name)
    return ("not a term", repr(t))


def read_vars(vs):
    return tuple([(v.name, frozenset(v.type_tags)) for v in vs])


def read(f):
    """The specification of a library object."""
    from pddl.logic import base, effects, functions, predicates

    if f is None:
        return None
    if isinstance(f, predicates.Predicate):
        return ("pred", f.name, tuple([read_term(t) for t in f.terms]))
    if isinstance(f, predicates.EqualTo):
        return ("eq", read_term(f.left), read_term(f.right))
    if isinstance(f, base.Not):
        return ("not", read(f.argument))
    if isinstance(f, base.And):
        return ("and", tuple([read(x) for x in f.operands]))
    if isinstance(f, base.Or):
        return ("or", tuple([read(x) for x in f.operands]))
    if isinstance(f, base.OneOf):
        return ("oneof", tuple([read(x) for x in f.operands]))
    if isinstance(f, base.Imply):
        return ("imply", read(f.operands[0]), read(f.operands[1])) if len(f.operands) == 2 else ("imply of", f.operands)
    if isinstance(f, base.ForallCondition):
        return ("forall", read_vars(f.variables), read(f.condition))
    if isinstance(f, base.ExistsCondition):
        return ("exists", read_vars(f.variables), read(f.condition))
    if isinstance(f, effects.Forall):
        return ("feff", read_vars(f.variables), read(f.effect))
    if isinstance(f, effects.When):
        return ("when", read(f.condition), read(f.effect))
    if isinstance(f, functions.NumericFunction):
        return ("fn", f.name, tuple([read_term(t) for t in f.terms]))
    if isinstance(f, functions.NumericValue):
        return ("val", f.value)
    for table, kind in ((CMP, "cmp"), (NUM, "num")):
        for op, cls in table.items():
            if isinstance(f, getattr(functions, cls)):
                if len(f.operands) != 2:
                    return (kind, op, "operands", tuple([read(x) for x in f.operands]))
                return (kind, op, read(f.operands[0]), read(f.operands[1]))
    for op, cls in ARITH.items():
        if isinstance(f, getattr(functions, cls)):
            return ("arith", op, tuple([read(x) for x in f.operands]))
    if isinstance(f, predicates.DerivedPredicate):
        return ("derived", read(f.predicate), norm(read(f.condition)))
    return ("unknown", repr(f))


def read_action(a):
    return ("action", a.name, read_vars(a.parameters), norm(read(a.precondition)), norm(read(a.effect)))


def read_domain(d):
    """All parts of a domain; collections without order as frozensets."""
    return (
        d.name,
        frozenset(d.requirements),
        tsorted([(t, p) for t, p in d.types.items()]),
        frozenset([(c.name, c.type_tag) for c in d.constants]),
        frozenset([read(p) for p in d.predicates]),
        frozenset([(read(f), t) for f, t in d.functions.items()]),
        frozenset([read(p) for p in d.derived_predicates]),
        frozenset([read_action(a) for a in d.actions]),
    )


def read_problem(p):
    return (
        p.name,
        p.domain_name,
        frozenset(p.requirements),
        frozenset([(c.name, c.type_tag) for c in p.objects]),
        frozenset([read(f) for f in p.init]),
        norm(read(p.goal)),
        None if p.metric is None else (p.metric.optimization, norm(read(p.metric.expression))),
    )


def read_plan(p):
    return [(a, [c.name for c in ps]) for a, ps in p.actions]


def tsorted(xs):
    return frozenset(xs)


PARTS_D = ["name", "requirements", "types", "constants", "predicates", "functions", "derived predicates", "actions"]
PARTS_P = ["name", "domain name", "requirements", "objects", "initial state", "goal", "metric"]


def same_parts(ctx, got, want, parts, what):
    for g, w, part in zip(got, want, parts):
        ctx.check(g == w, f"{what}: the {part} differ: got {ctx.show(g)}, expected {ctx.show(w)}")


# ------------------------------------------------------------------------------------------------- requirements
def R(*names):
    from pddl.requirements import Requirements as Rq

    return {getattr(Rq, n) for n in names}


def all_reqs():
    """Every requirement that the text can state."""
    from pddl.requirements import Requirements as Rq

    return [r for r in Rq if r.name != "OBJECT_FLUENTS"]


REQ_TEXT = {
    "STRIPS": ":strips", "TYPING": ":typing", "NEG_PRECONDITION": ":negative-preconditions",
    "DIS_PRECONDITION": ":disjunctive-preconditions", "UNIVERSAL_PRECONDITION": ":universal-preconditions",
    "EXISTENTIAL_PRECONDITION": ":existential-preconditions", "QUANTIFIED_PRECONDITION": ":quantified-preconditions",
    "EQUALITY": ":equality", "CONDITIONAL_EFFECTS": ":conditional-effects", "ADL": ":adl",
    "DERIVED_PREDICATES": ":derived-predicates", "NON_DETERMINISTIC": ":non-deterministic", "FLUENTS": ":fluents",
    "NUMERIC_FLUENTS": ":numeric-fluents", "ACTION_COSTS": ":action-costs",
}
FULL_REQS = "(:requirements " + " ".join(REQ_TEXT[k] for k in REQ_TEXT) + ")"
FULL = list(REQ_TEXT)


def full_reqs():
    return R(*FULL)


# ------------------------------------------------------------------------------------------------- generators
class Gen:
    """Choice-driven generator of specifications; `ctx` picks the shape, the names are given pools."""

    def __init__(self, ctx, preds, terms, fns=(), numbers=(5,), qvars=(), max_ops=2, arity=0, eq=True):
        self.ctx = ctx
        self.preds = list(preds)  # (name, arity)
        self.terms = list(terms)
        self.fns = list(fns)  # (name, arity)
        self.numbers = list(numbers)
        self.qvars = list(qvars)  # list of tuples of (name, types)
        self.max_ops = max_ops
        self.arity = arity
        self.eq = eq

    def term(self, lb):
        return self.ctx.choice(lb + ".t", self.terms)

    def atom(self, lb):
        if not self.preds:  # a fresh symbolic name at every leaf: the solver decides which leaves coincide
            return ("pred", self.ctx.name(lb + ".p"), tuple([self.leaf_term(f"{lb}.{i}") for i in range(self.arity)]))
        n, k = self.ctx.choice(lb + ".p", self.preds)
        return ("pred", n, tuple([self.term(f"{lb}.{i}") for i in range(k)]))

    def leaf_term(self, lb):
        if self.terms:
            return self.term(lb)
        return ("v", self.ctx.name(lb + ".v"), NOTYPE)

    def fn(self, lb):
        n, k = self.ctx.choice(lb + ".f", self.fns)
        return ("fn", n, tuple([self.term(f"{lb}.{i}") for i in range(k)]))

    def expr(self, lb, depth):
        kinds = ["fn", "val"]
        if depth > 0:
            kinds += ["+", "*", "-", "/", "neg"]
        k = self.ctx.choice(lb + ".e", kinds)
        if k == "fn":
            return self.fn(lb)
        if k == "val":
            return ("val", self.ctx.choice(lb + ".n", self.numbers))
        if k == "neg":
            return ("arith", "-", (self.expr(lb + "a", depth - 1),))
        n = 2
        if k in "+*":
            n = 2 + self.ctx.pick(lb + ".n", self.max_ops - 1)
        return ("arith", k, tuple([self.expr(f"{lb}{i}", depth - 1) for i in range(n)]))

    def formula(self, lb, depth, kinds=None):
        ctx = self.ctx
        if kinds is None:
            kinds = ["pred"]
            if depth > 0:
                kinds += ["not", "and", "or", "imply"]
                if self.qvars:
                    kinds += ["forall", "exists"]
            if self.eq and self.terms:
                kinds += ["eq"]
            if self.fns:
                kinds += ["cmp"]
        k = ctx.choice(lb + ".k", kinds)
        if k == "pred":
            return self.atom(lb)
        if k == "eq":
            return ("eq", self.term(lb + "l"), self.term(lb + "r"))
        if k == "not":
            return ("not", self.formula(lb + "n", depth - 1))
        if k in ("and", "or"):
            n = ctx.pick(lb + ".n", self.max_ops + 1)
            return (k, tuple([self.formula(f"{lb}{i}", depth - 1) for i in range(n)]))
        if k == "imply":
            return (k, self.formula(lb + "l", depth - 1), self.formula(lb + "r", depth - 1))
        if k in ("forall", "exists"):
            return (k, ctx.choice(lb + ".v", self.qvars), self.formula(lb + "q", depth - 1))
        if k == "cmp":
            op = ctx.choice(lb + ".op", [">", "<", ">=", "<=", "="])
            return (k, op, self.expr(lb + "l", 0), self.expr(lb + "r", 0))
        raise ValueError(k)

    def peffect(self, lb):
        k = self.ctx.choice(lb + ".k", ["pred", "not"] + (["num"] if self.fns else []))
        if k == "pred":
            return self.atom(lb)
        if k == "not":
            return ("not", self.atom(lb))
        op = self.ctx.choice(lb + ".op", list(NUM))
        return ("num", op, self.fn(lb), self.expr(lb + "x", 0))

    def effect(self, lb, depth):
        ctx = self.ctx
        kinds = ["p"]
        if depth > 0:
            kinds += ["and", "when", "oneof"]
            if self.qvars:
                kinds += ["feff"]
        k = ctx.choice(lb + ".ek", kinds)
        if k == "p":
            return self.peffect(lb)
        if k == "and":
            n = ctx.pick(lb + ".n", self.max_ops + 1)
            return ("and", tuple([self.ceffect(f"{lb}{i}", depth - 1) for i in range(n)]))
        return self.ceffect(lb, depth, k)

    def ceffect(self, lb, depth, k=None):
        ctx = self.ctx
        if k is None:
            kinds = ["p"]
            if depth > 0:
                kinds += ["when", "oneof"]
                if self.qvars:
                    kinds += ["feff"]
            k = ctx.choice(lb + ".ck", kinds)
        if k == "p":
            return self.peffect(lb)
        if k == "when":
            if ctx.flag(lb + ".wand"):
                n = ctx.pick(lb + ".n", self.max_ops + 1)
                e = ("and", tuple([self.peffect(f"{lb}{i}") for i in range(n)]))
            else:
                e = self.peffect(lb + "e")
            return ("when", self.formula(lb + "c", depth - 1, ["pred", "not"] if depth > 1 else ["pred"]), e)
        if k == "oneof":
            n = 1 + ctx.pick(lb + ".n", self.max_ops)
            return ("oneof", tuple([self.effect(f"{lb}{i}", depth - 1) for i in range(n)]))
        if k == "feff":
            return ("feff", ctx.choice(lb + ".v", self.qvars), self.effect(lb + "q", depth - 1))
        raise ValueError(k)


# ------------------------------------------------------------------------------------------------- long and deep
EITHER = [frozenset(["tt", "uu", "ww"]), frozenset(["object", "tt", "uu", "ww"]), frozenset(["object", "ww"])]


def long_list(ctx, lb, name):
    """3 to 4 (thorough: 5) symbolic names."""
    return [name(f"{lb}{i}") for i in range(3 + ctx.pick(lb + ".len", 3 if ctx.thorough else 2))]


def term_list(ctx, lb):
    """3 to 4 (thorough: 5) variables and constants with symbolic names."""
    ns = long_list(ctx, lb, ctx.name)
    kinds = ctx.choice(lb + ".kinds", ["vvvvv", "ccccc", "vcvcv"])
    return tuple([("v", n, NOTYPE) if k == "v" else ("c", n) for k, n in zip(kinds, ns)])


def long_expr(ctx, lb, args=True):
    """An expression with one long list: operands, arguments; or a deep one."""
    k = ctx.choice(lb + ".long", ["+", "*", "deep", "left"] + (["args"] if args else []))
    if k == "args":
        return ("fn", ctx.name(lb + ".f"), tuple([("c", n) for n in long_list(ctx, lb, ctx.name)]))
    if k in ("+", "*"):
        return ("arith", k, tuple([("fn", n, ()) for n in long_list(ctx, lb, ctx.name)]))
    e = ("fn", ctx.name(lb + ".f"), ())
    for i in range(4 if ctx.thorough else 3):
        op = ctx.choice(f"{lb}.op{i}", ["+", "-", "*", "/", "neg"])
        o = ("val", 3 + i) if i % 2 else ("fn", fixed(70 + i), ())
        e = ("arith", "-", (e,)) if op == "neg" else ("arith", op, (e, o) if k == "left" else (o, e))
    return e


def quantified_list(ctx, lb):
    """One variable with a long 'either', or three variables with different names and types."""
    k = ctx.pick(lb + ".vars", len(EITHER) + 2)
    if k < len(EITHER):
        return ((ctx.name(lb + ".x"), EITHER[k]),)
    xs = ctx.distinct_names(lb + ".x", 3)
    ts = [[frozenset(["tt"]), EITHER[0], NOTYPE], [frozenset(["uu"]), frozenset(["uu"]), frozenset(["ww"])]][k - len(EITHER)]
    return tuple(zip(xs, ts))


def atom_of(ctx, lb, *vs):
    return ("pred", ctx.name(lb + ".p"), tuple([("v", a, b) for a, b in vs]))


def chain(ctx, lb, depth, types=(NOTYPE,)):
    """A formula of this depth whose connectives are chosen level by level, an atom beside each; the innermost atom uses all variables."""
    ks = [ctx.choice(f"{lb}.link{i}", ["not", "and", "or", "implies", "implied", "forall", "exists"]) for i in range(depth)]
    side = lambda i: ("pred", fixed(60 + i), ())  # noqa: E731
    vs = {i: (fixed(50 + i), types[i % len(types)]) for i in range(depth) if ks[i] in ("forall", "exists")}
    f = ("pred", fixed(40), tuple([("v",) + v for v in vs.values()]))
    for i, k in enumerate(ks):
        if k == "not":
            f = ("not", f)
        elif k in ("and", "or"):
            f = (k, (side(i), f))
        elif k == "implies":
            f = ("imply", f, side(i))
        elif k == "implied":
            f = ("imply", side(i), f)
        else:
            f = (k, (vs[i],), f)
    return f


def long_formula(ctx, lb):
    """A formula with one long list: operands, terms, variables, types; or a deep one."""
    k = ctx.choice(lb + ".long", ["and", "or", "mixed", "terms", "variables", "deep"])
    if k in ("and", "or"):
        return (k, tuple([("pred", n, ()) for n in long_list(ctx, lb, ctx.name)]))
    if k == "mixed":
        p = [("pred", n, ()) for n in ctx.names(lb + ".m", 4)]
        return (ctx.choice(lb + ".op", ["and", "or"]),
                (p[0], ("or", (p[1], p[2])), ("not", p[3]), ("and", (p[2], p[0])), ("imply", p[3], ("and", (p[1], p[1], p[0])))))
    if k == "terms":
        return ("pred", fixed(40), term_list(ctx, lb))
    if k == "variables":
        vs = quantified_list(ctx, lb)
        a = atom_of(ctx, lb, *vs)
        return (ctx.choice(lb + ".q", ["forall", "exists"]), vs, ctx.choice(lb + ".body", [a, ("not", a), ("or", (a, ("not", a)))]))
    return chain(ctx, lb, 4 if ctx.thorough else 3, (NOTYPE, frozenset(["tt"]), EITHER[0]))


def long_effect(ctx, lb):
    k = ctx.choice(lb + ".long", ["and", "oneof", "when", "whens", "variables", "deep"])
    if k in ("and", "oneof"):
        ps = [("pred", n, ()) for n in long_list(ctx, lb, ctx.name)]
        return (k, tuple([("not", p) if i % 2 else p for i, p in enumerate(ps)]))
    if k == "when":
        ps = [("pred", n, ()) for n in long_list(ctx, lb, ctx.name)]
        c = ctx.choice(lb + ".c", [("and", tuple(ps)), ("not", ("and", tuple(ps))), ("or", tuple(ps[:2]))])
        return ("when", c, ("and", tuple(ps)))
    if k == "whens":
        p = [("pred", n, ()) for n in ctx.names(lb + ".m", 4)]
        e = [("when", p[0], p[1]), ("when", p[1], ("not", p[2])), ("feff", ((fixed(1), NOTYPE),), ("when", p[2], p[3])), ("not", p[0])]
        return (ctx.choice(lb + ".op", ["and", "oneof"]), tuple(e if not ctx.flag(lb + ".back") else e[::-1]))
    if k == "variables":
        vs = quantified_list(ctx, lb)
        a = atom_of(ctx, lb, *vs)
        return ("feff", vs, ctx.choice(lb + ".body", [a, ("not", a), ("when", a, ("not", a))]))
    f = ("pred", fixed(40), ())
    for i in range(4 if ctx.thorough else 3):
        g = ctx.choice(f"{lb}.link{i}", ["feff", "oneof", "and", "when"])
        a = ("pred", fixed(41 + i), ())
        if g == "when":
            if f[0] not in ("pred", "not") and not (f[0] == "and" and all(x[0] in ("pred", "not") for x in f[1])):
                g = "and"  # only literals below a when
            else:
                f = ("when", a, f)
        if g == "feff":
            f = ("feff", ((fixed(50 + i), NOTYPE),), f)
        elif g == "oneof":
            f = ("oneof", (f, ("not", a)))
        elif g == "and":
            f = ("and", (a, f) if f[0] != "and" else (a,) + f[1])
    return f
