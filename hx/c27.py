"""C27: a parser returns an object only for a text that is, as a whole, a sentence of the supported grammar.

Texts are sequences of tokens, some of them symbolic (any word of a vocabulary). The code under test reads the text; where it
accepts, the recogniser below, written from the BNF of PDDL 3.1 for the supported subset, must accept the same tokens."""

import re

from hx.lib import Scenario, parse_domain_text, parse_plan_text, parse_problem_text
from sx.tokens import Fixed

REQS = [":strips", ":typing", ":equality", ":adl", ":non-deterministic", ":negative-preconditions", ":disjunctive-preconditions",
        ":derived-predicates", ":conditional-effects", ":existential-preconditions", ":universal-preconditions",
        ":quantified-preconditions", ":numeric-fluents", ":fluents", ":action-costs"]
SECTIONS = [":requirements", ":types", ":constants", ":predicates", ":functions", ":action", ":parameters", ":precondition", ":effect",
            ":derived", ":domain", ":objects", ":init", ":goal", ":metric"]
WORDS = ["define", "domain", "problem", "and", "or", "not", "imply", "exists", "forall", "when", "oneof", "either", "object", "assign",
         "scale-up", "scale-down", "increase", "decrease", "maximize", "minimize", "total-cost", "number"]
MARKS = ["(", ")", "-", "?", "=", ">", ">=", "<", "<=", "+", "*", "/"]
NUMBERS = ["7", "1.5"]
BAD = ["#", ",", ":nothing", "1.", ".5", "_a", "[", "\"a\"", "?-", "!="]
NAME, NUM = "a name", "a number"
NAMES = {NAME, "number"}
FNAMES = {NAME, "number", "total-cost"}
PNAMES = {NAME, *WORDS}
END = Fixed("the end", "")


def kind(word):
    if word in REQS or word in SECTIONS or word in MARKS or word in WORDS:
        return word
    if re.fullmatch("[0-9]+(\\.[0-9]+)*", word):
        return NUM
    if re.fullmatch("[a-zA-Z][a-zA-Z0-9_-]*", word):
        return NAME
    return "nothing"


def vocabulary(name):
    return ([(NAME, name)] + [(w, w) for w in MARKS] + [(NUM, w) for w in NUMBERS] + [(w, w) for w in WORDS]
            + [(w, w) for w in SECTIONS] + [(w, w) for w in REQS] + [("nothing", w) for w in BAD])


class No(Exception):
    """Not a sentence."""


class Reader:
    """A recursive-descent recogniser."""

    def __init__(self, toks):
        self.toks, self.i = toks, 0

    def at(self, *kinds, k=0):
        i = self.i + k
        return (self.toks[i] if i < len(self.toks) else END).isin(kinds)

    def eat(self, *kinds):
        if not self.at(*kinds):
            raise No(f"token {self.i} is not {kinds}")
        self.i += 1

    def end(self):
        if self.i < len(self.toks):
            raise No("text after the end")

    def opens(self, *kinds):
        """'(' and one of the words, consumed."""
        if self.at("(") and self.at(*kinds, k=1):
            self.i += 2
            return True
        return False

    # ---- lists
    def name(self):
        self.eat(*NAMES)

    def fname(self):
        self.eat(*FNAMES)

    def variable(self):
        self.eat("?")
        self.name()

    def primitive(self):
        self.eat("object", *NAMES)

    def type_def(self):
        if self.opens("either"):
            self.primitive()
            while not self.at(")"):
                self.primitive()
            self.eat(")")
        else:
            self.primitive()

    def typed(self, first, item, of):
        n = 0
        while True:
            if self.at(*first):
                item()
                n += 1
            elif n and self.at("-"):
                self.eat("-")
                of()
                n = 0
            else:
                return

    def names(self):
        self.typed(NAMES, self.name, self.primitive)

    def variables(self):
        self.typed({"?"}, self.variable, self.type_def)

    def skeleton(self, names):
        self.eat("(")
        self.eat(*names)
        self.variables()
        self.eat(")")

    # ---- domains
    def domain(self):
        self.eat("(")
        self.eat("define")
        self.eat("(")
        self.eat("domain")
        self.name()
        self.eat(")")
        self.requirements()
        for k in (":types", ":constants"):
            if self.opens(k):
                self.names()
                self.eat(")")
        if self.opens(":predicates"):
            self.skeleton(NAMES)
            while self.at("("):
                self.skeleton(NAMES)
            self.eat(")")
        if self.opens(":functions"):
            self.functions()
            self.eat(")")
        while not self.at(")"):
            if self.opens(":action"):
                self.action()
            elif self.opens(":derived"):
                self.skeleton(NAMES)
                self.gd()
                self.eat(")")
            else:
                raise No("neither an action nor a derived predicate")
        self.eat(")")
        self.end()

    def functions(self):
        self.skeleton(FNAMES)
        n = 1
        while not self.at(")"):
            if n and self.at("-"):
                self.eat("-")
                self.eat("number")
                n = 0
            else:
                self.skeleton(FNAMES)
                n += 1

    def requirements(self):
        if self.opens(":requirements"):
            self.eat(*REQS)
            while self.at(*REQS):
                self.eat(*REQS)
            self.eat(")")

    def action(self):
        self.name()
        self.eat(":parameters")
        self.eat("(")
        self.variables()
        self.eat(")")
        if self.at(":precondition"):
            self.eat(":precondition")
            if not self.empty():
                self.gd()
        if self.at(":effect"):
            self.eat(":effect")
            if not self.empty():
                self.effect()
        self.eat(")")

    def empty(self):
        return self.opens(")")

    def term(self):
        if self.at("?"):
            self.variable()
        else:
            self.name()

    def terms(self):
        while not self.at(")"):
            self.term()
        self.eat(")")

    def gd(self):
        if self.opens("or", "and"):
            while not self.at(")"):
                self.gd()
        elif self.opens("not"):
            self.gd()
        elif self.opens("imply"):
            self.gd()
            self.gd()
        elif self.opens("exists", "forall"):
            self.eat("(")
            self.variables()
            self.eat(")")
            self.gd()
        elif self.opens(">", "<", ">=", "<="):
            self.f_exp()
            self.f_exp()
        elif self.at("(") and self.at("=", k=1):
            self.equality()
        else:
            self.atom()
            return
        self.eat(")")

    def equality(self):
        self.eat("(")
        self.eat("=")
        if self.at("?") or self.at(*NAMES) and (self.at("?", k=1) or self.at(*NAMES, k=1)):
            self.term()
            self.term()
        else:
            self.f_exp()
            self.f_exp()

    def atom(self):
        self.eat("(")
        if self.at("="):
            self.eat("=")
            self.term()
            self.term()
            self.eat(")")
        else:
            self.name()
            self.terms()

    def f_exp(self):
        if self.at(NUM):
            self.eat(NUM)
        elif self.at(*FNAMES):
            self.fname()
        elif self.opens("-"):
            self.f_exp()
            if not self.at(")"):
                self.f_exp()
            self.eat(")")
        elif self.opens("/"):
            self.f_exp()
            self.f_exp()
            self.eat(")")
        elif self.opens("+", "*"):
            self.f_exp()
            self.f_exp()
            while not self.at(")"):
                self.f_exp()
            self.eat(")")
        else:
            self.f_head()

    def f_head(self):
        if self.at("("):
            self.eat("(")
            self.fname()
            self.terms()
        else:
            self.fname()

    def effect(self):
        if self.opens("and"):
            while not self.at(")"):
                self.c_effect()
            self.eat(")")
        else:
            self.c_effect()

    def c_effect(self):
        if self.opens("forall"):
            self.eat("(")
            self.variables()
            self.eat(")")
            self.effect()
            self.eat(")")
        elif self.opens("when"):
            self.gd()
            if self.opens("and"):
                while not self.at(")"):
                    self.p_effect()
                self.eat(")")
            else:
                self.p_effect()
            self.eat(")")
        elif self.opens("oneof"):
            self.effect()
            while not self.at(")"):
                self.effect()
            self.eat(")")
        else:
            self.p_effect()

    def p_effect(self):
        if self.opens("not"):
            self.atom()
            self.eat(")")
        elif self.opens("assign", "scale-up", "scale-down", "increase", "decrease"):
            self.f_head()
            self.f_exp()
            self.eat(")")
        else:
            self.atom()

    # ---- problems
    def problem(self):
        self.eat("(")
        self.eat("define")
        self.eat("(")
        self.eat("problem")
        self.name()
        self.eat(")")
        self.eat("(")
        self.eat(":domain")
        self.name()
        self.eat(")")
        self.requirements()
        if self.opens(":objects"):
            self.names()
            self.eat(")")
        self.eat("(")
        self.eat(":init")
        while not self.at(")"):
            self.initial()
        self.eat(")")
        self.eat("(")
        self.eat(":goal")
        self.gd()
        self.eat(")")
        if self.opens(":metric"):
            self.eat("minimize", "maximize")
            self.metric()
            self.eat(")")
        self.eat(")")
        self.end()

    def ground(self, names):
        self.eat("(")
        self.eat(*names)
        while not self.at(")"):
            self.name()
        self.eat(")")

    def ground_function(self):
        if self.at("("):
            self.ground(FNAMES)
        else:
            self.fname()

    def initial(self):
        if self.opens("not"):
            self.ground(NAMES)
            self.eat(")")
        elif self.opens("="):
            self.ground_function()
            self.eat(NUM)
            self.eat(")")
        else:
            self.ground(NAMES)

    def metric(self):
        if self.at(NUM):
            self.eat(NUM)
        elif self.opens("-"):
            self.metric()
            if not self.at(")"):
                self.metric()
            self.eat(")")
        elif self.opens("/"):
            self.metric()
            self.metric()
            self.eat(")")
        elif self.opens("+", "*"):
            self.metric()
            self.metric()
            while not self.at(")"):
                self.metric()
            self.eat(")")
        else:
            self.ground_function()

    # ---- plans
    def plan(self):
        # no word is reserved in a plan; the steps are checked against a domain by instantiate()
        while self.i < len(self.toks):
            self.eat("(")
            self.eat(*PNAMES)
            while not self.at(")"):
                self.eat(*PNAMES)
            self.eat(")")


PARSERS = {"domain": parse_domain_text, "problem": parse_problem_text, "plan": parse_plan_text}
ALLREQ = "( :requirements " + " ".join(REQS) + " )"


def dom(rest):
    return f"( define ( domain d ) {ALLREQ} {rest} )"


def act(rest):
    return dom(f"( :predicates ( p ) ( q ? x ) ) ( :functions ( f ) ( g ? x ) ) ( :action a :parameters ( ? x ) {rest} )")


def prob(rest):
    return f"( define ( problem n ) ( :domain d ) {rest} )"


# name -> (parser, text; the part between [ and ] is edited)
TEXTS = {
    "head": ("domain", "[ ( define ( domain d ) ( :requirements :strips :typing ) ( :predicates ( p ) ) ) ]"),
    "sections": ("domain", f"( define ( domain d ) {ALLREQ} [ ( :types t u - t ) ( :constants c - t ) ( :predicates ( p ) ) ( :functions ( f ) ) ] )"),
    "signatures": ("domain", dom("( :types t u ) [ ( :predicates ( p ? x ? y - t ) ( q ? x - ( either t u ) ) ) ] ")),
    "functions": ("domain", dom("( :types t ) [ ( :functions ( f ? x - t ) - number ( total-cost ) ) ]")),
    "derived": ("domain", dom("( :predicates ( p ? x ) ( q ) ) [ ( :derived ( p ? x ) ( q ) ) ( :derived ( q ) ( p ? y ) ) ]")),
    "action": ("domain", dom("( :predicates ( p ) ) [ ( :action a :parameters ( ? x ) :precondition ( p ) :effect ( p ) ) ( :action b :parameters ( ) ) ]")),
    "empty": ("domain", dom("[ ( :action a :parameters ( ) :precondition ( ) :effect ( ) ) ]")),
    "condition": ("domain", act(":precondition [ ( and ( or ( p ) ( not ( q ? x ) ) ) ( imply ( p ) ( = ? x ? x ) ) ) ]")),
    "quantified": ("domain", act(":precondition [ ( forall ( ? y ) ( exists ( ? z - object ) ( q ? y ) ) ) ]")),
    "comparison": ("domain", act(":precondition [ ( and ( >= ( + ( f ) 1 2 ) ( - ( g ? x ) ) ) ( = ( f ) ( / 3 ( f ) ) ) ) ]")),
    "effect": ("domain", act(":effect [ ( and ( p ) ( not ( q ? x ) ) ( when ( p ) ( and ( p ) ) ) ) ]")),
    "effects": ("domain", act(":effect [ ( forall ( ? y ) ( oneof ( q ? y ) ( and ( p ) ) ) ) ]")),
    "numeric": ("domain", act(":effect [ ( and ( increase ( f ) ( * 2 ( f ) ) ) ( assign ( g ? x ) 3 ) ) ]")),
    "problem": ("problem", "[ ( define ( problem n ) ( :domain d ) ( :requirements :strips ) ( :objects o - t ) ( :init ) ( :goal ( p ) ) ) ]"),
    "init": ("problem", prob("( :objects o ) [ ( :init ( p o ) ( not ( q ) ) ( = ( f o ) 3 ) ) ] ( :goal ( and ) )")),
    "goal": ("problem", prob("( :objects o ) ( :init ) [ ( :goal ( and ( p o ) ( not ( q ) ) ) ) ( :metric minimize ( f ) ) ]")),
    "metric": ("problem", prob("( :init ) ( :goal ( and ) ) [ ( :metric maximize ( + ( f o ) ( - 1 ) ( / ( f ) 2 ) ) ) ]")),
    "plan": ("plan", "[ ( a ) ( b o o ) ]"),
}


def written(toks, word, compact):
    """The text of the tokens; compact: as usual, without a space after ( and ? or before )."""
    out = ""
    for i, t in enumerate(toks):
        near = i == 0 or compact and (isinstance(toks[i - 1], Fixed) and toks[i - 1].text in ("(", "?") or isinstance(t, Fixed) and t.text == ")")
        out = out + ("" if near else " ") + word(t)
    return out


def decide(ctx, which, toks, compact=True):
    """The text of the tokens is accepted only if they are a sentence."""
    text = written(toks, lambda t: t.text, compact)
    ok, res = ctx.attempt(PARSERS[which], text)
    ctx.nchecks += 1
    if not ok:
        ctx.nrej += 1
        return False
    ctx.nacc += 1
    if ctx.symbolic and not all([t.known() for t in toks]):
        # accepted although some token has not been read: every word it may be
        text = written(toks, lambda t: t.word(), compact)
        ok, res = ctx.attempt(PARSERS[which], text)
        if not ok:
            return False
    r = Reader(toks)
    try:
        getattr(r, which)()
    except No as e:
        ctx.fail(f"accepted as a {which} though not a sentence ({e}): {' '.join([t.word() for t in toks])}")
    ctx.observe(" ".join([t.word() for t in toks]))
    return True


def split(text):
    """(tokens before, tokens edited, tokens after)"""
    ws = text.split()
    a, b = ws.index("["), ws.index("]")
    return fixed(" ".join(ws[:a])), fixed(" ".join(ws[a + 1:b])), fixed(" ".join(ws[b + 1:]))


def window(names, old, new):
    """old consecutive tokens anywhere in the edited part are replaced by new symbolic ones."""

    def run(ctx):
        which, text = TEXTS[ctx.choice("text", names)]
        pre, mid, post = split(text)
        r = ctx.choice("removed", old)
        k = ctx.choice("given", new)
        p = ctx.pick("position", len(mid) - r + 1)
        new_toks = [ctx.token(f"t{i}", vocabulary(ctx.name(f"n{i}"))) for i in range(k)]
        decide(ctx, which, pre + mid[:p] + new_toks + mid[p + r:] + post)

    return run


def exchange(ctx):
    """Two stretches of tokens are exchanged, or one is repeated."""
    which, text = TEXTS[ctx.choice("text", list(TEXTS))]
    pre, mid, post = split(text)
    n = 1 + ctx.pick("length", 6)
    p = ctx.pick("position", len(mid))
    how = ctx.choice("how", ["repeat", "remove", "cut", "again"])
    if how == "repeat":
        toks = pre + mid[:p + n] + mid[p:] + post
    elif how == "remove":
        toks = pre + mid[:p] + mid[p + n:] + post
    elif how == "cut":
        toks = (pre + mid)[:len(pre) + p]
        ctx.assume(n == 1)
    else:
        ctx.assume(n == 1)
        toks = pre + mid + post + (pre + mid + post)[:p + 1] if ctx.flag("half") else (pre + mid + post) * 2
    toks = toks + [ctx.token("t", vocabulary(ctx.name("n")))] if ctx.flag("more") else toks
    decide(ctx, which, toks, ctx.flag("compact"))


def fixed(text):
    return [Fixed(kind(x), x) for x in text.split()]


PARTS = {
    "domain": ["( :requirements :typing :numeric-fluents )", "( :types t )", "( :constants c )", "( :predicates ( p ) )", "( :functions ( f ) )",
               "( :action a :parameters ( ) )", "( :derived ( p ) ( and ) )"],
    "problem": ["( :domain d )", "( :requirements :typing )", "( :objects o )", "( :init )", "( :goal ( and ) )", "( :metric minimize 3 )"],
    "action": [":parameters ( )", ":precondition ( )", ":effect ( )", ":precondition ( and )"],
}


def sections(ctx):
    """Any sequence of parts of a domain, problem or action."""
    what = ctx.choice("what", list(PARTS))
    parts = PARTS[what]
    n = ctx.pick("n", {"domain": 4, "problem": 6, "action": 5}[what])
    # the parts are picked one by one; a prefix that is not one of a sentence is not continued
    chosen = []
    for i in range(n):
        chosen.append(parts[ctx.pick(f"part{i}", len(parts))])
    body = " ".join(chosen)
    if what == "action":
        text, which = f"( define ( domain d ) ( :action a {body} ) )", "domain"
    else:
        text, which = f"( define ( {what} x ) {body} )", what
    decide(ctx, which, fixed(text), ctx.flag("compact"))


FEW = ["functions", "goal", "plan"]
SCENARIOS = [
    Scenario("one", window(list(TEXTS), [0, 1, 2, 3], [1]), "18 texts in the usual spacing, at most 3 consecutive tokens replaced by one of 75 words"),
    Scenario("two", window(FEW, [0, 1, 2], [2]), "3 texts, at most 2 consecutive tokens replaced by any two of 75 words"),
    Scenario("more", window([t for t in TEXTS if t not in FEW], [0, 1, 2], [2]), "the other 15 texts likewise", quick=False),
    Scenario("exchange", exchange, "a stretch of at most 6 tokens of 18 texts repeated or left out, texts cut or doubled, with another token at the end or not; usual spacing, or spaces everywhere"),
    Scenario("sections", sections, "every sequence of at most 3 (problems: 5, actions: 4) parts; usual spacing, or spaces everywhere"),
]
