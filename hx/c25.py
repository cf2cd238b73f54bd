"""C25: whitespace, comments and keyword-like names never change the reading."""

import re
import time

from hx.lib import FULL_REQS, Scenario, domain_parser, plan_parser, problem_parser, read_domain, read_plan, read_problem

WORDS = ["and", "define", "domain", "either", "exists", "forall", "imply", "not", "object", "oneof", "or", "problem", "when",
         "assign", "scale-up", "scale-down", "increase", "decrease", "maximize", "minimize", "total-cost", "number"]

# names are the words zqNx
DOMAIN = f"""(define (domain zq0x)
 {FULL_REQS}
 (:types zq1x zq2x - zq3x zq3x - object zq4x)
 (:constants zq5x - zq1x zq6x)
 (:predicates (zq7x) (zq8x ?zq10x - zq1x ?zq11x - (either zq1x zq2x) ?zq12x) (zq9x ?zq10x) (zq30x ?zq10x))
 (:functions (zq13x ?zq10x - zq1x) (zq14x) - number (total-cost) - number)
 (:derived (zq9x ?zq10x) (exists (?zq15x - zq1x) (zq30x ?zq15x)))
 (:action zq16x
  :parameters (?zq10x - zq1x ?zq11x - (either zq1x zq2x) ?zq12x)
  :precondition (and (zq7x) (or (not (zq30x ?zq10x)) (imply (zq30x zq6x) (= ?zq12x zq6x)))
    (forall (?zq17x ?zq18x - zq1x) (zq8x ?zq17x ?zq18x ?zq12x)) (exists (?zq17x) (zq30x ?zq17x))
    (>= (zq13x ?zq10x) 10.5) (< (+ (zq14x) 2 3) (* (zq14x) 2)) (> (- (zq14x) 1) (/ (zq14x) 4)) (<= (zq14x) 7))
  :effect (and (zq30x ?zq10x) (not (zq7x)) (increase (total-cost) 5) (assign (zq14x) 2) (scale-up (zq13x ?zq10x) 2)
    (forall (?zq17x - zq1x) (when (zq30x ?zq17x) (not (zq30x ?zq17x))))
    (when (zq7x) (and (decrease (zq14x) 1) (scale-down (zq14x) 2)))
    (oneof (zq30x zq6x) (and (zq7x) (zq30x ?zq11x)))))
 (:action zq19x :parameters () :precondition () :effect (zq7x))
 (:action zq20x :parameters (?zq10x) :effect ()))"""
PROBLEM = """(define (problem zq0x) (:domain zq1x)
 (:requirements :typing :numeric-fluents :action-costs :negative-preconditions)
 (:objects zq2x zq3x - zq4x zq5x - object zq6x)
 (:init (zq7x) (zq8x zq2x zq6x) (not (zq8x zq3x zq2x)) (= (zq9x) 0) (= (zq10x zq2x) 2.5) (= zq11x 3))
 (:goal (and (zq8x zq2x zq3x) (not (zq7x)) (> (zq9x) 1)))
 (:metric minimize (+ (total-cost) (* 2 (zq10x zq2x)))))"""
MAXIMISED = """(define (problem zq0x) (:domain zq1x) (:objects zq2x) (:init) (:goal (or (zq3x zq2x) (zq4x)))
 (:metric maximize (- (zq5x) (/ (zq6x zq2x) 2.5))))"""
PLAN = """(zq0x zq1x zq2x)
(zq3x) (zq0x zq2x)"""
MINIMAL = "(define (domain zq0x))"
SAMPLES = {"domain": (DOMAIN, domain_parser, read_domain), "problem": (PROBLEM, problem_parser, read_problem),
           "maximised problem": (MAXIMISED, problem_parser, read_problem), "plan": (PLAN, plan_parser, read_plan),
           "minimal domain": (MINIMAL, domain_parser, read_domain)}
NAME = re.compile(r"zq\d+x")
TOKEN = re.compile(r"[()]|[^\s()]+")
PARSERS = {}


def tokens(sample):
    return TOKEN.findall(SAMPLES[sample][0])


def rename(x, m):
    """The parse result with other names."""
    if isinstance(x, str):
        for k in m:
            if x == k:
                return m[k]
        return x
    if isinstance(x, (tuple, list)):
        return type(x)([rename(y, m) for y in x])
    if isinstance(x, frozenset):
        return frozenset([rename(y, m) for y in x])
    return x


def reading(ctx, sample, text, what):
    _, parser, read = SAMPLES[sample]
    return read(ctx.ok(parser(), text, what=f"parsing {what}, in {ctx.show(text)},"))


def same(ctx, sample, text, m, what):
    want = rename(reading(ctx, sample, SAMPLES[sample][0], "the sample"), m)
    got = reading(ctx, sample, text, what)
    ctx.check(got == want, f"{what}: {text}\nis read as {ctx.show(got)} instead of {ctx.show(want)}")


def renamed(text, m):
    return NAME.sub(lambda x: m.get(x.group(), x.group()), text)


# -------------------------------------------------------------------------------- the scanners of the real lexers
WS = frozenset(map(ord, " \t\r\n\f\v"))
CONTENT = frozenset(c for c in range(1, 256) if chr(c) not in "\n\r")
LETTER = frozenset(c for c in range(128) if chr(c).isalpha())
NAMECHAR = LETTER | frozenset(map(ord, "0123456789-_"))
DIGIT = frozenset(map(ord, "0123456789"))


def boundaries(sample):
    """(lexer, start of the gap, type, start, text, previous text, next text) of every token of the sample."""
    from sx.lexmodel import Recorder, Unsupported

    text, parser, _ = SAMPLES[sample]
    p = parser()
    with Recorder() as r:
        p(text)
    if not r.steps:
        raise Unsupported("lark does not use its basic scanners")
    if len(r.texts) != 1 or r.texts[0] != text:
        raise Unsupported("the text is changed before it is parsed")
    out = []
    for i, (lx, a, typ, start, tok) in enumerate(r.steps):
        nxt = r.steps[i + 1][4] if i + 1 < len(r.steps) else ""
        out.append((lx, a, typ, start, tok, r.steps[i - 1][4] if i else "", nxt))
    return out


def lexer_key(lx):
    return tuple((t.name, t.pattern.to_regexp()) for t in lx.terminals), tuple(sorted(lx.ignore_types))


def cases(sample):
    """The distinct (boundary index, kind) to decide."""
    out, seen = [], set()
    for i, (lx, a, typ, start, tok, prev, nxt) in enumerate(boundaries(sample)):
        kind = "end" if typ is None else "name" if NAME.search(tok) else "number" if tok[0].isdigit() else "token"
        glued = prev[-1:] == "?" or prev == ""
        free = glued or prev in "()" or tok in ("(", ")")
        key = (lexer_key(lx), typ, kind, None if kind in ("name", "number") else tok, prev[-1:] == "?", free, nxt in ("(", ")"))
        if key not in seen:
            seen.add(key)
            out.append((i, kind, free))
    return out


def decide(sample, shard, of):
    def solver(tier):
        from sx.core import z3
        from sx.lexmodel import Unsupported

        out = dict(queries=0, solver_s=0.0, violations=[], checks=0, unknown=0, paths=0, ok=0, approx={},
                   extra=dict(terminals=[]))
        try:
            cs = cases(sample)
            bs = boundaries(sample)
        except Unsupported as e:
            out["approx"] = {f"scanner not encodable: {e}": 1}
            return out
        cap = dict(lead=6, word=14, tail=2) if tier == "quick" else dict(lead=9, word=22, tail=4)
        for n, (i, kind, free) in enumerate(cs):
            if n % of != shard:
                continue
            lx, a, typ, start, tok, prev, nxt = bs[i]
            t0 = time.time()
            try:
                s, buf, p, ln, goal = query(lx, typ, kind, tok, prev, nxt, free, cap)
            except Unsupported as e:
                out["approx"][f"scanner not encodable: {e}"] = 1
                continue
            s.set("timeout", 60000)
            if s.check() != z3.sat:
                out["approx"]["no text satisfies the assumptions of a query"] = 1
            s.add(goal)
            r = s.check()
            out["queries"] += 1
            out["checks"] += 1
            out["paths"] += 1
            out["solver_s"] += time.time() - t0
            out["extra"]["terminals"].append(f"{typ}:{tok[:12]}" if kind == "token" else kind)
            if r == z3.unsat:
                out["ok"] += 1
            elif r == z3.unknown:
                out["unknown"] += 1
            else:
                m = s.model()
                text, k, w = buf.text(m), m.eval(p).as_long(), m.eval(ln).as_long()
                v = dict(boundary=i, lead=text[:k], word=text[k:k + w], tail=text[k + w:], kind=kind)
                out["violations"].append(dict(msg=f"boundary {i} of the {sample} text: {text!r}", values=v, obs=[]))
                if len(out["violations"]) >= 4:
                    break
        return out

    return solver


def query(lx, typ, kind, tok, prev, nxt, free, cap):
    """Satisfiable when the next token of lead + token + tail is not the token."""
    from sx.core import z3
    from sx.lexmodel import Buffer, Lexer, val

    lead = 0 if prev[-1:] == "?" else cap["lead"]
    pre = suf = ""
    if kind == "name":
        pre, suf = NAME.split(tok, maxsplit=1)
        width = cap["word"] + len(pre) + len(suf)
    else:
        width = {"number": 8, "token": len(tok), "end": 0}[kind]
    paren = kind == "token" and tok in ("(", ")")
    follow = nxt if (paren or nxt in ("(", ")")) and not NAME.search(nxt) else None
    n = lead + width + (max(cap["tail"], len(follow or "")) if kind != "end" else 0) + (cap["lead"] if kind == "end" else 0)
    b = Buffer(n)
    L = Lexer(lx, b)
    p, ln = z3.BitVec("p", 8), z3.BitVec("ln", 8)
    literal = z3.Bool("literal")  # the following token comes at once
    s = z3.SolverFor("QF_BV")
    s.add(b.base)
    if kind == "end":
        s.add(p == 0, ln == 0)
        com = z3.BoolVal(False)
        for i in range(n):
            c = b.c[i]
            s.add(z3.Or(c == 0, z3.If(com, comment_char(b, i, True), z3.Or(b.isin(i, WS), c == ord(";")))))
            com = z3.If(com, c != 10, c == ord(";"))
        t = L.token(n)
        return s, b, p, ln, t[0] != L.EOF
    s.add(z3.ULE(p, lead), z3.ULE(ln, width), z3.UGE(ln, 1))
    if not free:
        s.add(p != 0)
    com = z3.BoolVal(False)
    for i in range(n):
        c = b.c[i]
        inl = z3.UGT(p, i)
        int_ = z3.And(z3.UGE(val(i), p), z3.ULT(val(i), p + ln))
        tail = z3.UGE(val(i), p + ln)
        blank = z3.If(com, comment_char(b, i, False), z3.Or(b.isin(i, WS), c == ord(";")))
        s.add(z3.Implies(inl, blank))
        s.add(z3.Implies(p == i, z3.Not(com)))
        s.add(z3.Implies(z3.And(tail, z3.Not(literal)), z3.Or(c == 0, blank)))
        s.add(z3.Implies(int_, c != 0))
        com = z3.And(z3.Not(int_), z3.If(com, c != 10, c == ord(";")))
    s.add(z3.Implies(p == n, z3.Not(com)))
    # the tail: blanks up to the bound, or the next token at once
    for k in range(lead + 1):
        for w in range(1, width + 1):
            at = z3.And(p == k, ln == w)
            if k + w + cap["tail"] < n:
                s.add(z3.Implies(z3.And(at, z3.Not(literal)), b.end(k + w + cap["tail"])))
            if follow is not None:
                f = [b.isin(k + w + j, frozenset({ord(x)})) for j, x in enumerate(follow)]
                s.add(z3.Implies(z3.And(at, literal), z3.And(f + [b.end(k + w + len(follow))])))
    if follow is None:
        s.add(z3.Not(literal))
    if nxt != "":
        s.add(z3.Or(literal, *[z3.And(p + ln == k, z3.Not(b.end(k))) for k in range(n)]))
    # the token
    if kind == "token":
        s.add(ln == len(tok))
        for k in range(lead + 1):
            s.add(z3.Implies(p == k, z3.And([b.isin(k + j, frozenset({ord(x)})) for j, x in enumerate(tok)])))
    elif kind == "number":
        # digits, or digits dot digits
        dots = [z3.If(z3.And(b.isin(i, frozenset({46})), z3.UGE(val(i), p), z3.ULT(val(i), p + ln)), val(1), val(0)) for i in range(n)]
        s.add(z3.ULE(sum(dots), 1))
        for i in range(n):
            inside = z3.And(z3.UGE(val(i), p), z3.ULT(val(i), p + ln))
            edge = z3.Or(p == i, p + ln == i + 1)
            s.add(z3.Implies(inside, z3.Or(b.isin(i, DIGIT), z3.And(z3.Not(edge), b.isin(i, frozenset({46}))))))
    else:
        s.add(z3.UGT(ln, len(pre) + len(suf)))
        for k in range(lead + 1):
            for w in range(len(pre) + len(suf) + 1, width + 1):
                a, e = k + len(pre), k + w - len(suf)
                f = [b.isin(k + j, frozenset({ord(x)})) for j, x in enumerate(pre)]
                f += [b.isin(e + j, frozenset({ord(x)})) for j, x in enumerate(suf)]
                f += [b.isin(j, LETTER if j == a else NAMECHAR) for j in range(a, e)]
                for r in WORDS:
                    if len(r) == e - a:
                        f.append(z3.Or([z3.Not(b.isin(a + j, frozenset({ord(x)}))) for j, x in enumerate(r)]))
                if e - a >= 2:  # the other names of the sample
                    f.append(z3.Not(z3.And(b.isin(a, frozenset({ord("z")})), b.isin(a + 1, frozenset({ord("q")})))))
                s.add(z3.Implies(z3.And(p == k, ln == w), z3.And(f)))
    t = L.token(lead)
    want = val(L.types.index(typ)) if typ in L.types else val(L.ERROR)
    return s, b, p, ln, z3.Or(t[0] != want, t[1] != p, t[2] != p + ln)


def comment_char(b, i, last):
    from sx.core import z3

    cr = b.c[i] == 13
    nl = b.c[i + 1] == 10 if i + 1 < b.n else z3.BoolVal(False)
    return z3.Or(b.isin(i, CONTENT), b.c[i] == 10, z3.And(cr, nl))


def replayed(sample):
    """The counterexample of a scanner query as a whole text, parsed and compared with the sample."""

    def fn(ctx):
        v = ctx.v
        text = SAMPLES[sample][0]
        lx, a, typ, start, tok, prev, nxt = boundaries(sample)[v["boundary"]]
        if v["kind"] == "end":
            same(ctx, sample, text[:a] + v["tail"], {}, "a text with blanks and comments at its end")
            return
        rest = text[start + len(tok):]
        m = {}
        tail = v["tail"]
        if nxt and tail == nxt:
            tail = ""
            rest = rest.lstrip(" \n")
        elif ";" in tail.rsplit("\n", 1)[-1]:
            tail += "\n"
        word = v["word"]
        if v["kind"] == "number" and word != tok:
            text2 = text[:a] + v["lead"] + tok + tail + rest
            same(ctx, sample, text2, m, f"blanks around the number at position {start}")
            lead, tail = v["lead"], tail
            got = ctx.ok(SAMPLES[sample][1](), text[:a] + lead + word + tail + rest, what=f"parsing the number {word}")
            ctx.check(numbers(SAMPLES[sample][2](got)).count(float(word)) > 0, f"the number {word} is not read")
            return
        if v["kind"] == "name":
            pre, suf = NAME.split(tok, maxsplit=1)
            m = {NAME.search(tok).group(): word[len(pre):len(word) - len(suf)]}
        text2 = renamed(text[:a], m) + v["lead"] + word + tail + renamed(rest, m)
        same(ctx, sample, text2, m, f"other blanks or another name at position {start}")

    return fn


def numbers(x):
    if isinstance(x, (tuple, list, frozenset)):
        return [z for y in x for z in numbers(y)]
    try:
        return [float(x)]
    except (TypeError, ValueError):
        return []


# -------------------------------------------------------------------------------- whole texts
SEPS = ["", "\n", " \t\r\n ", ";\n", "; (and) )\n", " ;\"';?zq - :types(((\n", "\n;;; define\r\n\n", "; \u00e9\u2003 \u4e2d\n", ";\t;\n;;\n",
        "\f\v", "; \f(and \v zq \x1c\x1d\x1e ) \x85 (\u2028 :types \u2029 )\n"]


def free_gap(a, b):
    return a in ("", "(", ")") or b in ("", "(", ")")


def gaps(ctx):
    """One gap of a text gets another separator; all names are symbolic."""
    sample = ctx.choice("sample", list(SAMPLES))
    ts = tokens(sample)
    at = ctx.pick("gap", len(ts) + 1)
    sep = ctx.choice("sep", SEPS if ctx.thorough or sample != "domain" else SEPS[:6] + SEPS[-2:])
    prev = ts[at - 1] if at else ""
    nxt = ts[at] if at < len(ts) else ""
    if sep == "" and not free_gap(prev, nxt):
        return
    if sep and sep[0] == ";" and ctx.flag("no newline at the end") and nxt == "":
        sep = sep.rstrip("\n")
    text = " ".join(ts[:at]) + sep + " ".join(ts[at:])
    same(ctx, sample, text, {}, f"separator {sep!r} in gap {at}")


def everywhere(ctx):
    """All gaps get the same separators, alternating between two."""
    sample = ctx.choice("sample", list(SAMPLES))
    ts = tokens(sample)
    seps = [ctx.choice("even", SEPS), ctx.choice("odd", SEPS)]
    text = seps[0]
    for i, t in enumerate(ts):
        nxt = ts[i + 1] if i + 1 < len(ts) else ""
        s = seps[(i + 1) % 2]
        text += t + (" " if s == "" and not free_gap(t, nxt) else s)
    same(ctx, sample, text, {}, f"separators {seps}")


def variants(r):
    return [r + "x", "x" + r, "x" + r + "x", r + "-" + r, r + "_", "x-" + r, r + "1"]


EXTRA = ["a-", "a-b-c", "a_", "Z", "aND", "strips", "types", "precondition", "total", "scale", "up", "e10", "numbers", "nul"]


def names(ctx):
    """One name of a text is replaced by one that contains a reserved word."""
    sample = ctx.choice("sample", list(SAMPLES))
    ns = sorted(set(NAME.findall(SAMPLES[sample][0])), key=lambda x: int(x[2:-1]))
    old = ctx.choice("name", ns)
    k = ctx.choice("like", WORDS + ["other"])
    vs = EXTRA if k == "other" else variants(k) if ctx.thorough or sample == "plan" else variants(k)[:4]
    new = ctx.choice("form", vs)
    m = {old: new}
    same(ctx, sample, renamed(SAMPLES[sample][0], m), m, f"the name {new}")


def commented(ctx):
    """A comment with symbolic content between any two tokens of a small text."""
    sample = ctx.choice("sample", ["minimal domain", "plan"])
    ts = tokens(sample)
    at = ctx.pick("gap", len(ts) + 1)
    word = ctx.name("word")
    pad = ctx.choice("pad", ["", " ", "(", "?", "; ", ") ", "\f", "\x85)", "\u2028)"])
    text = " ".join(ts[:at]) + " ;" + pad + word + ctx.choice("after", ["", "(", " :types", "\""]) + "\n" + " ".join(ts[at:])
    same(ctx, sample, text, {}, "a comment")


NSH = {"domain": 6, "problem": 3, "maximised problem": 1, "plan": 1, "minimal domain": 1}
SCENARIOS = [
    Scenario(f"scanner-{s.replace(' ', '-')}-{k}", replayed(s),
             f"the token boundaries of the {s} sample (share {k + 1} of {NSH[s]}): blanks and comments of at most 6 (thorough: 9) "
             "Latin-1 characters before the token, names of at most 14 (22) characters, blanks, comments or the next token after it",
             solver=decide(s, k, NSH[s])) for s in SAMPLES for k in range(NSH[s])
] + [
    Scenario("gaps", gaps, "every gap of 5 sample texts with 8 to 11 separators"),
    Scenario("everywhere", everywhere, "every pair of 11 separators in all gaps of 5 sample texts"),
    Scenario("names", names, "every name of 5 sample texts replaced by 4 (thorough: 7) names built from each of 22 words, and 14 others"),
    Scenario("commented", commented, "a comment with a symbolic word in every gap of 2 sample texts"),
]
