"""Python regular expressions (single-line, bounded) as z3 formulas over zero-padded bit-vector strings,
and as z3 regular expressions (unbounded)."""

import re
import re._parser as sre
from re import _constants as C

from sx.core import ch, z3


class Unsupported(Exception):
    pass


def parse(pat):
    if isinstance(pat, re.Pattern):
        if pat.flags & (re.M | re.L):
            raise Unsupported("flags")
        return sre.parse(pat.pattern, pat.flags & (re.S | re.X | re.A | re.I)), pat.flags & (re.S | re.A | re.I)
    return sre.parse(pat), 0


ALL = frozenset(range(1, 256))  # codes of the characters considered (Latin-1 without NUL)


def fold(cs, flags):
    """Case-insensitive closure of a set of codes."""
    if not flags & re.I:
        return cs
    out = set(cs)
    for c in cs:
        for x in (chr(c).lower(), chr(c).upper()):
            if len(x) == 1 and ord(x) in ALL and (ord(x) < 128 and c < 128 or not flags & re.A):
                out.add(ord(x))
    return out


def charset(op, av, flags):
    """A node that consumes one char -> set of codes as a frozenset."""
    if op is C.LITERAL:
        return fold({av}, flags)
    if op is C.NOT_LITERAL:
        return ALL - fold({av}, flags)
    if op is C.ANY:
        return set(ALL) - (set() if flags & re.S else {10})
    if op is C.IN:
        neg, out = False, set()
        for o, a in av:
            if o is C.NEGATE:
                neg = True
            elif o is C.LITERAL:
                out.add(a)
            elif o is C.RANGE:
                out |= set(range(a[0], min(a[1], 0x200) + 1))
            elif o is C.CATEGORY:
                cat = {C.CATEGORY_SPACE: r"\s", C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_DIGIT: r"\d",
                       C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}[a]
                out |= {c for c in ALL if re.fullmatch(cat, chr(c), flags & re.A)}
            else:
                raise Unsupported(o)
        out = fold({c for c in out if c in ALL}, flags)
        return ALL - out if neg else out
    return None


def nfa(pat):
    """Thompson-style NFA: states ints; eps edges; char edges (set)."""
    tree, flags = parse(pat)
    eps, tr = {}, []
    cnt = [0]

    def new():
        cnt[0] += 1
        return cnt[0] - 1

    def e(a, b, cond=None):
        eps.setdefault(a, []).append((b, cond))

    def build(items, s):
        for op, av in items:
            s = node(op, av, s)
        return s

    def node(op, av, s):
        cs = charset(op, av, flags)
        if cs is not None:
            t = new()
            tr.append((s, frozenset(cs), t))
            return t
        if op is C.SUBPATTERN:
            return build(av[-1], s)
        if op is C.BRANCH:
            t = new()
            for alt in av[1]:
                x = new()
                e(s, x)
                e(build(alt, x), t)
            return t
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            if lo > 64 or (hi is not C.MAXREPEAT and hi > 64):
                raise Unsupported("repeat")
            for _ in range(lo):
                s = build(body, s)
            if hi is C.MAXREPEAT:
                a, b = new(), new()
                e(s, a)
                x = build(body, a)
                e(x, a)
                e(a, b)
                return b
            t = new()
            e(s, t)
            for _ in range(hi - lo):
                s = build(body, s)
                e(s, t)
            return t
        if op is C.AT:
            t = new()
            kind = {C.AT_BEGINNING: "^", C.AT_BEGINNING_STRING: "^", C.AT_END: "$", C.AT_END_STRING: "Z"}.get(av)
            if kind is None:
                raise Unsupported(av)
            e(s, t, kind)
            return t
        raise Unsupported(op)

    s0 = new()
    f = build(tree, s0)
    return s0, f, eps, tr


def set_formula(c, cs):
    """z3: byte c in the set of codes."""
    cs = sorted(cs)
    parts = []
    i = 0
    while i < len(cs):
        j = i
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
            j += 1
        parts.append(c == cs[i] if i == j else z3.And(z3.UGE(c, cs[i]), z3.ULE(c, cs[j])))
        i = j + 1
    return z3.Or(parts) if parts else z3.BoolVal(False)


def formula(pat, bv, mode="fullmatch"):
    """Formula: the zero-padded string bv matches the pattern."""
    s0, fin, eps, tr = nfa(pat)
    n = bv.size() // 8
    cs = [ch(bv, i) for i in range(n)]

    def at_end(i):
        return cs[i] == 0 if i < n else z3.BoolVal(True)

    cur = {s0: z3.BoolVal(True)}
    acc = []
    for i in range(n + 1):
        if mode == "search" and i > 0:
            cur[s0] = z3.BoolVal(True)
        cur = _closure(cur, eps, i, cs, n, at_end)
        if fin in cur:
            acc.append(z3.And(cur[fin], at_end(i)) if mode == "fullmatch" else cur[fin])
        if i == n:
            break
        nxt = {}
        for a, st, b in tr:
            if a in cur:
                f = z3.And(cur[a], set_formula(cs[i], st))
                nxt[b] = z3.Or(nxt[b], f) if b in nxt else f
        cur = nxt
    return z3.simplify(z3.Or(acc) if acc else z3.BoolVal(False))


def _closure(cur, eps, i, cs, n, at_end):
    """Reachability through eps edges: for every source state, the set of (target, guard)."""
    out = {}

    def add(s, f):
        out.setdefault(s, []).append(f)

    for s, f in cur.items():
        seen = {}

        def go(a, guards):
            g = frozenset(guards)
            if g in seen.setdefault(a, set()):
                return
            seen[a].add(g)
            for b, cond in eps.get(a, ()):
                if cond is None:
                    go(b, guards)
                elif cond == "^":
                    if i == 0:
                        go(b, guards)
                else:
                    go(b, guards | {cond})

        go(s, frozenset())
        for t, gs in seen.items():
            if frozenset() in gs:
                add(t, f)
            else:
                for g in gs:
                    parts = [f]
                    for cnd in g:
                        z = at_end(i)
                        if cnd == "$" and i < n:
                            z = z3.Or(z, z3.And(cs[i] == 10, at_end(i + 1)))
                        parts.append(z)
                    add(t, z3.And(parts))
    return {s: (z3.Or(fs) if len(fs) > 1 else fs[0]) for s, fs in out.items()}


def to_z3re(pat):
    """Unbounded z3 regular expression of a pattern without anchors."""
    tree, flags = parse(pat)

    def cs_re(cs):
        cs = sorted(cs)
        parts = []
        i = 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1:
                j += 1
            parts.append(z3.Range(z3.StringVal(chr(cs[i])), z3.StringVal(chr(cs[j]))))
            i = j + 1
        if not parts:
            raise Unsupported("empty class")
        return z3.Union(*parts) if len(parts) > 1 else parts[0]

    def seq(items):
        rs = [node(op, av) for op, av in items]
        if not rs:
            return z3.Re(z3.StringVal(""))
        return z3.Concat(*rs) if len(rs) > 1 else rs[0]

    def node(op, av):
        c = charset(op, av, flags)
        if c is not None:
            return cs_re(c)
        if op is C.SUBPATTERN:
            return seq(av[-1])
        if op is C.BRANCH:
            rs = [seq(a) for a in av[1]]
            return z3.Union(*rs) if len(rs) > 1 else rs[0]
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            r = seq(body)
            if hi is C.MAXREPEAT:
                if lo == 0:
                    return z3.Star(r)
                if lo == 1:
                    return z3.Plus(r)
                return z3.Concat(*([r] * lo + [z3.Star(r)]))
            return z3.Loop(r, lo, hi)
        raise Unsupported(op)

    return seq(tree)
