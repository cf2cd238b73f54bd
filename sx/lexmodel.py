"""Symbolic execution of the scanners that lark builds from the grammar of the code under test.

`Buffer(n)` is a text of at most n characters (Latin-1 without NUL). `scan` gives the token that a lexer's compiled
regular expressions read at a position, following the preference order of Python's backtracking matcher, and `token`
the next token after the ignored ones, keyword callbacks included. All as z3 terms over the characters."""

import re
from re import _constants as C

from sx.core import z3
from sx.rex import ALL, Unsupported, charset, parse, set_formula

WORD = frozenset(c for c in ALL if re.fullmatch(r"\w", chr(c)))
W8 = 8


def val(i):
    return z3.BitVecVal(i, W8)


class Program:
    """A regular expression as a program with prioritised branches."""

    def __init__(self, mres, types, pattern=None):
        self.code = []
        self.types = types
        alts = []
        if pattern is not None:
            tree, flags = parse(pattern)
            self.start = self.seq(list(tree), self.emit("match", 0), flags)
            return
        for mre in mres:
            tree, flags = parse(mre)
            names = {g: n for n, g in mre.groupindex.items()}
            items = list(tree)
            if len(items) == 1 and items[0][0] is C.BRANCH:
                branches = items[0][1][1]
            else:
                branches = [items]
            for b in branches:
                b = list(b)
                if len(b) != 1 or b[0][0] is not C.SUBPATTERN or b[0][1][0] not in names:
                    raise Unsupported("alternative that is not a named group")
                name = names[b[0][1][0]]
                if name not in types:
                    types.append(name)
                end = self.emit("match", types.index(name))
                alts.append(self.seq(b[0][1][3], end, flags))
        self.start = self.emit("split", alts)

    def emit(self, *ins):
        self.code.append(ins)
        return len(self.code) - 1

    def seq(self, items, nxt, flags):
        for op, av in reversed(list(items)):
            nxt = self.node(op, av, nxt, flags)
        return nxt

    def node(self, op, av, nxt, flags):
        cs = charset(op, av, flags)
        if cs is not None:
            return self.emit("char", frozenset(cs), nxt)
        if op is C.SUBPATTERN:
            _, add, sub, body = av
            if add & ~(re.I | re.S) or sub & ~(re.I | re.S):
                raise Unsupported("inline flags")
            return self.seq(body, nxt, (flags | add) & ~sub)
        if op is C.BRANCH:
            return self.emit("split", [self.seq(b, nxt, flags) for b in av[1]])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, body = av
            greedy = op is C.MAX_REPEAT
            if lo > 64 or (hi is not C.MAXREPEAT and hi > 64):
                raise Unsupported("repeat")
            if hi is C.MAXREPEAT:
                loop = self.emit("split", None)
                b = self.seq(body, loop, flags)
                self.code[loop] = ("split", [b, nxt] if greedy else [nxt, b])
                nxt = loop
            else:
                out = nxt
                for _ in range(hi - lo):
                    b = self.seq(body, nxt, flags)
                    nxt = self.emit("split", [b, out] if greedy else [out, b])
            for _ in range(lo):
                nxt = self.seq(body, nxt, flags)
            return nxt
        if op in (C.ASSERT, C.ASSERT_NOT):
            direction, body = av
            if direction != 1:
                raise Unsupported("lookbehind")
            end = self.emit("match", 0)
            return self.emit("look", op is C.ASSERT_NOT, self.seq(body, end, flags), nxt)
        if op is C.AT:
            if av not in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY, C.AT_END, C.AT_END_STRING, C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                raise Unsupported(av)
            return self.emit("at", av, nxt)
        raise Unsupported(op)


class Buffer:
    def __init__(self, n, tag=""):
        self.n = n
        self.c = [z3.BitVec(f"c{tag}{i}", W8) for i in range(n)]
        self.base = [z3.Implies(self.c[i] == 0, self.c[i + 1] == 0) for i in range(n - 1)]

    def isin(self, i, cs):
        return set_formula(self.c[i], cs) if i < self.n else z3.BoolVal(False)

    def end(self, i):
        return self.c[i] == 0 if i < self.n else z3.BoolVal(True)

    def text(self, m):
        out = []
        for c in self.c:
            k = m.eval(c, model_completion=True).as_long()
            if k == 0:
                break
            out.append(chr(k))
        return "".join(out)


class Spans:
    """Where a pattern matches in one symbolic string."""

    def __init__(self, pattern, bv):
        from sx.core import ch

        class Text:
            n = bv.size() // 8
            c = [ch(bv, i) for i in range(n)]
            isin, end = Buffer.isin, Buffer.end

        self.buf, self.prog, self.memo = Text(), Program((), [], pattern), {}

    def at(self, i):
        """(matched, end) of the pattern at position i."""
        m, e, _ = self.run(self.prog.start, i)
        return m, e


class Lexer:
    """The symbolic counterpart of one of lark's BasicLexers on a buffer."""

    def __init__(self, basic, buf):
        from lark.lexer import UnlessCallback

        self.buf, self.basic = buf, basic
        sc = basic.scanner
        self.types = []
        self.prog = Program(sc._mres, self.types)
        for c in basic.callback.values():
            if not isinstance(c, UnlessCallback):
                raise Unsupported("a callback on a terminal")
        self.unless = {}
        for t, c in basic.callback.items():
            ws = []
            for u in c.scanner.terminals:
                if u.pattern.type != "str":
                    raise Unsupported("pattern of a keyword")
                if u.name not in self.types:
                    self.types.append(u.name)
                ws.append((u.pattern.value, "i" in u.pattern.flags, u.name))
            self.unless[t] = ws
        self.ignored = set(basic.ignore_types)
        self.memo = {}

    def run(self, pc, i):
        """(matched, end, type) of the program from pc at position i."""
        key = (pc, i)
        if key in self.memo:
            r = self.memo[key]
            if r is None:
                raise Unsupported("loop over an empty match")
            return r
        self.memo[key] = None
        ins = self.prog.code[pc]
        b = self.buf
        F = (z3.BoolVal(False), val(0), val(0))
        if ins[0] == "match":
            r = (z3.BoolVal(True), val(i), val(ins[1]))
        elif ins[0] == "char":
            if i >= b.n:
                r = F
            else:
                m, e, k = self.run(ins[2], i + 1)
                r = (z3.And(b.isin(i, ins[1]), m), e, k)
        elif ins[0] == "split":
            r = F
            for p in reversed(ins[1]):
                m, e, k = self.run(p, i)
                if z3.is_false(m):
                    continue
                r = (z3.Or(m, r[0]), z3.If(m, e, r[1]), z3.If(m, k, r[2]))
        elif ins[0] == "look":
            m0, _, _ = self.run(ins[2], i)
            m, e, k = self.run(ins[3], i)
            r = (z3.And(z3.Not(m0) if ins[1] else m0, m), e, k)
        else:
            m, e, k = self.run(ins[2], i)
            if ins[1] in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
                a = b.isin(i - 1, WORD) if i > 0 else z3.BoolVal(False)
                x = z3.Xor(a, b.isin(i, WORD))
                x = x if ins[1] is C.AT_BOUNDARY else z3.Not(x)
            elif ins[1] in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
                x = z3.BoolVal(i == 0)
            else:
                x = b.end(i)
                if ins[1] is C.AT_END and i < b.n:
                    x = z3.Or(x, z3.And(b.c[i] == 10, b.end(i + 1)))
            r = (z3.And(x, m), e, k)
        r = (z3.simplify(r[0]), r[1], r[2])
        self.memo[key] = r
        return r

    Spans.run = run

    EOF, ERROR, LATE = 250, 251, 252

    def tok(self, i):
        """(type, end) of what is read at i, with keywords; the type of an ignored token stays as it is."""
        m, e, k = self.run(self.prog.start, i)
        out = k
        for t, ws in self.unless.items():
            if t not in self.types:
                continue
            for w, ci, name in reversed(ws):
                if i + len(w) > self.buf.n:
                    continue
                eq = z3.And(k == self.types.index(t), e == i + len(w), *[
                    self.buf.isin(i + j, frozenset({ord(x), ord(x.lower()), ord(x.upper())} if ci else {ord(x)}))
                    for j, x in enumerate(w)])
                out = z3.If(eq, val(self.types.index(name)), out)
        return m, e, k, out

    def token(self, upto):
        """(type, start, end) of the first token that is not ignored, if it starts at upto or before."""
        b = self.buf
        nt = {}
        for i in range(upto, -1, -1):
            m, e, k, out = self.tok(i)
            ign = z3.Or([k == self.types.index(t) for t in self.ignored if t in self.types] + [z3.BoolVal(False)])
            late = (val(self.LATE), e, e)
            rest = late
            for j in range(upto, i, -1):
                rest = tuple(z3.If(e == j, nt[j][x], rest[x]) for x in range(3))
            r = tuple(z3.If(b.end(i), (val(self.EOF), val(i), val(i))[x], z3.If(z3.Not(m), (val(self.ERROR), val(i), val(i))[x],
                      z3.If(ign, rest[x], (out, val(i), e)[x]))) for x in range(3))
            nt[i] = r
        return nt[0]


class Recorder:
    """Records the token boundaries that lark's lexer sees during a parse by the code under test."""

    def __init__(self):
        import lark
        import lark.lexer

        self.BL, self.Lark = lark.lexer.BasicLexer, lark.Lark

    def __enter__(self):
        rec = self
        self.steps, self.texts, self.inside = [], [], 0
        self.orig, self.oparse = self.BL.next_token, self.Lark.parse

        def next_token(lexer, lex_state, parser_state=None):
            if not rec.inside:
                return rec.orig(lexer, lex_state, parser_state)
            a = lex_state.line_ctr.char_pos
            try:
                t = rec.orig(lexer, lex_state, parser_state)
            except EOFError:
                rec.steps.append((lexer, a, None, None, ""))
                raise
            rec.steps.append((lexer, a, t.type, t.start_pos, str.__str__(t)))
            return t

        def parse(lk, text, *a, **k):
            rec.texts.append(text)
            rec.inside += 1
            try:
                return rec.oparse(lk, text, *a, **k)
            finally:
                rec.inside -= 1

        self.BL.next_token, self.Lark.parse = next_token, parse
        return self

    def __exit__(self, *a):
        self.BL.next_token, self.Lark.parse = self.orig, self.oparse
