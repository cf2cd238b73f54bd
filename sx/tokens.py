"""Symbolic tokens: a text may contain placeholders, each of which stands for any word of a given vocabulary.

lark's own lexers and parser run on the text. When a lexer reaches a placeholder, the words are partitioned by what that
lexer (its real scanner and callbacks, in its current state) makes of them; the feasible classes are explored separately,
with z3 deciding which ones are. Words that the lexer rejects stay together."""

import copy

PRE, POST = "\x1a", "\x1b"


class Tok:
    """A symbolic token of the harness; words: list of (kind, text)."""

    def __init__(self, E, label, words):
        from sx.core import raw, z3

        self.E, self.label = E, label
        self.kinds, self.words = [k for k, _ in words], [raw(w) for _, w in words]
        self.text = f"{PRE}{label}{POST}"
        self.var = E.word(label, len(self.words))
        self.dom = list(range(len(self.words)))
        self._eqs = [self.var == i for i in self.dom]
        self._z3 = z3

    def _within(self, idx):
        """Whether the token is one of words[i], i in idx; forks."""
        inside = [i for i in self.dom if i in idx]
        if not inside:
            return False
        if len(inside) == len(self.dom):
            return True
        r = self.E.fork(self._z3.Or([self._eqs[i] for i in inside]), ("tok", self.label, tuple(inside)))
        self.dom = inside if r else [i for i in self.dom if i not in idx]
        return r

    def isin(self, kinds):
        return self._within({i for i in self.dom if self.kinds[i] in kinds})

    def classify(self, f):
        """Fork until f(word) is the same for all remaining words; returns it."""
        groups = {}
        for i in self.dom:
            groups.setdefault(f(self.words[i]), []).append(i)
        for key, idx in groups.items():
            if self._within(set(idx)):
                return key

    def word(self):
        """The very word; forks."""
        for i in list(self.dom):
            if self._within({i}):
                return self.words[i]

    def known(self):
        return len(self.dom) == 1


class Fixed:
    """A concrete token with the same interface."""

    def __init__(self, kind, text):
        self.kind, self.text = kind, text

    def isin(self, kinds):
        return self.kind in kinds

    def word(self):
        return self.text

    def known(self):
        return True


def install(E):
    import lark.lexer as L

    orig = L.BasicLexer.next_token
    cache = {}

    def scan(lexer, word):
        """What a lexer in its own state reads first of 'word': (type, whole word?) or None."""
        key = (id(lexer), word)
        if key not in cache:
            st = L.LexerState(word + " ")
            try:
                t = orig(lexer, st, None)
                r = (t.type, str.__len__(t) == len(word))
            except (L.UnexpectedCharacters, EOFError):
                r = None
            cache[key] = (r, lexer)
        return cache[key][0]

    def next_token(self, lex_state, parser_state=None):
        if not E.toks:
            return orig(self, lex_state, parser_state)
        text, pos = lex_state.text, lex_state.line_ctr.char_pos
        while pos < len(text) and text[pos] in " \n\t":
            pos += 1
        if pos < len(text) and text[pos] == PRE:
            end = text.index(POST, pos) + 1
            tok = E.toks[text[pos + 1:end - 1]]
            kind = tok.classify(lambda w: scan(self, w))
            # rejected words stay together: any of them fails here in the same way
            w = tok.words[tok.dom[0]] if kind is None else tok.word()
            lex_state.text = text[:pos] + w + text[end:]
        return orig(self, lex_state, parser_state)

    L.BasicLexer.next_token = next_token
