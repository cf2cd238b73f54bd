"""Symbolic kernel: symbolic values, path condition, forking (z3)."""

import re
import sys

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

W = 12  # characters in a symbolic name
BITS = 8 * W

# marker of a symbolic string; it is itself a legal PDDL name so that it flows through lexers
MARK = "sYm"
MRE = re.compile(r"sYm\d{4}Q")
MFULL = MRE.fullmatch
# marker of a symbolic non-negative integer
IMRE = re.compile(r"7770\d{4}777")
TOK = re.compile(r"[-_A-Za-z0-9]+|[^-_A-Za-z0-9]")
CHUNK = re.compile(r"[-_A-Za-z0-9]+")
PIECE = re.compile(r"sYm\d{4}Q|(?:(?!sYm\d{4}Q).)+", re.S)

# Reserved words of the language (specification side; independent of the code under test)
RESERVED = [
    "and", "define", "domain", "either", "exists", "forall", "imply", "not", "object", "oneof",
    "or", "problem", "when", "assign", "scale-up", "scale-down", "increase", "decrease",
    "maximize", "minimize", "total-cost", "number",
]


class Steer(BaseException):
    """Base class of path-steering exceptions (never caught by `except Exception`)."""


class Infeasible(Steer):
    pass


class PathLimit(Steer):
    pass


class Diverged(Steer):
    pass


def raw(s):
    """Plain content of a str (subclass) object."""
    return str.__str__(s)


def conc(s):
    return z3.BitVecVal(int.from_bytes(s.encode("latin-1", "replace").ljust(W, b"\0"), "big"), BITS)


def ch(bv, i):
    n = bv.size()
    return z3.Extract(n - 1 - 8 * i, n - 8 - 8 * i, bv)


def _rng(c, lo, hi):
    return z3.And(z3.UGE(c, ord(lo)), z3.ULE(c, ord(hi)))


def is_letter(c):
    return z3.Or(_rng(c, "a", "z"), _rng(c, "A", "Z"))


def is_namechar(c):
    return z3.Or(is_letter(c), _rng(c, "0", "9"), c == ord("-"), c == ord("_"))


def legal_name(bv):
    """Formula: bv holds a legal PDDL name (letter, then name characters, zero padded)."""
    cs = [ch(bv, i) for i in range(W)]
    fs = [is_letter(cs[0])]
    for i in range(1, W):
        fs.append(z3.Or(is_namechar(cs[i]), cs[i] == 0))
        if i + 1 < W:
            fs.append(z3.Implies(cs[i] == 0, cs[i + 1] == 0))
    return z3.And(fs)


def not_reserved(bv):
    return z3.And([bv != conc(w) for w in RESERVED if len(w) <= W])


def printable(bv):
    cs = [ch(bv, i) for i in range(W)]
    fs = []
    for i in range(W):
        fs.append(z3.Or(z3.BoolVal(True), cs[i] == 0))
        if i + 1 < W:
            fs.append(z3.Implies(cs[i] == 0, cs[i + 1] == 0))
    return z3.And(fs)


class Sym:
    """A symbolic string: an integer rank in the total order of names (enough while only equality and order are
    asked), and a bit-vector of characters (as soon as anything looks inside)."""

    __slots__ = ("marker", "_bv", "kind", "label", "base", "rank")

    def __init__(self, marker, bv, kind, label, base, rank=None):
        self.marker, self._bv, self.kind, self.label, self.base, self.rank = marker, bv, kind, label, base, rank

    @property
    def bv(self):
        if not E.bvmode:
            E.need_bv()
        return self._bv


def strlen(bv):
    """Number of non-zero bytes, as a BV of 8 bits."""
    n = bv.size() // 8
    r = z3.BitVecVal(0, 8)
    for i in range(n):
        r = r + z3.If(ch(bv, i) != 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    return r


def concat(a, b):
    """Concatenation of zero-padded strings."""
    na, nb = a.size(), b.size()
    n = na + nb
    bb = z3.Concat(b, z3.BitVecVal(0, na))
    aa = z3.Concat(a, z3.BitVecVal(0, nb))
    sh = z3.ZeroExt(n - 8, strlen(a)) * 8
    return aa | z3.LShR(bb, sh)


def fit(a, n):
    if a.size() == n:
        return a
    assert a.size() < n
    return z3.Concat(a, z3.BitVecVal(0, n - a.size()))


class Engine:
    toks = {}
    def __init__(self):
        self.active = False
        self.solver = None
        self._base_cache = {}
        self._implied = {}
        self.stats = dict(queries=0, solver_s=0.0, forks=0)
        self.canon = False
        self.perm = False
        self.kw_ok = True

    # ------------------------------------------------------------------ path life cycle
    salt = 0

    def start(self, prefix):
        if self.solver is None:
            self.solver = z3.SolverFor("QF_UFBV") if False else z3.Solver()
            self.solver.set("timeout", 20000)
            self._depth = 0
        self.solver.push()
        self.active = True
        self.hasraw = False  # a symbol that may equal a reserved word exists
        self.bvmode = False
        self.facts = []  # order facts taken on ranks, to be restated on characters
        self.prefix = prefix
        self.pos = 0
        self.trail = []  # (key, value, n_alternatives_pending)
        self.pending = []  # prefixes to explore
        self.syms = {}
        self.ints = {}
        self.vals = {}
        self.memo = {}
        self.reps, self.ireps = [], []
        self.model = None
        self.ticks = 0
        self.approx = set()
        self.labels = {}
        self.nchecks = 0
        self.unknown = 0
        self.canon = False
        self.salt = 0  # stands for the hash seed of the process
        self.perm = False
        self.perm_n = 0
        self.perms = {}
        self.spans = {}
        self.toks = {}

    def end(self):
        self.toks = {}
        self.solver.pop()
        self.perms = {}
        self.active = False

    # ------------------------------------------------------------------ solver
    def add(self, f):
        self.solver.add(f)

    def _check(self, *fs):
        import time

        t = time.perf_counter()
        r = self.solver.check(*fs)
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.perf_counter() - t
        return r

    def note(self, what):
        self.approx.add(what)

    def tick(self):
        self.ticks += 1
        if self.ticks > 60000:
            raise PathLimit("loop limit")

    # ------------------------------------------------------------------ symbolic values
    def new_sym(self, label, kind="name"):
        marker = "sYm%04dQ" % len(self.syms)
        key = (label, kind)
        c = self._base_cache.get(key)
        if c is None:
            bv = z3.BitVec("s:" + label, BITS)
            if kind == "name":
                base = z3.And(legal_name(bv), not_reserved(bv))
            else:
                base = printable(bv)
            c = self._base_cache[key] = (bv, base, z3.Int("r:" + label))
        bv, base, rank = c
        s = Sym(marker, bv, kind, label, base, rank)
        self.syms[marker] = s
        if self.bvmode:
            self.add(base)
            self.model = None
        elif kind != "name":
            self.need_bv()
        if kind != "name":
            self.hasraw = True
        return SymText(marker)

    def need_bv(self):
        """Leave the rank abstraction: restate everything on the characters of the names."""
        if self.bvmode:
            return
        self.bvmode = True
        for s in list(self.syms.values()):
            if s.base is not None:
                self.add(s.base)
        for op, x, y, v in self.facts:
            a, b = self.syms[x]._bv, self.syms[y]._bv
            f = (a == b) if op == "=" else z3.ULT(a, b)
            self.add(f if v else z3.Not(f))
        self.model = None

    def rel(self, op, mx, my):
        """Equality or order of two symbols; forks."""
        if self.bvmode or mx.rank is None or my.rank is None or mx.kind != "name" or my.kind != "name":
            c = (mx.bv == my.bv) if op == "=" else z3.ULT(mx.bv, my.bv)
            return self.fork(c, (op, mx.marker, my.marker))
        key = (op, mx.marker, my.marker)
        got = self.memo.get(key)
        if got is not None:
            return got
        v = self.fork((mx.rank == my.rank) if op == "=" else (mx.rank < my.rank), key)
        self.facts.append((op, mx.marker, my.marker, v))
        return v

    def derived(self, bv, kind="derived"):
        """A new marker for a computed string term (same width)."""
        if bv.size() < BITS:
            bv = fit(bv, BITS)
        for m, s in self.syms.items():
            if s.bv.eq(bv):
                return SymText(m)
        marker = "sYm%04dQ" % len(self.syms)
        self.syms[marker] = Sym(marker, bv, kind, None, None)
        return SymText(marker)

    def new_int(self, label):
        text = "7770%04d777" % len(self.ints)
        v = z3.Int("i:" + label)
        self.add(v >= 0)
        self.add(v < 10**9)
        self.model = None
        s = SymInt(int(text))
        self.ints[text] = (v, label)
        return s

    def word(self, label, n):
        """A symbolic index below n, fresh."""
        v = z3.Int("w:" + label)
        self.add(v >= 0)
        self.add(v < n)
        self.model = None
        self.ints["\x1a" + label] = (v, label)
        return v

    def bvterm(self, text):
        """z3 term of an arbitrary text made of literals and markers."""
        m = self.syms.get(text)
        if m is not None:
            return m.bv
        t = None
        for p in PIECE.findall(text):
            s = self.syms.get(p)
            b = s.bv if s is not None else z3.BitVecVal(
                int.from_bytes(p.encode("latin-1", "replace"), "big"), 8 * len(p))
            t = b if t is None else concat(t, b)
        return t if t is not None else z3.BitVecVal(0, 8)

    # ------------------------------------------------------------------ decisions
    def _decide(self, key, opts):
        """Record a decision; opts: list of feasible values (first is taken)."""
        v = opts[0]
        base = [(k, x) for k, x in self.trail]
        for o in opts[1:]:
            self.pending.append(base + [(key, o)])
        self.trail.append((key, v))
        if len(opts) > 1:
            self.stats["forks"] += len(opts) - 1
        return v

    def _replayed(self, key):
        if self.pos < len(self.prefix):
            k, v = self.prefix[self.pos]
            self.pos += 1
            if k != key:
                raise Diverged(f"{k} vs {key}")
            self.trail.append((k, v))
            return True, v
        return False, None

    def fork(self, cond, key):
        """Branch on a z3 Boolean. key: hashable, deterministic identity of the condition."""
        got = self.memo.get(key)
        if got is not None:
            return got
        ok, v = self._replayed(key)
        if not ok:
            feas = []
            tv = None
            if self.model is not None:
                mv = self.model.eval(cond, model_completion=True)
                if z3.is_true(mv):
                    tv = True
                elif z3.is_false(mv):
                    tv = False
            for val in (True, False):
                if tv is val:
                    feas.append(val)
                    continue
                f = cond if val else z3.Not(cond)
                r = self._check(f)
                if r == z3.sat:
                    feas.append(val)
                    if self.model is None:
                        self.model = self.solver.model()
                elif r == z3.unknown:
                    self.unknown += 1
                    feas.append(val)
            if not feas:
                raise Infeasible()
            v = self._decide(key, feas)
        f = cond if v else z3.Not(cond)
        self.add(f)
        if self.model is not None and not z3.is_true(self.model.eval(f, model_completion=True)):
            self.model = None
        self.memo[key] = v
        return v

    def pick(self, label, n):
        """A symbolic choice in range(n), decided by forking (fresh variable: all values feasible)."""
        key = ("pick", label)
        if key in self.memo:
            return self.memo[key]
        if n == 1:
            v = 0
        else:
            ok, v = self._replayed(key)
            if not ok:
                v = self._decide(key, list(range(n)))
        self.memo[key] = v
        self.vals[label] = v
        return v

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.add(cond)
        self.model = None
        if self.pos >= len(self.prefix):
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.sat:
                self.model = self.solver.model()

    # ------------------------------------------------------------------ string relations
    def has(self, s):
        return MARK in raw(s)

    def eq(self, a, b):
        """Equality of two texts (at least one with markers); forks."""
        a, b = raw(a), raw(b)
        if a == b:
            return True
        if MARK not in a and MARK not in b and "7770" not in a:
            return False
        ma, mb = self.syms.get(a), self.syms.get(b)
        if (ma and ma.kind != "name") or (mb and mb.kind != "name"):
            return self._eq_term(a, b)
        ta, tb = TOK.findall(a), TOK.findall(b)
        if len(ta) != len(tb):
            return self._mis(a, b)
        diff = []
        for x, y in zip(ta, tb):
            if x == y:
                continue
            if not (CHUNK.fullmatch(x) and CHUNK.fullmatch(y)):
                return self._mis(a, b)
            diff.append((x, y))
        for x, y in diff:
            if not self.eq_chunk(x, y):
                return False
        return True

    def _mis(self, a, b):
        for m in MRE.findall(a + b):
            if m in self.syms and self.syms[m].kind != "name":
                return self._eq_term(a, b)
        return False

    def _lit_impossible(self, m, lit):
        """Literal that a 'name' symbol can never equal."""
        return m.kind == "name" and (
            len(lit) > W or lit in RESERVED or not re.fullmatch("[A-Za-z][-_A-Za-z0-9]*", lit))

    def eq_chunk(self, x, y):
        if x > y:
            x, y = y, x
        mx, my = self.syms.get(x), self.syms.get(y)
        if mx and my:
            return self.rel("=", mx, my)
        if x in self.ints or y in self.ints:
            vx, vy = self._int(x), self._int(y)
            if vx is None or vy is None:
                return False
            return self.fork(vx == vy, ("i=", x, y))
        if mx or my:
            m, lit = (mx, y) if mx else (my, x)
            if MARK not in lit:
                if self._lit_impossible(m, lit):
                    return False
                if len(lit) > W:
                    return False
                return self.fork(m.bv == conc(lit), ("=", x, y))
        if MARK not in x and MARK not in y:
            return x == y
        return self._eq_term(x, y)

    def _int(self, x):
        if x in self.ints:
            return self.ints[x][0]
        if x.isdigit():
            return z3.IntVal(int(x))
        return None

    def _eq_term(self, a, b):
        ta, tb = self.bvterm(a), self.bvterm(b)
        n = max(ta.size(), tb.size())
        return self.fork(fit(ta, n) == fit(tb, n), ("=",) + tuple(sorted((a, b))))

    def lt(self, a, b):
        a, b = raw(a), raw(b)
        if a == b:
            return False
        if MARK not in a and MARK not in b and "7770" not in a and "7770" not in b:
            return a < b
        ta, tb = TOK.findall(a), TOK.findall(b)
        for x, y in zip(ta, tb):
            if x == y:
                continue
            cx, cy = CHUNK.fullmatch(x), CHUNK.fullmatch(y)
            if not cx or not cy:
                # separator against something else: compare first characters
                fx = "m" if x in self.syms else x[0]
                fy = "m" if y in self.syms else y[0]
                return fx < fy
            if MARK not in x and MARK not in y and x not in self.ints and y not in self.ints:
                return x < y if not x.startswith(y) and not y.startswith(x) else len(x) < len(y)
            if self.eq_chunk(x, y):
                continue
            return self.lt_chunk(x, y)
        return len(ta) < len(tb)

    def lt_chunk(self, x, y):
        if x in self.ints or y in self.ints:
            self.note("textual order of numbers")
            vx, vy = self._int(x), self._int(y)
            if vx is None or vy is None:
                return x < y
            return self.fork(vx < vy, ("i<", x, y))
        mx, my = self.syms.get(x), self.syms.get(y)
        if mx is not None and my is not None:
            # distinct chunks here: x < y iff not y < x
            return self.rel("<", mx, my) if x <= y else not self.rel("<", my, mx)
        bx, by = self.bvterm(x), self.bvterm(y)
        n = max(bx.size(), by.size())
        if x <= y:
            return self.fork(z3.ULT(fit(bx, n), fit(by, n)), ("<", x, y))
        # distinct chunks here: x < y iff not y < x
        return not self.fork(z3.ULT(fit(by, n), fit(bx, n)), ("<", y, x))

    def hash(self, s):
        s = raw(s)
        if not self.active or not self.canon:
            return 77 + self.salt
        h = []
        for t in TOK.findall(s):
            if CHUNK.fullmatch(t):
                for i, r in enumerate(self.reps):
                    if self.eq_chunk(t, r):
                        t = "\0%d" % i
                        break
                else:
                    self.reps.append(t)
                    t = "\0%d" % (len(self.reps) - 1)
            h.append(t)
        return hash("|".join(h)) + self.salt

    # ------------------------------------------------------------------ models
    def solve(self):
        r = self._check()
        if r != z3.sat:
            return None
        return self.solver.model()

    def _names(self, model):
        """Values of all symbols under the model: marker -> str."""
        if self.bvmode:
            return {m: decode(model.eval(s._bv, model_completion=True)) for m, s in self.syms.items()}
        ranks = {m: model.eval(s.rank, model_completion=True).as_long() for m, s in self.syms.items()}
        idx = {r: i for i, r in enumerate(sorted(set(ranks.values())))}
        al = "abcdefghijklmnopqrstuvwxyz"
        return {m: "n" + al[idx[r] // 26] + al[idx[r] % 26] for m, r in ranks.items()}

    def values(self, model):
        """Concrete values of all labelled inputs under the model."""
        out = dict(self.vals)
        names = self._names(model)
        for m, s in self.syms.items():
            if s.label is not None:
                out[s.label] = names[m]
        for text, (v, label) in self.ints.items():
            out[label] = model.eval(v, model_completion=True).as_long()
        return out

    def subst(self, text, model):
        """Replace the markers of a text by their values in the model."""
        names = self._names(model)

        def f(m):
            return names.get(m.group(0), m.group(0))

        def g(m):
            s = self.ints.get(m.group(0))
            return str(model.eval(s[0], model_completion=True)) if s else m.group(0)

        return IMRE.sub(g, MRE.sub(f, raw(text)))


def decode(v):
    n = v.as_long()
    return n.to_bytes(v.size() // 8, "big").split(b"\0")[0].decode("latin-1")


E = Engine()


def symbolic(s):
    return E.active and isinstance(s, str) and MARK in raw(s)


def wrap(r):
    """Wrap results that carry markers."""
    if E.active:
        t = type(r)
        if t is str:
            if MARK in r or "7770" in r and IMRE.search(r):
                return SymText(r)
        elif t is list or t is tuple:
            for x in r:
                if type(x) is str and MARK in x:
                    return t([wrap(x) for x in r])
    return r


# ---------------------------------------------------------------------- string methods
def _lower_bv(bv):
    return z3.Concat([z3.If(_rng(c, "A", "Z"), c + 32, c) for c in (ch(bv, i) for i in range(bv.size() // 8))])


def _upper_bv(bv):
    return z3.Concat([z3.If(_rng(c, "a", "z"), c - 32, c) for c in (ch(bv, i) for i in range(bv.size() // 8))])


def _map_chars(bv, fn):
    return z3.Concat([fn(ch(bv, i)) for i in range(bv.size() // 8)])


def _starts(bv, lit):
    if len(lit) > bv.size() // 8:
        return z3.BoolVal(False)
    return z3.And([ch(bv, i) == ord(c) for i, c in enumerate(lit)] or [z3.BoolVal(True)])


def _contains(bv, lit):
    n = bv.size() // 8
    return z3.Or([z3.And([ch(bv, i + j) == ord(c) for j, c in enumerate(lit)])
                  for i in range(n - len(lit) + 1)] or [z3.BoolVal(False)])


def _ends(bv, lit):
    n = bv.size() // 8
    return z3.Or([z3.And([ch(bv, i + j) == ord(c) for j, c in enumerate(lit)]
                         + ([ch(bv, i + len(lit)) == 0] if i + len(lit) < n else []))
                  for i in range(n - len(lit) + 1)] or [z3.BoolVal(False)])


def _at(bs, i, bp):
    """The symbolic string bp (zero-padded) occurs in bs from position i on."""
    n = bs.size() // 8
    return z3.And([z3.Or(ch(bp, j) == 0, ch(bp, j) == ch(bs, i + j)) if i + j < n else ch(bp, j) == 0
                   for j in range(bp.size() // 8)])


def _at_end(bs, i, bp):
    n, k = bs.size() // 8, bp.size() // 8
    cs = [_at(bs, i, bp)]
    for j in range(k + 1):
        over = [ch(bp, j) == 0] if j < k else []
        over += [ch(bp, j - 1) != 0] if j else []
        if i + j < n:
            cs.append(z3.Implies(z3.And(over), ch(bs, i + j) == 0))
    return z3.And(cs)


MAXSEARCH = 3 * BITS  # two longer texts are not searched for one another


def _symbolic_search(s, p, what, how):
    """Decide whether the text s begins with / ends with / contains the text p, one of them symbolic."""
    bs, bp = E.bvterm(s), E.bvterm(p)
    if bs.size() > MAXSEARCH or bp.size() > MAXSEARCH:
        E.note(what + " in long text")
        return False
    n = bs.size() // 8
    f = (_at(bs, 0, bp) if how == "starts" else
         z3.Or([_at(bs, i, bp) for i in range(n + 1)]) if how == "contains" else
         z3.Or([_at_end(bs, i, bp) for i in range(n + 1)]))
    return E.fork(z3.simplify(f), (how, s, p))


def _each_piece(s, f_sym, f_lit):
    out = []
    for p in PIECE.findall(raw(s)):
        m = E.syms.get(p)
        out.append(raw(f_sym(m)) if m is not None else f_lit(p))
    return SymText("".join(out))


def m_lower(self):
    if not symbolic(self):
        return raw(self).lower()
    return _each_piece(self, lambda m: E.derived(z3.simplify(_lower_bv(m.bv))), str.lower)


def m_upper(self):
    if not symbolic(self):
        return raw(self).upper()
    return _each_piece(self, lambda m: E.derived(z3.simplify(_upper_bv(m.bv))), str.upper)


def m_casefold(self):
    return m_lower(self)


def m_capitalize(self):
    if not symbolic(self):
        return raw(self).capitalize()
    m = E.syms.get(raw(self))
    if m is None:
        E.note("capitalize")
        return wrap(raw(self).capitalize())
    lo = _lower_bv(m.bv)
    return E.derived(z3.simplify(z3.Concat(ch(_upper_bv(m.bv), 0), z3.Extract(BITS - 9, 0, lo))))


def m_startswith(self, p, *a):
    if isinstance(p, tuple) and not a:
        return any(m_startswith(self, x) for x in p)
    if a or not (symbolic(self) or symbolic(p)):
        return raw(self).startswith(p, *a)
    s, p = raw(self), raw(p)
    if s.startswith(p):
        return True
    if MARK in p:
        return _symbolic_search(s, p, "prefix", "starts")
    bv = E.bvterm(s)
    return E.fork(_starts(bv, p), ("starts", s, p))


def m_endswith(self, p, *a):
    if isinstance(p, tuple) and not a:
        return any(m_endswith(self, x) for x in p)
    if a or not (symbolic(self) or symbolic(p)):
        return raw(self).endswith(p, *a)
    s, p = raw(self), raw(p)
    if s.endswith(p):
        return True
    if MARK in p:
        return _symbolic_search(s, p, "suffix", "ends")
    return E.fork(_ends(E.bvterm(s), p), ("ends", s, p))


def m_contains(self, p):
    if not (symbolic(self) or symbolic(p)):
        return str.__contains__(self, p)
    s, p = raw(self), raw(p)
    if p in s:
        return True
    if MARK in p:
        if not symbolic(self):
            # substring of a concrete text: enumerate the candidate substrings
            if p in E.syms:
                cands = {t for t in CHUNK.findall(s)}
                subs = {t[i:j] for t in cands for i in range(len(t)) for j in range(i + 1, min(len(t), i + W) + 1)}
                return any(E.eq(p, c) for c in sorted(subs))
            return False
        if E.bvterm(s).size() <= MAXSEARCH:
            return _symbolic_search(s, p, "substring", "contains")
        E.note("substring search")
        sc = CHUNK.findall(s)
        return p in E.syms and any(E.eq(p, c) for c in sc)
    if not CHUNK.fullmatch(p):
        # a separator cannot occur inside names
        if all(E.syms[m].kind == "name" for m in MRE.findall(s) if m in E.syms):
            return False
    return E.fork(_contains(E.bvterm(s), p), ("contains", s, p))


def m_replace(self, old, new, *a):
    if not symbolic(self) and not symbolic(old) and not symbolic(new):
        return raw(self).replace(old, new, *a)
    o, n = raw(old), raw(new)
    if len(o) == 1 and len(n) == 1 and not a and re.fullmatch("[-_A-Za-z0-9]", o):
        return _each_piece(
            self,
            lambda m: E.derived(z3.simplify(_map_chars(m.bv, lambda c: z3.If(c == ord(o), z3.BitVecVal(ord(n), 8), c)))),
            lambda p: p.replace(o, n))
    if CHUNK.search(o) and MARK not in o:
        if m_contains(self, o):
            E.note("replace")
    return wrap(raw(self).replace(o, n, *a))


def m_getitem(self, i):
    if not symbolic(self):
        return str.__getitem__(self, i)
    s = raw(self)
    m = E.syms.get(s)
    # literal prefix
    pm = MRE.search(s)
    if isinstance(i, int) and 0 <= i < pm.start():
        return s[i]
    if isinstance(i, slice) and i.step is None:
        st = i.start or 0
        if 0 <= st <= pm.start():
            if i.stop is None:
                return wrap(s[st:])
            if 0 <= i.stop <= pm.start():
                return s[st:i.stop]
            if i.stop < 0 and not MRE.search(s[i.stop:]) and not any(
                    len(s) + i.stop < x.end() for x in MRE.finditer(s)):
                return wrap(s[i])
    bv = m.bv if m is not None else E.bvterm(s)
    if bv.size() > BITS:
        E.note("getitem on long text")
        return wrap(s[i])
    if isinstance(i, int):
        n = len_sym(self)
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError("string index out of range")
        return E.derived(z3.simplify(fit(ch(bv, i), BITS)))
    if i.step is None and (i.start or 0) >= 0 and (i.stop is None or i.stop >= 0):
        st = i.start or 0
        r = bv << (8 * st)
        if i.stop is not None:
            k = max(0, i.stop - st)
            keep = ((1 << (8 * min(k, W))) - 1) << (8 * max(0, W - k))
            r = r & z3.BitVecVal(keep, BITS)
        return E.derived(z3.simplify(r))
    n = len_sym(self)
    return m_getitem(self, slice(*i.indices(n)[:2])) if i.step is None else wrap(s[i])


def len_sym(s):
    """Length of a symbolic text, decided by forking."""
    r = raw(s)
    if not symbolic(s):
        return len(r)
    total = 0
    for p in PIECE.findall(r):
        m = E.syms.get(p)
        if m is None:
            total += len(p)
            continue
        n = W
        for k in range(0 if m.kind != "name" else 1, W):
            if E.fork(ch(m.bv, k) == 0, ("len", m.marker, k)):
                n = k
                break
        total += n
    return total


def iter_sym(s):
    n = len_sym(s)
    r = raw(s)
    if r in E.syms:
        return [m_getitem(s, i) for i in range(n)]
    out = []
    for p in PIECE.findall(r):
        out.extend(iter_sym(SymText(p)) if p in E.syms else list(p))
    return out


def m_eq(self, other):
    if not isinstance(other, str):
        return NotImplemented
    if E.active:
        return E.eq(self, other)
    return raw(self) == raw(other)


def m_ne(self, other):
    r = m_eq(self, other)
    return r if r is NotImplemented else not r


def m_lt(self, other):
    if not isinstance(other, str):
        return NotImplemented
    return E.lt(self, other) if E.active else raw(self) < raw(other)


def m_gt(self, other):
    if not isinstance(other, str):
        return NotImplemented
    return E.lt(other, self) if E.active else raw(self) > raw(other)


def m_le(self, other):
    if not isinstance(other, str):
        return NotImplemented
    return not E.lt(other, self) if E.active else raw(self) <= raw(other)


def m_ge(self, other):
    if not isinstance(other, str):
        return NotImplemented
    return not E.lt(self, other) if E.active else raw(self) >= raw(other)


def m_hash(self):
    # texts without markers hash like plain strings; symbolic names range over strings of at most W
    # characters and harnesses use no concrete legal name of that length, so no equality is missed
    if not E.active or (MARK not in raw(self) and not E.hasraw):
        return str.__hash__(self)
    return E.hash(self)


def m_add(self, other):
    if not isinstance(other, str):
        return NotImplemented
    return wrap(raw(self) + raw(other))


def m_radd(self, other):
    if not isinstance(other, str):
        return NotImplemented
    return wrap(raw(other) + raw(self))


def m_format(self, spec):
    r = raw(self)
    if spec and symbolic(self):
        E.note("format spec")
    return wrap(format(r, spec))


def m_isupper(self):
    if not symbolic(self):
        return raw(self).isupper()
    m = E.syms.get(raw(self))
    if m is None:
        E.note("isupper")
        return raw(self).isupper()
    return E.eq(m_upper(self), self) and any_alpha(m)


def m_islower(self):
    if not symbolic(self):
        return raw(self).islower()
    m = E.syms.get(raw(self))
    if m is None:
        E.note("islower")
        return raw(self).islower()
    return E.eq(m_lower(self), self) and any_alpha(m)


def any_alpha(m):
    if m.kind == "name":
        return True
    return E.fork(z3.Or([is_letter(ch(m.bv, i)) for i in range(W)]), ("alpha", m.marker))


def _all_pred(name, f, native):
    def meth(self):
        if not symbolic(self):
            return native(raw(self))
        m = E.syms.get(raw(self))
        if m is None:
            E.note(name)
            return native(raw(self))
        cs = [ch(m.bv, i) for i in range(W)]
        return E.fork(z3.And([cs[0] != 0] + [z3.Or(c == 0, f(c)) for c in cs]), (name, m.marker))

    return meth


def m_bool(self):
    r = raw(self)
    if not E.active or not E.hasraw or MARK not in r:
        return r != ""
    for p in PIECE.findall(r):
        m = E.syms.get(p)
        if m is None or m.kind == "name":
            return True
    return any(E.fork(ch(E.syms[p].bv, 0) != 0, ("nonempty", p)) for p in PIECE.findall(r))


METHODS = dict(
    __bool__=m_bool,
    __eq__=m_eq, __ne__=m_ne, __lt__=m_lt, __gt__=m_gt, __le__=m_le, __ge__=m_ge,
    __hash__=m_hash, __add__=m_add, __radd__=m_radd, __contains__=m_contains, __getitem__=m_getitem,
    lower=m_lower, upper=m_upper, casefold=m_casefold, capitalize=m_capitalize,
    startswith=m_startswith, endswith=m_endswith, replace=m_replace,
    isupper=m_isupper, islower=m_islower,
    isalpha=_all_pred("isalpha", is_letter, str.isalpha),
    isdigit=_all_pred("isdigit", lambda c: _rng(c, "0", "9"), str.isdigit),
    isalnum=_all_pred("isalnum", lambda c: z3.Or(is_letter(c), _rng(c, "0", "9")), str.isalnum),
)
# methods that are exact when run natively on marker texts (markers are opaque name characters)
NATIVE = ["join", "strip", "lstrip", "rstrip", "splitlines", "split", "format", "partition", "rsplit", "expandtabs",
          "ljust", "rjust", "center", "rpartition", "removeprefix", "removesuffix", "title", "swapcase",
          "translate", "zfill", "find", "index", "rfind", "count"]
INEXACT = {"removeprefix", "removesuffix", "title", "swapcase", "translate", "zfill", "find", "index", "rfind",
           "count", "ljust", "rjust", "center", "__mul__"}


WHITE = [c for c in range(1, 256) if chr(c).isspace()]


def _strip(name):
    nat = getattr(str, name)

    def meth(self, chars=None):
        r = raw(self)
        if not E.active or MARK not in r:
            return wrap(nat(r, chars if chars is None else raw(chars)))
        m = E.syms.get(r)
        cs = None if chars is None else raw(chars)
        if m is None or MARK in (cs or "") or m.kind == "name" and (cs is None or not CHUNK.search(cs)):
            if any(E.syms[x].kind != "name" for x in MRE.findall(r) if x in E.syms) or cs is not None and CHUNK.search(cs):
                E.note("str." + name)
            return wrap(nat(r, cs))
        codes = WHITE if cs is None else [ord(c) for c in cs]
        n = len_sym(self)
        lo, hi = 0, n

        def at(i):
            c = ch(m.bv, i)
            return E.fork(z3.Or([c == k for k in codes]), ("strip", m.marker, i, cs))

        if name != "rstrip":
            while lo < hi and at(lo):
                lo += 1
        if name != "lstrip":
            while hi > lo and at(hi - 1):
                hi -= 1
        return self if (lo, hi) == (0, n) else m_getitem(self, slice(lo, hi)) if hi > lo else ""

    meth.__name__ = name
    return meth


def _native(name):
    nat = getattr(str, name)

    def meth(self, *a, **k):
        r = nat(raw(self), *[raw(x) if isinstance(x, str) else x for x in a], **k)
        if E.active:
            if MARK in raw(self):
                if name in INEXACT or E.hasraw and name != "join" and any(
                        E.syms[x].kind != "name" for x in MRE.findall(raw(self)) if x in E.syms):
                    E.note("str." + name)
                elif name in ("strip", "lstrip", "rstrip", "split", "partition", "rsplit", "rpartition") and a \
                        and isinstance(a[0], str) and CHUNK.search(raw(a[0])):
                    E.note("str." + name)
            return wrap(r)
        return r

    meth.__name__ = name
    return meth


class SymText(str):
    """Any text with markers that the code under test computes."""

    def __str__(self):
        return self

    def __format__(self, spec):
        return m_format(self, spec)

    def __reduce_ex__(self, p):
        return (SymText, (raw(self),))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def install(cls, skip=()):
    for k, f in METHODS.items():
        if k not in skip:
            setattr(cls, k, f)
    for k in NATIVE:
        setattr(cls, k, _strip(k) if k in ("strip", "lstrip", "rstrip") else _native(k))


install(SymText)


class SymInt(int):
    """A symbolic non-negative integer (marker digits)."""

    def _v(self):
        return E.ints[int.__repr__(self)][0]

    def _cmp(self, other, op, key):
        if not E.active:
            return NotImplemented
        if isinstance(other, SymInt):
            o = other._v()
        elif isinstance(other, int):
            o = z3.IntVal(int(other))
        elif isinstance(other, float):
            from fractions import Fraction

            if other != other or other in (float("inf"), float("-inf")):
                return getattr(float, "__%s__" % key)(0.0, other)
            fr = Fraction(other)
            return E.fork(op(z3.ToReal(self._v()), z3.RealVal(str(fr))), (key, int.__repr__(self), repr(other)))
        else:
            return NotImplemented
        a, b = int.__repr__(self), repr(int(other)) if not isinstance(other, SymInt) else int.__repr__(other)
        if a == b:
            return key in ("eq", "le", "ge")
        return E.fork(op(self._v(), o), (key, a, b))

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, "eq")

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "lt")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, "gt")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "le")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, "ge")

    def __bool__(self):
        return E.fork(self._v() != 0, ("ne0", int.__repr__(self)))

    def __hash__(self):
        if E.active and E.canon:
            for i, r in enumerate(E.ireps):
                if self == r:
                    return 1000 + i
            E.ireps.append(self)
            return 1000 + len(E.ireps) - 1
        return 77

    def __str__(self):
        return SymText(int.__repr__(self))

    def __repr__(self):
        return SymText(int.__repr__(self))

    def __format__(self, spec):
        if spec:
            E.note("int format")
        return format(int(int.__repr__(self)), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce_ex__(self, p):
        return (SymInt, (int(int.__repr__(self)),))

    def is_integer(self):
        return True


class SymFloat(float):
    """A concrete number that compares with symbolic integers."""

    def _op(self, o, key, back):
        if E.active and isinstance(o, SymInt):
            return getattr(o, back)(float(self))
        return getattr(float, key)(float(self), o)

    def __eq__(self, o):
        return self._op(o, "__eq__", "__eq__")

    def __ne__(self, o):
        return self._op(o, "__ne__", "__ne__")

    def __lt__(self, o):
        return self._op(o, "__lt__", "__gt__")

    def __gt__(self, o):
        return self._op(o, "__gt__", "__lt__")

    def __le__(self, o):
        return self._op(o, "__le__", "__ge__")

    def __ge__(self, o):
        return self._op(o, "__ge__", "__le__")

    __hash__ = SymInt.__hash__

    def __reduce_ex__(self, p):
        return (SymFloat, (float(self),))


class LazySet(set):
    """A set over a fixed finite universe whose members are decided when asked for."""

    def __init__(self, label, universe, forced=()):
        super().__init__()
        self._label, self._uni, self._forced = label, list(universe), list(forced)

    def _bit(self, x):
        for f in self._forced:
            if f is x or f == x:
                return True
        for i, u in enumerate(self._uni):
            if u is x or u == x:
                lab = f"{self._label}.{getattr(u, 'name', u)}"
                return bool(E.pick(lab, 2))
        return False

    def _cp(self, extra=()):
        return LazySet(self._label, self._uni, self._forced + list(extra))

    def __contains__(self, x):
        return self._bit(x)

    def _all(self):
        out = []
        for u in self._uni:
            if self._bit(u):
                out.append(u)
        for f in self._forced:
            if f not in out:
                out.append(f)
        return out

    def __iter__(self):
        return iter(self._all())

    def __len__(self):
        return len(self._all())

    def __bool__(self):
        return bool(self._forced) or any(self._bit(u) for u in self._uni)

    def __eq__(self, other):
        if isinstance(other, LazySet) and other._label == self._label and self._forced == other._forced:
            return True
        if not isinstance(other, (set, frozenset)):
            return False
        oth = set(other._all()) if isinstance(other, LazySet) else other
        return set(self._all()) == oth

    def __ne__(self, other):
        return not self == other

    __hash__ = None

    def copy(self):
        return self._cp()

    def __copy__(self):
        return self._cp()

    def __deepcopy__(self, memo):
        return self._cp()

    def add(self, x):
        self._forced.append(x)

    def update(self, *others):
        for o in others:
            self._forced.extend(o)

    def discard(self, x):
        raise PathLimit("LazySet.discard")

    remove = discard

    def __and__(self, o):
        return {x for x in o if x in self}

    __rand__ = __and__

    def intersection(self, *os):
        r = self
        for o in os:
            r = {x for x in o if x in r}
        return r

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def union(self, *os):
        r = self._cp()
        for o in os:
            r._forced.extend(o)
        return r

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def difference(self, *os):
        r = set(self._all())
        return r.difference(*os)

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return {x for x in o if x not in self}

    def issuperset(self, o):
        return all(x in self for x in o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return self.issuperset(o) and self != o

    def issubset(self, o):
        if isinstance(o, LazySet) and o._label == self._label and not self._forced:
            return True
        return all((not self._bit(u)) or (u in o) for u in self._uni) and all(f in o for f in self._forced)

    def __le__(self, o):
        return self.issubset(o)

    def __lt__(self, o):
        return self.issubset(o) and self != o

    def __repr__(self):
        return f"<lazy {self._label}>"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __reduce_ex__(self, p):
        return (LazySet, (self._label, self._uni, self._forced))
