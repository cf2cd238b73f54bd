"""The context object through which harnesses obtain inputs; symbolic or concrete."""


class Violation(BaseException):
    def __init__(self, msg):
        self.msg = msg


class Skip(BaseException):
    """The path is outside the harness's assumptions."""


def fixed(i):
    """A concrete legal name that no symbolic name can equal (longer than the symbolic width)."""
    return "a-fixed-name-of-the-harness-%s" % i


def short(x, f=str):
    r = f(x)
    return str.__str__(r)[:400] if isinstance(r, str) else r


class Base:
    """API of the harness context."""

    nacc = nrej = 0

    def choice(self, label, options):
        options = list(options)
        return options[self.pick(label, len(options))]

    def flag(self, label):
        return bool(self.pick(label, 2))

    def names(self, label, n):
        return [self.name(f"{label}{i}") for i in range(n)]

    def distinct_names(self, label, n):
        out = self.names(label, n)
        self.distinct(out)
        return out

    def check(self, cond, msg=""):
        self.nchecks += 1
        if not cond:
            raise Violation(msg)

    def fail(self, msg):
        self.nchecks += 1
        raise Violation(msg)

    def attempt(self, fn, *a, **k):
        """(True, value) or (False, exception)."""
        try:
            return True, fn(*a, **k)
        except Exception as e:  # noqa
            return False, e

    def ok(self, fn, *a, what="call", **k):
        """Call that must not raise."""
        try:
            return fn(*a, **k)
        except Exception as e:  # noqa
            self.nchecks += 1
            raise Violation(f"{what} raised {type(e).__name__}: {short(e)}")

    def accepted(self, ok, res, what):
        """The attempt that gave (ok, res) must have succeeded."""
        self.nchecks += 1
        if not ok:
            raise Violation(f"rejected {what}: {type(res).__name__}: {short(res)}")
        self.nacc += 1
        return res

    def rejected(self, ok, what):
        self.nchecks += 1
        if ok:
            raise Violation(f"accepted {what}")
        self.nrej += 1

    def check_eq(self, got, want, msg):
        self.nchecks += 1
        if not (got == want):
            raise Violation(f"{msg}: got {self.show(got)}, expected {self.show(want)}")

    def show(self, x):
        return short(x, repr)


ELSEWHERE = """
import sys, pickle, importlib
sys.dont_write_bytecode = True
sys.path[:0] = [%r, %r]
mod, fn, data = pickle.loads(sys.stdin.buffer.read())
try:
    msg = getattr(importlib.import_module(mod), fn)(*pickle.loads(data))
except Exception as e:
    msg = "unexpected %%s: %%s" %% (type(e).__name__, str(e)[:300])
sys.stdout.write("@@" + (msg or ""))
"""


class SymAlg:
    """Truth and number values of atoms and numeric functions as uninterpreted functions of their names."""

    def __init__(self, E):
        from sx.core import z3

        self.E, self.z3 = E, z3
        self.And, self.Or, self.Not, self.Implies = z3.And, z3.Or, z3.Not, z3.Implies

    def _key(self, name):
        from sx.core import BITS, conc, raw

        z3, E = self.z3, self.E
        s = raw(name)
        m = E.syms.get(s)
        if m is not None:
            return m._bv if E.bvmode else m.rank
        if not s.startswith("a-fixed-name-of-the-harness-"):
            E.need_bv()
            return conc(s)
        i = 1 + int(s.rsplit("-", 1)[1])
        return z3.BitVecVal(i, BITS) if E.bvmode else z3.IntVal(-i)

    def _app(self, kind, name, args, out):
        z3 = self.z3
        for n in (name,) + tuple(args):
            self._key(n)  # may leave the rank mode
        ks = [self._key(n) for n in (name,) + tuple(args)]
        f = z3.Function(f"{kind}{len(ks)}{'b' if self.E.bvmode else 'r'}", *[k.sort() for k in ks], out)
        return f(*ks)

    def bool(self, name, args=()):
        return self._app("B", name, args, self.z3.BoolSort())

    def real(self, name, args=()):
        return self._app("N", name, args, self.z3.RealSort())

    def num(self, v):
        from fractions import Fraction

        from sx.core import SymInt

        if isinstance(v, SymInt):
            return self.z3.ToReal(v._v())
        return self.z3.RealVal(str(Fraction(str(v)) if isinstance(v, (str, float)) else v))


class ConcreteAlg:
    def __init__(self, bits, trial):
        self.bits, self.trial, self.table = bits, trial, {}

    And = staticmethod(lambda *a: all(a[0] if len(a) == 1 and isinstance(a[0], list) else a))
    Or = staticmethod(lambda *a: any(a[0] if len(a) == 1 and isinstance(a[0], list) else a))
    Not = staticmethod(lambda a: not a)
    Implies = staticmethod(lambda a, b: not a or b)

    def bool(self, name, args=()):
        k = (name,) + tuple(args)
        if k not in self.table:
            n = len(self.table)
            if n == len(self.bits):
                self.bits.append(False)
            self.table[k] = self.bits[n]
        return self.table[k]

    def real(self, name, args=()):
        from fractions import Fraction
        import zlib

        h = zlib.crc32(repr((self.trial, str(name), [str(a) for a in args])).encode())
        return Fraction(h % 9973 + 2, 7 + h % 13)

    def num(self, v):
        from fractions import Fraction

        return Fraction(str(v)) if isinstance(v, (str, float)) else Fraction(v)


class SymCtx(Base):
    symbolic = True

    def valid(self, fn, msg=""):
        """fn(algebra) must be true under every value of the atoms and numeric functions."""
        from sx.core import z3

        self.nchecks += 1
        E = self.E
        alg = SymAlg(E)
        f = fn(alg)
        if E.bvmode != alg.E.bvmode:
            f = fn(alg)
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_true(f):
            E.stats["queries"] += 1
            return
        r = E._check(z3.Not(f))
        if r == z3.unsat:
            return
        if r == z3.unknown:
            E.unknown += 1
            return
        E.add(z3.Not(f))
        E.model = None
        raise Violation(msg)

    def __init__(self, engine, tier):
        self.E = engine
        self.nchecks = 0
        self.obs = []
        self.thorough = tier == "thorough"

    def name(self, label):
        return self.E.new_sym(label, "name")

    def raw(self, label):
        return self.E.new_sym(label, "raw")

    def int(self, label):
        return self.E.new_int(label)

    def token(self, label, words):
        """A token that is any of the words (a list of pairs of kind and text)."""
        from sx.tokens import Tok

        t = self.E.toks[label] = Tok(self.E, label, words)
        return t

    def number(self, v):
        """A concrete number that may be compared with symbolic ones."""
        from sx.core import SymFloat

        return SymFloat(v)

    def pristine(self, fn):
        """fn() in a process that has done nothing before; to be called before anything else happens."""
        from sx import state

        def clean():
            self.E.active = False
            state.restore()
            self.E.active = True

        clean()
        r = fn()
        clean()
        return r

    def elsewhere(self, fn, *objs):
        """fn on the objects unpickled in a process with another hash seed."""
        import pickle

        data = pickle.dumps(objs)
        self.E.salt += 1000003
        return fn(*pickle.loads(data))

    def pick(self, label, n):
        return self.E.pick(label, n)

    def legal(self, s):
        """Whether the string is a letter followed by letters, digits, hyphens or underscores; forks."""
        from sx.core import legal_name, raw

        E = self.E
        return E.fork(legal_name(E.syms[raw(s)].bv), ("legal", raw(s)))

    def reqs(self, label, universe):
        from sx.core import LazySet

        return LazySet(label, universe)

    def distinct(self, names):
        from sx.core import raw, z3

        E = self.E
        # the concrete names of a harness are longer than any symbolic one (fixed), hence differ already
        names = [n for n in names if raw(n) in E.syms]
        ms = [E.syms[raw(n)] for n in names]
        if len(ms) > 1:
            for i in range(len(names)):
                for j in range(i + 1, len(names)):
                    a, b = sorted((ms[i].marker, ms[j].marker))
                    if a == b:
                        raise Skip()
                    E.memo[("=", a, b)] = False
                    E.facts.append(("=", a, b, False))
            E.assume(z3.Distinct(*[m.bv if E.bvmode else m.rank for m in ms]))

    def differ(self, a, b):
        """Assume two symbolic names differ."""
        self.distinct([a, b])

    def assume(self, cond):
        if not cond:
            raise Skip()

    def canon_hash(self, on=True):
        self.E.canon = on

    def permute(self, on):
        """Set iteration orders are symbolic from here on (False: insertion order)."""
        self.E.perm = on

    def observe(self, x):
        self.obs.append(x if isinstance(x, str) else repr(x))


class ConcreteCtx(Base):
    symbolic = False

    def valid(self, fn, msg=""):
        self.nchecks += 1
        for trial in range(5):
            bits = []
            while True:
                alg = ConcreteAlg(bits, trial)
                try:
                    good = fn(alg)
                except ZeroDivisionError:
                    good = True
                if not good:
                    raise Violation(msg)
                while bits and bits[-1]:
                    bits.pop()
                if not bits:
                    break
                bits[-1] = True

    def __init__(self, values, tier):
        self.v = values
        self.nchecks = 0
        self.obs = []
        self.thorough = tier == "thorough"

    def name(self, label):
        return self.v[label]

    raw = name
    int = name

    def token(self, label, words):
        from sx.tokens import Fixed

        return Fixed(*list(words)[self.v.get(label, 0)])

    def number(self, v):
        return v

    def pristine(self, fn):
        import os
        import pickle

        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try:
                    data = pickle.dumps((True, fn()))
                except Violation as v:
                    data = pickle.dumps((False, v.msg))
                with os.fdopen(w, "wb") as f:
                    f.write(data)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        ok, out = pickle.loads(data)
        if not ok:
            raise Violation(out)
        return out

    def elsewhere(self, fn, *objs):
        import os
        import pickle
        import subprocess
        import sys

        from sx.replay import REPO, VERIF

        here = os.environ.get("PYTHONHASHSEED", "0")
        env = dict(os.environ, PYTHONHASHSEED=str((int(here) if here.isdigit() else 0) + 1))
        data = pickle.dumps((fn.__module__, fn.__name__, pickle.dumps(objs)))
        r = subprocess.run([sys.executable, "-c", ELSEWHERE % (REPO, VERIF)], input=data, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
        out = r.stdout.decode()
        if "@@" not in out:
            raise RuntimeError("no answer of the other process: " + r.stderr.decode()[-300:])
        return out.split("@@", 1)[1]

    def pick(self, label, n):
        if n == 1:
            return 0
        return self.v.get(label, 0)

    def legal(self, s):
        letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        return len(s) > 0 and s[0] in letters and all(c in letters + "0123456789-_" for c in s)

    def reqs(self, label, universe):
        return {u for u in universe if self.v.get(f"{label}.{u.name}", 0)}

    def distinct(self, names):
        if len(set(names)) != len(names):
            raise Skip()

    def differ(self, a, b):
        self.distinct([a, b])

    def assume(self, cond):
        if not cond:
            raise Skip()

    def canon_hash(self, on=True):
        pass

    def permute(self, on):
        pass

    def observe(self, x):
        self.obs.append(x if isinstance(x, str) else repr(x))


class Scenario:
    """One harness function with its stated bounds."""

    def __init__(self, name, fn, bounds, quick=True, hashseeds=None, solver=None, slow=1.0):
        self.name, self.fn, self.bounds, self.quick = name, fn, bounds, quick
        self.hashseeds = hashseeds  # replay under several hash seeds and compare the observations
        self.solver = solver  # direct solver scenario: solver(api) -> dict
