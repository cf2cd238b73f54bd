"""Import hook that instruments the AST of the code under test (pddl.*) and of the harnesses (hx.*)."""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import operator
import re
import sys
import types

from sx import core
from sx.core import E, LazySet, SymInt, SymText, raw, symbolic, wrap

INSTRUMENTED = {}
SKIP_CALLS = {"super", "currentframe", "_getframe", "locals", "globals", "vars", "dir", "eval", "exec", "isinstance", "issubclass", "type",
              "hasattr", "id", "callable"}


class Tr(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def _call(self, name, args, node):
        self.n += 1
        new = ast.Call(func=ast.Attribute(value=ast.Name(id="_sx_", ctx=ast.Load()), attr=name, ctx=ast.Load()),
                       args=args, keywords=[])
        return ast.copy_location(new, node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            name = "c_in" if isinstance(node.ops[0], ast.In) else "c_notin"
            return self._call(name, [node.left, node.comparators[0]], node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if (node.func.id if isinstance(node.func, ast.Name) else getattr(node.func, "attr", "")) in SKIP_CALLS:
            return node
        self.n += 1
        new = ast.Call(func=ast.Attribute(value=ast.Name(id="_sx_", ctx=ast.Load()), attr="call", ctx=ast.Load()),
                       args=[node.func] + node.args, keywords=node.keywords)
        return ast.copy_location(new, node)

    def visit_JoinedStr(self, node):
        # do not wrap the nested format specs
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
                if v.conversion == ord("r"):
                    v.value, v.conversion = self._call("shown_repr", [v.value], v.value), -1
                elif v.format_spec is None and v.conversion in (-1, ord("s")):
                    v.value = self._call("shown", [v.value], v.value)
        return self._call("wrap", [node], node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.Add, ast.Mod, ast.Mult)):
            return self._call("wrap", [node], node)
        if isinstance(node.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return self._call("setop", [ast.Constant(value=type(node.op).__name__), node.left, node.right], node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            sl = node.slice
            if isinstance(sl, ast.Slice):
                none = ast.Constant(value=None)
                sl = ast.Call(func=ast.Name(id="slice", ctx=ast.Load()),
                              args=[sl.lower or none, sl.upper or none, sl.step or none], keywords=[])
            elif isinstance(sl, ast.Tuple) and any(isinstance(e, (ast.Slice, ast.Starred)) for e in sl.elts):
                return node
            return self._call("getitem", [node.value, sl], node)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self._call("it", [node.iter], node.iter)
        return node

    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self._call("it", [node.iter], node.iter)
        return node

    def visit_Starred(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = self._call("it", [node.value], node.value)
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        tick = ast.copy_location(ast.Expr(value=self._call("tick", [], node)), node)
        node.body.insert(0, tick)
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def _fn(self, node):
        node.body = [self.visit(b) for b in node.body]
        node.body = [x for b in node.body for x in (b if isinstance(b, list) else [b])]
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        a = node.args
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return node

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    def visit_MatchValue(self, node):
        return node


def _functions(tree, modname):
    out = []

    def rec(n, path):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append(".".join([modname] + path + [c.name]))
                rec(c, path + [c.name])
            elif isinstance(c, ast.ClassDef):
                rec(c, path + [c.name])
            else:
                rec(c, path)

    rec(tree, [])
    return out


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        data = self.get_data(path)
        tree = ast.parse(data, filename=path)
        if fullname.split(".")[0] == "pddl":
            INSTRUMENTED[fullname] = _functions(tree, fullname)
        tr = Tr()
        tree = tr.visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__["_sx_"] = SHIM
        super().exec_module(module)
        post_import(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        top = fullname.split(".")[0]
        if top not in ("pddl", "hx"):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not spec.origin or not spec.origin.endswith(".py"):
            return spec
        spec.loader = Loader(fullname, spec.origin)
        return spec


def post_import(module):
    """Give the string classes of the code under test symbolic behaviour."""
    if module.__name__.split(".")[0] != "pddl":
        return
    for v in list(module.__dict__.values()):
        if isinstance(v, type) and issubclass(v, str) and v is not SymText and v.__module__ == module.__name__:
            import enum

            if issubclass(v, enum.Enum):
                continue
            own = set(v.__dict__)
            if any(b is not str and issubclass(b, str) and b is not object for b in v.__bases__):
                continue  # inherits from an installed class
            core.install(v, skip=own)


# -------------------------------------------------------------------------------- shims
_re_pat = re.Pattern
_RE_FUNCS = {re.match, re.fullmatch, re.search, re.sub, re.split, re.findall, re.finditer}
_BUILTIN_CALL = {types.BuiltinFunctionType, types.BuiltinMethodType, type(re.compile('').fullmatch)}
_BUILTIN_ITER = {sorted, list, tuple, map, filter, enumerate, zip, any, all, max, min, sum, iter, reversed}


class FakeMatch:
    """A match in a symbolic text; where it starts and ends is decided when asked for."""

    def __init__(self, s, pat=None, name="fullmatch"):
        self.string, self.re = s, pat
        self._span = None if pat is not None and name != "fullmatch" else (0, None)
        self._name = name

    def _at(self):
        if self._span is None:
            sp = _spans(self.re, E.syms[raw(self.string)])
            n = core.len_sym(self.string)
            self._span = _leftmost(sp, self.re, self.string, 0, n if self._name == "search" else 0)
            if self._span is None:
                raise core.Infeasible()
        a, b = self._span
        return a, core.len_sym(self.string) if b is None else b

    def group(self, *a):
        if a and a != (0,):
            E.note("groups of a match")
        if self._span == (0, None):
            return self.string
        x, y = self._at()
        return core.m_getitem(self.string, slice(x, y))

    def __getitem__(self, i):
        return self.group(i)

    def groups(self, *a):
        E.note("groups of a match")
        return ()

    def span(self, *a):
        return self._at()

    def start(self, *a):
        return self._at()[0]

    def end(self, *a):
        return self._at()[1]


def _spans(pat, m):
    from sx.lexmodel import Spans

    key = (id(pat), pat.pattern, m.marker)
    got = E.spans.get(key)
    if got is None:
        got = E.spans[key] = Spans(pat, m.bv)
    return got


def _leftmost(sp, pat, s, lo, hi):
    """Span of the first match that starts in lo..hi; forks."""
    mk = raw(s)
    for i in range(lo, hi + 1):
        ok, e = sp.at(i)
        if E.fork(ok, ("at", pat.pattern, pat.flags, mk, i)):
            for j in range(i, core.W + 1):
                if E.fork(e == j, ("to", pat.pattern, pat.flags, mk, i, j)):
                    return i, j
            raise core.Infeasible()
    return None


def _sub(pat, repl, s, count):
    sp = _spans(pat, E.syms[raw(s)])
    n, pos, done, out = core.len_sym(s), 0, 0, ""
    while pos <= n:
        at = _leftmost(sp, pat, s, pos, n) if not count or done < count else None
        if at is None:
            break
        i, j = at
        out = core.m_add(out if isinstance(out, SymText) else SymText(out), core.m_getitem(s, slice(pos, i)))
        new = repl(FakeMatch(s)) if callable(repl) else repl
        out = core.m_add(SymText(raw(out)), new)
        done += 1
        if j == i:
            if i < n:
                out = core.m_add(SymText(raw(out)), core.m_getitem(s, slice(i, i + 1)))
            pos = i + 1
        else:
            pos = j
    if pos < n:
        out = core.m_add(SymText(raw(out)), core.m_getitem(s, slice(pos, n)))
    return wrap(raw(out))


def _has_sym_elems(c):
    for x in c:
        if isinstance(x, str):
            if type(x) is not str:
                return True
        elif not isinstance(x, (int, float, type(None))):
            return False
    return False


def _perm(x):
    """Order of a set, decided symbolically when requested; one order for each object until it changes."""
    if id(x) in E.perms and len(E.perms[id(x)][1]) == len(x):
        return list(E.perms[id(x)][1])
    out = _perm_new(x)
    E.perms[id(x)] = (x, list(out))
    return out


def _perm_new(x):
    xs = list(set.__iter__(x) if isinstance(x, set) and not isinstance(x, LazySet) else iter(x))
    n = len(xs)
    if n < 2:
        return xs
    E.perm_n += 1
    rest = list(range(n))
    out = []
    while len(rest) > 1:
        k = E.pick(f"perm{E.perm_n}.{len(rest)}", len(rest))
        out.append(xs[rest.pop(k)])
    out.append(xs[rest[0]])
    return out


_SETS = (set, frozenset, type({}.keys()))
_SETOPS = {"BitOr": operator.or_, "BitAnd": operator.and_, "Sub": operator.sub, "BitXor": operator.xor}


def _is_set(x):
    return isinstance(x, _SETS) and not isinstance(x, LazySet)


def _mixed(xs):
    """Whether symbolic and plain texts meet in these collections."""
    sym = plain = False
    for c in xs:
        for x in c:
            if isinstance(x, str):
                if symbolic(x):
                    sym = True
                else:
                    plain = True
    return sym and plain


def _align(xs):
    """The collections with each plain text replaced by a symbolic text of another one that equals it on this path."""
    syms = {raw(x): x for c in xs for x in c if isinstance(x, str) and symbolic(x)}

    def al(x):
        if isinstance(x, str) and not symbolic(x):
            for y in syms.values():
                if E.eq(y, x):
                    return y
        return x

    return [frozenset(map(al, c)) if isinstance(c, frozenset) else {al(x) for x in c} if isinstance(c, _SETS) else [al(x) for x in c] for c in xs]


def _set_method(s, name, a):
    """Method of a native set with texts; None: do it natively."""
    if name in ("add", "discard", "remove"):
        x = a[0]
        if isinstance(x, str) and _mixed([s, [x]]):
            for y in s:
                if isinstance(y, str) and E.eq(x, y):
                    if name != "add":
                        getattr(s, name)(y)
                    return True
        return False
    if name == "update":
        a = [o if isinstance(o, (set, frozenset, dict, list, tuple, LazySet)) else list(Shim.it(o)) for o in a]
        if any(isinstance(o, LazySet) for o in a) or not _mixed([s] + a):
            s.update(*a)
            return True
        for o in a:
            for x in list(o):
                if not _set_method(s, "add", (x,)):
                    s.add(x)
        return True
    return False


_CONTAINERS = (set, frozenset, list, tuple, dict)


def _has_set(x):
    """Whether the text of a native collection depends on the iteration order of a set."""
    t = type(x)
    if t is set or t is frozenset:
        return len(x) > 1 or any(_has_set(e) for e in x)
    if t is list or t is tuple:
        return any(_has_set(e) for e in x)
    return t is dict and any(_has_set(k) or _has_set(v) for k, v in x.items())


def _text_of(x):
    t = type(x)
    if t not in _CONTAINERS or not _has_set(x):
        return repr(x)
    if t is dict:
        return "{" + ", ".join([_text_of(k) + ": " + _text_of(v) for k, v in x.items()]) + "}"
    xs = [_text_of(e) for e in (_perm(x) if t in (set, frozenset) else x)]
    if t is tuple and len(xs) == 1:
        return "(" + xs[0] + ",)"
    left, right = {set: ("{", "}"), frozenset: ("frozenset({", "})"), list: ("[", "]"), tuple: ("(", ")")}[t]
    return left + ", ".join(xs) + right


class Shim:
    wrap = staticmethod(wrap)

    @staticmethod
    def shown(x):
        if E.active and E.perm and type(x) in _CONTAINERS and _has_set(x):
            return wrap(_text_of(x))
        return x

    @staticmethod
    def shown_repr(x):
        return wrap(_text_of(x)) if E.active and E.perm else wrap(repr(x))

    @staticmethod
    def setop(op, a, b):
        if E.active and _is_set(a) and _is_set(b) and _mixed([a, b]):
            a, b = _align([a, b])
        return wrap(_SETOPS[op](a, b))

    @staticmethod
    def tick():
        if E.active:
            E.tick()

    @staticmethod
    def it(x):
        if E.active:
            E.tick()
            if isinstance(x, str):
                if symbolic(x):
                    return core.iter_sym(x)
            elif E.perm and type(x) in (set, frozenset):
                return _perm(x)
        return x

    @staticmethod
    def c_in(a, c):
        if E.active:
            if isinstance(a, str):
                if isinstance(c, str):
                    if symbolic(a) or symbolic(c):
                        return core.m_contains(c, a)
                    return a in c
                if symbolic(a) and isinstance(c, (set, frozenset, dict, type({}.keys()))) \
                        and not isinstance(c, LazySet):
                    if c and any(isinstance(x, str) and not symbolic(x) for x in c):
                        return any(isinstance(x, str) and E.eq(a, x) for x in c)
                if E.hasraw and type(a) is str and isinstance(c, (set, frozenset, dict, type({}.keys()))) \
                        and not isinstance(c, LazySet):
                    return any(isinstance(x, str) and E.eq(a, x) for x in c)
        return a in c

    @staticmethod
    def c_notin(a, c):
        return not Shim.c_in(a, c)

    @staticmethod
    def getitem(d, k):
        if E.active:
            if isinstance(d, str):
                if symbolic(d):
                    return core.m_getitem(d, k)
            elif isinstance(d, dict) and isinstance(k, str) and (symbolic(k) or E.hasraw):
                if E.hasraw or any(isinstance(x, str) and not symbolic(x) for x in d):
                    for x in d:
                        if isinstance(x, str) and E.eq(k, x):
                            return d[x]
        return wrap(d[k]) if type(d) is not type else d[k]

    @staticmethod
    def call(_f, *a, **k):
        if not E.active:
            return _f(*a, **k)
        t = type(_f)
        if t is types.FunctionType or t is types.MethodType:
            m = getattr(_f, "__module__", "") or ""
            if m.startswith("pddl") or m.startswith("hx"):
                return _f(*a, **k)
            if _f in _RE_FUNCS:
                return _re_call(_f, a, k)
            return wrap(_f(*a, **k))
        if t in _BUILTIN_CALL:
            s = _f.__self__
            if isinstance(s, _re_pat):
                return _re_call(getattr(re, _f.__name__), (s,) + a, k)
            if _f is len and a:
                if symbolic(a[0]):
                    return core.len_sym(a[0])
                return len(*a)
            if isinstance(s, str) and type(s) is str:
                if any(isinstance(x, str) and MARKIN(x) for x in a):
                    h = getattr(SymText(s), _f.__name__)
                    return h(*a, **k)
                if E.perm and a and type(a[0]) in (set, frozenset):
                    a = (_perm(a[0]),) + a[1:]
                return wrap(_f(*a, **k))
            if a and type(s) in (set, frozenset) and not k:
                nm = _f.__name__
                if nm in ("add", "discard", "remove", "update"):
                    if _set_method(s, nm, a):
                        return None
                elif nm in ("union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"):
                    xs = [s] + [x if isinstance(x, (set, frozenset, dict, list, tuple, LazySet)) else list(Shim.it(x)) for x in a]
                    if not any(isinstance(x, LazySet) for x in xs) and _mixed(xs):
                        xs = _align(xs)
                    return getattr(xs[0], nm)(*xs[1:])
            if isinstance(s, dict) and a and isinstance(a[0], str) and (E.hasraw or symbolic(a[0]) and any(
                    isinstance(x, str) and not symbolic(x) for x in s)):
                for x in list(s):
                    if isinstance(x, str) and E.eq(a[0], x):
                        return _f(x, *a[1:], **k)
            if _f is hash and a and isinstance(a[0], str) and symbolic(a[0]):
                return E.hash(a[0])
            if E.perm and _f in _BUILTIN_ITER:
                a = tuple(_perm(x) if type(x) in (set, frozenset) else x for x in a)
            if E.perm and _f is repr and len(a) == 1 and type(a[0]) in _CONTAINERS:
                return wrap(_text_of(a[0]))
            return wrap(_f(*a, **k))
        if t is type:
            if E.perm and _f is str and len(a) == 1 and type(a[0]) in _CONTAINERS:
                return wrap(_text_of(a[0]))
            if (_f is set or _f is frozenset) and a and isinstance(a[0], LazySet):
                return a[0]._cp()
            if _f is int or _f is float:
                if a and isinstance(a[0], str):
                    r = raw(a[0])
                    if core.IMRE.fullmatch(r) and r in E.ints:
                        return SymInt(int(r))
                elif a and isinstance(a[0], SymInt):
                    return a[0]
                return _f(*a, **k)
            if E.perm and _f in _BUILTIN_ITER:
                a = tuple(_perm(x) if type(x) in (set, frozenset) else x for x in a)
            if (_f is set or _f is frozenset) and a and isinstance(a[0], (list, tuple, dict)) and _mixed(a[:1]):
                return _f(_align(a[:1])[0])
            if _f is list or _f is tuple or _f is set or _f is frozenset:
                if a and isinstance(a[0], str) and symbolic(a[0]):
                    return _f(core.iter_sym(a[0]))
            return wrap(_f(*a, **k))
        return wrap(_f(*a, **k))


def MARKIN(x):
    return core.MARK in raw(x)


def _match(s, pat, name):
    return FakeMatch(s, pat if isinstance(pat, _re_pat) else re.compile(pat), name)


def _re_call(f, a, k):
    from sx import rex

    pat = a[0] if a else k.get("pattern")
    rest = a[1:]
    name = f.__name__
    s = None
    if name in ("match", "fullmatch", "search") and rest:
        s = rest[0]
    if s is not None and isinstance(s, str) and symbolic(s) and len(rest) == 1:
        m = E.syms.get(raw(s))
        if m is not None:
            p = pat.pattern if isinstance(pat, _re_pat) else pat
            fl = pat.flags if isinstance(pat, _re_pat) else 0
            try:
                if m.kind == "name":  # decide once for all names whether the pattern always or never matches
                    ik = (name, p, fl)
                    imp = E._implied.get(ik)
                    if imp is None:
                        bv = core.z3.BitVec("s:any", core.BITS)
                        base = core.z3.And(core.legal_name(bv), core.not_reserved(bv))
                        f_ = rex.formula(pat, bv, name)
                        sv = core.z3.Solver()
                        sv.add(base)
                        imp = E._implied[ik] = (sv.check(core.z3.Not(f_)) == core.z3.unsat,
                                                sv.check(f_) == core.z3.unsat)
                    if imp[0]:
                        return _match(s, pat, name)
                    if imp[1]:
                        return None
                f_ = rex.formula(pat, m.bv, name)
            except rex.Unsupported as e:
                E.note(f"regex {e}")
            else:
                return _match(s, pat, name) if E.fork(f_, ("re", name, p, fl, m.marker)) else None
        else:
            E.note("regex on text")
    if name == "sub" and len(rest) >= 2 and isinstance(rest[1], str) and raw(rest[1]) in E.syms and (
            isinstance(rest[0], str) and "\\" not in rest[0]) and not set(k) - {"count"}:
        cp = pat if isinstance(pat, _re_pat) else re.compile(pat)
        try:
            return _sub(cp, rest[0], rest[1], k.get("count", rest[2] if len(rest) > 2 else 0))
        except rex.Unsupported as e:
            E.note(f"regex {e}")
    args = [raw(x) if isinstance(x, str) else x for x in a]
    if any(isinstance(x, str) and core.MARK in x for x in args[1:]) and name not in ("fullmatch", "match", "search"):
        E.note("re." + name)
    if isinstance(pat, _re_pat):
        r = getattr(pat, name)(*args[1:], **k)
    else:
        r = f(*args, **k)
    return wrap(r)


SHIM = Shim()


# -------------------------------------------------------------------------------- lark
def patch_lark():
    import copy

    import lark
    import lark.lexer
    from lark import lark as lk
    from lark.lexer import Token
    from lark.parsers import lalr_parser

    core.install(Token, skip=("__eq__", "__ne__"))

    def t_eq(self, other):
        if isinstance(other, Token) and self.type != other.type:
            return False
        return core.m_eq(self, other)

    def t_ne(self, other):
        r = t_eq(self, other)
        return r if r is NotImplemented else not r

    Token.__eq__ = t_eq
    Token.__ne__ = t_ne
    Token.__hash__ = core.m_hash
    orig_new = Token._future_new.__func__

    def fnew(cls, type, value, *a, **k):
        inst = orig_new(cls, type, value, *a, **k)
        if E.active and __builtins_type(value) is str and core.MARK in value:
            inst.value = SymText(value)
        return inst

    Token._future_new = classmethod(fnew)

    Lark = lk.Lark
    orig_init = Lark.__init__
    cache = {}

    def init(self, grammar, **options):
        transformer = options.get("transformer")
        try:
            text = grammar if isinstance(grammar, str) else None
            key = (type(self), text, repr(sorted((k, repr(v)) for k, v in options.items() if k != "transformer")))
            base = cache.get(key) if text is not None else None
            if base is None:
                act, E.active = E.active, False
                try:
                    orig_init(self, grammar, **options)
                finally:
                    E.active = act
                if text is not None and self.options.parser == "lalr":
                    cache[key] = copy.copy(self)
                    cache[key].options = None
                return
            if any(getattr(transformer, t.name, None) is not None for t in base.terminals):
                return orig_init(self, grammar, **options)
            self.__dict__.update(base.__dict__)
            self.options = lk.LarkOptions(options)
            cbs = self._parse_tree_builder.create_callback(transformer)
            self._callbacks = cbs
            fe = copy.copy(base.parser)
            lp = copy.copy(fe.parser)
            p = lalr_parser._Parser(lp._parse_table, cbs, False)
            lp.parser = p
            fe.parser = lp
            self.parser = fe
        except (AttributeError, ImportError):
            cache.clear()
            self.__dict__.clear()
            orig_init(self, grammar, **options)

    Lark.__init__ = init
    orig_parse = Lark.parse

    def parse(self, text, *a, **k):
        return orig_parse(self, raw(text) if isinstance(text, str) else text, *a, **k)

    Lark.parse = parse
    from sx import tokens

    tokens.install(E)


__builtins_type = type


def setup(repo="/repo"):
    sys.dont_write_bytecode = True
    sys.path.insert(0, repo)
    for m in list(sys.modules):
        if m.split(".")[0] == "pddl":
            del sys.modules[m]
    sys.meta_path.insert(0, Finder())
    patch_lark()


def preload():
    """Import everything and build the parsers before forking, so that all workers share addresses and tables."""
    import importlib

    for m in ("core", "formatter", "action", "requirements", "custom_types", "exceptions", "_validation", "logic.base",
              "logic.effects", "logic.functions", "logic.predicates", "logic.terms", "logic.helpers", "parser.base",
              "parser.domain", "parser.problem", "parser.plan", "parser.typed_list_parser", "parser.symbols", "__main__"):
        try:
            importlib.import_module("pddl." + m)
        except Exception:  # noqa
            pass
    from sx import state

    state.take()
    for m, c in (("domain", "DomainParser"), ("problem", "ProblemParser"), ("plan", "PlanParser")):
        try:
            getattr(importlib.import_module("pddl.parser." + m), c)()
        except Exception:  # noqa
            pass
    state.restore()
