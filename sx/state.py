"""The state that the modules under test keep in globals, class attributes, defaults, closures and caches: taken once
after import and put back, so that nothing leaks from one explored path to the next (or into a reference run)."""

import sys
import types
from collections import OrderedDict, defaultdict, deque

CONTAINERS = (list, dict, set, deque, bytearray, OrderedDict, defaultdict)
ROOT = "pddl"


def _under_test(mod):
    return isinstance(mod, str) and (mod == ROOT or mod.startswith(ROOT + "."))


class Snapshot:
    def __init__(self):
        self.spaces = []  # (object, live mapping, copy)
        self.boxes = []  # (container, copy)
        self.caches = []
        self.cells = []
        self.seen = {}
        for name, m in sorted(sys.modules.items()):
            if _under_test(name) and m is not None:
                self.walk(m)

    def walk(self, x):
        if id(x) in self.seen:
            return
        t = type(x)
        if t in (str, int, float, bool, bytes, type(None), complex):
            return
        self.seen[id(x)] = x
        if t is types.ModuleType:
            if _under_test(x.__name__):
                self.space(x, x.__dict__)
        elif isinstance(x, type):
            if _under_test(x.__module__):
                self.space(x, x.__dict__)
        elif t is types.FunctionType:
            if _under_test(x.__module__):
                self.function(x)
        elif t in (classmethod, staticmethod):
            self.walk(x.__func__)
        elif t is types.MethodType:
            self.walk(x.__func__)
            self.walk(x.__self__)
        elif t is property:
            for f in (x.fget, x.fset, x.fdel):
                self.walk(f)
        elif hasattr(x, "cache_clear") and hasattr(x, "__wrapped__"):
            self.caches.append(x)
            self.walk(x.__wrapped__)
        elif isinstance(x, CONTAINERS):
            c = type(x).copy(x) if type(x) in (list, dict, set) else x.copy() if hasattr(x, "copy") else x[:]
            self.boxes.append((x, c))
            if isinstance(x, dict):
                for k in list(dict.keys(x)):
                    self.walk(k)
                for v in list(dict.values(x)):
                    self.walk(v)
            elif not isinstance(x, bytearray):
                for v in list(x):
                    self.walk(v)
        elif t in (tuple, frozenset):
            for v in x:
                self.walk(v)
        elif hasattr(x, "__dict__") and isinstance(x.__dict__, dict) and (
                _under_test(t.__module__) or t.__module__ in ("weakref", "_weakrefset", "collections", "itertools", "threading")):
            self.space(x, x.__dict__)

    def function(self, f):
        for v in f.__defaults__ or ():
            self.walk(v)
        for v in (f.__kwdefaults__ or {}).values():
            self.walk(v)
        if f.__dict__:
            for v in f.__dict__.values():
                self.walk(v)
        self.boxes.append((f.__dict__, dict(f.__dict__)))
        for c in f.__closure__ or ():
            try:
                v = c.cell_contents
            except ValueError:
                continue
            self.cells.append((c, v))
            self.walk(v)

    def space(self, owner, d):
        self.spaces.append((owner, d, dict(d)))
        for v in list(d.values()):
            self.walk(v)

    def restore(self):
        for f in self.caches:
            f.cache_clear()
        for owner, d, old in self.spaces:
            if len(d) == len(old):
                for k, v in d.items():
                    if k not in old or old[k] is not v:
                        break
                else:
                    continue
            for k in list(d):
                if k not in old and k != "__abstractmethods__":
                    self._del(owner, k)
            for k, v in old.items():
                if k not in d or d[k] is not v:
                    self._set(owner, k, v)
        for x, c in self.boxes:
            if isinstance(x, dict):
                if len(x) != len(c) or any(k not in c or c[k] is not v for k, v in dict.items(x)):
                    dict.clear(x)
                    dict.update(x, c)
            elif isinstance(x, set):
                if len(x) != len(c) or any(v not in c for v in set.__iter__(x)):
                    set.clear(x)
                    set.update(x, c)
            else:
                if len(x) != len(c) or any(a is not b for a, b in zip(x, c)):
                    x.clear()
                    x.extend(c)
        for c, v in self.cells:
            try:
                if c.cell_contents is not v:
                    c.cell_contents = v
            except ValueError:
                c.cell_contents = v

    @staticmethod
    def _set(owner, k, v):
        if isinstance(owner, type):
            try:
                type.__setattr__(owner, k, v)
            except (AttributeError, TypeError):
                pass
        else:
            owner.__dict__[k] = v

    @staticmethod
    def _del(owner, k):
        if isinstance(owner, type):
            try:
                type.__delattr__(owner, k)
            except (AttributeError, TypeError):
                pass
        else:
            owner.__dict__.pop(k, None)


SNAP = None


def take():
    global SNAP
    SNAP = Snapshot()


def restore():
    if SNAP is not None:
        SNAP.restore()
