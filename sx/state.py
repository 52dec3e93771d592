"""Module-level state of the code under test: recorded once, put back before every run.

Every path (and every native replay) starts from the state the modules have after import, so a
run's result depends on its inputs only; histories are explored inside one run."""
from __future__ import annotations

import enum
import functools
import sys
import types

try:
    from .containers import SxDict, SxSet
except Exception:  # native mode: no solver
    SxDict = SxSet = None


def _ours(t, prefix):
    m = getattr(t, "__module__", None)
    return isinstance(m, str) and (m == prefix or m.startswith(prefix + "."))


class State:
    def __init__(self, prefix="snuba_sdk"):
        self.prefix = prefix
        self.dicts = []  # (dict, copy)
        self.lists = []
        self.fdicts = []
        self.sets = []
        self.sxs = []
        self.sxd = []
        self.classes = []
        self.cells = []
        self.caches = []
        self.seen = set()
        self.known_modules = {}
        for name, m in list(sys.modules.items()):
            if m is not None and (name == prefix or name.startswith(prefix + ".")):
                self._dict(m.__dict__)

    def _dict(self, d):
        if id(d) in self.seen:
            return
        self.seen.add(id(d))
        self.dicts.append((d, dict(d), tuple(map(id, d.values()))))
        for k, v in list(d.items()):
            if isinstance(k, str) and k.startswith("_sx_"):
                continue
            self._walk(v)

    def _walk(self, x):
        t = type(x)
        if t in (str, int, float, bool, type(None), bytes) or isinstance(x, types.ModuleType):
            return
        if id(x) in self.seen:
            return
        if t is dict:
            self._dict(x)
            return
        self.seen.add(id(x))
        if hasattr(t, "cache_clear") or hasattr(x, "cache_clear"):
            self.caches.append(x)
            self._walk(getattr(x, "__wrapped__", None))
            return
        if t is list:
            self.lists.append((x, list(x)))
            for i in x:
                self._walk(i)
        elif t is set:
            self.sets.append((x, set(x)))
        elif SxSet is not None and t is SxSet:
            self.sxs.append((x, list(x._l)))
        elif SxDict is not None and t is SxDict:
            self.sxd.append((x, list(x._k), list(x._v), dict(x._ix), x._slow))
            for v in x._v:
                self._walk(v)
        elif t is tuple:
            for i in x:
                self._walk(i)
        elif t is types.FunctionType:
            if not _ours(x, self.prefix):
                return
            for v in x.__defaults__ or ():
                self._walk(v)
            for v in (x.__kwdefaults__ or {}).values():
                self._walk(v)
            for c in x.__closure__ or ():
                try:
                    v = c.cell_contents
                except ValueError:
                    continue
                self.cells.append((c, v))
                self._walk(v)
            if x.__dict__:
                self._dict(x.__dict__)
            else:
                self.fdicts.append(x.__dict__)
        elif isinstance(x, type):
            if not _ours(x, self.prefix) or issubclass(x, enum.Enum):
                return
            names = {k: v for k, v in vars(x).items() if k not in ("__dict__", "__weakref__", "_abc_impl")}
            self.classes.append((x, names, tuple(map(id, vars(x).values()))))
            for v in names.values():
                if isinstance(v, (staticmethod, classmethod)):
                    v = v.__func__
                if isinstance(v, property):
                    v = v.fget
                self._walk(v)
        elif _ours(t, self.prefix):
            d = getattr(x, "__dict__", None)
            if type(d) is dict:
                self._dict(d)

    def restore(self):
        for d in self.fdicts:
            if d:
                d.clear()
        for d, c, ids in self.dicts:
            if tuple(map(id, d.values())) != ids:
                d.clear()
                d.update(c)
        for l, c in self.lists:
            if len(l) != len(c) or any(a is not b for a, b in zip(l, c)):
                l[:] = c
        for s, c in self.sets:
            if s != c:
                s.clear()
                s.update(c)
        for s, c in self.sxs:
            if len(s._l) != len(c) or any(a is not b for a, b in zip(s._l, c)):
                s._l = list(c)
        for d, k, v, ix, slow in self.sxd:
            d._k, d._v, d._ix, d._slow = list(k), list(v), dict(ix), slow
        for cls, names, ids in self.classes:
            cur = vars(cls)
            if tuple(map(id, cur.values())) == ids:
                continue
            for k in [k for k in cur if k not in names and k not in ("__dict__", "__weakref__", "_abc_impl")]:
                delattr(cls, k)
            for k, v in names.items():
                if cur.get(k, self) is not v:
                    setattr(cls, k, v)
        for c, v in self.cells:
            c.cell_contents = v
        for c in self.caches:
            c.cache_clear()
