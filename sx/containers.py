"""set and dict for instrumented code: membership is decided by ==, so that symbolic
elements and keys are compared by the solver instead of by hash."""
from __future__ import annotations

from .values import SYMS

_FAST = (str, int, bool, type(None), bytes, float)


def _fast(x):
    t = type(x)
    if t in _FAST:
        return True
    if t is tuple:
        return all(_fast(i) for i in x)
    return False


def _hashable(x):
    """Python's unhashability is observable behaviour: keep it."""
    t = type(x)
    if t in SYMS or t in _FAST:
        return
    if t is tuple or t is frozenset:
        for i in x:
            _hashable(i)
        return
    if t is SxSet or t is SxDict or t in (list, dict, set, bytearray):
        raise TypeError("unhashable type: '%s'" % x.__class__.__name__)
    if t.__hash__ is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    fs = getattr(t, "__dataclass_fields__", None)
    if fs is not None and t.__hash__ is not object.__hash__:
        params = getattr(t, "__dataclass_params__", None)
        if params is not None and params.frozen and params.eq:
            for f in fs.values():
                if f.hash if f.hash is not None else f.compare:
                    _hashable(getattr(x, f.name))


class SxSet:
    def __init__(self, it=()):
        self._l = []
        for x in it:
            self.add(x)

    @property
    def __class__(self):
        return set

    @classmethod
    def _raw(cls, l):
        s = cls()
        s._l = l
        return s

    def _has(self, x):
        t = type(x)
        if _fast(x):
            for y in self._l:
                if y is x:
                    return True
                if type(y) is t and y == x:
                    return True
            for y in self._l:
                if not _fast(y) and y == x:
                    return True
                if _fast(y) and type(y) is not t and y == x:
                    return True
            return False
        for y in self._l:
            if y is x:
                return True
        for y in self._l:
            if y == x:
                return True
        return False

    def add(self, x):
        _hashable(x)
        if not self._has(x):
            self._l.append(x)

    def __contains__(self, x):
        _hashable(x)
        return self._has(x)

    def __iter__(self):
        return iter(list(self._l))

    def __len__(self):
        return len(self._l)

    def __bool__(self):
        return bool(self._l)

    def discard(self, x):
        for i, y in enumerate(self._l):
            if y is x or y == x:
                del self._l[i]
                return

    def remove(self, x):
        n = len(self._l)
        self.discard(x)
        if len(self._l) == n:
            raise KeyError(x)

    def pop(self):
        if not self._l:
            raise KeyError("pop from an empty set")
        return self._l.pop()

    def clear(self):
        self._l = []

    def copy(self):
        return SxSet._raw(list(self._l))

    def update(self, *others):
        for o in others:
            for x in list(o):
                self.add(x)

    def union(self, *others):
        s = self.copy()
        s.update(*others)
        return s

    def intersection(self, *others):
        out = list(self._l)
        for o in others:
            o = o if type(o) is SxSet else SxSet(o)
            out = [x for x in out if x in o]
        return SxSet._raw(out)

    def difference(self, *others):
        out = list(self._l)
        for o in others:
            o = o if type(o) is SxSet else SxSet(o)
            out = [x for x in out if x not in o]
        return SxSet._raw(out)

    def symmetric_difference(self, o):
        return self.difference(o).union(SxSet(o).difference(self))

    def difference_update(self, *others):
        self._l = self.difference(*others)._l

    def intersection_update(self, *others):
        self._l = self.intersection(*others)._l

    def issubset(self, o):
        o = o if type(o) is SxSet else SxSet(o)
        return all(x in o for x in self._l)

    def issuperset(self, o):
        return all(x in self for x in o)

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def _set(self, o):
        return isinstance(o, (set, frozenset))

    def __or__(self, o):
        return self.union(o) if self._set(o) else NotImplemented

    __ror__ = __or__

    def __and__(self, o):
        return self.intersection(o) if self._set(o) else NotImplemented

    __rand__ = __and__

    def __sub__(self, o):
        return self.difference(o) if self._set(o) else NotImplemented

    def __rsub__(self, o):
        return SxSet(o).difference(self) if self._set(o) else NotImplemented

    def __xor__(self, o):
        return self.symmetric_difference(o) if self._set(o) else NotImplemented

    def __ior__(self, o):
        if not self._set(o):
            return NotImplemented
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __le__(self, o):
        return self.issubset(o) if self._set(o) else NotImplemented

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __eq__(self, o):
        if not self._set(o):
            return NotImplemented
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join(repr(x) for x in self._l) if self._l else "set()"

    def __deepcopy__(self, memo):
        import copy

        return SxSet._raw([copy.deepcopy(x, memo) for x in self._l])

    def __copy__(self):
        return self.copy()


_MISS = object()


class SxDict:
    """Insertion-ordered mapping; concrete simple keys go through a real dict index."""

    def __init__(self, it=(), **kw):
        self._k = []
        self._v = []
        self._ix = {}
        self._slow = False
        if it is not None and not (type(it) is tuple and not it):
            if hasattr(it, "keys"):
                for k in it.keys():
                    self[k] = it[k]
            else:
                for k, v in it:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    @property
    def __class__(self):
        return dict

    def _find(self, k):
        if _fast(k):
            i = self._ix.get(k, -1)
            if i >= 0:
                return i
            if not self._slow:
                return -1
            for i, y in enumerate(self._k):
                if not _fast(y) and y == k:
                    return i
            return -1
        _hashable(k)
        for i, y in enumerate(self._k):
            if y is k:
                return i
        for i, y in enumerate(self._k):
            if y == k:
                return i
        return -1

    def __setitem__(self, k, v):
        i = self._find(k)
        if i >= 0:
            self._v[i] = v
            return
        if _fast(k):
            self._ix[k] = len(self._k)
        else:
            self._slow = True
        self._k.append(k)
        self._v.append(v)

    def __getitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        return self._v[i]

    def __delitem__(self, k):
        i = self._find(k)
        if i < 0:
            raise KeyError(k)
        del self._k[i]
        del self._v[i]
        self._ix = {x: n for n, x in enumerate(self._k) if _fast(x)}

    def __contains__(self, k):
        return self._find(k) >= 0

    def __iter__(self):
        return iter(list(self._k))

    def __reversed__(self):
        return iter(list(reversed(self._k)))

    def __len__(self):
        return len(self._k)

    def __bool__(self):
        return bool(self._k)

    def keys(self):
        return list(self._k)

    def values(self):
        return list(self._v)

    def items(self):
        return list(zip(self._k, self._v))

    def get(self, k, d=None):
        i = self._find(k)
        return d if i < 0 else self._v[i]

    def setdefault(self, k, d=None):
        i = self._find(k)
        if i >= 0:
            return self._v[i]
        self[k] = d
        return d

    def pop(self, k, d=_MISS):
        i = self._find(k)
        if i < 0:
            if d is _MISS:
                raise KeyError(k)
            return d
        v = self._v[i]
        del self[k]
        return v

    def popitem(self):
        if not self._k:
            raise KeyError("popitem(): dictionary is empty")
        k = self._k[-1]
        return k, self.pop(k)

    def clear(self):
        self.__init__()

    def copy(self):
        return SxDict(self)

    __copy__ = copy

    def update(self, *a, **kw):
        for o in a:
            for k, v in (o.items() if hasattr(o, "items") else o):
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def __or__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SxDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        if len(self) != len(o):
            return False
        for k, v in self.items():
            if k not in o:
                return False
            if not (v is o[k] or v == o[k]):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __repr__(self):
        return "{%s}" % ", ".join("%r: %r" % kv for kv in self.items())

    def __deepcopy__(self, memo):
        import copy

        return SxDict([(copy.deepcopy(k, memo), copy.deepcopy(v, memo)) for k, v in self.items()])

    @classmethod
    def fromkeys(cls, it, v=None):
        return cls([(k, v) for k in it])
