"""Symbolic stand-ins for Python's scalar types.

Each proxy answers isinstance() like the type it stands for (through __class__) and
builds solver terms instead of values.  Truth tests on SymBool are the branch points.
"""
from __future__ import annotations

import math
import datetime as _dt

import z3

from . import core
from .core import Gap, cur

MARK0, MARK1 = "\uf8f0", "\uf8f1"
MAXCP = 0x10FFFF


def z3and(parts):
    parts = [p for p in parts if p is not True]
    if any(p is False for p in parts):
        return False
    if not parts:
        return True
    return z3.And(*parts) if len(parts) > 1 else parts[0]


def z3or(parts):
    parts = [p for p in parts if p is not False]
    if any(p is True for p in parts):
        return True
    if not parts:
        return False
    return z3.Or(*parts) if len(parts) > 1 else parts[0]


def z3not(p):
    if p is True:
        return False
    if p is False:
        return True
    return z3.Not(p)


def mkbool(p):
    if p is True or p is False:
        return p
    p = z3.simplify(p)
    if z3.is_true(p):
        return True
    if z3.is_false(p):
        return False
    return SymBool(p)


def term(x):
    """z3 term of an int/bool-like value."""
    if isinstance(type(x), type) and type(x) in (SymInt, SymBool):
        return x.e
    return x


def smuggle(value, how):
    """A concrete text standing for symbolic content inside native code."""
    e = cur()
    e.smuggled.append((how, value))
    return "%s%d%s" % (MARK0, len(e.smuggled) - 1, MARK1)


class Sym:
    """Base of all proxies."""

    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Gap("pickling a symbolic value")


class SymBool(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return cur().branch(self.e)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if type(o) is bool:
            return mkbool(self.e if o else z3.Not(self.e))
        if type(o) is SymInt or type(o) is int:
            return self._int() == o
        if isinstance(o, (bool, int)):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def _int(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        if type(o) in (SymBool, bool):
            return mkbool(z3and([self.e, term(o)]))
        return self._int() & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (SymBool, bool):
            return mkbool(z3or([self.e, term(o)]))
        return self._int() | o

    __ror__ = __or__

    def __invert__(self):
        return ~self._int()

    def __str__(self):
        return "True" if self else "False"

    __repr__ = __str__

    def __format__(self, spec):
        return format(bool(self), spec)

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__


def _boolint(name):
    def f(self, *a):
        return getattr(self._int(), name)(*a)

    return f


for _n in (
    "__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ __gt__ __ge__ "
    "__mod__ __rmod__ __floordiv__ __rfloordiv__ __neg__ __abs__"
).split():
    setattr(SymBool, _n, _boolint(_n))


def lnot(b):
    if type(b) is SymBool:
        return mkbool(z3.Not(b.e))
    return not b


def land(*bs):
    return mkbool(z3and([_bt(b) for b in bs]))


def lor(*bs):
    return mkbool(z3or([_bt(b) for b in bs]))


def _bt(b):
    if type(b) is SymBool:
        return b.e
    return bool(b)


class SymInt(Sym):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def real(self):
        return cur().realize(self.e, 3, LIKELY_INT)

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __hash__(self):
        return hash(self.real())

    def __int__(self):
        return self.real()

    def __index__(self):
        return self.real()

    def __float__(self):
        return float(self.real())

    def __str__(self):
        return smuggle(self, "str")

    def __repr__(self):
        return smuggle(self, "str")

    def __format__(self, spec):
        from .rt import fmt

        r = fmt(self, "", spec)
        return r if type(r) is str else smuggle(r, "str")

    def __neg__(self):
        return mkint(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.e < 0, -self.e, self.e))

    def bit_length(self):
        return self.real().bit_length()

    def is_integer(self):
        return True


def mkint(e):
    if type(e) is int:
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def _it(o):
    """int-like operand as a z3 term / python int, or None."""
    t = type(o)
    if t is SymInt:
        return o.e
    if t is SymBool:
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0))
    if t is bool:
        return int(o)
    if t is int:
        return o
    if t is not float and isinstance(o, int) and not isinstance(o, Sym):
        return int(o)
    return None


def _arith(name, op, rop=None):
    def f(self, o):
        b = _it(o)
        if b is None:
            if type(o) is float and o == int(o) and abs(o) < 2**53 and name in ("add", "sub", "mul"):
                return SymFloat(mk_real(op(self.e, int(o))))
            if type(o) is SymFloat:
                return NotImplemented
            if type(o) is float:
                return getattr(float(self.real()), "__%s__" % name)(o)
            return NotImplemented
        return mkint(op(self.e, b))

    def rf(self, o):
        b = _it(o)
        if b is None:
            if type(o) is float:
                return getattr(o, "__%s__" % name)(float(self.real()))
            return NotImplemented
        return mkint(op(b if not isinstance(b, int) else z3.IntVal(b), self.e))

    setattr(SymInt, "__%s__" % name, f)
    setattr(SymInt, "__r%s__" % name, rf)


def mk_real(e):
    return e


_arith("add", lambda a, b: a + b)
_arith("sub", lambda a, b: a - b)
_arith("mul", lambda a, b: a * b)


def _divmod(name):
    # Python floor semantics; the divisor must be a concrete non-zero integer.
    def f(self, o):
        b = _it(o)
        if b is None:
            return NotImplemented
        if not isinstance(b, int):
            b = cur().realize(b)
        if b == 0:
            raise ZeroDivisionError("integer modulo by zero")
        q = z3.If(
            z3.BoolVal(b > 0), self.e / z3.IntVal(b), (-self.e) / z3.IntVal(-b)
        )
        q = z3.simplify(q)  # z3 '/' on Int is floor division for positive divisors
        if name == "floordiv":
            return mkint(q)
        r = self.e - q * b
        if name == "mod":
            return mkint(r)
        return (mkint(q), mkint(r))

    return f


SymInt.__floordiv__ = _divmod("floordiv")
SymInt.__mod__ = _divmod("mod")
SymInt.__divmod__ = _divmod("divmod")
SymInt.__truediv__ = lambda self, o: self.real() / (o.real() if type(o) is SymInt else o)
SymInt.__rtruediv__ = lambda self, o: o / self.real()
for _n in "and or xor lshift rshift pow".split():
    setattr(
        SymInt,
        "__%s__" % _n,
        (lambda n: lambda self, o: getattr(self.real(), "__%s__" % n)(int(o)))(_n),
    )
    setattr(
        SymInt,
        "__r%s__" % _n,
        (lambda n: lambda self, o: getattr(o, "__%s__" % n)(self.real()))(_n),
    )
SymInt.__rfloordiv__ = lambda self, o: o // self.real()
SymInt.__rmod__ = lambda self, o: o % self.real()


def _icmp(name, op):
    def f(self, o):
        b = _it(o)
        if b is None:
            if type(o) is float:
                if o != o:
                    return name == "ne"
                if o in (float("inf"), float("-inf")):
                    return getattr(0.0, "__%s__" % name)(o)
                if o == int(o):
                    return mkbool(op(self.e, int(o)))
                import math

                lo = math.floor(o)
                if name in ("eq", "ne"):
                    return name == "ne"
                if name in ("lt", "le"):
                    return mkbool(self.e <= lo)
                return mkbool(self.e > lo)
            return NotImplemented
        return mkbool(op(self.e, b))

    setattr(SymInt, "__%s__" % name, f)


_icmp("eq", lambda a, b: a == b)
_icmp("ne", lambda a, b: a != b)
_icmp("lt", lambda a, b: a < b)
_icmp("le", lambda a, b: a <= b)
_icmp("gt", lambda a, b: a > b)
_icmp("ge", lambda a, b: a >= b)


class SymFloat(Sym):
    """A float whose value is an integer term (bounded by |x| < 2**53)."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def real(self):
        return float(cur().realize(self.e))

    def __bool__(self):
        return cur().branch(self.e != 0)

    def __hash__(self):
        return hash(self.real())

    def __int__(self):
        return self.real().__int__()

    def __float__(self):
        return self.real()

    def __str__(self):
        return smuggle(self, "str")

    __repr__ = __str__

    def __format__(self, spec):
        if spec:
            return format(self.real(), spec)
        return smuggle(self, "str")

    def __neg__(self):
        return SymFloat(z3.simplify(-self.e))

    def __abs__(self):
        return SymFloat(z3.If(self.e < 0, -self.e, self.e))

    def is_integer(self):
        return True

    def _o(self, o):
        if type(o) is SymFloat:
            return o.e
        b = _it(o)
        if b is not None:
            return b
        if type(o) is float and o == o and abs(o) < 2**53 and o == int(o):
            return int(o)
        return None

    def __eq__(self, o):
        b = self._o(o)
        if b is None:
            return False if isinstance(o, float) else NotImplemented
        return mkbool(self.e == b)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)


def _fcmp(name, op):
    def f(self, o):
        b = self._o(o)
        if b is None:
            if type(o) is float:
                if o != o:
                    return False
                if abs(o) >= 2**53:
                    return op(0.0, o)
                k = math.floor(o)  # fractional: x < o <=> x <= k, x > o <=> x > k
                return mkbool(self.e <= k if name in ("lt", "le") else self.e > k)
            return NotImplemented
        return mkbool(op(self.e, b))

    setattr(SymFloat, "__%s__" % name, f)


_fcmp("lt", lambda a, b: a < b)
_fcmp("le", lambda a, b: a <= b)
_fcmp("gt", lambda a, b: a > b)
_fcmp("ge", lambda a, b: a >= b)


def _farith(name):
    def f(self, o):
        b = self._o(o)
        if b is not None and name in ("add", "sub", "mul"):
            return SymFloat(z3.simplify({"add": self.e + b, "sub": self.e - b, "mul": self.e * b}[name]))
        if type(b) is int and b > 0 and name in ("mod", "floordiv"):
            return SymFloat(z3.simplify(self.e % b if name == "mod" else self.e / b))
        o = o.real() if isinstance(o, Sym) else o
        return getattr(self.real(), "__%s__" % name)(o)

    setattr(SymFloat, "__%s__" % name, f)
    setattr(
        SymFloat,
        "__r%s__" % name,
        lambda self, o: getattr(float(o), "__%s__" % name)(self.real()),
    )


for _n in "add sub mul truediv mod floordiv pow".split():
    _farith(_n)


# ---------------------------------------------------------------- datetimes
class SymDelta(Sym):
    """timedelta of a symbolic number of microseconds."""

    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.timedelta

    def real(self):
        return _dt.timedelta(microseconds=cur().realize(self.us))

    def __bool__(self):
        return cur().branch(self.us != 0)

    def __neg__(self):
        return SymDelta(-self.us)

    def total_seconds(self):
        if cur().branch(self.us % 1000000 == 0):
            return SymFloat(self.us / 1000000)
        return self.real().total_seconds()

    @property
    def days(self):
        return mkint(self.us / 86400000000)

    @property
    def seconds(self):
        return mkint((self.us % 86400000000) / 1000000)

    @property
    def microseconds(self):
        return mkint(self.us % 1000000)

    def __abs__(self):
        return SymDelta(z3.If(self.us < 0, -self.us, self.us))

    def __hash__(self):
        return hash(self.real())

    @staticmethod
    def _us(o):
        if type(o) is SymDelta:
            return o.us
        if isinstance(o, _dt.timedelta):
            return (o.days * 86400 + o.seconds) * 1000000 + o.microseconds
        return None

    def __add__(self, o):
        if type(o) is SymDatetime:
            return o + self
        b = self._us(o)
        if b is None:
            if isinstance(o, _dt.datetime):
                return SymDatetime.of(o) + self
            return NotImplemented
        return SymDelta(self.us + b)

    __radd__ = __add__

    def __sub__(self, o):
        b = self._us(o)
        return NotImplemented if b is None else SymDelta(self.us - b)

    def __rsub__(self, o):
        b = self._us(o)
        if b is None:
            if isinstance(o, _dt.datetime):
                return SymDatetime.of(o) - self
            return NotImplemented
        return SymDelta(b - self.us)

    def __eq__(self, o):
        b = self._us(o)
        return NotImplemented if b is None else mkbool(self.us == b)

    def __ne__(self, o):
        b = self._us(o)
        return NotImplemented if b is None else mkbool(self.us != b)

    def __lt__(self, o):
        return mkbool(self.us < self._us(o))

    def __le__(self, o):
        return mkbool(self.us <= self._us(o))

    def __gt__(self, o):
        return mkbool(self.us > self._us(o))

    def __ge__(self, o):
        return mkbool(self.us >= self._us(o))


class SymTz(Sym):
    """A fixed-offset tzinfo with a symbolic offset."""

    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.timezone

    def utcoffset(self, d):
        return SymDelta(self.us)

    def __eq__(self, o):
        if type(o) is SymTz:
            return mkbool(self.us == o.us)
        if isinstance(o, _dt.timezone):
            return mkbool(self.us == SymDelta._us(o.utcoffset(None)))
        return NotImplemented

    def __hash__(self):
        return hash(cur().realize(self.us))


EPOCH = _dt.datetime(1970, 1, 1)


class SymDatetime(Sym):
    """datetime as (local microseconds since 1970, offset or None).

    The calendar is left to the real datetime class: isoformat() of the naive value is an
    injective atom of the microsecond count."""

    __slots__ = ("us", "off")

    def __init__(self, us, off=None):
        self.us = us
        self.off = off

    @property
    def __class__(self):
        return _dt.datetime

    @classmethod
    def of(cls, d):
        if type(d) is SymDatetime:
            return d
        off = None
        if d.tzinfo is not None:
            off = SymDelta._us(d.utcoffset())
        delta = d.replace(tzinfo=None) - EPOCH
        return cls(SymDelta._us(delta), off)

    def real(self):
        us = cur().realize(_z(self.us))
        d = EPOCH + _dt.timedelta(microseconds=us)
        if self.off is not None:
            o = cur().realize(_z(self.off))
            d = d.replace(tzinfo=_dt.timezone(_dt.timedelta(microseconds=o)))
        return d

    @property
    def tzinfo(self):
        return None if self.off is None else SymTz(_z(self.off))

    def utcoffset(self):
        return None if self.off is None else SymDelta(_z(self.off))

    def replace(self, *a, **kw):
        if not a and set(kw) == {"tzinfo"}:
            tz = kw["tzinfo"]
            if tz is None:
                return SymDatetime(self.us, None)
            return SymDatetime(self.us, self._tzus(tz))
        unit = {"microsecond": (1, 1000000), "second": (1000000, 60), "minute": (60000000, 60),
                "hour": (3600000000, 24)}
        if not a and all(k in unit or k == "tzinfo" for k in kw) and all(
            type(v) in (int, SymInt) for k, v in kw.items() if k in unit
        ):
            us = _z(self.us)
            for k, v in kw.items():
                if k in unit:
                    scale, mod = unit[k]
                    nv = v.e if type(v) is SymInt else v
                    us = us - ((us / scale) % mod) * scale + nv * scale
            r = SymDatetime(us, self.off)
            return r.replace(tzinfo=kw["tzinfo"]) if "tzinfo" in kw else r
        return self.real().replace(*a, **kw)

    @property
    def microsecond(self):
        return mkint(_z(self.us) % 1000000)

    @property
    def second(self):
        return mkint((_z(self.us) / 1000000) % 60)

    @property
    def minute(self):
        return mkint((_z(self.us) / 60000000) % 60)

    @property
    def hour(self):
        return mkint((_z(self.us) / 3600000000) % 24)

    @staticmethod
    def _tzus(tz):
        if type(tz) is SymTz:
            return tz.us
        return SymDelta._us(tz.utcoffset(_dt.datetime(2020, 1, 1)))

    def astimezone(self, tz=None):
        if tz is None or self.off is None:
            return self.real().astimezone(tz)
        o = self._tzus(tz)
        return SymDatetime(_z(self.us) - _z(self.off) + o, o)

    def isoformat(self, *a, **kw):
        sep, spec = "T", "auto"
        if a:
            sep = a[0]
            if len(a) > 1:
                spec = a[1]
        sep = kw.get("sep", sep)
        spec = kw.get("timespec", spec)
        if type(sep) is not str or spec not in ("auto", "seconds", "milliseconds", "microseconds"):
            return self.real().isoformat(sep=sep, timespec=spec)
        us = _z(self.us)
        if spec == "seconds":
            us = us - us % 1000000
            spec = "auto"
        elif spec == "microseconds" and cur().branch(us % 1000000 != 0):
            spec = "auto"
        off = None if self.off is None else _z(self.off)
        if sep == "T" and spec == "auto":
            return SymStr([Atom("isoz", (us, off)) if off is not None else Atom("iso", (us,))])
        args = (us,) if off is None else (us, off)
        return SymStr([Atom("isox:%s:%s" % (sep, spec), args)])

    def __str__(self):
        return smuggle(self, "str")

    def __repr__(self):
        return smuggle(self, "str")

    def __format__(self, spec):
        return format(self.real(), spec)

    def __add__(self, o):
        b = SymDelta._us(o)
        return NotImplemented if b is None else SymDatetime(_z(self.us) + b, self.off)

    __radd__ = __add__

    def __sub__(self, o):
        b = SymDelta._us(o)
        if b is not None:
            return SymDatetime(_z(self.us) - b, self.off)
        if isinstance(o, _dt.datetime):
            o = SymDatetime.of(o)
            if (self.off is None) != (o.off is None):
                raise TypeError("can't subtract offset-naive and offset-aware datetimes")
            return SymDelta(self._utc() - o._utc())
        return NotImplemented

    def __rsub__(self, o):
        return SymDatetime.of(o) - self

    def _utc(self):
        return _z(self.us) - (_z(self.off) if self.off is not None else 0)

    def __eq__(self, o):
        if not isinstance(o, _dt.datetime):
            return NotImplemented
        o = SymDatetime.of(o)
        if (self.off is None) != (o.off is None):
            return False
        return mkbool(self._utc() == o._utc())

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def _cmp(self, o, op):
        if not isinstance(o, _dt.datetime):
            return NotImplemented
        o = SymDatetime.of(o)
        if (self.off is None) != (o.off is None):
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        return mkbool(op(self._utc(), o._utc()))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __hash__(self):
        return hash(self.real())

    def __getattr__(self, name):
        return getattr(self.real(), name)


def _z(x):
    return z3.IntVal(x) if type(x) is int else x


# ---------------------------------------------------------------- strings
LIKELY_INT = (0, 1, -1, 2, 10, 1000, 2**31, 2**53 + 1, 2**63, -(2**63) - 1, 10**20 + 7)
# characters that text functions treat in special ways, tried first when a text has to be concretised
LIKELY = (39, 92, 10, 34, 0xFEFF, 0x212B, 13, 9, 0x2028, 0, 32, 0xDF, 0x130, 0x301, 0x85, 0x1F600, 0x200B, 0xA0, 37, 47, 0x1C, 65, 0xB2)


class Chr:
    """A symbolic character: an integer term with a known static domain."""

    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo=0, hi=MAXCP):
        self.e = e
        self.lo = lo
        self.hi = hi


class Atom:
    """An opaque non-empty run of characters determined by solver terms.

    kinds: dec(x) decimal of an int; iso(us) / isoz(us, off) ISO date-times; flt(x) text of an
    integer-valued float; json(tree) the JSON text of a tree; repr(s) the repr of a string."""

    __slots__ = ("kind", "args")

    def __init__(self, kind, args):
        self.kind = kind
        self.args = args


def in_ranges(e, ranges, lo=0, hi=MAXCP):
    parts = []
    for a, b in ranges:
        if b < lo or a > hi:
            continue
        if a <= lo and b >= hi:
            return True
        if a == b:
            parts.append(e == a)
        elif a <= lo:
            parts.append(e <= b)
        elif b >= hi:
            parts.append(e >= a)
        else:
            parts.append(z3.And(e >= a, e <= b))
    return z3or(parts)


def expand_markers(s):
    """Concrete text with smuggled symbolic parts -> items."""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == MARK0:
            j = s.index(MARK1, i)
            how, v = cur().smuggled[int(s[i + 1 : j])]
            out.extend(text_items(v, how))
            i = j + 1
        else:
            out.append(c)
            i += 1
    return out


def text_items(v, how):
    t = type(v)
    if t is SymStr:
        if how == "repr":
            return [Atom("repr", (v,))]
        return list(v.items)
    if t is SymInt:
        return [Atom("dec", (v.e,))]
    if t is SymFloat:
        return [Atom("dec", (v.e,)), ".", "0"]
    if t is SymBool:
        return list("True" if v else "False")
    if t is SymDatetime:
        return list(v.isoformat(sep=" ").items)
    if t is str:
        return items_of(v)
    if hasattr(v, "real"):
        return list(str(v.real()))
    raise Gap("text of %r" % (t,))


def items_of(s):
    t = type(s)
    if t is SymStr:
        return s.items
    if t is str:
        if MARK0 in s:
            return expand_markers(s)
        return list(s)
    if isinstance(s, str):
        return items_of(str.__str__(s))
    raise TypeError("expected str, got %s" % t.__name__)


def mkstr(items):
    for i in items:
        if type(i) is not str:
            return SymStr(items)
    return "".join(items)


DIG = "0123456789"


def expand_dec(e):
    """Digits of an integer term: forks on sign and number of digits."""
    c = cur()
    neg = c.branch(e < 0)
    a = z3.simplify(-e) if neg else e
    n = 1
    while c.branch(a >= 10**n):
        n += 1
        if n > 24:
            break
    ds = []
    total = None
    for k in range(n):
        d = z3.Int(c.fresh_name("d"))
        ds.append(d)
        c.declare(z3.And(d >= 0, d <= 9))
        t = d * (10 ** (n - 1 - k))
        total = t if total is None else total + t
    c.add(total == a)
    if n > 1:
        c.add(ds[0] >= 1)
    c.model = None
    return (["-"] if neg else []) + [Chr(z3.simplify(48 + d), 48, 57) for d in ds]


def expand_atom(a):
    c = cur()
    if a.kind == "dec":
        return expand_dec(a.args[0])
    if a.kind == "flt":
        return expand_dec(a.args[0]) + [".", "0"]
    if a.kind == "iso":
        return list(SymDatetime(a.args[0]).real().isoformat())
    if a.kind == "isoz":
        return list(SymDatetime(a.args[0], a.args[1]).real().isoformat())
    if a.kind.startswith("isox:"):
        _, sep, spec = a.kind.split(":")
        return list(SymDatetime(*a.args).real().isoformat(sep=sep, timespec=spec))
    if a.kind == "repr":
        return list(repr(a.args[0].real()))
    if a.kind == "json":
        from .rt import json_items

        return json_items(*a.args)
    raise Gap("expand " + a.kind)


def concrete_items(items):
    """Expand all atoms so that every item is one character."""
    if not any(type(i) is Atom for i in items):
        return items
    out = []
    for i in items:
        if type(i) is Atom:
            out.extend(expand_atom(i))
        else:
            out.append(i)
    return out


def ch_eq(a, b):
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return a == b
    if ta is str:
        a, b, ta, tb = b, a, tb, ta
    if tb is str:
        o = ord(b)
        if o < a.lo or o > a.hi:
            return False
        return a.e == o
    if a.hi < b.lo or b.hi < a.lo:
        return False
    return a.e == b.e


def json_eq(x, y, unordered=False):
    """condition: the two trees have the same JSON text (json.dumps is injective up to tuple/list)"""
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        if not (isinstance(x, (list, tuple)) and isinstance(y, (list, tuple))) or len(x) != len(y):
            return False
        return z3and([json_eq(i, j, unordered) for i, j in zip(x, y)])
    if isinstance(x, dict) or isinstance(y, dict):
        if not (isinstance(x, dict) and isinstance(y, dict)) or len(x) != len(y):
            return False
        xs, ys = list(x.items()), list(y.items())
        if unordered and all(type(k) is str and MARK0 not in k for k, _ in xs + ys):
            xs, ys = sorted(xs, key=lambda p: p[0]), sorted(ys, key=lambda p: p[0])
        return z3and([z3and([json_eq(k, m), json_eq(v, w, unordered)]) for (k, v), (m, w) in zip(xs, ys)])
    for t in (bool, int, float, str):
        if isinstance(x, t) or isinstance(y, t):
            if not (isinstance(x, t) and isinstance(y, t)):
                return False
            if t is str:
                return str_eq(items_of(x), items_of(y))
            r = x == y
            return r.e if type(r) is SymBool else bool(r)
    return x is None and y is None


def _atom_args_eq(a, b):
    if a.kind == "repr":
        r = str_eq(a.args[0].items, b.args[0].items)
        return r
    if a.kind == "json":
        if a is b:
            return True
        return a.args[1] == b.args[1] and json_eq(a.args[0], b.args[0], a.args[1].get("sort_keys"))
    return z3and([x == y for x, y in zip(a.args, b.args)])


_TERMINATORS = {
    "dec": lambda c: type(c) is str and c not in DIG,
    "flt": lambda c: type(c) is str and c not in DIG,
    "iso": lambda c: type(c) is str and c not in DIG and c not in ".+-:",
    "isoz": lambda c: type(c) is str and c not in DIG and c not in ".+-:",
}


def str_eq(xs, ys):
    """z3 condition (or bool) for equality of two item lists."""
    if xs is ys:
        return True
    i = j = 0
    parts = []
    nx, ny = len(xs), len(ys)
    while True:
        if i == nx and j == ny:
            return z3and(parts)
        if i == nx or j == ny:
            return False
        a, b = xs[i], ys[j]
        if type(a) is Atom and type(b) is Atom and a.kind == b.kind:
            term_ok = _TERMINATORS.get(a.kind)
            nxt = (xs[i + 1] if i + 1 < nx else None, ys[j + 1] if j + 1 < ny else None)
            if term_ok is None or all(c is None or term_ok(c) for c in nxt):
                e = _atom_args_eq(a, b)
                if e is False:
                    return False
                parts.append(e)
                i += 1
                j += 1
                continue
            if all(
                z3.simplify(p).eq(z3.simplify(q)) for p, q in zip(a.args, b.args) if z3.is_expr(p)
            ) and a.kind in ("dec", "flt", "iso", "isoz"):
                i += 1
                j += 1
                continue
        if type(a) is Atom and type(b) is Atom and a.kind != b.kind and a.kind[:3] == b.kind[:3] == "iso":
            # two forms of ISO text (naive/aware, separator, precision) never coincide
            ok = _TERMINATORS["iso"]
            if all(c is None or ok(c) for c in (xs[i + 1] if i + 1 < nx else None, ys[j + 1] if j + 1 < ny else None)):
                return False
        if type(a) is Atom or type(b) is Atom:
            # misaligned: fall back to characters
            xs = concrete_items(xs[i:])
            ys = concrete_items(ys[j:])
            i = j = 0
            nx, ny = len(xs), len(ys)
            continue
        e = ch_eq(a, b)
        if e is False:
            return False
        parts.append(e)
        i += 1
        j += 1


WS_RANGES = [
    (9, 13), (28, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A),
    (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000),
]


def in_set(c, chars):
    """condition: character c belongs to the concrete set/str `chars`."""
    if type(c) is str:
        return c in chars
    return in_ranges(c.e, [(ord(x), ord(x)) for x in chars], c.lo, c.hi)


_CHARS = {"dec": DIG + "-", "flt": DIG + "-.", "iso": DIG + "-:.T", "isoz": DIG + "-:.T+"}
NUMERIC = ("dec", "flt", "iso", "isoz")


def apart(items, sub):
    """sub cannot overlap any atom of items: its characters never occur in numbers and dates"""
    if len(sub) == 1 and type(sub[0]) is str:
        return all(type(i) is not Atom or (i.kind in _CHARS and sub[0] not in _CHARS[i.kind]) for i in items)
    for c in sub:
        if type(c) is not str or c in DIG or c in "-+.:T":
            return False
    return all(type(i) is not Atom or i.kind in NUMERIC for i in items)


class SymStr(Sym):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items

    @property
    def __class__(self):
        return str

    # -- concretisation
    def chars(self):
        it = self.items
        if any(type(i) is Atom for i in it):
            it = concrete_items(it)
            self.items = it
        return it

    def real(self):
        out = []
        c = cur()
        for i in self.chars():
            out.append(i if type(i) is str else chr(c.realize(i.e, 3, LIKELY)))
        return "".join(out)

    def __hash__(self):
        return hash(self.real())

    def __str__(self):
        return smuggle(self, "str")

    def __repr__(self):
        return smuggle(self, "repr")

    def __format__(self, spec):
        return smuggle(self, "str") if not spec else format(self.real(), spec)

    # -- basics
    def __len__(self):
        return len(self.chars())

    def __bool__(self):
        return len(self.items) > 0

    def __iter__(self):
        for i in list(self.chars()):
            yield mkstr([i])

    def __getitem__(self, k):
        if type(k) is slice:
            k = slice(*[x.real() if type(x) is SymInt else x for x in (k.start, k.stop, k.step)])
            its = self.items
            if k.step in (None, 1) and any(type(i) is Atom for i in its):
                # cut plain characters off either end without expanding the atoms between
                at = [n for n, i in enumerate(its) if type(i) is Atom]
                front, back = at[0], len(its) - 1 - at[-1]
                a = 0 if k.start is None else k.start
                b = 0 if k.stop is None else k.stop
                if type(a) is int and type(b) is int and 0 <= a <= front and (k.stop is None or -back <= b < 0):
                    return mkstr(its[a : len(its) + b])
            return mkstr(self.chars()[k])
        if type(k) is SymInt:
            k = k.real()
        its = self.items
        if type(k) is int and (
            not any(type(i) is Atom for i in its[: k + 1]) if k >= 0 else not any(type(i) is Atom for i in its[k:])
        ) and -len(its) <= k < len(its):
            return mkstr([its[k]])
        return mkstr([self.chars()[k]])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(self.items + items_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkstr(items_of(o) + self.items)

    def __mul__(self, n):
        return mkstr(self.items * int(n))

    __rmul__ = __mul__

    def __mod__(self, o):
        from .rt import percent

        return percent(self, o)

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkbool(str_eq(self.items, items_of(o)))

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return mkbool(z3not(str_eq(self.items, items_of(o))))

    def _lt(self, o, eq_ok):
        a, b = self.chars(), concrete_items(items_of(o))
        c = cur()
        for x, y in zip(a, b):
            ex = z3.IntVal(ord(x)) if type(x) is str else x.e
            ey = z3.IntVal(ord(y)) if type(y) is str else y.e
            if c.branch(ex == ey):
                continue
            return mkbool(ex < ey)
        return len(a) <= len(b) if eq_ok else len(a) < len(b)

    def __lt__(self, o):
        return self._lt(o, False)

    def __le__(self, o):
        return self._lt(o, True)

    def __gt__(self, o):
        return lnot(self._lt(o, True))

    def __ge__(self, o):
        return lnot(self._lt(o, False))

    def _match_at(self, ch, i, sub):
        return z3and([ch_eq(ch[i + k], sub[k]) for k in range(len(sub))])

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        sub = concrete_items(items_of(o))
        if not sub:
            return True
        if apart(self.items, sub):
            ch = self.items
            return mkbool(z3or([
                self._match_at(ch, i, sub) for i in range(len(ch) - len(sub) + 1)
                if not any(type(x) is Atom for x in ch[i : i + len(sub)])
            ]))
        ch = self.chars()
        return mkbool(
            z3or([self._match_at(ch, i, sub) for i in range(len(ch) - len(sub) + 1)])
        )

    # -- searching
    def _bounds(self, start, end):
        n = len(self.chars())
        start, end, _ = slice(
            start if type(start) is not SymInt else start.real(),
            end if type(end) is not SymInt else end.real(),
        ).indices(n)
        return start, end

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return lor(*[self.startswith(q, start, end) for q in p])
        sub = items_of(p)
        if start is None and end is None and not any(
            type(i) is Atom for i in self.items[: len(sub)]
        ):
            ch = self.items
            sub = concrete_items(sub)
            if len(sub) > len(ch) and any(type(i) is Atom for i in ch):
                ch = self.chars()
            if len(sub) > len(ch):
                return False
            return mkbool(self._match_at(ch, 0, sub))
        ch = self.chars()
        sub = concrete_items(sub)
        s, e = self._bounds(start, end)
        if s + len(sub) > e:
            return False
        return mkbool(self._match_at(ch, s, sub))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return lor(*[self.endswith(q, start, end) for q in p])
        sub = concrete_items(items_of(p))
        tail = self.items[-len(sub) :] if sub else []
        if start is None and end is None and len(tail) == len(sub) and not any(type(i) is Atom for i in tail):
            return mkbool(self._match_at(tail, 0, sub))
        ch = self.chars()
        s, e = self._bounds(start, end)
        if e - s < len(sub):
            return False
        return mkbool(self._match_at(ch, e - len(sub), sub))

    def find(self, p, start=None, end=None):
        ch = self.chars()
        sub = concrete_items(items_of(p))
        s, e = self._bounds(start, end)
        for i in range(s, e - len(sub) + 1):
            if mkbool(self._match_at(ch, i, sub)):
                return i
        return -1

    def rfind(self, p, start=None, end=None):
        ch = self.chars()
        sub = concrete_items(items_of(p))
        s, e = self._bounds(start, end)
        for i in range(e - len(sub), s - 1, -1):
            if mkbool(self._match_at(ch, i, sub)):
                return i
        return -1

    def index(self, p, *a):
        r = self.find(p, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, p, *a):
        r = self.rfind(p, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, p, *a):
        n = 0
        sub = concrete_items(items_of(p))
        if not a and sub and apart(self.items, sub):
            return len(self.split(p)) - 1
        i = self.find(p, *a)
        if not sub:
            return len(self.chars()) + 1
        while i >= 0:
            n += 1
            i = self.find(p, i + len(sub), *(a[1:2]))
        return n

    # -- rewriting
    def replace(self, old, new, count=-1):
        old = concrete_items(items_of(old))
        new = items_of(new)
        its = self.items
        if not old:
            out = list(new)
            for c in self.chars():
                out.append(c)
                out.extend(new)
            return mkstr(out)
        # numbers and dates only contain a few characters; skip them when `old` cannot occur inside
        if any(type(i) is Atom for i in its) and not apart(its, old):
            its = self.chars()
        out = []
        i = 0
        n = len(its)
        k = len(old)
        c = cur()
        while i < n:
            if count == 0 or i + k > n or any(type(x) is Atom for x in its[i : i + k]):
                out.append(its[i])
                i += 1
                continue
            cond = self._match_at(its, i, old)
            hit = cond if isinstance(cond, bool) else c.branch(cond)
            if hit:
                out.extend(new)
                i += k
                count -= 1
            else:
                out.append(its[i])
                i += 1
        return mkstr(out)

    def translate(self, table):
        out = []
        for c in self.chars():
            if type(c) is str:
                out.extend(items_of(c.translate(table)))
                continue
            done = False
            for key in list(table.keys()):
                if c.lo <= key <= c.hi and cur().branch(c.e == key):
                    v = table[key]
                    if v is None:
                        pass
                    elif isinstance(v, int):
                        out.append(chr(v))
                    else:
                        out.extend(items_of(v))
                    done = True
                    break
            if not done:
                out.append(c)
        return mkstr(out)

    def _strip_pred(self, chars):
        if chars is None:
            return lambda c: (c.isspace() if type(c) is str else in_ranges(c.e, WS_RANGES, c.lo, c.hi))
        cs = concrete_items(items_of(chars))
        return lambda c: z3or([ch_eq(c, x) for x in cs])

    def _strip(self, chars, left, right):
        its = self.items
        pred = self._strip_pred(chars)
        i, j = 0, len(its)

        def hit(k):
            nonlocal its
            if type(its[k]) is Atom:
                if chars is None or its[k].kind not in ("repr", "json") and type(chars) is str and not any(
                    x in DIG or x.isalpha() or x in "-+.:" for x in chars
                ):
                    return False
                raise Gap("strip on atom")
            p = pred(its[k])
            return p if isinstance(p, bool) else cur().branch(p)

        try:
            while left and i < j and hit(i):
                i += 1
            while right and j > i and hit(j - 1):
                j -= 1
        except Gap:
            its = self.chars()
            i, j = 0, len(its)
            while left and i < j and hit(i):
                i += 1
            while right and j > i and hit(j - 1):
                j -= 1
        return mkstr(its[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return self[len(items_of(p)) :] if self.startswith(p) else self

    def removesuffix(self, p):
        n = len(items_of(p))
        return self[:-n] if n and self.endswith(p) else self

    def split(self, sep=None, maxsplit=-1):
        safe = apart(self.items, [" "] if sep is None else concrete_items(items_of(sep)))
        ch = self.items if safe else self.chars()
        out = []
        curp = []
        i = 0
        if sep is None:
            pred = self._strip_pred(None)
            for k, c in enumerate(ch):
                p = False if type(c) is Atom else pred(c)
                if maxsplit >= 0 and len(out) >= maxsplit and curp == []:
                    rest = mkstr(ch[k:]).lstrip() if type(mkstr(ch[k:])) is SymStr else "".join(ch[k:]).lstrip()
                    if len(rest):
                        out.append(rest)
                    return out
                if p if isinstance(p, bool) else cur().branch(p):
                    if curp:
                        out.append(mkstr(curp))
                        curp = []
                else:
                    curp.append(c)
            if curp:
                out.append(mkstr(curp))
            return out
        sub = concrete_items(items_of(sep))
        if not sub:
            raise ValueError("empty separator")
        while i < len(ch):
            if (maxsplit < 0 or len(out) < maxsplit) and i + len(sub) <= len(ch) and not any(
                type(x) is Atom for x in ch[i : i + len(sub)]
            ):
                if mkbool(self._match_at(ch, i, sub)):
                    out.append(mkstr(curp))
                    curp = []
                    i += len(sub)
                    continue
            curp.append(ch[i])
            i += 1
        out.append(mkstr(curp))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            return self.real().rsplit(None, maxsplit)
        out = []
        rest = self
        n = len(items_of(sep))
        while maxsplit and type(rest) is SymStr:
            k = rest.rfind(sep)
            if k < 0:
                break
            out.insert(0, rest[k + n :])
            rest = rest[:k]
            maxsplit -= 1
        if type(rest) is str and maxsplit and type(sep) is str:
            return rest.rsplit(sep, maxsplit) + out
        return [rest] + out

    def partition(self, sep):
        if apart(self.items, concrete_items(items_of(sep))):
            r = self.split(sep, 1)
            return (r[0], sep, r[1]) if len(r) == 2 else (self, "", "")
        k = self.find(sep)
        if k < 0:
            return (self, "", "")
        return (self[:k], sep, self[k + len(items_of(sep)) :])

    def rpartition(self, sep):
        k = self.rfind(sep)
        if k < 0:
            return ("", "", self)
        return (self[:k], sep, self[k + len(items_of(sep)) :])

    def splitlines(self, keepends=False):
        return self.real().splitlines(keepends)

    def join(self, parts):
        from .rt import str_join

        return str_join(self, parts)

    def format(self, *a, **kw):
        from .rt import str_format

        return str_format(self, a, kw)

    def _case(self, lo, hi, delta, name):
        out = []
        for c in self.chars():
            if type(c) is str:
                out.extend(getattr(c, name)())
                continue
            if c.hi >= 128 and not cur().branch(c.e < 128):
                out.extend(getattr(chr(cur().realize(c.e, 3, LIKELY)), name)())
                continue
            out.append(
                Chr(
                    z3.simplify(z3.If(z3.And(c.e >= lo, c.e <= hi), c.e + delta, c.e)),
                    0,
                    127,
                )
            )
        return mkstr(out)

    def upper(self):
        return self._case(97, 122, -32, "upper")

    def lower(self):
        return self._case(65, 90, 32, "lower")

    def casefold(self):
        return self._case(65, 90, 32, "casefold")

    def _all(self, ranges_ascii, name):
        ch = self.chars()
        if not ch:
            return False
        parts = []
        for c in ch:
            if type(c) is str:
                parts.append(getattr(c, name)())
            elif c.hi < 128:
                parts.append(in_ranges(c.e, ranges_ascii, c.lo, c.hi))
            else:
                from .symre import class_ranges

                parts.append(in_ranges(c.e, class_ranges(name), c.lo, c.hi))
        return mkbool(z3and(parts))

    def isdigit(self):
        return self._all([(48, 57)], "isdigit")

    def isdecimal(self):
        return self._all([(48, 57)], "isdecimal")

    def isnumeric(self):
        return self._all([(48, 57)], "isnumeric")

    def isalpha(self):
        return self._all([(65, 90), (97, 122)], "isalpha")

    def isalnum(self):
        return self._all([(48, 57), (65, 90), (97, 122)], "isalnum")

    def isspace(self):
        return self._all([(9, 13), (28, 32)], "isspace")

    def isprintable(self):
        if not self.items:
            return True
        return self._all([(32, 126)], "isprintable")

    def isascii(self):
        return mkbool(
            z3and([ord(c) < 128 if type(c) is str else c.e < 128 for c in self.chars()])
        )

    def isupper(self):
        return self.real().isupper()

    def islower(self):
        return self.real().islower()

    def isidentifier(self):
        return self.real().isidentifier()

    def encode(self, *a, **kw):
        if a in ((), ("utf-8",), ("utf8",)) and not kw:
            return SymBytes(self)
        return self.real().encode(*a, **kw)

    def __getattr__(self, name):
        # a str method without a symbolic model: concretise (recorded)
        if name.startswith("__"):
            raise AttributeError(name)
        f = getattr(str, name, None)
        if f is None:
            raise AttributeError("'str' object has no attribute %r" % name)
        return getattr(self.real(), name)


class SymBytes(Sym):
    """UTF-8 bytes of a symbolic string."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return bytes

    def decode(self, *a, **kw):
        if a in ((), ("utf-8",), ("utf8",)) and not kw or kw == {"encoding": "utf-8"}:
            return self.s
        return self.real().decode(*a, **kw)

    def real(self):
        s = self.s
        return (s.real() if type(s) is SymStr else s).encode()

    def __eq__(self, o):
        if type(o) is SymBytes:
            return self.s == o.s
        if isinstance(o, bytes):
            return self.s == o.decode()
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else lnot(r)

    def __hash__(self):
        return hash(self.real())

    def __bool__(self):
        return bool(self.s)

    def __len__(self):
        return len(self.real())

    def __repr__(self):
        return repr(self.real())

    def __iter__(self):
        return iter(self.real())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.real(), name)


SYMS = (SymBool, SymInt, SymFloat, SymStr, SymBytes, SymDatetime, SymDelta, SymTz)


def is_sym(x):
    return isinstance(x, Sym) if type(x) in SYMS else type(x) in SYMS
