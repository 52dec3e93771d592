"""Run-time hooks called by the rewritten source (see loader.py)."""
from __future__ import annotations

import builtins
import datetime as _dt
import functools
import json as _json
import operator
import re as _re
import types

import z3

from . import core
from .containers import SxDict, SxSet
from .core import Gap, cur
from .values import (
    DIG,
    LIKELY,
    MARK0,
    MARK1,
    MAXCP,
    SYMS,
    Atom,
    Chr,
    SymBool,
    SymBytes,
    SymDatetime,
    SymDelta,
    SymFloat,
    SymInt,
    SymStr,
    concrete_items,
    in_ranges,
    expand_dec,
    items_of,
    mkbool,
    mkint,
    mkstr,
    str_eq,
    text_items,
    z3and,
    z3not,
)

SYMSET = frozenset(SYMS)


def is_sym(x):
    return type(x) in SYMSET


def has_sym(x, depth=3):
    t = type(x)
    if t in SYMSET:
        return True
    if t is str:
        return MARK0 in x
    if depth and t in (list, tuple, dict):
        it = x.values() if t is dict else x
        return any(has_sym(i, depth - 1) for i in it)
    if t in (SxDict, SxSet):
        return True
    return False


def deep_real(x):
    """Concretise everything inside x (recorded as concretisation by the engine)."""
    t = type(x)
    if t in SYMSET:
        if t is SymBool:
            return bool(x)
        return x.real()
    if t is str:
        if MARK0 in x:
            r = mkstr(items_of(x))
            return r if type(r) is str else r.real()
        return x
    if t is list:
        return [deep_real(i) for i in x]
    if t is tuple:
        return tuple(deep_real(i) for i in x)
    if t is dict:
        return {deep_real(k): deep_real(v) for k, v in x.items()}
    if t is SxDict:
        return {deep_real(k): deep_real(v) for k, v in x.items()}
    if t is SxSet:
        return {deep_real(i) for i in x}
    if t is slice:
        return slice(deep_real(x.start), deep_real(x.stop), deep_real(x.step))
    return x


# ---------------------------------------------------------------- formatting
def fmt(v, conv, spec):
    """format(v, spec) with conversion; returns str or SymStr."""
    if spec is not None and type(spec) is not str:
        spec = deep_real(spec)
    t = type(v)
    if conv == "r" or conv == "a":
        if t is SymStr:
            v = SymStr([Atom("repr", (v,))])
        else:
            v = sx_repr(v)
        t = type(v)
    elif conv == "s":
        v = sx_str(v)
        t = type(v)
    if t is SymStr:
        if not spec or spec == "s":
            return v
        return format(v.real(), spec)
    if t is SymInt:
        if not spec or spec == "d":
            return SymStr([Atom("dec", (v.e,))])
        if spec in (",", "_", ",d", "_d"):
            ds = expand_dec(v.e)
            neg = ds[0] == "-"
            ds = ds[1:] if neg else ds
            out = []
            for k, d in enumerate(ds):
                if k and (len(ds) - k) % 3 == 0:
                    out.append(spec[0])
                out.append(d)
            return mkstr((["-"] if neg else []) + out)
        return format(v.real(), spec)
    if t is SymFloat:
        if not spec:
            return SymStr([Atom("dec", (v.e,)), ".", "0"])
        m = _re.fullmatch(r"\.(\d+)[fF]|[fF]", spec)
        if m:
            n = 6 if m.group(1) is None else int(m.group(1))
            return SymStr([Atom("dec", (v.e,))] + (["."] + ["0"] * n if n else []))
        return format(v.real(), spec)
    if t is SymBool:
        return format(bool(v), spec or "")
    if t is str:
        if not spec:
            return v
        if MARK0 in v:
            v = deep_real(v)
        return format(v, spec)
    if t in SYMSET:
        return format(v.real(), spec or "")
    if not spec and t.__format__ is object.__format__:
        return sx_str(v)
    return format(v, spec or "")


def fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
            continue
        r = fmt(*p)
        if type(r) is not str or MARK0 in r:
            sym = True
        out.append(r)
    if not sym:
        return "".join(out)
    items = []
    for r in out:
        items.extend(items_of(r))
    return mkstr(items)


def sx_str(x):
    t = type(x)
    if t is SymStr or t is str:
        return x if t is SymStr or MARK0 not in x else mkstr(items_of(x))
    if t in (SymInt, SymFloat):
        return mkstr(text_items(x, "str"))
    if t is SymBool:
        return str(x)
    if t in SYMSET:
        return str(x.real())
    f = t.__str__
    if type(f) is types.FunctionType:
        return _text_result(f(x), "__str__")
    if f is object.__str__:
        return sx_repr(x)
    r = str(x)
    return mkstr(items_of(r)) if MARK0 in r else r


def _text_result(r, what):
    if not isinstance(r, str):
        raise TypeError("%s returned non-string (type %s)" % (what, type(r).__name__))
    return mkstr(items_of(r)) if type(r) is str and MARK0 in r else r


def sx_repr(x):
    t = type(x)
    f = t.__repr__
    if type(f) is types.FunctionType and t not in SYMSET:
        return _text_result(f(x), "__repr__")
    if (t is list or t is tuple) and x:
        parts = [sx_repr(i) for i in x]
        inner = str_join(", ", parts)
        if t is list:
            return fstr("[", (inner, None, None), "]")
        return fstr("(", (inner, None, None), ",)" if len(x) == 1 else ")")
    if t is SymStr:
        return SymStr([Atom("repr", (x,))])
    if t in (SymInt, SymFloat):
        return mkstr(text_items(x, "str"))
    r = repr(x)
    return mkstr(items_of(r)) if MARK0 in r else r


def str_join(sep, parts):
    parts = list(parts)
    out = []
    s = items_of(sep)
    for k, p in enumerate(parts):
        if not isinstance(p, str):
            raise TypeError(
                "sequence item %d: expected str instance, %s found" % (k, type(p).__name__)
            )
        if k:
            out.extend(s)
        out.extend(items_of(p))
    return mkstr(out)


def str_format(template, a, kw):
    import string

    if type(template) is SymStr:
        template = template.real()
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(template):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        first, rest = _split_field(field)
        if first == "":
            obj = a[auto]
            auto += 1
        elif first.isdigit():
            obj = a[int(first)]
        else:
            obj = kw[first]
        for is_attr, key in rest:
            obj = getattr(obj, key) if is_attr else obj[key]
        if spec and "{" in spec:
            spec = str_format(spec, a[auto:], kw)
        parts.append((obj, conv or "", spec or ""))
    return fstr(*parts)


def _split_field(field):
    import _string

    first, rest = _string.formatter_field_name_split(field)
    return str(first), list(rest)


_PCT = _re.compile(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?([diouxXeEfFgGcrsa%])")


def percent(template, args):
    if type(template) is SymStr:
        if not any(type(i) is not str and True for i in template.items):
            template = "".join(template.items)
        else:
            template = template.real()
    parts = []
    pos = 0
    tup = args if isinstance(args, tuple) else (args,)
    k = 0
    for m in _PCT.finditer(template):
        if m.start() > pos:
            parts.append(template[pos : m.start()])
        pos = m.end()
        name, flags, width, prec, c = m.groups()
        if c == "%":
            parts.append("%")
            continue
        if name:
            v = args[name]
        else:
            v = tup[k]
            k += 1
        if c in "fF" and not flags and not width and prec != "*" and type(v) in (SymInt, SymFloat):
            parts.append((SymFloat(v.e), "", "." + (prec or "6") + "f"))
        elif flags or width or prec:
            parts.append(_native_pct(m.group(0), v))
        elif c == "s":
            parts.append((v, "s", ""))
        elif c in "ra":
            parts.append((v, "r", ""))
        elif c in "di" and type(v) in (SymFloat, SymBool):
            parts.append((sx_int(v), "", "d"))
        elif c in "di" and isinstance(v, int):
            parts.append((v, "", "d"))
        else:
            parts.append(_native_pct(m.group(0), v))
    if pos < len(template):
        parts.append(template[pos:])
    return fstr(*parts)


def _native_pct(spec, v):
    spec = _re.sub(r"\(\w+\)", "", spec)
    return spec % (deep_real(v),)


# ---------------------------------------------------------------- operators
_OPS = {
    "==": operator.eq,
    "!=": operator.ne,
    "<": operator.lt,
    "<=": operator.le,
    ">": operator.gt,
    ">=": operator.ge,
}
_BIN = {
    "+": operator.add,
    "-": operator.sub,
    "*": operator.mul,
    "/": operator.truediv,
    "//": operator.floordiv,
    "%": operator.mod,
    "**": operator.pow,
    "|": operator.or_,
    "&": operator.and_,
    "^": operator.xor,
    "<<": operator.lshift,
    ">>": operator.rshift,
    "@": operator.matmul,
}
_IBIN = {
    "+": operator.iadd,
    "-": operator.isub,
    "*": operator.imul,
    "/": operator.itruediv,
    "//": operator.ifloordiv,
    "%": operator.imod,
    "**": operator.ipow,
    "|": operator.ior,
    "&": operator.iand,
    "^": operator.ixor,
    "<<": operator.ilshift,
    ">>": operator.irshift,
    "@": operator.imatmul,
}


def contains(x, c):
    tc = type(c)
    if tc is SymStr:
        return c.contains(x)
    if tc is str:
        if type(x) is SymStr:
            return SymStr(items_of(c)).contains(x)
        if type(x) is str and (MARK0 in x or MARK0 in c):
            return SymStr(items_of(c)).contains(x)
        return x in c
    if tc in (SxSet, SxDict):
        return x in c
    if tc in (set, frozenset, dict) or isinstance(c, (dict, set, frozenset)):
        if has_sym(x) or not _native_hashable(x):
            from .containers import _hashable

            _hashable(x)
            for y in list(c):
                if y is x:
                    return True
            for y in list(c):
                if y == x:
                    return True
            return False
        return x in c
    if isinstance(c, type) and issubclass(c, _enum_type()) and type(x) in SYMSET:
        return any(bool(m.value == x) for m in c)
    return x in c


def _enum_type():
    import enum

    return enum.Enum


def _native_hashable(x):
    t = type(x)
    if t in (str, int, float, bool, bytes, type(None)):
        return True
    if hasattr(t, "__dataclass_fields__"):
        return False
    return True


def cmp(op, a, b):
    if op == "is":
        return sx_is(a, b)
    if op == "is not":
        r = sx_is(a, b)
        return not r
    if op == "in":
        return contains(a, b)
    if op == "not in":
        r = contains(a, b)
        if type(r) is SymBool:
            return mkbool(z3not(r.e))
        return not r
    if type(a) is str and type(b) is str and (MARK0 in a or MARK0 in b):
        a = mkstr(items_of(a))
        b = mkstr(items_of(b))
    return _OPS[op](a, b)


def sx_is(a, b):
    if type(a) is SymBool and (b is True or b is False):
        return bool(a) is b
    if type(b) is SymBool and (a is True or a is False):
        return bool(b) is a
    # a proxied type object: `type(x) is str`
    return a is b


def cmpchain(ops, *vals):
    for i, op in enumerate(ops):
        r = cmp(op, vals[i], vals[i + 1])
        if i + 1 == len(ops):
            return r
        if not r:
            return r
    return True


def binop(op, a, b):
    ta, tb = type(a), type(b)
    if op == "%" and (ta is str or ta is SymStr):
        if has_sym(b) or ta is SymStr or MARK0 in a or not isinstance(b, (str, int, tuple)):
            return percent(a, b)
        if isinstance(b, tuple):
            r = percent(a, b)
            return r
        return a % b
    if op == "+" and ta is str and tb is str:
        return a + b
    return _BIN[op](a, b)


def ibinop(op, a, b):
    ta, tb = type(a), type(b)
    if op == "%" and (ta is str or ta is SymStr):
        return percent(a, b)
    return _IBIN[op](a, b)


def getitem(o, k):
    to = type(o)
    if type(k) in SYMSET:
        if to in (list, tuple, str):
            if type(k) is SymBool:
                return o[1] if k else o[0]
            if type(k) is not SymInt:
                return o[k.real()]
            if len(o) > 64:
                return o[k.real()]
            for i in range(-len(o), len(o)):
                if k == i:
                    return getitem(o, i)
            raise IndexError("%s index out of range" % to.__name__)
        if to is dict or to is types.MappingProxyType:
            for y in o:
                if y == k:
                    return o[y]
            raise KeyError(k)
        if isinstance(o, type) and issubclass(o, _enum_type()):
            return o[k.real()]
        return o[k]
    if to is str and MARK0 in o:
        return mkstr(items_of(o))[k] if type(mkstr(items_of(o))) is str else mkstr(items_of(o))[k]
    if to is dict and not _native_hashable(k):
        for y in o:
            if y is k or y == k:
                return o[y]
        raise KeyError(k)
    return o[k]


def mkset(it):
    return SxSet(it)


def mkdict(pairs):
    d = SxDict()
    for p in pairs:
        if len(p) == 1:  # ** unpacking
            m = p[0]
            for k in m.keys():
                d[k] = m[k]
        else:
            d[p[0]] = p[1]
    return d


# ---------------------------------------------------------------- calls
def _isinstance_json(x):
    return x


def json_dumps(obj, kw):
    if not has_sym_deep(obj):
        return _json.dumps(deep_real(obj), **kw)
    _json_types(obj)
    return SymStr([Atom("json", (snapshot(obj), dict(kw)))])


def has_sym_deep(x):
    t = type(x)
    if t in SYMSET:
        return True
    if t is str:
        return MARK0 in x
    if t in (list, tuple):
        return any(has_sym_deep(i) for i in x)
    if t in (dict, SxDict):
        return any(has_sym_deep(k) or has_sym_deep(v) for k, v in x.items())
    return False


def _json_types(x):
    t = type(x)
    if t in (SymStr, SymInt, SymFloat, SymBool, str, int, float, bool, type(None)):
        return
    if isinstance(x, (list, tuple)):
        for i in x:
            _json_types(i)
        return
    if isinstance(x, dict):
        for k, v in x.items():
            _json_types(k)
            _json_types(v)
        return
    if isinstance(x, (str, int, float)):
        return
    raise TypeError("Object of type %s is not JSON serializable" % x.__class__.__name__)


def snapshot(x):
    t = type(x)
    if isinstance(x, (list, tuple)):
        return [snapshot(i) for i in x]
    if isinstance(x, dict):
        return SxDict([(_json_key(k), snapshot(v)) for k, v in x.items()])
    if t is str and MARK0 in x:
        return mkstr(items_of(x))
    return x


def _json_key(k):
    if isinstance(k, str):
        return k
    if k is True or k is False or k is None:
        return {True: "true", False: "false", None: "null"}[k]
    return sx_str(k)


def json_loads(s, kw):
    if type(s) is SymStr:
        it = s.items
        if len(it) == 1 and type(it[0]) is Atom and it[0].kind == "json":
            return snapshot(it[0].args[0])
        # leading/trailing concrete whitespace is insignificant
        core_items = [i for i in it if not (type(i) is str and i in " \n\t\r")]
        if len(core_items) == 1 and type(core_items[0]) is Atom and core_items[0].kind == "json":
            return snapshot(core_items[0].args[0])
        if kw:
            s = s.real()
        else:
            return _JsonText(list(s.chars())).document()
    return to_sx(_json.loads(s, **kw))


def json_items(tree, kw):
    """the characters json.dumps writes, free characters of texts left free"""
    if kw.get("sort_keys") or set(kw) - {"ensure_ascii", "separators", "indent"}:
        return list(_json.dumps(deep_real(tree), **kw))
    held = []

    def hide(x):
        t = type(x)
        if t is str and MARK0 in x:
            x = mkstr(items_of(x))
            t = type(x)
        if t is SymBool:
            return bool(x)
        if t in (SymInt, SymFloat, SymStr):
            held.append(x)
            return "%s%d%s" % (MARK0, len(held) - 1, MARK1)
        if isinstance(x, (list, tuple)):
            return [hide(i) for i in x]
        if isinstance(x, dict):
            return {hide(k): hide(v) for k, v in x.items()}
        return x

    out = []
    ascii_only = kw.get("ensure_ascii", True)
    text = _json.dumps(hide(tree), **dict(kw, ensure_ascii=False))
    parts = text.split(MARK0)
    for n, part in enumerate(parts):
        if n:
            at, part = part.split(MARK1, 1)
            x = held[int(at)]
            if type(x) is SymStr:
                for c in x.chars():
                    out.extend(_json_char(c, ascii_only))
            else:
                out.pop()
                part = part[1:]
                out.extend(mkstr(items_of(sx_str(x))).items if type(sx_str(x)) is not str else sx_str(x))
        if ascii_only:
            for c in part:
                out.extend(c if ord(c) < 128 else _json.dumps(c)[1:-1])
        else:
            out.extend(part)
    return concrete_items(out)


def _json_char(c, ascii_only):
    if type(c) is str:
        return list(_json.dumps(c, ensure_ascii=ascii_only)[1:-1])
    env = cur()
    odd = [(0, 31), (34, 34), (92, 92)] + ([(127, MAXCP)] if ascii_only else [])
    cond = in_ranges(c.e, odd, c.lo, c.hi)
    if cond is not False and (cond is True or env.branch(cond)):
        for k, lit in ((34, '\\"'), (92, "\\\\"), (10, "\\n")):
            if c.lo <= k <= c.hi and env.branch(c.e == k):
                return list(lit)
        return list(_json.dumps(chr(env.realize(c.e, 3, LIKELY)), ensure_ascii=ascii_only)[1:-1])
    return [c]


class _JsonText:
    """json.loads over a text with free characters"""

    def __init__(self, items):
        self.it, self.at = items, 0

    def bad(self):
        raise _json.JSONDecodeError("invalid JSON", "", 0)

    def peek(self):
        if self.at >= len(self.it):
            return ""
        c = self.it[self.at]
        if type(c) is not str:
            # a free character between the values: blanks, or else part of a value
            c = chr(cur().realize(c.e, 3, LIKELY))
            self.it[self.at] = c
        return c

    def skip(self):
        while self.peek() in (" ", "\n", "\t", "\r"):
            self.at += 1

    def take(self, s):
        for c in s:
            if self.peek() != c:
                self.bad()
            self.at += 1

    def document(self):
        v = self.value()
        self.skip()
        if self.at != len(self.it):
            self.bad()
        return v

    def value(self):
        self.skip()
        c = self.peek()
        if c == '"':
            return self.string()
        if c == "{":
            d = SxDict()
            self.at += 1
            self.skip()
            if self.peek() == "}":
                self.at += 1
                return d
            while True:
                self.skip()
                if self.peek() != '"':
                    self.bad()
                k = self.string()
                self.skip()
                self.take(":")
                d[k] = self.value()
                self.skip()
                if self.peek() == "}":
                    self.at += 1
                    return d
                self.take(",")
        if c == "[":
            out = []
            self.at += 1
            self.skip()
            if self.peek() == "]":
                self.at += 1
                return out
            while True:
                out.append(self.value())
                self.skip()
                if self.peek() == "]":
                    self.at += 1
                    return out
                self.take(",")
        for word, v in (("true", True), ("false", False), ("null", None)):
            if c == word[0]:
                self.take(word)
                return v
        n = self.at
        while n < len(self.it) and (type(self.it[n]) is not str or self.it[n] in "0123456789-+.eE"):
            n += 1
        if n == self.at:
            self.bad()
        x = mkstr(self.it[self.at : n])
        if type(x) is SymStr and any(i in (".", "e", "E") for i in x.items if type(i) is str):
            x = x.real()
        self.at = n
        if type(x) is str:
            return _json.loads(x)
        return sx_int(x)

    def string(self):
        self.at += 1
        env = cur()
        out = []
        while True:
            if self.at >= len(self.it):
                self.bad()
            c = self.it[self.at]
            if type(c) is not str:
                special = in_ranges(c.e, [(0, 31), (34, 34), (92, 92)], c.lo, c.hi)
                if special is False or not env.branch(special):
                    out.append(c)
                    self.at += 1
                    continue
                c = self.peek()
            self.at += 1
            if c == '"':
                return mkstr(out)
            if ord(c) < 32:
                self.bad()
            if c != "\\":
                out.append(c)
                continue
            e = self.peek()
            self.at += 1
            simple = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
            if e in simple:
                out.append(simple[e])
                continue
            if e != "u":
                self.bad()
            raw = ""
            while True:
                raw += "\\u"
                for _ in range(4):
                    raw += self.peek()
                    self.at += 1
                if len(raw) == 6 and raw[2:4].lower() in ("d8", "d9", "da", "db") and self.it[self.at : self.at + 2] == ["\\", "u"]:
                    self.at += 2
                    continue
                break
            out.extend(_json.loads('"' + raw + '"'))


def to_sx(x):
    if type(x) is dict:
        return SxDict([(k, to_sx(v)) for k, v in x.items()])
    if type(x) is list:
        return [to_sx(i) for i in x]
    return x


def sx_int(x=0, *a):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return mkint(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if t is SymFloat:
        return mkint(x.e)
    if t is SymStr:
        it = x.items
        if len(it) == 1 and type(it[0]) is Atom and it[0].kind == "dec" and not a:
            return mkint(it[0].args[0])
        if not a:
            v = parse_digits(x)
            if v is not None:
                return v
        return int(x.real(), *a)
    return int(x, *a)


def parse_digits(x):
    """Value of an all-ASCII-digit symbolic string, else None (decided by the solver)."""
    ch = x.chars()
    if not ch:
        return None
    if not x._all([(48, 57)], "isdigit") if False else not _ascii_digits(ch):
        return None
    tot = z3.IntVal(0)
    for c in ch:
        d = ord(c) - 48 if type(c) is str else c.e - 48
        tot = tot * 10 + d
    return mkint(tot)


def _ascii_digits(ch):
    parts = []
    for c in ch:
        if type(c) is str:
            if c not in "0123456789":
                return False
        else:
            parts.append(z3.And(c.e >= 48, c.e <= 57))
    r = z3and(parts)
    return r if isinstance(r, bool) else bool(mkbool(r))


def sx_float(x=0.0):
    t = type(x)
    if t is SymFloat:
        return x
    if t is SymInt:
        return SymFloat(x.e)
    if t is SymBool:
        return SymFloat(z3.If(x.e, z3.IntVal(1), z3.IntVal(0)))
    if t is SymStr:
        it = list(x.items)
        if it and type(it[0]) is Atom and it[0].kind == "flt" and len(it) == 1:
            return SymFloat(it[0].args[0])
        if it and type(it[0]) is Atom and it[0].kind == "dec":
            if len(it) == 1 or it[1:] == [".", "0"]:
                return SymFloat(it[0].args[0])
        ch = x.chars()
        if ch[-2:] == [".", "0"]:
            v = parse_digits(SymStr(ch[:-2])) if len(ch) > 2 else None
        else:
            v = parse_digits(SymStr(ch))
        if v is not None:
            return SymFloat(v.e) if type(v) is SymInt else float(v)
        return float(x.real())
    return float(x)


def sx_type(*a):
    if len(a) == 1:
        x = a[0]
        if type(x) in SYMSET or type(x) in (SxSet, SxDict):
            return x.__class__
        return type(x)
    return type(*a)


def sx_ord(c):
    if type(c) is SymStr:
        ch = c.chars()
        if len(ch) != 1:
            raise TypeError("ord() expected a character")
        return mkint(ch[0].e)
    return ord(c)


def sx_chr(i):
    if type(i) is SymInt:
        return SymStr([Chr(i.e)])
    return chr(i)


def strptime(s, fmt_):
    """datetime.strptime on symbolic text: the grammar of the format is a regular language, so
    failure is decided by the solver; a text that may match is concretised."""
    if type(s) is SymStr and type(fmt_) is str and s.items and type(s.items[0]) is Atom and s.items[0].kind == "iso":
        r = _strptime_iso(s, fmt_)
        if r is not None:
            return r
    if type(s) is SymStr:
        rx = {
            "Y": r"\d\d\d\d",
            "m": r"(?:1[0-2]|0[1-9]|[1-9])",
            "d": r"(?:3[0-1]|[1-2]\d|0[1-9]|[1-9]| [1-9])",
            "H": r"(?:2[0-3]|[0-1]\d|\d)",
            "M": r"(?:[0-5]\d|\d)",
            "S": r"(?:6[0-1]|[0-5]\d|\d)",
            "f": r"[0-9]{1,6}",
            "z": r"(?:[+-]\d\d:?[0-5]\d(?::?[0-5]\d(?:\.\d{1,6})?)?|(?:[Zz]))",
            "%": "%",
        }
        if type(fmt_) is str:
            out = []
            i = 0
            ok = True
            while i < len(fmt_):
                if fmt_[i] == "%":
                    d = rx.get(fmt_[i + 1])
                    if d is None:
                        ok = False
                        break
                    out.append(d)
                    i += 2
                else:
                    c = fmt_[i]  # strptime ignores case
                    out.append("[%s%s]" % (c.lower(), c.upper()) if c.isalpha() else _re.escape(c))
                    i += 1
            if ok:
                from .symre import pmatch

                m = pmatch(_strptime_pat("".join(out)), s, full=True)
                if m is None:
                    raise ValueError("time data does not match format")
        s = s.real()
    return _dt.datetime.strptime(s, deep_real(fmt_))


def _strptime_iso(s, fmt_):
    """datetime.strptime on the ISO text of a symbolic naive datetime, possibly with an offset;
    None: not one of the forms known here"""
    us = s.items[0].args[0]
    base = "%Y-%m-%dT%H:%M:%S"
    rest = s.items[1:]
    if not fmt_.startswith(base) or fmt_[len(base):] not in ("", ".%f", "%z", ".%f%z"):
        return None
    frac, zone = ".%f" in fmt_, fmt_.endswith("%z")
    if rest and type(rest[0]) is str and rest[0] in DIG + ".:T":
        return None
    if cur().branch(us % 1000000 != 0) != frac or bool(rest) != zone:
        raise ValueError("time data does not match format")
    if not zone:
        return SymDatetime(us)
    from .symre import pmatch

    off = SymStr(rest)
    if pmatch(_strptime_pat(r"[+-]\d\d:?[0-5]\d|[Zz]"), off, full=True) is None:
        if pmatch(_strptime_pat(r"(?:[+-]\d\d:?[0-5]\d(?::?[0-5]\d(?:\.\d{1,6})?)?|(?:[Zz]))"), off, full=True) is None:
            raise ValueError("time data does not match format")
        return None
    delta = _dt.datetime.strptime("2020-01-01T00:00:00" + off.real(), base + "%z").utcoffset()
    return SymDatetime(us, SymDelta._us(delta))


@functools.lru_cache(None)
def _strptime_pat(p):
    return _re.compile(p)


_STR_METHODS = frozenset(n for n in dir(str) if not n.startswith("__"))

_NATIVE_OK = frozenset(
    [
        isinstance, issubclass, len, getattr, setattr, hasattr, delattr, all, any, map, filter, zip,
        enumerate, reversed, iter, next, list, tuple, bool, callable, id, vars, range, object, property,
        staticmethod, classmethod, slice, super, min, max, sum, abs, divmod, globals, locals, sorted,
        print, round,
    ]
)

_PATTERN_TYPES = [type(_re.compile("a"))]


def _add_regex():
    try:
        import regex

        _PATTERN_TYPES.append(type(regex.compile("a")))
    except ImportError:
        pass


class _SxMeta:
    pass


def call(f, *a, **kw):
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        if getattr(f, "__module__", None) in _MODFUNCS:
            h = _MODFUNCS[f.__module__].get(f.__name__)
            if h is not None and f is h[0]:
                return h[1](*a, **kw)
        return f(*a, **kw)
    if t is type or isinstance(f, type):
        h = _TYPES.get(f)
        if h is not None:
            return h(*a, **kw)
        if f in _NATIVE_OK:
            if f is bool and a and type(a[0]) is SymBool:
                return a[0]
            return f(*a, **kw)
        if isinstance(f, _enum_meta) and len(a) == 1 and not kw and type(a[0]) in SYMSET:
            for m in f:
                if m.value == a[0]:
                    return m
            raise ValueError("%s is not a valid %s" % ("<symbolic>", f.__name__))
        if isinstance(f, _enum_meta) and len(a) == 1 and type(a[0]) is str and MARK0 in a[0]:
            return call(f, mkstr(items_of(a[0])))
        return f(*a, **kw)
    if isinstance(f, types.BuiltinFunctionType):  # builtin functions and bound builtin methods
        if f in _NATIVE_OK:
            return f(*a, **kw)
        h = _FUNCS.get(f)
        if h is not None:
            return h(*a, **kw)
        self_ = getattr(f, "__self__", None)
        if self_ is not None and not isinstance(self_, types.ModuleType):
            ts = type(self_)
            if ts is str:
                if MARK0 in self_ or any(has_sym(x) for x in a) or f.__name__ == "join":
                    if f.__name__ == "join":
                        a = (list(a[0]),)
                        if not any(has_sym(x) for x in a[0]) and MARK0 not in self_:
                            return f(*a)
                        return str_join(self_, a[0])
                    if f.__name__ == "format":
                        return str_format(self_, a, kw)
                    if f.__name__ == "format_map":
                        return str_format(self_, (), a[0])
                    return getattr(SymStr(items_of(self_)), f.__name__)(*a, **kw)
                if f.__name__ == "format":
                    return str_format(self_, a, kw)
                if f.__name__ == "translate" and a and type(a[0]) is SxDict:
                    return f(deep_real(a[0]))
                return f(*a, **kw)
            if ts in _PATTERN_TYPES_SET:
                if any(has_sym(x) for x in a) or any(has_sym(x) for x in kw.values()):
                    from .symre import pattern_call

                    try:
                        return pattern_call(self_, f.__name__, a, kw)
                    except Gap:
                        return f(*deep_real(a), **{k: deep_real(v) for k, v in kw.items()})
                return f(*a, **kw)
            if ts in (dict, types.MappingProxyType) and a and (has_sym(a[0]) or not _native_hashable(a[0])):
                return _dict_method(self_, f.__name__, a, kw)
            if ts is list:
                if f.__name__ in ("append", "extend", "insert", "pop", "reverse", "clear", "copy", "sort", "remove", "index", "count"):
                    return f(*a, **kw)
            if ts in (set, frozenset):
                return getattr(SxSet(self_), f.__name__)(*a, **kw) if f.__name__ in (
                    "union", "intersection", "difference", "issubset", "issuperset", "isdisjoint",
                    "symmetric_difference", "copy"
                ) else f(*a, **kw)
            if ts is type or isinstance(self_, type):
                # classmethod-like builtins: datetime.strptime, dict.fromkeys, ...
                if f.__name__ == "strptime":
                    return strptime(*a)
                if self_ is dict and f.__name__ == "fromkeys":
                    return SxDict.fromkeys(*a)
                if f.__name__ == "maketrans" and self_ is str:
                    return str.maketrans(*deep_real(a))
                if self_ is object or f.__name__ in ("__new__", "__setattr__", "__init_subclass__"):
                    return f(*a, **kw)
        if f is object.__setattr__:
            return f(*a, **kw)
        return _native(f, a, kw)
    if t is types.MethodWrapperType or t is types.WrapperDescriptorType:
        return f(*a, **kw)
    if t is types.MethodDescriptorType or t is types.ClassMethodDescriptorType:
        oc = f.__objclass__
        if oc is str and a and (type(a[0]) is SymStr or has_sym(a)):
            return call(getattr(SymStr(items_of(a[0])), f.__name__), *a[1:], **kw)
        if oc is set and a:
            s = a[0] if type(a[0]) is SxSet else SxSet(a[0])
            return getattr(s, f.__name__)(*a[1:], **kw)
        if oc is dict and a and type(a[0]) is SxDict:
            return getattr(a[0], f.__name__)(*a[1:], **kw)
        return f(*a, **kw)
    return f(*a, **kw)


def _native(f, a, kw):
    """An unmodelled builtin: run natively; concretise symbolic arguments it cannot take."""
    if any(has_sym(x) for x in a) or any(has_sym(x) for x in kw.values()):
        mod = getattr(f, "__module__", None)
        if mod in ("_operator", "itertools", "_functools", "_thread", "_abc"):
            return f(*a, **kw)
        a = deep_real(a)
        kw = {k: deep_real(v) for k, v in kw.items()}
    return f(*a, **kw)


def _dict_method(d, name, a, kw):
    k = a[0]
    if name == "get":
        for y in d:
            if y is k or y == k:
                return d[y]
        return a[1] if len(a) > 1 else None
    if name == "setdefault":
        for y in d:
            if y is k or y == k:
                return d[y]
        d[k] = a[1] if len(a) > 1 else None
        return d[k]
    return getattr(d, name)(deep_real(k), *a[1:], **kw)


def sx_set(*a):
    return SxSet(*a)


def sx_frozenset(*a):
    if a and not all(type(x) in (str, int) and not has_sym(x) for x in (list(a[0]) if not isinstance(a[0], (list, tuple, SxSet)) else a[0])):
        return SxSet(*a)
    return frozenset(*a)


def sx_dict(*a, **kw):
    return SxDict(*a, **kw)


def sx_bytes(*a, **kw):
    if a and type(a[0]) is SymStr:
        return a[0].encode(*a[1:], **kw)
    return bytes(*deep_real(a), **kw)


def sx_date(*a, **kw):
    return _dt.date(*deep_real(a), **{k: deep_real(v) for k, v in kw.items()})


def sx_strtype(*a, **kw):
    if len(a) == 1 and not kw:
        return sx_str(a[0])
    if a and type(a[0]) is SymBytes:
        return a[0].decode(*a[1:], **kw)
    return str(*deep_real(a), **kw)


_TYPES = {
    str: sx_strtype,
    int: sx_int,
    float: sx_float,
    type: sx_type,
    set: sx_set,
    frozenset: sx_frozenset,
    dict: sx_dict,
    bytes: sx_bytes,
}


def sx_format(v, spec=""):
    return fmt(v, "", spec)


class HashTerm:
    """The result of hash() on a value with symbolic parts: the hashed structure itself.

    Equal terms are necessarily equal hashes; that is all that is ever concluded from one."""

    def __init__(self, parts):
        self.parts = parts

    @property
    def __class__(self):
        return int

    def _c(self, o):
        if isinstance(o, int) and type(o) is not HashTerm:
            return NotImplemented
        if type(o) is not HashTerm:
            return NotImplemented
        return _hash_eq(self.parts, o.parts)

    def __eq__(self, o):
        return self._c(o)

    def __ne__(self, o):
        r = self._c(o)
        return r if r is NotImplemented else not r

    def _op(name):
        def f(self, o):
            return HashTerm((name, self, o))
        return f

    def _rop(name):
        def f(self, o):
            return HashTerm((name, o, self))
        return f

    for _n, _o in (("xor", "^"), ("add", "+"), ("mul", "*"), ("mod", "%"), ("or", "|"), ("and", "&"), ("sub", "-")):
        locals()["__%s__" % _n] = _op(_o)
        locals()["__r%s__" % _n] = _rop(_o)
    del _n, _o

    __hash__ = None


def _hash_eq(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not _hash_eq(x, y):
                return False
        return True
    if type(a) is HashTerm and type(b) is HashTerm:
        return _hash_eq(a.parts, b.parts)
    if isinstance(a, tuple) or isinstance(b, tuple) or type(a) is HashTerm or type(b) is HashTerm:
        return False
    r = a == b
    return bool(r)


def _gen_hash(cls):
    """the dataclass-generated __hash__ (not rewritten source)"""
    h = cls.__hash__
    code = getattr(h, "__code__", None)
    return code is not None and code.co_name == "__hash__" and code.co_filename == "<string>"


def hash_parts(x):
    t = type(x)
    if t in SYMSET:
        return x
    if t is tuple:
        return ("tuple",) + tuple(hash_parts(i) for i in x)
    if t is HashTerm:
        return x
    fs = getattr(t, "__dataclass_fields__", None)
    if fs is not None and t.__hash__ is not None and t.__hash__ is not object.__hash__:
        if _gen_hash(t):
            # the dataclass that generated it: the first in the MRO that defines this __hash__
            owner = next(c for c in t.__mro__ if "__hash__" in c.__dict__ and c.__dict__["__hash__"] is t.__hash__)
            ofs = owner.__dict__.get("__dataclass_fields__", fs)
            return ("tuple",) + tuple(
                hash_parts(getattr(x, f.name)) for f in ofs.values()
                if (f.hash if f.hash is not None else f.compare)
            )
        r = t.__hash__(x)
        return r
    hash(x)  # raises TypeError when unhashable
    return x


def sx_hash(x):
    from .containers import _hashable

    _hashable(x)
    r = hash_parts(x)
    return r if type(r) is HashTerm else HashTerm(r)


class LruModel:
    """functools.lru_cache / functools.cache: a mapping decided by == (no eviction below maxsize)."""

    def __init__(self, fn, maxsize, typed):
        self.fn = fn
        self.maxsize = maxsize
        self.typed = typed
        self.cache = SxDict()
        functools.update_wrapper(self, fn)

    def __call__(self, *a, **kw):
        key = (a, tuple(sorted(kw.items(), key=lambda i: i[0])))
        if self.typed:
            key = key + (tuple(sx_type(x) for x in a),)
        if self.maxsize == 0:
            return self.fn(*a, **kw)
        i = self.cache._find(key)
        if i >= 0:
            return self.cache._v[i]
        r = self.fn(*a, **kw)
        if self.maxsize is not None and len(self.cache) >= self.maxsize:
            del self.cache[self.cache._k[0]]
        self.cache[key] = r
        return r

    def __get__(self, obj, cls=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        self.cache.clear()

    def cache_info(self):
        return (0, 0, self.maxsize, len(self.cache))


def sx_lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return LruModel(maxsize, 128, False)
    return lambda fn: LruModel(fn, maxsize, typed)


def sx_cache(fn):
    return LruModel(fn, None, False)


def deco(d):
    if d is functools.lru_cache:
        return sx_lru_cache
    if d is functools.cache:
        return sx_cache
    return d


_FUNCS = {
    repr: sx_repr,
    format: sx_format,
    ord: sx_ord,
    chr: sx_chr,
    hash: sx_hash,
}

import enum as _enum

_enum_meta = type(_enum.Enum)

_add_regex()
_PATTERN_TYPES_SET = frozenset(_PATTERN_TYPES)


def _mod_dumps(obj, **kw):
    return json_dumps(obj, kw)


def _mod_loads(s, **kw):
    return json_loads(s, kw)


def _re_fn(name):
    def f(pattern, *a, **kw):
        if any(has_sym(x) for x in a):
            flags = kw.pop("flags", 0)
            p = _re.compile(pattern, flags) if not isinstance(pattern, _re.Pattern) else pattern
            if name in ("match", "search", "fullmatch", "findall", "finditer") and len(a) > 1:
                p = _re.compile(pattern, a[1])
                a = a[:1]
            from .symre import pattern_call

            try:
                return pattern_call(p, name, a, kw)
            except Gap:
                return getattr(p, name)(*deep_real(a), **kw)
        return getattr(_re, name)(pattern, *a, **kw)

    return f


def _re_escape(s):
    if has_sym(s):
        out = []
        special = {chr(i) for i in _re._special_chars_map} if isinstance(next(iter(_re._special_chars_map)), int) else set(_re._special_chars_map)
        for c in SymStr(items_of(s)).chars():
            from .values import in_set

            h = in_set(c, special)
            if h if isinstance(h, bool) else cur().branch(h):
                out.append("\\")
            out.append(c)
        return mkstr(out)
    return _re.escape(s)


import copy as _copy

_MODFUNCS = {
    "json": {"dumps": (_json.dumps, _mod_dumps), "loads": (_json.loads, _mod_loads)},
    "functools": {"lru_cache": (functools.lru_cache, sx_lru_cache), "cache": (functools.cache, sx_cache)},
    "re": dict(
        [(n, (getattr(_re, n), _re_fn(n))) for n in ("match", "search", "fullmatch", "findall", "finditer", "sub", "split")]
        + [("escape", (_re.escape, _re_escape))]
    ),
}


def enter(name):
    s = core.CUR.sched if core.CUR is not None else None
    if s is not None:
        s(name)
