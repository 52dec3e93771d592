"""Regular expressions over symbolic text.

Patterns are parsed with the standard library's own regex parser.  Whether a match exists is
one solver condition (all ways of matching at once); positions and groups, when asked for, are
computed by a backtracking matcher with Python's priorities, forking on character tests.
"""
from __future__ import annotations

import re
import re._constants as C
import re._parser as P

import z3

from .core import Gap, cur
from .values import (
    MAXCP,
    Atom,
    SymStr,
    ch_eq,
    concrete_items,
    in_ranges,
    items_of,
    mkbool,
    mkstr,
    z3and,
    z3not,
    z3or,
)

_ranges_cache = {}


def _collect(pred):
    out = []
    start = None
    for c in range(MAXCP + 1):
        if pred(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, MAXCP))
    return out


def _everything():
    if "all" not in _ranges_cache:
        _ranges_cache["all"] = "".join(map(chr, range(MAXCP + 1)))
    return _ranges_cache["all"]


def class_ranges(name):
    if name not in _ranges_cache:
        _ranges_cache[name] = _collect(lambda ch: getattr(ch, name)())
    return _ranges_cache[name]


def category_ranges(mod, cat, ascii_only):
    key = (mod, cat, ascii_only)
    if key not in _ranges_cache:
        letter = {
            "CATEGORY_DIGIT": r"\d",
            "CATEGORY_SPACE": r"\s",
            "CATEGORY_WORD": r"\w",
        }[cat]
        if mod == "regex":
            import regex as m
        else:
            m = re
        p = m.compile(letter, m.A if ascii_only else 0)
        _ranges_cache[key] = _collect(lambda ch: p.match(ch) is not None)
    return _ranges_cache[key]


def complement(ranges):
    out = []
    at = 0
    for a, b in sorted(ranges):
        if a > at:
            out.append((at, a - 1))
        at = max(at, b + 1)
    if at <= MAXCP:
        out.append((at, MAXCP))
    return out


class Pat:
    def __init__(self, pattern, flags, mod):
        self.mod = mod
        self.pattern = pattern
        self.flags = flags
        self.tree = P.parse(pattern, flags)
        self.ngroups = self.tree.state.groups
        self.names = dict(self.tree.state.groupdict)
        fl = self.tree.state.flags
        self.icase = bool(fl & re.I)
        self.multiline = bool(fl & re.M)
        self.dotall = bool(fl & re.S)
        self.ascii = bool(fl & re.A)

    # -- character sets
    def cat(self, c):
        name = str(c)
        neg = "NOT_" in name
        base = name.replace("NOT_", "").replace("UNI_", "").replace("LOC_", "")
        r = category_ranges(self.mod, base, self.ascii)
        return complement(r) if neg else r

    def set_ranges(self, av):
        out = []
        neg = False
        for op, a in av:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                out.append((a, a))
            elif op is C.RANGE:
                out.append(tuple(a))
            elif op is C.CATEGORY:
                out.extend(self.cat(a))
            else:
                raise Gap("regex set op %s" % op)
        if self.icase and out:
            # the cases a letter has are the regex engine's affair (k also is the Kelvin sign): ask it
            m = __import__(self.mod)
            p = m.compile("[%s]" % "".join("\\U%08x-\\U%08x" % r for r in _merge(out)), m.I | (m.A if self.ascii else 0))
            out = [(ord(c), ord(c)) for c in p.findall(_everything())]
        out = _merge(out)
        return complement(out) if neg else out

    def ranges(self, op, av):
        key = (id(self), id(av) if isinstance(av, list) else av, op)
        r = _ranges_cache.get(key)
        if r is None:
            if op is C.LITERAL:
                r = self.set_ranges([(C.LITERAL, av)])
            elif op is C.NOT_LITERAL:
                r = complement(self.set_ranges([(C.LITERAL, av)]))
            elif op is C.IN:
                r = self.set_ranges(av)
            elif op is C.ANY:
                r = [(0, MAXCP)] if self.dotall else complement([(10, 10)])
            else:
                raise Gap("regex op %s" % op)
            _ranges_cache[key] = r
        return r

    def test(self, op, av, c):
        r = self.ranges(op, av)
        if type(c) is str:
            o = ord(c)
            return any(a <= o <= b for a, b in r)
        return in_ranges(c.e, r, c.lo, c.hi)

    def at(self, av, ch, i):
        n = len(ch)
        if av in (C.AT_BEGINNING_STRING,):
            return i == 0
        if av is C.AT_BEGINNING:
            if not self.multiline or i == 0:
                return i == 0
            return ch_eq(ch[i - 1], "\n")
        if av is C.AT_END_STRING:
            return i == n
        if av is C.AT_END:
            if i == n:
                return True
            if self.multiline:
                return ch_eq(ch[i], "\n")
            if i == n - 1:
                return ch_eq(ch[i], "\n")
            return False
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = category_ranges(self.mod, "CATEGORY_WORD", self.ascii)

            def isw(k):
                if k < 0 or k >= n:
                    return False
                c = ch[k]
                if type(c) is str:
                    return any(a <= ord(c) <= b for a, b in w)
                return in_ranges(c.e, w, c.lo, c.hi)

            a, b = isw(i - 1), isw(i)
            x = z3or([z3and([a, z3not(b)]), z3and([z3not(a), b])])
            return x if av is C.AT_BOUNDARY else z3not(x)
        raise Gap("regex anchor %s" % av)

    # -- existence of a match: {end: condition}
    def ends(self, seq, ch, i):
        states = {i: True}
        for op, av in seq:
            nxt = {}
            for p, cond in states.items():
                for q, c2 in self._one(op, av, ch, p).items():
                    nxt.setdefault(q, []).append(z3and([cond, c2]))
            states = {}
            for q, cs in nxt.items():
                c = z3or(cs)
                if c is not False:
                    states[q] = c
            if not states:
                return {}
        return states

    def _one(self, op, av, ch, i):
        n = len(ch)
        if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
            if i >= n:
                return {}
            c = self.test(op, av, ch[i])
            return {} if c is False else {i + 1: c}
        if op is C.AT:
            c = self.at(av, ch, i)
            return {} if c is False else {i: c}
        if op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Gap("regex scoped flags")
            return self.ends(av[3], ch, i)
        if op is C.BRANCH:
            out = {}
            for alt in av[1]:
                for q, c in self.ends(alt, ch, i).items():
                    out.setdefault(q, []).append(c)
            return {q: z3or(cs) for q, cs in out.items()}
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            out = {}
            states = {i: True}
            k = 0
            if lo == 0:
                out[i] = [True]
            seen_limit = n - i + lo + 1
            while states and (hi is C.MAXREPEAT or k < hi) and k < seen_limit:
                nxt = {}
                for p, cond in states.items():
                    for q, c2 in self.ends(sub, ch, p).items():
                        if q == p and k >= lo:
                            continue
                        nxt.setdefault(q, []).append(z3and([cond, c2]))
                states = {q: z3or(cs) for q, cs in nxt.items()}
                states = {q: c for q, c in states.items() if c is not False}
                k += 1
                if k >= lo:
                    for q, c in states.items():
                        out.setdefault(q, []).append(c)
            return {q: z3or(cs) for q, cs in out.items()}
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Gap("regex lookbehind")
            c = z3or(list(self.ends(sub, ch, i).values()))
            if op is C.ASSERT_NOT:
                c = z3not(c)
            return {} if c is False else {i: c}
        raise Gap("regex op %s" % op)

    # -- backtracking, Python priorities
    def bt(self, seq, k, ch, i, groups):
        if k == len(seq):
            yield i, groups
            return
        op, av = seq[k]
        if op in (C.LITERAL, C.NOT_LITERAL, C.IN, C.ANY):
            if i < len(ch) and mkbool(self.test(op, av, ch[i])):
                yield from self.bt(seq, k + 1, ch, i + 1, groups)
        elif op is C.AT:
            if mkbool(self.at(av, ch, i)):
                yield from self.bt(seq, k + 1, ch, i, groups)
        elif op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Gap("regex scoped flags")
            g, sub = av[0], av[3]
            for e, gr in self.bt(sub, 0, ch, i, groups):
                if g is not None:
                    gr = dict(gr)
                    gr[g] = (i, e)
                yield from self.bt(seq, k + 1, ch, e, gr)
        elif op is C.BRANCH:
            for alt in av[1]:
                for e, gr in self.bt(alt, 0, ch, i, groups):
                    yield from self.bt(seq, k + 1, ch, e, gr)
        elif op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, sub = av
            greedy = op is C.MAX_REPEAT
            for e, gr in self._rep(sub, lo, hi, greedy, 0, ch, i, groups):
                yield from self.bt(seq, k + 1, ch, e, gr)
        elif op in (C.ASSERT, C.ASSERT_NOT):
            d, sub = av
            if d < 0:
                raise Gap("regex lookbehind")
            hit = next(self.bt(sub, 0, ch, i, groups), None)
            if (hit is not None) == (op is C.ASSERT):
                yield from self.bt(seq, k + 1, ch, i, hit[1] if hit else groups)
        else:
            raise Gap("regex op %s" % op)

    def _rep(self, sub, lo, hi, greedy, count, ch, i, groups):
        can_more = hi is C.MAXREPEAT or count < hi
        if count < lo:
            for e, gr in self.bt(sub, 0, ch, i, groups):
                yield from self._rep(sub, lo, hi, greedy, count + 1, ch, e, gr)
            return
        if greedy:
            if can_more:
                for e, gr in self.bt(sub, 0, ch, i, groups):
                    if e == i:
                        continue
                    yield from self._rep(sub, lo, hi, greedy, count + 1, ch, e, gr)
            yield i, groups
        else:
            yield i, groups
            if can_more:
                for e, gr in self.bt(sub, 0, ch, i, groups):
                    if e == i:
                        continue
                    yield from self._rep(sub, lo, hi, greedy, count + 1, ch, e, gr)


def _merge(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


_pats = {}


def get_pat(p):
    k = id(p)
    r = _pats.get(k)
    if r is None:
        mod = type(p).__module__
        mod = "regex" if "regex" in mod else "re"
        flags = p.flags
        if mod == "regex":
            import regex

            f = 0
            for a, b in ((regex.I, re.I), (regex.M, re.M), (regex.S, re.S), (regex.X, re.X), (regex.A, re.A)):
                if flags & a:
                    f |= b
            flags = f
        r = (Pat(p.pattern, flags, mod), p)
        _pats[k] = r
    return r[0]


class SymMatch:
    """Match object whose extent is computed on demand."""

    def __init__(self, pat, pattern, text, ch, start, full=False, fixed=None):
        self.pat = pat
        self.re = pattern
        self.string = text
        self._ch = ch
        self._start = start
        self._full = full
        self._res = fixed

    def _get(self):
        if self._res is None:
            for e, gr in self.pat.bt(list(self.pat.tree), 0, self._ch, self._start, {}):
                if self._full and e != len(self._ch):
                    continue
                self._res = (e, gr)
                break
            else:
                from .core import PathAbort

                raise PathAbort()
        return self._res

    def _idx(self, g):
        if isinstance(g, str):
            return self.pat.names[g]
        return g

    def span(self, g=0):
        g = self._idx(g)
        e, gr = self._get()
        if g == 0:
            return (self._start, e)
        return gr.get(g, (-1, -1))

    def start(self, g=0):
        return self._start if g == 0 else self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self.span(g)
            out.append(None if a < 0 else mkstr(self._ch[a:b]))
        return out[0] if len(out) == 1 else tuple(out)

    __getitem__ = group

    def groups(self, default=None):
        out = []
        for g in range(1, self.pat.ngroups):
            v = self.group(g)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        out = {}
        for n in self.pat.names:
            v = self.group(n)
            out[n] = default if v is None else v
        return out

    @property
    def lastindex(self):
        e, gr = self._get()
        return max(gr) if gr else None

    def __bool__(self):
        return True


def _text(s):
    return concrete_items(items_of(s))


def pmatch(p, text, pos=0, endpos=None, full=False):
    pat = get_pat(p)
    ch = _text(text)
    if endpos is not None:
        ch = ch[:endpos]
    if pos > len(ch):
        pos = len(ch)
    ends = pat.ends(list(pat.tree), ch, pos)
    if full:
        cond = ends.get(len(ch), False)
    else:
        cond = z3or(list(ends.values()))
    if not mkbool(cond):
        return None
    return SymMatch(pat, p, text, ch, pos, full)


def psearch(p, text, pos=0, endpos=None):
    pat = get_pat(p)
    ch = _text(text)
    if endpos is not None:
        ch = ch[:endpos]
    for i in range(pos, len(ch) + 1):
        if mkbool(z3or(list(pat.ends(list(pat.tree), ch, i).values()))):
            return SymMatch(pat, p, text, ch, i)
    return None


def pfinditer(p, text, pos=0, endpos=None):
    ch = _text(text)
    i = pos
    out = []
    while i <= len(ch):
        m = psearch(p, mkstr(ch) if ch else "", i)
        if m is None or type(m) is not SymMatch:
            if m is None:
                break
        a, b = m.span()
        out.append(m)
        i = b if b > a else b + 1
    return out


def pfindall(p, text, pos=0, endpos=None):
    out = []
    for m in pfinditer(p, text, pos, endpos):
        n = m.pat.ngroups
        if n == 1:
            out.append(m.group())
        elif n == 2:
            g = m.group(1)
            out.append("" if g is None else g)
        else:
            out.append(m.groups(""))
    return out


def psub(p, repl, text, count=0):
    from .values import SymStr as _S

    ch = _text(text)
    out = []
    at = 0
    n = 0
    for m in pfinditer(p, text):
        if count and n >= count:
            break
        a, b = m.span()
        out.extend(ch[at:a])
        if callable(repl) and not isinstance(repl, str):
            out.extend(items_of(repl(m)))
        else:
            if type(repl) is str and "\\" in repl:
                i = 0
                while i < len(repl):
                    c = repl[i]
                    if c == "\\" and i + 1 < len(repl):
                        d = repl[i + 1]
                        if d.isdigit():
                            g = m.group(int(d))
                            out.extend(items_of("" if g is None else g))
                            i += 2
                            continue
                        if d == "g":
                            j = repl.index(">", i)
                            name = repl[i + 3 : j]
                            g = m.group(int(name) if name.isdigit() else name)
                            out.extend(items_of("" if g is None else g))
                            i = j + 1
                            continue
                        esc = {"n": "\n", "t": "\t", "r": "\r", "\\": "\\"}.get(d)
                        if esc is None:
                            raise Gap("sub template")
                        out.append(esc)
                        i += 2
                        continue
                    out.append(c)
                    i += 1
            else:
                out.extend(items_of(repl))
        at = b
        n += 1
    out.extend(ch[at:])
    return mkstr(out)


def psplit(p, text, maxsplit=0):
    ch = _text(text)
    out = []
    at = 0
    for m in pfinditer(p, text):
        if maxsplit and len(out) >= maxsplit:
            break
        a, b = m.span()
        out.append(mkstr(ch[at:a]))
        out.extend(m.groups())
        at = b
    out.append(mkstr(ch[at:]))
    return out


def pattern_call(p, name, args, kw):
    args = [a.real() if hasattr(a, "real") and not isinstance(a, (int, str)) else a for a in args]
    args = [int(a) if type(a).__name__ == "SymInt" else a for a in args]
    if name == "match":
        return pmatch(p, *args, **kw)
    if name == "fullmatch":
        return pmatch(p, *args, full=True, **kw)
    if name == "search":
        return psearch(p, *args, **kw)
    if name == "findall":
        return pfindall(p, *args, **kw)
    if name == "finditer":
        return iter(pfinditer(p, *args, **kw))
    if name == "sub":
        return psub(p, *args, **kw)
    if name == "split":
        return psplit(p, *args, **kw)
    raise Gap("pattern method " + name)
