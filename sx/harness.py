"""Symbolic mode: context object given to harness functions, runner, evidence."""
from __future__ import annotations

import datetime as _dt
import hashlib
import importlib
import json
import os
import subprocess
import sys
import threading
import time
import traceback

import z3

from . import core, loader
from .core import Budget, CheckFailed, Engine, Gap, PathAbort
from .containers import SxDict, SxSet
from .lex import LexError, lex
from .native import EPOCH, canon, duet
from .rt import deep_real, is_sym
from .state import State
from .values import (
    MARK0,
    Atom,
    Chr,
    SymBool,
    SymBytes,
    SymDatetime,
    SymFloat,
    SymInt,
    SymStr,
    in_ranges,
    in_set,
    items_of,
    mkbool,
    mkstr,
    str_eq,
    z3and,
    z3not,
    z3or,
)

# excluded from symbolic characters: surrogates (not encodable) and the two engine markers
DEFAULT_ALPHABET = ((0, 0xD7FF), (0xE000, 0xF8EF), (0xF8F2, 0x10FFFF))
ASCII = ((0, 127),)
DT_MIN = int((_dt.datetime(1900, 1, 1) - EPOCH).total_seconds()) * 10**6
DT_MAX = int((_dt.datetime(2200, 1, 1) - EPOCH).total_seconds()) * 10**6


def _b(c):
    """z3 condition (or bool) of a truth value, without forking when possible."""
    if type(c) is SymBool:
        return c.e
    if c is True or c is False:
        return c
    return bool(c)


class SymCtx:
    symbolic = True

    def __init__(self, engine, case):
        self.e = engine
        self.vars = {}  # name -> (kind, terms)
        self.obs = []
        self.reached = set()
        self.case = case
        self.findings = []

    def _new(self, name, kind, terms):
        if name in self.vars:
            raise RuntimeError("duplicate symbolic variable %r" % name)
        self.vars[name] = (kind, terms)

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self._new(name, "int", v)
        if lo is not None:
            self.e.declare(v >= lo)
        if hi is not None:
            self.e.declare(v <= hi)
        return SymInt(v)

    def float(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self._new(name, "int", v)
        self.e.declare(v >= (-(2**53) if lo is None else lo))
        self.e.declare(v <= (2**53 if hi is None else hi))
        return SymFloat(v)

    def bool(self, name):
        v = z3.Bool(name)
        self._new(name, "bool", v)
        return SymBool(v)

    def str(self, name, n, alphabet=None):
        al = alphabet or DEFAULT_ALPHABET
        if type(al) is str:
            al = tuple((ord(c), ord(c)) for c in sorted(set(al)))
        lo, hi = min(a for a, _ in al), max(b for _, b in al)
        vs = []
        for k in range(n):
            v = z3.Int("%s@%d" % (name, k))
            c = in_ranges(v, al, -1, 0x110000)
            self.e.declare(c)
            vs.append(Chr(v, lo, hi))
        self._new(name, "str", vs)
        return SymStr(list(vs)) if vs else ""

    def bytes(self, name, n, alphabet=None):
        return SymBytes(self.str(name, n, alphabet))

    def text(self, name, maxlen, alphabet=None, minlen=0):
        n = self.choice(name + "#len", list(range(minlen, maxlen + 1)))
        return self.str(name, n, alphabet)

    def choice(self, name, options):
        """structure: a solver selector, one feasible value per path"""
        v = z3.Int(name)
        n = len(options)
        k = self.e.choose(n)
        self._new(name, "int", v)
        self.e.declare(v == k)
        self.e.model = None
        return options[k]

    def datetime(self, name, aware=False):
        v = z3.Int(name)
        self._new(name, "int", v)
        self.e.declare(z3.And(v >= DT_MIN, v <= DT_MAX))
        off = None
        if aware:
            off = z3.Int(name + "#off")
            self._new(name + "#off", "int", off)
            m = z3.Int(name + "#offmin")
            self.e.declare(z3.And(m > -24 * 60, m < 24 * 60, off == m * 60000000))
        return SymDatetime(v, off)

    def assume(self, cond):
        c = _b(cond)
        self.e.assume(c)

    def check(self, cond, msg, key=None):
        c = _b(cond)
        try:
            self.e.require(c, msg)
        except CheckFailed:
            if key is not None and key in self.case.known:
                self.findings.append((key, self.witness(self.e.last_model)))
                self.e.assume(c)
                return
            if key is not None:
                msg = "%s [%s]" % (msg, key)
            raise CheckFailed(msg, None) from None

    def fail(self, msg, key=None):
        self.check(False, msg, key)

    def observe(self, label, value):
        self.obs.append((label, value))

    def reach(self, tag):
        self.reached.add(tag)

    def _lex(self, text, quote="'"):
        e = self.e

        def isin(c, s):
            r = in_set(c, s)
            return r if isinstance(r, bool) else e.branch(r)

        return lex(items_of(text), isin, lambda c: type(c) is Atom, quote)

    def tokens(self, text, quote="'"):
        return [(k, mkstr(v)) for k, v in self._lex(text, quote)]

    def matches(self, text, expected, quote="'"):
        """condition: text lexes to the expected token list"""
        try:
            got = self._lex(text, quote)
        except LexError:
            return False
        if len(got) != len(expected):
            return False
        parts = []
        for (k, v), (ek, evv) in zip(got, expected):
            if k != ek:
                return False
            r = str_eq(v, items_of(evv))
            if r is False:
                return False
            parts.append(r)
        return mkbool(z3and(parts))

    def both(self, *conds):
        return mkbool(z3and([_b(c) for c in conds]))

    def either(self, *conds):
        return mkbool(z3or([_b(c) for c in conds]))

    def no(self, c):
        return mkbool(z3not(_b(c)))

    def iff(self, a, b):
        a, b = _b(a), _b(b)
        if a is True:
            return mkbool(b)
        if a is False:
            return mkbool(z3not(b))
        if b is True:
            return mkbool(a)
        if b is False:
            return mkbool(z3not(a))
        return mkbool(a == b)

    def implies(self, a, b):
        return self.either(self.no(a), b)

    def ite(self, c, a, b):
        c = _b(c)
        if c is True:
            return a
        if c is False:
            return b
        if self.e.branch(c):
            return a
        return b

    def member(self, c, ranges):
        parts = []
        for x in SymStr(items_of(c)).chars():
            if type(x) is str:
                parts.append(any(a <= ord(x) <= b for a, b in ranges))
            else:
                parts.append(in_ranges(x.e, ranges, x.lo, x.hi))
        return mkbool(z3and(parts))

    def fresh(self):
        self.state.restore()

    def interleave(self, a, b, n, m):
        hits = {}

        def traced(fn, hit):
            count = [0]

            def enter(name):
                count[0] += 1
                hit(count[0] - 1, name.rsplit(".", 1)[-1])

            def go():
                hits[threading.get_ident()] = enter
                return fn()

            return go

        def entries(fn, limit):
            """number of function entries of fn on its own"""
            if limit == 0:
                return 0
            total = [0]

            def hit(c, name):
                total[0] += 1

            self.state.restore()
            self.e.sched = lambda name: hits[threading.get_ident()](name)
            try:
                traced(fn, hit)()
            finally:
                self.e.sched = None
                self.state.restore()
            return min(limit, total[0])

        k = self.choice("sched#k", list(range(entries(a, n) + 1)))
        l = self.choice("sched#l", list(range(entries(b, m) + 1)))
        if m == 0:
            l = -1

        def at(var, who):
            def decide(c, name):
                if c == var:
                    self.observe("switch", [who, name])
                    return True
                return False
            return decide

        self.e.sched = lambda name: hits[threading.get_ident()](name)
        try:
            return duet(traced, a, b, at(k, "first"), at(l, "second"))
        finally:
            self.e.sched = None

    # -- model evaluation
    def witness(self, m):
        out = {}

        def num(t):
            v = m.eval(t, model_completion=True)
            return v.as_long()

        for name, (kind, t) in self.vars.items():
            if kind == "int":
                out[name] = num(t)
            elif kind == "bool":
                out[name] = z3.is_true(m.eval(t, model_completion=True))
            else:
                out[name] = [num(c.e) for c in t]
        return out


def ev(x, m):
    """Value of x under the model (no solver interaction)."""
    t = type(x)

    def num(e):
        if type(e) is int:
            return e
        return m.eval(e, model_completion=True).as_long()

    if t is SymBool:
        return z3.is_true(m.eval(x.e, model_completion=True))
    if t is SymInt:
        return num(x.e)
    if t is SymFloat:
        return float(num(x.e))
    if t is SymStr:
        return ev_items(x.items, m)
    if t is SymBytes:
        s = x.s
        return (ev(s, m) if type(s) is SymStr else s).encode()
    if t is SymDatetime:
        d = EPOCH + _dt.timedelta(microseconds=num(x.us))
        if x.off is not None:
            d = d.replace(tzinfo=_dt.timezone(_dt.timedelta(microseconds=num(x.off))))
        return d
    if t is str:
        return ev_items(items_of(x), m) if MARK0 in x else x
    if t is list:
        return [ev(i, m) for i in x]
    if t is tuple:
        return tuple(ev(i, m) for i in x)
    if t in (dict, SxDict):
        return {ev(k, m): ev(v, m) for k, v in x.items()}
    if t in (SxSet, set, frozenset):
        return {ev(i, m) for i in x}
    return x


def ev_items(items, m):
    out = []
    for i in items:
        if type(i) is str:
            out.append(i)
        elif type(i) is Chr:
            out.append(chr(m.eval(i.e, model_completion=True).as_long()))
        else:
            out.append(ev_atom(i, m))
    return "".join(out)


def ev_atom(a, m):
    def num(e):
        return e if type(e) is int else m.eval(e, model_completion=True).as_long()

    k = a.kind
    if k == "dec":
        return str(num(a.args[0]))
    if k == "flt":
        return str(float(num(a.args[0])))
    if k == "iso":
        return ev(SymDatetime(a.args[0]), m).isoformat()
    if k == "isoz":
        return ev(SymDatetime(a.args[0], a.args[1]), m).isoformat()
    if k.startswith("isox:"):
        _, sep, spec = k.split(":")
        return ev(SymDatetime(*a.args), m).isoformat(sep=sep, timespec=spec)
    if k == "repr":
        return repr(ev(a.args[0], m))
    if k == "json":
        return json.dumps(ev(a.args[0], m), **a.args[1])
    raise Gap("eval " + k)


class Native:
    """Persistent native interpreter used for replays and witness validation."""

    def __init__(self, here, repo):
        self.cmd = ["/opt/venv/bin/python", os.path.join(here, "replay.py"), "--serve"]
        self.env = dict(os.environ, SX_REPO=repo, PYTHONHASHSEED="0")
        self.p = None

    def ask(self, q):
        for attempt in range(2):
            if self.p is None or self.p.poll() is not None:
                self.p = subprocess.Popen(
                    self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                    stderr=subprocess.DEVNULL, env=self.env, text=True,
                )
            try:
                self.p.stdin.write(json.dumps(q) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError):
                pass
            self.p = None
        return ["error", "native interpreter failed", []]

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(2)
            except Exception:
                self.p.kill()
            self.p = None


class Case:
    """name, function, kwargs and options of one harness"""

    def __init__(self, module, tier, tup, known):
        self.module = module
        self.tier = tier
        self.name, self.fn, self.kwargs = tup[0], tup[1], tup[2]
        self.opts = tup[3] if len(tup) > 3 else {}
        self.known = known


def run_case(case, here, repo, timeout_s, validate=True):
    eng = Engine(timeout_s=timeout_s)
    core.set_current(eng)
    native = Native(here, repo)
    res = {
        "case": case.name, "violations": [], "known": {}, "gaps": [], "spurious": [],
        "mismatch": [], "validated": 0, "samples": [], "reached": {}, "observed_paths": 0,
    }
    sys.setrecursionlimit(6000)

    def ask(w):
        return native.ask({"module": case.module, "tier": case.tier, "case": case.name,
                           "witness": w, "known": list(case.known)})

    state = State()

    def note(ctx):
        """count the known findings met on this path, confirming the first natively"""
        for k, w in ctx.findings:
            if k not in res["known"]:
                st, msg, obs = ask(w)
                if st != "assume" or "known finding" not in msg:
                    res["spurious"].append({"message": "known finding " + k, "witness": w, "native": [st, msg]})
            res["known"][k] = res["known"].get(k, 0) + 1

    def run_path(e):
        state.restore()
        ctx = SymCtx(e, case)
        ctx.state = state
        failure = None
        try:
            case.fn(ctx, **case.kwargs)
        except CheckFailed as f:
            failure = f.message
        except (PathAbort, Budget):
            note(ctx)
            raise
        except Gap as g:
            res["gaps"].append(str(g))
            return
        except RecursionError:
            failure = "RecursionError"
        except Exception as x:
            tb = traceback.extract_tb(x.__traceback__)
            at = "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])
            failure = "unexpected %s: %s (%s)" % (type(x).__name__, x, at)
        if failure is None or failure.startswith(("unexpected", "Recursion")):
            m = e.get_model()
        else:
            # re-derive the model of the negated assertion
            m = e.last_model
        w = ctx.witness(m)
        note(ctx)
        if failure is not None:
            st, msg, obs = ask(w)
            if st == "fail" and not res["violations"]:
                native.close()  # confirm the first one in a fresh interpreter
                st, msg, obs = ask(w)
            if st == "fail":
                if len(res["violations"]) < 5:
                    res["violations"].append({"message": msg, "symbolic": failure, "witness": w})
                res["nviol"] = res.get("nviol", 0) + 1
                if res["nviol"] >= (1 if os.environ.get("SX_FAILFAST") else 3):
                    raise Budget("enough violations")
            elif st == "assume" and "known finding" in msg:
                pass
            else:
                if len(res["spurious"]) < 10:
                    res["spurious"].append({"message": failure, "witness": w, "native": [st, msg]})
                res["nspur"] = res.get("nspur", 0) + 1
            return
        for t in ctx.reached:
            res["reached"][t] = res["reached"].get(t, 0) + 1
        if validate:
            st, msg, obs = ask(w)
            if st == "fail":
                # the real code fails on this witness although the symbolic run passed
                if len(res["violations"]) < 5:
                    res["violations"].append({"message": msg, "symbolic": "(missed)", "witness": w})
                res["nviol"] = res.get("nviol", 0) + 1
                res["mismatch"].append({"missed": msg, "witness": w})
            elif st == "ok":
                try:
                    mine = [[l, canon(ev(v, m))] for l, v in ctx.obs]
                except Exception as x:
                    mine = ["evaluation error %r" % x]
                mine = json.loads(json.dumps(mine))
                if mine == obs:
                    res["validated"] += 1
                else:
                    if len(res["mismatch"]) < 5:
                        res["mismatch"].append({"witness": w, "symbolic": mine, "native": obs})
                    res["nmis"] = res.get("nmis", 0) + 1
                if len(res["samples"]) < 2 and obs:
                    res["samples"].append({"case": case.name, "witness": show(w), "observed": obs[:3]})
            else:
                if len(res["mismatch"]) < 5:
                    res["mismatch"].append({"witness": w, "native": [st, msg]})
                res["nmis"] = res.get("nmis", 0) + 1

    t0 = time.time()
    try:
        complete = eng.explore(run_path)
    except BaseException as x:  # engine failure: reported, never an alarm
        complete = False
        res["gaps"].append("engine: %s" % "".join(traceback.format_exception(x))[-1500:])
    native.close()
    core.set_current(None)
    state.restore()  # the next case of this process starts from the modules as imported
    want = case.opts.get("reach", ())
    res.update(
        complete=complete and not res["gaps"], paths=eng.paths, aborted=eng.aborted,
        queries=eng.queries, sat=eng.sat, unsat=eng.unsat, unknown=eng.unknown,
        assertions=eng.assertions, trivial=eng.trivial_assertions, forks=eng.forks,
        concretised=eng.concretised, solver_s=round(eng.solver_s, 3),
        wall_s=round(time.time() - t0, 3), bounds=case.opts.get("bounds", ""),
        vacuous=[t for t in want if t not in res["reached"]],
    )
    return res


def show(w):
    return {k: ("".join(map(chr, v)) if isinstance(v, list) else v) for k, v in w.items()}
