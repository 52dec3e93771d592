"""Concrete mode: the same harness functions, run by plain CPython on the untouched code.

Used to replay every counterexample before it is reported and to validate the engine on the
witness of every explored path."""
from __future__ import annotations

import datetime as dt

from .lex import LexError, lex

EPOCH = dt.datetime(1970, 1, 1)


class AssumeFailed(BaseException):
    pass


class ReplayFailed(BaseException):
    pass


class Kill(BaseException):
    pass


def duet(traced, a, b, at_a, at_b):
    """two threads of control with one switch each; traced(fn, hit) is fn calling hit(i, name) at its i-th function entry"""
    import threading

    back, resume = threading.Event(), threading.Event()
    box = {}

    def hit_b(c, name):
        if not box.get("b#switched") and not box.get("a#over") and at_b(c, name):
            box["b#switched"] = True
            back.set()
            resume.wait()
            if box.get("kill"):
                raise Kill()

    def body():
        try:
            box["b"] = traced(b, hit_b)()
        except Kill:
            pass
        except BaseException as x:
            box["b#raised"] = x
        back.set()

    def start():
        threading.stack_size(128 << 20)
        box["thread"] = threading.Thread(target=body, daemon=True)
        box["thread"].start()
        back.wait()

    def hit_a(c, name):
        if "thread" not in box and at_a(c, name):
            start()
            if "b#raised" in box:
                raise box["b#raised"]

    try:
        ra = traced(a, hit_a)()
    except BaseException:
        box["kill"] = True
        resume.set()
        if "thread" in box:
            box["thread"].join()
        raise
    box["a#over"] = True
    if "thread" not in box:
        start()
    resume.set()
    box["thread"].join()
    if "b#raised" in box:
        raise box["b#raised"]
    return ra, box["b"]


class NativeCtx:
    symbolic = False

    def __init__(self, witness, known=(), state=None):
        self.state = state
        self.w = witness
        self.obs = []
        self.reached = set()
        self.known = known

    def _get(self, name):
        if name not in self.w:
            raise AssumeFailed("no value for %r" % name)
        return self.w[name]

    def int(self, name, lo=None, hi=None):
        return self._get(name)

    def bool(self, name):
        return self._get(name)

    def float(self, name, lo=None, hi=None):
        return float(self._get(name))

    def str(self, name, n, alphabet=None):
        return "".join(map(chr, self._get(name)))

    def bytes(self, name, n, alphabet=None):
        return self.str(name, n).encode()

    def text(self, name, maxlen, alphabet=None, minlen=0):
        n = self.choice(name + "#len", list(range(minlen, maxlen + 1)))
        return self.str(name, n, alphabet)

    def choice(self, name, options):
        return options[self._get(name)]

    def datetime(self, name, aware=False):
        d = EPOCH + dt.timedelta(microseconds=self._get(name))
        if aware:
            d = d.replace(tzinfo=dt.timezone(dt.timedelta(microseconds=self._get(name + "#off"))))
        return d

    def assume(self, cond):
        if not cond:
            raise AssumeFailed("assumption")

    def check(self, cond, msg, key=None):
        if not cond:
            if key is not None and key in self.known:
                raise AssumeFailed("known finding " + key)
            raise ReplayFailed(msg if key is None else "%s [%s]" % (msg, key))

    def fail(self, msg, key=None):
        self.check(False, msg, key)

    def observe(self, label, value):
        self.obs.append([label, canon(value)])

    def reach(self, tag):
        self.reached.add(tag)

    def tokens(self, text, quote="'"):
        toks = lex(list(text), lambda c, s: c in s, quote=quote)
        return [(k, "".join(v)) for k, v in toks]

    def matches(self, text, expected, quote="'"):
        """text lexes to the expected token list"""
        try:
            got = self.tokens(text, quote)
        except LexError:
            return False
        return len(got) == len(expected) and all(
            g[0] == e[0] and g[1] == e[1] for g, e in zip(got, expected)
        )

    def both(self, *conds):
        return all(bool(c) for c in conds)

    def either(self, *conds):
        return any(bool(c) for c in conds)

    def no(self, c):
        return not c

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def implies(self, a, b):
        return (not a) or bool(b)

    def member(self, c, ranges):
        """every character of c lies in one of the code point ranges"""
        return all(any(a <= ord(x) <= b for a, b in ranges) for x in c)

    def fresh(self):
        """forget everything the SDK's modules remember: the state right after importing them"""
        self.state.restore()

    def interleave(self, a, b, n, m):
        """run a() up to its k-th SDK function call (k < n, or to its end), then b() up to its l-th (l < m,
        or to its end), then the rest of a(), then the rest of b()"""
        import sys

        k, l = self._get("sched#k"), self._get("sched#l") if m else -1

        def traced(fn, hit):
            count = [0]

            def tracer(frame, event, arg):
                code = frame.f_code
                if event == "call" and "/snuba_sdk/" in code.co_filename and code.co_name not in SKIP and not code.co_flags & 0x20:
                    count[0] += 1
                    hit(count[0] - 1, code.co_name)

            def go():
                sys.setprofile(tracer)
                try:
                    return fn()
                finally:
                    sys.setprofile(None)

            return go

        def point(who, name):
            self.observe("switch", [who, name])

        return duet(traced, a, b, lambda c, name: c == k and (point("first", name) or True), lambda c, name: c == l and (point("second", name) or True))


SKIP = ("<genexpr>", "<lambda>", "<listcomp>", "<dictcomp>", "<setcomp>", "<module>")


def canon(v):
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "f%r" % v
    if isinstance(v, str):
        return "s" + v
    if isinstance(v, bytes):
        return "b" + v.decode("utf-8", "replace")
    if isinstance(v, (list, tuple)):
        return [canon(i) for i in v]
    if isinstance(v, dict):
        return {"d": sorted([[canon(k), canon(x)] for k, x in v.items()], key=repr)}
    if isinstance(v, (set, frozenset)):
        return {"s": sorted([canon(x) for x in v], key=repr)}
    if isinstance(v, dt.datetime):
        return "t" + v.isoformat()
    return "o" + type(v).__name__


def run_native(fn, kwargs, witness, known=(), state=None):
    """-> (status, message, observations); status: ok, fail, assume"""
    ctx = NativeCtx(witness, known, state)
    try:
        fn(ctx, **kwargs)
    except AssumeFailed as e:
        return "assume", str(e), ctx.obs
    except ReplayFailed as e:
        return "fail", str(e), ctx.obs
    except RecursionError:
        return "fail", "RecursionError", ctx.obs
    except Exception as e:  # an exception the harness does not allow is a violation
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        at = "; ".join("%s:%d" % (f.filename, f.lineno) for f in tb[-3:])
        return "fail", "unexpected %s: %s (%s)" % (type(e).__name__, e, at), ctx.obs
    return "ok", "", ctx.obs
