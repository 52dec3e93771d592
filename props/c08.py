"""Names are accepted exactly when they are valid."""
from props.lib import AliasedExpression, Column, CurriedFunction, Entity, Function, Identifier, Lambda, Storage, query

from sx.uni import WORD

from snuba_sdk.request import Request

OUTSIDE = ("names longer than the stated number of arbitrary characters (plus 12 ASCII characters, 41 letters, and 1-2 (3) arbitrary characters in up to 600 letters); entity aliases and "
           "relationship names, which may be any non-empty text")


def chars(text):
    return tuple((ord(c), ord(c)) for c in sorted(set(text)))


LETTER = ((65, 90), (97, 122))
DIGIT = ((48, 57),)
WORDCH = WORD
HEADCH = LETTER + chars("_")
COLCH = WORDCH + chars(".:/@")
FUNCH = WORDCH + chars("().,+'\": []-")
ALIASCH = LETTER + DIGIT + chars("_.+*/:-[]()@")
FLAGCH = LETTER + DIGIT + chars("_.+*/:-[]")
IDENTCH = LETTER + DIGIT + chars("_")
NOBRACKET = ((0, 90), (92, 92), (94, 0x10FFFF))


def every(ctx, s, ranges):
    return ctx.both(*[ctx.member(c, ranges) for c in s]) if len(s) else True


def col_ok(ctx, s):
    """a letter or underscore, then word characters or . : / @, then optionally one [key]"""
    n = len(s)
    if n == 0:
        return False
    parts = [ctx.both(ctx.member(s[0], HEADCH), every(ctx, s[1:], COLCH))]
    for b in range(1, n - 1):
        parts.append(ctx.both(ctx.member(s[0], HEADCH), every(ctx, s[1:b], COLCH), s[b] == "[",
                              every(ctx, s[b + 1 : n - 1], NOBRACKET), s[n - 1] == "]"))
    return ctx.either(*parts)


def head_tail(first, rest, least):
    def ok(ctx, s):
        if len(s) < least:
            return False
        return ctx.both(every(ctx, s[:1], first), every(ctx, s[1:], rest))

    return ok


def req(dataset="events", app_id="app"):
    return Request(dataset, app_id, query())


def refuse_all(mk):
    def fn(s):
        r = mk(s)
        errs = []
        for use in (r.validate, r.to_dict, r.serialize, r.print):
            try:
                use()
            except Exception as e:
                errs.append(e)
        if errs and len(errs) != 4:
            raise AssertionError("the ways to use a request disagree")
        if errs:
            raise errs[0]
        return r

    return fn


KINDS = {
    "column": (Column, lambda o: o.name, col_ok),
    "function": (lambda s: Function(s, []), lambda o: o.function, head_tail(LETTER, FUNCH, 2)),
    "curried": (lambda s: CurriedFunction(s, [1], []), lambda o: o.function, head_tail(LETTER, FUNCH, 2)),
    "function alias": (lambda s: Function("foo", [Column("a")], s), lambda o: o.alias, head_tail(ALIASCH, ALIASCH, 1)),
    "curried alias": (lambda s: CurriedFunction("foo", [1], [], s), lambda o: o.alias, head_tail(ALIASCH, ALIASCH, 1)),
    "column alias": (lambda s: AliasedExpression(Column("a"), s), lambda o: o.alias, head_tail(ALIASCH, ALIASCH, 1)),
    "entity": (Entity, lambda o: o.name, head_tail(HEADCH, HEADCH, 1)),
    "storage": (Storage, lambda o: o.name, head_tail(HEADCH, HEADCH, 1)),
    "identifier": (Identifier, lambda o: o.name, head_tail(HEADCH, IDENTCH, 1)),
    "lambda first": (lambda s: Lambda([s, "y"], Function("foo", [])), lambda o: o.identifiers[0], head_tail(HEADCH, IDENTCH, 1)),
    "lambda last": (lambda s: Lambda(("x", "y", s), Function("foo", [])), lambda o: o.identifiers[2], head_tail(HEADCH, IDENTCH, 1)),
    "dataset": (refuse_all(lambda s: req(dataset=s)), lambda o: o.dataset, head_tail(FLAGCH, FLAGCH, 1)),
    "app": (refuse_all(lambda s: req(app_id=s)), lambda o: o.app_id, head_tail(FLAGCH, FLAGCH, 1)),
}


def accept(ctx, kind, n, alphabet=None):
    """a name of n arbitrary characters is accepted if and only if it is valid, and kept as it is"""
    make, get, ok = KINDS[kind]
    s = ctx.str("name", n, alphabet)
    want = ok(ctx, s)
    try:
        o = make(s)
    except Exception as e:
        ctx.observe("refused", True)
        ctx.check(type(e).__module__.startswith("snuba_sdk"), "a bad name is refused with a foreign error")
        ctx.check(ctx.no(want), "a valid name is refused")
        ctx.reach("refused")
        return
    ctx.observe("refused", False)
    ctx.check(want, "an invalid name is accepted")
    ctx.check(get(o) == s, "the name is changed")
    ctx.reach("accepted")


def far(ctx, kind, pads, n):
    """n arbitrary characters anywhere in a very long name: at the start, in the middle, at the end, in a key"""
    make, get, ok = KINDS[kind]
    p = ctx.choice("pad", pads)
    where = ctx.choice("where", ["start", "middle", "end"] + (["key"] if kind == "column" else []))
    x = ctx.str("name", n)
    a, z = {"start": ("", "a"), "middle": ("a", "a"), "end": ("a", ""), "key": ("a[k", "]")}[where]
    # one padding letter stands for all of them: a letter is allowed everywhere, and repeating it changes nothing
    want = ok(ctx, a + x + z)
    s = {"start": lambda: x + "a" * p, "middle": lambda: "a" * p + x + "a" * p, "end": lambda: "a" * p + x, "key": lambda: "a[" + "k" * p + x + "]"}[where]()
    try:
        o = make(s)
    except Exception as e:
        ctx.check(type(e).__module__.startswith("snuba_sdk"), "a bad name is refused with a foreign error")
        ctx.check(ctx.no(want), "a valid name is refused")
        ctx.reach("refused")
        return
    ctx.check(want, "an invalid name is accepted")
    ctx.check(get(o) == s, "the name is changed")
    ctx.reach("accepted")


def valid(ctx, kind, n):
    """long valid names are accepted"""
    make, get, ok = KINDS[kind]
    s = ctx.str("first", 1, LETTER) + ctx.str("name", n, HEADCH)
    o = make(s)
    ctx.observe("name", get(o))
    ctx.check(get(o) == s, "the name is changed")
    ctx.reach("accepted")


def other(ctx, kind):
    """values that are not text are refused"""
    make, get, ok = KINDS[kind]
    pool = [None, 5, 0, 1.5, True, False, b"events", ["a"], ("a",), [], {}, Column("a"), Entity("events"), Function("foo", [])]
    v = ctx.choice("v", pool)
    if v is None and "alias" in kind:
        return
    try:
        make(v)
    except Exception as e:
        ctx.check(type(e).__module__.startswith("snuba_sdk"), "a name that is not text is refused with a foreign error")
        ctx.reach("refused")
        return
    ctx.fail("a name that is not text is accepted")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for k in KINDS:
        for n in range(0, (7 if deep else 5)):
            two = n > 1 or n == 1 and "function" not in k and k != "curried" or n == 1 and "alias" in k
            out.append(("accept/%s/%d" % (k, n), accept, {"kind": k, "n": n},
                        {"reach": (["refused", "accepted"] if n and two else ["refused"]), "bounds": "every text of %d characters" % n, "cost": n * n + 1}))
        for n in (8, 12):
            out.append(("ascii/%s/%d" % (k, n), accept, {"kind": k, "n": n, "alphabet": ((0, 127),)},
                        {"reach": ["refused", "accepted"], "bounds": "every ASCII text of %d characters" % n, "cost": 20}))
        out.append(("long/%s" % k, valid, {"kind": k, "n": 40}, {"reach": ["accepted"], "bounds": "41 letters and underscores", "cost": 5}))
        for n in (1, 2, 3) if deep else (1, 2):
            out.append(("far/%s/%d" % (k, n), far, {"kind": k, "n": n, "pads": [30, 100, 300] + ([1100] if deep else [])},
                        {"reach": ["refused", "accepted"], "bounds": "%d arbitrary characters in names of up to 300 (1100) letters" % n, "cost": 20}))
        out.append(("other/%s" % k, other, {"kind": k}, {"reach": ["refused"], "bounds": "a pool of other types"}))
    return out
