"""Literals of a legacy body keep their value and type."""
import re
from datetime import datetime, timedelta

from props.c21 import convert, leg
from props.lib import T

from snuba_sdk.legacy import json_to_snql

OUTSIDE = ("texts of more than 4 symbolic characters (dates: one or two symbolic characters in a date-time text, or the text of a symbolic instant); a lone quote; "
           "date-time texts with unpadded fields or non-ASCII digits (either reading is accepted); offsets outside the pool; a fraction of a second together with an offset in from_date and to_date (refused)")

# left hand sides of a condition: (specification, whether date-like text stays text)
LHS = {
    "timestamp": (("col", "timestamp"), False),
    "tags": (("col", "tags[a.b]"), True),
    "release": (("col", "release"), True),
    "ifNull tags": (("fn", "ifNull", [("col", "tags[x]"), ("s", "")], None), True),
    "ifNull release": (("fn", "ifNull", [("col", "release"), ("s", "")], "al"), True),
    "ifNull tags none": (("fn", "ifNull", [("col", "tags[x]"), ("s", "none")], None), True),
    "ifNull tags number": (("fn", "ifNull", [("col", "tags[y]"), ("i", 0)], None), True),
    "ifNull release column": (("fn", "ifNull", [("col", "release"), ("col", "other")], None), True),
    "ifNull second": (("fn", "ifNull", [("col", "other"), ("col", "release")], None), False),
    "ifNull three": (("fn", "ifNull", [("col", "release"), ("s", ""), ("s", "x")], None), True),
    "coalesce": (("fn", "coalesce", [("col", "release"), ("s", "")], None), False),
    "ifNull other": (("fn", "ifNull", [("col", "when"), ("s", "")], None), False),
    "function of a column": (("fn", "toStartOfDay", [("col", "timestamp")], None), False),
    "alike": (("col", "releases"), False),
    "subscript": (("col", "contexts[tags]"), False),
    "tags_key": (("col", "tags.key"), False),
}
# where a right hand side occurs: (number of layers of lists around it)
PLACES = ["value", "list", "second", "nested", "alternative", "function", "having", "long"]


def place(ctx, where, lhs, raw, spec):
    """a body with the raw value in that place, and its description"""
    body, d = {"selected_columns": ["zz"]}, {"select": [("col", "zz")]}
    key, dk = ("having", "having") if where == "having" else ("conditions", "where")
    c, v, op = None, raw, "="
    if where == "list":
        v, spec, op = [raw], ("tup", [spec]), "IN"
    elif where == "second":
        v, spec, op = ["x", raw, 5], ("tup", [("s", "x"), spec, ("i", 5)]), "NOT IN"
    elif where == "long":
        v, spec, op = ["x%d" % k for k in range(8)] + [raw, 5], ("tup", [("s", "x%d" % k) for k in range(8)] + [spec, ("i", 5)]), "IN"
    elif where == "nested":
        v, spec, op = [[1, raw], "y"], ("tup", [("tup", [("i", 1), spec]), ("s", "y")]), "IN"
    enc = [leg(lhs), op, v]
    c = ("c", lhs, op, spec)
    if where == "alternative":
        enc, c = [["other", ">", 1], enc], ("or", [("c", ("col", "other"), ">", ("i", 1)), c])
    elif where == "function":
        enc, c = [["or", [enc, "k"]], "=", 1], ("c", ("fn", "or", [("fn", "equals", [lhs, spec], None), ("col", "k")], None), "=", ("i", 1))
    body[key] = [enc]
    d[dk] = [c]
    return body, d


def run(ctx, body, d):
    convert(ctx, body, "events", T("(events)"), d)


# ------------------------------------------------------------------ texts
def plain(ctx, where, n, alphabet=None):
    """any text that is not a date"""
    lhs, _ = LHS[ctx.choice("lhs", ["timestamp", "tags", "ifNull release"])]
    v = ctx.str("v", n, alphabet)
    run(ctx, *place(ctx, where, lhs, v, ("s", v)))


def quoted(ctx, n, where, alphabet=None):
    """single-quoted text in a function, dates included"""
    v = ctx.choice("date", ["", "2020-01-01T00:00:00", "2020-01-01T00:00:00+01:00", "release", "'", "''"]) if n is None else ctx.str("v", n, alphabet)
    f = ("fn", "ff", [("col", "c"), ("s", v)], None)
    body, d = {"selected_columns": ["zz"]}, {"select": [("col", "zz")]}
    if where == "select":
        body["selected_columns"], d["select"] = [leg(f)], [f]
    elif where == "aggregation":
        body["aggregations"], d["select"] = [leg(f) + ["al"]], [("fn", "ff", f[2], "al"), ("col", "zz")]
    elif where == "deep":
        g = ("fn", "gg", [f, ("s", v)], None)
        body["groupby"], d["groupby"] = [leg(g)], [g]
    else:
        body["conditions"], d["where"] = [[leg(f), "=", 1]], [("c", f, "=", ("i", 1))]
    run(ctx, body, d)


def far(ctx, where, n):
    """one arbitrary character anywhere in a long text"""
    c = ctx.str("v", 1)
    pad = ctx.choice("pad", ["x", "ab ", "2020-01-01 ", "it''s+"])
    p = (pad * n)[:n]
    at = ctx.choice("at", ["start", "middle", "end"])
    v = {"start": lambda: c + p, "middle": lambda: p + c + p, "end": lambda: p + c}[at]()
    if where == "quoted":
        f = ("fn", "ff", [("col", "c"), ("s", v)], "al")
        return run(ctx, {"selected_columns": [leg(f)]}, {"select": [f]})
    lhs, _ = LHS[ctx.choice("lhs", ["timestamp", "tags"])]
    run(ctx, *place(ctx, where, lhs, v, ("s", v)))


def isquoted(v):
    return len(v) > 1 and v.startswith("'") and v.endswith("'")


def names(ctx, n, where):
    """bare text is a column of that name, or refused; never text"""
    v = ctx.str("v", n, "ab9_.:'")
    q = isquoted(v)
    ctx.assume(v != "'")
    if q:
        s = ("s", v[1:-1])
    else:
        s = ("wcol", v)
    body, d = {"selected_columns": ["zz"]}, {"select": [("col", "zz")]}
    if where == "argument":
        body["selected_columns"], d["select"] = [["ff", [v]]], [("fn", "ff", [s], None)]
    elif where == "bare argument":
        body["selected_columns"], d["select"] = [["ff", v]], [("fn", "ff", [s], None)]
    elif where == "select":
        ctx.assume(not q)
        body["selected_columns"], d["select"] = [v], [s]
    elif where == "groupby":
        ctx.assume(not q)
        body["groupby"], d["groupby"] = v, [s]
    else:
        ctx.assume(not q)
        body["conditions"], d["where"] = [[v, "=", "x"]], [("c", s, "=", ("s", "x"))]
    ok = q or ctx.both(ctx.member(v[0], [(97, 98), (95, 95)]), *[c != "'" for c in v])
    try:
        json_to_snql(body, "events")
    except Exception as e:
        ctx.check(type(e).__module__.startswith("snuba_sdk"), "a foreign error")
        ctx.check(ctx.no(ok), "a valid name is refused")
        ctx.reach("refused")
        return
    ctx.check(ok, "a name the query language does not have is accepted")
    run(ctx, body, d)


# ------------------------------------------------------------------ numbers and the like
def numbers(ctx, where):
    kind = ctx.choice("kind", ["int", "float", "frac", "true", "false", "null"])
    s = {"int": lambda: ("i", ctx.int("v")), "float": lambda: ("f", ctx.float("v", -1000, 1000)), "frac": lambda: ("cf", 0.125), "true": lambda: ("t", True),
         "false": lambda: ("t", False), "null": lambda: ("n",)}[kind]()
    raw = None if kind == "null" else s[1]
    if where == "argument":
        run(ctx, {"selected_columns": [["ff", ["c", raw, ["gg", [raw]]]]]}, {"select": [("fn", "ff", [("col", "c"), s, ("fn", "gg", [s], None)], None)]})
        return
    if where == "tuple argument":
        run(ctx, {"selected_columns": [["ff", [(raw, "x")]]]}, {"select": [("fn", "ff", [("tup", [s, ("s", "x")])], None)]})
        return
    lhs, _ = LHS[ctx.choice("lhs", ["timestamp", "tags", "ifNull release"])]
    run(ctx, *place(ctx, where, lhs, raw, s))


# ------------------------------------------------------------------ instants
OFFSETS = [("", None), ("+00:00", 0), ("+0000", 0), ("+05:30", 330), ("-08:00", -480), ("-0330", -210), ("+1400", 840), ("Z", 0)]


def instants(ctx, where, lhs):
    """the text of any instant"""
    when = ctx.datetime("when")
    txt, off = ctx.choice("off", OFFSETS)
    raw = when.isoformat() + txt
    l, stays = LHS[lhs]
    whole = when.microsecond == 0
    if stays or (off is not None and not whole):
        s = ("s", raw)
    else:
        s = ("dt", when if off is None else when - timedelta(minutes=off))
    ctx.assume(ctx.both(when > datetime(1971, 1, 1), when < datetime(2099, 1, 1)))
    run(ctx, *place(ctx, where, l, raw, s))


MOMENTS = [datetime(2020, 1, 1), datetime(2020, 2, 29), datetime(2020, 2, 29, 23, 59, 59), datetime(2021, 12, 31, 23, 59, 59, 999999), datetime(2021, 6, 15, 12), datetime(1999, 12, 31, 0, 0, 1),
           datetime(2021, 3, 28, 2, 30), datetime(2000, 1, 1, 0, 30), datetime(2020, 10, 10, 10, 10, 10, 10), datetime(1970, 1, 1, 0, 0, 0, 1), datetime(2038, 1, 19, 3, 14, 8), datetime(1901, 1, 1), datetime(2150, 5, 5, 5, 5, 5)]
ZONES = OFFSETS + [("+00:30", 30), ("-00:30", -30), ("+12:00", 720), ("-12:00", -720), ("+10:00", 600), ("+01:00", 60), ("-0100", -60), ("+00:01", 1), ("-2359", -1439), ("+23:59", 1439)]


def moments(ctx, where):
    """instants at the edges of days, months and years, with more offsets"""
    when = ctx.choice("when", MOMENTS)
    txt, off = ctx.choice("off", ZONES)
    raw = when.isoformat() + txt
    utc = when if off is None else when - timedelta(minutes=off)
    if where in ("from_date", "to_date"):
        ctx.assume(off is None or when.microsecond == 0)
        run(ctx, {"selected_columns": ["zz"], where: raw}, {"select": [("col", "zz")], "where": [("c", ("col", "timestamp"), ">=" if where == "from_date" else "<", ("dt", utc))]})
        return
    l, stays = LHS[ctx.choice("lhs", ["timestamp", "tags", "ifNull release", "ifNull other"])]
    run(ctx, *place(ctx, where, l, raw, ("s", raw) if stays or (off is not None and when.microsecond) else ("dt", utc)))


def bounds(ctx):
    """from_date and to_date"""
    lo, hi = ctx.datetime("lo"), ctx.datetime("hi")
    ctx.assume(ctx.both(lo > datetime(1971, 1, 1), lo < datetime(2099, 1, 1), hi > datetime(1971, 1, 1), hi < datetime(2099, 1, 1)))
    body, wh = {"selected_columns": ["zz"]}, []
    for key, when, op in (("from_date", lo, ">="), ("to_date", hi, "<")):
        txt, off = ctx.choice(key, OFFSETS)
        if off is not None:
            ctx.assume(when.microsecond == 0)
        body[key] = when.isoformat() + txt
        wh.append(("c", ("col", "timestamp"), op, ("dt", when if off is None else when - timedelta(minutes=off))))
    run(ctx, body, {"select": [("col", "zz")], "where": wh})


CANON = re.compile(r"(\d\d\d\d)-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6})|([+-])(\d\d):?(\d\d)|(Z))?", re.A)
LENIENT = re.compile(r"(\d\d\d\d)-([ \d]?\d)-([ \d]?\d)[Tt](\d?\d):(\d?\d):(\d?\d)(?:\.(\d{1,6})|([+-])(\d\d):?(\d\d)|(Z|z))?", re.A)


def instant(m):
    """the naive UTC datetime a match stands for, or None"""
    y, mo, d, h, mi, s, f, sign, oh, om, _ = m.groups()
    try:
        v = datetime(int(y), int(mo), int(d), int(h), int(mi), int(s), int((f or "0").ljust(6, "0")))
    except ValueError:
        return None
    if sign:
        if int(om) > 59 or int(oh) > 23:
            return None
        v = v - timedelta(hours=int(oh), minutes=int(om)) * (1 if sign == "+" else -1)
    return v


def lenient(text):
    """the instant of a text whose fields are not padded or whose offset has odd colons, or None"""
    head, plus, zone = text.partition("+")
    m = LENIENT.fullmatch(head + plus + zone.replace(":", ""))
    return instant(m) if m else None


SPECIAL = "0123456789Tt.:+-Zz "
BASES = ["2020-02-28T23:59:59", "2019-12-31T00:30:59.5", "2020-06-30T12:00:00+01:30", "2021-11-10T09:08:07Z"]


def near(ctx, base, at, lhs):
    """a date-time text with one character replaced by any other"""
    pos = ctx.choice("at", at)
    c = ctx.str("c", 1, [(32, 126)])
    txt = base[:pos] + c + base[pos + 1:]
    known = None
    for ch in SPECIAL:
        if c == ch:
            known = base[:pos] + ch + base[pos + 1:]
            break
    l, stays = LHS[lhs]
    want = [("s", txt)]
    if known is not None and not stays:
        txt = known
        m = CANON.fullmatch(known)
        v = instant(m) if m else None
        if v is not None:
            want = [("dt", v)]
        else:
            want = [("s", known)]
            v = lenient(known)
            if v is not None:
                want.append(("dt", v))
    judge(ctx, l, txt, want)


def judge(ctx, lhs, txt, want):
    """the condition compares with one of the readings"""
    body, _ = place(ctx, "value", lhs, txt, want[0])
    got = json_to_snql(body, "events").to_dict()["query"]
    from props.c05 import wants
    ok = False
    for s in want:
        _, d = place(ctx, "value", lhs, txt, s)
        ok = ctx.either(ok, ctx.matches(got, wants(T("(events)"), d)))
    ctx.check(ok, "a literal is not what the legacy body says")
    ctx.reach("converted")


def longer(ctx, base):
    """a date-time text with one more character somewhere, or one less"""
    pos = ctx.choice("at", list(range(len(base) + 1)))
    if ctx.choice("less", [False, True]):
        ctx.assume(pos < len(base))
        c, txt = None, base[:pos] + base[pos + 1:]
    else:
        c = ctx.str("c", 1, [(32, 126)])
        txt = base[:pos] + c + base[pos:]
    known = txt if c is None else None
    if c is not None:
        for ch in SPECIAL:
            if c == ch:
                known = base[:pos] + ch + base[pos:]
                break
    want = [("s", txt)]
    if known is not None:
        txt = known
        m = CANON.fullmatch(known)
        v = instant(m) if m else None
        want = [("s", known)] if v is None else [("dt", v)]
        if v is None:
            v = lenient(known)
            if v is not None:
                want.append(("dt", v))
    judge(ctx, LHS["timestamp"][0], txt, want)


POOL = ["2020-01-01", "2020-01-01 00:00:00", "2020-01-01T00:00", "20200101T000000", "2020-W01-1T00:00:00", " 2020-01-01T00:00:00", "2020-01-01T00:00:00 ",
        "2020-01-01T00:00:00.1234567", "2020-01-01T00:00:00.", "2020-01-01T00:00:00.5Z", "2020-01-01T00:00:00.5+00:00", "2021-02-29T00:00:00", "2020-13-01T00:00:00",
        "2020-01-01T24:00:00", "2020-01-01T23:60:00", "1.2.3", "12345", "1e5", "now()", "NULL", "True", "+", "++", "a+b:c+d", "1+02:30", "+05:30", "00:00:00", "tags[a]",
        "toDateTime('x')", "\\", "it's", "1234567890123456789", "12345678901234567890", "550e8400-e29b-41d4-a716-446655440000", "550e8400e29b41d4a716446655440000", "127.0.0.1", "::1", "a@b.co",
        "https://a.b/c?d=e&f=1.5#g", '{"a": [1]}', "[1, 2]", "(1)", "0x1F", "1_000", "-5", "0", "00", "1.0", ".5", "-0", "inf", "nan", "%a%", "*", "01/02/2020", "1577836800", "1577836800.5",
        "Wed, 01 Jan 2020 00:00:00 GMT", "null", "None", "false", " ", "\n", "\t", "a,b", "a  b", "A", "events.name", "2020-01-01T00:00:00\n", "\u0661\u0662", "x" * 40, "ab " * 100, "deadbeef", "v1.2.3-rc+5", "1d", "500ms"]


def pool(ctx, where):
    """texts that a lenient reader would take for something else"""
    lhs, _ = LHS[ctx.choice("lhs", ["timestamp", "tags"])]
    v = ctx.choice("v", POOL)
    run(ctx, *place(ctx, where, lhs, v, ("s", v)))


def cases(tier):
    deep = tier == "thorough"
    R = ["converted"]
    out = []
    for w in PLACES:
        for n in (0, 1, 2) + ((3,) if deep else ()):
            out.append(("plain/%s/%d" % (w, n), plain, {"where": w, "n": n}, {"reach": R, "bounds": "%d characters" % n, "cost": 5 + 10 ** n // 4}))
        out.append(("plus/%s" % w, plain, {"where": w, "n": 4 if not deep else 5, "alphabet": "+:-a"}, {"reach": R, "bounds": "4 (5) of + : - a", "cost": 60}))
        out.append(("numbers/%s" % w, numbers, {"where": w}, {"reach": R, "bounds": "symbolic", "cost": 5}))
        out.append(("pool/%s" % w, pool, {"where": w}, {"reach": R, "bounds": "a pool of texts", "cost": 10}))
    for w in ("argument", "tuple argument"):
        out.append(("numbers/%s" % w, numbers, {"where": w}, {"reach": R, "bounds": "symbolic", "cost": 5}))
    for w in ("value", "list", "function", "quoted"):
        for n in (19, 40, 120) + ((1000,) if deep else ()):
            out.append(("far/%s/%d" % (w, n), far, {"where": w, "n": n}, {"reach": R, "bounds": "one arbitrary character in texts of up to %d" % (2 * n + 1), "cost": 20}))
    for w in ("select", "aggregation", "deep", "condition"):
        for n in (None, 1, 2) + ((3,) if deep else ()):
            out.append(("quoted/%s/%s" % (w, n), quoted, {"n": n, "where": w}, {"reach": R, "bounds": "%s characters" % n, "cost": 30 if n else 5}))
    for w in ("argument", "bare argument", "select", "groupby", "condition"):
        for n in (1, 2, 3) + ((4,) if deep else ()):
            out.append(("names/%s/%d" % (w, n), names, {"n": n, "where": w}, {"reach": R, "bounds": "%d of letters, digits, dots, colons and quotes" % n, "cost": 10 * n}))
    for w in PLACES:
        for k in LHS if deep or w in ("value", "list", "function") else ("timestamp", "tags", "ifNull release"):
            out.append(("instants/%s/%s" % (w, k), instants, {"where": w, "lhs": k}, {"reach": R, "bounds": "every instant 1971-2098, 8 offsets", "cost": 10}))
    for w in ("value", "second", "function", "from_date", "to_date"):
        out.append(("moments/%s" % w, moments, {"where": w}, {"reach": R, "bounds": "13 instants, 18 offsets", "cost": 20}))
    out.append(("bounds", bounds, {}, {"reach": R, "bounds": "every pair of instants, 8 offsets each", "cost": 40}))
    for b in BASES:
        for h in (0, 1):
            at = list(range(len(b)))[h::2]
            out.append(("near/%s/%d" % (b, h), near, {"base": b, "at": at, "lhs": "timestamp"}, {"reach": R, "bounds": "one arbitrary printable character", "cost": 40}))
        out.append(("near/tags/%s" % b, near, {"base": b, "at": [0, len(b) - 1], "lhs": "tags"}, {"reach": R, "bounds": "one arbitrary printable character", "cost": 10}))
        out.append(("longer/%s" % b, longer, {"base": b}, {"reach": R, "bounds": "one character more or less", "cost": 60}))
    return out
