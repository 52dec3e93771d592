"""Non-string literals in SnQL: null, booleans, numbers, dates, date-times, arrays and tuples."""
from datetime import date, datetime, timedelta, timezone, tzinfo

from props.lib import (
    HEAD, Column, Condition, CurriedFunction, Function, Op, T, W, S, build, check_text, commas, query, ref,
)

OUTSIDE = ("floats: every integral value up to 2**53 and a pool of fractional and extreme values; dates: a pool; "
           "date-times: 1900 to 2200, every microsecond, every fixed offset of whole minutes, one seasonal zone")
ASSUMPTIONS = ["ISO text of a date-time is an injective function of its fields (datetime.isoformat is trusted)"]


class Seasonal(tzinfo):
    """a zone whose offset depends on the date"""

    def utcoffset(self, d):
        return timedelta(hours=2) if 3 < d.month < 11 else timedelta(hours=1)

    def dst(self, d):
        return timedelta(0)

    def tzname(self, d):
        return "seasonal"


def _aware(*a, off=None, tz=None):
    return datetime(*a, tzinfo=tz or timezone(off))


FLOATS = [0.0, 0.1, -0.5, 1.5, -2.25, 1e-07, 1e-05, 123456789.12345679, 1e16, 1e22, 1.7976931348623157e308, 5e-324, 0.30000000000000004]
DATES = [date(2021, 1, 2), date(1970, 1, 1), date(1999, 12, 31), date(2024, 2, 29), date(1, 1, 1), date(9999, 12, 31)]
ZONED = [
    _aware(2021, 7, 1, 12, 0, 0, tz=Seasonal()), _aware(2021, 1, 1, 0, 30, 0, 5, tz=Seasonal()),
    _aware(2021, 1, 1, 0, 0, 0, off=timedelta(0)), _aware(2021, 1, 1, 1, 2, 3, 4, off=timedelta(hours=5, minutes=45)),
    _aware(2020, 12, 31, 23, 59, 59, 999999, off=timedelta(hours=-9, minutes=-30)),
    _aware(2020, 2, 28, 20, 0, 0, off=timedelta(hours=-5)), _aware(2021, 3, 4, 5, 6, 7, off=timedelta(seconds=30)),
]


def leaf(ctx, name, kind):
    if kind == "none":
        return ("n",)
    if kind == "bool":
        return ("t", ctx.bool(name))
    if kind == "int":
        return ("i", ctx.int(name))
    if kind == "flt":
        return ("f", ctx.float(name))
    if kind == "cflt":
        return ("cf", ctx.choice(name, FLOATS))
    if kind == "date":
        return ("d", ctx.choice(name, DATES))
    if kind == "dt":
        return ("dt", ctx.datetime(name))
    if kind == "adt":
        return ("adt", ctx.datetime(name, aware=True))
    if kind == "zdt":
        return ("adt", ctx.choice(name, ZONED))
    if kind == "str":
        return ("s", "it's")
    if kind == "byt":
        return ("b", b"by")
    if kind == "col":
        return ("col", "c")
    if kind == "arr":
        return ("arr", [("i", ctx.int(name)), ("n",)])
    if kind == "tup":
        return ("tup", [("t", ctx.bool(name)), ("s", "x")])
    if kind == "arr0":
        return ("arr", [])
    if kind == "tup0":
        return ("tup", [])
    if kind == "fn":
        return ("fn", "foo", [("i", ctx.int(name))], None)
    raise AssertionError(kind)


SCALARS = ["none", "bool", "int", "flt", "cflt", "date", "dt", "adt", "zdt"]
INSIDE = SCALARS + ["str", "byt", "col", "arr", "tup", "arr0", "tup0", "fn"]


def _place(where, v):
    if where == "rhs":
        return ({"where": [Condition(Column("a"), Op.GTE, build(v))]}, T(HEAD + " WHERE a >=") + ref(v))
    if where == "having":
        return ({"having": [Condition(Column("a"), Op.EQ, build(v)), Condition(Column("b"), Op.EQ, 1)]},
                T(HEAD + " HAVING a =") + ref(v) + T("AND b = 1"))
    if where == "param":
        return ({"select": [Function("foo", [Column("a"), build(v), "z"], "x")]},
                T("MATCH (events) SELECT foo(a,") + ref(v) + T(", 'z') AS `x`"))
    if where == "cparam":
        return ({"select": [CurriedFunction("foo", [1], [build(v), 5])]}, T("MATCH (events) SELECT foo(1)(") + ref(v) + T(", 5)"))
    if where == "init":
        return ({"select": [CurriedFunction("foo", [build(v), "q"], [Column("a")])]},
                T("MATCH (events) SELECT foo(") + ref(v) + T(", 'q')(a)"))
    if where == "array":
        return ({"where": [Condition(Column("a"), Op.IN, [build(v), None])]}, T(HEAD + " WHERE a IN array(") + ref(v) + T(", NULL)"))
    if where == "tuple":
        return ({"where": [Condition(Column("a"), Op.NOT_IN, ("k", build(v)))]}, T(HEAD + " WHERE a NOT IN tuple('k',") + ref(v) + T(")"))
    if where == "deep":
        return ({"select": [Function("foo", [[(1, [build(v)]), ()]])]},
                T("MATCH (events) SELECT foo(array(tuple(1, array(") + ref(v) + T(")), tuple()))"))
    raise AssertionError(where)


def place(ctx, where, kind):
    v = leaf(ctx, "v", kind)
    kw, exp = _place(where, v)
    q = query(**kw)
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, exp, "the literal is not printed as the same value of the same kind")
    check_text(ctx, q.print(), exp, "print() does not print the literal faithfully")


def pair(ctx, wrap, kinds):
    """two elements, every combination of kinds: order, number and kind of the elements are kept"""
    a = leaf(ctx, "a", ctx.choice("ka", kinds))
    b = leaf(ctx, "b", ctx.choice("kb", kinds))
    v = (wrap, [a, b])
    text = query(where=[Condition(Column("a"), Op.IN, build(v))]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, T(HEAD + " WHERE a IN") + ref(v), "the elements are not printed one by one, in order")


def width(ctx, wrap, sizes):
    """any number of elements, any integers (equal or not)"""
    n = ctx.choice("n", sizes)
    v = (wrap, [("i", ctx.int("v%d" % k)) for k in range(n)])
    text = query(where=[Condition(Column("a"), Op.IN, build(v))]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, T(HEAD + " WHERE a IN") + ref(v), "an element is lost, added or moved")


def mixed(ctx, wrap, sizes):
    """any two elements of any kinds anywhere in a longer list: values that compare equal stay apart"""
    n = ctx.choice("n", sizes)
    p = ctx.choice("p", list(range(n - 1)))
    q = ctx.choice("q", list(range(p + 1, n)))
    kinds = ["int", "bool", "flt", "none", "str", "arr0", "tup0", "cflt0", "dt"]
    v = [("i", 2 + k) for k in range(n)]
    for name, at in (("a", p), ("b", q)):
        k = ctx.choice("k" + name, kinds)
        v[at] = ("cf", 0.0) if k == "cflt0" else leaf(ctx, name, k)
    v = (wrap, v)
    text = query(where=[Condition(Column("a"), Op.IN, build(v))]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, T(HEAD + " WHERE a IN") + ref(v), "an element is lost, added, moved or changes its kind")


def mixed12(ctx, wrap):
    """a long list of numbers and booleans in any alternation"""
    first = ctx.choice("first", ["int", "bool", "flt"])
    second = ctx.choice("second", ["int", "bool", "flt", "none"])
    step = ctx.choice("step", [2, 3, 5, 11])
    flip = ctx.choice("flip", [False, True])

    def pick(k, kind):
        return ("t", (k % 4 < 2) != flip) if kind == "bool" else leaf(ctx, "v%d" % k, kind)

    v = (wrap, [pick(k, second if k % step == step - 1 else first) for k in range(12)])
    text = query(select=[Function("foo", [build(v)])]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, T("MATCH (events) SELECT foo(") + ref(v) + T(")"), "an element is lost, added, moved or changes its kind")


def large(ctx, wrap, sizes):
    """very long lists: elements of every kind, repeated, any integer among them"""
    n = ctx.choice("n", sizes)
    style = ctx.choice("style", ["ints", "kinds", "texts", "falling"])
    at = ctx.choice("at", [0, 1, n // 2, n - 1])
    pool = [("i", 1), ("t", True), ("cf", 1.0), ("s", "1"), ("n",), ("i", 0), ("t", False), ("cf", 0.0), ("s", ""), ("arr", []), ("tup", []), ("arr", [("i", 1)]), ("s", "a, b")]
    v = {
        "ints": lambda: [("i", k) for k in range(n)],
        "kinds": lambda: [pool[k % len(pool)] for k in range(n)],
        "texts": lambda: [("s", "t%d" % (k % 40)) for k in range(n)],
        "falling": lambda: [("i", (n - k) % 50) for k in range(n)],
    }[style]()
    v[at] = ("i", ctx.int("v"))
    v = (wrap, v)
    text = query(where=[Condition(Column("a"), Op.IN, build(v))], select=[Function("foo", [build(v)])]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, T("MATCH (events) SELECT foo(") + ref(v) + T(") WHERE a IN") + ref(v), "an element of a long list is lost, added, moved or changes its kind")


def tall(ctx, depths):
    """deep nesting of arrays and tuples"""
    d = ctx.choice("d", depths)
    style = ctx.choice("style", ["arr", "tup", "alt", "wide"])
    v = leaf(ctx, "v", ctx.choice("kind", ["int", "none", "str", "arr0"]))
    for k in range(d):
        w = style if style in ("arr", "tup") else ("arr", "tup")[k % 2]
        v = (w, [v, ("i", k), v] if style == "wide" and k < 3 else [v, ("i", k)] if k % 2 else [v])
    text = query(select=[Function("foo", [Column("a"), build(v)], "x")]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, T("MATCH (events) SELECT foo(a,") + ref(v) + T(") AS `x`"), "a deeply nested array or tuple is not printed faithfully")


def nest(ctx, depth):
    """arrays and tuples nested in each other"""
    v = leaf(ctx, "v", ctx.choice("kind", ["int", "bool", "none", "str", "arr0", "tup0"]))
    for k in range(depth):
        w = ctx.choice("w%d" % k, ["arr", "tup"])
        shape = ctx.choice("s%d" % k, [0, 1, 2])
        v = (w, [[v], [("i", 7), v], [v, ("s", "z")]][shape])
    text = query(select=[Function("foo", [Column("a"), build(v)], "x")]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, T("MATCH (events) SELECT foo(a,") + ref(v) + T(") AS `x`"), "a nested array or tuple is not printed faithfully")


def instant(ctx):
    """two aware date-times print the same text exactly when they are the same instant"""
    a = ctx.datetime("a", aware=True)
    b = ctx.datetime("b", aware=True)
    ta = query(where=[Condition(Column("a"), Op.EQ, a)]).serialize()
    tb = query(where=[Condition(Column("a"), Op.EQ, b)]).serialize()
    ctx.reach("serialized")
    ctx.check(ctx.iff(ta == tb, a == b), "the printed text does not identify the instant")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for w in ("rhs", "having", "param", "cparam", "init", "array", "tuple", "deep"):
        for k in SCALARS if w == "init" else INSIDE:
            out.append(("%s/%s" % (w, k), place, {"where": w, "kind": k}, {"reach": ["serialized"], "bounds": "every value of the kind"}))
    for wrap in ("arr", "tup"):
        out.append(("pair/%s" % wrap, pair, {"wrap": wrap, "kinds": INSIDE}, {"reach": ["serialized"], "bounds": "every pair of kinds", "cost": 50}))
        out.append(("width/%s" % wrap, width, {"wrap": wrap, "sizes": list(range(0, 9)) + [16, 33] + ([120] if deep else [])},
                    {"reach": ["serialized"], "bounds": "up to 33 elements", "cost": 20}))
        for n in (3, 4, 5, 6, 7, 8, 9) if deep else (3, 4, 5):
            out.append(("mixed/%s/%d" % (wrap, n), mixed, {"wrap": wrap, "sizes": [n]},
                        {"reach": ["serialized"], "bounds": "%d elements, any two of any kinds" % n, "cost": 10 * n * n}))
        out.append(("mixed/%s/long" % wrap, mixed12, {"wrap": wrap}, {"reach": ["serialized"], "bounds": "12 elements", "cost": 30}))
    for wrap in ("arr", "tup"):
        out.append(("large/%s" % wrap, large, {"wrap": wrap, "sizes": [60, 150] + ([400] if deep else [])}, {"reach": ["serialized"], "bounds": "60 and 150 (400) elements", "cost": 100}))
    out.append(("tall", tall, {"depths": [6, 12] + ([25] if deep else [])}, {"reach": ["serialized"], "bounds": "nesting 6 and 12 (25)", "cost": 100}))
    for d in (1, 2, 3) if deep else (1, 2):
        out.append(("nest/%d" % d, nest, {"depth": d}, {"reach": ["serialized"], "bounds": "nesting %d" % d, "cost": 6 ** d}))
    out.append(("instant", instant, {}, {"reach": ["serialized"], "bounds": "any two aware date-times"}))
    return out
