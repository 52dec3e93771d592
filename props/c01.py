"""String and bytes literals in SnQL."""
from props.lib import (
    HEAD, Column, Condition, CurriedFunction, Entity, Function, Identifier, Join, Lambda, Op, Or, OrderBy, Direction, Relationship, S, T,
    check_text, query,
)
from snuba_sdk.request import Request
import json

OUTSIDE = ("fully symbolic literals up to the stated lengths; longer literals only with a symbolic window "
           "inside concrete padding; bytes that are not valid UTF-8 are refused: only a pool of them is decided")


# what surrounds the symbolic window of a long literal
PADS = {
    "quotes": "it's", "slashes": "a\\", "lines": "l\n", "mixed": "k='v\\', \"\r\n\t`", "spaces": " \u00a0 ",
    "wide": "e\u0301\u2028\U0001f600",
}


def lit(ctx, n, as_bytes, pad=0, kind=None):
    s = ctx.str("s", n)
    if kind:
        s = PADS[kind] * pad + s + PADS[kind] * pad
    elif pad:
        s = "x" * pad + s + "y" * pad
    v = s.encode() if as_bytes else s
    return s, v


EE, TT = Entity("events", "ee"), Entity("transactions", "tt")
PLACES = {
    "rhs": (
        lambda v: dict(where=[Condition(Column("a"), Op.EQ, v)]),
        lambda v: T(HEAD + " WHERE a =") + S(v)),
    "like": (
        lambda v: dict(where=[Condition(Column("a"), Op.LIKE, v), Condition(Column("b"), Op.EQ, 1)]),
        lambda v: T(HEAD + " WHERE a LIKE") + S(v) + T("AND b = 1")),
    "having": (
        lambda v: dict(having=[Condition(Function("min", [Column("a")]), Op.NEQ, v)]),
        lambda v: T(HEAD + " HAVING min(a) !=") + S(v)),
    "param": (
        lambda v: dict(select=[Function("foo", [Column("a"), v, 1], "x"), Column("b")]),
        lambda v: T("MATCH (events) SELECT foo(a,") + S(v) + T(", 1) AS `x`, b")),
    "init": (
        lambda v: dict(select=[CurriedFunction("foo", [v, 2], [Column("a")], "x")]),
        lambda v: T("MATCH (events) SELECT foo(") + S(v) + T(", 2)(a) AS `x`")),
    "array": (
        lambda v: dict(where=[Condition(Column("a"), Op.IN, ["k", v, "l"])]),
        lambda v: T(HEAD + " WHERE a IN array('k',") + S(v) + T(", 'l')")),
    "tuple": (
        lambda v: dict(where=[Condition(Column("a"), Op.IN, (v, "k"))]),
        lambda v: T(HEAD + " WHERE a IN tuple(") + S(v) + T(", 'k')")),
    "nested": (
        lambda v: dict(select=[Function("foo", [[("a", v), ("b", None)]], "x")]),
        lambda v: T("MATCH (events) SELECT foo(array(tuple('a',") + S(v) + T("), tuple('b', NULL))) AS `x`")),
    "lambda": (
        lambda v: dict(select=[Function("arrayMap", [Lambda(["x"], Function("foo", [Identifier("x"), v])), Column("a")], "y")]),
        lambda v: T("MATCH (events) SELECT arrayMap((`x`) -> foo(`x`,") + S(v) + T("), a) AS `y`")),
    "or": (
        lambda v: dict(where=[Or([Condition(Column("a"), Op.EQ, v), Condition(Column("b"), Op.EQ, "k")])]),
        lambda v: T(HEAD + " WHERE (a =") + S(v) + T("OR b = 'k')")),
    "orin": (
        lambda v: dict(where=[Or([Condition(Column("a"), Op.EQ, v), Condition(Column("a"), Op.EQ, "k")])]),
        lambda v: T(HEAD + " WHERE a IN array(") + S(v) + T(", 'k')")),
    "sub": (
        lambda v: dict(match=query(where=[Condition(Column("a"), Op.EQ, v)]), where=[Condition(Column("a"), Op.NEQ, v)]),
        lambda v: T("MATCH {" + HEAD + " WHERE a =") + S(v) + T("} SELECT a WHERE a !=") + S(v)),
    "deep": (
        lambda v: dict(match=query(match=query(select=[Function("foo", [v, [v]], "a")]), having=[Condition(Column("a"), Op.EQ, v)])),
        lambda v: T("MATCH { MATCH { MATCH (events) SELECT foo(") + S(v) + T(", array(") + S(v) + T(")) AS `a` } SELECT a HAVING a =") + S(v) + T("} SELECT a")),
    "join": (
        lambda v: dict(match=Join([Relationship(EE, "has", TT)]), select=[Column("a", EE)],
                       where=[Condition(Column("a", EE), Op.EQ, v), Condition(Function("foo", [Column("b", TT), v]), Op.EQ, 1)]),
        lambda v: T("MATCH (ee: events) -[has]-> (tt: transactions) SELECT ee.a WHERE ee.a =") + S(v) + T("AND foo(tt.b,") + S(v) + T(") = 1")),
    "group": (
        lambda v: dict(select=[Function("foo", [v], "x")], groupby=[Function("bar", [v, Column("a")], "y")], orderby=[OrderBy(Function("bar", [v]), Direction.DESC)]),
        lambda v: T("MATCH (events) SELECT foo(") + S(v) + T(") AS `x` BY bar(") + S(v) + T(", a) AS `y` ORDER BY bar(") + S(v) + T(") DESC")),
    "orderby": (
        lambda v: dict(where=[Condition(Function("foo", [v, Column("b")]), Op.EQ, Function("bar", [v]))]),
        lambda v: T(HEAD + " WHERE foo(") + S(v) + T(", b) = bar(") + S(v) + T(")")),
}


def place(ctx, where, n, as_bytes, pad=0, kind=None):
    s, v = lit(ctx, n, as_bytes, pad, kind)
    q = query(**PLACES[where][0](v))
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, PLACES[where][1](s), "the literal is not printed as one literal that denotes the value")
    if where != "orin":
        check_text(ctx, q.print(), PLACES[where][1](s), "print() does not print the literal faithfully")


PLAIN = ((32, 38), (40, 91), (93, 126), (0xE0, 0x17F))


def plain(ctx, where, lengths):
    """longer literals without characters that need escaping"""
    s = ctx.str("s", ctx.choice("n", lengths), PLAIN)
    text = query(**PLACES[where][0](s)).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, PLACES[where][1](s), "the literal is not printed as one literal that denotes the value")


def raw(ctx, where):
    """bytes that are not text are refused, never printed as something else"""
    bad = ctx.choice("v", [b"\xff", b"\x80", b"a\xffb", b"\xc3", b"\xc3(", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\x80", b"ok \xe2\x82", b"\xfe\xffa", b"x" * 300 + b"\xff"])
    for use in ("serialize", "print", "__str__"):
        try:
            getattr(query(**PLACES[where][0](bad)), use)()
        except Exception:
            ctx.reach("refused")
            continue
        ctx.fail("bytes that are no text are printed as something else")


def two(ctx, n, m):
    """two literals in one query stay separate"""
    a = ctx.str("a", n)
    b = ctx.str("b", m)
    text = query(where=[Condition(Column("a"), Op.EQ, a), Condition(Column("b"), Op.NEQ, b)]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, T(HEAD + " WHERE a =") + S(a) + T("AND b !=") + S(b), "two literals are not both printed faithfully")


def request(ctx, n):
    """through a request: the JSON body carries the same text"""
    s = ctx.str("s", n)
    r = Request("events", "app", query(where=[Condition(Column("a"), Op.EQ, s)]))
    body = json.loads(r.serialize())
    ctx.reach("serialized")
    check_text(ctx, body["query"], T(HEAD + " WHERE a =") + S(s), "the literal is changed in the request body")


def cases(tier):
    deep = tier == "thorough"
    out = []

    def top(w, b):
        if deep:
            return 7 if w == "rhs" and not b else 5
        if w in ("sub", "deep", "join", "group"):
            return 3 if w == "sub" and not b else 2
        return 5 if w in ("rhs", "param") and not b else 4 if not b else 3

    for w in PLACES:
        for b in (False, True):
            for n in range(0, top(w, b) + 1):
                out.append(("%s/%s%d" % (w, "bytes" if b else "str", n), place, {"where": w, "n": n, "as_bytes": b},
                            {"reach": ["serialized"], "bounds": "any literal of %d characters" % n, "cost": 4 ** n}))
        out.append(("%s/raw" % w, raw, {"where": w}, {"reach": ["refused"], "bounds": "a pool of bytes that are not UTF-8"}))
        out.append(("%s/plain" % w, plain, {"where": w, "lengths": list(range(6, 28)) + [32, 36, 40, 64]},
                    {"reach": ["serialized"], "bounds": "any literal of 6 to 64 characters that need no escape", "cost": 30}))
    for w in ("rhs", "param", "init", "array", "tuple"):
        for pad in (40, 600) if not deep else (10, 40, 130, 600, 5000):
            out.append(("%s/long%d" % (w, pad), place, {"where": w, "n": 2, "as_bytes": False, "pad": pad},
                        {"reach": ["serialized"], "bounds": "2 arbitrary characters inside %d concrete ones" % (2 * pad), "cost": 20}))
    for w in ("rhs", "param", "tuple", "sub") if not deep else sorted(PLACES):
        for kind in PADS:
            for b in (False, True):
                for pad in (1, 40) if not deep else (1, 3, 8, 40, 300):
                    out.append(("%s/%s%d%s" % (w, kind, pad, "b" if b else ""), place, {"where": w, "n": 1, "as_bytes": b, "pad": pad, "kind": kind},
                                {"reach": ["serialized"], "bounds": "an arbitrary character between %d repetitions of %r" % (pad, PADS[kind]), "cost": 3}))
    for n, m in ((1, 1), (2, 1), (1, 2)) if not deep else ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2)):
        out.append(("two/%d-%d" % (n, m), two, {"n": n, "m": m}, {"reach": ["serialized"], "bounds": "two literals", "cost": 4 ** (n + m)}))
    for n in range(4 if not deep else 5):
        out.append(("request/%d" % n, request, {"n": n}, {"reach": ["serialized"], "bounds": "any literal of %d characters" % n, "cost": 4 ** n}))
    return out
