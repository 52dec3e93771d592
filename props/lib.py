"""Shared vocabulary of the harnesses: a specification tree, the SDK object it denotes (build)
and, independently of the SDK, the token sequence that object must be printed as (ref_*)."""
from datetime import timezone

from sx.lex import lex

from snuba_sdk.aliased_expression import AliasedExpression
from snuba_sdk.column import Column
from snuba_sdk.conditions import And, BooleanCondition, BooleanOp, Condition, Op, Or
from snuba_sdk.entity import Entity
from snuba_sdk.expressions import Granularity, Limit, Offset, Totals
from snuba_sdk.function import CurriedFunction, Function, Identifier, Lambda
from snuba_sdk.orderby import Direction, LimitBy, OrderBy
from snuba_sdk.query import Query
from snuba_sdk.relationships import Join, Relationship
from snuba_sdk.storage import Storage

ALLOPS = [
    (Op.GT, ">"), (Op.LT, "<"), (Op.GTE, ">="), (Op.LTE, "<="), (Op.EQ, "="), (Op.NEQ, "!="),
    (Op.IN, "IN"), (Op.NOT_IN, "NOT IN"), (Op.LIKE, "LIKE"), (Op.NOT_LIKE, "NOT LIKE"),
    (Op.IS_NULL, "IS NULL"), (Op.IS_NOT_NULL, "IS NOT NULL"),
]
OPS = {t: o for o, t in ALLOPS}
UNARY = ("IS NULL", "IS NOT NULL")


def T(text, quote="'"):
    """tokens of a concrete piece of the query language"""
    return [(k, "".join(v)) for k, v in lex(list(text), lambda c, s: c in s, quote=quote)]


def W(word):
    return [("word", word)]


def S(value):
    return [("str", value)]


def commas(parts):
    out = []
    for k, p in enumerate(parts):
        if k:
            out = out + [("punct", ",")]
        out = out + p
    return out


def joined(parts, word):
    out = []
    for k, p in enumerate(parts):
        if k:
            out = out + [("word", word)]
        out = out + p
    return out


# ------------------------------------------------------------------ scalars and expressions
def build(s, ents=None):
    k = s[0]
    if k == "col":
        if len(s) > 2 and s[2] is not None:
            return Column(s[1], entity=ents[s[2]])
        return Column(s[1])
    if k == "id":
        return Identifier(s[1])
    if k == "fn":
        ps = None if s[2] is None else [build(p, ents) for p in s[2]]
        return Function(s[1], ps, s[3])
    if k == "cfn":
        ins = None if s[2] is None else [build(p, ents) for p in s[2]]
        ps = None if s[3] is None else [build(p, ents) for p in s[3]]
        return CurriedFunction(s[1], ins, ps, s[4])
    if k == "lam":
        return Lambda(s[1], build(s[2], ents))
    if k == "as":
        return AliasedExpression(build(s[1], ents), s[2])
    if k == "arr":
        return [build(p, ents) for p in s[1]]
    if k == "tup":
        return tuple([build(p, ents) for p in s[1]])
    if k == "n":
        return None
    if k == "c":
        if s[2] in UNARY:
            return Condition(build(s[1], ents), OPS[s[2]])
        return Condition(build(s[1], ents), OPS[s[2]], build(s[3], ents))
    if k == "and":
        return And([build(p, ents) for p in s[1]])
    if k == "or":
        return Or([build(p, ents) for p in s[1]])
    if k == "bool":
        return BooleanCondition(BooleanOp(s[1]), [build(p, ents) for p in s[2]])
    return s[1]  # s, b, i, f, t, dt, adt, d


def iso_utc(v):
    """the naive UTC reading of an aware datetime, ISO 8601"""
    return v.astimezone(timezone.utc).replace(tzinfo=None).isoformat()


def ref(s, q=False):
    """the tokens the specification must be printed as; q: columns qualified by entity alias"""
    k = s[0]
    if k == "col":
        if q and len(s) > 2 and s[2] is not None:
            return T(s[2] + "." + s[1])
        return T(s[1])
    if k == "tok":  # tokens given by the harness
        return s[1]
    if k == "wcol":  # a symbolic name made of word characters
        return W(s[1])
    if k == "id":
        return [("bt", s[1])]
    if k == "fn":
        return ref(("cfn", s[1], None, s[2], s[3]), q)
    if k == "cfn":
        out = T(s[1])
        if s[2] is not None:
            out = out + T("(") + commas([ref(p, q) for p in s[2]]) + T(")")
        if s[3] is not None:
            out = out + T("(") + commas([ref(p, q) for p in s[3]]) + T(")")
        if s[4] is not None:
            out = out + T("AS") + [("bt", s[4])]
        return out
    if k == "lam":
        return T("(") + commas([[("bt", i)] for i in s[1]]) + T(") ->") + ref(s[2], q)
    if k == "as":
        out = ref(s[1], q)
        if s[2] is not None:
            out = out + T("AS") + [("bt", s[2])]
        return out
    if k == "arr":
        return T("array(") + commas([ref(p, q) for p in s[1]]) + T(")")
    if k == "tup":
        return T("tuple(") + commas([ref(p, q) for p in s[1]]) + T(")")
    if k == "s":
        return S(s[1])
    if k == "b":
        return S(s[1].decode())
    if k == "n":
        return T("NULL")
    if k == "t":
        return T("TRUE") if s[1] else T("FALSE")
    if k == "i":
        return W(str(s[1]))
    if k == "f":
        return W(str(s[1]))
    if k == "cf":  # concrete float
        return T(str(s[1]))
    if k == "dt":
        return T("toDateTime(") + S(s[1].isoformat()) + T(")")
    if k == "adt":
        return T("toDateTime(") + S(iso_utc(s[1])) + T(")")
    if k == "d":
        return T("toDateTime(") + S(s[1].isoformat()) + T(")")
    if k == "c":
        out = ref(s[1], q) + T(s[2])
        if s[2] not in UNARY:
            out = out + ref(s[3], q)
        return out
    if k == "and":
        return T("(") + joined([ref(p, q) for p in s[1]], "AND") + T(")")
    if k == "or":
        return T("(") + joined([ref(p, q) for p in s[1]], "OR") + T(")")
    if k == "bool":
        return T("(") + joined([ref(p, q) for p in s[2]], s[1]) + T(")")
    raise AssertionError("no reference for %r" % (k,))


# ------------------------------------------------------------------ queries
def query(**kw):
    kw.setdefault("match", Entity("events"))
    kw.setdefault("select", [Column("a")])
    return Query(**kw)


HEAD = "MATCH (events) SELECT a"


def check_text(ctx, text, expected, msg):
    ctx.check(ctx.matches(text, expected), msg)


def raises(fn, *errors):
    """the SDK error type raised by fn(), or None"""
    try:
        fn()
    except errors as e:
        return type(e)
    return None
