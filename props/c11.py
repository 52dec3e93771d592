"""The required-columns check accepts exactly the queries that have the required conditions."""
from datetime import datetime

from props.lib import (
    ALLOPS, And, BooleanCondition, BooleanOp, Column, Condition, CurriedFunction, Entity, Function, Join, Op, Or, Query, Relationship, Storage,
)

from snuba_sdk.query_validation import validate_required_columns
from snuba_sdk.schema import Column as ModelColumn
from snuba_sdk.schema import DataModel

OUTSIDE = "data models with more than 40 required columns; AND nesting deeper than 20; more than 40 joined entities; more than 154 conditions; the shapes in between are decided in full only up to 3 required columns, 3 joined entities and 6 conditions"

NULLS = (Op.IS_NULL, Op.IS_NOT_NULL)


def sdk(e):
    return type(e).__module__.startswith("snuba_sdk")


def model(required=("org", "proj"), time="tm"):
    return DataModel([ModelColumn(r, required=True) for r in required] + [ModelColumn("zz"), ModelColumn(time)], ModelColumn(time))


def cond(lhs, op, rhs=1):
    return Condition(lhs, op) if op in NULLS else Condition(lhs, op, rhs)


def accepted(ctx, q):
    try:
        validate_required_columns(q)
    except Exception as e:
        ctx.check(sdk(e), "refused with a foreign error")
        return False
    return True


def decide(ctx, q, want):
    got = accepted(ctx, q)
    ctx.observe("accepted", got)
    if got:
        ctx.check(want, "a query without all required conditions is accepted")
        ctx.reach("accepted")
    else:
        ctx.check(ctx.no(want), "a query with all required conditions is refused")
        ctx.reach("refused")


def base(al=None, skip=None):
    """conditions that satisfy every requirement except the skipped one"""
    e = None if al is None else Entity("events", al)
    return {k: v for k, v in {
        "org": Condition(Column("org", e), Op.EQ, 1), "proj": Condition(Column("proj", e), Op.IN, [1, 2]),
        "from": Condition(Column("tm", e), Op.GTE, 5), "to": Condition(Column("tm", e), Op.LT, 9),
    }.items() if k != skip}


Z = Condition(Column("zz"), Op.EQ, 1)
# placement -> (function from the condition to a where item, whether it counts)
PLACES = {
    "top": (lambda c: c, True),
    "and first": (lambda c: And([c, Z]), True),
    "and last": (lambda c: And([Z, Z, c]), True),
    "and and": (lambda c: And([Z, And([Z, c])]), True),
    "and and and": (lambda c: And([And([And([Z, c]), Z]), Z]), True),
    "AND": (lambda c: BooleanCondition(BooleanOp.AND, [Z, c]), True),
    "AND and": (lambda c: BooleanCondition(BooleanOp.AND, [And([c, Z]), Z]), True),
    "and AND": (lambda c: And([Z, BooleanCondition(BooleanOp.AND, [Z, c])]), True),
    "or": (lambda c: Or([c, Z]), False),
    "or same": (lambda c: Or([c, c]), False),
    "OR": (lambda c: BooleanCondition(BooleanOp.OR, [c, Z]), False),
    "and or": (lambda c: And([Z, Or([c, Z])]), False),
    "or and": (lambda c: Or([And([c, Z]), Z]), False),
    "AND or": (lambda c: BooleanCondition(BooleanOp.AND, [Or([c, Z]), Z]), False),
    "tuple and": (lambda c: And((Z, c)), True),
}
GOOD = {"org": (Op.EQ, Op.IN), "proj": (Op.EQ, Op.IN), "from": (Op.GTE,), "to": (Op.LT,)}
COL = {"org": "org", "proj": "proj", "from": "tm", "to": "tm"}


def one(ctx, req):
    """one requirement, in any form and placement; the others are met"""
    pname = ctx.choice("place", list(PLACES))
    put, counts = PLACES[pname]
    op = ctx.choice("op", [o for o, _ in ALLOPS])
    where_at = ctx.choice("at", [0, 1, 3])
    rest = list(base(skip=req).values())
    c = cond(Column(COL[req]), op)
    q = Query(Entity("events", data_model=model()), [Column("zz")], where=rest[:where_at] + [put(c)] + rest[where_at:])
    decide(ctx, q, counts and op in GOOD[req])


def lhs(ctx, req):
    """the condition must be on that very column"""
    want = COL[req]
    op = GOOD[req][0]
    n = ctx.str("name", len(want), "abcdefghijklmnopqrstuvwxyz")
    form = ctx.choice("form", ["plain", "subscript", "function", "swapped", "curried", "aliased", "having", "array"])
    put, counts = PLACES[ctx.choice("place", ["top", "and last", "or"])]
    having = None
    ok = n == want
    if form == "plain":
        c = Condition(Column(n), op, 1)
    elif form == "subscript":
        c, ok = Condition(Column(n + "[k]"), op, 1), False
    elif form == "function":
        c, ok = Condition(Function("foo", [Column(n)]), op, 1), False
    elif form == "swapped":
        c, ok = Condition(Column("zz"), op, Column(n)), False
    elif form == "curried":
        c, ok = Condition(CurriedFunction("foo", [Column(n)], [Column(n)], "org"), op, 1), False
    elif form == "aliased":
        c, ok = Condition(Function("foo", [], want), op, 1), False
    elif form == "array":
        c, ok = Condition(Column("zz"), Op.IN, [Column(n)]), False
    else:
        c, ok, having = Z, False, [Condition(Column(n), op, 1)]
    q = Query(Entity("events", data_model=model()), [Column("zz")], where=list(base(skip=req).values()) + [put(c)], having=having)
    decide(ctx, q, ctx.both(ok, counts))


def rhs(ctx, req):
    """what the column is compared with does not matter"""
    i, s = ctx.int("i"), ctx.str("s", 2)
    v = ctx.choice("rhs", [0, "", None, False, True, 0.0, i, -1, s, datetime(2021, 1, 1), datetime(1970, 1, 1), Column("zz"), Column(COL[req]),
                           Function("foo", []), Function("foo", [Column("zz")], "al"), [], (), [0], [None], ("",), [i, s], (Column("zz"), [1])])
    op = ctx.choice("op", list(GOOD[req]))
    put, counts = PLACES[ctx.choice("place", ["top", "and last", "AND", "or"])]
    arr = isinstance(v, (list, tuple))
    ctx.assume(op == Op.IN or not arr)
    if op == Op.IN and not arr:
        v = [v]
    where = list(base(skip=req).values()) + [put(Condition(Column(COL[req]), op, v))]
    decide(ctx, Query(Entity("events", data_model=model()), [Column("zz")], where=where), counts)


def subset(ctx):
    """every combination of present conditions, in any order, once or twice"""
    parts = base()
    have = {k: ctx.choice(k, [0, 1, 2]) for k in parts}
    rev = ctx.choice("rev", [False, True])
    wrap = ctx.choice("wrap", ["no", "all", "halves", "or"])
    where = [v for k, v in parts.items() for _ in range(have[k])]
    if rev:
        where = where[::-1]
    ok = all(have.values())
    if wrap != "no" and len(where) > 1:
        if wrap == "halves" and len(where) > 3:
            where = [And(where[:2]), And(where[2:])]
        elif wrap == "or":
            where, ok = [Or(where)], False
        else:
            where = [And(where)]
    none = ctx.choice("none", [False, True])
    q = Query(Entity("events", data_model=model()), [Column("zz")], where=None if none and not where else where)
    decide(ctx, q, ok)


def models(ctx):
    """required columns and time column of any data model; no model means no requirement"""
    r1 = ctx.choice("r1", [False, True])
    r2 = ctx.choice("r2", [False, True])
    rt = ctx.choice("rt", [False, True])
    dm = DataModel([ModelColumn("r1", required=r1), ModelColumn("r2", required=r2), ModelColumn("tm", required=rt), ModelColumn("zz")],
                   ModelColumn("tm"))
    kind = ctx.choice("kind", ["model", "none", "storage"])
    h1, h2 = ctx.choice("h1", [0, 1]), ctx.choice("h2", [0, 1])
    ht = ctx.choice("ht", [None, Op.EQ, Op.IN])
    lo, hi = ctx.choice("lo", [0, 1]), ctx.choice("hi", [0, 1])
    where = [Z]
    if h1:
        where.append(Condition(Column("r1"), Op.EQ, 1))
    if h2:
        where.append(Condition(Column("r2"), Op.IN, [1]))
    if ht:
        where.append(cond(Column("tm"), ht, [1] if ht == Op.IN else 1))
    if lo:
        where.append(Condition(Column("tm"), Op.GTE, 1))
    if hi:
        where.append(Condition(Column("tm"), Op.LT, 1))
    if kind == "model":
        match = Entity("events", data_model=dm)
    elif kind == "none":
        match = Entity("events")
    else:
        match = Storage("events", data_model=dm)
    ok = kind != "model" or bool((h1 or not r1) and (h2 or not r2) and (ht or not rt) and lo and hi)
    decide(ctx, Query(match, [Column("zz")], where=where), ok)


def join(ctx, n):
    """each joined entity needs its own conditions, told apart by alias"""
    names = ["events", "spans", "groups"][:n]
    has = [ctx.choice("model%d" % k, [True, False]) if k else True for k in range(n)]
    dm = [model(("org",), "tm"), model(("proj",), "tm"), model((), "tm")]
    ents = [Entity(names[k], "e%d" % k, data_model=dm[k] if has[k] else None) for k in range(n)]
    plain = [Entity(names[k], "e%d" % k) for k in range(n)]
    rels = [Relationship(ents[k], "rel", ents[k + 1]) for k in range(n - 1)]
    where = [Condition(Column("zz", plain[0]), Op.EQ, 1)]
    need = {0: "org", 1: "proj"}
    # one condition is attributed to any of the aliases; the others are right
    target = ctx.choice("target", [(k, w) for k in range(n) for w in ("req", "from", "to") if (w != "req" or k in need)])
    al = ctx.choice("alias", list(range(n)))
    for k in range(n):
        for w in ("req", "from", "to"):
            if w == "req" and k not in need:
                continue
            e = plain[al] if (k, w) == target else plain[k]
            if w == "req":
                where.append(Condition(Column(need[k], e), Op.EQ, 1))
            else:
                where.append(Condition(Column("tm", e), Op.GTE if w == "from" else Op.LT, 1))
    ok = al == target[0] or not has[target[0]]
    grouped = ctx.choice("grouped", [False, True])
    q = Query(Join(rels), [Column("zz", plain[0])], where=[And(where)] if grouped else where)
    decide(ctx, q, ok)


def same_name(ctx):
    """a self join: the two aliases of one entity are told apart"""
    dm = model(("org",), "tm")
    a, b = Entity("events", "a", data_model=dm), Entity("events", "b", data_model=dm)
    pa, pb = Entity("events", "a"), Entity("events", "b")
    where = []
    ok = True
    for al, e in (("a", pa), ("b", pb)):
        for w, c in (("org", Condition(Column("org", e), Op.EQ, 1)), ("from", Condition(Column("tm", e), Op.GTE, 1)),
                     ("to", Condition(Column("tm", e), Op.LT, 1))):
            if ctx.choice(al + w, [True, False]):
                where.append(c)
            else:
                ok = False
    q = Query(Join([Relationship(a, "self", b)]), [Column("zz", pa)], where=where)
    decide(ctx, q, ok)


def nested(ctx, depth):
    """the innermost query must have the conditions; outer conditions do not count"""
    missing = ctx.choice("missing", [None, "org", "proj", "from", "to"])
    outer = ctx.choice("outer", [False, True])
    d = ctx.choice("depth", list(range(1, depth + 1)))
    q = Query(Entity("events", data_model=model()), [Column("zz"), Column("org"), Column("proj"), Column("tm")],
              where=list(base(skip=missing).values()))
    for k in range(d):
        q = Query(q, [Column("zz"), Column("org"), Column("proj"), Column("tm")], where=list(base().values()) if outer else None)
    decide(ctx, q, missing is None)


def aliased(ctx):
    """a single entity with an alias: conditions on plain columns or on columns of that alias count"""
    al = ctx.choice("al", [None, "e"])
    col_al = ctx.str("col", 1, "ef")
    plain = ctx.choice("plain", [True, False])
    req = ctx.choice("req", ["org", "proj", "from", "to"])
    where = list(base(skip=req).values())
    c = Column(COL[req]) if plain else Column(COL[req], Entity("events", col_al))
    where.append(cond(c, GOOD[req][0]))
    q = Query(Entity("events", al, data_model=model()), [Column("zz")], where=where)
    ok = True if plain else (False if al is None else col_al == "e")
    decide(ctx, q, ok)


def crowd(ctx, sizes):
    """a condition among very many others, in a large group or below many groups"""
    req = ctx.choice("req", list(GOOD))
    n = ctx.choice("n", sizes)
    at = ctx.choice("at", [0, n // 2, n - 1])
    op = ctx.choice("op", [GOOD[req][0], Op.NEQ])
    style = ctx.choice("style", ["top", "and", "AND", "inner", "or", "inner or", "tower", "tower or"])
    c = cond(Column(COL[req]), op)
    counts = True
    if style == "tower" or style == "tower or":
        for k in range(n if n < 20 else 20):
            c = And([Z, c]) if (k + at) % 2 else BooleanCondition(BooleanOp.AND, [c, Z, Z])
        if style == "tower or":
            c, counts = Or([Z, c]), False
        items = [c]
    else:
        if style.startswith("inner"):
            c, counts = (And([Z, And([c, Z])]), True) if style == "inner" else (Or([c, Z]), False)
        items = [Z] * n
        items[at] = c
        if style == "and" or style == "inner" or style == "inner or":
            items = [And(items)]
        elif style == "AND":
            items = [BooleanCondition(BooleanOp.AND, items)]
        elif style == "or":
            items, counts = [Or(items)], False
    q = Query(Entity("events", data_model=model()), [Column("zz")], where=list(base(skip=req).values()) + items)
    decide(ctx, q, counts and op == GOOD[req][0])


def demanding(ctx, n):
    """very many required columns, or very many joined entities: each one counts"""
    kind = ctx.choice("kind", ["columns", "entities"])
    missing = ctx.choice("missing", [None, 0, 1, n // 2, n - 1])
    style = ctx.choice("style", ["flat", "and", "reversed"])
    if kind == "columns":
        match = Entity("events", data_model=model(tuple("r%d" % k for k in range(n))))
        where = [Condition(Column("tm"), Op.GTE, 5), Condition(Column("tm"), Op.LT, 9)]
        where += [Condition(Column("r%d" % k), Op.EQ, 1) for k in range(n) if k != missing]
        sel = Column("zz")
    else:
        es = [Entity("events", "e%d" % k, data_model=model(("org",))) for k in range(n)]
        match = Join([Relationship(es[k], "r", es[k + 1]) for k in range(n - 1)])
        plain = [Entity("events", "e%d" % k) for k in range(n)]
        where = []
        for k, p in enumerate(plain):
            where += [Condition(Column("tm", p), Op.GTE, 5), Condition(Column("tm", p), Op.LT, 9)]
            where += [Condition(Column("org", p), Op.EQ, 1)] if k != missing else []
        sel = Column("zz", plain[0])
    if style == "and":
        where = [And(where)]
    elif style == "reversed":
        where = where[::-1]
    decide(ctx, Query(match, [sel], where=where), missing is None)


def pure(ctx):
    """the verdict does not depend on earlier verdicts"""
    good = Query(Entity("events", data_model=model()), [Column("zz")], where=list(base().values()))
    skip = ctx.choice("skip", ["org", "proj", "from", "to"])
    bad = Query(Entity("events", data_model=model()), [Column("zz")], where=list(base(skip=skip).values()))
    order = ctx.choice("order", [(0, 1, 0), (1, 0, 1), (1, 1, 0), (0, 0, 1)])
    for k in order:
        ctx.check(accepted(ctx, [good, bad][k]) == (k == 0), "the verdict depends on earlier queries")
    ctx.reach("done")


def cases(tier):
    both = ["accepted", "refused"]
    deep = tier == "thorough"
    out = []
    for r in GOOD:
        out.append(("one/" + r, one, {"req": r}, {"reach": both, "bounds": "every operator and placement", "cost": 20}))
        out.append(("lhs/" + r, lhs, {"req": r}, {"reach": both, "bounds": "every name of that length, every form", "cost": 5}))
    for r in GOOD:
        out.append(("rhs/" + r, rhs, {"req": r}, {"reach": both, "bounds": "every kind of right-hand side", "cost": 5}))
    out.append(("subset", subset, {}, {"reach": both, "bounds": "every combination, up to 8 conditions", "cost": 30}))
    out.append(("models", models, {}, {"reach": both, "bounds": "3 columns", "cost": 20}))
    for n in (2, 3):
        out.append(("join/%d" % n, join, {"n": n}, {"reach": both, "bounds": "%d entities" % n, "cost": 5}))
    out.append(("same_name", same_name, {}, {"reach": both, "bounds": "2 aliases", "cost": 3}))
    out.append(("nested", nested, {"depth": 4 if deep else 3}, {"reach": both, "bounds": "depth 3-4"}))
    out.append(("aliased", aliased, {}, {"reach": both, "bounds": "all"}))
    for n in (7, 13, 40, 150):
        out.append(("crowd/%d" % n, crowd, {"sizes": [n]}, {"reach": both, "bounds": "%d conditions, up to 20 groups deep" % n, "cost": 20}))
    for n in (4, 12, 40):
        out.append(("demanding/%d" % n, demanding, {"n": n}, {"reach": both, "bounds": "%d required columns or joined entities" % n, "cost": 20}))
    out.append(("pure", pure, {}, {"reach": ["done"], "bounds": "three uses"}))
    return out
