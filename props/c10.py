"""Every column of a query is checked against what the query reads from."""
from props.lib import (
    AliasedExpression, And, Column, Condition, CurriedFunction, Direction, Entity, Function, Granularity, Identifier, Join,
    Lambda, Limit, LimitBy, Offset, Op, Or, OrderBy, Query, Relationship, Storage, Totals,
)

from snuba_sdk.schema import Column as ModelColumn
from snuba_sdk.schema import DataModel

OUTSIDE = ("nestings deeper than the stated depth; lists longer than 130; inner selections of more than 130 expressions; "
           "columns of a joined entity are checked against the model of the entity the column carries")

# a column hidden inside an expression; g is a column that fits
WRAPS = {
    "arg1": lambda c, g: Function("foo", [c]),
    "arg2": lambda c, g: Function("foo", [g, c], "al"),
    "arg3": lambda c, g: Function("foo", ["x", 1, c, None, g]),
    "carg": lambda c, g: CurriedFunction("foo", [1], [c]),
    "carg2": lambda c, g: CurriedFunction("foo", [g, "q"], [g, c], "al"),
    "array": lambda c, g: Function("foo", [[1, c]]),
    "tuple": lambda c, g: Function("foo", [g, (c, "x")]),
    "deeparray": lambda c, g: Function("foo", [[(1, [g, c]), ()]]),
    "lambda": lambda c, g: Function("foo", [Lambda(["x"], Function("bar", [Identifier("x"), c])), g]),
    "named": lambda c, g: Function("foo", [Lambda(["aa", "ad", "dd", "x"], Function("bar", [Identifier("aa"), c]))], "ad"),
    "clambda": lambda c, g: CurriedFunction("foo", [2], [g, Lambda(["x", "y"], CurriedFunction("bar", [1], [g, c]))]),
}
# initializers hold only columns and literals
INITS = {
    "init": lambda c, g: CurriedFunction("foo", [c], [g]),
    "init2": lambda c, g: CurriedFunction("foo", [0.5, g, c], None),
    "laminit": lambda c, g: Function("foo", [Lambda(["x"], CurriedFunction("bar", [c], [Identifier("x")]))]),
}
GT = lambda a, b: Condition(a, Op.GT, b)
# where the expression e (holding the column) is placed; g a fitting column
PLACES = {
    "select": lambda e, g: dict(select=[e]),
    "select last": lambda e, g: dict(select=[g, g, e]),
    "select first": lambda e, g: dict(select=[e, g]),
    "groupby": lambda e, g: dict(groupby=[e]),
    "groupby last": lambda e, g: dict(groupby=[g, e]),
    "where lhs": lambda e, g: dict(where=[GT(e, 1)]),
    "where unary": lambda e, g: dict(where=[GT(g, 1), Condition(e, Op.IS_NULL)]),
    "where rhs": lambda e, g: dict(where=[GT(g, e), GT(g, 1)]),
    "where array": lambda e, g: dict(where=[Condition(g, Op.IN, [1, e])]),
    "where tuple": lambda e, g: dict(where=[Condition(g, Op.NOT_IN, (e, [e], 2))]),
    "where and": lambda e, g: dict(where=[GT(g, 3), And([GT(g, 1), GT(e, 1)])]),
    "where or": lambda e, g: dict(where=[Or([GT(g, 1), And([GT(g, 2), GT(g, e)])])]),
    "where eq or": lambda e, g: dict(where=[Or([Condition(e, Op.EQ, 1), Condition(e, Op.EQ, 2)])]),
    "having": lambda e, g: dict(having=[GT(g, 1), GT(e, 1)]),
    "having rhs": lambda e, g: dict(having=[Or([GT(g, 2), GT(g, e)])]),
    "having array": lambda e, g: dict(having=[Condition(g, Op.IN, [g, [e]])]),
    "orderby": lambda e, g: dict(orderby=[OrderBy(e, Direction.ASC)]),
    "orderby last": lambda e, g: dict(orderby=[OrderBy(g, Direction.DESC), OrderBy(e, Direction.DESC)]),
}
# places for the bare column only
COLUMN_PLACES = {
    "limitby": lambda e, g: dict(limitby=LimitBy([e], 5)),
    "limitby last": lambda e, g: dict(limitby=LimitBy([g, g, e], 5)),
    "array join": lambda e, g: dict(array_join=[e]),
    "array join last": lambda e, g: dict(array_join=[g, e]),
    "aliased select": lambda e, g: dict(select=[AliasedExpression(e, "al"), g]),
    "aliased groupby": lambda e, g: dict(groupby=[g, AliasedExpression(e, "al")]),
}


def sdk(e):
    return type(e).__module__.startswith("snuba_sdk")


def model():
    return DataModel([ModelColumn("aa", required=True), ModelColumn("ab"), ModelColumn("cc"), ModelColumn("cc.k"), ModelColumn("ts")], ModelColumn("ts"))


def name(ctx):
    """any two letters a-d, perhaps with a subscript; fits if the outer name is aa or ab"""
    n = ctx.str("name", 2, "abcd")
    ok = ctx.either(n == "aa", n == "ab", n == "cc")
    return n, ok


def source(ctx, kind, joins=False):
    """-> (match, column under test, whether it fits, a fitting column)"""
    if kind in ("entity", "storage"):
        match = Entity("events", data_model=model()) if kind == "entity" else Storage("events", data_model=model())
        n, ok = name(ctx)
        sub = ctx.choice("sub", ["", "[k]", "[aa]", ".k", ":k", ".k[aa]"])
        if sub in (".k", ".k[aa]"):
            ok = n == "cc"
        elif sub == ":k":
            ok = False
        return match, Column(n + sub), ok, Column("cc")
    if kind == "free":
        n, ok = name(ctx)
        return Entity("events"), Column(n + ctx.choice("sub", ["", "[k]"])), True, Column("cc")
    if kind == "join":
        e, f, h = Entity("events", "e"), Entity("spans", "s"), Entity("groups", "g")
        match = ctx.choice("join", [
            Join([Relationship(e, "has", f), Relationship(f, "in", h)]), Join([Relationship(e, "has", f), Relationship(h, "in", f)]),
            Join([Relationship(h, "has", e), Relationship(f, "in", e)])][:3 if joins else 1])
        al = ctx.str("alias", 1, "egsx")
        en = ctx.choice("entity", ["events", "spans", "groups", "other"])
        has = ctx.choice("has", [True, False])
        ok = has and ctx.either(
            ctx.both(al == "e", en == "events"), ctx.both(al == "s", en == "spans"), ctx.both(al == "g", en == "groups"))
        return match, Column("aa", Entity(en, al) if has else None), ok, Column("bb", f)
    if kind == "subquery":
        inner = Query(Entity("events"), [Column("aa"), Function("foo", [Column("zz")], "ab"), Column("cc"), Function("bar", []),
                                         CurriedFunction("baz", [1], [Column("dd")], "da")])
        n = ctx.str("name", 2, "abcd")
        ok = ctx.either(n == "aa", n == "ab", n == "cc", n == "da")
        return inner, Column(n), ok, Column("cc")
    raise AssertionError(kind)


def verdict(ctx, q, ok):
    """validate, serialize, print and str agree, and accept exactly the fitting query"""
    errs = 0
    for use in (q.validate, q.serialize, q.print, q.__str__):
        try:
            use()
        except Exception as e:
            ctx.check(sdk(e), "a query is refused with a foreign error")
            errs += 1
    ctx.check(errs in (0, 4), "validation, serialization and printing disagree")
    ctx.observe("refused", errs > 0)
    if errs:
        ctx.check(ctx.no(ok), "a query whose columns all fit is refused")
        ctx.reach("refused")
    else:
        ctx.check(ok, "a column that does not fit is accepted")
        ctx.reach("accepted")


def placed(ctx, kind, place, depth):
    """the column in this place, inside any nesting of expressions"""
    match, col, ok, good = source(ctx, kind)
    e = col
    if place in COLUMN_PLACES:
        kw = COLUMN_PLACES[place](e, good)
    else:
        d = ctx.choice("depth", list(range(depth + 1)))
        for k in range(d):
            pool = dict(WRAPS, **INITS) if k == 0 else WRAPS
            e = ctx.choice("w%d" % k, list(pool.values()))(e, good)
        kw = PLACES[place](e, good)
    kw.setdefault("select", [good])
    q = Query(match, **kw) if ctx.choice("how", ["init", "set"]) == "init" else setters(match, kw)
    verdict(ctx, q, ok)


def setters(match, kw):
    q = Query(match)
    for k, v in kw.items():
        q = getattr(q, "set_" + k)(v)
    return q


def long(ctx, kind, clause, n):
    """the column at any position of a longer list"""
    match, col, ok, good = source(ctx, kind)
    at = ctx.choice("at", list(range(n)))
    es = [col if k == at else good for k in range(n)]
    kw = {
        "select": lambda: dict(select=es), "groupby": lambda: dict(groupby=es),
        "where": lambda: dict(where=[GT(e, 1) for e in es]), "having": lambda: dict(having=[GT(e, 1) for e in es]),
        "orderby": lambda: dict(orderby=[OrderBy(e, Direction.ASC) for e in es]), "limitby": lambda: dict(limitby=LimitBy(es, 1)),
        "array_join": lambda: dict(array_join=es), "args": lambda: dict(select=[Function("foo", es)]),
        "inits": lambda: dict(select=[CurriedFunction("foo", es, [])]), "array": lambda: dict(where=[Condition(good, Op.IN, es)]),
        "and": lambda: dict(where=[And([GT(e, 1) for e in es])]), "or": lambda: dict(having=[Or([GT(e, 1) for e in es])]),
    }[clause]()
    kw.setdefault("select", [good])
    verdict(ctx, Query(match, **kw), ok)


def two(ctx, kind):
    """two columns under test in different clauses: accepted only if both fit"""
    match, col, ok, good = source(ctx, kind, True)
    other = Column("zz") if ctx.choice("bad", [True, False]) else good
    bad = other is not good
    free = kind == "free"
    pa = ctx.choice("pa", list(PLACES))
    kw = PLACES[pa](col, good)
    kw["array_join"] = [other]
    kw.setdefault("select", [good])
    verdict(ctx, Query(match, **kw), ctx.both(ok, (not bad) or free))


def built(ctx):
    """a column that carries an entity with a data model is checked when it is built"""
    n, ok = name(ctx)
    sub = ctx.choice("sub", ["", "[k]", "[aa]", ".k", ".k[aa]"])
    if sub.startswith("."):
        ok = n == "cc"
    try:
        Column(n + sub, Entity("events", "e", data_model=model()))
    except Exception as e:
        ctx.check(sdk(e), "refused with a foreign error")
        ctx.check(ctx.no(ok), "a column of the model is refused")
        ctx.reach("refused")
        return
    ctx.check(ok, "a column outside the model is accepted")
    ctx.reach("accepted")


def needs_select(ctx):
    """no query is accepted without select expressions"""
    kind = ctx.choice("kind", ["entity", "storage", "free", "join", "subquery"])
    match, col, ok, good = source(ctx, kind)
    sel = ctx.choice("sel", [None, [], ()])
    kw = ctx.choice("kw", [{}, {"groupby": [good]}, {"where": [GT(good, 1)]}, {"orderby": [OrderBy(good, Direction.ASC)]}])
    q = Query(match, sel, **kw)
    verdict(ctx, q, False)


def inner_bad(ctx):
    """a query over an invalid query cannot be built, at any depth"""
    n = ctx.str("name", 2, "abcd")
    ok = ctx.either(n == "aa", n == "ab", n == "cc")
    how = ctx.choice("how", ["init", "set_match"])
    deep = ctx.choice("deep", [0, 1])
    place = ctx.choice("place", list(PLACES))
    base = Entity("events", data_model=model())
    if deep:
        base = Query(base, [Column("aa"), Column("ab"), Column("cc")])
    kw = PLACES[place](Column(n), Column("cc"))
    kw["select"] = [Column("cc")] + list(kw.get("select", []))
    inner = Query(base, **kw)
    try:
        outer = Query(inner, [Column("cc")]) if how == "init" else Query(Entity("events"), [Column("cc")]).set_match(inner)
        outer.validate()
    except Exception as e:
        ctx.check(sdk(e), "refused with a foreign error")
        ctx.check(ctx.no(ok), "a valid inner query is refused")
        ctx.reach("refused")
        return
    ctx.check(ok, "an invalid inner query is accepted")
    ctx.reach("accepted")


CLAUSES = {
    "select": lambda es, g: dict(select=es), "groupby": lambda es, g: dict(groupby=es),
    "where": lambda es, g: dict(where=[GT(e, 1) for e in es]), "having": lambda es, g: dict(having=[GT(e, 1) for e in es]),
    "orderby": lambda es, g: dict(orderby=[OrderBy(e, Direction.ASC) for e in es]), "limitby": lambda es, g: dict(limitby=LimitBy(es, 1)),
    "array_join": lambda es, g: dict(array_join=es), "args": lambda es, g: dict(select=[Function("foo", es)]),
    "inits": lambda es, g: dict(select=[CurriedFunction("foo", es, [])]), "array": lambda es, g: dict(where=[Condition(g, Op.IN, es)]),
    "and": lambda es, g: dict(where=[And([GT(e, 1) for e in es])]), "or": lambda es, g: dict(having=[Or([GT(e, 1) for e in es])]),
    "equalities": lambda es, g: dict(where=[Or([Condition(g, Op.EQ, e) for e in es])]),
    "tuples": lambda es, g: dict(select=[Function("foo", [(1, e) for e in es])]),
    "functions": lambda es, g: dict(select=[Function("foo", [e], "f%d" % k) for k, e in enumerate(es)]),
}


def crowd(ctx, kind, sizes):
    """the column anywhere in a very long list of any kind"""
    match, col, ok, good = source(ctx, kind)
    n = ctx.choice("n", sizes)
    at = ctx.choice("at", [0, n // 2, n - 1])
    clause = ctx.choice("clause", list(CLAUSES))
    es = [col if k == at else good for k in range(n)]
    kw = CLAUSES[clause](es, good)
    kw.setdefault("select", [good])
    verdict(ctx, Query(match, **kw), ok)


def tall(ctx, kind, depths):
    """the column very deep inside one kind of expression, all kinds in turn, or groups of conditions"""
    match, col, ok, good = source(ctx, kind)
    d = ctx.choice("d", depths)
    style = ctx.choice("style", list(WRAPS) + ["turn", "and", "or", "andor", "nested array"])
    e, c = col, GT(col, 1)
    for k in range(d):
        if style == "turn":
            e = list(WRAPS.values())[k % len(WRAPS)](e, good)
        elif style in WRAPS:
            e = WRAPS[style](e, good)
        elif style == "nested array":
            e = [1, e] if k % 2 else (e, good)
        else:
            c = (And if style == "and" or style == "andor" and k % 2 else Or)([GT(good, k), c] if k % 3 else [c, GT(good, k)])
    if style in ("and", "or", "andor"):
        verdict(ctx, Query(match, [good], where=[c]), ok)
    else:
        verdict(ctx, Query(match, [good, Function("foo", [e])]), ok)


def sources(ctx, n):
    """very many model columns, joined entities, inner columns or nested queries"""
    kind = ctx.choice("kind", ["model", "join", "inner", "nested"])
    want = ctx.choice("want", [0, 1, n // 2, n - 1, n, n + 1])
    ok = want < n
    if kind == "model":
        dm = DataModel([ModelColumn("c%d" % k) for k in range(n)] + [ModelColumn("ts")], ModelColumn("ts"))
        q = Query(ctx.choice("m", [Entity, Storage])("events", data_model=dm), [Column("ts"), Function("foo", [Column("c%d" % want)])])
    elif kind == "join":
        es = [Entity("events", "e%d" % k) for k in range(max(n, 2))]
        ok = want < len(es)
        q = Query(Join([Relationship(es[k], "r", es[k + 1]) for k in range(len(es) - 1)]), [Column("a", es[0])], where=[GT(Column("b", es[-1]), Column("c", Entity("events", "e%d" % want)))])
    elif kind == "inner":
        sel = [Column("c%d" % k) if k % 2 else Function("foo", [Column("z")], "c%d" % k) for k in range(n)]
        q = Query(Query(Entity("events"), sel), [Column("c0")], orderby=[OrderBy(Column("c%d" % want), Direction.ASC)])
    else:
        n = min(n, 20)
        want = min(want, n + 1)
        ok = want < n
        q = Query(Entity("events"), [Column("c%d" % k) for k in range(n)])
        for k in range(12):
            q = Query(q, [Column("c%d" % j) for j in range(n)])
        q = Query(q, [Column("c0")], groupby=[Column("c%d" % want)])
    verdict(ctx, q, ok)


def busy(ctx, kind):
    """every clause set at once, the column under test in any one of them"""
    match, col, ok, good = source(ctx, kind)
    slots = ["select", "groupby", "array_join", "where", "having", "orderby", "limitby"]
    at = ctx.choice("at", slots)
    off = ctx.choice("off", [None] + [s for s in slots if s not in (at, "select")])
    c = {s: col if s == at else good for s in slots}
    kw = dict(
        select=[good, c["select"]], groupby=[good, c["groupby"]], array_join=[good, c["array_join"]], where=[GT(good, 1), GT(c["where"], 1)],
        having=[GT(good, 1), GT(c["having"], 1)], orderby=[OrderBy(good, Direction.ASC), OrderBy(c["orderby"], Direction.DESC)],
        limitby=LimitBy([good, c["limitby"]], 3))
    if off is not None:
        del kw[off]
    kw.update(limit=Limit(5), offset=Offset(1), granularity=Granularity(60), totals=Totals(off != "groupby" and ctx.choice("totals", [True, False])))
    verdict(ctx, Query(match, **kw), ok)


def shadow(ctx, k):
    """the inner selection decides: which of its names the outer query may use"""
    pool = [
        (Column("aa"), "aa"), (Function("foo", [Column("aa")], "bb"), "bb"), (Function("aa", []), None),
        (CurriedFunction("cc", [1], [], "dd"), "dd"), (Column("tags[bb]"), "tags[bb]"), (CurriedFunction("bb", [], []), None),
        (AliasedExpression(Column("ee"), "al"), None), (Column("Aa"), "Aa"), (Function("foo", [], "gg.hh"), "gg.hh"), (Column("hh.gg"), "hh.gg"),
    ]
    if k == 3:
        pool = pool[:4] + pool[6:8]
    picks = [ctx.choice("s%d" % j, pool) for j in range(k)]
    inner = Query(Entity("events"), [p[0] for p in picks])
    want = ctx.choice("want", ["aa", "bb", "cc", "dd", "tags[bb]", "tags", "foo", "al", "Aa", "BB"] + (["gg", "hh", "gg.hh", "hh.gg", "gg[hh]", "aa.bb", "aa[k]"] if k < 3 else []))
    fits = [p[1] for p in picks if p[1] is not None]
    place = ctx.choice("place", ["select", "where rhs", "orderby", "limitby"][:{1: 4, 2: 2, 3: 1}[k]])
    good = Column(fits[0]) if fits else Column(want)
    kw = dict(PLACES, **COLUMN_PLACES)[place](Column(want), good)
    kw.setdefault("select", [good])
    verdict(ctx, Query(inner, **kw), want in fits)


def spelling(ctx):
    """aliases and entity names are compared letter by letter"""
    letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
    al, en = "e" + ctx.str("alias", 1, letters), "event" + ctx.str("name", 1, letters)
    e, f = Entity("events", "ev"), Entity("spans", "s")
    match = Join([Relationship(e, "has", f)] if ctx.choice("side", [0, 1]) else [Relationship(f, "has", e)])
    verdict(ctx, Query(match, [Column("bb", f), Column("aa", Entity(en, al))]), ctx.both(al == "ev", en == "events"))


def groups(ctx, kind, clause, depth, width):
    """the column in any member of nested AND/OR groups"""
    match, col, ok, good = source(ctx, kind)
    c = ctx.choice("form", [lambda: GT(col, 1), lambda: GT(good, col), lambda: Condition(Function("foo", [col]), Op.IS_NULL), lambda: Condition(good, Op.IN, [col, good])][:2 if depth > 2 else 4])()
    for k in range(depth):
        at = ctx.choice("at%d" % k, list(range(width)))
        members = [GT(good, j) for j in range(width - 1)]
        members.insert(at, c)
        c = ctx.choice("op%d" % k, [And, Or])(members)
    verdict(ctx, Query(match, [good], **{clause: [GT(good, 9), c]}), ok)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("entity", "join", "subquery"):
        for clause in ("where", "having"):
            for dpt, wid in ((2, 3), (1, 5), (3, 2)) if not deep else ((2, 4), (1, 9), (3, 3)):
                if deep or kind == "entity" or (dpt, wid) == (2, 3):
                    out.append(("groups/%s/%s/%dx%d" % (kind, clause, dpt, wid), groups, {"kind": kind, "clause": clause, "depth": dpt, "width": wid},
                                {"reach": ["accepted", "refused"], "bounds": "%d levels of %d members" % (dpt, wid), "cost": 10}))
    both = ["accepted", "refused"]
    for kind in ("entity", "storage", "join", "subquery", "free"):
        reach = ["accepted"] if kind == "free" else both
        for p in list(PLACES) + list(COLUMN_PLACES):
            d = 2 if deep else 1
            if kind == "free" and not deep:
                d = 0
            out.append(("placed/%s/%s" % (kind, p), placed, {"kind": kind, "place": p, "depth": d},
                        {"reach": reach, "bounds": "nesting up to %d, any column" % d, "cost": 10 ** d}))
        for c in ("select", "groupby", "where", "having", "orderby", "limitby", "array_join", "args", "inits", "array", "and", "or"):
            n = 12 if deep else 5
            if kind != "free":
                out.append(("long/%s/%s" % (kind, c), long, {"kind": kind, "clause": c, "n": n}, {"reach": reach, "bounds": "%d elements" % n, "cost": 3}))
        out.append(("two/%s" % kind, two, {"kind": kind}, {"reach": reach, "bounds": "two columns", "cost": 10}))
    out.append(("nested2/entity", placed, {"kind": "entity", "place": "where rhs", "depth": 2}, {"reach": both, "bounds": "nesting up to 2", "cost": 50}))
    out.append(("nested2/join", placed, {"kind": "join", "place": "select", "depth": 2}, {"reach": both, "bounds": "nesting up to 2", "cost": 50}))
    out.append(("built", built, {}, {"reach": both, "bounds": "any column"}))
    out.append(("needs_select", needs_select, {}, {"reach": ["refused"], "bounds": "every source"}))
    out.append(("inner_bad", inner_bad, {}, {"reach": both, "bounds": "two levels", "cost": 5}))
    for n in (2, 12, 40, 130):
        out.append(("sources/%d" % n, sources, {"n": n}, {"reach": both, "bounds": "%d columns, entities or inner columns; 13 nested queries" % n, "cost": 10}))
    out.append(("spelling", spelling, {}, {"reach": both, "bounds": "any letter in the place of one of an alias and of an entity name"}))
    for k in (1, 2, 3):
        out.append(("shadow/%d" % k, shadow, {"k": k}, {"reach": both, "bounds": "inner selections of %d" % k, "cost": 20}))
    for kind in ("entity", "storage", "join", "subquery"):
        for n in (20, 130):
            out.append(("crowd/%s/%d" % (kind, n), crowd, {"kind": kind, "sizes": [n]}, {"reach": both, "bounds": "lists of %d" % n, "cost": 60}))
        out.append(("tall/" + kind, tall, {"kind": kind, "depths": [5, 12] if not deep else [5, 9, 12, 20]}, {"reach": both, "bounds": "nesting of 5 and 12 (20)", "cost": 60}))
        out.append(("busy/" + kind, busy, {"kind": kind}, {"reach": both, "bounds": "all clauses but at most one, one column anywhere", "cost": 10}))
    return out
