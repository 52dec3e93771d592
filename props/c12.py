"""Building a query step by step never changes existing queries; using one changes nothing."""
import dataclasses
import enum
from datetime import datetime

from props.lib import (
    AliasedExpression, And, Column, Condition, CurriedFunction, Direction, Entity, Function, Granularity, Join, Lambda, Limit, LimitBy,
    Offset, Op, Or, OrderBy, Query, Relationship, Storage, Totals,
)
from props.mlib import MRI, Formula, Metric, MetricsScope, Rollup, Timeseries

from snuba_sdk.delete_query import DeleteQuery
from snuba_sdk.expressions import Extrapolate
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.request import Flags, Request
from snuba_sdk.schema import Column as ModelColumn
from snuba_sdk.schema import DataModel

OUTSIDE = "histories of more than 4 setter calls or uses; lists longer than 4"


def snap(v):
    """everything an object consists of, as plain nested tuples"""
    if isinstance(v, enum.Enum):
        return ("enum", type(v).__name__, v.name)
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return ("obj", type(v).__name__, [(f.name, snap(getattr(v, f.name))) for f in dataclasses.fields(v)])
    if isinstance(v, list):
        return ("list", [snap(x) for x in v])
    if isinstance(v, tuple):
        return ("tuple", [snap(x) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, snap(x)) for k, x in v.items()])
    if isinstance(v, (set, frozenset)):
        return ("set", sorted([snap(x) for x in v], key=repr))
    return ("val", type(v).__name__, v)


def same(ctx, a, b):
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return ctx.both(*[same(ctx, x, y) for x, y in zip(a, b)])
    if a is None or b is None:
        return a is b
    return a == b


def changed(s, **fields):
    """the snapshot with some fields replaced"""
    return (s[0], s[1], [(k, snap(fields[k]) if k in fields else v) for k, v in s[2]])


ENT = Entity("events", data_model=DataModel([ModelColumn(c) for c in "abcdefgz"], ModelColumn("z")))


def con(c, v):
    return Condition(Column(c), Op.EQ, v)


def q_values(ctx, t):
    """setter -> (argument tuple, the fields it sets)"""
    i = ctx.int("i" + t, 1, 10000)
    b = ctx.bool("b" + t)

    def single(field, v):
        return (v,), {field: v}

    return {
        "match": lambda: single("match", Entity("spans" if t == "1" else "events")),
        "select": lambda: single("select", [Column("a"), Function("foo", [Column("b"), i])]),
        "groupby": lambda: single("groupby", [Column("c"), AliasedExpression(Column("d"), "al" + t)]),
        "array_join": lambda: single("array_join", [Column("e"), Column("f" + t)]),
        "where": lambda: single("where", [Or([con("a", i), con("a", 2)]), con("b", i)]),
        "having": lambda: single("having", [And([con("a", i), con("c", t)])]),
        "orderby": lambda: single("orderby", [OrderBy(Column("a"), Direction.ASC), OrderBy(Function("foo", [i]), Direction.DESC)]),
        "limitby": lambda: single("limitby", LimitBy([Column("a"), Column("b")], i)),
        "limit": lambda: ((i,), {"limit": Limit(i)}),
        "offset": lambda: ((i,), {"offset": Offset(i)}),
        "granularity": lambda: ((i,), {"granularity": Granularity(i)}),
        "totals": lambda: ((b,), {"totals": Totals(b)}),
        "match#": lambda: single("match", Storage("errors", 0.5)),
        "match##": lambda: single("match", Query(Entity("spans"), [Column("a")])),
        "match###": lambda: single("match", Join([Relationship(Entity("events", "e"), "has", Entity("spans", "s"))])),
        "select#": lambda: single("select", [Column("s%d" % k) for k in range(9)]),
        "groupby#": lambda: single("groupby", []),
        "groupby##": lambda: single("groupby", [Column("s%d" % k) for k in range(9)]),
        "where#": lambda: single("where", []),
        "where##": lambda: single("where", [con("s%d" % k, k) for k in range(9)]),
        "having#": lambda: single("having", []),
        "orderby#": lambda: single("orderby", []),
    }


def q_full():
    return Query(
        ENT, [Column("a"), Function("cnt", [], "cc")], groupby=[Column("b")], array_join=[Column("c")],
        where=[Or([con("a", 1), con("a", 5)])], having=[con("b", 2)], orderby=[OrderBy(Column("a"), Direction.ASC)],
        limitby=LimitBy([Column("a")], 5), limit=Limit(7), offset=Offset(8), granularity=Granularity(9), totals=Totals(True),
    )


def m_values(ctx, t):
    i = ctx.int("i" + t, 1, 10000)
    b = ctx.bool("b" + t)

    def single(field, v):
        return (v,), {field: v}

    return {
        "query": lambda: single("query", Timeseries(Metric(mri=MRI), "max", None, [Or([con("a", "x"), con("a", t)])], [Column("g" + t)])),
        "start": lambda: single("start", ctx.datetime("s" + t)),
        "end": lambda: single("end", ctx.datetime("e" + t)),
        "rollup": lambda: single("rollup", Rollup(interval=60 if t == "1" else 3600, granularity=60, totals=b)),
        "scope": lambda: single("scope", MetricsScope([i], [1, i], "u" + t)),
        "scope#": lambda: single("scope", MetricsScope([i], [])),
        "rollup#": lambda: single("rollup", Rollup(granularity=60, totals=True, orderby=Direction.ASC)),
        "query#": lambda: single("query", "max(%s)" % t),
        "indexer_mappings#": lambda: single("indexer_mappings", {}),
        "limit": lambda: ((i,), {"limit": Limit(i)}),
        "offset": lambda: ((i,), {"offset": Offset(i)}),
        "extrapolate": lambda: ((b,), {"extrapolate": Extrapolate(b)}),
        "indexer_mappings": lambda: single("indexer_mappings", {"k" + t: i}),
    }


def m_full():
    return MetricsQuery(
        Formula("plus", [ts0(), 2]), datetime(2021, 1, 1), datetime(2021, 1, 2), Rollup(interval=60, granularity=60),
        MetricsScope([1], [2], "u"), Limit(3), Offset(4), Extrapolate(True), {"a": 1},
    )


def ts0():
    return Timeseries(Metric("p", MRI, 3), "quantiles", [0.5, "x"], [Or([con("a", "x"), con("a", "y")]), con("b", "z")], [Column("g")])


def t_values(ctx, t):
    i = ctx.int("i" + t)

    def single(field, v):
        return (v,), {field: v}

    return {
        "metric": lambda: single("metric", Metric("n" + t, MRI, i)),
        "aggregate": lambda: (("sum" + t, [i, 2]), {"aggregate": "sum" + t, "aggregate_params": [i, 2]}),
        "aggregate#": lambda: (("avg",), {"aggregate": "avg", "aggregate_params": None}),
        "aggregate##": lambda: (("quantiles",), {"aggregate": "quantiles", "aggregate_params": None}),
        "aggregate###": lambda: (("quantiles", []), {"aggregate": "quantiles", "aggregate_params": []}),
        "filters": lambda: single("filters", [con("a", i), Or([con("b", "x"), con("b", "y")])]),
        "filters#": lambda: single("filters", None),
        "groupby": lambda: single("groupby", [Column("h"), AliasedExpression(Column("d"), "al" + t)]),
        "groupby#": lambda: single("groupby", None),
        "filters##": lambda: single("filters", []),
        "groupby##": lambda: single("groupby", []),
        "metric#": lambda: single("metric", Metric(mri=MRI)),
    }


def f_values(ctx, t):
    i = ctx.int("i" + t)

    def single(field, v):
        return (v,), {field: v}

    return {
        "parameters": lambda: single("parameters", [ts0(), i]),
        "filters": lambda: single("filters", [con("a", i), Or([con("b", "x"), con("b", "y")])]),
        "filters#": lambda: single("filters", None),
        "groupby": lambda: single("groupby", [Column("h"), AliasedExpression(Column("d"), "al" + t)]),
        "groupby#": lambda: single("groupby", None),
    }


def metric_values(ctx, t):
    i = ctx.int("i" + t)
    s = ctx.str("s" + t, 2)

    def single(field, v):
        return (v,), {field: v}

    return {
        "mri": lambda: single("mri", s), "public_name": lambda: single("public_name", s + "n"), "id": lambda: single("id", i),
    }


def scope_values(ctx, t):
    s = ctx.str("s" + t, 2)
    return {"use_case_id": lambda: ((s,), {"use_case_id": s})}


FAMILIES = {
    "query": (q_values, [lambda: Query(Entity("events")), q_full, lambda: q_full().set_totals(False).set_match(Storage("errors"))]),
    "metrics": (m_values, [lambda: MetricsQuery(), m_full]),
    "timeseries": (t_values, [lambda: Timeseries(Metric(mri=MRI), "max"), ts0]),
    "formula": (f_values, [lambda: Formula("plus"), lambda: Formula("minus", [ts0(), 5, Formula("plus", [ts0(), 1])], [0.5], [con("a", 1)], [Column("g")])]),
    "metric": (metric_values, [lambda: Metric("p", MRI, 3), lambda: Metric("p")]),
    "scope": (scope_values, [lambda: MetricsScope([1], [2, 3]), lambda: MetricsScope([1], [], "x")]),
}


def call(o, setter, args):
    return getattr(o, "set_" + setter.rstrip("#"))(*args)


def once(ctx, family):
    """a setter returns a new object with exactly that field changed; the old one and the value stay as they were"""
    values, starts = FAMILIES[family]
    o = ctx.choice("start", starts)()
    before = snap(o)
    vals = values(ctx, "1")
    s = ctx.choice("setter", list(vals))
    args, fields = vals[s]()
    given = snap(args)
    n = call(o, s, args)
    ctx.reach("set")
    ctx.check(n is not o, "the setter returns the same object")
    ctx.check(same(ctx, snap(o), before), "the setter changes the object it is called on")
    ctx.check(same(ctx, snap(args), given), "the setter changes the given value")
    ctx.check(same(ctx, snap(n), changed(before, **fields)), "the setter changes something else, or not its field")


def twice(ctx, family):
    """two setters: on the result, on the original (a branch), in either order, and the same one again"""
    values, starts = FAMILIES[family]
    o = ctx.choice("start", starts)()
    s0 = snap(o)
    v1, v2 = values(ctx, "1"), values(ctx, "2")
    a = ctx.choice("a", list(v1))
    b = ctx.choice("b", list(v1))
    args_a, fa = v1[a]()
    args_b, fb = v2[b]()
    oa = call(o, a, args_a)
    sa = snap(oa)
    oab = call(oa, b, args_b)
    ob = call(o, b, args_b)
    oba = call(ob, a, args_a)
    ctx.reach("set")
    ctx.check(same(ctx, snap(o), s0), "the original is changed")
    ctx.check(same(ctx, snap(oa), sa), "the first result is changed by the second setter")
    ctx.check(same(ctx, snap(ob), changed(s0, **fb)), "a branch sees what was set on another one")
    ctx.check(same(ctx, snap(oab), changed(changed(s0, **fa), **fb)), "two settings do not both hold")
    ctx.check(same(ctx, snap(oba), changed(changed(s0, **fb), **fa)), "the order of setting different fields matters")


def thrice(ctx, family):
    """chains of three with the first field set again"""
    values, starts = FAMILIES[family]
    o = starts[1]()
    s0 = snap(o)
    v1, v2 = values(ctx, "1"), values(ctx, "2")
    a = ctx.choice("a", list(v1))
    b = ctx.choice("b", list(v1))
    aa, fa = v1[a]()
    bb, fb = v2[b]()
    again, fagain = (bb, fb) if a == b else v2[a]()
    o1 = call(o, a, aa)
    o2 = call(o1, b, bb)
    o3 = call(o2, a, again)
    ctx.reach("set")
    ctx.check(same(ctx, snap(o3), changed(changed(changed(s0, **fa), **fb), **fagain)), "the last setting does not win")
    ctx.check(same(ctx, snap(o1), changed(s0, **fa)), "an earlier object is changed")
    ctx.check(same(ctx, snap(o), s0), "the original is changed")


# ------------------------------------------------------------------ using a query
def shared(ctx):
    v = ctx.int("v")
    s = ctx.str("s", 1)
    orc = Or([Condition(Column("a"), Op.EQ, v), Condition(Column("a"), Op.EQ, 3)])
    fn = Function("foo", [Column("a"), [1, v], Lambda(["x"], Function("bar", [s]))], "al")
    return v, s, orc, fn


def pool(ctx):
    """queries that share their parts, and those parts"""
    v, s, orc, fn = shared(ctx)
    where = [orc, con("b", s), And([orc, con("c", 1)])]
    q1 = Query(ENT, [Column("a"), fn], where=where, having=[orc], groupby=[Column("a")], orderby=[OrderBy(fn, Direction.ASC)], totals=Totals(True))
    inner = Query(Entity("events"), [Column("a"), Column("b"), fn], where=where)
    q2 = Query(inner, [Column("a"), Column("al")], where=[orc], limitby=LimitBy([Column("a")], 3))
    e1, e2 = Entity("events", "e"), Entity("spans", "s", 0.5)
    jc = [Condition(Column("a", e1), Op.EQ, v), Or([Condition(Column("a", e1), Op.EQ, 1), Condition(Column("a", e1), Op.EQ, v)])]
    q3 = Query(Join([Relationship(e1, "has", e2)]), [Column("a", e1)], where=jc)
    fl = [Or([con("a", s), con("a", "y")]), con("b", "z")]
    ts = Timeseries(Metric(mri=MRI), "max", None, fl, [Column("g")])
    roll = Rollup(interval=60, granularity=60)
    scope = MetricsScope([1], [v], "u")
    maps = {"g": v}
    m1 = MetricsQuery(ts, datetime(2021, 1, 1), datetime(2021, 1, 2), roll, scope, indexer_mappings=maps)
    m2 = MetricsQuery(Formula("plus", [ts, 1.0, Formula("divide", [ts, ts], filters=fl)], None, fl, [Column("g")]), datetime(2021, 1, 1),
                      datetime(2021, 1, 2), roll, scope, Limit(5), indexer_mappings=maps)
    m3 = MetricsQuery("max(`%s`){a:\"x\" OR b:\"y\"} by (g)" % MRI, datetime(2021, 1, 1), datetime(2021, 1, 2), roll, scope, indexer_mappings=maps)
    flags = Flags(debug=True)
    tenants = {"org": v}
    dq = DeleteQuery("st", {"a": [v, 1], "b": ["x"]})
    r1 = Request("events", "app", q1, flags, "api", tenants)
    r2 = Request("metrics", "app", m1, flags, "api", tenants)
    r3 = Request("st", "app", dq, flags, "api", tenants)
    objs = {"q1": q1, "q2": q2, "q3": q3, "m1": m1, "m2": m2, "m3": m3, "dq": dq, "r1": r1, "r2": r2, "r3": r3}
    watch = [objs, where, orc, fn, inner, e1, e2, jc, fl, ts, roll, scope, maps, flags, tenants, ENT]
    return objs, watch


def bulky():
    """longer lists in no particular order, with repetitions"""
    ns = ["d", "b", "e", "a", "c", "b", "z"]
    cols = [Column(n) for n in ns]
    args = [5, 3, [9, 1, 7, 1, 4, 2], ("b", "a", "c", "a", "d"), "x", Column("b"), Column("a")]
    fn = Function("foo", args, "al")
    cf = CurriedFunction("bar", [3, 1, 2, 1, 0.5], list(args), "cal")
    conds = [con(n, k) for k, n in enumerate(ns)]
    ins = [5, 2, 9, 2, 1, 7]
    eqs = [con("a", v) for v in ins]
    where = [Condition(Column("b"), Op.IN, ins), Or(eqs), And(conds), Or(conds), con("b", 2), con("a", 1), con("b", 2)]
    q = Query(
        Entity("events"), [fn, cf] + cols, groupby=list(cols), array_join=list(cols), where=where, having=[Or(eqs), Or(conds)],
        orderby=[OrderBy(c, Direction.DESC) for c in cols], limitby=LimitBy(list(cols), 3))
    e1, e2, e3 = Entity("z", "z"), Entity("a", "a"), Entity("m", "m", 0.5)
    rels = [Relationship(e1, "r2", e2), Relationship(e3, "r1", e1), Relationship(e1, "r2", e2)]
    j = Query(Join(rels), [Column(n, e) for n in "cab" for e in (e1, e3, e2)], groupby=[Column(n, e3) for n in "zxy"])
    filters = [Or([con(n, "v") for n in "dbac"]), Or([con("a", v) for v in "dbacb"]), Condition(Column("b"), Op.NOT_IN, ["q", "b", "c", "b"]), con("z", "y"), con("a", "x")]
    group = [Column("d"), Column("b"), AliasedExpression(Column("c"), "al"), Column("a")]
    params = [0.9, 0.5, 0.99, 0.5]
    ts = Timeseries(Metric(mri=MRI), "quantiles", params, filters, group)
    ps = [ts, 5.0, Formula("plus", [ts, 1.0], None, filters, group), ts]
    fm = Formula("apdex", ps, [9, 1, 5], filters, group)
    maps = {"d": 4, "b": 2, "transaction": 7, "a": 1, "g": 3, "": 0, " ": 5, "unused": 0, "A": 1}
    scope = MetricsScope([5, 1, 9, 1], [7, 2, 8, 2], "u")
    rest = (datetime(2021, 1, 1), datetime(2021, 1, 2), Rollup(interval=60, granularity=60), scope)
    m = MetricsQuery(ts, *rest, indexer_mappings=maps)
    f = MetricsQuery(fm, *rest, indexer_mappings=maps)
    x = MetricsQuery("quantiles(0.9, 0.5, 0.99)(`%s`){a:[\"z\", \"b\", \"y\"]} by (z, b, a)" % MRI, *rest, indexer_mappings=maps)
    cond = {"z": [5, 1, 9, 1], "a": ["y", "x", "z"], "m": [2, 1], "Z": [0], "b": ["", "y", ""]}
    dq = DeleteQuery("st", cond)
    tenants = {"z": 5, "a": "x", "m": 1, "": 0, "n": "", "legacy": "legacy", "Z": 5}
    flags = Flags(debug=True)
    objs = {"q": q, "j": j, "m": m, "f": f, "x": x, "dq": dq}
    objs.update({"r" + k: Request("events", "app", o, flags, "api", tenants) for k, o in list(objs.items())})
    return objs, [objs, cols, args, conds, ins, eqs, where, rels, filters, group, params, ps, maps, scope, cond, tenants]


def bulk(ctx, name):
    """the same for longer lists: order and repetitions are kept"""
    objs, watch = bulky()
    before = snap(watch)
    o = objs[name]
    fresh = bulky()[0]
    u1 = ctx.choice("u1", list(USES))
    u2 = ctx.choice("u2", list(USES))
    want = snap(USES[u2](fresh[name]))
    USES[u1](o)
    ctx.check(same(ctx, snap(watch), before), "using a query changes it or what it was built from")
    got = snap(USES[u2](o))
    ctx.check(same(ctx, snap(watch), before), "using a query twice changes it or what it was built from")
    ctx.check(same(ctx, got, want), "an earlier use shows in a later one")
    ctx.reach("used")


def given(ctx, family):
    """setting a field to the value it already has, and setting two objects to one value"""
    values, starts = FAMILIES[family]
    vals = values(ctx, "1")
    s = ctx.choice("setter", list(vals))
    args, fields = vals[s]()
    o = ctx.choice("start", starts)()
    n = call(o, s, args)
    sn = snap(n)
    m = call(n, s, args)
    ctx.check(m is not n, "the setter returns the same object")
    ctx.check(same(ctx, snap(m), sn), "setting the same value again changes something")
    p = call(starts[-1](), s, args)
    ctx.check(same(ctx, snap(p), changed(snap(starts[-1]()), **fields)), "one value set on two objects is changed")
    ctx.check(same(ctx, snap(n), sn), "one value set on two objects changes the first")
    ctx.reach("set")


USES = {
    "validate": lambda o: o.validate(),
    "serialize": lambda o: o.serialize(),
    "print": lambda o: o.print(),
    "str": lambda o: str(o),
    "equal": lambda o: o == dataclasses.replace(o),
    "dict": lambda o: o.to_dict() if isinstance(o, Request) else None,
}


def using(ctx, name):
    """any two uses: nothing is changed and repeating gives the same result"""
    objs, watch = pool(ctx)
    before = snap(watch)
    o = objs[name]
    u1 = ctx.choice("u1", list(USES))
    u2 = ctx.choice("u2", list(USES))
    r1 = USES[u1](o)
    ctx.check(same(ctx, snap(watch), before), "using a query changes it or what it was built from")
    s1 = snap(r1)
    r2 = USES[u2](o)
    ctx.check(same(ctx, snap(watch), before), "using a query twice changes it or what it was built from")
    again = USES[u1](o)
    ctx.check(same(ctx, snap(again), s1), "repeating gives another result")
    ctx.check(same(ctx, snap(r1), s1), "a returned result is changed by a later use")
    ctx.check(same(ctx, snap(watch), before), "using a query changes it or what it was built from")
    ctx.reach("used")


def detached(ctx, name):
    """changing a returned result does not reach the query"""
    objs, watch = pool(ctx)
    before = snap(watch)
    o = objs[name]
    r = USES[ctx.choice("u", ["serialize", "dict"])](o)
    s1 = snap(r)
    if isinstance(r, dict) and "mql_context" in r:
        r["mql_context"]["extra"] = 1
        r["mql"] = "gone"
        again = o.serialize() if name.startswith("m") else o.to_dict()
        ctx.check(same(ctx, snap(again), s1) if name.startswith("m") else "extra" not in again["mql_context"], "a later result is changed through an earlier one")
    ctx.check(same(ctx, snap(watch), before), "changing a result changes the query")
    ctx.reach("used")


def use_then_set(ctx, family):
    """a use between two setters leaves no trace: the result is that of a fresh object"""
    values, starts = FAMILIES[family]
    v1 = values(ctx, "1")
    s = ctx.choice("setter", list(v1))
    u = ctx.choice("use", ["validate", "serialize", "print", "str"])
    u2 = ctx.choice("use2", ["serialize", "print"])
    args, fields = v1[s]()
    o = starts[1]()
    USES[u](o)
    n = call(o, s, args)
    fresh = dataclasses.replace(starts[1](), **fields)

    def run(x):
        try:
            return snap(USES[u2](x))
        except Exception as e:
            return ("error", type(e).__name__)

    ctx.check(same(ctx, run(n), run(fresh)), "an earlier use shows in a later query")
    ctx.check(same(ctx, run(o), run(starts[1]())), "the original no longer gives the same result")
    ctx.reach("used")


def refused(ctx, family):
    """a refused setter leaves the object as it was"""
    values, starts = FAMILIES[family]
    o = ctx.choice("start", starts)()
    before = snap(o)
    vals = values(ctx, "1")
    s = ctx.choice("setter", list(vals))
    bad = ctx.choice("bad", [object(), -1, [object()], 1.5j])
    try:
        call(o, s, (bad,))
    except Exception:
        ctx.reach("refused")
    ctx.check(same(ctx, snap(o), before), "a refused setter changes the object")


def conditions(ctx, n, kind):
    """condition lists of every shape: using the query changes neither the list nor its members"""
    def one(k):
        i = ctx.int("v%d" % k)
        return ctx.choice("c%d" % k, [
            lambda: con("a", i), lambda: Or([con("a", i), con("a", 2)]), lambda: Or([con("a", i), con("b", 2)]),
            lambda: And([con("a", i), Or([con("b", 1), con("b", i)])])])()
    cs = [one(k) for k in range(n)]
    if kind == "where":
        o = Query(ENT, [Column("a")], where=cs)
    elif kind == "having":
        o = Query(ENT, [Column("a")], having=cs)
    elif kind == "both":
        o = Query(Query(ENT, [Column("a"), Column("b")], where=cs), [Column("a")], where=cs, having=cs)
    else:
        t = Timeseries(Metric(mri=MRI), "max", None, cs)
        o = MetricsQuery(t if kind == "series" else Formula("plus", [t, 1], None, cs), datetime(2021, 1, 1), datetime(2021, 1, 2), Rollup(interval=60, granularity=60), MetricsScope([1], [2], "u"), indexer_mappings={})
    members = list(cs)
    before = snap([cs, o])
    first = {}
    for u in ("serialize", "print", "str", "serialize"):
        if kind in ("series", "formula") and u == "str":
            continue
        r = snap(USES[u](o))
        ctx.check(same(ctx, snap([cs, o]), before), "using a query changes its list of conditions")
        ctx.check(len(cs) == len(members) and all([x is y for x, y in zip(cs, members)]), "using a query replaces a condition")
        ctx.check(same(ctx, first.setdefault(u, r), r), "repeating gives another result")
    ctx.reach("used")


def cases(tier):
    out = []
    for kind in ("where", "having", "both", "series", "formula"):
        for n in (1, 2, 3) + ((4,) if tier == "thorough" or kind == "where" else ()):
            out.append(("conditions/%s/%d" % (kind, n), conditions, {"n": n, "kind": kind}, {"reach": ["used"], "bounds": "%d conditions" % n, "cost": 4 ** n}))
    deep = tier == "thorough"
    for f in FAMILIES:
        cost = 20 if f in ("query", "metrics") else 5
        out.append(("once/" + f, once, {"family": f}, {"reach": ["set"], "bounds": "every setter", "cost": 2}))
        out.append(("given/" + f, given, {"family": f}, {"reach": ["set"], "bounds": "every setter twice", "cost": 2}))
        out.append(("twice/" + f, twice, {"family": f}, {"reach": ["set"], "bounds": "every pair of setters", "cost": cost}))
        out.append(("refused/" + f, refused, {"family": f}, {"reach": ["refused"], "bounds": "every setter", "cost": 2}))
        out.append(("thrice/" + f, thrice, {"family": f}, {"reach": ["set"], "bounds": "chains of three", "cost": cost}))
    for f in ("query", "metrics"):
        out.append(("use_then_set/" + f, use_then_set, {"family": f}, {"reach": ["used"], "bounds": "use, set, use", "cost": 30}))
    for n in ("q1", "q2", "q3", "m1", "m2", "m3", "dq", "r1", "r2", "r3"):
        out.append(("using/" + n, using, {"name": n}, {"reach": ["used"], "bounds": "every two uses", "cost": 20}))
    for n in ("q", "j", "m", "f", "x", "dq", "rq", "rj", "rm", "rf", "rx", "rdq"):
        out.append(("bulk/" + n, bulk, {"name": n}, {"reach": ["used"], "bounds": "every two uses, lists of up to 9", "cost": 20}))
    for n in ("m1", "m2", "m3", "r1", "r2"):
        out.append(("detached/" + n, detached, {"name": n}, {"reach": ["used"], "bounds": "every result", "cost": 5}))
    return out
