"""What a query prints, and whether it is accepted, does not depend on other queries: histories and interleavings."""
from datetime import datetime

from props.c12 import same, snap
from props.lib import (
    AliasedExpression, And, Column, Condition, CurriedFunction, Direction, Entity, Function, Granularity, Identifier, Join, Lambda, Limit, LimitBy, Offset, Op, Or,
    OrderBy, Query, Relationship, Storage, Totals,
)
from props.mlib import MRI, Formula, Metric, MetricsScope, Rollup, Timeseries

from snuba_sdk.delete_query import DeleteQuery
from snuba_sdk.legacy import json_to_snql
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.mql.mql import parse_mql
from snuba_sdk.request import Flags, Request
from snuba_sdk.schema import Column as ModelColumn
from snuba_sdk.schema import DataModel

OUTSIDE = ("histories of more than 2 other uses (3 in the thorough tier); preemption inside a function between two calls of SDK functions, and more than one switch away from each "
           "of two threads; state kept outside the SDK's modules (parsimonious, the interpreter)")

E1 = lambda: Entity("events", "e")
E2 = lambda: Entity("spans", "s")
MODEL = lambda: DataModel([ModelColumn("a"), ModelColumn("b")], ModelColumn("b"))


def con(c, v, op=Op.EQ):
    return Condition(c if isinstance(c, Column) else Column(c), op, v)


def all_uses(q):
    """everything a user does with a query"""
    q.validate()
    return [q.serialize(), q.print(), str(q)]


def snql(make):
    return lambda v: all_uses(make(v))


def mq(query):
    return MetricsQuery(query, datetime(2020, 1, 1), datetime(2020, 1, 2), Rollup(interval=60, granularity=60), MetricsScope([1], [1]), indexer_mappings={})


def tseries(v, name="m"):
    return Timeseries(Metric(name), "quantiles", [0.5], [Or([con("a", v["s"]), con("a", "y")]), con("b", ["x", v["s"]], Op.IN)], [Column("g")])


def join(v, extra=()):
    return Query(
        Join([Relationship(E1(), "has", E2())]), [Column("a", E1()), Function("count", [Column("b", E2())], "cnt")], groupby=[Column("a", E1())],
        where=[con(Column("a", E1()), v["n"]), *extra], orderby=[OrderBy(Column("b", E2()), Direction.ASC)], limitby=LimitBy([Column("a", E1())], 2))


def entity(v):
    return Query(
        Entity("events"), [Column("a"), AliasedExpression(Column("t[k]"), "al"), Function("f1", [Column("a"), v["n"]], "ff"), CurriedFunction("qq", [v["n"]], [Column("a"), "x"], "qq")],
        groupby=[Column("a")], array_join=[Column("c")], where=[con("a", v["s"]), Or([con("b", v["n"]), And([con("b", 1), con("c", "x")])])],
        having=[con(Column("a"), v["n"])], orderby=[OrderBy(Column("a"), Direction.DESC)], limitby=LimitBy([Column("a")], 3), limit=Limit(5), offset=Offset(6), granularity=Granularity(60), totals=Totals(True))


def lambdas(v):
    return Query(Entity("events"), [Function("arrayMap", [Lambda(["x"], Function("f1", [Identifier("x"), v["n"]])), Column("a")], "m")], where=[con("a", [v["n"], v["s"]], Op.IN)])


def legacy(v):
    r = json_to_snql({"selected_columns": ["a", ["f1", ["b"]]], "aggregations": [["count()", "", "cnt"]], "conditions": [["a", "=", v["s"]], [["b", "=", "x"], ["b", "=", "z"]]], "groupby": ["a"],
                      "limit": 5, "project": 1, "from_date": "2020-01-01T00:00:00", "to_date": "2020-01-02T00:00:00", "debug": True}, "events")
    return [r.serialize() if hasattr(r, "serialize") else r.to_dict(), r.print() if hasattr(r, "print") else str(r)]


def request(v):
    r = Request("events", "app", mq(tseries(v)), Flags(debug=True), "api", {"org": v["n"]})
    return [r.to_dict(), r.serialize() if v["plain"] else None]


def parse(text):
    return lambda v: [snap(parse_mql(text))]


def mstr(text):
    def use(v):
        return all_uses(mq(text))
    return use


KINDS = {
    "entity": snql(entity),
    "plain": snql(lambda v: Query(Entity("events"), [Column("a"), Column("b")], where=[con("a", v["n"])])),
    "aliased": snql(lambda v: Query(E1(), [Column("a", E1())], where=[con(Column("a", E1()), v["n"])])),
    "sampled": snql(lambda v: Query(Entity("events", None, 0.5), [Column("a"), Column("b")], where=[con("a", v["n"])])),
    "model": snql(lambda v: Query(Entity("events", data_model=MODEL()), [Column("a")], where=[con("b", v["s"])])),
    "off model": snql(lambda v: Query(Entity("events", data_model=MODEL()), [Column("zz")], where=[con("b", v["s"])])),
    "model 2": snql(lambda v: Query(Entity("events", data_model=DataModel([ModelColumn("zz"), ModelColumn("b")], ModelColumn("b"))), [Column("zz")], where=[con("b", v["s"])])),
    "totals alone": snql(lambda v: Query(Entity("events"), [Column("a")], totals=Totals(True))),
    "storage": snql(lambda v: Query(Storage("events"), [Column("a"), Column("b")], where=[con("a", v["n"])])),
    "lambda": snql(lambdas),
    "join": snql(join),
    "join fails": snql(lambda v: join(v, [con(Column("a", E1()), b"\xff")])),
    "join unaliased": snql(lambda v: join(v, [con("zz", 1)])),
    "join swapped": snql(lambda v: Query(Join([Relationship(Entity("spans", "e"), "has", Entity("events", "s"))]), [Column("a", Entity("spans", "e"))], where=[con(Column("a", Entity("events", "s")), v["n"])])),
    "join mixed up": snql(lambda v: Query(Join([Relationship(Entity("spans", "e"), "has", Entity("events", "s"))]), [Column("a", E1())], where=[con(Column("a", Entity("events", "s")), v["n"])])),
    "subquery": snql(lambda v: Query(Query(Entity("events"), [Column("a"), Function("f1", [Column("a")], "b")], where=[con("a", v["n"])]), [Column("a"), Column("b")])),
    "subquery of join": snql(lambda v: Query(join(v).set_select([Column("a", E1()), Function("count", [], "cnt")]), [Column("a"), Column("cnt")], where=[con("a", v["n"])])),
    "no select": snql(lambda v: Query(Entity("events"), where=[con("a", v["n"])])),
    "value fails": snql(lambda v: Query(Entity("events"), [Column("a")], where=[con("a", v["s"]), con("b", b"\xff")])),
    "metrics": snql(lambda v: mq(tseries(v))),
    "metrics fails": snql(lambda v: mq(tseries(v).set_filters([con("a", v["s"]), con("b", b"\xff")]))),
    "metrics bare": snql(lambda v: mq(Timeseries(Metric(None, MRI, 3), "max"))),
    "no scope": snql(lambda v: MetricsQuery(tseries(v), datetime(2020, 1, 1), datetime(2020, 1, 2), Rollup(interval=60, granularity=60))),
    "formula": snql(lambda v: mq(Formula("plus", [tseries(v), Formula("divide", [Timeseries(Metric("k"), "sum"), v["i"]])], filters=[con("c", v["s"])], groupby=[Column("g")]))),
    "formula fails": snql(lambda v: mq(Formula("plus", [Formula("divide", [tseries(v).set_filters([con("b", b"\xff")]), 2], groupby=[Column("g")]), 3], filters=[con("c", v["s"])], groupby=[Column("g")]))),
    "arbitrary": snql(lambda v: mq(Formula("apdex", [Timeseries(Metric("k"), "sum"), v["i"]]))),
    "mql": mstr('max(m){a:"x" AND b:["y", "z"]} by (g, h) + quantiles(0.5)(k) / 2'),
    "mql bad": mstr("max(m){a:} by g"),
    "parse": parse('sum(k){(a:"x" OR b:"y") AND !c:"z"} by g'),
    "parse formula": parse('(max(m) * 3){a:"x"} by (g)'),
    "parse bad": parse("max(m) +"),
    "delete": lambda v: [DeleteQuery("events", {"a": [v["i"]], "b": ["x", "y"]}).serialize()],
    "delete bad": lambda v: [DeleteQuery("events", {"a": v["i"]}).serialize()],
    "legacy": legacy,
    "legacy bad": lambda v: [json_to_snql({"selected_columns": ["a"], "conditions": [["a", "~~", v["s"]]]}, "events").print()],
    "request": request,
    "bad request": lambda v: [Request("events", "", mq(tseries(v))).to_dict()],
}


def outcome(thunk):
    try:
        return ["ok", thunk()]
    except (RecursionError, MemoryError):
        raise
    except Exception:  # which error it is belongs to other properties
        return ["refused"]


def eq(ctx, a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or len(a) != len(b):
            return False
        return ctx.both(*[ctx.both(k in b, k in b and eq(ctx, x, b[k])) for k, x in a.items()])
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return False
        return ctx.both(*[eq(ctx, x, y) for x, y in zip(a, b)])
    return same(ctx, a, b)


FIXED = [
    {"n": 1, "i": 2, "s": "x", "plain": True},
    {"n": True, "i": 3, "s": "y", "plain": True},
    {"n": 1.0, "i": 2, "s": "z", "plain": True},
    {"n": "1", "i": 2, "s": "x'", "plain": True},
]
ORDER = list(KINDS)


def letter(ctx, t):
    i = ctx.int("i" + t)
    return {"n": i, "i": i, "s": ctx.str("s" + t, 1, ((97, 122),)), "plain": False}


def alone(ctx, kind, v, got):
    ctx.fresh()
    want = outcome(lambda: KINDS[kind](v))
    ctx.observe("outcome", want[0])
    ctx.check(eq(ctx, got, want), "%s: not what it is on its own" % kind)
    ctx.reach(want[0])


def history(ctx, kind, depth, values, firsts=ORDER):
    """`kind` after `depth` others"""
    v = letter(ctx, "t")
    for d in range(depth):
        h = ctx.choice("h%d" % d, firsts if d == 0 and depth > 1 else ORDER)
        w = letter(ctx, str(d))
        w["n"] = ctx.choice("v%d" % d, [w["n"], w["s"], True, 1.0][:values])
        outcome(lambda: KINDS[h](w))
    alone(ctx, kind, v, outcome(lambda: KINDS[kind](v)))


def values(ctx, kind, hist):
    """one other use, all values symbolic"""
    def draw(t):
        i = ctx.int("i" + t, 0, 9)
        s = ctx.str("s" + t, 1, ((34, 34), (39, 39), (92, 92), (97, 122)))
        n = {"int": i, "text": s, "flag": ctx.bool("b" + t)}[ctx.choice("n" + t, ["int", "text", "flag"])]
        return {"n": n, "i": i, "s": s, "plain": False}
    w, v = draw("1"), draw("2")
    outcome(lambda: KINDS[hist](w))
    alone(ctx, kind, v, outcome(lambda: KINDS[kind](v)))


def repeated(ctx, kind):
    """the same kind again and again, others in between, results modified by their owner in between"""
    def spoil(x):
        if isinstance(x, dict):
            for k in list(x):
                spoil(x[k])
            x["spoiled"] = 1
        elif isinstance(x, list):
            for y in x:
                spoil(y)
            x.append("spoiled")

    v = FIXED[0]
    got = [outcome(lambda: KINDS[kind](v)) for j in range(3)]
    spoil(got[2])
    h = ctx.choice("h", ORDER)
    outcome(lambda: KINDS[h](FIXED[1]))
    got[2] = outcome(lambda: KINDS[kind](v))
    for g in got:
        alone(ctx, kind, v, g)


def recycled(ctx, kind):
    """many queries of one shape, each dropped before the next is built (so that their addresses come back)"""
    vs = [{"n": j, "i": j + 3, "s": "abcdefghijkl"[j], "plain": False} for j in range(10)] + [letter(ctx, "l")]
    got = [outcome(lambda: KINDS[kind](v)) for v in vs]
    for j in (1, 2, 5, 9, 10):
        alone(ctx, kind, vs[j], got[j])


# queries built from a list (or mapping) that the caller keeps: what, from the list -> use; the members for a value
LISTS = {
    "select": (lambda l: all_uses(Query(Entity("events"), l)), lambda v: [Column("a"), Function("f1", [v["n"]])]),
    "groupby": (lambda l: all_uses(Query(Entity("events"), [Column("a")], groupby=l)), lambda v: [Column("a"), Column("b"), Column("c")]),
    "array join": (lambda l: all_uses(Query(Entity("events"), [Column("a")], array_join=l)), lambda v: [Column("a"), Column("b")]),
    "where": (lambda l: all_uses(Query(Entity("events"), [Column("a")], where=l)), lambda v: [con("a", v["n"]), con("b", v["s"])]),
    "having": (lambda l: all_uses(Query(Entity("events"), [Column("a")], having=l)), lambda v: [Or([con("a", v["n"]), con("a", 2)]), con("b", v["s"])]),
    "orderby": (lambda l: all_uses(Query(Entity("events"), [Column("a")], orderby=l)), lambda v: [OrderBy(Column("a"), Direction.ASC), OrderBy(Column("b"), Direction.DESC)]),
    "limitby": (lambda l: all_uses(Query(Entity("events"), [Column("a")], limitby=LimitBy(l, 3))), lambda v: [Column("a"), Column("b")]),
    "arguments": (lambda l: all_uses(Query(Entity("events"), [Function("f1", l, "al")])), lambda v: [Column("a"), v["n"], "x"]),
    "array": (lambda l: all_uses(Query(Entity("events"), [Column("a")], where=[con("a", l, Op.IN)])), lambda v: [v["n"], 5, v["s"]]),
    "or": (lambda l: all_uses(Query(Entity("events"), [Column("a")], where=[Or(l)])), lambda v: [con("a", 1), con("b", v["n"]), con("c", v["s"])]),
    "filters": (lambda l: all_uses(mq(Timeseries(Metric("m"), "max", None, l))), lambda v: [con("a", v["s"]), con("b", "x")]),
    "series groupby": (lambda l: all_uses(mq(Timeseries(Metric("m"), "max", None, None, l))), lambda v: [Column("a"), Column("b")]),
    "aggregate params": (lambda l: all_uses(mq(Timeseries(Metric("m"), "max", l))), lambda v: [v["i"], 0.5]),
    "parameters": (lambda l: all_uses(mq(Formula("plus", l))), lambda v: [tseries(v), v["i"]]),
    "filter values": (lambda l: all_uses(mq(Timeseries(Metric("m"), "max", None, [con("a", l, Op.IN)]))), lambda v: [v["s"], "y"]),
    "projects": (lambda l: all_uses(MetricsQuery(tseries(v0()), datetime(2020, 1, 1), datetime(2020, 1, 2), Rollup(interval=60, granularity=60), MetricsScope([1], l), indexer_mappings={})), lambda v: [v["i"], 7]),
    "delete": (lambda l: [DeleteQuery("events", {"a": l}).serialize()], lambda v: [v["i"], v["s"], 3]),
    "legacy": (lambda l: [json_to_snql({"selected_columns": l, "conditions": [["a", "IN", l]]}, "events").to_dict()], lambda v: ["aa", "bb", "cc"]),
    "relationships": (lambda l: all_uses(Query(Join(l), [Column("a", E1())])), lambda v: [Relationship(E1(), "has", E2()), Relationship(E2(), "in", Entity("groups", "g"))]),
    "inner": (lambda l: all_uses(Query(Query(Entity("events"), l), [Column("a")])), lambda v: [Column("a"), Column("b"), Function("f1", [v["n"]], "c")]),
}


def v0():
    return {"n": 1, "i": 2, "s": "k", "plain": True}


def kept(ctx, kind):
    """a list the caller changes between building two queries: each query is what it is on its own"""
    use, members = LISTS[kind]
    v = letter(ctx, "l")
    full = members(v)
    kept_ = list(full)
    first = snap(outcome(lambda: use(kept_)))
    how = ctx.choice("how", ["pop", "swap", "repeat", "refill"])
    if how == "pop":
        kept_.pop()
    elif how == "swap":
        kept_.reverse()
    elif how == "repeat":
        kept_.append(kept_[0])
    else:
        kept_[:] = members(v0())
    now = list(kept_)
    got = snap(outcome(lambda: use(kept_)))
    for res, mem in ((first, full), (got, now)):
        ctx.fresh()
        ctx.check(same(ctx, res, snap(outcome(lambda: use(list(mem))))), kind + ": not what it is on its own")
    ctx.reach("same")


def objects(ctx, text):
    """what a parse returns belongs to the caller"""
    def spoil(x):
        if isinstance(x, Formula):
            for p in x.parameters or ():
                spoil(p)
        for name in ("filters", "groupby", "parameters", "aggregate_params"):
            l = getattr(x, name, None)
            if isinstance(l, list):
                l.append("spoiled")
        for name in ("filters", "groupby"):
            for c in getattr(x, name, None) or ():
                l = getattr(c, "conditions", None)
                if isinstance(l, list):
                    l.append("spoiled")

    spoil(parse_mql(text))
    first = snap(parse_mql(text))
    q = mq(text)
    one = q.serialize()
    two = mq(text).serialize()
    ctx.fresh()
    ctx.check(same(ctx, first, snap(parse_mql(text))), "a parse is affected by what was done with an earlier result")
    ctx.check(eq(ctx, one, two), "two queries of one text differ")
    ctx.reach("ok")


PREPARED = {
    "tiny": lambda v: Query(Entity("events"), [Column("a"), Function("f1", [v["n"]])]),
    "tiny aliased": lambda v: Query(E1(), [Column("a", E1())]),
    "tiny join": lambda v: Query(Join([Relationship(E1(), "has", E2())]), [Column("a", E1()), Function("f1", [v["n"]])]),
    "tiny join fails": lambda v: Query(Join([Relationship(E1(), "has", E2())]), [Function("f1", [b"\xff"])]),
    "tiny subquery": lambda v: Query(Query(Entity("events"), [Column("a")]), [Column("a")]),
    "tiny subquery of join": lambda v: Query(Query(Join([Relationship(E1(), "has", E2())]), [Column("a", E1()), Function("count", [], "cnt")]), [Column("a")]),
    "tiny metrics": lambda v: mq(Timeseries(Metric("m"), "max", None, [con("a", v["s"])], [Column("g")])),
    "tiny metrics 2": lambda v: mq(Timeseries(Metric("k"), "quantiles", [0.5], [con("b", "y")])),
    "tiny formula": lambda v: mq(Formula("plus", [Timeseries(Metric("m"), "max"), v["i"]], filters=[con("a", "z")])),
    "tiny formula 2": lambda v: mq(Formula("apdex", [Timeseries(Metric("k"), "sum", None, [con("a", "z")]), 500])),
    "tiny metrics fails": lambda v: mq(Timeseries(Metric("m"), "max", None, [con("a", b"\xff")])),
    "entity": lambda v: entity(v),
    "join": lambda v: join(v),
    "join fails": lambda v: join(v, [con(Column("a", E1()), b"\xff")]),
    "formula": lambda v: mq(Formula("plus", [tseries(v), Formula("divide", [tseries(v, "k"), 2])], filters=[con("c", "w")], groupby=[Column("g")])),
    "mql": lambda v: mq('max(m){a:"x"} by g'),
    "mql formula": lambda v: mq('sum(k){b:"y"} * 2'),
}
FAILING = {"tiny join fails", "join fails", "tiny metrics fails"}


def threads(ctx, first, second, n, m):
    """each of two threads is suspended at any function entry while the other runs"""
    v, w = letter(ctx, "1"), letter(ctx, "2")

    def one(kind, x):
        q = PREPARED[kind](x)
        return lambda: outcome(q.serialize)

    ra, rb = ctx.interleave(one(first, v), one(second, w), n, m)
    for kind, x, r in ((first, v, ra), (second, w, rb)):
        ctx.fresh()
        want = one(kind, x)()
        ctx.observe(kind, want[0])
        ctx.check(eq(ctx, r, want), "%s: changed by another query serialized at the same time" % kind)
        ctx.reach(kind + " " + want[0])


PAIRS = ["plain", "join"]
TEXTS = ['sum(k){(a:"x" OR b:"y") AND !c:["z", "w"]} by (g, h)', '(quantiles(0.5, 0.9)(m){a:"y"} * 3){a:"x"} by (g)', 'apdex(max(m), 500){a:"x"}']
CROSS = [("tiny", "tiny join"), ("tiny metrics", "tiny formula")]
FIRSTS = [k for k in ORDER if "fails" in k or k in ("join", "subquery", "formula", "mql", "legacy", "request", "model")]


def cases(tier):
    out = []
    deep = tier == "thorough"
    refused = {"off model", "totals alone", "join mixed up", "join fails", "join unaliased", "no select", "value fails", "metrics fails", "no scope", "formula fails", "mql bad", "parse bad", "delete bad", "legacy bad", "bad request"}
    for k in KINDS:
        reach = ["refused" if k in refused else "ok"]
        out.append(("history %s" % k, history, dict(kind=k, depth=2, values=4 if deep else 1, firsts=ORDER if deep else FIRSTS), dict(reach=reach, cost=8, bounds="every pair of other uses (%d firsts) before %r" % (len(ORDER if deep else FIRSTS), k))))
        out.append(("recycled %s" % k, recycled, dict(kind=k), dict(reach=reach, cost=3)))
        out.append(("repeated %s" % k, repeated, dict(kind=k), dict(reach=reach, cost=3)))
        for h in PAIRS if not deep else KINDS:
            out.append(("values %s after %s" % (k, h), values, dict(kind=k, hist=h), dict(cost=2)))
    for k in LISTS:
        out.append(("kept %s" % k, kept, dict(kind=k), dict(reach=["same"])))
    for n, t in enumerate(TEXTS):
        out.append(("objects %d" % n, objects, dict(text=t), dict(reach=["ok"])))
    for a in PREPARED:
        for b in PREPARED:
            reach = [k + (" refused" if k in FAILING else " ok") for k in (a, b)]
            # the second runs to its end while the first is suspended
            if not a.startswith("mql") or deep:
                out.append(("overtaken %s, %s" % (a, b), threads, dict(first=a, second=b, n=400, m=0), dict(reach=reach, cost=5)))
            small = (a, b) in CROSS if not deep else (a.startswith("tiny") and b.startswith("tiny"))
            if small:
                out.append(("crossing %s, %s" % (a, b), threads, dict(first=a, second=b, n=200, m=200), dict(reach=reach, cost=50)))
    return out
