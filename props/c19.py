"""A metrics query's context is passed on exactly or refused."""
import dataclasses
import json

from props.c13 import deep_eq, sdk
from props.lib import Column, Condition, Direction, Limit, Offset, Op
from props.mlib import END, MRI, START, Formula, Metric, MetricsScope, Rollup, Timeseries, mquery, ts

from snuba_sdk.expressions import Extrapolate
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.request import Request

OUTSIDE = "lists of more organisations, projects or mappings than stated; booleans given as numbers; date-times outside years 1 to 9999"

ALLOWED = (10, 60, 3600, 86400)


def context(start, end, interval, granularity, totals, orderby, orgs, projects, use_case, limit, offset, extrapolate, mappings):
    return {
        "start": start.isoformat(), "end": end.isoformat(),
        "rollup": {"interval": interval, "granularity": granularity, "with_totals": None if totals is None else ("True" if totals else "False"),
                   "orderby": None if orderby is None else orderby.value},
        "scope": {"org_ids": orgs, "project_ids": projects, "use_case_id": use_case},
        "limit": limit, "offset": offset, "extrapolate": extrapolate, "indexer_mappings": mappings,
    }


def verify(ctx, q, want):
    for got in (q.serialize()["mql_context"], Request("metrics", "app", q).to_dict()["mql_context"]):
        ctx.check(deep_eq(ctx, got, want), "the context is not exactly what was given")
    plain = json.loads(json.dumps(want))
    for text in (q.print(), str(q)):
        ctx.check(deep_eq(ctx, json.loads(text)["mql_context"], plain), "the printed context is not exactly what was given")
    ctx.check(deep_eq(ctx, json.loads(Request("metrics", "app", q).serialize())["mql_context"], plain), "the sent context is not exactly what was given")
    ctx.reach("sent")


QUERIES = {
    "ts": lambda: ts(filters=[Condition(Column("a"), Op.EQ, "x")]),
    "formula": lambda: Formula("plus", [ts(), 1.0], groupby=[Column("g")]),
    "mql": lambda: "max(`" + MRI + "`){a:b}",
}


def full(ctx, query, how, shape):
    """every combination of optional parts, all values symbolic"""
    start, end = ctx.datetime("start"), ctx.datetime("end")
    gran = ctx.choice("gran", list(ALLOWED))
    interval = totals = orderby = None
    if shape == "interval":
        interval = ctx.int("interval", 10)
        ctx.assume(interval >= gran)
        totals = ctx.choice("totals", [None, True, False])
    else:
        totals = ctx.choice("totals", [True, False])
        orderby = ctx.choice("orderby", [None, Direction.ASC, Direction.DESC])
    limit = ctx.int("limit", 1, 10000) if ctx.choice("limit?", [False, True]) else None
    offset = ctx.int("offset", 0) if ctx.choice("offset?", [False, True]) else None
    extra = ctx.choice("extra", [None, True, False])
    k = ctx.choice("sizes", [0, 1, 2])
    org = ctx.int("org")
    orgs = [[org], [0], [org, ctx.int("org2"), 1]][k]
    projects = [[], [ctx.int("proj"), 0], [7]][k]
    use = [None, "", ctx.str("use", 2)][k]
    mappings = [{}, {"a": ctx.int("m"), "": 0}, {"b": ctx.str("ms", 1), "a": 5, "c": ""}][k]
    roll = Rollup(interval=interval, totals=totals, orderby=orderby, granularity=gran)
    scope = MetricsScope(orgs, projects, use)
    q0 = QUERIES[query]()
    if how == "init":
        q = MetricsQuery(q0, start, end, roll, scope, None if limit is None else Limit(limit), None if offset is None else Offset(offset),
                         None if extra is None else Extrapolate(extra), mappings)
    else:
        q = MetricsQuery().set_indexer_mappings(mappings).set_scope(scope).set_rollup(roll)
        if extra is not None:
            q = q.set_extrapolate(extra)
        if offset is not None:
            q = q.set_offset(offset)
        if limit is not None:
            q = q.set_limit(limit)
        q = q.set_end(end).set_start(start).set_query(q0)
    verify(ctx, q, context(start, end, interval, gran, totals, orderby, orgs, projects, use, limit, offset, extra, mappings))


def instants(ctx, aware):
    """any start and end, with or without offset"""
    start, end = ctx.datetime("start", aware), ctx.datetime("end", ctx.choice("both", [aware, False]))
    q = mquery(ts(), start=start, end=end)
    verify(ctx, q, context(start, end, 60, 60, None, None, [1], [11], "transactions", None, None, None, {}))


def rollup(ctx, gk, ik):
    """a rollup is accepted exactly if it is consistent"""
    g = None if gk == "none" else (ctx.choice("g", list(ALLOWED)) if gk == "allowed" else ctx.int("g"))
    i = None if ik == "none" else ctx.int("i")
    t = ctx.choice("t", [None, True, False])
    o = ctx.choice("o", [None, Direction.ASC, Direction.DESC])
    ok = True
    if g is not None:
        ok = ctx.both(ok, ctx.either(*[g == a for a in ALLOWED]))
    if i is not None:
        ok = ctx.both(ok, i >= 10)
        if g is not None:
            ok = ctx.both(ok, i >= g)
    if i is None and t is None:
        ok = False
    if i is not None and o is not None:
        ok = False
    how = ctx.choice("how", ["init", "replace"])
    try:
        if how == "init":
            r = Rollup(i, t, o, g)
        else:
            r = dataclasses.replace(Rollup(interval=60, granularity=60), interval=i, totals=t, orderby=o, granularity=g)
    except Exception as e:
        ctx.check(sdk(e), "a rollup is refused with a foreign error")
        ctx.check(ctx.no(ok), "a consistent rollup is refused")
        ctx.reach("refused")
        return
    ctx.check(ok, "an inconsistent rollup is accepted")
    ctx.reach("accepted")
    m = mquery(ts(), rollup=r)
    if g is None:
        for use in (m.validate, m.serialize, m.print):
            try:
                use()
            except Exception as e:
                ctx.check(sdk(e), "a rollup without granularity is refused with a foreign error")
                continue
            ctx.fail("a rollup without granularity is accepted")
    else:
        got = m.serialize()["mql_context"]["rollup"]
        ctx.check(deep_eq(ctx, got, context(START, END, i, g, t, o, [], [], None, None, None, None, {})["rollup"]), "the rollup is not passed on exactly")


WRONG = {
    "interval": [60.0, "60", [60], 10.5, (60,), b"60"],
    "granularity": [60.0, "60", [60], 10.0, (10,), 0.0, 0],
    "totals": [1, 0, "True", [], 1.0, "", ()],
    "orderby": ["ASC", 0, 1, "", [], False, True],
}


def wrong(ctx, what):
    """a rollup with a part of the wrong type is refused"""
    v = ctx.choice("v", WRONG[what])
    base = {"interval": dict(interval=60, granularity=60), "granularity": dict(interval=60), "totals": dict(interval=60, granularity=60), "orderby": dict(totals=True, granularity=60)}[what]
    if what == "totals" and ctx.choice("alone", [False, True]):
        base = dict(granularity=60)
    base[what] = v
    try:
        Rollup(**base)
    except Exception as e:
        ctx.check(sdk(e), "a rollup is refused with a foreign error")
        ctx.reach("refused")
        return
    ctx.fail("a rollup with a part of the wrong type is accepted")


def missing(ctx):
    """every set of missing required parts is refused by every use"""
    gone = [f for f in ("start", "end", "rollup", "scope", "query", "granularity") if ctx.choice(f, [False, True])]
    if not gone:
        return ctx.reach("refused")
    m = mquery(QUERIES[ctx.choice("query?", list(QUERIES))]())
    for f in gone:
        m = dataclasses.replace(m, **({f: None} if f != "granularity" else {"rollup": None if "rollup" in gone else Rollup(interval=60)}))
    for use in (m.validate, m.serialize, m.print, Request("metrics", "app", m).to_dict, Request("metrics", "app", m).serialize):
        try:
            use()
        except Exception as e:
            ctx.check(sdk(e), "an incomplete metrics query is refused with a foreign error")
            ctx.reach("refused")
            continue
        ctx.fail("an incomplete metrics query is accepted")


BAD = {
    "start": ["2023-01-01", 5, 0, START.date(), False, ""],
    "end": ["2023-01-01", 5, 0, END.date(), False, ""],
    "rollup": [60, "60", {"interval": 60}, 0, ""],
    "scope": [1, {"org_ids": [1]}, [1], "", 0],
    "limit": [5, "5", Offset(5), 0, ""],
    "offset": [5, "5", Limit(5), 0, ""],
    "extrapolate": [True, "True", 1, False, 0],
    "indexer_mappings": [[], "a", 5, [("a", 1)], 0, ""],
    "query": [5, Metric(mri=MRI), Column("a"), [], b"max(foo)", 0, {}],
}


def mistyped(ctx, field):
    """a query with a part of the wrong type is refused by every use"""
    v = ctx.choice("v", BAD[field])
    m = dataclasses.replace(mquery(QUERIES[ctx.choice("query?", list(QUERIES))]()), **{field: v})
    for use in (m.validate, m.serialize, m.print, Request("metrics", "app", m).to_dict):
        try:
            use()
        except Exception as e:
            ctx.check(sdk(e), "a mistyped metrics query is refused with a foreign error")
            ctx.reach("refused")
            continue
        ctx.fail("a mistyped metrics query is accepted")


def mutated(ctx):
    """parts that were made invalid after being built are refused when the query is used"""
    m = mquery(ts())
    what = ctx.choice("what", ["org", "project", "use case", "filters", "groupby", "metric", "aggregate", "params"])
    if what == "org":
        m.scope.org_ids = ["1"]
    elif what == "project":
        m.scope.project_ids.append("x")
    elif what == "use case":
        m.scope.use_case_id = 5
    elif what == "filters":
        m.query.filters = ["a"]
    elif what == "groupby":
        m.query.groupby = ["a"]
    elif what == "metric":
        m.query.metric = MRI
    elif what == "aggregate":
        m.query.aggregate = 5
    else:
        m.query.aggregate_params = [Column("a")]
    for use in (m.validate, m.serialize, m.print, Request("metrics", "app", m).to_dict):
        try:
            use()
        except Exception as e:
            ctx.check(sdk(e), "an invalid metrics query is refused with a foreign error")
            ctx.reach("refused")
            continue
        ctx.fail("an invalid metrics query is accepted")


def scopes(ctx, no, np):
    """any organisations and projects, in order, with repetitions"""
    orgs = [ctx.int("o%d" % j) for j in range(no)]
    projects = [ctx.int("p%d" % j) for j in range(np)]
    use = ctx.choice("use", [None, "", "transactions", ctx.str("u", 2)])
    sc = MetricsScope(orgs, projects)
    if use is not None:
        sc = sc.set_use_case_id(use)
    verify(ctx, mquery(ts(), scope=sc), context(START, END, 60, 60, None, None, list(orgs), list(projects), use, None, None, None, {}))


def mappings(ctx, n):
    """any indexer mappings"""
    d = {}
    for j in range(n):
        d["k%d" % j] = ctx.choice("m%d" % j, [ctx.int("i%d" % j), ctx.str("s%d" % j, 2), 0, ""])
    keys = ctx.choice("key", [None, "start", "", "rollup"])
    if keys is not None:
        d[keys] = 5
    verify(ctx, mquery(ts(), indexer_mappings=d), context(START, END, 60, 60, None, None, [1], [11], "transactions", None, None, None, dict(d)))


def much(ctx, n):
    """very many organisations, projects and mappings, repeated and zero ones included"""
    v = ctx.int("v")
    same_ = ctx.choice("same", [False, True])
    at = ctx.choice("at", [0, n // 2, n - 1])
    ids = [7 if same_ else (n - k) % 40 for k in range(n)]
    ids[at] = v
    other = [k * 3 for k in range(n)]
    maps = {"k%d" % (n - k): k if k % 3 else "" if k % 2 else "m%d" % k for k in range(n)}
    maps["k%d" % (n - at)] = v
    how = ctx.choice("how", ["orgs", "projects", "both"])
    orgs, projects = ids if how != "projects" else [1], ids if how == "projects" else other
    q = mquery(ts(), scope=MetricsScope(list(orgs), list(projects), "use"), indexer_mappings=dict(maps))
    verify(ctx, q, context(START, END, 60, 60, None, None, list(orgs), list(projects), "use", None, None, None, dict(maps)))


def cases(tier):
    deep = tier == "thorough"
    out = []
    for query in QUERIES:
        for how in ("init", "set"):
            for shape in ("interval", "totals"):
                if deep or (query, how) in (("ts", "init"), ("formula", "set")):
                    out.append(("full/%s/%s/%s" % (query, how, shape), full, {"query": query, "how": how, "shape": shape}, {"reach": ["sent"], "bounds": "every combination", "cost": 100}))
    out.append(("full/mql", full, {"query": "mql", "how": "init", "shape": "totals"}, {"reach": ["sent"], "bounds": "every combination", "cost": 100}))
    for a in (False, True):
        out.append(("instants/%s" % a, instants, {"aware": a}, {"reach": ["sent"], "bounds": "every instant to the microsecond", "cost": 5}))
    for gk in ("none", "allowed", "any"):
        for ik in ("none", "any"):
            out.append(("rollup/%s/%s" % (gk, ik), rollup, {"gk": gk, "ik": ik}, {"reach": ["refused", "accepted"], "bounds": "all integers", "cost": 5}))
    for w in WRONG:
        out.append(("wrong/" + w, wrong, {"what": w}, {"reach": ["refused"], "bounds": "a pool of types"}))
    out.append(("missing", missing, {}, {"reach": ["refused"], "bounds": "every set of missing parts", "cost": 20}))
    for f in BAD:
        out.append(("mistyped/" + f, mistyped, {"field": f}, {"reach": ["refused"], "bounds": "a pool of types"}))
    out.append(("mutated", mutated, {}, {"reach": ["refused"], "bounds": "each part"}))
    for no, np in ((0, 0), (1, 0), (0, 2), (3, 3)) + (((10, 50),) if deep else ()):
        out.append(("scopes/%d/%d" % (no, np), scopes, {"no": no, "np": np}, {"reach": ["sent"], "bounds": "all integers", "cost": 3}))
    for n in (0, 1, 2, 3) if deep else (0, 1, 2):
        out.append(("mappings/%d" % n, mappings, {"n": n}, {"reach": ["sent"], "bounds": "%d mappings" % n, "cost": 5 ** n}))
    out.append(("scopes/40/150", scopes, {"no": 40, "np": 150}, {"reach": ["sent"], "bounds": "all integers", "cost": 30}))
    for n in (12, 60, 150):
        out.append(("much/%d" % n, much, {"n": n}, {"reach": ["sent"], "bounds": "%d mappings, organisations and projects" % n, "cost": 20}))
    return out
