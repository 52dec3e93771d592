"""A request carries exactly its query, flags and identity."""
import dataclasses
import json
from datetime import datetime

from props.lib import Column, Condition, Entity, Function, Granularity, Join, Limit, Op, Or, Query, Relationship, Storage, Totals
from props.mlib import MRI, Formula, Metric, MetricsScope, Rollup, Timeseries, mquery, ts

from snuba_sdk.delete_query import DeleteQuery
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.request import Flags, Request

OUTSIDE = "tenant mappings of more than 4 entries; identity strings longer than stated"

NAMES = ("totals", "consistent", "turbo", "debug", "dry_run", "legacy")


def sdk(e):
    return type(e).__module__.startswith("snuba_sdk")


def q_entity(ctx):
    return Query(Entity("events"), [Column("a")], where=[Condition(Column("b"), Op.EQ, ctx.str("v", 1))], limit=Limit(ctx.int("lim", 1, 10000)))


def q_storage(ctx):
    return Query(Storage("events"), [Column("a")], where=[Or([Condition(Column("b"), Op.EQ, ctx.int("v")), Condition(Column("b"), Op.EQ, 1)])])


def q_sub(ctx):
    return Query(Query(Entity("events"), [Column("a")]), [Column("a")], groupby=[Column("a")], totals=Totals(ctx.bool("v")))


def q_join(ctx):
    e, f = Entity("events", "e"), Entity("spans", "s")
    return Query(Join([Relationship(e, "has", f)]), [Column("a", e)], granularity=Granularity(ctx.int("v", 1)))


def q_metrics(ctx):
    return mquery(ts(filters=[Condition(Column("b"), Op.EQ, ctx.str("v", 1)), Or([Condition(Column("c"), Op.EQ, "x"), Condition(Column("c"), Op.EQ, "y")])]),
                  scope=MetricsScope([ctx.int("w")], [2], "use"))


def q_formula(ctx):
    return mquery(Formula("plus", [ts(), ctx.int("v")], groupby=[Column("g")]), limit=Limit(ctx.int("lim", 1, 10000)), rollup=Rollup(totals=True, granularity=60))


def q_mql(ctx):
    return mquery("max(`" + MRI + "`)", indexer_mappings={"k": ctx.int("v")})


def q_delete(ctx):
    return DeleteQuery("store", {"a": [ctx.int("v"), 1], "b": [ctx.str("w", 1)]})


QUERIES = {"entity": q_entity, "storage": q_storage, "subquery": q_sub, "join": q_join, "metrics": q_metrics, "formula": q_formula, "mql": q_mql,
           "delete": q_delete}


def body_of(q):
    """what the query itself serializes to, and its context"""
    r = q.serialize()
    if isinstance(q, MetricsQuery):
        return r["mql"], r["mql_context"]
    return r, None


def deep_eq(ctx, a, b):
    if isinstance(b, dict):
        if not isinstance(a, dict) or len(a) != len(b):
            return False
        return ctx.both(*[ctx.both(k in a, k in a and deep_eq(ctx, a[k], v)) for k, v in b.items()])
    if isinstance(b, (list, tuple)):
        if not isinstance(a, (list, tuple)) or len(a) != len(b):
            return False
        return ctx.both(*[deep_eq(ctx, x, y) for x, y in zip(a, b)])
    if b is None or a is None:
        return a is b
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


def expected(q, flags, dataset, app, api, tenants):
    text, context = body_of(q)
    want = {k: v for k, v in flags.items() if v is not None}
    want.update({"query": text, "app_id": app, "parent_api": api, "tenant_ids": tenants})
    if not isinstance(q, DeleteQuery):
        want["dataset"] = dataset
    if context is not None:
        want["mql_context"] = context
    return want


def verify(ctx, r, want):
    got = r.to_dict()
    ctx.check(deep_eq(ctx, got, want), "the request does not carry exactly what was given")
    for how in (r.serialize, r.serialize_mql, r.__str__, r.print):
        ctx.check(deep_eq(ctx, json.loads(how()), json.loads(json.dumps(want))), "the JSON text is not the request")
    ctx.reach("sent")


def flags(ctx, query, fixed):
    """every assignment of the flags"""
    q = QUERIES[query](ctx)
    fl = dict(fixed)
    for n in NAMES:
        if n not in fl:
            fl[n] = ctx.choice(n, [None, True, False])
    how = ctx.choice("how", ["init", "assign"]) if query == "entity" else "init"
    if how == "init":
        f = Flags(**fl)
    else:
        f = Flags()
        for k, v in fl.items():
            setattr(f, k, v)
    r = Request("events", "app", q, f)
    got = r.to_dict()
    ctx.check(deep_eq(ctx, got, expected(q, fl, "events", "app", "<unknown>", {})), "the request does not carry exactly the flags that are set")
    ctx.check(deep_eq(ctx, f.to_dict(), {k: v for k, v in fl.items() if v is not None}), "the flags are changed")
    ctx.reach("sent")


def symbolic_flags(ctx, query):
    """the value of each flag is its own"""
    q = QUERIES[query](ctx)
    on = {n: ctx.bool("f_" + n) for n in NAMES}
    r = Request("events", "app", q, Flags(**on))
    verify(ctx, r, expected(q, on, "events", "app", "<unknown>", {}))


FLAGCH = tuple(sorted(tuple((ord(c), ord(c)) for c in "_.+*/:-[]") + ((48, 57), (65, 90), (97, 122))))


def identity(ctx, query, n):
    """identity strings and tenants are carried exactly"""
    q = QUERIES[query](ctx)
    ds = ctx.str("ds", n, FLAGCH)
    app = ctx.str("app", n, FLAGCH)
    api = ctx.str("api", n)
    k = ctx.choice("tenants", [0, 1, 2, 3])
    tenants = {}
    for j in range(k):
        tenants["t%d" % j] = ctx.int("tv%d" % j) if j % 2 == 0 else ctx.str("tv%d" % j, 2)
    how = ctx.choice("how", ["pos", "kw", "default api"])
    if how == "pos":
        r = Request(ds, app, q, Flags(debug=True), api, tenants)
    elif how == "kw":
        r = Request(tenant_ids=tenants, parent_api=api, query=q, app_id=app, dataset=ds, flags=Flags(debug=True))
    else:
        api = "<unknown>"
        r = Request(ds, app, q, Flags(debug=True), tenant_ids=tenants)
    verify(ctx, r, expected(q, {"debug": True}, ds, app, api, tenants))


def onechar(ctx, place):
    """one free character, wherever a text may stand"""
    c = "a" + ctx.str("c", 1) + "b"
    q = Query(Entity("events"), [Column("a")], where=[Condition(Column("b"), Op.EQ, c if place == "literal" else "x")])
    if place == "mql":
        q = mquery(ts(filters=[Condition(Column("b"), Op.EQ, c)]), scope=MetricsScope([1], [2], "use"))
    elif place == "scope":
        q = mquery(ts(), scope=MetricsScope([1], [2], c))
    elif place == "mapping":
        q = mquery(ts(), indexer_mappings={"k": c})
    elif place == "delete":
        q = DeleteQuery("store", {"a": ["x", c]})
    tenants = {c: 1} if place == "tenant key" else {"t": c} if place == "tenant" else {}
    api = c if place == "api" else "api"
    verify(ctx, Request("events", "app", q, Flags(debug=True), api, tenants), expected(q, {"debug": True}, "events", "app", api, tenants))


def tenant_keys(ctx):
    """tenant names are free, also those that look like entries of the request"""
    q = QUERIES["entity"](ctx)
    k = ctx.choice("key", ["query", "dataset", "app_id", "debug", "organization_id", "referrer", "", "mql_context"])
    v = ctx.choice("val", [0, 1, "", "x", True])
    r = Request("events", "app", q, tenant_ids={k: v})
    verify(ctx, r, expected(q, {}, "events", "app", "<unknown>", {k: v}))


def much(ctx, n):
    """very many tenants, and very large queries"""
    what = ctx.choice("what", ["tenants", "select", "values", "mql", "delete", "texts"])
    v = ctx.int("number")
    tenants = {}
    q = QUERIES["entity"](ctx)
    if what == "tenants":
        tenants = {"T%d" % (n - k) if k % 2 else "t %d" % k: v if k == n // 2 else k if k % 3 else "" for k in range(n)}
    elif what == "select":
        q = Query(Entity("events"), [Column("c%d" % (n - k)) for k in range(n)])
    elif what == "values":
        q = Query(Entity("events"), [Column("a")], where=[Condition(Column("b"), Op.IN, [v] + ["x'%d" % k for k in range(n)])])
    elif what == "mql":
        q = mquery(ts(filters=[Condition(Column("k%d" % k), Op.EQ, 'v"%d' % k) for k in range(n)]), scope=MetricsScope(list(range(n)), [v] * n, "use"), indexer_mappings={"m%d" % k: k for k in range(n)})
    elif what == "delete":
        q = DeleteQuery("store", {"c%d" % k: [v, "x%d" % k] for k in range(n)})
    else:
        tenants = {"t" * n: "u " * n}
    api = "api" * (n if what == "texts" else 1)
    verify(ctx, Request("events" * (n if what == "texts" else 1), "app", q, Flags(debug=True), api, tenants),
           expected(q, {"debug": True}, "events" * (n if what == "texts" else 1), "app", api, tenants))


def noflags(ctx):
    """no flags at all"""
    q = QUERIES[ctx.choice("q", list(QUERIES))](ctx)
    r = Request("events", "app", q, None) if ctx.choice("none", [True, False]) else Request("events", "app", q)
    verify(ctx, r, expected(q, {}, "events", "app", "<unknown>", {}))


def defaults(ctx):
    """defaults are not shared between requests"""
    q = QUERIES["entity"](ctx)
    a = Request("events", "app", q)
    a.flags.debug = True
    a.tenant_ids["x"] = 1
    b = Request("events", "app", q)
    verify(ctx, b, expected(q, {}, "events", "app", "<unknown>", {}))


BAD = {
    "dataset": ["", None, 5, "a b", "a'b", b"ev", "a\nb", "ev\n", ["events"], "é"],
    "app_id": ["", None, 5, "a b", "a;b", b"app", "app\n", "app\"", ("app",), "a,b"],
    "parent_api": ["", None, 5, b"x", ["x"], 0],
    "tenant_ids": [None, [], ["a"], "a", 5, (("a", 1),), {"a"}],
    "flags.debug": [0, 1, "true", "", [], 1.0],
    "flags.totals": [0, 1, "true", "", {}, 1.0],
    "flags.legacy": [0, 1, "true", "", {}, 1.0],
    "flags.turbo": [0, 1, b"", "True"],
    "flags.consistent": [0, 1, "False", ()],
    "flags.dry_run": [0, 1, "None", Column("a")],
    "query": ["select", "totals", "subquery", "model", "metrics start", "metrics scope", "metrics rollup", "metrics query", "delete empty", "delete values",
              "metrics granularity", "formula"],
}


def bad_query(k):
    if k == "select":
        return Query(Entity("events"))
    if k == "totals":
        return Query(Entity("events"), [Column("a")], totals=Totals(True))
    if k == "subquery":
        return Query(Query(Entity("events"), [Column("a")]), [Column("b")])
    if k == "model":
        e, f = Entity("events", "e"), Entity("spans", "s")
        return Query(Join([Relationship(e, "has", f)]), [Column("a")])
    if k == "metrics start":
        return dataclasses.replace(mquery(ts()), start=None)
    if k == "metrics scope":
        return dataclasses.replace(mquery(ts()), scope=None)
    if k == "metrics rollup":
        return dataclasses.replace(mquery(ts()), rollup=None)
    if k == "metrics query":
        return dataclasses.replace(mquery(ts()), query=None)
    if k == "metrics granularity":
        return mquery(ts(), rollup=Rollup(interval=60))
    if k == "formula":
        return mquery(Formula("plus", [1, 2]))
    if k == "delete empty":
        return DeleteQuery("store", {})
    return DeleteQuery("store", {"a": [1], "b": []})


def invalid(ctx, what):
    """one invalid part: every way of sending it is refused with the SDK's own error"""
    kind = ctx.choice("kind", ["entity", "metrics", "delete", "formula"])
    kw = dict(dataset="events", app_id="app", query=QUERIES[kind](ctx), flags=Flags(debug=True), parent_api="api", tenant_ids={"a": 1})
    v = ctx.choice("value", BAD[what])
    if what == "query":
        kw["query"] = bad_query(v)
    elif what.startswith("flags."):
        setattr(kw["flags"], what[6:], v)
    else:
        kw[what] = v
    r = Request(**kw)
    for how in (r.validate, r.to_dict, r.serialize, r.serialize_mql, r.__str__, r.print):
        try:
            how()
        except Exception as e:
            ctx.check(sdk(e), "an invalid request is refused with a foreign error")
            ctx.reach("refused")
            continue
        ctx.fail("an invalid request is accepted")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for q in QUERIES:
        if q in ("entity", "metrics", "delete") or deep:
            fixed = {}
        else:
            fixed = {"dry_run": True, "turbo": None}
        out.append(("flags/" + q, flags, {"query": q, "fixed": fixed}, {"reach": ["sent"], "bounds": "every flag unset, true or false", "cost": 50}))
        out.append(("symbolic flags/" + q, symbolic_flags, {"query": q}, {"reach": ["sent"], "bounds": "all booleans", "cost": 5}))
        for n in (1, 2, 5) if deep else (1, 3):
            out.append(("identity/%s/%d" % (q, n), identity, {"query": q, "n": n}, {"reach": ["sent"], "bounds": "names of %d characters" % n, "cost": 5}))
    for pl in ("literal", "mql", "scope", "delete", "tenant", "api", "tenant key", "mapping"):
        out.append(("onechar/" + pl, onechar, {"place": pl}, {"reach": ["sent"], "bounds": "any character"}))
    out.append(("tenant_keys", tenant_keys, {}, {"reach": ["sent"], "bounds": "a pool"}))
    out.append(("noflags", noflags, {}, {"reach": ["sent"], "bounds": "every kind of query"}))
    out.append(("defaults", defaults, {}, {"reach": ["sent"], "bounds": "two requests"}))
    for w in BAD:
        out.append(("invalid/" + w, invalid, {"what": w}, {"reach": ["refused"], "bounds": "a pool of invalid values"}))
    for n in (12, 60, 150):
        out.append(("much/%d" % n, much, {"n": n}, {"reach": ["sent"], "bounds": "%d tenants, columns, values, filters" % n, "cost": 20}))
    return out
