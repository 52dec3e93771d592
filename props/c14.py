"""A delete is never sent without complete conditions."""
import json

from props.c13 import deep_eq, sdk

from snuba_sdk.delete_query import DeleteQuery
from snuba_sdk.request import Flags, Request

OUTSIDE = "more columns or values than stated; values that are neither text nor numbers; values not given as a list or tuple"


def value(ctx, tag, kind):
    if kind == "int":
        return ctx.int(tag)
    if kind == "text":
        return ctx.str(tag, 2)
    if kind == "char":
        return ctx.str(tag, 1)
    if kind == "float":
        return ctx.float(tag)
    return kind


def uses(q):
    r = Request("events", "app", q, Flags(debug=True), tenant_ids={"a": 1})
    return [("validate", q.validate), ("serialize", q.serialize), ("validate a request of", r.validate), ("send", r.to_dict),
            ("send", r.serialize), ("send", r.serialize_mql), ("send", r.__str__), ("send", r.print)]


def verify(ctx, q, cols):
    """cols: [(name, [values])] in order; accepted exactly if complete, and then sent exactly"""
    ok = len(cols) > 0 and all(len(vs) > 0 for _, vs in cols)
    for what, how in uses(q):
        try:
            got = how()
        except Exception as e:
            ctx.check(sdk(e), "an incomplete delete is refused with a foreign error")
            ctx.check(not ok, "a complete delete is refused")
            ctx.reach("refused")
            continue
        ctx.check(ok, "it is possible to %s a delete without complete conditions" % what)
        ctx.reach("accepted")
        if got is None:
            continue
        if isinstance(got, str):
            body = json.loads(got)["query"]
            want = json.loads(json.dumps({"columns": {n: list(vs) for n, vs in cols}}))
        else:
            body = got.get("query", got)
            want = {"columns": {n: list(vs) for n, vs in cols}}
        ctx.check(deep_eq(ctx, body, want), "the delete does not carry exactly the given conditions")


def shapes(ctx, ncols, maxv):
    """any number of columns, each with any number of values"""
    sizes = [ctx.choice("n%d" % k, list(range(maxv + 1))) for k in range(ncols)]
    cols = [("c%d" % k, [ctx.int("v%d_%d" % (k, j)) for j in range(m)]) for k, m in enumerate(sizes)]
    verify(ctx, DeleteQuery("store", {n: list(vs) for n, vs in cols}), cols)


def kinds(ctx, n):
    """any mix of kinds of values"""
    ks = [ctx.choice("k%d" % j, ["int", "text", "char", "float", 0, 1, "", "0", -1, "1"]) for j in range(n)]
    vs = [value(ctx, "v%d" % j, k) for j, k in enumerate(ks)]
    cols = [("id", vs[:1]), ("status", vs[1:])] if n > 1 and ctx.choice("two", [True, False]) else [("id", vs)]
    verify(ctx, DeleteQuery("store", {a: list(b) for a, b in cols}), cols)


def names(ctx, n):
    """any column name"""
    a = ctx.str("a", n)
    b = ctx.choice("b", ["columns", "id", "", "query"])
    ctx.assume(ctx.no(a == b))
    store = ctx.str("store", 2)
    cols = [(a, [ctx.int("x")]), (b, [ctx.str("y", 1)] if ctx.choice("full", [True, False]) else [])]
    if ctx.choice("swap", [True, False]):
        cols = cols[::-1]
    verify(ctx, DeleteQuery(store, dict(cols)), cols)


def history(ctx, steps):
    """conditions changed between uses: each use judges what is there now"""
    d = {"a": [ctx.int("x")], "b": [ctx.str("y", 1), 2]}
    q = DeleteQuery("store", d)
    for k in range(steps):
        act = ctx.choice("act%d" % k, ["use", "pop value", "clear column", "drop column", "clear", "add", "add empty", "set"])
        if act == "use":
            verify(ctx, q, [(n, list(v)) for n, v in d.items()])
        elif act == "pop value" and d.get("b"):
            d["b"].pop()
        elif act == "clear column" and "a" in d:
            d["a"].clear()
        elif act == "drop column" and d:
            del d[list(d)[0]]
        elif act == "clear":
            d.clear()
        elif act == "add":
            d.setdefault("b", []).append(ctx.int("z%d" % k))
        elif act == "add empty":
            d["c"] = []
        elif act == "set":
            d["a"] = [ctx.str("w%d" % k, 1)]
    verify(ctx, q, [(n, list(v)) for n, v in d.items()])


def tuples(ctx):
    """values given as a tuple"""
    n = ctx.choice("n", [0, 1, 2])
    vs = tuple(ctx.int("v%d" % j) for j in range(n))
    verify(ctx, DeleteQuery("store", {"a": vs}), [("a", vs)])


def many(ctx, n):
    """many values, an empty column anywhere"""
    empty = ctx.choice("empty", [None] + list(range(5)))
    cols = [("c%d" % k, [] if k == empty else [ctx.int("v%d_%d" % (k, j)) for j in range(n if k == 2 else 1)]) for k in range(5)]
    verify(ctx, DeleteQuery("store", {a: list(b) for a, b in cols}), cols)


def wide(ctx, n):
    """many columns, one of them perhaps empty"""
    empty = ctx.choice("empty", [None] + list(range(n)))
    cols = [("c%d" % (k * 7 % n), [] if k == empty else [ctx.int("v%d" % k), ctx.str("s%d" % k, 1)]) for k in range(n)]
    verify(ctx, DeleteQuery("store", {a: list(b) for a, b in cols}), cols)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n in range(0, 5 if deep else 4):
        out.append(("shapes/%d" % n, shapes, {"ncols": n, "maxv": 4 if deep and n < 4 else 2 if n > 2 else 3},
                    {"reach": ["refused"] + (["accepted"] if n else []), "bounds": "%d columns" % n, "cost": 10 ** (n - 2)}))
    for n in (1, 2, 3) if not deep else (1, 2, 3, 4):
        out.append(("kinds/%d" % n, kinds, {"n": n}, {"reach": ["accepted"], "bounds": "%d values, all integers, floats, texts of 2 characters" % n, "cost": 10 ** (n - 1)}))
    for n in (0, 1, 2) + ((4,) if deep else ()):
        out.append(("names/%d" % n, names, {"n": n}, {"reach": ["accepted", "refused"], "bounds": "names of %d characters" % n, "cost": 3}))
    out.append(("history/3", history, {"steps": 3 if not deep else 4}, {"reach": ["accepted", "refused"], "bounds": "histories of 3 (4) changes and uses", "cost": 100}))
    out.append(("tuples", tuples, {}, {"reach": ["accepted", "refused"], "bounds": "up to 2 values"}))
    for n in (6, 12, 40):
        out.append(("wide/%d" % n, wide, {"n": n}, {"reach": ["accepted", "refused"], "bounds": "%d columns" % n}))
    out.append(("many", many, {"n": 40 if not deep else 200}, {"reach": ["accepted", "refused"], "bounds": "5 columns, 40 (200) values"}))
    return out
