"""A query is printed with exactly its clauses, each complete and in the language's order."""
from props.lib import (
    AliasedExpression, Column, Condition, Direction, Entity, Function, Granularity, Limit, LimitBy, Offset, Op, Or,
    OrderBy, Query, Storage, T, Totals, W, build, check_text, commas, joined, query, ref,
)

OUTSIDE = "lists longer than 12; joins and subqueries (their own property)"

SEL = [("col", "a"), ("fn", "count", [], "cnt"), ("as", ("col", "b"), "bb"), ("cfn", "q2", [("f", 0.5)], [("col", "d")], None)]
GRP = [("col", "g"), ("fn", "toHour", [("col", "ts")], "hr"), ("as", ("col", "h"), "hh")]
AJ = ["x.y", "tags.key"]
WH = [("c", ("col", "w"), "=", ("i", 1)), ("c", ("col", "v"), "IS NULL"), ("or", [("c", ("col", "p"), "<", ("i", 2)), ("c", ("col", "q"), "=", ("s", "LIMIT 1"))])]
HV = [("c", ("fn", "count", [], None), ">", ("i", 5)), ("and", [("c", ("col", "m"), "IS NOT NULL"), ("c", ("col", "n"), "LIKE", ("s", "%"))])]
OB = [(("fn", "count", [], None), Direction.DESC), (("col", "o"), Direction.ASC)]

CLAUSES = ["groupby", "array_join", "where", "having", "orderby", "limitby", "limit", "offset", "granularity", "totals"]


def seq(specs, ents=None):
    return [build(s, ents) for s in specs]


def wants(match, d):
    """the tokens of a query from the plain description d"""
    out = T("MATCH") + match + T("SELECT") + commas([ref(s) for s in d["select"]])
    if d.get("groupby"):
        out = out + T("BY") + commas([ref(s) for s in d["groupby"]])
    if d.get("array_join"):
        out = out + T("ARRAY JOIN") + commas([T(c) for c in d["array_join"]])
    if d.get("where"):
        out = out + T("WHERE") + joined([ref(s) for s in d["where"]], "AND")
    if d.get("having"):
        out = out + T("HAVING") + joined([ref(s) for s in d["having"]], "AND")
    if d.get("orderby"):
        out = out + T("ORDER BY") + commas([ref(s) + T(o.value) for s, o in d["orderby"]])
    if d.get("limitby") is not None:
        n, cols = d["limitby"]
        out = out + T("LIMIT") + W(str(n)) + T("BY") + commas([T(c) for c in cols])
    for k, word in (("limit", "LIMIT"), ("offset", "OFFSET"), ("granularity", "GRANULARITY")):
        if d.get(k) is not None:
            out = out + T(word) + W(str(d[k]))
    if d.get("totals") is not None:
        out = out + T("TOTALS") + T("True" if d["totals"] else "False")
    return out


def make(match, d, setters=False, ents=None):
    kw = {"select": seq(d["select"], ents)}
    for k in ("groupby", "where", "having"):
        if d.get(k) is not None:
            kw[k] = seq(d[k], ents)
    if d.get("array_join") is not None:
        kw["array_join"] = [Column(c) for c in d["array_join"]]
    if d.get("orderby") is not None:
        kw["orderby"] = [OrderBy(build(s, ents), o) for s, o in d["orderby"]]
    if d.get("limitby") is not None:
        n, cols = d["limitby"]
        kw["limitby"] = LimitBy([Column(c) for c in cols], n)
    if not setters:
        for k, c in (("limit", Limit), ("offset", Offset), ("granularity", Granularity), ("totals", Totals)):
            if d.get(k) is not None:
                kw[k] = c(d[k])
        return Query(match, **kw)
    q = Query(match)
    for k, v in kw.items():
        q = getattr(q, "set_" + k)(v)
    for k in ("limit", "offset", "granularity", "totals"):
        if d.get(k) is not None:
            q = getattr(q, "set_" + k)(d[k])
    return q


def fold(tokens):
    """TOTALS takes a boolean word whose case is not significant"""
    return tokens


def verify(ctx, q, want):
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, want, "the query text does not consist of exactly the query's clauses, in order")
    ctx.check(str(q) == text, "str(query) differs from serialize()")
    check_text(ctx, q.print(), want, "print() does not consist of exactly the query's clauses, in order")
    ctx.check(q.serialize() == text, "a second serialize() differs from the first")


def presence(ctx, match, setters, fixed):
    """every subset of the clauses"""
    m, mt = MATCHES[match]
    on = dict(fixed)
    for c in CLAUSES:
        if c not in on:
            on[c] = ctx.choice(c, [False, True])
    d = {"select": [SEL[0], SEL[1]]}
    if on["groupby"]:
        d["groupby"] = GRP[:1]
    if on["array_join"]:
        d["array_join"] = AJ[:1]
    if on["where"]:
        d["where"] = WH[:2]
    if on["having"]:
        d["having"] = HV[:1]
    if on["orderby"]:
        d["orderby"] = OB
    if on["limitby"]:
        d["limitby"] = (ctx.int("lb", 1, 10000), ["k"])
    if on["limit"]:
        d["limit"] = ctx.int("l", 1, 10000)
    if on["offset"]:
        d["offset"] = ctx.int("o", 0)
    if on["granularity"]:
        d["granularity"] = ctx.int("g", 1)
    if on["totals"]:
        d["totals"] = ctx.bool("tt") if on["groupby"] else False
    verify(ctx, make(m, d, setters), wants(mt, d))


MATCHES = {
    "entity": (Entity("events"), T("(events)")),
    "aliased": (Entity("events", "ev"), T("(events)")),
    "storage": (Storage("errors_ro"), T("STORAGE(errors_ro)")),
}


def sizes(ctx, clause, ns):
    """lists of every length, with repeated elements"""
    n = ctx.choice("n", ns)
    same = ctx.choice("same", [False, True])
    d = {"select": [SEL[0]]}
    if clause == "select":
        d["select"] = [SEL[(0 if same else k) % 4] if k % 2 else ("col", "s" if same else "s%d" % k) for k in range(n)]
    elif clause == "groupby":
        d["groupby"] = [GRP[(0 if same else k) % 3] if k % 2 else ("col", "s" if same else "s%d" % k) for k in range(n)]
    elif clause == "array_join":
        d["array_join"] = ["j" if same else "j%d.x" % k for k in range(n)]
    elif clause == "where":
        d["where"] = [WH[k % 3] if not same else WH[0] for k in range(n)]
    elif clause == "having":
        d["having"] = [HV[k % 2] if not same else HV[0] for k in range(n)]
    elif clause == "orderby":
        dirs = [ctx.choice("d%d" % k, [Direction.ASC, Direction.DESC]) if k < 3 else OB[k % 2][1] for k in range(n)]
        d["orderby"] = [(("col", "o" if same else "o%d" % k), dirs[k]) for k in range(n)]
    elif clause == "limitby":
        d["limitby"] = (ctx.int("lb", 1, 10000), ["k" if same else "k%d" % k for k in range(n)])
    if n == 0 and clause == "limitby":
        return
    verify(ctx, make(Entity("events"), d, ctx.choice("set", [False, True]) if n else False), wants(T("(events)"), d))


def numbers(ctx):
    """every admissible number, including the extremes, in every combination of clauses"""
    d = {"select": [SEL[0]], "limitby": (ctx.int("lb", 1, 10000), ["k"]), "limit": ctx.int("l", 1, 10000),
         "offset": ctx.int("o", 0), "granularity": ctx.int("g", 1)}
    verify(ctx, make(Entity("events"), d, ctx.choice("set", [False, True])), wants(T("(events)"), d))


def totals(ctx):
    """TOTALS is printed for an explicit False as well"""
    on = ctx.bool("t")
    d = {"select": [SEL[0]], "groupby": GRP[:1], "totals": on}
    verify(ctx, make(Entity("events"), d, ctx.choice("set", [False, True])), wants(T("(events)"), d))


EXPRS = {
    "select": lambda e: dict(select=[e, ("col", "a")]), "groupby": lambda e: dict(groupby=[e]),
    "orderby": lambda e: dict(orderby=[(e, Direction.ASC)]), "where": lambda e: dict(where=[("c", e, "=", ("i", 1))]),
    "having": lambda e: dict(having=[("c", e, "=", ("i", 1))]),
}


def cross(ctx):
    """the same expression object in several clauses is printed in full in each of them"""
    e = ctx.choice("e", [SEL[0], SEL[1], SEL[3], ("fn", "foo", [("fn", "bar", [("col", "z")], "inner")], "outer")])
    d = {"select": [e, e], "groupby": [e], "where": [("c", e, "!=", ("i", 1))], "having": [("c", e, ">", ("i", 2))],
         "orderby": [(e, Direction.DESC), (e, Direction.ASC)]}
    obj = build(e)
    q = Query(Entity("events"), [obj, obj], [obj], None, [Condition(obj, Op.NEQ, 1)], [Condition(obj, Op.GT, 2)],
              [OrderBy(obj, Direction.DESC), OrderBy(obj, Direction.ASC)])
    verify(ctx, q, wants(T("(events)"), d))


def rewritten(ctx, fixed):
    """an OR group of equalities in WHERE: whatever becomes of it, every other clause is still there"""
    a, b = ctx.int("a"), ctx.int("b")
    g = ("or", [("c", ("col", "w"), "=", ("i", a)), ("c", ("col", "w"), "=", ("i", b))])
    d = {"select": [SEL[0], SEL[1]]}
    opt = {"groupby": GRP[:2], "array_join": AJ, "having": [("or", [("c", ("col", "m"), "=", ("i", 1)), ("c", ("col", "n"), "=", ("i", 2))])],
           "orderby": OB, "limitby": (ctx.int("lb", 1, 10000), ["k"]), "limit": ctx.int("l", 1, 10000), "offset": ctx.int("o", 0), "granularity": ctx.int("g", 1)}
    for k in opt:
        if ctx.choice(k, [False, True]):
            d[k] = opt[k]
    d["where"] = [g] if ctx.choice("more", [False, True]) else [WH[1], g]
    if "groupby" in d:
        d["totals"] = True
    q = make(Entity("events"), d, fixed)
    alts = []
    for f in (ref(g), T("w IN array(") + W(str(a)) + T(",") + W(str(b)) + T(")"), T("w IN tuple(") + W(str(a)) + T(",") + W(str(b)) + T(")")):
        e = dict(d)
        e["where"] = [("tok", f) if x is g else x for x in d["where"]]
        alts.append(wants(T("(events)"), e))
    for text in (q.serialize(), q.print(), str(q)):
        ctx.observe("snql", text)
        ctx.check(ctx.either(*[ctx.matches(text, x) for x in alts]), "a clause is lost or changed beside an OR group")
    ctx.reach("serialized")


def long(ctx, pad, where):
    """long texts: two arbitrary characters inside a literal full of separators"""
    v = ("s", PADDING * pad + ctx.str("v", 2) + PADDING * pad)
    d = {"select": [SEL[0], ("fn", "foo", [v, ("i", 1)], "ff") if where == "select" else SEL[1]]}
    if where in ("where", "having"):
        d[where] = [("c", ("col", "w"), "=", v), ("c", ("col", "v"), "IS NULL")]
    if where == "orderby":
        d["orderby"] = [(("fn", "foo", [v], None), Direction.ASC), (("col", "o"), Direction.DESC)]
    verify(ctx, make(Entity("events"), d), wants(T("(events)"), d))


PADDING = "x, y  (z) AS `q` LIMIT 5\n"


def cases(tier):
    deep = tier == "thorough"
    out = []
    for s in (False, True):
        out.append(("rewritten/%s" % s, rewritten, {"fixed": s}, {"reach": ["serialized"], "bounds": "every subset of clauses", "cost": 60}))
    for w in ("select", "where", "having", "orderby"):
        for pad in (2, 20) if not deep else (1, 2, 4, 10, 20, 100):
            out.append(("long/%s/%d" % (w, pad), long, {"pad": pad, "where": w}, {"reach": ["serialized"], "bounds": "literals of %d characters" % (50 * pad + 2), "cost": 20}))
    for m in MATCHES:
        for s in (False, True):
            if m == "storage" or m == "entity" or deep:
                for g in (False, True):
                    for w in (False, True):
                        out.append(("presence/%s/%s/g%dw%d" % (m, "set" if s else "ctor", g, w), presence,
                                    {"match": m, "setters": s, "fixed": {"groupby": g, "where": w}},
                                    {"reach": ["serialized"], "bounds": "all 1024 subsets of clauses", "cost": 50}))
    for c in ("select", "groupby", "array_join", "where", "having", "orderby", "limitby"):
        ns = list(range(1, 9)) + [12, 40, 150]
        if c not in ("select", "limitby"):
            ns = [0] + ns
        out.append(("sizes/" + c, sizes, {"clause": c, "ns": ns}, {"reach": ["serialized"], "bounds": "up to 8, and 12, 40 and 150 elements", "cost": 5}))
    out.append(("numbers", numbers, {}, {"reach": ["serialized"]}))
    out.append(("totals", totals, {}, {"reach": ["serialized"]}))
    out.append(("cross", cross, {}, {"reach": ["serialized"]}))
    return out
