"""Metrics filters and values are printed to MQL safely and completely."""
from props.lib import OPS, S, T, UNARY, AliasedExpression, BooleanCondition, BooleanOp, Column, Condition, CurriedFunction, Function, Op, W, build, commas
from props.mlib import MRI, Formula, Metric, Timeseries, filters_tok, mquery, mref, mval, ts

from snuba_sdk.request import Request

OUTSIDE = ("filter trees deeper or longer than stated; filters whose value is a column or a date (MQL reads neither back); "
           "metric names holding a back-tick; empty grouping lists")

INFIX = {"plus": "+", "minus": "-", "multiply": "*", "divide": "/"}
HEADTOK = lambda: T("max(" + MRI + ")", '"')
TEXT_OPS = ["=", "!=", "LIKE", "NOT LIKE"]
LIST_OPS = ["IN", "NOT IN"]


def outputs(m):
    """every way the query is turned into MQL"""
    return [m.serialize()["mql"], m.serialize()["mql"], Request("metrics", "app", m).to_dict()["query"]]


def verify(ctx, q, want, what):
    m = mquery(q)
    for text in outputs(m):
        ctx.observe("mql", text)
        ctx.check(ctx.matches(text, want, '"'), what)
    ctx.reach("printed")


# ------------------------------------------------------------------ text
def fwrap(fs, where):
    """a query with the filters in this place, and the tokens around them"""
    F = filters_tok(fs)
    objs = [build(f) for f in fs]
    if where == "ts":
        return ts(filters=objs), HEADTOK() + F
    if where == "formula":
        return Formula("plus", [ts(), 2.0], filters=objs), T("(") + HEADTOK() + T("+ 2.0 )") + F
    if where == "first":
        return Formula("divide", [ts(filters=objs), ts()]), T("(") + HEADTOK() + F + T("/") + HEADTOK() + T(")")
    if where == "last":
        return Formula("minus", [ts(), Formula("multiply", [3.0, ts(filters=objs)])]), T("(") + HEADTOK() + T("- ( 3.0 *") + HEADTOK() + F + T("))")
    if where == "prefix":
        return Formula("apdex", [ts(filters=objs), 300.0], filters=[Condition(Column("z"), Op.EQ, "w")], groupby=[Column("g")]), \
            T("apdex(") + HEADTOK() + F + T(", 300.0)") + T("{") + W("z:") + S("w") + T("} by (g)")
    return Formula("negate", [Formula("topK", [ts()], aggregate_params=[5], filters=objs)]), W("-") + T("( topK(5)(") + HEADTOK() + T(")") + F + T(")")


WHERES = ["ts", "formula", "first", "last", "prefix", "deep"]


def text(ctx, where, n, op):
    """a text value of any characters as the compared value"""
    v = ctx.str("v", n)
    if op in LIST_OPS:
        parts = [("s", v), ("s", "p"), ("s", v + "q")]
        val = (ctx.choice("seq", ["arr", "tup"]), ctx.choice("list", [parts[:1], parts[:2], parts[::-1], parts]))
    else:
        val = ("s", v)
    q, want = fwrap([("c", ("col", "k.e"), op, val)], where)
    verify(ctx, q, want, "a text is not printed as one literal with its value")


def text2(ctx, where, n):
    """two values side by side cannot run into each other"""
    a, b = ctx.str("a", n), ctx.str("b", n)
    shape = ctx.choice("shape", ["and", "or", "two", "list", "bool"])
    ca, cb = ("c", ("col", "a"), "=", ("s", a)), ("c", ("col", "b"), "!=", ("s", b))
    if shape == "two":
        fs = [ca, cb]
    elif shape == "list":
        fs = [("c", ("col", "a"), "IN", ("arr", [("s", a), ("s", b)]))]
    elif shape == "bool":
        fs = [("bool", "OR", [cb, ca])]
    else:
        fs = [(shape, [ca, cb])]
    q, want = fwrap(fs, where)
    verify(ctx, q, want, "two texts are not printed as two literals")


def bytestext(ctx, n):
    """bytes print as their text"""
    v = ctx.str("v", n, tuple((k, k) for k in range(1, 128)))
    cond = Condition(Column("k"), Op.EQ, v.encode())
    verify(ctx, ts(filters=[cond]), HEADTOK() + T("{") + W("k:") + S(v) + T("}"), "bytes are not printed as their text")


def params(ctx, where, n):
    """a text as aggregate parameter"""
    v = ctx.str("v", n)
    ps = ctx.choice("ps", [[v], [v, "x"], [0.5, v], [v, 5, v]])
    tok = T("(") + commas([S(p) if not isinstance(p, (int, float)) else T(str(p)) for p in ps]) + T(")")
    if where == "ts":
        verify(ctx, ts(aggregate="quantiles", aggregate_params=ps), T("quantiles") + tok + T("(" + MRI + ")"), "an aggregate parameter is not printed as one literal")
    else:
        f = Formula("topK", [ts(), 2.0], aggregate_params=ps)
        verify(ctx, Formula("plus", [f, 1.0]), T("( topK") + tok + T("(") + HEADTOK() + T(", 2.0) + 1.0)"), "an aggregate parameter is not printed as one literal")


def numbers(ctx, where, kind):
    """numbers, booleans and null keep their value"""
    v = {"int": lambda: ("i", ctx.int("v")), "float": lambda: ("f", ctx.float("v")), "bool": lambda: ("t", ctx.bool("v")), "null": lambda: ("n",)}[kind]()
    op = ctx.choice("op", ["=", "!="] + LIST_OPS)
    val = v if op not in LIST_OPS else ("arr", ctx.choice("list", [[v], [v, ("s", "x")], [("s", "x"), v, v], []]))
    q, want = fwrap([("c", ("col", "k"), op, val)], where)
    verify(ctx, q, want, "a number is not printed as its value")


def number_params(ctx):
    """numeric aggregate parameters keep their value and order"""
    vs = [ctx.int("i"), ctx.float("f"), True, None, 0]
    ps = ctx.choice("ps", [[vs[0]], [vs[1], vs[0]], vs, [vs[4]], [vs[4], vs[1]], [], None])
    tok = []
    if ps:
        def tk(p):
            if p is True:
                return T("TRUE")
            return T("NULL") if p is None else W(str(p))
        tok = T("(") + commas([tk(p) for p in ps]) + T(")")
    if ctx.choice("on", ["ts", "formula"]) == "ts":
        verify(ctx, ts(aggregate="quantiles", aggregate_params=ps), T("quantiles") + tok + T("(" + MRI + ")"), "aggregate parameters are not printed exactly")
    else:
        verify(ctx, Formula("topK", [ts()], aggregate_params=ps), T("topK") + tok + T("(") + HEADTOK() + T(")"), "aggregate parameters are not printed exactly")


# ------------------------------------------------------------------ filter trees
def leaf(ctx, k, ops, free=True):
    op = ctx.choice("op" + k, ops)
    v = ("s", ctx.str("v" + k, 1)) if free else ("s", "v" + k)
    return ("c", ("col", "k" + k), op, v if op in TEXT_OPS else ("arr", [v, ("s", "y")]))


def tree(ctx, k, depth, width, ops):
    kinds = ["c"] if depth == 0 else ["c", "and", "or", "bool AND", "bool OR"]
    kind = ctx.choice("kind" + k, kinds)
    if kind == "c":
        return leaf(ctx, k, ops, free=len(k) < 2)
    n = ctx.choice("n" + k, list(range(2, width + 1)))
    kids = [tree(ctx, k + str(j), depth - 1, 2, ops) for j in range(n)]
    return ("bool", kind[5:], kids) if kind.startswith("bool ") else (kind, kids)


def trees(ctx, where, depth, width, n, ops):
    """filter lists of any tree shape keep every member, its operator and grouping"""
    fs = [tree(ctx, str(j), depth, width, ops) for j in range(n)]
    q, want = fwrap(fs, where)
    verify(ctx, q, want, "a filter list is not printed member by member")


def wide(ctx, sizes):
    """groups and lists of many members, repeated ones included"""
    n = ctx.choice("n", sizes)
    form = ctx.choice("form", ["top", "and", "or", "bool", "both"])
    first = ctx.choice("first", TEXT_OPS + LIST_OPS)
    last = ctx.choice("last", ["=", "!=", "NOT IN"])
    same_ = ctx.choice("same", [False, True])
    parts = []
    for k in range(n):
        op = first if k == 0 else last if k == n - 1 else "!=" if k % 2 else "="
        v = ("s", "v" if same_ else "v%d" % k)
        parts.append(("c", ("col", "a" if same_ else "k%d" % k), op, v if op in TEXT_OPS else ("arr", [v, v, ("s", "u")])))
    if form == "or" and not same_ or form == "bool" and not same_:
        fs = [(form, parts) if form == "or" else ("bool", "OR", parts)]
    elif form == "both":
        fs = [("and", parts), ("or", [("and", parts), ("c", ("col", "z"), "!=", ("s", "y"))])]
    elif form == "and":
        fs = [("and", parts)]
    else:
        fs = parts
    q, want = fwrap(fs, ctx.choice("where", ["ts", "formula", "last"]))
    verify(ctx, q, want, "a filter list is not printed member by member")


def large(ctx, n):
    """very many members of one kind of list"""
    what = ctx.choice("what", ["top", "and", "or", "below", "list", "values", "infix", "prefix", "params", "fparams", "grouping", "tower", "deep formula"])
    same_ = ctx.choice("same", [False, True])
    neg = ctx.choice("neg", ["=", "!="])
    parts = [("c", ("col", "a" if same_ else "k%d" % (n - k)), neg if k % 3 else "!=", ("s", "v" if same_ else "v%d" % k)) for k in range(n)]
    if what in ("top", "and", "or", "below", "list", "values", "tower"):
        if what in ("list", "values"):
            vs = [("s", "v" if same_ else "%s%d" % ("vuw"[k % 3], k // 2)) for k in range(n)]
            fs = [("c", ("col", "k"), "IN" if neg == "=" else "NOT IN", ("arr" if what == "list" else "tup", vs)), ("c", ("col", "z"), "=", ("s", "y"))]
        elif what == "tower":
            t = ("c", ("col", "t"), neg, ("s", "u"))
            for k in range(n if n < 15 else 15):
                t = ("and" if (k % 2) == same_ else "or", [t, ("c", ("col", "t%d" % k), "!=", ("s", "u"))] if k % 3 else [("c", ("col", "t%d" % k), "=", ("s", "u")), t])
            fs = [t]
        else:
            fs = {"top": parts, "and": [("and", parts)], "or": [("or", parts)], "below": [("or", [("and", parts), ("c", ("col", "z"), "!=", ("s", "y"))])]}[what]
        q, want = fwrap(fs, ctx.choice("where", ["ts", "formula"]))
        return verify(ctx, q, want, "a large filter is not printed member by member")
    if what == "grouping":
        cs = ["a" if same_ else "c%d" % (n - k) for k in range(n)]
        return verify(ctx, ts(groupby=[Column(c) for c in cs]), HEADTOK() + T("by (") + commas([T(c) for c in cs]) + T(")"), "a grouping is not printed completely")
    if what in ("params", "fparams"):
        ps = [0.5 if same_ else k if k % 2 else "p%d" % k for k in range(n)]
        pt = commas([S(p) if isinstance(p, str) else W(str(p)) for p in ps])
        if what == "params":
            return verify(ctx, ts(aggregate="quantiles", aggregate_params=ps), T("quantiles(") + pt + T(")(" + MRI + ")", '"'), "the parameters are not printed one by one")
        return verify(ctx, Formula("topK", [ts()], ps), T("topK(") + pt + T(")(") + HEADTOK() + T(")"), "the parameters are not printed one by one")
    if what == "deep formula":
        q, want = ts(), HEADTOK()
        for k in range(n if n < 15 else 15):
            name = "minus" if same_ else list(INFIX)[k % 4]
            a, b = ((q, k), (want, T(str(k)))) if k % 3 else ((k, q), (T(str(k)), want))
            q, want = Formula(name, list(a)), T("(") + glue(list(b), INFIX[name]) + T(")")
        return verify(ctx, q, want, "a deep formula is not printed with exactly its parts")
    kids = [(ts(), HEADTOK()) if same_ or k % 3 == 0 else (k, T(str(k))) for k in range(n)]
    if what == "prefix":
        return verify(ctx, Formula("foo", [o for o, _ in kids]), T("foo(") + commas([t for _, t in kids]) + T(")"), "a formula is not printed with exactly its parts")
    verify(ctx, Formula("multiply", [o for o, _ in kids]), T("(") + glue([t for _, t in kids], "*") + T(")"), "a formula is not printed with exactly its parts")


def grouping(ctx, sizes):
    """any number of groupings, in order, repeated ones included"""
    n = ctx.choice("n", sizes)
    kind = ctx.choice("kind", ["cols", "same", "aliased", "mixed"])
    gs, toks = [], []
    for k in range(n):
        c = "a" if kind == "same" else "%s%d" % ("cab"[k % 3], n - k)
        if kind == "aliased" or kind == "mixed" and k % 2:
            gs.append(AliasedExpression(Column(c), "al%d" % (k // 2)))
            toks.append(T(c + " AS") + [("bt", "al%d" % (k // 2))])
        else:
            gs.append(Column(c))
            toks.append(T(c))
    tail = T("by (") + commas(toks) + T(")")
    if ctx.choice("on", ["ts", "formula"]) == "ts":
        verify(ctx, ts(groupby=gs), HEADTOK() + tail, "a grouping is not printed completely")
    else:
        verify(ctx, Formula("plus", [ts(), 1.0], groupby=gs), T("(") + HEADTOK() + T("+ 1.0 )") + tail, "a grouping is not printed completely")


def keys(ctx):
    """every kind of key"""
    key = ctx.choice("key", ["a", "a.b_c", "tags[x]", "tags[a.b-c]", "_z9", "status_code", "by", "AND", "or"])
    op = ctx.choice("op", TEXT_OPS + LIST_OPS)
    v = ("s", ctx.str("v", 1))
    q, want = fwrap([("c", ("col", key), op, v if op in TEXT_OPS else ("tup", [v, ("s", "w")]))], ctx.choice("where", WHERES))
    verify(ctx, q, want, "a filter is not printed with its key")


# ------------------------------------------------------------------ what is refused
def refused(ctx, where):
    """an operator or operand MQL cannot express, at any place, is refused by validation-free printing too"""
    bad = ctx.choice("bad", [o for o in OPS if o not in TEXT_OPS + LIST_OPS] + ["fn", "cfn", "fn!", "cfn in"])
    if bad in OPS:
        c = Condition(Column("a"), OPS[bad]) if bad in UNARY else Condition(Column("a"), OPS[bad], ctx.str("v", 1) if ctx.choice("text", [True, False]) else ctx.int("w"))
    elif bad == "fn":
        c = Condition(Column("a"), Op.EQ, Function("foo", [Column("b")]))
    elif bad == "cfn":
        c = Condition(Column("a"), Op.EQ, CurriedFunction("foo", [1], [Column("b")]))
    elif bad == "fn!":
        c = Condition(Column("a"), Op.NEQ, Function("foo", ["x"]))
    else:
        c = Condition(Column("a"), Op.IN, CurriedFunction("foo", [1], ["x"]))
    ok = Condition(Column("b"), Op.EQ, "x")
    shape = ctx.choice("shape", ["only", "after", "before", "and", "or", "nested"])
    fs = {
        "only": lambda: [c], "after": lambda: [ok, ok, c], "before": lambda: [c, ok],
        "and": lambda: [ok, BooleanCondition(BooleanOp.AND, [ok, c])],
        "or": lambda: [BooleanCondition(BooleanOp.OR, [c, ok])],
        "nested": lambda: [BooleanCondition(BooleanOp.OR, [ok, BooleanCondition(BooleanOp.AND, [ok, ok, c])]), ok],
    }[shape]()
    q = {
        "ts": lambda: ts(filters=fs), "formula": lambda: Formula("plus", [ts(), 1.0], filters=fs),
        "first": lambda: Formula("plus", [ts(filters=fs), 1.0]), "last": lambda: Formula("plus", [1.0, Formula("minus", [ts(), ts(filters=fs)])]),
        "prefix": lambda: Formula("foo", [1.0, ts(filters=fs)]), "deep": lambda: Formula("negate", [Formula("foo", [ts()], [1], fs)]),
    }[where]()
    m = mquery(q)
    for how in (m.serialize, Request("metrics", "app", m).to_dict, Request("metrics", "app", m).serialize):
        try:
            how()
        except Exception as e:
            ctx.check(type(e).__module__.startswith("snuba_sdk"), "a filter is refused with a foreign error")
            ctx.reach("refused")
            continue
        ctx.fail("a filter MQL cannot express is printed as something else")


# ------------------------------------------------------------------ whole objects
METRICS = [
    (lambda: Metric(mri=MRI), lambda: T(MRI)),
    (lambda: Metric("transactions.duration", MRI, 5), lambda: T(MRI)),
    (lambda: Metric("transactions.duration"), lambda: T("transactions.duration")),
    (lambda: Metric(public_name="foo", id=7), lambda: T("foo")),
    (lambda: Metric(mri="d:a/b(c)@d"), lambda: [("bt", "d:a/b(c)@d")]),
    (lambda: Metric(mri="d:a/b,c@d"), lambda: [("bt", "d:a/b,c@d")]),
    (lambda: Metric(public_name="pub", mri='d:a/b@"d"{x}'), lambda: [("bt", 'd:a/b@"d"{x}')]),
]
GROUPS = [
    (None, []), ([Column("g")], T("by (g)")), ([Column("g"), Column("h.i")], T("by (g, h.i)")),
    ([Column("h"), Column("g"), Column("tags[x]")], T("by (h, g, tags[x])")), ([AliasedExpression(Column("h"), "al"), Column("g")], T("by (h AS `al`, g)")),
]


def whole(ctx, n):
    """every combination of the parts of a timeseries"""
    mk, mt = ctx.choice("metric", METRICS)
    agg = ctx.choice("agg", ["max", "count_unique", "p95"])
    ps, pt = ctx.choice("params", [(None, []), ([], []), ([0.5], T("(0.5)")), ([0.5, "x y"], T("(0.5,") + S("x y") + T(")"))])
    f = ctx.choice("filters", [None, 0, 1, 2])
    v = ctx.str("v", n)
    fs = None if f is None else [("c", ("col", "a"), "=", ("s", v)), ("or", [("c", ("col", "b"), "!=", ("s", "x")), ("c", ("col", "c"), "IN", ("arr", [("s", v)]))])][:f]
    g, gt = ctx.choice("groupby", GROUPS)
    want = T(agg) + pt + T("(") + mt() + T(")") + ([] if fs is None else filters_tok(fs)) + gt
    kw = dict(aggregate_params=ps, filters=None if fs is None else [build(x) for x in fs], groupby=g)
    how = ctx.choice("how", ["init", "set"])
    if how == "init":
        q = Timeseries(mk(), agg, **kw)
    else:
        q = Timeseries(Metric("other"), "min", [9]).set_groupby(g).set_filters(kw["filters"]).set_aggregate(agg, ps).set_metric(mk())
    verify(ctx, q, want, "a timeseries is not printed with exactly its parts")


def mri(ctx, n):
    """an MRI with any characters is printed as one name"""
    v = ctx.str("v", n)
    for c in "`":
        ctx.assume(ctx.no(c in v))
    m = ctx.choice("at", ["d:a/b%s@c", "%sd:a/b@c", "d:a/b@c%s"])
    m = m[:m.index("%s")] + v + m[m.index("%s") + 2:]
    special = ctx.either(*[c in v for c in '(){}[]",'])
    blank = ctx.either(*[c in v for c in " \t\r\n\x0b\x0c"])
    q = ts(metric=Metric(mri=m))
    text = mquery(q).serialize()["mql"]
    ctx.observe("mql", text)
    if text == "max(`" + m + "`)":
        ctx.reach("quoted")
        return
    ctx.check(ctx.both(text == "max(" + m + ")", ctx.no(special)), "an MRI is not printed as one name")
    ctx.reach("plain")


WORD = ((48, 57), (65, 90), (95, 95), (97, 122))


def spelled(ctx, n):
    """names are printed letter by letter"""
    v = ctx.str("v", n, WORD)
    ctx.assume(ctx.no(ctx.member(v[0], ((48, 57),))))
    where = ctx.choice("where", ["public", "long public", "aggregate", "function", "curried", "key", "group", "alias"])
    if where == "long public":
        v = ctx.choice("pre", ["sessions.", "d_" * 40, "a" * 120]) + v
    if where in ("public", "long public"):
        text = mquery(ts(metric=Metric(v))).serialize()["mql"]
        ctx.observe("mql", text)
        ctx.check(ctx.either(text == "max(" + v + ")", text == "max(`" + v + "`)"), "a name is not printed letter by letter")
        ctx.reach("printed")
        return
    if where == "aggregate":
        q, want = ts(aggregate=v), W(v) + T("(" + MRI + ")")
    elif where == "function":
        q, want = Formula(v + "_f", [ts(), 1.0]), W(v + "_f") + T("(") + HEADTOK() + T(", 1.0)")
    elif where == "curried":
        q, want = Formula(v + "_f", [ts(), 1.0], [5]), W(v + "_f") + T("(5)(") + HEADTOK() + T(", 1.0)")
    elif where == "key":
        q, want = ts(filters=[Condition(Column(v), Op.EQ, "x")]), HEADTOK() + T("{") + W(v + ":") + S("x") + T("}")
    elif where == "group":
        q, want = ts(groupby=[Column(v), Column("g")]), HEADTOK() + T("by (") + W(v) + T(", g)")
    else:
        q, want = ts(groupby=[AliasedExpression(Column("h"), v)]), HEADTOK() + T("by (h AS") + [("bt", v)] + T(")")
    verify(ctx, q, want, "a name is not printed letter by letter")


def formulas(ctx, depth):
    """formula trees print every part of every node"""
    q, want = ftree(ctx, "0", depth)
    verify(ctx, q, want, "a formula is not printed with exactly its parts")


def ftree(ctx, k, depth, top=True):
    kind = ctx.choice("f" + k, ["ts", "num", "infix", "prefix"] if depth and not top else (["infix", "prefix"] if depth else ["ts", "num"]))
    if kind == "num":
        v = ctx.choice("num" + k, [ctx.int("i" + k), ctx.float("x" + k), 0])
        return v, W(str(v))
    if kind == "ts":
        s = ("c", ("col", "t" + k), "=", ("s", ctx.str("v" + k, 1)))
        return ctx.choice("ts" + k, [(ts(), HEADTOK()), (ts(filters=[build(s)], groupby=[Column("g")]), HEADTOK() + filters_tok([s]) + T("by (g)"))])
    n = ctx.choice("n" + k, [1, 2, 3] if kind == "prefix" else [2, 3])
    kids = [ftree(ctx, k + str(j), depth - 1, False) for j in range(n - 1)]
    s0 = ("c", ("col", "s"), "!=", ("s", "w" + k))
    kids.insert(ctx.choice("at" + k, list(range(n))), (ts(filters=[build(s0)]), HEADTOK() + filters_tok([s0])))
    f = ("c", ("col", "u"), "=", ("s", "u" + k))
    fs, ft = ctx.choice("fs" + k, [(None, []), ([build(f)], filters_tok([f]))])
    g, gt = ctx.choice("gb" + k, [(None, []), ([Column("g")], T("by (g)"))])
    if kind == "infix":
        name = ctx.choice("name" + k, list(INFIX))
        body = T("(") + glue([t for _, t in kids], INFIX[name]) + T(")")
        ps = None
    else:
        name, ps, pt = ctx.choice("name" + k, [("apdex", None, []), ("topK", [5], T("(5)")), ("negate", None, [])])
        body = (W("-") if name == "negate" else T(name)) + pt + T("(") + commas([t for _, t in kids]) + T(")")
    return Formula(name, [o for o, _ in kids], ps, fs, g), body + ft + gt


def glue(parts, op):
    out = []
    for k, p in enumerate(parts):
        out = out + (T(op) if k else []) + p
    return out


def cases(tier):
    deep = tier == "thorough"
    R = {"reach": ["printed"]}
    out = []
    for w in WHERES:
        for n in (0, 1, 2, 3, 4) if deep else (0, 1, 2):
            for op in ("=", "NOT LIKE", "IN") if not deep else TEXT_OPS + LIST_OPS:
                out.append(("text/%s/%s/%d" % (w, op, n), text, {"where": w, "n": n, "op": op}, dict(R, bounds="texts of %d characters" % n, cost=4 ** n)))
        out.append(("text2/%s" % w, text2, {"where": w, "n": 2 if deep else 1}, dict(R, bounds="two texts", cost=20)))
        for kind in ("int", "float", "bool", "null"):
            out.append(("numbers/%s/%s" % (w, kind), numbers, {"where": w, "kind": kind}, dict(R, bounds="all values", cost=2)))
        out.append(("refused/" + w, refused, {"where": w}, {"reach": ["refused"], "bounds": "every operator and function operands", "cost": 20}))
    for n in (0, 1, 2, 3) if deep else (0, 1, 2):
        for w in ("ts", "formula"):
            out.append(("params/%s/%d" % (w, n), params, {"where": w, "n": n}, dict(R, bounds="texts of %d characters" % n, cost=4 ** n)))
        out.append(("bytes/%d" % n, bytestext, {"n": n}, dict(R, bounds="%d ASCII bytes" % n)))
    out.append(("number_params", number_params, {}, dict(R, bounds="all numbers")))
    out.append(("wide", wide, {"sizes": [3, 4, 5, 8] if not deep else [2, 3, 4, 5, 6, 8, 12]}, dict(R, bounds="up to 8 (12) members", cost=500)))
    out.append(("grouping", grouping, {"sizes": [1, 2, 3, 4, 5, 9]}, dict(R, bounds="up to 9 groupings", cost=20)))
    for n in (12, 30, 120):
        out.append(("large/%d" % n, large, {"n": n}, dict(R, bounds="%d members of every list, towers of 15" % n, cost=100)))
    out.append(("keys", keys, {}, dict(R, bounds="a pool of keys", cost=10)))
    out.append(("trees/ts/1", trees, {"where": "ts", "depth": 1, "width": 3, "n": 1, "ops": TEXT_OPS + LIST_OPS}, dict(R, bounds="depth 1, 2-3 members, all operators", cost=500)))
    out.append(("trees/ts/1x2", trees, {"where": "ts", "depth": 1, "width": 2, "n": 2, "ops": ["=", "NOT IN"] if not deep else TEXT_OPS + LIST_OPS}, dict(R, bounds="two filters, depth 1", cost=500)))
    out.append(("trees/ts/2", trees, {"where": "ts", "depth": 2, "width": 2, "n": 1, "ops": ["!="]}, dict(R, bounds="depth 2", cost=300)))
    out.append(("trees/formula/2", trees, {"where": "formula", "depth": 2, "width": 2, "n": 1, "ops": ["="]}, dict(R, bounds="depth 2", cost=300)))
    if deep:
        out.append(("trees/last/2", trees, {"where": "last", "depth": 2, "width": 3, "n": 1, "ops": ["=", "NOT IN"]}, dict(R, bounds="depth 2, 2-3 members", cost=5000)))
    out.append(("whole", whole, {"n": 1}, dict(R, bounds="every combination of parts", cost=200)))
    for n in (0, 1, 2) + ((3,) if deep else ()):
        out.append(("mri/%d" % n, mri, {"n": n}, {"reach": ["plain"] + (["quoted"] if n else []), "bounds": "%d characters" % n, "cost": 3 ** n}))
    for n in (1, 3) + ((5,) if deep else ()):
        out.append(("spelled/%d" % n, spelled, {"n": n}, dict(R, bounds="%d letters, digits and underscores" % n, cost=10)))
    out.append(("formulas/1", formulas, {"depth": 1}, dict(R, bounds="depth 1", cost=200)))
    if deep:
        out.append(("formulas/2", formulas, {"depth": 2}, dict(R, bounds="depth 2", cost=9000)))
    return out
