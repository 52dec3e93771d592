"""Printing a metrics query to MQL and parsing it back gives the same query."""
from props.c12 import same
from props.lib import BooleanCondition, BooleanOp, Column, Condition, Op, build
from props.mlib import MRI, Formula, Metric, Timeseries, mquery, ts
from sx.uni import SPACE

from snuba_sdk.conditions import And, Or
from snuba_sdk.mql.mql import parse_mql

OUTSIDE = ("trees deeper or lists longer than stated; filter values that are not text, LIKE values that are not a text followed by one wildcard, aliased groupings, "
           "constants that Python does not write in plain decimal notation, integers beyond 2**53 (MQL numbers are floating point), negative, boolean and null aggregate parameters, arithmetic with other "
           "than two operands, a negation with filters or groupings of its own, metrics given by more than one name, function names that start with a digit (MQL has no way to write these)")

SPECIAL = ',[]"}{()*'
CONTROL = ((0x1C, 0x1F),)  # white space or not depending on the regular expression library


# ------------------------------------------------------------------ what an object denotes
def flat(op, conds):
    out = []
    for c in conds:
        n = cond(c)
        if n[0] == op:
            out.extend(n[1])
        else:
            out.append(n)
    return out[0] if len(out) == 1 else (op, out)


def cond(c):
    if isinstance(c, Condition):
        v = c.rhs
        return ("c", (c.lhs.name, c.op.name, list(v) if isinstance(v, (list, tuple)) else v, isinstance(v, (list, tuple))))
    return flat(c.op.value, c.conditions)


def denotes(q):
    if isinstance(q, (Timeseries, Formula)):
        common = [list(q.aggregate_params or []), flat("AND", q.filters or []), [g.name for g in (q.groupby or [])]]
        if isinstance(q, Timeseries):
            return ["ts", q.metric.mri, q.metric.public_name, q.aggregate] + common
        return ["formula", q.function_name, [denotes(p) for p in q.parameters]] + common
    return ["number", q]


def roundtrip(ctx, q, key=None):
    """print, parse, compare; then the text as a query of its own"""
    text = mquery(q).serialize()["mql"]
    ctx.observe("mql", text)
    back = parse_mql(text)
    want = denotes(q)
    ctx.check(same(ctx, denotes(back), want), "parsing the printed MQL gives another query", key)
    again = mquery(text).serialize()["mql"]
    ctx.check(again == mquery(back).serialize()["mql"], "a query given as MQL is not serialized as the query it denotes")
    ctx.check(same(ctx, denotes(parse_mql(again)), denotes(back)), "a query given as MQL is serialized as another query", key)
    ctx.reach("same")


def clean(ctx, v):
    """no backslash and no newline"""
    ctx.assume(ctx.no("\\" in v))
    ctx.assume(ctx.no("\n" in v))


def plain(ctx, v):
    """whether the text is one MQL word"""
    return ctx.both(len(v) > 0, *[ctx.no(c in v) for c in SPECIAL], *[ctx.no(ctx.member(c, SPACE)) for c in v])


def wildcard(ctx, v):
    """whether the text reads as a word followed by a wildcard"""
    return len(v) > 1 and ctx.both(v[-1] == "*", plain(ctx, v[:-1]))


def decided(ctx, v):
    """a text whose reading as a wildcard pattern does not depend on what counts as white space"""
    if len(v) > 1:
        for c in v[:-1]:
            ctx.assume(ctx.no(ctx.both(v[-1] == "*", ctx.member(c, CONTROL))))


def put(fs, where):
    if where == "ts":
        return ts(filters=fs)
    if where == "group":
        return ts(aggregate="quantiles", aggregate_params=[0.5], filters=fs, groupby=[Column("g"), Column("h.i_j2")])
    if where == "formula":
        return Formula("plus", [ts(), 2.0], filters=fs)
    if where == "operand":
        return Formula("divide", [3.0, ts(filters=fs)], groupby=[Column("g")])
    if where == "arg":
        return Formula("apdex", [ts(filters=fs, groupby=[Column("g")]), 300.0])
    return Formula("negate", [Formula("topK", [ts()], [5.0], fs, [Column("g")])])


WHERES = ["ts", "group", "formula", "operand", "arg", "deep"]


def texts(ctx, where, n):
    """any text value"""
    v = ctx.str("v", n)
    op = ctx.choice("op", [Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN])
    if where == "escapes":
        ctx.assume(ctx.either("\\" in v, "\n" in v))
        if op in (Op.EQ, Op.NEQ):
            ctx.assume(ctx.no(wildcard(ctx, v)))
        return roundtrip(ctx, put([Condition(Column("k"), op, v if op in (Op.EQ, Op.NEQ) else [v])], "ts"), "mql-unescape")
    clean(ctx, v)
    if op in (Op.EQ, Op.NEQ):
        ctx.assume(ctx.no(wildcard(ctx, v)))
        decided(ctx, v)
        c = Condition(Column("k.e"), op, v)
    else:
        c = Condition(Column("k.e"), op, ctx.choice("list", [[v], (v, "x"), ["", v, v], ["a b", v]]))
    roundtrip(ctx, put([c], where))


def wild(ctx, where, n):
    """any word followed by a wildcard"""
    v = ctx.str("v", n)
    clean(ctx, v)
    ctx.assume(plain(ctx, v))
    c = Condition(Column("k"), ctx.choice("op", [Op.LIKE, Op.NOT_LIKE]), v + "*")
    roundtrip(ctx, put([c], where))


def stars(ctx, n):
    """equality with texts that end in a star but are no word and wildcard"""
    v = ctx.str("v", n) + "*"
    clean(ctx, v)
    ctx.assume(ctx.no(wildcard(ctx, v)))
    decided(ctx, v)
    roundtrip(ctx, put([Condition(Column("k"), ctx.choice("op", [Op.EQ, Op.NEQ]), v)], ctx.choice("where", ["ts", "deep"])))


def tricky(ctx):
    """texts that look like parts of the language, next to each other"""
    pool = ["", " ", "*", '"', "'", "AND", "OR", " or ", "a:b", "!a", "a,b", "[x]", '["x", "y"]', "}", "{a:b}", ") by (g", "$v", "`", 'a" AND b:"c', "a*b", "**", "x ", "\t", "\r", "\u2028", "\x1c", "\x85", "1.5", "-1", "NULL"]
    a = ctx.choice("a", pool)
    b = ctx.choice("b", pool)
    roundtrip(ctx, put([Condition(Column("k"), Op.EQ, a), Or([Condition(Column("m"), Op.IN, [b, a]), Condition(Column("n"), Op.NEQ, b)])], "group"))


def keys(ctx, n):
    """any key and grouping of letters, digits, dots and underscores"""
    ranges = ((46, 46), (48, 57), (65, 90), (95, 95), (97, 122))
    k = ctx.str("k", n, ranges)
    key = ctx.choice("pre", ["", "a.", "by", "or"]) + k
    ctx.assume(ctx.member(key[0], ((65, 90), (95, 95), (97, 122))))
    where = ctx.choice("where", ["ts", "formula"])
    fs = [Condition(Column(key), Op.EQ, "v"), Condition(Column("x"), Op.NEQ, "w")]
    g = ctx.choice("groups", [[Column(key)], [Column("g"), Column(key)], [Column(key), Column("g"), Column("h")], None])
    q = ts(filters=fs[:ctx.choice("nf", [0, 1, 2])], groupby=g) if where == "ts" else Formula("plus", [ts(groupby=g), 2.0], filters=fs[::-1], groupby=g)
    roundtrip(ctx, q)


def leaf(ctx, k, ops):
    op = ctx.choice("op" + k, ops)
    if op in (Op.IN, Op.NOT_IN):
        return Condition(Column("k" + k), op, ["v" + k, "w x"])
    return Condition(Column("k" + k), op, "v" + k + ("*" if op in (Op.LIKE, Op.NOT_LIKE) else ""))


def tree(ctx, k, depth, width, ops):
    kind = ctx.choice("kind" + k, ["c"] + (["and", "or", "bool"] if depth else []))
    if kind == "c":
        return leaf(ctx, k, ops)
    kids = [tree(ctx, k + str(j), depth - 1, 2, ops) for j in range(ctx.choice("n" + k, list(range(2, width + 1))))]
    if kind == "bool":
        return BooleanCondition(ctx.choice("b" + k, [BooleanOp.AND, BooleanOp.OR]), kids)
    return And(kids) if kind == "and" else Or(kids)


def trees(ctx, where, depth, width, n, ops):
    """filters of any tree shape"""
    roundtrip(ctx, put([tree(ctx, str(j), depth, width, ops) for j in range(n)], where))


ALLOPS = [Op.EQ, Op.NEQ, Op.IN, Op.NOT_IN, Op.LIKE, Op.NOT_LIKE]


def wide(ctx, sizes):
    """filters of many members, repeated ones included"""
    n = ctx.choice("n", sizes)
    same_ = ctx.choice("same", [False, True])
    first = ctx.choice("first", ALLOPS)
    parts = []
    for k in range(n):
        op = first if k in (0, n - 1) else ALLOPS[k % 6]
        v = "v" if same_ else "v%d" % k
        parts.append(Condition(Column("a" if same_ else "k%d" % k), op, [v, v, "u"] if op in (Op.IN, Op.NOT_IN) else v + "*" if op in (Op.LIKE, Op.NOT_LIKE) else v))
    fs = ctx.choice("form", [lambda: parts, lambda: [And(parts)], lambda: [Or(parts)], lambda: [And(parts), Or(parts[::-1])], lambda: [Or([And(parts), Or(parts), parts[0]])]])()
    roundtrip(ctx, put(fs, ctx.choice("where", ["ts", "formula"])))


def names(ctx, n):
    """metric, aggregate and function names"""
    where = ctx.choice("where", ["mri", "public", "aggregate", "function", "curried function"])
    if where == "mri":
        v = ctx.str("v", n)
        for c in "`,":
            ctx.assume(ctx.no(c in v))
        return roundtrip(ctx, ts(metric=Metric(mri="d:a/b" + v + "c@d")))
    if where == "public":
        v = ctx.str("v", n, ((95, 95), (97, 122)))
        return roundtrip(ctx, ts(metric=Metric(ctx.choice("pre", ["", "a.b_c.", "transaction."]) + v), groupby=[Column("g")]))
    v = ctx.str("v", n, ((48, 57), (65, 90), (95, 95), (97, 122)))
    ctx.assume(ctx.no(ctx.member(v[0], ((48, 57),))))
    if where == "aggregate":
        return roundtrip(ctx, ts(aggregate=v, aggregate_params=ctx.choice("ps", [None, [0.5]])))
    f = Formula(v + "_f", [ts(), 1.0], [5.0] if where == "curried function" else None)
    roundtrip(ctx, ctx.choice("in", [f, Formula("plus", [f, ts()]), Formula("negate", [f])]))


def lengths(ctx, n):
    """long names, keys and texts"""
    c = ctx.str("c", 1, ((97, 122),))
    pad = ctx.choice("pad", ["ab_c", "q", "lorem_ipsum"])
    v = c + (pad * n)[:n - 2] + c
    where = ctx.choice("where", ["mri", "public", "dotted", "aggregate", "function", "key", "group", "text", "spaced", "list", "param", "number"])
    q = {
        "mri": lambda: ts(metric=Metric(mri="d:" + v + "/" + v + "@" + v)), "public": lambda: ts(metric=Metric(v)), "dotted": lambda: ts(metric=Metric(v + ".x." + v)),
        "aggregate": lambda: ts(aggregate=v), "function": lambda: Formula(v, [ts(), 1.0]), "key": lambda: ts(filters=[Condition(Column(v), Op.NEQ, "x")]),
        "group": lambda: ts(groupby=[Column("g"), Column(v)]), "text": lambda: ts(filters=[Condition(Column("k"), Op.EQ, v)]),
        "spaced": lambda: ts(filters=[Condition(Column("k"), Op.EQ, " ".join([v, v, v]))]), "list": lambda: ts(filters=[Condition(Column("k"), Op.IN, [v, "x", v])]),
        "param": lambda: ts(aggregate="topK", aggregate_params=[v, 1]), "number": lambda: Formula("plus", [ts(), float("1" * 14 + ".5")]),
    }[where]()
    roundtrip(ctx, q)


def params(ctx, n):
    """aggregate parameters"""
    v = ctx.str("v", n)
    clean(ctx, v)
    i = ctx.choice("num", [ctx.int("i", 0, 99999), 0, 0.5, 0.25, 99.0, 1000])
    ps = ctx.choice("ps", [[i], [v], [i, v], [v, i, "x"], [i, i], [0.5, 0.9, 0.99, v], [0.5, i, 0.5, i, 0.5, i, 0.9], [i, "x", v, "x", v, 1, "x", 2], [1, 2, "x", v, i, 0.5, v], [1, 2, 3, 0.5, i, 0.5]])
    q = ts(aggregate="quantiles", aggregate_params=ps) if ctx.choice("on", ["ts", "formula"]) == "ts" else Formula("topK", [ts(), ts(groupby=[Column("g")])], ps)
    roundtrip(ctx, q)


def ftree(ctx, k, depth, names, must=True, lean=False):
    """a formula tree; must: it has a timeseries; lean: fewer variants of each node"""
    kinds = ["ts"] if must else ["ts", "num"]
    if depth:
        kinds = kinds + ["infix", "prefix", "neg"]
    kind = ctx.choice("kind" + k, kinds)
    if kind == "num":
        return ctx.choice("num" + k, [1, -2.5] if lean else [1, 2.5, -3, 0, -0.5, 1000000, 4503599627370497, 0.1234567890123])
    if kind == "ts":
        return ts(filters=[Condition(Column("a" + k), Op.EQ, "v")] if (depth == 0 if lean else ctx.choice("tf" + k, [False, True])) else None)
    if kind == "neg":
        return Formula("negate", [ftree(ctx, k + "0", depth - 1, names, True, lean)])
    if kind == "infix":
        side = ctx.choice("side" + k, [0, 1])
        kids = [ftree(ctx, k + str(j), depth - 1, names, must and j == side, lean) for j in range(2)]
        own = len(k) == 2 if lean else ctx.choice("ff" + k, [False, True])
        return Formula(ctx.choice("op" + k, names), kids, filters=[Condition(Column("f" + k), Op.NEQ, "v")] if own else None)
    n = ctx.choice("n" + k, [1, 2])
    kids = [ftree(ctx, k + str(j), depth - 1, names, must and j == 0, lean) for j in range(n)]
    return Formula("apdex", kids, ctx.choice("ps" + k, [None, [5]]) if not lean or len(k) == 1 else None)


def formulas(ctx, depth, names, lean):
    """formula trees"""
    q = ftree(ctx, "0", depth, names, lean=lean)
    if not lean and isinstance(q, Formula) and q.function_name != "negate":
        q = q.set_groupby([Column("g"), Column("h")])
    roundtrip(ctx, q)


def large(ctx, n):
    """very many members of one kind of list, and very deep trees"""
    what = ctx.choice("what", ["top", "and", "or", "below", "list", "params", "fparams", "prefix", "grouping", "tower", "left", "right"])
    same_ = ctx.choice("same", [False, True])
    parts = [Condition(Column("a" if same_ else "k%d" % (n - k)), Op.NEQ if k % 3 == 1 else Op.EQ, "v" if same_ else "v%d" % k if k % 2 else "v %d" % k) for k in range(n)]
    z = Condition(Column("z"), Op.EQ, "y")
    depth = n if n < 9 else 9
    if what == "tower":
        t = z
        for k in range(depth):
            t = (And if k % 2 else Or)([t, parts[k]] if same_ else [parts[k], t])
        q = ts(filters=[t])
    elif what in ("left", "right"):
        q = ts()
        for k in range(depth):
            q = Formula("minus" if same_ else INFIX[k % 4], [q, k + 0.5] if what == "left" else [k + 0.5, q])
    else:
        q = {
            "top": lambda: ts(filters=parts), "and": lambda: ts(filters=[And(parts)]), "or": lambda: ts(filters=[z, Or(parts)]), "below": lambda: ts(filters=[Or([And(parts), z])]),
            "list": lambda: ts(filters=[Condition(Column("k"), Op.IN, ["v" if same_ else "v%d" % k if k % 2 else "v %d" % k for k in range(n)]), z]),
            "params": lambda: ts(aggregate="quantiles", aggregate_params=[0.5 if same_ else k if k % 2 else "p%d" % k for k in range(n)]),
            "fparams": lambda: Formula("topK", [ts()], [0.5 if same_ else k if k % 2 else "p%d" % k for k in range(n)]),
            "prefix": lambda: Formula("foo", [ts() if same_ or k % 3 == 0 else k + 0.25 for k in range(n)]),
            "grouping": lambda: ts(groupby=[Column("c%d" % (n - k)) for k in range(n)]),
        }[what]()
    roundtrip(ctx, q)


INFIX = ["plus", "minus", "multiply", "divide"]


def chain(ctx, n, side):
    """arithmetic over many operands, nested to one side"""
    q = ts()
    for k in range(n):
        op = ctx.choice("op%d" % k, INFIX)
        other = ctx.choice("o%d" % k, [ts(aggregate="min"), 2.5])
        q = Formula(op, [q, other] if side == "left" else [other, q])
    roundtrip(ctx, q)


def constants(ctx):
    """constants keep their value"""
    i = ctx.int("i", -999999, 999999)
    side = ctx.choice("side", [0, 1])
    kids = [i, ts()] if side else [ts(), i]
    roundtrip(ctx, Formula(ctx.choice("op", INFIX + ["apdex"]), kids))


def cases(tier):
    deep = tier == "thorough"
    R = {"reach": ["same"]}
    out = []
    for w in WHERES:
        for n in (0, 1, 2, 3) if deep else (0, 1, 2) if w in ("ts", "deep") else (1,):
            out.append(("texts/%s/%d" % (w, n), texts, {"where": w, "n": n}, dict(R, bounds="texts of %d characters without backslash and newline" % n, cost=6 ** n)))
        out.append(("wild/%s" % w, wild, {"where": w, "n": 3 if deep else 2}, dict(R, bounds="words of %d characters" % (3 if deep else 2), cost=6)))
        out.append(("trees/%s/1" % w, trees, {"where": w, "depth": 1, "width": 2, "n": 1, "ops": ALLOPS}, dict(R, bounds="depth 1", cost=60)))
    for n in (1, 2):
        out.append(("escapes/%d" % n, texts, {"where": "escapes", "n": n}, {"reach": [], "bounds": "texts of %d characters with backslash or newline" % n, "cost": 6}))
    for n in (1, 2) + ((3,) if deep else ()):
        out.append(("stars/%d" % n, stars, {"n": n}, dict(R, bounds="%d characters and a star" % n, cost=6 ** n)))
        out.append(("keys/%d" % n, keys, {"n": n}, dict(R, bounds="%d characters" % n, cost=20)))
        out.append(("names/%d" % n, names, {"n": n}, dict(R, bounds="%d characters" % n, cost=20)))
        out.append(("params/%d" % n, params, {"n": n}, dict(R, bounds="texts of %d characters, integers to 99999" % n, cost=20)))
    for n in (20, 100) + ((400,) if deep else ()):
        out.append(("lengths/%d" % n, lengths, {"n": n}, dict(R, bounds="%d characters" % n, cost=30)))
    out.append(("wide", wide, {"sizes": [3, 5, 7] if not deep else [3, 4, 5, 6, 7, 8, 10]}, dict(R, bounds="up to 7 (10) members", cost=300)))
    out.append(("tricky", tricky, {}, dict(R, bounds="a pool of texts", cost=200)))
    out.append(("trees/ts/1x3", trees, {"where": "ts", "depth": 1, "width": 3, "n": 1, "ops": [Op.EQ, Op.NOT_IN]}, dict(R, bounds="depth 1, 2-3 members", cost=60)))
    out.append(("trees/formula/1x2", trees, {"where": "formula", "depth": 1, "width": 2, "n": 2, "ops": [Op.EQ, Op.NOT_IN] if deep else [Op.NEQ]}, dict(R, bounds="two filters, depth 1", cost=60)))
    out.append(("trees/group/2", trees, {"where": "group", "depth": 2, "width": 2, "n": 1, "ops": [Op.EQ]}, dict(R, bounds="depth 2", cost=100)))
    out.append(("formulas/1", formulas, {"depth": 1, "names": INFIX, "lean": False}, dict(R, bounds="depth 1", cost=60)))
    out.append(("formulas/2", formulas, {"depth": 2, "names": ["minus", "divide"] if deep else ["minus"], "lean": not deep}, dict(R, bounds="depth 2", cost=900)))
    for side in ("left", "right"):
        out.append(("chain/%s" % side, chain, {"n": 4 if deep else 3, "side": side}, dict(R, bounds="%d operators" % (4 if deep else 3), cost=100)))
    out.append(("constants", constants, {}, dict(R, bounds="integers to 999999", cost=10)))
    for n in (12, 30, 100):
        out.append(("large/%d" % n, large, {"n": n}, dict(R, bounds="%d members of every list, trees of depth 9" % n, cost=200)))
    return out
