"""Expressions are printed faithfully wherever they may occur."""
from props.lib import (
    HEAD, AliasedExpression, Column, Condition, CurriedFunction, Direction, Function, Identifier, Lambda, Op,
    OrderBy, T, W, build, check_text, query, ref,
)

OUTSIDE = ("function names beyond ASCII letters, digits and underscore; nesting deeper than the stated depth; "
           "argument lists longer than 24")

LEAVES = {
    "col": ("col", "b"),
    "dotcol": ("col", "exc.b:c@d/e"),
    "tag": ("col", "tags[a.b-c]"),
    "fn": ("fn", "now", [], None),
    "fnnone": ("fn", "rand", None, None),
    "fnas": ("fn", "uniq", [("col", "u")], "al.x"),
    "cfn": ("cfn", "quantile", [("f", 0.5), ("col", "w")], [("col", "d")], None),
    "cfnas": ("cfn", "topK", [("i", 3)], [("col", "d"), ("s", "q")], "top"),
    "cfn0": ("cfn", "topK", [], [], None),
    "cfnn": ("cfn", "topK", [("i", 2)], None, None),
}
PARAM_LEAVES = dict(LEAVES)
PARAM_LEAVES["ident"] = ("id", "x1")
PARAM_LEAVES["null"] = ("n",)
PARAM_LEAVES["arr"] = ("arr", [("i", 1), ("i", 2)])
PARAM_LEAVES["tupcol"] = ("tup", [("col", "t"), ("s", "u")])
PARAM_LEAVES["arr0"] = ("arr", [])
PARAM_LEAVES["tup0"] = ("tup", [])
PARAM_LEAVES["zero"] = ("i", 0)
PARAM_LEAVES["fzero"] = ("cf", 0.0)
PARAM_LEAVES["empty"] = ("s", "")
PARAM_LEAVES["false"] = ("t", False)
PARAM_LEAVES["lam"] = ("fn", "arrayMap", [("lam", ["x", "y"], ("fn", "plus", [("id", "x"), ("id", "y")], None)), ("col", "l")], None)
PARAM_LEAVES["barelam"] = ("lam", ["x"], ("cfn", "foo", [("i", 1)], [("id", "x")], "la"))

WRAPS = {
    "f1": lambda h: ("fn", "foo", [h], None),
    "f1as": lambda h: ("fn", "foo", [h], "a1"),
    "f2a": lambda h: ("fn", "foo", [h, ("col", "k")], None),
    "f2b": lambda h: ("fn", "foo", [("i", 5), h], "a2"),
    "f3": lambda h: ("fn", "foo", [("s", "x"), h, ("n",)], None),
    "c1": lambda h: ("cfn", "cur", [("i", 1)], [h], None),
    "c2": lambda h: ("cfn", "cur", [("col", "i"), ("s", "j")], [("col", "z"), h], "a3"),
    "c0": lambda h: ("cfn", "cur", [], [h], None),
    "cn": lambda h: ("cfn", "cur", None, [h, h], None),
    "arr": lambda h: ("fn", "foo", [("arr", [h, ("i", 1)])], None),
    "tup": lambda h: ("fn", "foo", [("tup", [("s", "t"), h])], None),
    "arrtup": lambda h: ("fn", "foo", [("arr", [("tup", [h, h]), ("tup", [("i", 0), h])])], None),
    "lam": lambda h: ("fn", "arrayMap", [("lam", ["x"], ("fn", "bar", [("id", "x"), h], None)), ("col", "l")], "a4"),
    "lam2": lambda h: ("fn", "arrayMap", [("lam", ["x", "y"], ("cfn", "bar", [("i", 2)], [h, ("id", "y")], None)), h], None),
}

TOPS = {
    "select": lambda e: (dict(select=[Column("a"), e]), lambda r: T("MATCH (events) SELECT a,") + r),
    "select1": lambda e: (dict(select=[e, Column("a")]), lambda r: T("MATCH (events) SELECT") + r + T(", a")),
    "groupby": lambda e: (dict(groupby=[e, Column("g")]), lambda r: T(HEAD + " BY") + r + T(", g")),
    "lhs": lambda e: (dict(where=[Condition(e, Op.GT, 1)]), lambda r: T(HEAD + " WHERE") + r + T("> 1")),
    "rhs": lambda e: (dict(where=[Condition(Column("a"), Op.LTE, e), Condition(Column("b"), Op.IS_NULL)]),
                      lambda r: T(HEAD + " WHERE a <=") + r + T("AND b IS NULL")),
    "rhsarr": lambda e: (dict(where=[Condition(Column("a"), Op.IN, [e, 1])]), lambda r: T(HEAD + " WHERE a IN array(") + r + T(", 1)")),
    "having": lambda e: (dict(having=[Condition(e, Op.NOT_LIKE, "z")]), lambda r: T(HEAD + " HAVING") + r + T("NOT LIKE 'z'")),
    "orderby": lambda e: (dict(orderby=[OrderBy(e, Direction.DESC), OrderBy(Column("a"), Direction.ASC)]),
                          lambda r: T(HEAD + " ORDER BY") + r + T("DESC, a ASC")),
}


def _run(ctx, spec, top):
    kw, exp = TOPS[top](build(spec))
    q = query(**kw)
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    want = exp(ref(spec))
    check_text(ctx, text, want, "the expression is not printed faithfully")
    return q, want


def shapes(ctx, top, depth):
    """every nesting of constructors up to `depth` around every leaf"""
    d = ctx.choice("depth", list(range(depth + 1)))
    if d == 0:
        spec = ctx.choice("leaf", list(LEAVES.values()))
    else:
        spec = ctx.choice("leaf", list(PARAM_LEAVES.values()))
        for k in range(d):
            spec = ctx.choice("w%d" % k, list(WRAPS.values()))(spec)
    q, want = _run(ctx, spec, top)
    check_text(ctx, q.print(), want, "print() does not print the expression faithfully")


def width(ctx, top, kind, sizes):
    """any number of arguments"""
    n = ctx.choice("n", sizes)
    kinds = [lambda k: ("i", ctx.int("v%d" % k)), lambda k: ("col", "c%d" % k), lambda k: ("s", "s"), lambda k: ("col", "same")]
    ps = [kinds[ctx.choice("k%d" % k, [0, 1, 2, 3]) if n <= 3 else k % 4](k) for k in range(n)]
    if kind == "fn":
        spec = ("fn", "foo", ps, "x")
    elif kind == "init":
        spec = ("cfn", "foo", ps, [("col", "z")], None)
    else:
        spec = ("cfn", "foo", [("i", 1)], ps, None)
    _run(ctx, spec, top)


def large(ctx, top, kind, sizes):
    """very many arguments: none is lost, moved or confused with a look-alike"""
    n = ctx.choice("n", sizes)
    at = ctx.choice("at", [0, n // 2, n - 1])
    pool = [("i", 1), ("t", True), ("cf", 1.0), ("s", "1"), ("n",), ("col", "c"), ("s", "c"), ("i", 0), ("t", False), ("s", ""), ("col", "tags[k]")]
    if kind != "init":
        pool += [("fn", "bar", [], None), ("arr", []), ("tup", [("i", 1)]), ("fn", "bar", [("col", "c")], "w")]
    ps = [pool[k % len(pool)] for k in range(n)]
    ps[at] = ("i", ctx.int("v"))
    if kind == "fn":
        spec = ("fn", "foo", ps, "x")
    elif kind == "init":
        spec = ("cfn", "foo", ps, [("col", "z")], None)
    else:
        spec = ("cfn", "foo", [("i", 1)], ps, None)
    _run(ctx, spec, top)


def tall(ctx, top, depths):
    """deep nesting of one constructor, or of all in turn"""
    d = ctx.choice("d", depths)
    style = ctx.choice("style", ["f1", "f2a", "f2b", "f3", "c1", "c2", "c0", "arr", "tup", "lam", "turn"])
    turn = ["f1", "c1", "f2b", "arr", "c2", "lam", "tup", "f3", "c0"]
    spec = ctx.choice("leaf", list(PARAM_LEAVES.values()))
    for k in range(d):
        spec = WRAPS[turn[k % len(turn)] if style == "turn" else style](spec)
    _run(ctx, spec, top)


def literals(ctx, top, kind):
    """every odd literal in every argument position"""
    n = ctx.choice("n", [1, 2, 3])
    at = ctx.choice("at", list(range(n)))
    ps = [("col", "c%d" % k) for k in range(n)]
    odd = [("s", ""), ("i", 0), ("t", False), ("cf", 0.0), ("b", b""), ("n",), ("s", " "), ("s", "`"), ("s", "NULL"), ("s", "a AS `b`"), ("s", "(")]
    ps[at] = ctx.choice("v", odd + ([] if kind == "init" else [("arr", []), ("tup", []), ("arr", [("s", "")]), ("fn", "bar", [], None)]))
    al = ctx.choice("al", [None, "x"])
    if kind == "fn":
        spec = ("fn", "foo", ps, al)
    elif kind == "init":
        spec = ("cfn", "foo", ps, [("col", "z")], al)
    else:
        spec = ("cfn", "foo", [("i", 1)], ps, al)
    _run(ctx, spec, top)


WORD = ((48, 57), (65, 90), (95, 95), (97, 122))
LETTER = ((65, 90), (97, 122))
ALIAS = tuple((ord(c), ord(c)) for c in sorted("._+*/:-[]()@")) + ((48, 57), (65, 90), (97, 122))
ALIAS = tuple(sorted(ALIAS))
COLCH = tuple(sorted(((48, 57), (65, 90), (95, 95), (97, 122), (46, 46), (58, 58), (64, 64))))
KEY = ((0, 90), (92, 92), (94, 0xD7FF), (0xE000, 0xF8EF), (0xF8F2, 0x10FFFF))


def names(ctx, n):
    """function name, alias, column, identifiers: the exact text"""
    f = ctx.str("f0", 1, LETTER) + ctx.str("f", n + 1, WORD)
    al = ctx.str("al", n + 1, ALIAS)
    c = ctx.str("c0", 1, LETTER) + ctx.str("c", n, COLCH)
    i = ctx.str("i0", 1, LETTER) + ctx.str("i", n, WORD)
    e = Function(f, [Column(c), Lambda([i], Function("bar", [Identifier(i)]))], al)
    text = query(select=[e]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    want = T("MATCH (events) SELECT") + W(f) + T("(") + W(c) + T(", (") + [("bt", i)] + T(") -> bar(") + [("bt", i)] + T(")) AS") + [("bt", al)]
    check_text(ctx, text, want, "a name is changed when printed")


def names2(ctx, n):
    al = ctx.str("al", n + 1, ALIAS)
    c = ctx.str("c0", 1, LETTER) + ctx.str("c", n, COLCH)
    f = ctx.str("f0", 1, LETTER) + ctx.str("f", n + 1, WORD)
    text = query(select=[AliasedExpression(Column(c), al), CurriedFunction(f, [Column(c)], [], al)],
                 orderby=[OrderBy(Column(c), Direction.ASC)]).serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    want = (T("MATCH (events) SELECT") + W(c) + T("AS") + [("bt", al)] + T(",") + W(f) + T("(") + W(c) + T(")() AS") + [("bt", al)]
            + T("ORDER BY") + W(c) + T("ASC"))
    check_text(ctx, text, want, "a name is changed when printed")


def key(ctx, n):
    """a subscript key is printed verbatim, whatever it contains"""
    k = ctx.str("k", n, KEY)
    c = "tags[" + k + "]"
    q = query(select=[Function("foo", [Column(c)]), Column(c)])
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    ctx.check(text.endswith(c), "the subscript is changed when printed")
    ctx.check(text.startswith("MATCH (events) SELECT foo(" + c + ")"), "the subscript is changed when printed")
    ctx.check(len(text) == len("MATCH (events) SELECT foo(), ") + 2 * len(c), "text is added or lost around a subscript")


LITERALS = {
    "null": lambda c, k: ("n",), "bool": lambda c, k: ("t", c.bool("v%d" % k)), "int": lambda c, k: ("i", c.int("v%d" % k)),
    "float": lambda c, k: ("f", c.float("v%d" % k)), "str": lambda c, k: ("s", c.str("v%d" % k, 1)), "bytes": lambda c, k: ("b", b"x'y"),
    "date": lambda c, k: ("d", c.datetime("v%d" % k)), "datetime": lambda c, k: ("dt", c.datetime("v%d" % k)),
    "aware": lambda c, k: ("adt", c.datetime("v%d" % k, aware=True)), "col": lambda c, k: ("col", "i%d" % k),
}


def arguments(ctx, n, place):
    """arguments and initializers of every literal kind"""
    ps = [ctx.choice("k%d" % k, list(LITERALS.values()))(ctx, k) for k in range(n)]
    if place == "init":
        spec = ("cfn", "foo", ps, [("col", "z")], None)
    elif place == "cparam":
        spec = ("cfn", "foo", [("i", 1)], ps, "al")
    else:
        spec = ("fn", "foo", ps, None)
    q, want = _run(ctx, spec, ctx.choice("top", ["select", "rhs", "orderby"]))
    check_text(ctx, q.print(), want, "print() does not print the expression faithfully")


def lambdas(ctx, sizes):
    """any number of identifiers, repeated ones included, and lambdas inside lambdas"""
    def one(name, body):
        n = ctx.choice("n" + name, sizes)
        pool = ctx.choice("p" + name, [["x", "y", "z"], ["x"], ["v%d" % k for k in range(12)], ["Xx", "xx", "x"]])
        ids = [pool[k % len(pool)] for k in range(n)]
        return ("lam", ids, body)
    last = ctx.choice("last", [("id", "x"), ("id", "unbound"), ("col", "x"), ("s", "x")])
    al = ctx.choice("al", [None, "x", "al.y"])
    body = ctx.choice("body", [("fn", "plus", [last, ("i", 1)], al), ("cfn", "plus", [("i", 1)], [last, ("id", "y")], al)])
    lam = one("a", body)
    if ctx.choice("nested", [False, True]):
        n = ctx.choice("m", [0, 1, 2, 3])
        lam = ("lam", ["x", "k", "x"][:n], ("fn", "arrayMap", [lam, ("col", "l")], al))
    _run(ctx, ("fn", "arrayMap", [lam, ("col", "l")], None), "select")


def cases(tier):
    deep = tier == "thorough"
    out = []
    out.append(("lambdas", lambdas, {"sizes": [0, 1, 2, 3, 4, 7] + ([12] if deep else [])}, {"reach": ["serialized"], "bounds": "up to 7 (12) identifiers", "cost": 60}))
    for p in ("fn", "cparam", "init"):
        for n in (1, 2) if not deep else (1, 2, 3):
            out.append(("arguments/%s/%d" % (p, n), arguments, {"n": n, "place": p}, {"reach": ["serialized"], "bounds": "%d arguments of every kind" % n, "cost": 10 ** n}))
    for t in TOPS:
        d = 3 if deep and t in ("select", "rhs") else 2
        out.append(("shapes/%s" % t, shapes, {"top": t, "depth": d}, {"reach": ["serialized"], "bounds": "nesting up to %d" % d, "cost": 100 * 14 ** (d - 2)}))
        for k in ("fn", "init", "cparam"):
            out.append(("width/%s/%s" % (t, k), width, {"top": t, "kind": k, "sizes": [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 24]},
                        {"reach": ["serialized"], "bounds": "up to 24 arguments", "cost": 10}))
            out.append(("literals/%s/%s" % (t, k), literals, {"top": t, "kind": k}, {"reach": ["serialized"], "bounds": "up to 3 arguments, one odd", "cost": 10}))
    for t in TOPS if deep else ("select", "lhs", "orderby"):
        for k in ("fn", "init", "cparam"):
            out.append(("large/%s/%s" % (t, k), large, {"top": t, "kind": k, "sizes": [40, 130] + ([400] if deep else [])}, {"reach": ["serialized"], "bounds": "40 and 130 (400) arguments", "cost": 30}))
        out.append(("tall/%s" % t, tall, {"top": t, "depths": [5, 12] + ([20] if deep else [])}, {"reach": ["serialized"], "bounds": "nesting 5 and 12 (20)", "cost": 100}))
    for n in range(0, 9 if deep else 6):
        out.append(("names/%d" % n, names, {"n": n}, {"reach": ["serialized"], "bounds": "names of %d characters" % (n + 1)}))
        out.append(("names2/%d" % n, names2, {"n": n}, {"reach": ["serialized"], "bounds": "names of %d characters" % (n + 1)}))
        out.append(("key/%d" % n, key, {"n": n}, {"reach": ["serialized"], "bounds": "keys of %d characters" % n}))
    return out
