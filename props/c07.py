"""Rewriting OR groups of equalities never changes which rows a query selects."""
from props.lib import (
    HEAD, Column, Condition, Entity, Join, Op, Or, Query, Relationship, T, build, check_text, commas, joined, query, ref,
)
from props.mlib import MRI, Formula, Metric, Timeseries, filters_tok, mquery, mref, ts

OUTSIDE = ("groups of more than 150 alternatives (8 with every choice of odd member, 4 in every structure); left sides that differ only in arguments Python considers equal "
           "(1, 1.0 and TRUE) or in the alias of a curried function")
ASSUMPTIONS = ["x IN array(v1, ..., vn) selects the rows of x = v1 OR ... OR x = vn (the meaning of IN)"]

LHS = [
    ("col", "a"), ("col", "b"), ("fn", "foo", [("col", "a"), ("i", 1)], None), ("fn", "foo", [("col", "a"), ("i", 2)], None),
    ("cfn", "cur", [("i", 1)], [("col", "a")], None), ("cfn", "cur", [("i", 2)], [("col", "a")], None), ("col", "tags[a]"), ("fn", "foo", [("col", "a"), ("i", 1)], "al"),
]
MEMBERS = {
    "eq": lambda l, v: ("c", l, "=", v),
    "neq": lambda l, v: ("c", l, "!=", v),
    "in": lambda l, v: ("c", l, "IN", ("arr", [v, v])),
    "like": lambda l, v: ("c", l, "LIKE", ("s", "x%")),
    "null": lambda l, v: ("c", l, "IS NULL"),
    "gte": lambda l, v: ("c", l, ">=", v),
    "or": lambda l, v: ("or", [("c", l, "=", v), ("c", l, "=", ("i", 77))]),
    "and": lambda l, v: ("and", [("c", l, "=", v), ("c", l, "=", ("i", 78))]),
}


def forms(s, top=True, q=False):
    """the token lists a condition may be printed as"""
    plain = [ref(s, q)]
    if s[0] == "or":
        parts = s[1]
    elif s[0] == "bool" and s[1] == "OR":
        parts = s[2]
    else:
        return plain
    if all(p[0] == "c" and p[2] == "=" and p[1] == parts[0][1] for p in parts):
        vals = commas([ref(p[3], q) for p in parts])
        for f in ("array(", "tuple("):
            plain.append(ref(parts[0][1], q) + T("IN") + T(f) + vals + T(")"))
    return plain


def check_forms(ctx, text, head, group, msg, q=False):
    alts = [[]]
    for k, g in enumerate(group):
        alts = [a + (T("AND") if k else []) + f for a in alts for f in forms(g, True, q)]
    ctx.check(ctx.either(*[ctx.matches(text, head + a) for a in alts]), msg)


def run(ctx, group, clause="where", match=None, ents=None, head=None, q=False):
    obj = [build(g, ents) for g in group]
    qq = query(**{clause: obj}) if match is None else Query(match, [build(("col", "s", "e"), ents)], **{clause: obj})
    head = (T(HEAD) if head is None else head) + T(clause.upper())
    text = qq.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_forms(ctx, text, head, group, "an OR group is rewritten into something that selects other rows", q)
    check_forms(ctx, qq.print(), head, group, "print() rewrites an OR group into something that selects other rows", q)
    check_forms(ctx, qq.serialize(), head, group, "serializing twice changes an OR group", q)
    return text


def members(ctx, n, clause, lhs):
    """every choice of member kinds and left sides"""
    parts = []
    for k in range(n):
        m = ctx.choice("m%d" % k, list(MEMBERS.values()))
        l = LHS[lhs[0]] if ctx.choice("l%d" % k, [True, False]) else LHS[lhs[1]]
        parts.append(m(l, ("i", ctx.int("v%d" % k))))
    spec = ("or", parts) if n == 3 or ctx.choice("cls", [True, False]) else ("bool", "OR", parts)
    run(ctx, [spec], clause)


RHS = [
    lambda ctx, k: ("i", ctx.int("v%d" % k)), lambda ctx, k: ("s", ctx.str("v%d" % k, 1)), lambda ctx, k: ("t", ctx.bool("v%d" % k)),
    lambda ctx, k: ("n",), lambda ctx, k: ("col", "r"), lambda ctx, k: ("fn", "bar", [("col", "r")], None), lambda ctx, k: ("cf", 1.0),
    lambda ctx, k: ("dt", ctx.datetime("v%d" % k)), lambda ctx, k: ("tup", [("i", 1), ("s", "x")]), lambda ctx, k: ("arr", [("i", 1)]), lambda ctx, k: ("s", "1"),
]


def values(ctx, n, lhs):
    """every kind of value, all equal, in every position"""
    parts = [("c", LHS[lhs], "=", ctx.choice("r%d" % k, RHS)(ctx, k)) for k in range(n)]
    run(ctx, [("or", parts)])


def exact(ctx, n):
    """values Python considers equal are still separate values"""
    pool = [("i", 1), ("t", True), ("cf", 1.0), ("s", "1"), ("i", 0), ("t", False), ("n",), ("s", ""), ("b", b"1")]
    parts = [("c", ("col", "a"), "=", ctx.choice("r%d" % k, pool)) for k in range(n)]
    run(ctx, [("or", parts)])


def lhs_pairs(ctx):
    """left sides that look alike are not merged"""
    pool = LHS + [("fn", "foo", [("col", "a"), ("s", "1")], None), ("fn", "bar", [("col", "a"), ("i", 1)], None),
                  ("fn", "foo", [("i", 1), ("col", "a")], None), ("fn", "foo", [("col", "a")], None), ("fn", "foo", [], None),
                  ("fn", "cur", [("col", "a")], None), ("cfn", "cur", [("i", 1)], None, None), ("col", "A"), ("col", "a.b"), ("col", "tags[b]")]
    a = ctx.choice("l0", pool)
    b = ctx.choice("l1", pool)
    third = ctx.choice("l2", [None, 0, 1])
    parts = [("c", a, "=", ("i", 1)), ("c", b, "=", ("i", 2))]
    if third is not None:
        parts.append(("c", [a, b][third], "=", ("i", 3)))
    run(ctx, [("or", parts)])


def wideand(ctx, sizes):
    """AND groups are never rewritten, however many equalities they hold"""
    n = ctx.choice("n", sizes)
    l = ctx.choice("l", LHS[:5])
    parts = [("c", l, "=", ("i", ctx.int("v%d" % k))) for k in range(n)]
    spec = ctx.choice("form", [("and", parts), ("bool", "AND", parts), ("or", [("and", parts), ("c", l, "IS NULL")]), None])
    run(ctx, parts if spec is None else [spec], ctx.choice("clause", ["where", "having"]))


def wide(ctx, sizes):
    """one odd member anywhere in a long group"""
    n = ctx.choice("n", sizes)
    at = ctx.choice("at", list(range(max(sizes) + 1)))
    kind = ctx.choice("kind", ["neq", "lhs", "nested", "value"])
    if at > n:
        return
    parts = []
    for k in range(n):
        l, v = ("col", "a"), ("i", ctx.int("v%d" % k))
        if k == at:
            if kind == "neq":
                parts.append(("c", l, "!=", v))
            elif kind == "lhs":
                parts.append(("c", ("col", "b"), "=", v))
            elif kind == "nested":
                parts.append(("and", [("c", l, "=", v), ("c", l, "IS NOT NULL")]))
            else:
                parts.append(("c", l, "=", ("s", "odd")))
        else:
            parts.append(("c", l, "=", v))
    run(ctx, [("or", parts)])


def large(ctx, n):
    """very large groups: values that look alike stay apart, repeated values are harmless, one odd member is kept"""
    style = ctx.choice("style", ["ints", "alike", "texts", "same"])
    odd = ctx.choice("odd", ["none", "neq", "lhs", "nested", "null", "func"])
    at = ctx.choice("at", [0, n // 2, n - 1]) if odd != "none" else 0
    l = ctx.choice("l", [("col", "a"), ("fn", "foo", [("col", "a"), ("i", 1)], None)])
    pool = [("i", 1), ("s", "1"), ("t", True), ("cf", 1.0), ("n",), ("s", "None"), ("s", "True"), ("b", b"1"), ("i", 0), ("s", ""), ("col", "r"), ("s", "r")]
    vals = {
        "ints": lambda: [("i", k) for k in range(n)], "alike": lambda: [pool[k % len(pool)] for k in range(n)],
        "texts": lambda: [("s", "t%d" % k) for k in range(n)], "same": lambda: [("i", ctx.int("v"))] * n,
    }[style]()
    parts = [("c", l, "=", v) for v in vals]
    v = vals[at]
    if odd == "neq":
        parts[at] = ("c", l, "!=", v)
    elif odd == "lhs":
        parts[at] = ("c", ("col", "b"), "=", v)
    elif odd == "nested":
        parts[at] = ("and", [("c", l, "=", v), ("c", l, "IS NOT NULL")])
    elif odd == "null":
        parts[at] = ("c", l, "IS NULL")
    elif odd == "func":
        parts[at] = ("c", ("fn", "foo", [("col", "a"), ("i", 2)], None), "=", v)
    run(ctx, [("or", parts)])


def beside(ctx, sizes):
    """very many groups side by side: each is kept apart, and none is dropped"""
    n = ctx.choice("n", sizes)
    kind = ctx.choice("kind", ["merge", "keep", "and", "turn"])
    group = []
    for k in range(n):
        g = ("merge", "keep", "and")[k % 3] if kind == "turn" else kind
        a, b = ("c", ("col", "a"), "=", ("i", k)), ("c", ("col", "b" if g == "keep" else "a"), "=", ("i", k + 1))
        group.append(("and" if g == "and" else "or", [a, b]))
    q = query(where=[build(g) for g in group])
    plain = [ref(g) for g in group]
    merged = [forms(g)[-2] if len(forms(g)) > 1 else ref(g) for g in group]
    for text in (q.serialize(), q.print(), q.serialize()):
        ctx.observe("snql", text)
        ctx.check(ctx.either(*[ctx.matches(text, T(HEAD + " WHERE") + joined(x, "AND")) for x in (plain, merged)]), "one of many OR groups is rewritten into something that selects other rows")
    ctx.reach("serialized")


G = {
    "merge": lambda ctx, k: ("or", [("c", ("col", "a"), "=", ("i", ctx.int("p" + str(k)))), ("c", ("col", "a"), "=", ("i", ctx.int("q" + str(k))))]),
    "mergeb": lambda ctx, k: ("or", [("c", ("col", "b"), "=", ("i", ctx.int("p" + str(k)))), ("c", ("col", "b"), "=", ("i", ctx.int("q" + str(k))))]),
    "keep": lambda ctx, k: ("or", [("c", ("col", "a"), "=", ("i", 1)), ("c", ("col", "b"), "=", ("i", ctx.int("q" + str(k))))]),
    "and": lambda ctx, k: ("and", [("c", ("col", "a"), "=", ("i", ctx.int("p" + str(k)))), ("c", ("col", "a"), "=", ("i", 2))]),
    "cond": lambda ctx, k: ("c", ("col", "a"), "=", ("i", ctx.int("p" + str(k)))),
    "deep": lambda ctx, k: ("and", [("or", [("c", ("col", "a"), "=", ("i", 1)), ("c", ("col", "a"), "=", ("i", 2))]), ("c", ("col", "z"), "IS NULL")]),
}


def deepforms(s):
    """an OR below the top level may or may not be rewritten"""
    if s[0] in ("and", "or") or s[0] == "bool":
        op = s[0].upper() if s[0] != "bool" else s[1]
        parts = s[1] if s[0] != "bool" else s[2]
        alts = [[]]
        for k, p in enumerate(parts):
            alts = [a + (T(op) if k else []) + f for a in alts for f in deepforms(p)]
        out = [T("(") + a + T(")") for a in alts]
        return out + forms(s)[1:]
    return [ref(s)]


def several(ctx, n, clause):
    """several groups side by side"""
    group = [ctx.choice("g%d" % k, list(G.values()))(ctx, k) for k in range(n)]
    q = query(**{clause: [build(g) for g in group]})
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    alts = [[]]
    for k, g in enumerate(group):
        alts = [a + (T("AND") if k else []) + f for a in alts for f in deepforms(g)]
    for t in (text, q.print(), q.serialize()):
        ctx.check(ctx.either(*[ctx.matches(t, T(HEAD + " " + clause.upper()) + a) for a in alts]), "an OR group is rewritten into something that selects other rows")


E1, E2 = Entity("events", "e"), Entity("spans", "s")
ENTS = {"e": E1, "s": E2}


def joins(ctx):
    """the same column of two entities is not the same expression"""
    pool = [("col", "a", "e"), ("col", "a", "s"), ("fn", "foo", [("col", "a", "e")], None), ("fn", "foo", [("col", "a", "s")], None)]
    parts = [("c", ctx.choice("l%d" % k, pool), "=", ("i", ctx.int("v%d" % k))) for k in range(3)]
    head = T("MATCH (e: events) -[rel]-> (s: spans) SELECT e.s")
    run(ctx, [("or", parts)], "where", Join([Relationship(E1, "rel", E2)]), ENTS, head, True)


def subquery(ctx):
    """the inner query of a subquery is held to the same"""
    g = ctx.choice("g", list(G.values()))(ctx, 0)
    q = Query(query(where=[build(g)]), [Column("a")])
    for text in (q.serialize(), q.print()):
        ctx.observe("snql", text)
        ctx.check(ctx.either(*[ctx.matches(text, T("MATCH {" + HEAD + " WHERE") + f + T("} SELECT a")) for f in deepforms(g)]), "an OR group of a subquery is rewritten into something that selects other rows")
    ctx.reach("serialized")


def empty(ctx):
    """nothing to rewrite"""
    w = ctx.choice("w", [None, [], [("c", ("col", "a"), "=", ("i", 1))]])
    q = query(where=None if w is None else [build(x) for x in w])
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, T(HEAD) + (T("WHERE a = 1") if w else []), "a query without OR groups is changed")


# ------------------------------------------------------------------ MQL
def mforms(s):
    out = [mref(s)]
    if s[0] == "or" and all(p[0] == "c" and p[2] == "=" and p[1] == s[1][0][1] for p in s[1]):
        out.append(mref(("c", s[1][0][1], "IN", ("arr", [p[3] for p in s[1]]))))
    return out


def mql(ctx, n, shape):
    keys = [("col", "a"), ("col", "b.c"), ("col", "tags[x]")]
    parts = []
    for k in range(n):
        op = ctx.choice("op%d" % k, ["=", "!=", "IN", "NOT IN", "grp"])
        key = ctx.choice("k%d" % k, keys[:2])
        v = ctx.choice("v%d?" % k, [lambda c: ("s", c.str("v%d" % k, 1)), lambda c: ("i", c.int("v%d" % k))])(ctx)
        if op == "grp":
            parts.append(("and", [("c", key, "=", v), ("c", ("col", "z"), "=", ("s", "w"))]))
        else:
            parts.append(("c", key, op, v if op in ("=", "!=") else ("arr", [v, ("s", "o")])))
    group = [("or", parts)]
    if ctx.choice("extra", [False, True]):
        group.append(("c", ("col", "q"), "=", ("s", "r")))
    fs = [build(g) for g in group]
    if shape == "ts":
        q = ts(filters=fs)
        head, tail = T("max(" + MRI + ")", '"'), []
    else:
        q = Formula("plus", [ts(), 1.0], filters=fs)
        head, tail = T("(max(" + MRI + ") + 1.0)", '"'), []
    m = mquery(q)
    alts = [[]]
    for k, g in enumerate(group):
        alts = [a + (T("AND") if k else []) + f for a in alts for f in mforms(g)]
    for text in (m.serialize()["mql"], m.serialize()["mql"]):
        ctx.observe("mql", text)
        ctx.check(ctx.either(*[ctx.matches(text, head + T("{") + a + T("}") + tail, '"') for a in alts]), "an OR group of a metrics query is rewritten into something that selects other rows")
    ctx.reach("serialized")


def cases(tier):
    deep = tier == "thorough"
    out = []
    R = {"reach": ["serialized"]}
    for clause in ("where", "having"):
        for n in (2, 3):
            for lhs in ((0, 1), (2, 3)):
                if n == 3 and not deep and (lhs != (0, 1) or clause == "having"):
                    continue
                out.append(("members/%s/%d/%d" % (clause, n, lhs[0]), members, {"n": n, "clause": clause, "lhs": lhs}, dict(R, bounds="%d members of every kind" % n, cost=16 ** n)))
        for n in (1, 2, 3):
            out.append(("several/%s/%d" % (clause, n), several, {"n": n, "clause": clause}, dict(R, bounds="%d groups" % n, cost=6 ** n)))
    for n in (2, 3) if not deep else (2, 3, 4):
        for l in range(len(LHS)) if n == 2 else (0,):
            out.append(("values/%d/%d" % (n, l), values, {"n": n, "lhs": l}, dict(R, bounds="%d values of every kind" % n, cost=11 ** n)))
        out.append(("exact/%d" % n, exact, {"n": n}, dict(R, bounds="%d values" % n, cost=9 ** n)))
    out.append(("lhs_pairs", lhs_pairs, {}, dict(R, cost=900)))
    out.append(("wide", wide, {"sizes": [2, 3, 4, 5, 6, 7, 8]}, dict(R, bounds="up to 8 members", cost=200)))
    for n in (11, 20, 60, 150) + ((400,) if deep else ()):
        out.append(("large/%d" % n, large, {"n": n}, dict(R, bounds="%d members" % n, cost=2 * n)))
    out.append(("beside", beside, {"sizes": [4, 7, 12, 40]}, dict(R, bounds="up to 40 groups", cost=50)))
    out.append(("wideand", wideand, {"sizes": [2, 3, 4, 5, 6, 7, 8, 12]}, dict(R, bounds="up to 12 members", cost=100)))
    out.append(("joins", joins, {}, R))
    out.append(("subquery", subquery, {}, R))
    out.append(("empty", empty, {}, R))
    for shape in ("ts", "formula"):
        for n in (2, 3) if deep else (2,):
            out.append(("mql/%s/%d" % (shape, n), mql, {"n": n, "shape": shape}, dict(R, bounds="%d members" % n, cost=20 ** n)))
    return out
