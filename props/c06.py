"""Joins and subqueries: what a query reads from is printed faithfully, and columns are qualified
by their entity's alias everywhere in a join and nowhere else."""
from props.c05 import CLAUSES, OB, PADDING, make, wants
from props.lib import (
    Column, Condition, CurriedFunction, Direction, Entity, Function, Granularity, Join, Lambda, Limit, LimitBy,
    Offset, Op, OrderBy, Query, Relationship, Storage, T, Totals, W, build, check_text, commas, joined, ref,
)

OUTSIDE = ("sample rates with more than six decimals; joins of more than 4 relationships; more than 4 nested queries; "
           "aliases and relationship names beyond letters, digits and underscore")

WORD = ((48, 57), (65, 90), (95, 95), (97, 122))


def verify(ctx, q, want):
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, want, "the joined or nested query is not printed faithfully")
    check_text(ctx, q.print(), want, "print() does not print the joined or nested query faithfully")
    check_text(ctx, q.serialize(), want, "a second serialization differs")


EX = {
    "col": lambda a: ("col", "c", a),
    "sub": lambda a: ("col", "tags[k.l]", a),
    "fn": lambda a: ("fn", "foo", [("col", "c", a), ("s", "x.c")], None),
    "fnas": lambda a: ("fn", "foo", [("i", 1), ("col", "c", a)], "al"),
    "deep": lambda a: ("fn", "foo", [("fn", "bar", [("fn", "baz", [("col", "c", a)], None), ("col", "d", "t")], "z")], None),
    "cfn": lambda a: ("cfn", "quantile", [("f", 0.5), ("col", "w", a)], [("col", "c", a)], "p5"),
    "lam": lambda a: ("fn", "arrayMap", [("lam", ["x"], ("fn", "plus", [("id", "x"), ("col", "c", a)], None)), ("col", "d", "t")], None),
    "arr": lambda a: ("fn", "foo", [("arr", [("col", "c", a), ("col", "d", "t")])], None),
    "tup": lambda a: ("fn", "foo", [("tup", [("i", 1), ("tup", [("col", "c", a)])])], None),
}

CL = {
    "select": lambda e: dict(select=[("col", "a", "e"), e]),
    "groupby": lambda e: dict(groupby=[("col", "a", "e"), e]),
    "lhs": lambda e: dict(where=[("c", ("col", "a", "e"), "IS NULL"), ("c", e, ">", ("i", 1))]),
    "rhs": lambda e: dict(where=[("c", ("col", "a", "e"), "!=", e), ("c", e, "IS NOT NULL")]),
    "rhsarr": lambda e: dict(where=[("c", ("col", "a", "e"), "IN", ("arr", [e, ("s", "e.a")]))]),
    "rhstup": lambda e: dict(having=[("c", ("col", "a", "e"), "NOT IN", ("tup", [e, ("i", 2)]))]),
    "having": lambda e: dict(having=[("c", e, "LIKE", ("s", "t.%"))]),
    "or": lambda e: dict(where=[("or", [("c", e, "=", ("i", 1)), ("and", [("c", ("col", "a", "t"), "=", e), ("c", e, "IS NULL")])])]),
    "orderby": lambda e: dict(orderby=[(e, Direction.DESC), (("col", "a", "e"), Direction.ASC)]),
}

E = Entity("events", "e")
TT = Entity("transactions", "t")
ENTS = {"e": E, "t": TT}


def jtok(rels):
    """rels: list of (alias, name, sample tokens, relationship, ...)"""
    return commas([ent(l) + T("-[") + W(n) + T("]->") + ent(r) for l, n, r in rels])


def ent(x):
    alias, name, sample = x
    out = T("(") + (alias_tok(alias) if alias is not None else []) + T(name) + sample + T(")")
    return out


def alias_tok(a):
    return W(a + ":")


# '-[rel]->' lexes as the words '-' and '->': the reference is built the same way
def rel_tok(l, n, r):
    return ent(l) + T("-[") + W(n) + T("]->") + ent(r)


def jmake(d, ents, match):
    kw = {"select": [build(s, ents) for s in d["select"]]}
    for k in ("groupby", "where", "having"):
        if d.get(k) is not None:
            kw[k] = [build(s, ents) for s in d[k]]
    if d.get("array_join") is not None:
        kw["array_join"] = [build(s, ents) for s in d["array_join"]]
    if d.get("orderby") is not None:
        kw["orderby"] = [OrderBy(build(s, ents), o) for s, o in d["orderby"]]
    if d.get("limitby") is not None:
        n, cols = d["limitby"]
        kw["limitby"] = LimitBy([build(c, ents) for c in cols], n)
    for k, c in (("limit", Limit), ("offset", Offset), ("granularity", Granularity)):
        if d.get(k) is not None:
            kw[k] = c(d[k])
    return Query(match, **kw)


def jwant(d, mtok, q=True):
    out = T("MATCH") + mtok + T("SELECT") + commas([ref(s, q) for s in d["select"]])
    if d.get("groupby"):
        out = out + T("BY") + commas([ref(s, q) for s in d["groupby"]])
    if d.get("array_join"):
        out = out + T("ARRAY JOIN") + commas([ref(s, q) for s in d["array_join"]])
    if d.get("where"):
        out = out + T("WHERE") + joined([ref(s, q) for s in d["where"]], "AND")
    if d.get("having"):
        out = out + T("HAVING") + joined([ref(s, q) for s in d["having"]], "AND")
    if d.get("orderby"):
        out = out + T("ORDER BY") + commas([ref(s, q) + T(o.value) for s, o in d["orderby"]])
    if d.get("limitby") is not None:
        n, cols = d["limitby"]
        out = out + T("LIMIT") + W(str(n)) + T("BY") + commas([ref(c, q) for c in cols])
    for k, word in (("limit", "LIMIT"), ("offset", "OFFSET"), ("granularity", "GRANULARITY")):
        if d.get(k) is not None:
            out = out + T(word) + W(str(d[k]))
    return out


SIMPLE = jtok([(("e", "events", []), "rel", ("t", "transactions", []))])


def qualified(ctx, clause, join):
    """a column of either entity, in every kind of expression, in every clause"""
    ex = ctx.choice("ex", list(EX.values()))(ctx.choice("al", ["e", "t"]))
    d = {"select": [("col", "a", "e")]}
    d.update(CL[clause](ex))
    if join:
        verify(ctx, jmake(d, ENTS, Join([Relationship(E, "rel", TT)])), jwant(d, SIMPLE))
    else:
        m = ctx.choice("m", [(E, T("(events)")), (Entity("events"), T("(events)")), (Storage("errors"), T("STORAGE(errors)"))])
        verify(ctx, jmake(d, ENTS, m[0]), jwant(d, m[1], False))


def everywhere(ctx, join):
    """all clauses at once, including array join and limit by"""
    al = ctx.choice("al", ["e", "t"])
    d = {"select": [("col", "a", al), ("fn", "foo", [("col", "b", "t")], "f1")], "groupby": [("col", "g", al)]}
    opt = {"array_join": [("col", "x.y", al), ("col", "z", "e")], "where": [("c", ("col", "w", al), "=", ("col", "v", "t"))],
           "having": [("c", ("fn", "foo", [("col", "h", al)], None), "<", ("i", ctx.int("h")))],
           "orderby": [(("col", "o", al), Direction.ASC)], "limitby": (ctx.int("lb", 1, 10000), [("col", "k", al), ("col", "l", "t")]),
           "limit": ctx.int("l", 1, 10000), "offset": ctx.int("of", 0), "granularity": ctx.int("g", 1)}
    for k in opt:
        if ctx.choice(k, [False, True]):
            d[k] = opt[k]
    if join:
        verify(ctx, jmake(d, ENTS, Join([Relationship(E, "rel", TT)])), jwant(d, SIMPLE))
    else:
        verify(ctx, jmake(d, ENTS, E), jwant(d, T("(events)"), False))


def relationships(ctx, n):
    """any number of relationships, in order, repeated entities included"""
    pool = [("a1", "events"), ("b_2", "spans"), ("Long", "events"), ("d", "group_x")]
    ents = {a: Entity(nm, a) for a, nm in pool}
    rels, toks = [], []
    for k in range(n):
        l = ctx.choice("l%d" % k, pool[:3] if n > 1 else pool)
        r = ctx.choice("r%d" % k, pool[1:] if n > 1 else pool)
        name = ctx.choice("n%d" % k, ["rel", "grouped_by"]) if n < 2 else ("rel", "grouped_by", "rel", "r3")[k]
        rels.append(Relationship(ents[l[0]], name, ents[r[0]]))
        toks.append(((l[0], l[1], []), name, (r[0], r[1], [])))
    al = toks[-1][2][0]
    d = {"select": [("col", "a", al)]}
    first = toks[0][0][0]
    d.update(ctx.choice("clauses", [
        {}, {"where": [("c", ("col", "z", first), "=", ("i", 1))]}, {"having": [("c", ("col", "z", first), "=", ("col", "y", al))]},
        {"groupby": [("col", "g", first)], "orderby": [(("col", "z", first), Direction.ASC)]}, {"limitby": (3, [("col", "z", al)]), "array_join": [("col", "z", first)]}]))
    m = Join(rels) if ctx.choice("list", [True, False]) else Join(tuple(rels))
    verify(ctx, jmake(d, ents, m), jwant(d, jtok(toks)))


def crowd(ctx, sizes):
    """very many relationships and very long lists of columns in a join, in order, repeated ones included"""
    n = ctx.choice("n", sizes)
    style = ctx.choice("style", ["chain", "star", "same", "both"])
    als = ["a%d" % k for k in range(n + 1)]
    pick = {"chain": lambda k: (als[k], als[k + 1]), "star": lambda k: (als[0], als[n - k]), "same": lambda k: (als[0], als[1]), "both": lambda k: (als[k % 3], als[(k + 1) % 3])}[style]
    ents = {a: Entity("events" if k % 2 else "spans", a) for k, a in enumerate(als)}
    rels, toks = [], []
    for k in range(n):
        l, r = pick(k)
        rels.append(Relationship(ents[l], "rel%d" % (k % 5), ents[r]))
        toks.append(((l, ents[l].name, []), "rel%d" % (k % 5), (r, ents[r].name, [])))
    l, r = toks[0][0][0], toks[0][2][0]
    cols = [("col", ("long_name%d" if k % 3 == 0 else "c%d") % (k % 7), l if k % 2 else r) for k in range(n + 2)]
    d = {"select": [("col", "a", l)]}
    where = ctx.choice("where", ["select", "groupby", "array_join", "limitby", "orderby", "where", "having", "params", "list"])
    if where in ("select", "groupby", "array_join"):
        d[where] = cols
    elif where == "limitby":
        d[where] = (ctx.int("lb", 1, 10000), cols)
    elif where == "orderby":
        d[where] = [(c, Direction.ASC if k % 2 else Direction.DESC) for k, c in enumerate(cols)]
    elif where in ("where", "having"):
        d[where] = [("c", c, "<", ("col", "z", r)) for c in cols] + [("or", [("c", c, "!=", ("i", ctx.int("v%d" % k))) for k, c in enumerate(cols)])]
    elif where == "params":
        d["select"] = [("fn", "foo", cols, "x")]
    else:
        d["where"] = [("c", ("col", "z", r), "IN", ("arr", cols))]
    verify(ctx, jmake(d, ents, Join(rels)), jwant(d, jtok(toks)))


def rate(ctx, s):
    """how a rate is printed (that it is printed as the same number is decided by `sample`)"""
    toks = ctx.tokens(Query(Entity("events", sample=s), [Column("a")]).serialize())
    ctx.check(len(toks) == 8 and float(toks[4][1]) == s, "the sample rate is changed")
    return toks[4][1]


def samples(ctx, n):
    """every occurrence of an entity keeps its own sample rate"""
    rels, toks = [], []
    for k in range(n):
        ends = []
        for side in "lr":
            al, nm = ctx.choice(side + str(k), [("a1", "events"), ("b_2", "events"), ("c", "spans")])
            s = ctx.choice("s" + side + str(k), [None, 0.25, 10.0])
            ends.append((Entity(nm, al, s), (al, nm, [] if s is None else T("SAMPLE") + W(rate(ctx, s)))))
        rels.append(Relationship(ends[0][0], "rel", ends[1][0]))
        toks.append((ends[0][1], "rel", ends[1][1]))
    al = toks[0][0][0]
    ents = {al: rels[0].lhs}
    d = {"select": [("col", "a", al)]}
    if ctx.choice("w", [False, True]):
        d["where"] = [("c", ("col", "z", al), "=", ("i", 1))]
    verify(ctx, jmake(d, ents, Join(rels)), jwant(d, jtok(toks)))


def aliases(ctx, n):
    """any alias and relationship name"""
    a = ctx.str("a", n, WORD)
    b = ctx.str("b", n + 1, WORD)
    rel = ctx.str("r", n, WORD)
    e1, e2 = Entity("events", a), Entity("spans", b)
    c1, c2 = Column("c", e1), Column("tags[x]", e2)
    q = Query(Join([Relationship(e1, rel, e2)]), [c1, Function("foo", [c2, c1], "f1")], where=[Condition(c2, Op.EQ, c1)])
    t1 = W(a + ".c")
    t2 = W(b + ".tags") + T("[x]")
    want = (T("MATCH") + rel_tok((a, "events", []), rel, (b, "spans", [])) + T("SELECT") + t1 + T(", foo(") + t2 + T(",") + t1
            + T(") AS") + [("bt", "f1")] + T("WHERE") + t2 + T("=") + t1)
    verify(ctx, q, want)


SAMPLES = [1.0, 0.1, 0.5, 0.25, 0.000001, 0.333333, 10.0, 1000.0, 1000000.0, 2.5, 0.999999, 12345.678, 123456.0]


def sample(ctx, where, whole):
    """the sample rate is printed as the same number"""
    if whole:
        s = ctx.float("s", 1, 2 ** 40)
    else:
        s = ctx.choice("s", SAMPLES)
    if where == "entity":
        q = Query(Entity("events", sample=s), [Column("a")])
        pre, post = T("MATCH (events SAMPLE"), T(") SELECT a")
    elif where == "aliased":
        q = Query(Entity("events", "ev", sample=s), [Column("a")])
        pre, post = T("MATCH (events SAMPLE"), T(") SELECT a")
    elif where == "storage":
        q = Query(Storage("errors", sample=s), [Column("a")])
        pre, post = T("MATCH STORAGE(errors SAMPLE"), T(") SELECT a")
    elif where == "inner":
        q = Query(Query(Entity("events", sample=s), [Column("a")]), [Column("a")])
        pre, post = T("MATCH { MATCH (events SAMPLE"), T(") SELECT a } SELECT a")
    else:
        l, r = Entity("events", "e", sample=s if where == "lhs" else None), Entity("spans", "sp", sample=s if where == "rhs" else None)
        q = Query(Join([Relationship(l, "rel", r)]), [Column("a", l)])
        if where == "lhs":
            pre, post = T("MATCH (e: events SAMPLE"), T(") -[rel]-> (sp: spans) SELECT e.a")
        else:
            pre, post = T("MATCH (e: events) -[rel]-> (sp: spans SAMPLE"), T(") SELECT e.a")
    for text in (q.serialize(), q.print()):
        ctx.observe("snql", text)
        toks = ctx.tokens(text)
        ctx.check(len(toks) == len(pre) + 1 + len(post), "the sampled query is not printed faithfully")
        number = toks[len(pre)][1]
        if whole:
            ctx.check(number == str(s), "the sample rate is changed")
        else:
            ctx.check(float(number) == s, "the sample rate is changed")
        check_text(ctx, text, pre + W(number) + post, "the sampled query is not printed faithfully")
    ctx.reach("serialized")


# ------------------------------------------------------------------ subqueries
def inner_desc(ctx, k):
    """one inner level: selects columns c<k>, an aliased function, and some clauses"""
    d = {"select": [("col", "c"), ("fn", "foo", [("col", "c")] if k else [("col", "base")], "f1"), ("cfn", "cur", [("i", k)], [("col", "c")], "cf")]}
    return d


VARIANTS = {
    "plain": lambda ctx, k: {},
    "where": lambda ctx, k: {"where": [("c", ("col", "c"), ">", ("i", ctx.int("w%d" % k)))]},
    "group": lambda ctx, k: {"groupby": [("col", "c")], "having": [("c", ("col", "c"), "!=", ("s", "}"))]},
    "order": lambda ctx, k: {"orderby": [(("col", "c"), Direction.DESC)], "limitby": (ctx.int("b%d" % k, 1, 10000), ["c"]), "limit": ctx.int("l%d" % k, 1, 10000)},
    "off": lambda ctx, k: {"offset": ctx.int("o%d" % k, 0), "granularity": ctx.int("g%d" % k, 1), "array_join": ["c"]},
}
BASES = {
    "entity": (Entity("events"), T("(events)")),
    "aliased": (Entity("events", "ev"), T("(events)")),
    "storage": (Storage("errors"), T("STORAGE(errors)")),
}


def tower(ctx, depth, base):
    """queries nested very deep"""
    q, want = BASES[base]
    style = ctx.choice("style", list(VARIANTS) + ["turn"])
    at = ctx.choice("at", [0, depth // 2, depth - 1, None])
    for k in range(depth + 1):
        d = inner_desc(ctx, k)
        if at is None or k == at:
            d.update(VARIANTS[list(VARIANTS)[k % len(VARIANTS)] if style == "turn" else style](ctx, k))
        q, want = make(q, d), wants(T("{") + want + T("}") if k else want, d)
    verify(ctx, q, want)


def nested(ctx, base, depth, setmatch):
    """queries nested up to the depth, every combination of clause variants per level"""
    m, mt = BASES[base]
    q = None
    for k in range(depth + 1):
        d = inner_desc(ctx, k)
        d.update(ctx.choice("v%d" % k, list(VARIANTS.values()))(ctx, k))
        if setmatch and q is not None:
            nq = make(Entity("placeholder"), d).set_match(q)
        else:
            nq = make(m if q is None else q, d)
        want = wants(mt if q is None else T("{") + want + T("}"), d)
        q = nq
    verify(ctx, q, want)


def joininside(ctx, depth):
    """a join inside a subquery: qualified inside, unqualified outside"""
    al = ctx.choice("al", ["e", "t"])
    d = {"select": [("col", "c", al), ("fn", "foo", [("col", "d", "e")], "f1"), ("cfn", "cur", [("i", 1)], [("col", "c", al)], "cf")],
         "where": [("c", ("col", "w", "t"), "=", ("col", "w", al))], "orderby": [(("col", "o", al), Direction.ASC)]}
    q = jmake(d, ENTS, Join([Relationship(E, "rel", TT)]))
    want = jwant(d, SIMPLE)
    for k in range(1, depth + 1):
        d = inner_desc(ctx, k)
        d["orderby"] = [(("fn", "bar", [("col", "f1")], None), Direction.DESC)]
        d["limitby"] = (5, ["c"])
        d.update(ctx.choice("v%d" % k, list(VARIANTS.values()))(ctx, k))
        outer_ents = ctx.choice("ent%d" % k, [False, True])
        if outer_ents:
            d["select"] = [("col", "c", "e")] + d["select"][1:]
            q = make(q, d, False, ENTS)
        else:
            q = make(q, d)
        want = wants(T("{") + want + T("}"), d)
    verify(ctx, q, want)


def sequence(ctx):
    """printing a join, then a plain query, then the join again: qualification does not leak"""
    d = {"select": [("col", "a", "e"), ("fn", "foo", [("col", "b", "t")], None)], "where": [("c", ("col", "a", "e"), "=", ("i", 1))]}
    j = jmake(d, ENTS, Join([Relationship(E, "rel", TT)]))
    p = jmake(d, ENTS, E)
    for k in range(3):
        if ctx.choice("which%d" % k, [False, True]):
            verify(ctx, j, jwant(d, SIMPLE))
        else:
            verify(ctx, p, jwant(d, T("(events)"), False))


def long(ctx, depth, pad):
    """long texts: a literal full of separators at any level, and many columns"""
    at = ctx.choice("at", list(range(depth + 1)))
    v = ("s", PADDING * pad + ctx.str("v", 2) + PADDING * pad)
    many = ctx.choice("many", [0, 40])
    q = None
    for k in range(depth + 1):
        d = inner_desc(ctx, k)
        d["select"] = d["select"] + [("fn", "foo", [("col", "c")], "m%d" % j) for j in range(many)]
        if k == at:
            d["where"] = [("c", ("col", "c"), "=", v)]
            d["orderby"] = [(("fn", "foo", [("col", "c"), v], None), Direction.ASC)]
        nq = make(Entity("events") if q is None else q, d)
        want = wants(T("(events)") if q is None else T("{") + want + T("}"), d)
        q = nq
    verify(ctx, q, want)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for dpt in (1, 2) if not deep else (1, 2, 3):
        for pad in (1, 8) if not deep else (1, 4, 8, 30):
            out.append(("long/%d/%d" % (dpt, pad), long, {"depth": dpt, "pad": pad}, {"reach": ["serialized"], "bounds": "literals of %d characters, up to 43 columns" % (50 * pad + 2), "cost": 40}))
    R = {"reach": ["serialized"]}
    for j in (True, False):
        for c in CL:
            out.append(("qualified/%s/%s" % (c, "join" if j else "plain"), qualified, {"clause": c, "join": j}, dict(R, bounds="every expression kind", cost=3)))
        out.append(("everywhere/%s" % j, everywhere, {"join": j}, dict(R, bounds="every subset of clauses", cost=20)))
    for n in range(1, 5 if deep else 4):
        out.append(("relationships/%d" % n, relationships, {"n": n}, dict(R, bounds="%d relationships" % n, cost=6 ** n)))
    for b in BASES:
        for dpt in (5, 8, 13) + ((25,) if deep else ()):
            out.append(("tower/%s/%d" % (b, dpt), tower, {"base": b, "depth": dpt}, dict(R, bounds="%d nested queries" % dpt, cost=10 * dpt)))
    out.append(("crowd", crowd, {"sizes": [2, 5, 8, 13, 40, 130]}, dict(R, bounds="up to 130 relationships and 132 columns", cost=200)))
    for n in (1, 2) if deep else (1,):
        out.append(("samples/%d" % n, samples, {"n": n}, dict(R, bounds="%d relationships" % n, cost=20 ** n)))
    for n in range(1, 7 if deep else 5):
        out.append(("aliases/%d" % n, aliases, {"n": n}, dict(R, bounds="aliases of %d characters" % n)))
    for w in ("entity", "aliased", "storage", "inner", "lhs", "rhs"):
        out.append(("sample/%s/pool" % w, sample, {"where": w, "whole": False}, dict(R, bounds="a pool of rates")))
        out.append(("sample/%s/whole" % w, sample, {"where": w, "whole": True}, dict(R, bounds="whole rates up to 2**40")))
    for b in BASES:
        for dpt in range(1, 5 if deep else 4):
            for sm in (False, True):
                if dpt == 4 and (b != "entity" or sm):
                    continue
                out.append(("nested/%s/%d/%s" % (b, dpt, sm), nested, {"base": b, "depth": dpt, "setmatch": sm}, dict(R, bounds="%d nested queries" % dpt, cost=5 ** dpt)))
    for dpt in (1, 2, 3) if deep else (1, 2):
        out.append(("joininside/%d" % dpt, joininside, {"depth": dpt}, dict(R, bounds="join under %d queries" % dpt, cost=20 * dpt)))
    out.append(("sequence", sequence, {}, R))
    return out
