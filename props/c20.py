"""Formulas are accepted exactly if they are consistent."""
from props.c13 import sdk
from props.c15 import HEADTOK, INFIX, glue
from props.lib import AliasedExpression, Column, Condition, Entity, Op, S, T, W, build, commas
from props.mlib import Formula, Metric, MRI, Timeseries, filters_tok, mquery, ts

from snuba_sdk.request import Request

OUTSIDE = ("trees wider or deeper than stated; groupings that differ only in order and empty grouping lists; booleans as parameters; "
           "function names that are not text")

GROUPS = {"-": (None, []), "A": ([Column("a")], T("by (a)")), "B": ([Column("a"), Column("b")], T("by (a, b)")), "C": ([AliasedExpression(Column("a"), "x")], T("by (a AS `x`)")),
          "D": ([Column("c")], T("by (c)"))}
BADS = ["1", None, Column("a"), [ts()], Metric(mri=MRI), (1,), Condition(Column("a"), Op.EQ, 1), b"x", {"a": 1}, Entity("events"), Timeseries]


class Tree:
    """collects what the specification needs while the tree is chosen"""

    def __init__(self):
        self.groups = []
        self.series = 0
        self.bad = 0
        self.n = 0


def leaf(ctx, st, k, kinds, groups):
    kind = ctx.choice("leaf" + k, kinds)
    if kind == "ts":
        g = ctx.choice("g" + k, groups)
        st.series += 1
        if g != "-":
            st.groups.append(g)
        obj, tok = GROUPS[g]
        f = ("c", ("col", "t" + k), "=", ("s", "v"))
        return ts(filters=[build(f)], groupby=None if obj is None else list(obj)), HEADTOK() + filters_tok([f]) + tok
    if kind == "num":
        v = ctx.int("i" + k) if st.n == 0 else ctx.choice("n" + k, [0, 2.5])
        st.n += 1
        return v, W(str(v))
    if kind == "bad":
        st.bad += 1
        return ctx.choice("bad" + k, BADS) if st.bad == 1 else None, []
    if kind == "none":  # a formula without parameters
        st.bad += 1
        return Formula("foo") if ctx.choice("how" + k, [0, 1]) else Formula("plus", None, None, None, [Column("a")]), []
    if kind == "notseq":
        st.bad += 1
        return Formula("foo", ctx.choice("ns" + k, [5, 1.5, {1}, "abc", Column("a")])), []
    # a formula with an empty list of parameters
    return Formula("foo", []), T("foo()")


def node(ctx, st, k, depth, widths, kinds, groups, inner=True):
    if depth == 0 or (inner and not ctx.choice("node" + k, [False, True])):
        return leaf(ctx, st, k, kinds, groups)
    n = ctx.choice("w" + k, widths)
    g = ctx.choice("g" + k, groups)
    if g != "-":
        st.groups.append(g)
    name = ctx.choice("f" + k, ["divide", "apdex"]) if n > 1 else "apdex"
    kids = [node(ctx, st, k + str(j), depth - 1, [1, 2], kinds, groups) for j in range(n)]
    obj, gt = GROUPS[g]
    params = [o for o, _ in kids]
    q = Formula(name, params if len(k) % 2 else tuple(params), groupby=None if obj is None else list(obj))
    toks = [t for _, t in kids]
    tok = T("(") + glue(toks, INFIX[name]) + T(")") if name in INFIX else T(name + "(") + commas(toks) + T(")")
    return q, tok + gt


def verdict(ctx, q, ok, want):
    m = mquery(q)
    for how in (q.validate, m.validate, m.serialize, m.print, Request("metrics", "app", m).to_dict):
        try:
            got = how()
        except Exception as e:
            ctx.check(sdk(e), "an inconsistent formula is refused with a foreign error")
            ctx.check(not ok, "a consistent formula is refused")
            ctx.reach("refused")
            continue
        ctx.check(ok, "an inconsistent formula is accepted")
        ctx.reach("accepted")
        if isinstance(got, dict) and "mql" in got:
            ctx.observe("mql", got["mql"])
            ctx.check(ctx.matches(got["mql"], want, '"'), "a formula is not printed with all its parameters in order")


def trees(ctx, depth, widths, kinds, groups):
    """formula trees"""
    st = Tree()
    q, want = node(ctx, st, "0", depth, widths, kinds, groups, inner=False)
    ok = st.bad == 0 and st.series > 0 and len(set(st.groups)) <= 1
    verdict(ctx, q, ok, want)


def chain(ctx, n):
    """a difference far down a chain of formulas, anywhere in it"""
    st = Tree()
    what = ctx.choice("what", ["nothing", "group", "bad", "no series", "two series", "alias", "more columns"])
    at = ctx.choice("at", list(range(n)))
    side = ctx.choice("side", ["left", "right"])
    q, want = ts(groupby=[Column("a")]), HEADTOK() + T("by (a)")
    if what == "no series":
        q, want = 1.5, T("1.5")
    other = {"nothing": (2, T("2")), "group": (ts(groupby=[Column("b")]), []), "bad": (ctx.choice("bad", BADS), []), "no series": (3, T("3")),
             "two series": (ts(groupby=[Column("a")]), HEADTOK() + T("by (a)")), "alias": (ts(groupby=[AliasedExpression(Column("a"), "al")]), []),
             "more columns": (ts(groupby=[Column("a"), Column("b")]), [])}[what]
    for k in range(n):
        o, t = other if k == at else (1, T("1"))
        q = Formula("minus", [q, o] if side == "left" else [o, q])
        want = T("(") + ((want + T("-") + t) if side == "left" else (t + T("-") + want)) + T(")")
    verdict(ctx, q, what in ("nothing", "two series"), want)


def wide(ctx, n):
    """many parameters: one that differs, at any position"""
    what = ctx.choice("what", ["nothing", "group", "bad", "nested"])
    at = ctx.choice("at", list(range(n)))
    v = ctx.int("v")
    params, toks = [], []
    for k in range(n):
        if k == at and what != "nothing":
            params.append({"group": lambda: ts(groupby=[Column("b")]), "bad": lambda: ctx.choice("bad", BADS), "nested": lambda: Formula("foo", [1, Formula("bar", None)])}[what]())
            toks.append([])
        elif k % 2:
            params.append(v)
            toks.append(W(str(v)))
        else:
            params.append(ts(aggregate="g%d" % k, groupby=[Column("a")]))
            toks.append(T("g%d(%s) by (a)" % (k, MRI)))
    name = ctx.choice("name", ["foo", "plus"])
    # a group that differs is fine only where it is the only one
    params.append(ts(groupby=[Column("a")]))
    toks.append(HEADTOK() + T("by (a)"))
    want = T("foo(") + commas(toks) + T(")") if name == "foo" else T("(") + glue(toks, "+") + T(")")
    q = Formula(name, params)
    how = ctx.choice("how", ["top", "inside", "deep"])
    if how != "top":
        q, want = Formula("minus", [1, q]), T("( 1 -") + want + T(")")
    if how == "deep":
        q, want = Formula("apdex", [q, 2]), T("apdex(") + want + T(", 2)")
    verdict(ctx, q, what == "nothing", want)


def own(ctx):
    """the formula's own function, parameters, filters and grouping"""
    v = ctx.str("v", 1)
    name = ctx.choice("name", ["plus", "minus", "multiply", "divide", "apdex", "topK", "negate"])
    ps, pt = ctx.choice("ps", [(None, []), ([5], T("(5)")), ([0.5, "x"], T("(0.5,") + S("x") + T(")"))]) if name == "topK" else (None, [])
    f = ("c", ("col", "k"), "!=", ("s", v))
    fs, ft = ctx.choice("fs", [(None, []), ([build(f)], filters_tok([f])), ([build(f), build(f)], filters_tok([f, f]))])
    g = ctx.choice("g", list(GROUPS))
    same = ctx.choice("same", [None, True, False])
    inner = None if same is None else (g if same else "D" if g != "D" else "A")
    io, it = GROUPS[inner] if inner else (None, [])
    go, gt = GROUPS[g]
    q = Formula(name, [ts(groupby=io)] + ([] if name == "negate" else [1000]), ps, fs, go)
    toks = [HEADTOK() + it] + ([] if name == "negate" else [T("1000")])
    body = T("(") + glue(toks, INFIX[name]) + T(")") if name in INFIX else (W("-") if name == "negate" else T(name)) + pt + T("(") + commas(toks) + T(")")
    verdict(ctx, q, same is not False or g == "-", body + ft + gt)


LISTS = [[("a", None)], [("a", None), ("a", None)], [("a", None), ("b", None)], [("a", "x")], [("a", "x"), ("b", None)], [("a", None), ("b", "x")],
         [("a", None), ("b", None), ("c", None)], [("a", None), ("b", None), ("b", None)], [("A", None)], [("a", "y")], [("tags[a]", None)]]


def lists(ctx, n):
    """groupings are the same only if they list the same columns under the same aliases"""
    picks = [ctx.choice("g%d" % k, LISTS) for k in range(n)]
    own = ctx.choice("own", [None, 0])
    mk = lambda g: [Column(c) if a is None else AliasedExpression(Column(c), a) for c, a in g]
    gt = lambda g: T("by (") + commas([T(c) + (T("AS") + [("bt", a)] if a is not None else []) for c, a in g]) + T(")")
    ps = [ts(groupby=mk(g)) for g in picks]
    q = Formula("plus", ps + [1], groupby=None if own is None else mk(picks[0]))
    want = T("(") + glue([HEADTOK() + gt(g) for g in picks] + [T("1")], "+") + T(")") + ([] if own is None else gt(picks[0]))
    verdict(ctx, q, all([g == picks[0] for g in picks]), want)


def top(ctx):
    """parameters of the outermost formula"""
    ps = ctx.choice("ps", [None, [], (), 5, "abc", {ts().metric}, {"a": 1}, [None], ["a"], [ts(), "a"], ("x", ts()), [1, 2.5], b"ab"])
    verdict(ctx, Formula(ctx.choice("name", ["plus", "foo", "negate"]), ps), False, [])


def cases(tier):
    deep = tier == "thorough"
    both = {"reach": ["refused", "accepted"]}
    out = []
    K = ["ts", "num", "bad", "none", "notseq", "empty"]
    out.append(("trees/1", trees, {"depth": 1, "widths": [1, 2, 3] if deep else [1, 2], "kinds": K, "groups": ["-", "A", "B", "C"]}, dict(both, bounds="depth 1", cost=300)))
    out.append(("trees/1x3", trees, {"depth": 1, "widths": [3], "kinds": ["ts", "num"], "groups": ["-", "A", "C"]}, dict(both, bounds="depth 1, 3 parameters", cost=300)))
    out.append(("trees/2/groups", trees, {"depth": 2, "widths": [1, 2] if deep else [1], "kinds": ["ts", "num"], "groups": ["-", "A", "B"]}, dict(both, bounds="depth 2, 1 (2) parameters", cost=300)))
    out.append(("trees/2/bad", trees, {"depth": 2, "widths": [1], "kinds": ["ts", "bad", "none", "notseq", "empty"], "groups": ["-"]}, dict(both, bounds="depth 2", cost=300)))
    out.append(("trees/2x2", trees, {"depth": 2, "widths": [2], "kinds": ["ts", "num"] if deep else ["ts"], "groups": ["-", "A"] if not deep else ["-", "A", "D"]}, dict({"reach": ["accepted"]}, bounds="depth 2, 2 parameters", cost=500)))
    out.append(("trees/3", trees, {"depth": 3, "widths": [1], "kinds": ["ts"], "groups": ["-", "A"] if not deep else ["-", "A", "B"]}, dict({"reach": ["accepted"]}, bounds="depth 3", cost=500)))
    for n in (1, 4, 8, 15):
        out.append(("chain/%d" % n, chain, {"n": n}, dict(both, bounds="%d levels" % n, cost=20 * n)))
    for n in (2, 5, 10, 24) + ((60,) if deep else ()):
        out.append(("wide/%d" % n, wide, {"n": n}, dict(both, bounds="%d parameters" % n, cost=10 * n)))
    for n in (2, 3) if deep else (2,):
        out.append(("lists/%d" % n, lists, {"n": n}, dict(both, bounds="%d groupings" % n, cost=100 * n)))
    out.append(("own", own, {}, dict(both, bounds="every combination", cost=200)))
    out.append(("top", top, {}, {"reach": ["refused"], "bounds": "a pool"}))
    return out
