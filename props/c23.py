"""Equality compares all meaningful parts, and equal objects hash equally.

Two objects of one kind are built independently, part by part; one or two parts range over
different values (symbolic texts and numbers, or a list of alternatives), the others agree."""
from datetime import datetime

from props.lib import (
    AliasedExpression, And, BooleanCondition, BooleanOp, Column, Condition, CurriedFunction, Direction, Entity, Function, Granularity, Identifier, Join,
    Lambda, Limit, LimitBy, Offset, Op, Or, OrderBy, Query, Relationship, Storage, Totals,
)
from props.mlib import MRI, Formula, Metric, MetricsScope, Rollup, Timeseries

from snuba_sdk.delete_query import DeleteQuery
from snuba_sdk.expressions import Extrapolate
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.request import Flags, Request
from snuba_sdk.schema import Column as ModelColumn
from snuba_sdk.schema import DataModel

OUTSIDE = ("symbolic names of more than 2 characters; literals that Python itself regards as equal (1, 1.0 and True); a list against a tuple; "
           "chains that mix Function and CurriedFunction (their equality ignores the alias, that of two Functions does not)")

WORD = [(97, 122), (65, 90)]


def name(ctx, tag):
    return ctx.str(tag, 2, WORD)


def text(ctx, tag):
    return ctx.str(tag, 1)


def opt(*thunks):
    """alternatives that are all different"""
    return [("opt", t) for t in thunks]


def const(*values):
    return opt(*[lambda v=v: v for v in values])


def sym(*gens):
    return [("sym", g) for g in gens]


def num(lo=None, hi=None):
    return sym(lambda ctx, tag: ctx.int(tag, lo, hi))


DM = [lambda: DataModel([ModelColumn("a"), ModelColumn("b")], ModelColumn("t")), lambda: DataModel([ModelColumn("a", True), ModelColumn("b")], ModelColumn("t")),
      lambda: DataModel([ModelColumn("a")], ModelColumn("t")), lambda: DataModel([ModelColumn("a"), ModelColumn("b")], ModelColumn("a"))]
ENTS = [lambda: Entity("events", "e"), lambda: Entity("events", "f"), lambda: Entity("spans", "e"), lambda: Entity("events", "e", 0.5)]
COLS = [lambda: Column("a"), lambda: Column("b"), lambda: Column("a", Entity("events", "e")), lambda: Column("a", Entity("spans", "e")), lambda: Column("a[b]")]
FUNS = [lambda: Function("ff", (Column("a"),)), lambda: Function("gg", (Column("a"),)), lambda: Function("ff", ()), lambda: Function("ff", (Column("a"),), "al"),
        lambda: CurriedFunction("ff", (1,), (Column("a"),))]
CONDS = [lambda: Condition(Column("a"), Op.EQ, 1), lambda: Condition(Column("a"), Op.EQ, 2), lambda: Condition(Column("a"), Op.NEQ, 1),
         lambda: Condition(Column("b"), Op.EQ, 1), lambda: Condition(Column("a"), Op.IS_NULL)]


def pairs(of):
    return opt(lambda: (of[0](), of[1]()), lambda: (of[1](), of[0]()), lambda: (of[0](), of[2]()), lambda: (of[0](), of[1](), of[2]()))


def lists(of, *more):
    return opt(lambda: [of[0](), of[1]()], lambda: [of[1](), of[0]()], lambda: [of[0]()], lambda: [], lambda: None, *more)


PARAMS = opt(lambda: (Column("a"), 1), lambda: (Column("a"), 2), lambda: (1, Column("a")), lambda: (Column("a"),), lambda: (), lambda: None, lambda: (Column("a"), "1"),
             lambda: (Function("gg", (1,)), 1), lambda: (Function("gg", (2,)), 1), lambda: (Function("gg", (1,), "al"), 1), lambda: ((1, 2),), lambda: ((2, 1),))
REL = [lambda: Relationship(Entity("events", "e"), "has", Entity("spans", "s")), lambda: Relationship(Entity("events", "e"), "had", Entity("spans", "s")),
       lambda: Relationship(Entity("spans", "s"), "has", Entity("events", "e"))]
TS = [lambda: Timeseries(Metric(mri=MRI), "max"), lambda: Timeseries(Metric(mri=MRI), "min"), lambda: Timeseries(Metric(mri=MRI), "max", groupby=[Column("a")])]

# kind -> (constructor, [(part, alternatives, does it matter)], hashable)
KINDS = {
    "Column": (Column, [("name", sym(name), 1), ("entity", const(None) + opt(*ENTS), 1)], 1),
    "Column subscript": (lambda n, k: Column(n + "[" + k + "]"), [("outer", sym(name), 1), ("key", sym(name), 1)], 1),
    "Entity": (Entity, [("name", sym(name), 1), ("alias", const(None) + sym(name), 1), ("sample", const(None, 0.1, 0.2, 10.0), 1), ("data_model", const(None) + opt(*DM), 1)], 1),
    "Storage": (Storage, [("name", sym(name), 1), ("sample", const(None, 0.1, 0.2, 10.0), 1), ("data_model", const(None) + opt(*DM), 1)], 1),
    "Function": (Function, [("function", sym(name), 1), ("parameters", PARAMS, 1), ("alias", const(None) + sym(name), 1)], 1),
    "Function of a literal": (lambda f, p: Function(f, (p, 1)), [("function", sym(name), 1), ("parameter", sym(text), 1)], 1),
    "CurriedFunction": (CurriedFunction, [("function", sym(name), 1), ("initializers", const((1,), (2,), (), None, (1, 2), ("1",)), 1), ("parameters", PARAMS, 1), ("alias", const(None) + sym(name), 0)], 1),
    "Identifier": (Identifier, [("name", sym(name), 1)], 1),
    "Lambda": (Lambda, [("identifiers", const(("x",), ("y",), ("x", "y"), ("y", "x"), ()), 1), ("transformation", opt(*FUNS[:3]), 1)], 1),
    "AliasedExpression": (AliasedExpression, [("exp", opt(*COLS), 1), ("alias", const(None) + sym(name), 1)], 1),
    "Condition": (Condition, [("lhs", opt(*COLS) + opt(*FUNS[:4]), 1), ("op", const(*[o for o in Op if "NULL" not in o.name]), 1), ("rhs", sym(text), 1)], 1),
    "Condition on a number": (lambda c, v: Condition(c, Op.EQ, v), [("lhs", opt(*COLS), 1), ("rhs", num(), 1)], 1),
    "Condition on a list": (lambda c, v: Condition(c, Op.IN, v), [("lhs", opt(*COLS), 1), ("rhs", const((1, 2), (2, 1), (1,), (), ("1", 2), None), 1)], 1),
    "null test": (Condition, [("lhs", opt(*COLS), 1), ("op", const(Op.IS_NULL, Op.IS_NOT_NULL), 1)], 1),
    "BooleanCondition": (BooleanCondition, [("op", const(*BooleanOp), 1), ("conditions", pairs(CONDS), 1)], 1),
    "And": (And, [("conditions", pairs(CONDS), 1)], 1),
    "Or": (Or, [("conditions", pairs(CONDS), 1)], 1),
    "OrderBy": (OrderBy, [("exp", opt(*COLS) + opt(*FUNS[:4]), 1), ("direction", const(*Direction), 1)], 1),
    "LimitBy": (LimitBy, [("columns", pairs(COLS), 1), ("count", num(1, 10000), 1)], 1),
    "Relationship": (Relationship, [("lhs", opt(*ENTS), 1), ("name", sym(name), 1), ("rhs", opt(*ENTS), 1)], 1),
    "Join": (Join, [("relationships", opt(lambda: (REL[0](),), lambda: (REL[1](),), lambda: (REL[2](),), lambda: (REL[0](), REL[2]()), lambda: (REL[2](), REL[0]())), 1)], 1),
    "Limit": (Limit, [("limit", num(1, 10000), 1)], 1),
    "Offset": (Offset, [("offset", num(0), 1)], 1),
    "Granularity": (Granularity, [("granularity", num(1), 1)], 1),
    "Totals": (Totals, [("totals", const(True, False), 1)], 1),
    "Extrapolate": (Extrapolate, [("extrapolate", const(True, False), 1)], 1),
    "Metric": (Metric, [("public_name", sym(text), 1), ("mri", const(None) + sym(text), 1), ("id", const(None) + num(), 1)], 1),
    "Timeseries": (Timeseries, [("metric", opt(lambda: Metric("x"), lambda: Metric("y"), lambda: Metric(None, "x")), 1), ("aggregate", sym(name), 1),
                                ("aggregate_params", const(None, [1], [2], [], [1, 2]), 1), ("filters", lists(CONDS), 1), ("groupby", lists(COLS), 1)], 0),
    "Rollup": (Rollup, [("interval", const(60, 3600), 1), ("totals", const(None, True, False), 1), ("orderby", const(None), 1), ("granularity", const(None, 10, 60), 1)], 1),
    "MetricsScope": (MetricsScope, [("org_ids", const([1], [2], [1, 2], [2, 1], []), 1), ("project_ids", const([1], [2], [1, 2], []), 1), ("use_case_id", const(None) + sym(text), 1)], 0),
    "Formula": (Formula, [("function_name", sym(name), 1), ("parameters", opt(lambda: [TS[0](), 1], lambda: [TS[0](), 2], lambda: [1, TS[0]()], lambda: [TS[1](), 1], lambda: [TS[2](), 1]), 1),
                          ("aggregate_params", const(None, [1], [2], []), 1), ("filters", lists(CONDS), 1), ("groupby", lists(COLS), 1)], 0),
    "Query": (Query, [("match", opt(lambda: Entity("events"), lambda: Entity("spans"), lambda: Storage("events"), lambda: Join((REL[0](),)), lambda: Query(Entity("events"), [Column("a")])), 1),
                      ("select", lists(COLS), 1), ("groupby", lists(COLS), 1), ("array_join", lists(COLS), 1), ("where", lists(CONDS), 1), ("having", lists(CONDS), 1),
                      ("orderby", opt(lambda: None, lambda: [OrderBy(Column("a"), Direction.ASC)], lambda: [OrderBy(Column("a"), Direction.DESC)]), 1),
                      ("limitby", opt(lambda: None, lambda: LimitBy([Column("a")], 1), lambda: LimitBy([Column("a")], 2)), 1),
                      ("limit", opt(lambda: None, lambda: Limit(1), lambda: Limit(2)), 1), ("offset", opt(lambda: None, lambda: Offset(1), lambda: Offset(2)), 1),
                      ("granularity", opt(lambda: None, lambda: Granularity(1), lambda: Granularity(2)), 1), ("totals", opt(lambda: None, lambda: Totals(True), lambda: Totals(False)), 1)], 0),
    "MetricsQuery": (MetricsQuery, [("query", opt(*TS) + sym(text), 1), ("start", const(None, datetime(2020, 1, 1), datetime(2020, 1, 2)), 1), ("end", const(None, datetime(2020, 1, 1), datetime(2020, 1, 2)), 1),
                                    ("rollup", opt(lambda: None, lambda: Rollup(60), lambda: Rollup(10)), 1), ("scope", opt(lambda: None, lambda: MetricsScope([1], [2]), lambda: MetricsScope([1], [3])), 1),
                                    ("limit", opt(lambda: None, lambda: Limit(1), lambda: Limit(2)), 1), ("offset", opt(lambda: None, lambda: Offset(1), lambda: Offset(2)), 1),
                                    ("extrapolate", opt(lambda: None, lambda: Extrapolate(True), lambda: Extrapolate(False)), 1), ("indexer_mappings", const(None, {}, {"a": 1}, {"a": 2}, {"b": 1}), 1)], 0),
    "DeleteQuery": (DeleteQuery, [("storage_name", sym(name), 1), ("column_conditions", const({"a": [1]}, {"a": [2]}, {"b": [1]}, {"a": [1, 2]}), 1)], 0),
    "Flags": (Flags, [("totals", const(None, True, False), 1), ("consistent", const(None, True, False), 1), ("turbo", const(None, True, False), 1), ("debug", const(None, True, False), 1),
                      ("dry_run", const(None, True, False), 1), ("legacy", const(None, True, False), 1)], 0),
    "Request": (Request, [("dataset", sym(name), 1), ("app_id", sym(name), 1), ("query", opt(lambda: Query(Entity("events"), [Column("a")]), lambda: Query(Entity("events"), [Column("b")])), 1),
                          ("flags", opt(lambda: Flags(), lambda: Flags(debug=True)), 1), ("parent_api", sym(name), 1), ("tenant_ids", const({}, {"a": 1}, {"a": 2}), 1)], 0),
    "schema Column": (ModelColumn, [("name", sym(name), 1), ("required", const(False, True), 1)], 1),
}


def part(ctx, which, tag, options, vary):
    """-> (value, (index, symbolic value or None))"""
    k = ctx.choice(tag + "#" + which, list(range(len(options)))) if vary and len(options) > 1 else 0
    kind, gen = options[k]
    if kind == "opt":
        return gen(), (k, None)
    if not vary:
        return gen(ctx, tag) if which == "a" else None, (k, None)
    v = gen(ctx, tag + which)
    return v, (k, v)


def couple(ctx, kind, varied):
    """two objects of a kind, and whether they agree in everything that matters"""
    make, parts, _ = KINDS[kind]
    xs, ys, agree = [], [], []
    for i, (tag, options, matters) in enumerate(parts):
        x, kx = part(ctx, "a", tag, options, i in varied)
        y, ky = part(ctx, "b", tag, options, i in varied)
        if i not in varied and options[0][0] == "sym":
            y = x
        xs.append(x)
        ys.append(y)
        if i in varied and matters:
            agree.append(kx[0] == ky[0] and (kx[1] is None or kx[1] == ky[1]))
    return make(*xs), make(*ys), ctx.both(*agree)


def laws(ctx, a, b, want, hashable):
    eq = a == b
    ctx.check(ctx.iff(eq, want), "objects compare equal without agreeing in every part, or differ while agreeing")
    ctx.check(ctx.iff(b == a, want), "equality is not symmetric")
    ctx.check(ctx.iff(a != b, ctx.no(want)), "inequality is not the opposite of equality")
    ctx.check(ctx.both(a == a, ctx.no(a != a)), "an object differs from itself")
    if hashable:
        if want:
            ctx.check(hash(a) == hash(b), "equal objects hash differently")
            ctx.reach("equal")
        else:
            ctx.reach("different")
        ctx.check(len({a, b}) == (1 if want else 2), "a set loses an object or keeps it twice")
        ctx.check((b in {a}) == bool(want), "membership in a set")
        d = {a: 1}
        d[b] = 2
        ctx.check(d[a] == (2 if want else 1) and len(d) == (1 if want else 2), "a mapping loses an object or keeps it twice")
    elif want:
        ctx.reach("equal")
    else:
        ctx.reach("different")


def pair(ctx, kind, varied):
    """two objects that may differ in the varied parts"""
    a, b, want = couple(ctx, kind, varied)
    want = bool(want)
    laws(ctx, a, b, want, KINDS[kind][2])


def base(ctx, kind, tag):
    make, parts, _ = KINDS[kind]
    vals = []
    for p, options, _ in parts:
        k, g = options[0]
        vals.append(g() if k == "opt" else {"name": "nm", "text": "t"}.get(getattr(g, "__name__", ""), 7))
    return make(*vals)


def kinds(ctx, kind):
    """objects of different kinds are never equal, nor is an object equal to something else"""
    a = base(ctx, kind, "a")
    other = ctx.choice("other", list(KINDS) + ["nothing", "text", "number", "tuple"])
    b = {"nothing": None, "text": "nm", "number": 7, "tuple": ("nm",)}[other] if other not in KINDS else base(ctx, other, "b")
    same = type(a) is type(b)
    curried = isinstance(a, CurriedFunction) and isinstance(b, CurriedFunction)
    if curried and not same:
        ctx.check((a == b) == (a.function == b.function and a.initializers == b.initializers and a.parameters == b.parameters), "a function and a curried function")
        ctx.check((a == b) == (b == a), "equality is not symmetric")
    elif not same:
        ctx.check(not (a == b) and not (b == a) and a != b, "objects of different kinds are equal")
    ctx.reach("compared")


def curried(ctx):
    """a function against a curried function without initializers, whatever the aliases"""
    name1, name2 = ctx.str("f", 2, WORD), ctx.str("g", 2, WORD)
    p = ctx.choice("p", list(range(len(PARAMS))))
    q = ctx.choice("q", list(range(len(PARAMS))))
    al = ctx.choice("al", [None, "x"])
    bl = ctx.choice("bl", [None, "x", "y"])
    inits = ctx.choice("inits", [None, (1,)])
    a, b = Function(name1, PARAMS[p][1](), al), CurriedFunction(name2, inits, PARAMS[q][1](), bl)
    want = bool(ctx.both(name1 == name2, p == q, inits is None))
    ctx.check((a == b) == want and (b == a) == want, "a function and a curried function of the same parts")
    if want:
        ctx.check(hash(a) == hash(b), "equal functions hash differently")
        ctx.reach("equal")
    else:
        ctx.reach("different")


def triple(ctx, kind, varied):
    """three objects: a collection keeps exactly the distinct ones"""
    make, parts, _ = KINDS[kind]
    objs, keys = [], []
    for w in "abc":
        vals, ks = [], []
        for i, (tag, options, matters) in enumerate(parts):
            if i in varied:
                k = ctx.choice(tag + "#" + w, list(range(min(3, len(options))))) if len(options) > 1 else 0
                kk, g = options[k]
                v = g() if kk == "opt" else g(ctx, tag + w)
                if matters:
                    ks.append((k, v if kk == "sym" else None))
            else:
                kk, g = options[0]
                v = g() if kk == "opt" else {"name": "nm", "text": "t"}.get(getattr(g, "__name__", ""), 7)
            vals.append(v)
        objs.append(make(*vals))
        keys.append(ks)
    distinct = []
    for k in keys:
        if not any(all(x[0] == y[0] and (x[1] is None or x[1] == y[1]) for x, y in zip(k, d)) for d in distinct):
            distinct.append(k)
    ctx.check(len(set(objs)) == len(distinct), "a set loses an object or keeps it twice")
    ctx.check(len(dict.fromkeys(objs)) == len(distinct), "a mapping loses an object or keeps it twice")
    ctx.reach("compared")


# kinds holding a list: built around the list, its k-th element, and an element that differs
def cc(k):
    return Condition(Column("c%d" % k), Op.EQ, k)


LATE = {
    "Function": (lambda l: Function("ff", tuple(l), "al"), lambda k: k if k % 2 else Column("c%d" % k), "odd", 1),
    "Function nested": (lambda l: Function("ff", (Function("gg", tuple(l)), 1)), lambda k: k, "odd", 1),
    "Function list": (lambda l: Function("ff", (1, tuple(l))), lambda k: "s%d" % k, "odd", 1),
    "CurriedFunction": (lambda l: CurriedFunction("ff", (1,), tuple(l)), lambda k: k, "odd", 1),
    "initializers": (lambda l: CurriedFunction("ff", tuple(l), ()), lambda k: k, "odd", 1),
    "Lambda": (lambda l: Lambda(tuple(l), Function("ff", (1,))), lambda k: "i%d" % k, "odd", 1),
    "Condition": (lambda l: Condition(Column("a"), Op.IN, tuple(l)), lambda k: k, "odd", 1),
    "And": (lambda l: And(tuple(l)), cc, Condition(Column("c0"), Op.NEQ, 0), 1),
    "Or": (lambda l: Or(tuple(l)), cc, Condition(Column("c0"), Op.NEQ, 0), 1),
    "LimitBy": (lambda l: LimitBy(tuple(l), 5), lambda k: Column("c%d" % k), Column("odd"), 1),
    "Join": (lambda l: Join(tuple(l)), lambda k: Relationship(Entity("events", "e"), "r%d" % k, Entity("spans", "s")), Relationship(Entity("spans", "s"), "r", Entity("events", "e")), 1),
    "Timeseries params": (lambda l: Timeseries(Metric("m"), "max", l), lambda k: k, "odd", 0),
    "Timeseries filters": (lambda l: Timeseries(Metric("m"), "max", None, l), cc, Condition(Column("c0"), Op.NEQ, 0), 0),
    "Timeseries groupby": (lambda l: Timeseries(Metric("m"), "max", None, None, l), lambda k: Column("c%d" % k), Column("odd"), 0),
    "Formula": (lambda l: Formula("foo", l), lambda k: k, 7777, 0),
    "scope": (lambda l: MetricsScope([1], l), lambda k: k, 7777, 0),
    "select": (lambda l: Query(Entity("events"), l), lambda k: Column("c%d" % k), Column("odd"), 0),
    "where": (lambda l: Query(Entity("events"), [Column("a")], where=l), cc, Condition(Column("c0"), Op.NEQ, 0), 0),
    "orderby": (lambda l: Query(Entity("events"), [Column("a")], orderby=l), lambda k: OrderBy(Column("c%d" % k), Direction.ASC), OrderBy(Column("c0"), Direction.DESC), 0),
    "delete": (lambda l: DeleteQuery("st", {"a": l}), lambda k: k, 7777, 0),
    "tenants": (lambda l: Request("events", "app", Query(Entity("events"), [Column("a")]), tenant_ids={str(v): 1 for v in l}), lambda k: k, 7777, 0),
}


def late(ctx, kind, n):
    """longer lists that differ in one place, in length, or not at all"""
    make, el, odd, hashable = LATE[kind]
    one, two = [el(k) for k in range(n)], [el(k) for k in range(n)]
    how = ctx.choice("how", ["same", "changed", "longer", "shorter", "swapped"])
    at = ctx.choice("at", list(range(n)) if n < 30 else [0, 1, n // 2, n - 1]) if how in ("changed", "swapped") else 0
    if how == "changed":
        two[at] = odd
    elif how == "longer":
        two.append(odd)
    elif how == "shorter":
        two.pop()
    elif how == "swapped":
        j = (at + 1) % n
        two[at], two[j] = two[j], two[at]
    laws(ctx, make(one), make(two), how == "same" or kind == "tenants" and how == "swapped", hashable)


def cases(tier):
    deep = tier == "thorough"
    out = []
    for k, (_, parts, h) in KINDS.items():
        n = len(parts)
        combos = [[i] for i in range(n)]
        if deep or n <= 5:
            combos += [[i, j] for i in range(n) for j in range(i)]
        if n == 3 and (deep or k not in ("Function",)):
            combos.append([0, 1, 2])
        for c in combos:
            single = all(len(parts[i][1]) == 1 and parts[i][1][0][0] == "opt" for i in c)
            none = not any(parts[i][2] for i in c)
            reach = ["equal"] if single or none else ["equal", "different"]
            out.append(("pair/%s/%s" % (k, "+".join(parts[i][0] for i in c)), pair, {"kind": k, "varied": c}, {"reach": reach, "bounds": "2 objects", "cost": 5 * len(c) ** 3}))
        out.append(("kinds/%s" % k, kinds, {"kind": k}, {"reach": ["compared"], "bounds": "every other kind"}))
        if h and (deep or n <= 3):
            for c in [[i] for i in range(n)] + ([[i, j] for i in range(n) for j in range(i)] if deep else []):
                out.append(("triple/%s/%s" % (k, "+".join(parts[i][0] for i in c)), triple, {"kind": k, "varied": c}, {"reach": ["compared"], "bounds": "3 objects", "cost": 30 * len(c) ** 2}))
    for k in LATE:
        for n in (9, 40, 130) if not deep else (3, 9, 20, 40, 130):
            out.append(("late/%s/%d" % (k, n), late, {"kind": k, "n": n}, {"reach": ["equal", "different"], "bounds": "lists of %d" % n, "cost": 5}))
    out.append(("curried", curried, {}, {"reach": ["equal", "different"], "bounds": "every pair of parameter lists", "cost": 100}))
    return out
