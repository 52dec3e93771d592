"""Every constructor and setter accepts the documented kinds of arguments and refuses all others."""
from datetime import date, datetime

from props.c12 import same, snap
from props.c13 import sdk
from props.lib import (
    AliasedExpression, And, BooleanCondition, BooleanOp, Column, Condition, CurriedFunction, Direction, Entity, Function, Granularity, Identifier, Join,
    Lambda, Limit, LimitBy, Offset, Op, Or, OrderBy, Query, Relationship, Storage, Totals,
)
from props.mlib import MRI, Formula, Metric, MetricsScope, Rollup, Timeseries

from snuba_sdk.expressions import Extrapolate
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.schema import Column as ModelColumn
from snuba_sdk.schema import DataModel

OUTSIDE = ("the constructors of Query, MetricsQuery, Formula and DeleteQuery, which postpone validation by design (their match, scope and setters are covered); booleans where a number "
           "is expected (Python booleans are integers); a text given for a whole sequence of parameters (a sequence of its characters); ranges of numbers and characters of names (their own properties); "
           "sequences of more than 4 elements")

EV = lambda: Entity("events")
EVA = lambda: Entity("events", "e")
POOL = {
    "none": lambda c: None, "bool": lambda c: c.choice("flag", [True, False]), "int": lambda c: c.int("num", 1, 9), "float": lambda c: 0.5, "text": lambda c: "abc", "empty text": lambda c: "",
    "bytes": lambda c: b"ab", "date": lambda c: date(2020, 1, 1), "datetime": lambda c: datetime(2020, 1, 1), "list": lambda c: [], "tuple": lambda c: (), "dict": lambda c: {},
    "set": lambda c: {1}, "int list": lambda c: [c.int("num", 1, 9)], "text tuple": lambda c: ("ab",), "Column": lambda c: Column("a"), "AliasedExpression": lambda c: AliasedExpression(Column("a"), "b"),
    "Function": lambda c: Function("ff", [Column("a")]), "CurriedFunction": lambda c: CurriedFunction("ff", [1], [Column("a")]), "Identifier": lambda c: Identifier("x"),
    "Lambda": lambda c: Lambda(["x"], Function("ff", [Identifier("x")])), "Condition": lambda c: Condition(Column("a"), Op.EQ, 1),
    "And": lambda c: And([Condition(Column("a"), Op.EQ, 1), Condition(Column("b"), Op.EQ, 1)]), "Or": lambda c: Or([Condition(Column("a"), Op.EQ, 1), Condition(Column("b"), Op.EQ, 1)]),
    "BooleanCondition": lambda c: BooleanCondition(BooleanOp.OR, [Condition(Column("a"), Op.EQ, 1), Condition(Column("b"), Op.EQ, 1)]),
    "OrderBy": lambda c: OrderBy(Column("a"), Direction.ASC), "LimitBy": lambda c: LimitBy([Column("a")], 1), "Entity": lambda c: EV(), "Entity as": lambda c: EVA(), "Storage": lambda c: Storage("store"),
    "Relationship": lambda c: Relationship(EVA(), "has", Entity("spans", "s")), "Join": lambda c: Join([Relationship(EVA(), "has", Entity("spans", "s"))]),
    "Query": lambda c: Query(EV(), [Column("a")]), "bad Query": lambda c: Query(EV()), "Limit": lambda c: Limit(1), "Offset": lambda c: Offset(1), "Granularity": lambda c: Granularity(1), "Totals": lambda c: Totals(True),
    "Extrapolate": lambda c: Extrapolate(True), "Metric": lambda c: Metric("m"), "Timeseries": lambda c: Timeseries(Metric("m"), "max"), "Rollup": lambda c: Rollup(60),
    "MetricsScope": lambda c: MetricsScope([1], [1]), "Formula": lambda c: Formula("plus", [Timeseries(Metric("m"), "max"), 1]), "MetricsQuery": lambda c: MetricsQuery(), "Op": lambda c: Op.EQ,
    "BooleanOp": lambda c: BooleanOp.AND, "Direction": lambda c: Direction.DESC, "DataModel": lambda c: DataModel([ModelColumn("a")], ModelColumn("a")), "class": lambda c: Column, "instance": lambda c: object(),
}

LITERAL = {"none", "bool", "int", "float", "text", "empty text", "bytes", "date", "datetime"}
EXPR = {"Column", "AliasedExpression", "Function", "CurriedFunction", "Identifier", "Lambda", "Condition", "And", "Or", "BooleanCondition", "OrderBy", "LimitBy", "Entity", "Entity as", "Storage",
        "Relationship", "Join", "Limit", "Offset", "Granularity", "Totals", "Extrapolate"}
SCALAR = LITERAL | {"list", "tuple", "int list", "text tuple"}
FUNCS = {"Function", "CurriedFunction"}
SELECT = {"Column", "AliasedExpression"} | FUNCS
CONDS = {"Condition", "And", "Or", "BooleanCondition"}
PARAM = FUNCS | {"Column", "Identifier", "Lambda"} | SCALAR
SEQ = {"list", "tuple"}
SKIP = {"bool"}  # neither accepted nor refused is required where an integer is expected

C1 = lambda: Condition(Column("a"), Op.EQ, 1)
Q0 = lambda: Query(EV(), [Column("z")], [Column("g")])
T0 = lambda: Timeseries(Metric("m"), "max", [1], [C1()], [Column("g")])
F0 = lambda: Formula("plus", [Timeseries(Metric("m"), "max"), 1])
M0 = lambda: MetricsQuery(T0(), datetime(2020, 1, 1), datetime(2020, 1, 2), Rollup(60), MetricsScope([1], [1]))

# position -> (call, attribute the value is found in, accepted kinds, kinds left open)
ARGS = {
    "Column.name": (lambda v: Column(v), "name", {"text"}, set()),
    "Column.entity": (lambda v: Column("a", v), "entity", {"none", "Entity as"}, set()),
    "Entity.name": (lambda v: Entity(v), "name", {"text"}, set()),
    "Entity.alias": (lambda v: Entity("events", v), "alias", {"none", "text"}, set()),
    "Entity.sample": (lambda v: Entity("events", None, v), "sample", {"none", "float"}, set()),
    "Entity.data_model": (lambda v: Entity("events", None, None, v), "data_model", {"none", "DataModel"}, set()),
    "Storage.name": (lambda v: Storage(v), "name", {"text"}, set()),
    "Storage.sample": (lambda v: Storage("store", v), "sample", {"none", "float"}, set()),
    "Storage.data_model": (lambda v: Storage("store", None, v), "data_model", {"none", "DataModel"}, set()),
    "Function.function": (lambda v: Function(v, []), "function", {"text"}, set()),
    "Function.parameters": (lambda v: Function("ff", v), "parameters", {"none", "list", "tuple", "int list", "text tuple"}, {"text", "empty text", "bytes"}),
    "Function.alias": (lambda v: Function("ff", [], v), "alias", {"none", "text"}, set()),
    "CurriedFunction.function": (lambda v: CurriedFunction(v, [1], []), "function", {"text"}, set()),
    "CurriedFunction.initializers": (lambda v: CurriedFunction("ff", v, []), "initializers", {"none", "list", "tuple", "int list", "text tuple"}, {"text", "empty text", "bytes"}),
    "CurriedFunction.parameters": (lambda v: CurriedFunction("ff", [1], v), "parameters", {"none", "list", "tuple", "int list", "text tuple"}, {"text", "empty text", "bytes"}),
    "CurriedFunction.alias": (lambda v: CurriedFunction("ff", [1], [], v), "alias", {"none", "text"}, set()),
    "Identifier.name": (lambda v: Identifier(v), "name", {"text"}, set()),
    "Lambda.identifiers": (lambda v: Lambda(v, Function("ff", [])), "identifiers", {"list", "tuple", "text tuple"}, set()),
    "Lambda.transformation": (lambda v: Lambda(["x"], v), "transformation", FUNCS, set()),
    "AliasedExpression.exp": (lambda v: AliasedExpression(v, "al"), "exp", {"Column"}, set()),
    "AliasedExpression.alias": (lambda v: AliasedExpression(Column("a"), v), "alias", {"none", "text"}, set()),
    "Condition.lhs": (lambda v: Condition(v, Op.EQ, 1), "lhs", {"Column"} | FUNCS, set()),
    "Condition.op": (lambda v: Condition(Column("a"), v, 1), "op", {"Op"}, set()),
    "Condition.rhs": (lambda v: Condition(Column("a"), Op.EQ, v), "rhs", {"Column"} | FUNCS | SCALAR, set()),
    "Condition.rhs IN": (lambda v: Condition(Function("ff", []), Op.IN, v), "rhs", {"Column"} | FUNCS | SCALAR, set()),
    "Condition.lhs null test": (lambda v: Condition(v, Op.IS_NULL), "lhs", {"Column"} | FUNCS, set()),
    "Condition.rhs null test": (lambda v: Condition(Column("a"), Op.IS_NULL, v), "rhs", {"none"}, set()),
    "Condition.rhs not null test": (lambda v: Condition(Column("a"), Op.IS_NOT_NULL, v), "rhs", {"none"}, set()),
    "BooleanCondition.op": (lambda v: BooleanCondition(v, [C1(), C1()]), "op", {"BooleanOp"}, set()),
    "BooleanCondition.conditions": (lambda v: BooleanCondition(BooleanOp.OR, v), "conditions", set(), set()),
    "And.conditions": (lambda v: And(v), "conditions", set(), set()),
    "Or.conditions": (lambda v: Or(v), "conditions", set(), set()),
    "OrderBy.exp": (lambda v: OrderBy(v, Direction.ASC), "exp", {"Column"} | FUNCS, set()),
    "OrderBy.direction": (lambda v: OrderBy(Column("a"), v), "direction", {"Direction"}, set()),
    "LimitBy.columns": (lambda v: LimitBy(v, 1), "columns", set(), set()),
    "LimitBy.count": (lambda v: LimitBy([Column("a")], v), "count", {"int"}, SKIP),
    "Limit": (lambda v: Limit(v), "limit", {"int"}, SKIP),
    "Offset": (lambda v: Offset(v), "offset", {"int"}, SKIP),
    "Granularity": (lambda v: Granularity(v), "granularity", {"int"}, SKIP),
    "Totals": (lambda v: Totals(v), "totals", {"bool"}, set()),
    "Extrapolate": (lambda v: Extrapolate(v), "extrapolate", {"bool"}, set()),
    "Relationship.lhs": (lambda v: Relationship(v, "has", EVA()), "lhs", {"Entity as"}, set()),
    "Relationship.name": (lambda v: Relationship(EVA(), v, EVA()), "name", {"text"}, set()),
    "Relationship.rhs": (lambda v: Relationship(EVA(), "has", v), "rhs", {"Entity as"}, set()),
    "Join.relationships": (lambda v: Join(v), "relationships", set(), set()),
    "Metric.public_name": (lambda v: Metric(v, MRI), "public_name", {"none", "text", "empty text"}, set()),
    "Metric.mri": (lambda v: Metric("m", v), "mri", {"none", "text", "empty text"}, set()),
    "Metric.id": (lambda v: Metric("m", None, v), "id", {"none", "int"}, SKIP),
    "Metric with neither name": (lambda v: Metric(None, None, v), "id", set(), set()),
    "Timeseries.metric": (lambda v: Timeseries(v, "max"), "metric", {"Metric"}, set()),
    "Timeseries.aggregate": (lambda v: Timeseries(Metric("m"), v), "aggregate", {"text", "empty text"}, set()),
    "Timeseries.aggregate_params": (lambda v: Timeseries(Metric("m"), "max", v), "aggregate_params", {"none", "list", "int list"}, set()),
    "Timeseries.filters": (lambda v: Timeseries(Metric("m"), "max", None, v), "filters", {"none", "list"}, set()),
    "Timeseries.groupby": (lambda v: Timeseries(Metric("m"), "max", None, None, v), "groupby", {"none", "list"}, set()),
    "Rollup.interval": (lambda v: Rollup(v, True), "interval", {"none"}, SKIP),
    "Rollup.totals": (lambda v: Rollup(60, v), "totals", {"none", "bool"}, set()),
    "Rollup.totals alone": (lambda v: Rollup(None, v), "totals", {"bool"}, set()),
    "Rollup.orderby": (lambda v: Rollup(None, True, v), "orderby", {"none", "Direction"}, set()),
    "Rollup.orderby with an interval": (lambda v: Rollup(60, None, v), "orderby", {"none"}, set()),
    "Rollup.granularity": (lambda v: Rollup(60, None, None, v), "granularity", {"none"}, set()),
    "MetricsScope.org_ids": (lambda v: MetricsScope(v, [1]), "org_ids", {"list", "int list"}, set()),
    "MetricsScope.project_ids": (lambda v: MetricsScope([1], v), "project_ids", {"list", "int list"}, set()),
    "MetricsScope.use_case_id": (lambda v: MetricsScope([1], [1], v), "use_case_id", {"none", "text", "empty text"}, set()),
    "Query.match": (lambda v: Query(v, [Column("a")]), "match", {"Entity", "Entity as", "Storage", "Join", "Query"}, set()),
}

# position -> (the object, setter, attribute, accepted kinds, open kinds, what is stored)
SETTERS = {
    "Query.set_match": (Q0, "set_match", "match", {"Entity", "Entity as", "Storage", "Join", "Query"}, set(), None),
    "Query.set_select": (Q0, "set_select", "select", set(), set(), None),
    "Query.set_groupby": (Q0, "set_groupby", "groupby", {"list"}, set(), None),
    "Query.set_array_join": (Q0, "set_array_join", "array_join", set(), set(), None),
    "Query.set_where": (Q0, "set_where", "where", {"list"}, set(), None),
    "Query.set_having": (Q0, "set_having", "having", {"list"}, set(), None),
    "Query.set_orderby": (Q0, "set_orderby", "orderby", {"list"}, set(), None),
    "Query.set_limitby": (Q0, "set_limitby", "limitby", {"LimitBy"}, set(), None),
    "Query.set_limit": (Q0, "set_limit", "limit", {"int"}, SKIP, Limit),
    "Query.set_offset": (Q0, "set_offset", "offset", {"int"}, SKIP, Offset),
    "Query.set_granularity": (Q0, "set_granularity", "granularity", {"int"}, SKIP, Granularity),
    "Query.set_totals": (Q0, "set_totals", "totals", {"bool"}, set(), Totals),
    "Metric.set_mri": (lambda: Metric("m"), "set_mri", "mri", {"text", "empty text"}, set(), None),
    "Metric.set_public_name": (lambda: Metric("m"), "set_public_name", "public_name", {"text", "empty text"}, set(), None),
    "Metric.set_id": (lambda: Metric("m"), "set_id", "id", {"int"}, SKIP, None),
    "Timeseries.set_metric": (T0, "set_metric", "metric", {"Metric"}, set(), None),
    "Timeseries.set_aggregate": (T0, "set_aggregate", "aggregate", {"text", "empty text"}, set(), None),
    "Timeseries.set_filters": (T0, "set_filters", "filters", {"none", "list"}, set(), None),
    "Timeseries.set_groupby": (T0, "set_groupby", "groupby", {"none", "list"}, set(), None),
    "Formula.set_parameters": (F0, "set_parameters", "parameters", {"none", "list", "int list"}, set(), None),
    "Formula.set_filters": (F0, "set_filters", "filters", {"none", "list"}, set(), None),
    "Formula.set_groupby": (F0, "set_groupby", "groupby", {"none", "list"}, set(), None),
    "MetricsScope.set_use_case_id": (lambda: MetricsScope([1], [1]), "set_use_case_id", "use_case_id", {"text", "empty text"}, set(), None),
    "MetricsQuery.set_query": (M0, "set_query", "query", {"Timeseries", "Formula", "text", "empty text"}, set(), None),
    "MetricsQuery.set_start": (M0, "set_start", "start", {"datetime"}, set(), None),
    "MetricsQuery.set_end": (M0, "set_end", "end", {"datetime"}, set(), None),
    "MetricsQuery.set_rollup": (M0, "set_rollup", "rollup", {"Rollup"}, set(), None),
    "MetricsQuery.set_scope": (M0, "set_scope", "scope", {"MetricsScope"}, set(), None),
    "MetricsQuery.set_limit": (M0, "set_limit", "limit", {"int"}, SKIP, Limit),
    "MetricsQuery.set_offset": (M0, "set_offset", "offset", {"int"}, SKIP, Offset),
    "MetricsQuery.set_extrapolate": (M0, "set_extrapolate", "extrapolate", {"bool"}, set(), Extrapolate),
}

ALL = EXPR | SCALAR
# position -> (call, attribute, containers, a good element, accepted element kinds, least number, open kinds)
ELEMENTS = {
    "Function.parameters": (lambda v: Function("ff", v), "parameters", (list, tuple), lambda: Column("z"), PARAM, 0, set()),
    "Function.parameters within a tuple": (lambda v: Function("ff", [v]), None, (list, tuple), lambda: 1, ALL, 0, set()),
    "Function.parameters deep": (lambda v: Function("ff", [(1, [v])]), None, (list, tuple), lambda: "z", ALL, 0, set()),
    "CurriedFunction.initializers": (lambda v: CurriedFunction("ff", v, []), "initializers", (list, tuple), lambda: 2, LITERAL | {"Column"}, 0, set()),
    "CurriedFunction.parameters": (lambda v: CurriedFunction("ff", [1], v), "parameters", (list, tuple), lambda: Column("z"), PARAM, 0, set()),
    "Lambda.identifiers": (lambda v: Lambda(v, Function("ff", [])), "identifiers", (list, tuple), lambda: "z", {"text"}, 0, set()),
    "Condition.rhs": (lambda v: Condition(Column("a"), Op.IN, v), "rhs", (list, tuple), lambda: 1, ALL, 0, set()),
    "BooleanCondition.conditions": (lambda v: BooleanCondition(BooleanOp.OR, v), "conditions", (list, tuple), C1, CONDS, 2, set()),
    "And.conditions": (And, "conditions", (list, tuple), C1, CONDS, 2, set()),
    "Or.conditions": (Or, "conditions", (list, tuple), C1, CONDS, 2, set()),
    "LimitBy.columns": (lambda v: LimitBy(v, 5), "columns", (list, tuple), lambda: Column("z"), {"Column"}, 1, set()),
    "Join.relationships": (Join, "relationships", (list, tuple), lambda: Relationship(EVA(), "z", Entity("spans", "s")), {"Relationship"}, 1, set()),
    "Timeseries.aggregate_params": (lambda v: Timeseries(Metric("m"), "max", v), "aggregate_params", (list,), lambda: 1, LITERAL, 0, set()),
    "Timeseries.filters": (lambda v: Timeseries(Metric("m"), "max", None, v), "filters", (list,), C1, CONDS, 0, set()),
    "Timeseries.groupby": (lambda v: Timeseries(Metric("m"), "max", None, None, v), "groupby", (list,), lambda: Column("z"), {"Column", "AliasedExpression"}, 0, set()),
    "Timeseries.set_aggregate params": (lambda v: T0().set_aggregate("min", v), "aggregate_params", (list,), lambda: 1, LITERAL, 0, set()),
    "Timeseries.set_filters": (lambda v: T0().set_filters(v), "filters", (list,), C1, CONDS, 0, set()),
    "Timeseries.set_groupby": (lambda v: T0().set_groupby(v), "groupby", (list,), lambda: Column("z"), {"Column", "AliasedExpression"}, 0, set()),
    "MetricsScope.org_ids": (lambda v: MetricsScope(v, [1]), "org_ids", (list,), lambda: 1, {"int"}, 0, SKIP),
    "MetricsScope.project_ids": (lambda v: MetricsScope([1], v), "project_ids", (list,), lambda: 1, {"int"}, 0, SKIP),
    "Formula.set_parameters": (lambda v: F0().set_parameters(v), "parameters", (list,), lambda: 1, {"int", "float", "Timeseries", "Formula"}, 0, SKIP),
    "Formula.set_filters": (lambda v: F0().set_filters(v), "filters", (list,), C1, CONDS, 0, set()),
    "Formula.set_groupby": (lambda v: F0().set_groupby(v), "groupby", (list,), lambda: Column("z"), {"Column", "AliasedExpression"}, 0, set()),
    "Query.set_select": (lambda v: Q0().set_select(v), "select", (list,), lambda: Column("z"), SELECT, 1, set()),
    "Query.set_groupby": (lambda v: Q0().set_groupby(v), "groupby", (list,), lambda: Column("z"), SELECT, 0, set()),
    "Query.set_array_join": (lambda v: Q0().set_array_join(v), "array_join", (list,), lambda: Column("z"), {"Column"}, 1, set()),
    "Query.set_where": (lambda v: Q0().set_where(v), "where", (list,), C1, CONDS, 0, set()),
    "Query.set_having": (lambda v: Q0().set_having(v), "having", (list,), C1, CONDS, 0, set()),
    "Query.set_orderby": (lambda v: Q0().set_orderby(v), "orderby", (list,), lambda: OrderBy(Column("z"), Direction.ASC), {"OrderBy"}, 0, set()),
}


def attempt(ctx, call, arg):
    """the result of the call, or None when it is refused with an error of the SDK"""
    before = snap(arg)
    try:
        r = call(arg)
    except Exception as e:
        ctx.check(sdk(e), "refused with a foreign error %s" % type(e).__name__)
        r = None
    ctx.check(same(ctx, before, snap(arg)), "the argument is changed")
    return r


def verdict(ctx, got, want):
    ctx.observe("accepted", got is not None)
    if want:
        ctx.check(got is not None, "a valid argument is refused")
        ctx.reach("accepted")
    else:
        ctx.check(got is None, "an invalid argument is accepted")
        ctx.reach("refused")


def args(ctx, where):
    """one argument of any kind"""
    call, attr, ok, open_, *_ = ARGS[where]
    kind = ctx.choice("kind", [k for k in POOL if k not in open_])
    v = POOL[kind](ctx)
    got = attempt(ctx, call, v)
    if where == "Rollup.interval" and kind == "int":
        verdict(ctx, got, False)  # below the least interval
        return
    verdict(ctx, got, kind in ok)
    if got is not None:
        ctx.check(same(ctx, snap(getattr(got, attr)), snap(v)), "the argument is not kept")


def setters(ctx, where):
    """one setter argument of any kind: the receiver never changes"""
    make, name, attr, ok, open_, wrap = SETTERS[where]
    kind = ctx.choice("kind", [k for k in POOL if k not in open_])
    obj, v = make(), POOL[kind](ctx)
    before = snap(obj)
    got = attempt(ctx, getattr(obj, name), v)
    verdict(ctx, got, kind in ok)
    ctx.check(same(ctx, before, snap(obj)), "the receiver is changed")
    if got is not None:
        ctx.check(got is not obj, "the setter returns the receiver")
        ctx.check(same(ctx, snap(getattr(got, attr)), snap(v if wrap is None else wrap(v))), "the argument is not kept")


def elements(ctx, where, n):
    """sequences with one element of any kind at any position"""
    call, attr, boxes, good, ok, least, open_ = ELEMENTS[where]
    box = ctx.choice("box", [list, tuple])
    if n == 0:
        v, fine = box([]), least == 0
    else:
        at = ctx.choice("at", list(range(n)))
        kind = ctx.choice("kind", [k for k in POOL if k not in open_])
        v = box([POOL[kind](ctx) if k == at else good() for k in range(n)])
        fine = n >= least and kind in ok
        if where == "Join.relationships" and kind == "Relationship":
            fine = True
    want = fine and box in boxes
    got = attempt(ctx, call, v)
    verdict(ctx, got, want)
    if got is not None and attr is not None:
        ctx.check(same(ctx, snap(getattr(got, attr)), snap(v)), "the sequence is not kept")


def longer(ctx, where, n):
    """longer sequences: an element of any kind near the end"""
    call, attr, boxes, good, ok, least, open_ = ELEMENTS[where]
    box = ctx.choice("box", list(boxes))
    at = ctx.choice("at", [n - 1, n - 2, n // 2])
    kind = ctx.choice("kind", ["int", "text", "none", "Column", "Condition", "list", "Relationship", "instance", "dict"])
    if kind in open_:
        return
    v = box([POOL[kind](ctx) if k == at else good() for k in range(n)])
    got = attempt(ctx, call, v)
    verdict(ctx, got, kind in ok)
    if got is not None and attr is not None:
        ctx.check(same(ctx, snap(getattr(got, attr)), snap(v)), "the sequence is not kept")


def aliases(ctx, n):
    """joins: one alias for two entities is refused, anything else accepted"""
    rels, seen, clash = [], {}, False
    for k in range(n):
        ends = []
        for side in "lr":
            e = ctx.choice("e%s%d" % (side, k), ["events", "spans"])
            a = ctx.choice("a%s%d" % (side, k), ["x", "y"] if n > 2 else ["x", "y", "z"])
            if a in seen and seen[a] != e:
                clash = True
            seen.setdefault(a, e)
            ends.append(Entity(e, a))
        rels.append(Relationship(ends[0], "has", ends[1]))
    got = attempt(ctx, Join, rels)
    verdict(ctx, got, not clash)


def noalias(ctx):
    """relationships and columns need entities with an alias"""
    a, b = ctx.choice("a", [None, "x"]), ctx.choice("b", [None, "y"])
    verdict(ctx, attempt(ctx, lambda p: Relationship(p[0], "has", p[1]), [Entity("events", a), Entity("spans", b)]), a is not None and b is not None)
    c = attempt(ctx, lambda e: Column("col", e), Entity("events", a))
    ctx.check((c is not None) == (a is not None), "a column of an entity without an alias")


def combos(ctx):
    """what a rollup needs: an interval or totals, ordering without an interval, interval at least the granularity"""
    interval = ctx.choice("interval", [None, 10, 60, 3600])
    totals = ctx.choice("totals", [None, True, False])
    order = ctx.choice("order", [None, Direction.ASC, Direction.DESC])
    gran = ctx.choice("gran", [None, 10, 60, 3600, 86400, 30, 0])
    ok = (interval is not None or totals is not None) and not (interval is not None and order is not None) and gran not in (30, 0) and (interval is None or gran is None or interval >= gran)
    verdict(ctx, attempt(ctx, lambda p: Rollup(*p), [interval, totals, order, gran]), ok)


def inner(ctx):
    """a subquery must be valid when the outer query is built"""
    sel = ctx.choice("sel", [None, [], ["c"], ["c", "d"]])
    tot = ctx.choice("tot", [None, True, False])
    grp = ctx.choice("grp", [None, ["c"]])
    q = Query(EV(), None if sel is None else [Column(x) for x in sel], None if grp is None else [Column(x) for x in grp], totals=None if tot is None else Totals(tot))
    ok = bool(sel) and (not tot or grp is not None)
    verdict(ctx, attempt(ctx, lambda m: Query(m, [Column("c")]), q), ok)
    got = attempt(ctx, lambda m: Q0().set_match(m), q)
    ctx.check((got is not None) == ok, "set_match and the constructor disagree")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for k, (_, _, ok, _) in ARGS.items():
        out.append(("args/" + k, args, {"where": k}, {"reach": ["refused"] + (["accepted"] if ok else []), "bounds": "%d kinds of values" % len(POOL), "cost": 5}))
    for k, v in SETTERS.items():
        out.append(("setters/" + k, setters, {"where": k}, {"reach": ["refused"] + (["accepted"] if v[3] else []), "bounds": "%d kinds of values" % len(POOL), "cost": 6}))
    for k, v in ELEMENTS.items():
        for n in (0, 1, 2, 3) + ((4,) if deep else ()):
            reach = [] if n == 0 else ["refused"] + (["accepted"] if n >= v[5] else [])
            out.append(("elements/%s/%d" % (k, n), elements, {"where": k, "n": n}, {"reach": reach, "bounds": "%d elements, any kind at any position" % n, "cost": 10 * n}))
        for n in (5, 9, 60) + ((16, 33, 200) if deep else ()):
            out.append(("longer/%s/%d" % (k, n), longer, {"where": k, "n": n}, {"reach": ["refused"], "bounds": "%d elements" % n, "cost": 5}))
    for n in (1, 2) + ((3,) if deep else ()):
        out.append(("aliases/%d" % n, aliases, {"n": n}, {"reach": ["refused", "accepted"], "bounds": "%d relationships" % n, "cost": 6 ** n}))
    out.append(("noalias", noalias, {}, {"reach": ["refused", "accepted"], "bounds": "every combination"}))
    out.append(("combos", combos, {}, {"reach": ["refused", "accepted"], "bounds": "every combination", "cost": 20}))
    out.append(("inner", inner, {}, {"reach": ["refused", "accepted"], "bounds": "every combination"}))
    return out
