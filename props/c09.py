"""Numeric limits are enforced at their exact bounds."""
import datetime

from props.lib import Column, Direction, Entity, Function, LimitBy, OrderBy, Query, Storage, query
from props.lib import Granularity, Limit, Offset, Totals
from props.mlib import Rollup, mquery, ts

from snuba_sdk.expressions import Extrapolate
from snuba_sdk.metrics_query import MetricsQuery

OUTSIDE = "booleans where an integer is expected (Python treats them as 0 and 1); NaN and fractional sample rates beyond a pool"

Q0 = query()


def m0():
    return MetricsQuery()


# what -> (constructor from the number, how to read it back, lower bound, upper bound)
NUMBERS = {
    "Limit": (lambda v: Limit(v), lambda o: o.limit, 1, 10000),
    "query.set_limit": (lambda v: Q0.set_limit(v), lambda o: o.limit.limit, 1, 10000),
    "metrics.set_limit": (lambda v: m0().set_limit(v), lambda o: o.limit.limit, 1, 10000),
    "Offset": (lambda v: Offset(v), lambda o: o.offset, 0, None),
    "query.set_offset": (lambda v: Q0.set_offset(v), lambda o: o.offset.offset, 0, None),
    "metrics.set_offset": (lambda v: m0().set_offset(v), lambda o: o.offset.offset, 0, None),
    "Granularity": (lambda v: Granularity(v), lambda o: o.granularity, 1, None),
    "query.set_granularity": (lambda v: Q0.set_granularity(v), lambda o: o.granularity.granularity, 1, None),
    "LimitBy": (lambda v: LimitBy([Column("a")], v), lambda o: o.count, 1, 10000),
    "LimitBy2": (lambda v: LimitBy([Column("a"), Column("b"), Column("a")], v), lambda o: o.count, 1, 10000),
    "Rollup.interval": (lambda v: Rollup(interval=v), lambda o: o.interval, 10, None),
}
OTHER = [
    None, 1.0, 5.0, 10000.0, 0.0, float("inf"), "5", "", b"5", [5], [], (5,), {5: 5}, Column("a"), Limit(5), Entity("events"),
    datetime.datetime(2021, 1, 1), Direction.ASC, 5 + 0j, {5}, datetime.timedelta(seconds=5),
]


def sdk(e):
    return type(e).__module__.startswith("snuba_sdk")


def number(ctx, what):
    """every integer is accepted exactly within the bounds, and kept"""
    make, get, lo, hi = NUMBERS[what]
    v = ctx.int("v")
    want = v >= lo if hi is None else ctx.both(v >= lo, v <= hi)
    try:
        o = make(v)
    except Exception as e:
        ctx.check(sdk(e), "a number out of bounds is refused with a foreign error")
        ctx.check(ctx.no(want), "a number within the bounds is refused")
        ctx.reach("refused")
        return
    ctx.check(want, "a number out of bounds is accepted")
    ctx.check(get(o) == v, "the number is changed")
    ctx.observe("kept", get(o))
    ctx.reach("accepted")


def other(ctx, what):
    """values of other types are refused"""
    make, get, lo, hi = NUMBERS[what]
    v = ctx.choice("v", OTHER)
    if what == "Rollup.interval" and v is None:
        return
    try:
        make(v)
    except Exception as e:
        ctx.check(sdk(e), "a value that is no integer is refused with a foreign error")
        ctx.reach("refused")
        return
    ctx.fail("a value that is no integer is accepted")


def floating(ctx, what):
    """no float is an integer"""
    make, get, lo, hi = NUMBERS[what]
    v = ctx.float("v")
    try:
        make(v)
    except Exception as e:
        ctx.check(sdk(e), "a float is refused with a foreign error")
        ctx.reach("refused")
        return
    ctx.fail("a float is accepted as an integer")


def chain(ctx):
    """a refused number is refused wherever it is set, also after other settings"""
    kind = ctx.choice("kind", ["limit", "offset", "granularity"])
    pre = ctx.choice("pre", [0, 1, 2])
    v = ctx.int("v")
    q = Q0
    if pre == 1:
        q = q.set_limit(5).set_offset(5).set_granularity(5)
    if pre == 2:
        q = q.set_groupby([Column("a")]).set_totals(True)
    lo, hi = {"limit": (1, 10000), "offset": (0, None), "granularity": (1, None)}[kind]
    want = v >= lo if hi is None else ctx.both(v >= lo, v <= hi)
    try:
        q = getattr(q, "set_" + kind)(v)
    except Exception as e:
        ctx.check(sdk(e), "refused with a foreign error")
        ctx.check(ctx.no(want), "a number within the bounds is refused")
        ctx.reach("refused")
        return
    q.validate()
    ctx.check(want, "a number out of bounds is accepted")
    ctx.reach("accepted")


def sample(ctx, what):
    """a sample rate is a float above zero"""
    kind = ctx.choice("kind", ["float", "pool", "int", "other"])
    if kind == "float":
        v = ctx.float("v")
        want = v > 0
    elif kind == "pool":
        v = ctx.choice("p", [0.5, 0.1, 1e-6, -0.5, -1e-9, 1.5, 0.0, -0.0, 5e-324, 1e-12, -5e-324, 1e308, float("inf"), float("-inf")])
        want = v > 0
    elif kind == "int":
        v = ctx.int("v")
        want = False
    else:
        v = ctx.choice("p", ["0.5", b"0.5", [0.5], (0.5,), True, False, Column("a"), {}])
        want = False
    make = {
        "entity": lambda: Entity("events", None, v), "aliased": lambda: Entity("events", "e", v),
        "storage": lambda: Storage("events", v), "keyword": lambda: Entity("events", sample=v),
    }[what]
    try:
        o = make()
    except Exception as e:
        ctx.check(sdk(e), "a sample rate is refused with a foreign error")
        ctx.check(ctx.no(want), "a valid sample rate is refused")
        ctx.reach("refused")
        return
    ctx.check(want, "an invalid sample rate is accepted")
    ctx.check(o.sample == v, "the sample rate is changed")
    ctx.reach("accepted")


BOOLS = {
    "Totals": (lambda v: Totals(v), lambda o: o.totals), "query.set_totals": (lambda v: Q0.set_totals(v), lambda o: o.totals.totals),
    "Extrapolate": (lambda v: Extrapolate(v), lambda o: o.extrapolate),
    "metrics.set_extrapolate": (lambda v: m0().set_extrapolate(v), lambda o: o.extrapolate.extrapolate),
}


def boolean(ctx, what):
    """only booleans are accepted"""
    make, get = BOOLS[what]
    kind = ctx.choice("kind", ["bool", "int", "other"])
    v = ctx.bool("v") if kind == "bool" else ctx.int("v") if kind == "int" else ctx.choice("p", OTHER)
    try:
        o = make(v)
    except Exception as e:
        ctx.check(sdk(e), "refused with a foreign error")
        ctx.check(kind != "bool", "a boolean is refused")
        ctx.reach("refused")
        return
    ctx.check(kind == "bool", "a value that is no boolean is accepted")
    ctx.check(ctx.iff(get(o), v), "the boolean is changed")
    ctx.reach("accepted")


def totals(ctx):
    """totals need a group-by"""
    t = ctx.bool("t")
    g = ctx.choice("g", [None, [], [Column("a")], [Function("foo", [])], [Column("a"), Column("b")]])
    how = ctx.choice("how", ["init", "totals last", "groupby last"])
    if how == "init":
        q = query(groupby=g, totals=Totals(t))
    elif how == "totals last":
        q = (query() if g is None else query().set_groupby(g)).set_totals(t)
    else:
        q = query().set_totals(t)
        q = q if g is None else q.set_groupby(g)
    bad = ctx.both(t, not g)
    errs = []
    for use in (q.validate, q.serialize, q.print, q.__str__):
        try:
            use()
        except Exception as e:
            ctx.check(sdk(e), "refused with a foreign error")
            errs.append(e)
    ctx.check(len(errs) in (0, 4), "the ways to use a query disagree")
    ctx.check(ctx.iff(len(errs) > 0, bad), "totals without a group-by are accepted, or valid totals refused")
    ctx.reach("refused" if errs else "accepted")


def cases(tier):
    out = []
    for w in NUMBERS:
        out.append(("number/" + w, number, {"what": w}, {"reach": ["accepted", "refused"], "bounds": "every integer"}))
        out.append(("float/" + w, floating, {"what": w}, {"reach": ["refused"], "bounds": "every integral float"}))
        out.append(("other/" + w, other, {"what": w}, {"reach": ["refused"], "bounds": "a pool of other types"}))
    out.append(("chain", chain, {}, {"reach": ["accepted", "refused"], "bounds": "every integer"}))
    for w in ("entity", "aliased", "storage", "keyword"):
        out.append(("sample/" + w, sample, {"what": w}, {"reach": ["accepted", "refused"], "bounds": "integral floats, integers, pools"}))
    for w in BOOLS:
        out.append(("boolean/" + w, boolean, {"what": w}, {"reach": ["accepted", "refused"], "bounds": "booleans, integers, a pool"}))
    out.append(("totals", totals, {}, {"reach": ["accepted", "refused"], "bounds": "all combinations"}))
    return out
