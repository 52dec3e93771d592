"""Shared vocabulary of the metrics harnesses."""
from datetime import datetime

from props.lib import OPS, AliasedExpression, Column, Condition, S, T, W, build, commas, joined
from snuba_sdk.formula import Formula
from snuba_sdk.metrics_query import MetricsQuery
from snuba_sdk.timeseries import Metric, MetricsScope, Rollup, Timeseries

MRI = "d:transactions/duration@millisecond"
START, END = datetime(2023, 1, 2, 3, 4, 5), datetime(2023, 1, 9, 3, 4, 5)


def mquery(q, **kw):
    kw.setdefault("start", START)
    kw.setdefault("end", END)
    kw.setdefault("rollup", Rollup(interval=60, granularity=60))
    kw.setdefault("scope", MetricsScope([1], [11], "transactions"))
    kw.setdefault("indexer_mappings", {})
    return MetricsQuery(query=q, **kw)


def mql_of(q, **kw):
    return mquery(q, **kw).serialize()["mql"]


def ts(**kw):
    kw.setdefault("metric", Metric(mri=MRI))
    kw.setdefault("aggregate", "max")
    return Timeseries(**kw)


def mval(s):
    """tokens of a filter value, as (text glued to the key, further tokens)"""
    k = s[0]
    if k == "s":
        return "", S(s[1])
    if k in ("i", "f"):
        return str(s[1]), []
    if k == "n":
        return "NULL", []
    if k == "t":
        return ("TRUE" if s[1] else "FALSE"), []
    if k in ("arr", "tup"):
        parts = []
        for p in s[1]:
            w, t = mval(p)
            parts.append((W(w) if w != "" else []) + t)
        return "", T("[") + commas(parts) + T("]")
    raise AssertionError(k)


def mref(s):
    """tokens of a filter"""
    k = s[0]
    if k == "c":
        neg = "!" if s[2] in ("!=", "NOT IN", "NOT LIKE") else ""
        w, t = mval(s[3])
        return (T(neg) if neg else []) + T(s[1][1] + ":")[:-1] + W(T(s[1][1] + ":")[-1][1] + w) + t
    if k == "bool":
        return T("(") + joined([mref(p) for p in s[2]], s[1]) + T(")")
    return T("(") + joined([mref(p) for p in s[1]], k.upper()) + T(")")


def filters_tok(fs):
    return T("{") + joined([mref(f) for f in fs], "AND") + T("}")
