"""A legacy body is converted into a query with the same meaning.

The harness starts from a description of the query (specification trees of props.lib), encodes
it as a legacy body with its own encoder and compares the text of the converted request with
the reference text of the description."""
from props.c05 import wants
from props.c12 import same, snap
from props.lib import ALLOPS, T, UNARY, Direction, check_text

from snuba_sdk.legacy import json_to_snql

OUTSIDE = ("expressions nested deeper than 3 (thorough 4); lists of more than 4 entries; symbolic column names (their own property); projects and organizations that are not integers "
           "or lists of them (the conversion ignores them); a time range for an entity without a known time column (ignored); tuples for a whole orderby or groupby; "
           "a non-list falsy function argument; the flat argument style of very old clients; OR groups of equalities on one column (rewritten when printed: their own property)")

TIMES = {"discover": "timestamp", "discover_events": "timestamp", "discover_transactions": "finish_ts", "errors": "timestamp", "events": "timestamp",
         "outcomes": "timestamp", "outcomes_raw": "timestamp", "replays": "timestamp", "search_issues": "timestamp", "sessions": "started",
         "spans": "finish_ts", "transactions": "finish_ts"}
AS_FUNCTION = {">": "greater", "<": "less", ">=": "greaterOrEquals", "<=": "lessOrEquals", "=": "equals", "!=": "notEquals", "IN": "in",
               "NOT IN": "notIn", "LIKE": "like", "NOT LIKE": "notLike", "IS NULL": "isNull", "IS NOT NULL": "isNotNull"}

ASCII = [(0, 127)]


# ------------------------------------------------------------------ the legacy encoding
def leg(s):
    """a specification tree as a legacy expression"""
    k = s[0]
    if k == "col":
        return s[1]
    if k == "s":
        return "'" + s[1] + "'"
    if k == "n":
        return None
    if k == "tup":
        return tuple([leg(p) if p[0] != "s" else p[1] for p in s[1]])
    if k == "fn":
        out = [s[1], [leg(p) for p in s[2]] if s[2] is not None else None]
        if s[3] is not None:
            out = out + [s[3]]
        return out
    if k == "raw":
        return s[1]
    return s[1]


def value(s):
    """the right hand side of a legacy condition"""
    if s[0] == "tup":
        return [value(p) for p in s[1]]
    return None if s[0] == "n" else s[1]


def lcond(c):
    return [leg(c[1]), c[2], None if c[2] in UNARY else value(c[3])]


def lconds(cs):
    return [[lcond(i) for i in c[1]] if c[0] == "or" else lcond(c) for c in cs]


# ------------------------------------------------------------------ the comparison
def convert(ctx, body, entity, match, d, dataset=None, app="legacy", tenants=None, flags=None):
    before = snap(body)
    r = json_to_snql(body, entity)
    sent = r.to_dict()
    ctx.check(same(ctx, before, snap(body)), "the legacy body is changed")
    check_text(ctx, sent["query"], wants(match, d), "the converted query is not the legacy query")
    fl = dict(flags or {}, legacy=True)
    for name in ("totals", "consistent", "turbo", "debug", "dry_run", "legacy"):
        if name in fl:
            ctx.check(name in sent and sent[name] is fl[name], "flag %s is not carried over" % name)
        else:
            ctx.check(name not in sent, "flag %s is invented" % name)
    ctx.check(sent["dataset"] == (dataset or entity), "the dataset is not carried over")
    ctx.check(sent["app_id"] == app, "the app id is not carried over")
    ctx.check(sent["tenant_ids"] == (tenants or {"legacy": "legacy"}), "the tenants are not carried over")
    ctx.reach("converted")


def simple(ctx, body, d, entity="events"):
    convert(ctx, body, entity, T("(" + entity + ")"), d)


# ------------------------------------------------------------------ expressions
def expr(ctx, tag, depth, widths=(0, 1, 2), leaves=("col", "str", "num", "tuple", "cond")):
    """a function of the given depth: its specification and its legacy encoding"""
    n = ctx.choice(tag + "n", list(widths))
    alias = ctx.choice(tag + "a", [None, "plain", "ticked"])
    name = "f" + tag
    al = None if alias is None else "al_" + tag
    la = [] if alias is None else ["al_" + tag if alias == "plain" else "`al_" + tag + "`"]
    if n == 0:
        shape = ctx.choice(tag + "s", ["none", "parens", "empty", "text"])
        if shape == "none":
            return ("fn", name, [], al), [name, None] + la
        if shape == "parens":
            return ("fn", name, [], al), [name + "()", ctx.choice(tag + "p", [None, "", []])] + la
        if shape == "empty":
            return ("fn", name, [], al), [name, []] + la
        return ("fn", name + "(x, 3)", None, al), [name + "(x, 3)", None] + la
    specs, args = [], []
    for k in range(n):
        t = tag + str(k)
        kind = ctx.choice(t, list(leaves) + (["deep"] if depth > 1 else []))
        if kind == "deep":
            s, a = expr(ctx, t, depth - 1, widths, leaves)
        elif kind == "cond":
            op = ctx.choice(t + "o", ["=", "is null", "in", ">="])
            v = ctx.int(t + "v")
            u = op.upper()
            rhs = ("tup", [("i", v)]) if u == "IN" else ("i", v)
            s = ("fn", AS_FUNCTION[u], [("col", "c" + t)] if u in UNARY else [("col", "c" + t), rhs], None)
            a = ["c" + t, op, None if u in UNARY else value(rhs)]
        else:
            s = {"col": lambda: ("col", "c" + t), "str": lambda: ("s", ctx.str(t + "v", 1, ASCII)), "num": lambda: ("i", ctx.int(t + "v")),
                 "tuple": lambda: ("tup", [("i", ctx.int(t + "v")), ("s", "x")])}[kind]()
            a = leg(s)
        specs.append(s)
        args.append(a)
    if n == 1 and isinstance(args[0], str) and ctx.choice(tag + "b", ["list", "bare"]) == "bare":
        return ("fn", name, specs, al), [name, args[0]] + la
    if n == 1 and specs[0][0] == "fn" and specs[0][2] is None:
        ctx.reach("string function inside")
    return ("fn", name, specs, al), [name, args] + la


WHERE = ["selected", "selected tuple", "aggregation", "aggregation tuple", "groupby", "groupby tuple", "order", "order desc", "order tuple", "condition", "having"]


def put(ctx, where, s, a):
    """the body and the description with the expression in that position"""
    body, d = {"selected_columns": ["zz"]}, {"select": [("col", "zz")]}
    if where.startswith("selected"):
        body["selected_columns"] = ["yy", tuple(a) if "tuple" in where and isinstance(a, list) else a, "zz"]
        d["select"] = [("col", "yy"), s, ("col", "zz")]
    elif where.startswith("aggregation"):
        body["aggregations"] = [tuple(a) if "tuple" in where else a]
        d["select"] = [s, ("col", "zz")]
    elif where.startswith("groupby"):
        body["groupby"] = ["gg", tuple(a) if "tuple" in where and isinstance(a, list) else a]
        d["groupby"] = [("col", "gg"), s]
    elif where.startswith("order"):
        desc = "desc" in where
        if desc:
            a = ["-" + a[0]] + a[1:] if isinstance(a, list) else "-" + a
        if "tuple" in where and isinstance(a, list):
            a = tuple(a)
        body["orderby"] = ["oo", a]
        d["orderby"] = [(("col", "oo"), Direction.ASC), (s, Direction.DESC if desc else Direction.ASC)]
    else:
        op = ctx.choice("op", ["=", "LIKE", "IS NULL"])
        c = ("c", s, op, ("s", "v"))
        body["conditions" if where == "condition" else "having"] = [[a, op, None if op == "IS NULL" else "v"]]
        d["where" if where == "condition" else "having"] = [c]
    return body, d


def exprs(ctx, where, depth, widths, leaves):
    """a function expression in one position of the body"""
    s, a = expr(ctx, "f", depth, widths, leaves)
    body, d = put(ctx, where, s, a)
    simple(ctx, body, d)


def shallow(ctx, where, depth):
    """a column, or a chain of one-argument functions"""
    s = ("col", ctx.choice("col", ["abc", "tags[a.b]", "a.b:c/d@e", "_x1", "_snuba_min"]))
    a = s[1]
    for k in range(ctx.choice("depth", list(range(depth + 1)))):
        al = ctx.choice("al%d" % k, [None, "x:y.z", "`x:y.z`"])
        s = ("fn", "g%d" % k, [s], None if al is None else "x:y.z")
        a = ["g%d" % k, [a]] + ([] if al is None else [al])
    if not isinstance(a, list) and where.startswith("aggregation"):
        ctx.assume(False)
    body, d = put(ctx, where, s, a)
    simple(ctx, body, d)


# ------------------------------------------------------------------ conditions
def item(ctx, tag, op):
    if op in UNARY:
        return ("c", ("col", "c" + tag), op)
    if op in ("IN", "NOT IN"):
        return ("c", ("col", "c" + tag), op, ("tup", [("i", ctx.int("v" + tag)), ("s", "x" + tag)]))
    return ("c", ("col", "c" + tag), op, ("i", ctx.int("v" + tag)))


def groups(ctx, key, n, m):
    """lists of conditions and alternatives"""
    specs, enc = [], []
    for k in range(n):
        w = ctx.choice("w%d" % k, list(range(m + 1)) + ["plain"])
        if w == "plain":
            c = item(ctx, str(k), ctx.choice("op%d" % k, ["=", "IS NULL"]))
            specs.append(c)
            enc.append(lcond(c))
            continue
        alts = [item(ctx, "%d_%d" % (k, j), ["=", "<", "IS NOT NULL", "IN"][j]) for j in range(w)]
        enc.append([lcond(c) for c in alts])
        if w == 1:
            specs.append(alts[0])
        elif w > 1:
            specs.append(("or", alts))
    simple(ctx, {"selected_columns": ["zz"], key: enc}, {"select": [("col", "zz")], "where" if key == "conditions" else "having": specs})


def operators(ctx, key, nested):
    """every operator, in any case, plain or inside an alternative or a function"""
    op = ctx.choice("op", [t for _, t in ALLOPS])
    case = ctx.choice("case", [str.upper, str.lower, str.title])
    lhs = ctx.choice("lhs", [("col", "c"), ("fn", "ff", [("col", "x"), ("s", "y")], None), ("fn", "ifNull", [("col", "x"), ("s", "")], None)])
    v = ctx.int("v")
    c = ("c", lhs, op, ("tup", [("i", v), ("i", 7)]) if op in ("IN", "NOT IN") else ("i", v))
    enc = lcond(c)
    enc[1] = case(op)
    if op in UNARY:
        enc[2] = ctx.choice("unused", [None, "x", 1])
    spec = [c]
    if nested == "or":
        other = ("c", ("col", "other"), ">", ("i", 1))
        first = ctx.choice("first", [True, False])
        enc, spec = [enc, lcond(other)] if first else [lcond(other), enc], [("or", [c, other] if first else [other, c])]
    elif nested == "function":
        ps = [lhs] if op in UNARY else [lhs, c[3]]
        spec = [("c", ("fn", "or", [("fn", AS_FUNCTION[op], ps, None), ("col", "k")], None), "=", ("i", 1))]
        enc = [["or", [enc, "k"]], "=", 1]
    simple(ctx, {"selected_columns": ["zz"], key: [enc]}, {"select": [("col", "zz")], "where" if key == "conditions" else "having": spec})


def containers(ctx):
    """conditions given as tuples, values as lists, tuples or sets"""
    cond = ctx.choice("cond", [list, tuple])
    n = ctx.choice("n", [0, 1, 2, 3])
    vals = [("i", ctx.int("v%d" % k)) for k in range(n)]
    box = ctx.choice("box", [list, tuple])
    nest = ctx.choice("nest", [False, True])
    raw = box([v[1] for v in vals])
    spec = ("tup", vals)
    if nest:
        raw, spec = box([raw, 3]), ("tup", [spec, ("i", 3)])
    op = ctx.choice("op", ["IN", "NOT IN"])
    body = {"selected_columns": ["zz"], "conditions": [cond(["c", op, raw])]}
    simple(ctx, body, {"select": [("col", "zz")], "where": [("c", ("col", "c"), op, spec)]})


# ------------------------------------------------------------------ the automatic conditions
def auto(ctx, entity):
    """project, organization and time range"""
    body, wh = {"selected_columns": ["zz"]}, []
    org = ctx.choice("org", [None, "one", 1, 2, 3])
    if org == "one":
        body["organization"] = ctx.int("o", 1)
        wh.append(("c", ("col", "org_id"), "=", ("i", body["organization"])))
    elif org is not None:
        vs = [ctx.int("o%d" % k) for k in range(org)]
        body["organization"] = ctx.choice("obox", [list, tuple])(vs)
        wh.append(("c", ("col", "org_id"), "IN", ("tup", [("i", v) for v in vs])))
    col = TIMES.get(entity)
    for key, op in (("from_date", ">="), ("to_date", "<")):
        if ctx.choice(key, [False, True]):
            when = ctx.datetime(key[0])
            body[key] = when.isoformat()
            if col is not None:
                wh.append(("c", ("col", col), op, ("dt", when)))
    proj = ctx.choice("proj", [None, "one", 1, 3])
    if proj == "one":
        body["project"] = ctx.int("p", 1)
        wh.append(("c", ("col", "project_id"), "IN", ("tup", [("i", body["project"])])))
    elif proj is not None:
        vs = [ctx.int("p%d" % k) for k in range(proj)]
        body["project"] = ctx.choice("pbox", [list, tuple])(vs)
        wh.append(("c", ("col", "project_id"), "IN", ("tup", [("i", v) for v in vs])))
    if ctx.choice("own", [False, True]):
        body["conditions"] = [["project_id", "=", 5]]
        wh.append(("c", ("col", "project_id"), "=", ("i", 5)))
    simple(ctx, body, {"select": [("col", "zz")], "where": wh}, entity)


def entities(ctx):
    """the time column of every entity"""
    entity = ctx.choice("entity", list(TIMES) + ["generic_metrics", "Events", "event"])
    lo, hi = ctx.datetime("lo"), ctx.datetime("hi")
    col = TIMES.get(entity)
    wh = [] if col is None else [("c", ("col", col), ">=", ("dt", lo)), ("c", ("col", col), "<", ("dt", hi))]
    simple(ctx, {"selected_columns": ["zz"], "from_date": lo.isoformat(), "to_date": hi.isoformat()}, {"select": [("col", "zz")], "where": wh}, entity)


# ------------------------------------------------------------------ the other keys
def lists(ctx, key, n):
    """lists of plain columns and functions, in their order, duplicates included"""
    count = ctx.choice("count", list(range(n + 1)))
    specs, enc = [], []
    for k in range(count):
        kind = ctx.choice("k%d" % k, ["col", "fn", "same"])
        s = ("col", "c%d" % k) if kind == "col" else ("col", "same") if kind == "same" else ("fn", "count", [("col", "u%d" % k)], "a%d" % k)
        d = None
        a = leg(s)
        if key == "orderby":
            d = Direction.ASC
            if ctx.choice("d%d" % k, [False, True]):
                d = Direction.DESC
                a = "-" + a if not isinstance(a, list) else ["-" + a[0]] + a[1:]
        if key == "aggregations" and not isinstance(a, list):
            s, a = ("fn", "uniq", [s], "b%d" % k), ["uniq", a, "b%d" % k]
        specs.append((s, d) if key == "orderby" else s)
        enc.append(a)
    body, want = {"selected_columns": ["zz"]}, {"select": [("col", "zz")]}
    body[key] = enc
    if key == "orderby":
        want["orderby"] = specs
    elif key == "groupby":
        want["groupby"] = specs
    elif key == "aggregations":
        want["select"] = specs + want["select"]
    else:
        ctx.assume(count > 0)
        want["select"] = specs
    if count == 1 and key in ("groupby", "orderby") and ctx.choice("single", [False, True]):
        ctx.assume(not isinstance(enc[0], list))
        body[key] = enc[0]
    simple(ctx, body, want)


def crowd(ctx, n):
    """very long lists of every kind, and very deep functions"""
    what = ctx.choice("what", ["selected_columns", "aggregations", "groupby", "orderby", "conditions", "having", "alternatives", "values", "arguments", "tuple", "deep", "deep alias", "project"])
    same_ = ctx.choice("same", [False, True])
    body, d = {"selected_columns": ["zz"]}, {"select": [("col", "zz")]}
    cols = [("col", "c" if same_ else "c%d" % (n - k)) if k % 3 else ("fn", "count", [("col", "u" if same_ else "u%d" % k)], None) for k in range(n)]
    conds = [("c", c, ("=", "!=", ">=", "IS NULL")[k % 4], ("i", 1 if same_ else k)) if k % 4 != 3 else ("c", c, "IS NULL") for k, c in enumerate(cols)]
    if what == "selected_columns":
        body[what], d["select"] = [leg(c) for c in cols], cols
    elif what == "aggregations":
        aggs = [("fn", "uniq", [("col", "u%d" % k)], "a" if same_ else "a%d" % k) for k in range(n)]
        body[what], d["select"] = [[a[1], a[2][0][1], a[3]] for a in aggs], aggs + d["select"]
    elif what == "groupby":
        body[what], d["groupby"] = [leg(c) for c in cols], cols
    elif what == "orderby":
        dirs = [Direction.DESC if k % 3 == 1 else Direction.ASC for k in range(n)]
        body[what] = ["-" + leg(c) if dr is Direction.DESC and c[0] == "col" else leg(c) for c, dr in zip(cols, dirs)]
        d["orderby"] = [(c, dr if c[0] == "col" else Direction.ASC) for c, dr in zip(cols, dirs)]
    elif what in ("conditions", "having"):
        body[what], d["where" if what == "conditions" else "having"] = lconds(conds), conds
    elif what == "alternatives":
        g = [("or", conds), ("c", ("col", "y"), "=", ("i", 1)), ("or", conds[::-1])]
        body["conditions"], d["where"] = lconds(g), g
    elif what == "values":
        vs = ("tup", [("i", 5 if same_ else n - k) if k % 2 else ("s", "v" if same_ else "v%d" % k) for k in range(n * 12)])
        g = [("c", ("col", "a"), "NOT IN", vs)]
        body["conditions"], d["where"] = lconds(g), g
    elif what == "project":
        ps = [5 if same_ else n - k for k in range(n * 12)]
        body["project"] = ps
        d["where"] = [("c", ("col", "project_id"), "IN", ("tup", [("i", p) for p in ps]))]
    elif what in ("arguments", "tuple"):
        args = [("col", "c%d" % k) if k % 3 else ("i", k) if k % 2 else ("s", "s%d" % k) for k in range(n)]
        if what == "tuple":
            args = [("col", "c"), ("tup", [a for a in args if a[0] != "col"])]
        f = ("fn", "foo", args, "al")
        body["selected_columns"], d["select"] = [leg(f)], [f]
    else:
        f = ("col", "c")
        for k in range(n if n < 12 else 12):
            name = "not" if same_ else ("ifNull", "toString", "foo")[k % 3]
            f = ("fn", name, [f, ("i", 1)] if k % 4 == 3 and not same_ else [f], "al%d" % k if what == "deep alias" else None)
        body["selected_columns"], d["select"] = [leg(f)], [f]
    simple(ctx, body, d)


KEYS = ["sample", "arrayjoin", "groupby", "conditions", "having", "orderby", "limitby", "limit", "offset", "granularity", "totals", "aggregations", "project",
        "organization", "from_date", "consistent", "turbo", "debug", "dry_run", "dataset", "app_id", "tenant_ids"]


def keys(ctx, free, rest):
    """every presence of some keys, with all or none of the others"""
    on = {k: (ctx.choice("has " + k, [False, True]) if k in free else rest) for k in KEYS}
    if on["totals"]:
        on["groupby"] = True  # totals need a grouping
    body, d, kw, match = {"selected_columns": ["zz"]}, {"select": [("col", "zz")]}, {}, "(events)"
    fl, wh = {}, []
    if on["sample"]:
        body["sample"], match = ctx.choice("sample", [(0.25, "(events SAMPLE 0.250000)"), (10, "(events SAMPLE 10.0)"), (2.0, "(events SAMPLE 2.0)")])
    if on["arrayjoin"]:
        body["arrayjoin"], d["array_join"] = "exc.type", ["exc.type"]
    if on["aggregations"]:
        body["aggregations"], d["select"] = [["count()", "", "cnt"]], [("fn", "count", [], "cnt"), ("col", "zz")]
    if on["groupby"]:
        body["groupby"], d["groupby"] = ["gg"], [("col", "gg")]
    if on["organization"]:
        body["organization"] = 3
        wh.append(("c", ("col", "org_id"), "=", ("i", 3)))
    if on["from_date"]:
        when = ctx.datetime("when")
        body["from_date"] = when.isoformat()
        wh.append(("c", ("col", "timestamp"), ">=", ("dt", when)))
    if on["project"]:
        body["project"] = 4
        wh.append(("c", ("col", "project_id"), "IN", ("tup", [("i", 4)])))
    if on["conditions"]:
        body["conditions"] = [["cc", "=", "x"]]
        wh.append(("c", ("col", "cc"), "=", ("s", "x")))
    if wh:
        d["where"] = wh
    if on["having"]:
        body["having"], d["having"] = [["hh", ">", 2]], [("c", ("col", "hh"), ">", ("i", 2))]
    if on["orderby"]:
        body["orderby"], d["orderby"] = "-oo", [(("col", "oo"), Direction.DESC)]
    if on["limitby"]:
        lb = ctx.int("lb", 1, 10000)
        body["limitby"], d["limitby"] = [lb, "ll"], (lb, ["ll"])
    for key, lo, hi in (("limit", 1, 10000), ("offset", 0, None), ("granularity", 1, None)):
        if on[key]:
            body[key] = d[key] = ctx.int(key, lo, hi)
    if on["totals"]:
        body["totals"] = d["totals"] = ctx.choice("totals", [True, False])
    for key in ("consistent", "turbo", "debug", "dry_run"):
        if on[key]:
            body[key] = ctx.choice(key, [True, False]) if key in free else True
            if body[key]:
                fl[key] = True
    if on["dataset"]:
        body["dataset"] = kw["dataset"] = "discover"
    if on["app_id"]:
        body["app_id"] = kw["app"] = "mine"
    if on["tenant_ids"]:
        body["tenant_ids"] = kw["tenants"] = {"organization_id": ctx.int("tenant"), "referrer": "me"}
    convert(ctx, body, "events", T(match), d, flags=fl, **kw)


def nulls(ctx):
    """keys that are present without a value mean the same as absent ones"""
    body, d = {"selected_columns": ["zz"]}, {"select": [("col", "zz")]}
    for key, vals in (("sample", [None]), ("arrayjoin", [None, ""]), ("groupby", [[], ""]), ("conditions", [[]]), ("having", [[]]), ("orderby", [None, [], ""]),
                      ("limitby", [None, []]), ("limit", [None]), ("offset", [None]), ("granularity", [None]), ("totals", [None]), ("aggregations", [[]]),
                      ("project", [None]), ("organization", [None]), ("from_date", [None, ""]), ("dataset", [None, ""]), ("app_id", [None]), ("tenant_ids", [None, {}])):
        body[key] = vals[ctx.choice("which", [0, 1, 2]) % len(vals)] if key == "sample" else vals[0]
    key = ctx.choice("alt", list(body))
    other = {"arrayjoin": "", "groupby": "", "orderby": [], "limitby": [], "from_date": "", "dataset": "", "tenant_ids": {}}
    if key in other:
        body[key] = other[key]
    simple(ctx, body, d)


def cases(tier):
    deep = tier == "thorough"
    R = ["converted"]
    out = []
    for w in WHERE:
        out.append(("exprs/%s" % w, exprs, {"where": w, "depth": 1, "widths": (0, 1, 2), "leaves": ("col", "str", "num", "tuple", "cond")}, {"reach": R, "bounds": "up to 2 arguments, symbolic values", "cost": 60}))
        out.append(("exprs2/%s" % w, exprs, {"where": w, "depth": 2, "widths": (0, 1) if not deep else (0, 1, 2), "leaves": ("col", "cond")}, {"reach": R, "bounds": "functions in functions", "cost": 100}))
        out.append(("shallow/%s" % w, shallow, {"where": w, "depth": 3 if not deep else 4}, {"reach": R, "bounds": "chains of up to 3 (4) functions", "cost": 60}))
    if deep:
        out.append(("exprs3", exprs, {"where": "selected", "depth": 3, "widths": (0, 1, 2), "leaves": ("col",)}, {"reach": R, "bounds": "depth 3, up to 2 arguments", "cost": 800}))
    for key in ("conditions", "having"):
        out.append(("groups/%s" % key, groups, {"key": key, "n": 2 if not deep else 3, "m": 4 if deep else 3}, {"reach": R, "bounds": "2 (3) entries of up to 3 (4) alternatives", "cost": 100}))
        out.append(("groups/%s/long" % key, groups, {"key": key, "n": 4, "m": 1}, {"reach": R, "bounds": "4 entries", "cost": 100}))
        for n in ("plain", "or", "function"):
            out.append(("operators/%s/%s" % (key, n), operators, {"key": key, "nested": n}, {"reach": R, "bounds": "every operator, three casings", "cost": 60}))
    out.append(("containers", containers, {}, {"reach": R, "bounds": "up to 3 values", "cost": 40}))
    for e in ("events", "sessions", "nowhere"):
        out.append(("auto/%s" % e, auto, {"entity": e}, {"reach": R, "bounds": "up to 3 ids, symbolic ids and instants", "cost": 200}))
    out.append(("entities", entities, {}, {"reach": R, "bounds": "every known entity, symbolic instants", "cost": 20}))
    for key in ("selected_columns", "aggregations", "groupby", "orderby"):
        out.append(("lists/%s" % key, lists, {"key": key, "n": 3 if not deep else 4}, {"reach": R, "bounds": "up to 3 (4) entries", "cost": 100}))
    step = 4 if not deep else 7
    for k in range(0, len(KEYS), step):
        for rest in (False, True):
            free = KEYS[k:k + step]
            out.append(("keys/%s/%s" % (free[0], "all" if rest else "none"), keys, {"free": free, "rest": rest}, {"reach": R, "bounds": "every presence of %s" % ", ".join(free), "cost": 40}))
    if deep:
        for a, b in [(i, j) for i in range(len(KEYS)) for j in range(i)]:
            if a // step != b // step:
                out.append(("pair/%s+%s" % (KEYS[a], KEYS[b]), keys, {"free": [KEYS[a], KEYS[b]], "rest": True}, {"reach": R, "bounds": "every presence", "cost": 8}))
    for n in (12, 30, 120):
        out.append(("crowd/%d" % n, crowd, {"n": n}, {"reach": R, "bounds": "%d entries (%d values), functions nested 12 deep" % (n, 12 * n), "cost": 60}))
    out.append(("nulls", nulls, {}, {"reach": R, "bounds": "a pool of empty values"}))
    return out
