"""MQL filters are parsed with their boolean meaning."""
from props.c12 import same
from props.c16 import CONTROL, SPECIAL, flat
from props.lib import Condition, Column, Op
from props.mlib import MRI, Formula, Timeseries, mquery
from sx.uni import SPACE

from snuba_sdk.mql.mql import parse_mql

OUTSIDE = "more or deeper nested conditions than stated; quoted texts with a backslash (see the finding of C16); variables"

CONNECT = [(" AND ", "and"), (" and ", "and"), (",", "and"), (", ", "and"), (" , ", "and"), (" ", "and"), ("\t\n", "and"), (" OR ", "or"), (" or ", "or"), ("  or\n", "or")]
FEW = [(" AND ", "and"), (",", "and"), (" ", "and"), (" OR ", "or")]
TWO = [(", ", "and"), (" or ", "or")]


# ------------------------------------------------------------------ texts and their meaning
def chr_ok(ctx, c):
    """a character that may stand in an unquoted value (and is not read differently by different regex libraries)"""
    return ctx.both(ctx.no(ctx.member(c, SPACE)), ctx.no(ctx.member(c, CONTROL)), *[ctx.no(c == s) for s in SPECIAL])


def word(ctx, name, n):
    """any unquoted value of n characters"""
    v = ctx.str(name, n)
    for c in v:
        ctx.assume(chr_ok(ctx, c))
    return v


def quoted(ctx, name, n):
    """any quoted value: (text, value)"""
    v = ctx.str(name, n)
    ctx.assume(ctx.no("\\" in v))
    return '"' + v.replace('"', '\\"') + '"', v


def wildcard(ctx, v):
    return len(v) > 1 and ctx.both(v[-1] == "*", *[chr_ok(ctx, c) for c in v[:-1]])


def decided(ctx, v):
    if len(v) > 1:
        for c in v[:-1]:
            ctx.assume(ctx.no(ctx.both(v[-1] == "*", ctx.member(c, CONTROL))))


def cond(key, neg, kind, value):
    op = {"eq": ("EQ", "NEQ"), "in": ("IN", "NOT_IN"), "like": ("LIKE", "NOT_LIKE")}[kind][1 if neg else 0]
    return ("c", (key, op, value, kind == "in"))


def value(ctx, k, kinds):
    """-> (text, kind of comparison, value)"""
    what = ctx.choice("val" + k, kinds)
    if what == "word":
        return "v" + k, "eq", "v" + k
    if what == "sym":
        v = word(ctx, "w" + k, 1)
        return v, "eq", v
    if what == "quoted":
        return '"v %s"' % k, "eq", "v " + k
    if what == "symq":
        t, v = quoted(ctx, "q" + k, 1)
        return t, "eq", v
    if what == "wild":
        return "v%s*" % k, "like", "v%s*" % k
    if what == "wildq":
        return '"v%s*"' % k, "like", "v%s*" % k
    if what == "list":
        return '[v%s, "x y"]' % k, "in", ["v" + k, "x y"]
    if what == "one":
        return '[v%s]' % k, "in", ["v" + k]
    if what == "star":
        return '"a *%s"' % k, "eq", "a *" + k
    raise AssertionError(what)


def condition(ctx, k, kinds):
    neg = ctx.choice("neg" + k, [False, True])
    t, kind, v = value(ctx, k, kinds)
    key = "k" + k
    return ("!" if neg else "") + key + ":" + t, cond(key, neg, kind, v)


def combine(items, conns):
    """OR of ANDs"""
    ors, cur = [], [items[0]]
    for c, it in zip(conns, items[1:]):
        if c == "or":
            ors.append(cur)
            cur = [it]
        else:
            cur.append(it)
    ors.append(cur)
    return join("OR", [join("AND", a) for a in ors])


def join(op, parts):
    out = []
    for p in parts:
        out.extend(p[1] if p[0] == op else [p])
    return out[0] if len(out) == 1 else (op, out)


def expression(ctx, k, n, kinds, conns, depth):
    texts, means = [], []
    for j in range(n):
        if depth and ctx.choice("group%s%d" % (k, j), [False, True]):
            t, m = expression(ctx, k + str(j), ctx.choice("n%s%d" % (k, j), [1, 2]), kinds, conns, depth - 1)
            sp = ctx.choice("sp%s%d" % (k, j), ["", " "])
            texts.append("(" + sp + t + sp + ")")
            means.append(m)
        else:
            t, m = condition(ctx, k + str(j), kinds)
            texts.append(t)
            means.append(m)
    cs = [ctx.choice("conn%s%d" % (k, j), conns) for j in range(n - 1)]
    text = texts[0]
    for (c, _), t in zip(cs, texts[1:]):
        text = text + c + t
    return text, combine(means, [w for _, w in cs])


def meaning(q):
    return flat("AND", q.filters or [])


PLACES = {
    "outer": lambda e: "max(foo){" + e + "}",
    "inner": lambda e: "max(foo{" + e + "})",
    "mri": lambda e: "max(" + MRI + "{" + e + "}) by g",
    "curried": lambda e: "quantiles(0.5)(`" + MRI + "`{ " + e + " })",
    "bare": lambda e: "foo{" + e + "}",
    "formula": lambda e: "(max(foo) + 1){" + e + "} by (g, h)",
    "function": lambda e: "apdex(max(foo), 5){" + e + "}",
}


def check(ctx, text, want, key=None):
    ctx.observe("text", text)
    q = parse_mql(text)
    ctx.check(same(ctx, meaning(q), want), "a filter expression is parsed with another meaning")
    ctx.reach("parsed")
    return q


def exprs(ctx, place, n, kinds, conns, depth):
    """expressions of n conditions"""
    e, want = expression(ctx, "", n, kinds, conns, depth)
    check(ctx, PLACES[place](e), want)


def operands(ctx, n):
    """the same inside the operands of arithmetic and functions"""
    a, wa = expression(ctx, "a", n, ["word", "list"], TWO, 0)
    b, wb = expression(ctx, "b", n, ["quoted", "wild"], TWO, 0)
    form = ctx.choice("form", ["max(foo){%s} / min(bar{%s})", "fun(max(foo{%s}), min(bar){%s})", "(max(foo){%s}) * -(min(bar){%s})"])
    q = parse_mql(form % (a, b))
    left, right = q.parameters
    if isinstance(right, Formula):
        right = right.parameters[0]
    ctx.check(same(ctx, meaning(left), wa), "a filter of the first operand is parsed with another meaning")
    ctx.check(same(ctx, meaning(right), wb), "a filter of the second operand is parsed with another meaning")
    ctx.check(not q.filters, "a filter is invented")
    ctx.reach("parsed")


def values(ctx, n):
    """any value, unquoted or quoted"""
    neg = ctx.choice("neg", [False, True])
    how = ctx.choice("how", ["word", "quoted", "wild", "wildq"])
    if how == "word":
        if n == 0:
            return ctx.reach("parsed")
        v = word(ctx, "v", n)
        t, kind, val = v, "eq", v
    elif how == "quoted":
        t, v = quoted(ctx, "v", n)
        ctx.assume(ctx.no(wildcard(ctx, v)))
        decided(ctx, v)
        kind, val = "eq", v
    else:
        if n == 0:
            return ctx.reach("parsed")
        v = word(ctx, "v", n)
        if how == "wildq":
            ctx.assume(ctx.no("\\" in v))
        t = v + "*" if how == "wild" else '"' + v + '*"'
        kind, val = "like", v + "*"
    after = ctx.choice("after", ["", " and z:y", ",z:y"])
    e = ("!" if neg else "") + "k.e" + ctx.choice("colon", [":", " : "]) + t + after
    want = [cond("k.e", neg, kind, val)] + ([cond("z", False, "eq", "y")] if after else [])
    check(ctx, PLACES[ctx.choice("place", ["outer", "inner"])](e), join("AND", want))


def lists(ctx, n):
    """lists of any values"""
    parts, vals = [], []
    for j in range(ctx.choice("n", [1, 2, 3])):
        if ctx.choice("q%d" % j, [False, True]):
            t, v = quoted(ctx, "v%d" % j, n)
        else:
            t = v = word(ctx, "v%d" % j, max(1, n))
        parts.append(t)
        vals.append(v)
    neg = ctx.choice("neg", [False, True])
    sep = ctx.choice("sep", [",", ", ", " ,"])
    e = ("!" if neg else "") + "key:[" + sep.join(parts) + "]"
    check(ctx, PLACES[ctx.choice("place", ["outer", "inner"])](e), cond("key", neg, "in", vals))


KEYCH = ((46, 46), (48, 57), (65, 90), (95, 95), (97, 122))


def many(ctx, sizes):
    """long filters: one connective that differs anywhere, and long lists"""
    n = ctx.choice("n", sizes)
    base, odd = ctx.choice("conns", [((" AND ", "and"), (" or ", "or")), ((",", "and"), (" OR ", "or")), ((" or ", "or"), (" ", "and")), ((" OR ", "or"), (" and ", "and"))])
    at = ctx.choice("at", list(range(-1, max(sizes) - 1)))
    ctx.assume(at < n - 1)
    same_ = ctx.choice("same", [False, True])
    texts, means = [], []
    for k in range(n):
        key, v = ("a", "v") if same_ else ("k%d" % k, "v%d" % k)
        neg = k in (1, n - 1)
        if k % 4 == 2:
            texts.append(("!" if neg else "") + key + ":[" + ", ".join(["x%d" % j for j in range(k + 3)] + ['"x0"']) + "]")
            means.append(cond(key, neg, "in", ["x%d" % j for j in range(k + 3)] + ["x0"]))
        else:
            texts.append(("!" if neg else "") + key + ":" + v)
            means.append(cond(key, neg, "eq", v))
    cs = [odd if k == at else base for k in range(n - 1)]
    e = texts[0]
    for (c, _), t in zip(cs, texts[1:]):
        e = e + c + t
    want = combine(means, [w for _, w in cs])
    if ctx.choice("paren", [False, True]):
        e = "(" + e + ") and zz:y"
        want = join("AND", [want, cond("zz", False, "eq", "y")])
    check(ctx, PLACES[ctx.choice("place", ["outer", "inner", "formula"])](e), want)


def crowd(ctx, n):
    """very long filters, lists and groupings, and very deep groups"""
    form = ctx.choice("form", ["flat", "one odd", "list", "groups", "deep", "grouping"])
    sep, w = ctx.choice("conn", [(" AND ", "and"), (", ", "and"), (" ", "and"), (" OR ", "or")])
    same_ = ctx.choice("same", [False, True])
    item = lambda k: (("!" if k % 4 == 1 else "") + ("a:v" if same_ else "k%d:v%d" % (k, k)), cond("a" if same_ else "k%d" % k, k % 4 == 1, "eq", "v" if same_ else "v%d" % k))
    items = [item(k) for k in range(n)]
    if form == "grouping":
        gs = ["g%d" % (n - k) for k in range(n)]
        q = parse_mql("max(foo)" + (" by (" if same_ else "{a:b} by ( ") + ", ".join(gs) + ")")
        ctx.check([g.name for g in q.groupby] == gs, "a long grouping is not parsed completely")
        return ctx.reach("parsed")
    if form == "list":
        vs = ["v" if same_ else "v%d" % k if k % 2 else "v %d" % k for k in range(n)]
        e, want = "key:[" + ", ".join(('"%s"' % v) if " " in v else v for v in vs) + "]" + sep + "z:y", combine([cond("key", False, "in", vs), cond("z", False, "eq", "y")], [w])
    elif form == "deep":
        e, want = items[0]
        for k in range(n if n < 9 else 9):
            s, v = ((sep, w), (" or ", "or"))[k % 2]
            t, m = item(k + 1)
            e, want = (e + s + t, combine([want, m], [v])) if k % 3 else (t + s + e, combine([m, want], [v]))
            e = "(" + e + ")"
    else:
        if form == "groups":
            items = [("(%s or z%d:y)" % (t, k), combine([m, cond("z%d" % k, False, "eq", "y")], ["or"])) for k, (t, m) in enumerate(items[:max(4, n // 3)])]
        ws = [w] * (len(items) - 1)
        seps = [sep] * (len(items) - 1)
        if form == "one odd":
            at = ctx.choice("at", [0, len(ws) // 2, len(ws) - 1])
            ws[at], seps[at] = ("or", " or ") if w == "and" else ("and", ",")
        e = items[0][0]
        for s, (t, _) in zip(seps, items[1:]):
            e = e + s + t
        want = combine([m for _, m in items], ws)
    check(ctx, PLACES[ctx.choice("place", ["outer", "inner"])](e), want)


def repeated(ctx, form):
    """the same key filtered at several places: every filter applies"""
    vals = ["", "{a:v}", "{a:w}", "{!a:v}", "{a:[v, w]}", "{a:v or a:w}"]
    means = {"": [], "{a:v}": [cond("a", False, "eq", "v")], "{a:w}": [cond("a", False, "eq", "w")], "{!a:v}": [cond("a", True, "eq", "v")],
             "{a:[v, w]}": [cond("a", False, "in", ["v", "w"])], "{a:v or a:w}": [("OR", [cond("a", False, "eq", "v"), cond("a", False, "eq", "w")])]}
    f, g = ctx.choice("f", vals), ctx.choice("g", vals)
    by = ctx.choice("by", ["", " by a", " by (a, b)"])
    text = {"ts": "max(foo%s)%s%s", "mri": "max(`" + MRI + "`%s)%s%s", "curried": "quantiles(0.5)(foo%s)%s%s", "operand": "fun(max(foo%s)%s%s, 5)", "paren": "(1 + max(foo%s)%s%s) / 2"}[form] % (f, g, by)
    ctx.observe("text", text)
    q = parse_mql(text)
    if form == "operand":
        q = q.parameters[0]
    if form == "paren":
        q = q.parameters[0].parameters[1]
    got = flat("AND", q.filters or [])
    got = got[1] if got[0] == "AND" else [got]
    want = means[f] + means[g]
    # repeating a filter says nothing new
    ctx.check(all(any(same(ctx, x, y) for y in got) for x in want) and all(any(same(ctx, x, y) for y in want) for x in got), "filters on one key written at several places do not all apply")
    ctx.check([c.name for c in (q.groupby or [])] == ([] if not by else ["a"] if by == " by a" else ["a", "b"]), "the grouping is changed")
    ctx.reach("parsed")


def keys(ctx, n):
    """keys that look like connectives"""
    pre = ctx.choice("pre", ["and", "AND", "or", "OR", "by", "k", "not"])
    key = pre + ctx.str("k", n, KEYCH)
    first = ctx.choice("first", [False, True])
    neg = ctx.choice("neg", ["", "!"])
    c, word_ = ctx.choice("conn", [(" AND ", "and"), (",", "and"), (" ", "and"), (" or ", "or")])
    if first:
        e = neg + key + ":x" + c + "zz:y"
        means = [cond(key, neg == "!", "eq", "x"), cond("zz", False, "eq", "y")]
    else:
        e = "zz:y" + c + neg + key + ":x"
        means = [cond("zz", False, "eq", "y"), cond(key, neg == "!", "eq", "x")]
    check(ctx, PLACES["outer"](e), combine(means, [word_]))


def tight(ctx):
    """connectives next to parentheses, without white space"""
    a, b = ctx.choice("a", ["(k0:v)", '(!k0:"v")', '(k0:v,k2:w)']), ctx.choice("b", ["(k1:u)", "!k1:u", "(k1:u or k3:t)"])
    c, w = ctx.choice("c", [("and", "and"), ("AND", "and"), ("or", "or"), ("OR", "or"), (",", "and"), ("", "and")])
    if not b.startswith(("(", "!")):
        c = c + " "
    m0 = {"(k0:v)": [cond("k0", False, "eq", "v")], '(!k0:"v")': [cond("k0", True, "eq", "v")], "(k0:v,k2:w)": [cond("k0", False, "eq", "v"), cond("k2", False, "eq", "w")]}[a]
    m1 = {"(k1:u)": [cond("k1", False, "eq", "u")], "!k1:u": [cond("k1", True, "eq", "u")], "(k1:u or k3:t)": [cond("k1", False, "eq", "u"), cond("k3", False, "eq", "t")]}[b]
    check(ctx, PLACES["outer"](a + c + b), combine([join("AND", m0), join("OR", m1)], [w]))


GROUPS = [("", []), (" by x%d", ["x%d"]), (" by (x%d)", ["x%d"]), (" by (x%d, y%d)", ["x%d", "y%d"]), ("\nby ( y%d ,x%d )", ["y%d", "x%d"])]


def layers(ctx, form):
    """filters and groupings written at several places all apply"""
    pieces, filters, groups = [], [], []
    nplaces = {"ts": 2, "paren": 3, "fn": 2}[form]
    byplaces = {"ts": 3, "paren": 2, "fn": 3}[form]
    for j in range(nplaces):
        f = ctx.choice("f%d" % j, ["", "{a%d:v}" % j, "{!a%d:v or b%d:[x, y]}" % (j, j)] if j != 2 else ["", "{a2:v}"])
        pieces.append(f)
        if f:
            a = cond("a%d" % j, f[1] == "!", "eq", "v")
            filters.append((j, a if "or" not in f else ("OR", [a, cond("b%d" % j, False, "in", ["x", "y"])])))
    bys = []
    for j in range(byplaces):
        t, names = ctx.choice("g%d" % j, GROUPS if j != 1 else GROUPS[:2])
        bys.append(t.replace("%d", str(j)))
        groups.append((j, [x % j for x in names]))
    if form == "ts":
        text = "max(foo%s%s)%s%s%s" % (pieces[0], bys[0], bys[1], pieces[1], bys[2])
        got = parse_mql(text)
        fl, gr = [m for _, m in filters], [g for _, x in groups for g in x]
        ctx.observe("text", text)
        same_layer(ctx, got, fl, gr)
    elif form == "paren":
        text = "(max(foo{z:y}%s)%s / 2)%s%s" % (bys[0], pieces[0], pieces[1], bys[1])
        ctx.observe("text", text)
        got = parse_mql(text)
        same_layer(ctx, got, [m for j, m in filters if j == 1], [g for j, x in groups for g in x if j == 1])
        same_layer(ctx, got.parameters[0], [cond("z", False, "eq", "y")] + [m for j, m in filters if j == 0], [g for j, x in groups for g in x if j == 0])
    else:
        text = "fun(max(foo)%s%s, 5)%s%s%s" % (pieces[0], bys[0], bys[1], pieces[1], bys[2])
        ctx.observe("text", text)
        got = parse_mql(text)
        same_layer(ctx, got, [m for j, m in filters if j == 1], [g for j, x in groups for g in x if j in (1, 2)])
        same_layer(ctx, got.parameters[0], [m for j, m in filters if j == 0], [g for j, x in groups for g in x if j == 0])
    ctx.reach("parsed")


def same_layer(ctx, q, filters, groups):
    have = q.filters or []
    want = join("AND", filters) if filters else ("AND", [])
    got = flat("AND", have)
    members = lambda m: m[1] if m[0] == "AND" else [m]
    a, b = members(got), members(want)
    ctx.check(len(a) == len(b) and all(any(same(ctx, x, y) for y in a) for x in b), "filters written at several places do not all apply")
    ctx.check(sorted(g.name for g in (q.groupby or [])) == sorted(groups), "groupings written at several places do not all apply")


# ------------------------------------------------------------------ what is not a filter expression
TOKENS = ["k:v", '!j:"w"', "AND", "or", ",", "(", ")"]


def recognise(toks):
    """the meaning of a token sequence, or None"""
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def factor():
        t = peek()
        if t == "(":
            pos[0] += 1
            e = expr()
            if e is None or peek() != ")":
                return None
            pos[0] += 1
            return e
        if t in ("k:v", '!j:"w"'):
            pos[0] += 1
            return cond("k", False, "eq", "v") if t == "k:v" else cond("j", True, "eq", "w")
        return None

    def term():
        f = factor()
        if f is None:
            return None
        out = [f]
        while True:
            save = pos[0]
            if peek() in ("AND", ","):
                pos[0] += 1
            f = factor()
            if f is None:
                pos[0] = save
                return join("AND", out)
            out.append(f)

    def expr():
        t = term()
        if t is None:
            return None
        out = [t]
        while True:
            save = pos[0]
            if peek() != "or":
                return join("OR", out)
            pos[0] += 1
            t = term()
            if t is None:
                pos[0] = save
                return join("OR", out)
            out.append(t)

    e = expr()
    return e if pos[0] == len(toks) else None


def language(ctx, n, first, place):
    """every sequence of tokens is parsed with its meaning or refused"""
    toks = [first] + [ctx.choice("t%d" % j, TOKENS) for j in range(n - 1)]
    text = PLACES[place](" ".join(toks))
    want = recognise(toks)
    try:
        got = parse_mql(text)
    except Exception:
        ctx.check(want is None, "a valid filter expression is refused")
        ctx.reach("refused")
        return
    ctx.check(want is not None, "an invalid filter expression is accepted")
    ctx.check(same(ctx, meaning(got), want), "a filter expression is parsed with another meaning")
    ctx.reach("parsed")


INVALID = [
    "", " ", "{a:b}", "max(foo", "max foo)", "max(foo){a:b", "max(foo)a:b}", "max(foo){a:}", "max(foo){:b}", "max(foo){a b}", "max(foo){a:b c}", "max(foo){!(a:b)}", "max(foo){!!a:b}",
    "max(foo){a:b,}", "max(foo){,a:b}", "max(foo){a:b,,c:d}", "max(foo){a:b AND}", "max(foo){a:b or}", "max(foo){or a:b}", "max(foo){a:b or or c:d}", "max(foo){a:b AND or c:d}", "max(foo){(a:b}",
    "max(foo){a:b)}", "max(foo){()}", "max(foo){a:[]}", "max(foo){a:[b}", "max(foo){a:b]}", "max(foo){a:[b,]}", "max(foo){a:[b c]}", "max(foo){a:[b*]}", "max(foo){a:*}", "max(foo){a:*b}", "max(foo){a:b*c}",
    'max(foo){a:"b}', 'max(foo){a:b"}', 'max(foo){a:"b"c}', 'max(foo){a:"b""c"}', "max(foo){a-b:c}", "max(foo){a:b} by", "max(foo) by ()", "max(foo) by (a b)", "max(foo) by (a,)", "max(foo) by (a", "max(foo) by a b",
    "max(foo){a:b}{c:d}", "max(foo){$a:b}", "max(foo){a:$b c}", "$foo", "$foo{a:b}", "max($foo)", "max()", "max(foo,)", "max(foo) +", "+ max(foo)", "max(foo) max(bar)", "max(foo) ** 2", "max(foo) % 2",
    "max(foo))", "((max(foo))", "max(foo){a:b}c", "max(foo){a:b} and c:d", "MAX(FOO)", "max(foo){a=b}", "max(foo) where a:b", "max(foo){a:b} BY c", "apdex(foo, 500)", "max(foo) - ", "--max(foo)", "1 +", "(", ")", '"', "`foo",
    "max(`foo)", "max(foo`)", "max(foo){not a:b}", "max(foo){a:b And c:d}", "max(foo){a:b oR c:d}", "sum(foo)()", "sum(0.5)()", "quantiles(0.5,)(foo)", "d:a/b", "max(d:a@b)",
]


def invalid(ctx):
    """text that is not valid MQL is refused by the parser and by every use of a query made of it"""
    t = ctx.choice("t", INVALID)
    try:
        parse_mql(t)
        ctx.fail("text that is not valid MQL is accepted")
    except Exception as e:
        if type(e).__name__ == "CheckFailed":
            raise
    m = mquery(t)
    for how in (m.validate, m.serialize):
        try:
            how()
        except Exception as e:
            ctx.check(type(e).__module__.startswith("snuba_sdk"), "invalid MQL is refused with a foreign error")
            ctx.reach("refused")
            continue
        ctx.fail("a query of invalid MQL is accepted")


def cases(tier):
    deep = tier == "thorough"
    R = {"reach": ["parsed"]}
    out = []
    every = ["word", "sym", "quoted", "symq", "wild", "wildq", "list", "one", "star"]
    for p in PLACES:
        out.append(("exprs/%s/1" % p, exprs, {"place": p, "n": 1, "kinds": every, "conns": CONNECT, "depth": 0}, dict(R, bounds="1 condition of every kind", cost=20)))
        out.append(("exprs/%s/group" % p, exprs, {"place": p, "n": 1, "kinds": every if deep else ["symq", "list"], "conns": CONNECT, "depth": 1}, dict(R, bounds="a group", cost=100)))
        out.append(("exprs/%s/2" % p, exprs, {"place": p, "n": 2, "kinds": ["word", "list"] if not deep else every, "conns": CONNECT, "depth": 0}, dict(R, bounds="2 conditions, all connectives", cost=50)))
    out.append(("exprs/values2", exprs, {"place": "outer", "n": 2, "kinds": every, "conns": FEW, "depth": 0}, dict(R, bounds="2 conditions of every kind", cost=300)))
    for n in (3, 4) if deep else (3,):
        out.append(("exprs/flat/%d" % n, exprs, {"place": "outer", "n": n, "kinds": ["word"], "conns": FEW, "depth": 0}, dict(R, bounds="%d conditions" % n, cost=8 ** n)))
    out.append(("exprs/flat4", exprs, {"place": "inner", "n": 4, "kinds": ["word"], "conns": TWO, "depth": 0}, dict(R, bounds="4 conditions", cost=300)))
    out.append(("exprs/groups2", exprs, {"place": "outer", "n": 2, "kinds": ["word"], "conns": FEW, "depth": 1}, dict(R, bounds="2 conditions or groups", cost=700)))
    out.append(("exprs/groups3", exprs, {"place": "inner", "n": 3, "kinds": ["word"], "conns": TWO, "depth": 1} if deep else {"place": "inner", "n": 2, "kinds": ["quoted"], "conns": TWO, "depth": 1}, dict(R, bounds="2 (3) conditions or groups", cost=900)))
    if deep:
        out.append(("exprs/nested", exprs, {"place": "outer", "n": 2, "kinds": ["word"], "conns": TWO, "depth": 2}, dict(R, bounds="nested groups", cost=5000)))
    out.append(("operands/1", operands, {"n": 1}, dict(R, bounds="one condition each", cost=30)))
    out.append(("operands/2", operands, {"n": 2}, dict(R, bounds="two conditions each", cost=900)))
    for n in (0, 1, 2, 3) if deep else (0, 1, 2):
        out.append(("values/%d" % n, values, {"n": n}, dict(R, bounds="values of %d characters" % n, cost=6 ** n)))
    for n in (0, 1) if not deep else (0, 1, 2):
        out.append(("lists/%d" % n, lists, {"n": n}, dict(R, bounds="lists of up to 3 values of %d characters" % n, cost=100)))
        out.append(("keys/%d" % n, keys, {"n": n}, dict(R, bounds="prefix and %d characters" % n, cost=20)))
    out.append(("many", many, {"sizes": [5, 7] if not deep else [4, 5, 6, 7, 9]}, dict(R, bounds="up to 7 (9) conditions", cost=500)))
    for n in (12, 30, 100):
        out.append(("crowd/%d" % n, crowd, {"n": n}, dict(R, bounds="%d conditions, values or groupings; 9 levels of groups" % n, cost=300)))
    for f in ("ts", "mri", "curried", "operand", "paren"):
        out.append(("repeated/" + f, repeated, {"form": f}, dict(R, bounds="two filters on one key", cost=20)))
    out.append(("tight", tight, {}, dict(R, bounds="a pool", cost=10)))
    for f in ("ts", "paren", "fn"):
        out.append(("layers/" + f, layers, {"form": f}, dict(R, bounds="filters and groupings at every place", cost=200)))
    for t in TOKENS:
        for n in (2, 3, 4, 5) if deep else (3, 4):
            out.append(("language/%s/%d" % (t, n), language, {"n": n, "first": t, "place": "outer"}, {"reach": ["refused"], "bounds": "%d tokens" % n, "cost": 5 ** n}))
    out.append(("invalid", invalid, {}, {"reach": ["refused"], "bounds": "a pool of texts", "cost": 5}))
    return out
