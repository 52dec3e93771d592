"""MQL arithmetic is parsed with the usual precedence and associativity."""
from props.c12 import same
from props.mlib import Formula, Timeseries, mquery

from snuba_sdk.mql.mql import parse_mql

OUTSIDE = ("more operands or deeper parentheses than stated; parentheses around a single number and white space after a unary minus "
           "(MQL refuses both); numbers of more than 9 digits")

NAME = {"+": "plus", "-": "minus", "*": "multiply", "/": "divide"}
PREC = {"+": 1, "-": 1, "*": 2, "/": 2}
OPERATORS = ["+", "-", "*", "/"]


# ------------------------------------------------------------------ the specification: precedence climbing
def group(operands, ops):
    """the tree of operands joined by ops: rightmost weakest operator first"""
    if not ops:
        return operands[0]
    low = min(PREC[o] for o in ops)
    at = max(k for k, o in enumerate(ops) if PREC[o] == low)
    return ["f", NAME[ops[at]], [group(operands[:at + 1], ops[:at]), group(operands[at + 1:], ops[at + 1:])]]


def tree(q):
    if isinstance(q, Timeseries):
        return ["ts", q.aggregate, q.metric.public_name, q.metric.mri]
    if isinstance(q, Formula):
        return ["f", q.function_name, [tree(p) for p in q.parameters]]
    return ["n", q]


MRI = "d:transactions/duration@millisecond"


def operand(ctx, k, kinds):
    """-> text, tree"""
    kind = ctx.choice("kind" + k, kinds)
    if kind == "ts":
        return "agg%s(foo)" % k, ["ts", "agg" + k, "foo", None]
    if kind == "mri":
        return "agg%s(%s)" % (k, MRI), ["ts", "agg" + k, None, MRI]
    if kind == "bt":
        return "agg%s(`%s`)" % (k, MRI), ["ts", "agg" + k, None, MRI]
    if kind == "params":
        return "agg%s(0.5)(foo.bar)" % k, ["ts", "agg" + k, "foo.bar", None]
    if kind == "bare":
        return "m_" + "abcdefgh"[int(k[-1])], ["ts", "AGGREGATE_PLACEHOLDER", "m_" + "abcdefgh"[int(k[-1])], None]
    if kind == "int":
        i = ctx.int("i" + k, 0, 9)
        return str(i), ["n", i]
    if kind == "digits":
        return "12.5", ["n", 12.5]
    if kind == "zero":
        return "0", ["n", 0]
    if kind == "-ts":
        return "-agg%s(foo)" % k, ["f", "negate", [["ts", "agg" + k, "foo", None]]]
    if kind == "-int":
        i = ctx.int("i" + k, 0, 9)
        return "-" + str(i), ["n", -i]
    if kind == "fn":
        return "apdex(agg%s(foo), 500)" % k, ["f", "apdex", [["ts", "agg" + k, "foo", None], ["n", 500]]]
    if kind == "fnexpr":
        return "fun(agg%s(foo) - 1 - 2, 3 / 4 / 5)" % k, ["f", "fun", [
            group([["ts", "agg" + k, "foo", None], ["n", 1], ["n", 2]], ["-", "-"]), group([["n", 3], ["n", 4], ["n", 5]], ["/", "/"])]]
    if kind == "cfn":
        return "topK(3)(agg%s(foo) - 1 * 2)" % k, ["f", "topK", [group([["ts", "agg" + k, "foo", None], ["n", 1], ["n", 2]], ["-", "*"])]]
    raise AssertionError(kind)


def sequence(ctx, k, n, kinds, ops, depth, blank):
    """text and tree of n operands; at depth>0 an operand may be a parenthesised sequence of 2 or 3"""
    parts, trees = [], []
    for j in range(n):
        what = "atom" if not depth else ctx.choice("what%s%d" % (k, j), ["atom", "paren", "-paren"] if depth < 2 else ["atom", "-paren"])
        if what == "atom":
            t, tr = operand(ctx, k + str(j), kinds)
        else:
            t, tr = sequence(ctx, k + str(j), ctx.choice("len%s%d" % (k, j), [2, 3]) if depth > 1 else 2, kinds, ops, depth - 1, blank)
            t = "(" + blank() + t + blank() + ")"
            if what == "-paren":
                t, tr = "-" + t, ["f", "negate", [tr]]
        parts.append(t)
        trees.append(tr)
    os = [ctx.choice("op%s%d" % (k, j), ops) for j in range(n - 1)]
    text = parts[0]
    for o, p in zip(os, parts[1:]):
        text = text + blank() + o + blank() + p
    return text, group(trees, os)


def verify(ctx, text, want):
    ctx.observe("text", text)
    got = parse_mql(text)
    ctx.check(same(ctx, tree(got), want), "arithmetic is not parsed with the usual rules")
    ctx.reach("parsed")


BLANKS = ["", " ", "  ", "\t", "\n", " \r\n "]


def chains(ctx, n, kinds, ops, blank):
    """a chain of operators"""
    text, want = sequence(ctx, "", n, kinds, ops, 0, lambda: blank)
    verify(ctx, text, want)


def parens(ctx, n, depth, kinds, ops):
    """parentheses and unary minus"""
    text, want = sequence(ctx, "", n, kinds, ops, depth, lambda: " ")
    verify(ctx, text, want)


def blanks(ctx, n):
    """any white space around operators and inside parentheses"""
    count = [0]

    def blank():
        count[0] += 1
        return ctx.str("b%d" % count[0], n, " \t\n\r")

    text, want = sequence(ctx, "", 3, ["ts"], ["-", "*"], 1, blank)
    verify(ctx, blank() + text + blank(), want)


def numbers(ctx, hi):
    """numbers keep their value in every position"""
    a = ctx.int("a", 0, hi)
    sa = ctx.choice("sa", ["", "-"])
    b = ctx.choice("b", ["0.25", "-1.50", "-100", "007", "0", "123456.125", "-0.5", "12345678901234567890", "-1000000", "-12345678.5", "-98765432109876543210", "99999999.75", "0.000001", "-0.000001", "-0.12345678901234567890123", "1234567890123456789012.5"])
    op = ctx.choice("op", ["-", "/"])
    op2 = ctx.choice("op2", ["+", "*"])
    items = [(sa + str(a), ["n", -a if sa else a]), (b, ["n", float(b)])]
    items.insert(ctx.choice("order", [0, 1, 2]), ("max(foo)", ["ts", "max", "foo", None]))
    verify(ctx, items[0][0] + op + items[1][0] + " " + op2 + " " + items[2][0], group([t for _, t in items], [op, op2]))


def long(ctx, n):
    """long chains: two operators anywhere in a run of another"""
    base = ctx.choice("base", OPERATORS)
    i = ctx.choice("i", list(range(n - 1)))
    j = ctx.choice("j", list(range(n - 1)))
    ops = [base] * (n - 1)
    ops[i] = ctx.choice("x", OPERATORS)
    ops[j] = ctx.choice("y", OPERATORS)
    items = [("max(foo)" if k % 2 else str(k), ["ts", "max", "foo", None] if k % 2 else ["n", k]) for k in range(n)]
    text = items[0][0]
    for o, (t, _) in zip(ops, items[1:]):
        text += o + t
    verify(ctx, text, group([t for _, t in items], ops))


def crowd(ctx, n):
    """very long chains and argument lists, and very deep parentheses"""
    form = ctx.choice("form", ["chain", "function", "left", "right", "negative"])
    pattern = ctx.choice("pattern", ["+", "-", "*", "/", "-+", "/*", "-*", "+/-*", "--/"])
    item = lambda k: ("max(foo)", ["ts", "max", "foo", None]) if k % 3 == 0 else ("min(m_%s)" % "abc"[k % 3], ["ts", "min", "m_%s" % "abc"[k % 3], None]) if k % 5 == 0 else (str(k), ["n", k])
    if form == "chain" or form == "function":
        items = [item(k) for k in range(n)]
        if form == "function":
            return verify(ctx, "fun(" + ", ".join(t for t, _ in items) + ")", ["f", "fun", [t for _, t in items]])
        ops = [pattern[k % len(pattern)] for k in range(n - 1)]
        text = items[0][0]
        for o, (t, _) in zip(ops, items[1:]):
            text += " " + o + " " + t
        return verify(ctx, text, group([t for _, t in items], ops))
    text, want = "max(foo)", ["ts", "max", "foo", None]
    for k in range(n if n < 10 else 10):
        o = pattern[k % len(pattern)]
        t, tr = item(k + 1)
        text, want = ("(%s %s %s)" % (t, o, text), ["f", NAME[o], [tr, want]]) if form == "right" else ("(%s %s %s)" % (text, o, t), ["f", NAME[o], [want, tr]])
        if form == "negative" and k % 2:
            text, want = "-" + text, ["f", "negate", [want]]
    verify(ctx, text, want)


def nested(ctx, n):
    """nested parentheses around the same operation change nothing"""
    text, want = sequence(ctx, "", 2, ["ts"], OPERATORS, 0, lambda: " ")
    for k in range(n):
        text = "(" + " " * ctx.choice("s%d" % k, [0, 1]) + text + ")"
        if ctx.choice("neg%d" % k, [False, True]):
            text, want = "-" + text, ["f", "negate", [want]]
    verify(ctx, text, want)


def used(ctx):
    """the text used as a metrics query denotes the same arithmetic"""
    text, want = sequence(ctx, "", 3, ["ts", "zero"], OPERATORS, 0, lambda: " ")
    text, want = text + " + max(foo)", ["f", "plus", [want, ["ts", "max", "foo", None]]]
    mql = mquery(text).serialize()["mql"]
    ctx.observe("mql", mql)
    # fold the chain again: the last + is the weakest, and groups to the left of it
    ctx.check(same(ctx, tree(parse_mql(mql)), tree(parse_mql(text))), "the MQL sent denotes another arithmetic")
    ctx.reach("parsed")


def cases(tier):
    deep = tier == "thorough"
    R = {"reach": ["parsed"]}
    out = []
    every = ["ts", "mri", "bt", "params", "bare", "int", "digits", "zero", "-ts", "-int", "fn", "fnexpr", "cfn"]
    for b in (BLANKS if deep else ["", " "]):
        for n in (3, 4, 5) if deep else (3, 4):
            out.append(("chains/%r/%d" % (b, n), chains, {"n": n, "kinds": ["ts"], "ops": OPERATORS, "blank": b}, dict(R, bounds="%d operands, all operators" % n, cost=4 ** n)))
        out.append(("kinds2/%r" % b, chains, {"n": 2, "kinds": every, "ops": OPERATORS if deep else ["-", "/"], "blank": b}, dict(R, bounds="2 operands of every kind", cost=300)))
    out.append(("kinds3", chains, {"n": 3, "kinds": ["ts", "int", "-ts"] if not deep else every[:-2], "ops": ["-", "/"], "blank": ""}, dict(R, bounds="3 operands of many kinds", cost=500)))
    out.append(("chains/5", chains, {"n": 5 if not deep else 6, "kinds": ["ts"], "ops": ["-", "/"], "blank": ""}, dict(R, bounds="5 (6) operands", cost=30)))
    out.append(("parens/2", parens, {"n": 2, "depth": 1, "kinds": ["ts"], "ops": OPERATORS}, dict(R, bounds="2 operands, parentheses", cost=300)))
    out.append(("parens/3", parens, {"n": 3, "depth": 1, "kinds": ["ts"], "ops": ["-", "/"]}, dict(R, bounds="3 operands, parentheses", cost=600)))
    out.append(("parens/2/2", parens, {"n": 2, "depth": 2, "kinds": ["ts"], "ops": ["-"]}, dict(R, bounds="2 operands, nested parentheses", cost=600)))
    out.append(("parens/num", parens, {"n": 2, "depth": 1, "kinds": ["zero", "-int", "ts"] if deep else ["zero", "-int"], "ops": ["-", "*"] if deep else ["-"]}, dict(R, bounds="2 operands, numbers, parentheses", cost=300)))
    for n in (1, 2) if deep else (1,):
        out.append(("blanks/%d" % n, blanks, {"n": n}, dict(R, bounds="any %d white space characters at each place" % n, cost=300)))
    out.append(("numbers", numbers, {"hi": 999999999 if deep else 9999}, dict(R, bounds="integers to 4 (9) digits, fractions from a pool", cost=300)))
    out.append(("long", long, {"n": 9 if deep else 6}, dict(R, bounds="6 (9) operands", cost=400)))
    for n in (12, 25, 60):
        out.append(("crowd/%d" % n, crowd, {"n": n}, dict(R, bounds="%d operands, 10 levels of parentheses" % n, cost=300)))
    out.append(("nested", nested, {"n": 3}, dict(R, bounds="3 levels", cost=100)))
    out.append(("used", used, {}, dict(R, bounds="4 operands", cost=200)))
    return out
