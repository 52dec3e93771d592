"""Conditions and boolean groups are printed so that they mean what was built."""
from props.c07 import G, deepforms
from props.lib import (
    ALLOPS, HEAD, UNARY, And, BooleanCondition, BooleanOp, Column, Condition, Or, T, build, check_text, joined, query, ref,
)

OUTSIDE = "boolean nesting deeper than 3 in every shape (12 in regular shapes) and groups wider than 150; the OR rewriting (its own property)"

LHS = [("col", "a"), ("col", "tags[x]"), ("fn", "foo", [("col", "a"), ("s", "it's")], None), ("cfn", "qq", [("i", 1)], [("col", "a")], "al")]
RHS = [
    lambda c: ("i", c.int("v")), lambda c: ("s", c.str("v", 1)), lambda c: ("n",), lambda c: ("t", c.bool("v")),
    lambda c: ("f", c.float("v")), lambda c: ("dt", c.datetime("v")), lambda c: ("adt", c.datetime("v", aware=True)),
    lambda c: ("col", "r"), lambda c: ("fn", "bar", [("col", "r"), ("i", c.int("v"))], None),
    lambda c: ("cfn", "bar", [("i", c.int("v"))], [], None),
    lambda c: ("arr", [("i", c.int("v")), ("i", 2)]), lambda c: ("tup", [("s", c.str("v", 1)), ("n",)]),
    lambda c: ("tup", []), lambda c: ("arr", [("col", "r"), ("fn", "bar", [], None)]), lambda c: ("b", b"x'y"),
]


def single(ctx, clause, op):
    """every operator with every kind of operand"""
    lhs = ctx.choice("lhs", LHS)
    spec = ("c", lhs, op) if op in UNARY else ("c", lhs, op, ctx.choice("rhs", RHS)(ctx))
    q = query(**{clause: [build(spec)]})
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    want = T(HEAD + " " + clause.upper()) + ref(spec)
    check_text(ctx, text, want, "the condition is not printed faithfully")
    check_text(ctx, q.print(), want, "print() does not print the condition faithfully")


def leafs(ctx, k):
    """distinct operands, so that no group is an OR of equalities on one expression"""
    return [
        ("c", ("col", "a%d" % k), "=", ("i", ctx.int("v%d" % k))),
        ("c", ("col", "b%d" % k), "IS NULL"),
        ("c", ("fn", "foo", [("col", "c%d" % k)], None), "!=", ("s", "AND OR (")),
    ][k % 3]


def tree(ctx, name, depth, counter):
    kinds = ["leaf"] if depth == 0 else ["leaf", "and", "or", "BAND", "BOR"]
    k = ctx.choice(name, kinds)
    if k == "leaf":
        counter.append(1)
        return leafs(ctx, len(counter) - 1)
    n = 2
    parts = [tree(ctx, name + str(j), depth - 1, counter) for j in range(n)]
    if k in ("and", "or"):
        return (k, parts)
    return ("bool", k[1:], parts)


def nested(ctx, clause, depth, first):
    """every boolean tree of binary groups, next to a second top-level condition"""
    counter = []
    spec = tree(ctx, "t", depth, counter)
    other = ("c", ("col", "z"), "<", ("i", 3))
    group = [spec, other] if first else [other, spec]
    q = query(**{clause: [build(g) for g in group]})
    want = T(HEAD + " " + clause.upper()) + joined([ref(g) for g in group], "AND")
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, want, "the boolean structure is changed when printed")


def spine(ctx, clause, depth):
    """deep alternation of groups with a sub-group in any position"""
    spec = leafs(ctx, 0)
    for k in range(depth):
        op = ctx.choice("op%d" % k, ["and", "or"])
        pos = ctx.choice("pos%d" % k, [0, 1, 2])
        parts = [leafs(ctx, 2 * k + 1), leafs(ctx, 2 * k + 2)]
        parts.insert(pos, spec)
        spec = (op, parts)
    q = query(**{clause: [build(spec)]})
    want = T(HEAD + " " + clause.upper()) + ref(spec)
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, want, "the boolean structure is changed when printed")
    check_text(ctx, q.print(), want, "print() changes the boolean structure")


def wide(ctx, clause, kind, sizes):
    """any number of conditions, kept in order; equal conditions are kept too"""
    n = ctx.choice("n", sizes)
    same = ctx.choice("same", [False, True])
    parts = [("c", ("col", "a" if same else "a%d" % k), ">", ("i", ctx.int("v%d" % k))) for k in range(n)]
    if kind == "top":
        group = parts
    else:
        group = [(kind, parts)]
    q = query(**{clause: [build(g) for g in group]})
    want = T(HEAD + " " + clause.upper()) + joined([ref(g) for g in group], "AND")
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, want, "a condition is lost, added or moved")


def large(ctx, clause, kind, sizes):
    """very many conditions, many of them equal: none is lost, moved or merged"""
    n = ctx.choice("n", sizes)
    style = ctx.choice("style", ["same", "pairs", "mixed", "falling"])
    at = ctx.choice("at", [0, n // 2, n - 1])
    pool = [("c", ("col", "a"), ">", ("i", 1)), ("c", ("col", "a"), "IS NULL"), ("c", ("col", "a"), "!=", ("t", True)), ("c", ("col", "a"), "!=", ("i", 1)),
            ("c", ("fn", "foo", [("col", "a")], None), "LIKE", ("s", "AND OR (")), ("c", ("col", "a"), "IN", ("arr", [("i", 1), ("s", "1")]))]
    parts = {
        "same": lambda: [pool[0]] * n,
        "pairs": lambda: [("c", ("col", "a%d" % (k // 2)), ">", ("i", 1)) for k in range(n)],
        "mixed": lambda: [pool[k % len(pool)] for k in range(n)],
        "falling": lambda: [("c", ("col", "a%d" % (n - k)), "<=", ("i", k)) for k in range(n)],
    }[style]()
    parts[at] = ("c", ("col", "a"), ">", ("i", ctx.int("v")))
    group = {"top": lambda: parts, "and": lambda: [("and", parts)], "or": lambda: [("or", parts)], "below": lambda: [("and", [pool[0], ("or", parts), pool[1]])]}[kind]()
    q = query(**{clause: [build(g) for g in group]})
    want = T(HEAD + " " + clause.upper()) + joined([ref(g) for g in group], "AND")
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, want, "a condition of a large group is lost, added or moved")


def tower(ctx, clause, depths):
    """very deep groups in one position, of one operator or of both in turn"""
    d = ctx.choice("d", depths)
    pos = ctx.choice("pos", [0, 1, 2])
    ops = ctx.choice("ops", [("and",), ("or",), ("and", "or"), ("or", "and"), ("and", "and", "or")])
    spec = leafs(ctx, 0)
    for k in range(d):
        parts = [("c", ("col", "p%d" % k), ">", ("i", k)), ("c", ("col", "p%d" % k), "IS NOT NULL")]
        parts.insert(pos, spec)
        spec = (ops[k % len(ops)], parts)
    other = ("c", ("col", "z"), "<", ("i", 3))
    group = ctx.choice("where", [[spec], [other, spec], [spec, other]])
    q = query(**{clause: [build(g) for g in group]})
    want = T(HEAD + " " + clause.upper()) + joined([ref(g) for g in group], "AND")
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, want, "the boolean structure is changed when printed")


def groups(ctx, clause, sizes):
    """groups all of whose members are groups, at the top, beside another condition, and below another group"""
    n = ctx.choice("n", sizes)
    op = ctx.choice("op", ["and", "or"])
    counter = []
    parts = []
    for k in range(n):
        kind = ctx.choice("k%d" % k, ["leaf", "and", "or"]) if n <= 4 else ("and", "or")[k % 2]
        if kind == "leaf":
            parts.append(leafs(ctx, len(counter)))
            counter.append(1)
        else:
            parts.append((kind, [leafs(ctx, len(counter)), leafs(ctx, len(counter) + 1)]))
            counter.extend([1, 1])
    spec = (op, parts)
    other = ("c", ("col", "z"), "<", ("i", 3))
    group = ctx.choice("where", [lambda: [spec], lambda: [spec, other], lambda: [other, spec], lambda: [("or", [other, spec])], lambda: [("and", [spec, spec, other])]])()
    q = query(**{clause: [build(g) for g in group]})
    want = T(HEAD + " " + clause.upper()) + joined([ref(g) for g in group], "AND")
    text = q.serialize()
    ctx.observe("snql", text)
    ctx.reach("serialized")
    check_text(ctx, text, want, "the boolean structure is changed when printed")
    check_text(ctx, q.print(), want, "print() changes the boolean structure")


def both(ctx, n):
    """conditions in WHERE and HAVING at once: each clause keeps its own"""
    w = [ctx.choice("w%d" % k, list(G.values()))(ctx, "w%d" % k) for k in range(n)]
    h = [ctx.choice("h%d" % k, list(G.values()))(ctx, "h%d" % k) for k in range(n)]
    q = query(where=[build(g) for g in w], having=[build(g) for g in h])

    def alts(group):
        out = [[]]
        for k, g in enumerate(group):
            out = [a + (T("AND") if k else []) + f for a in out for f in deepforms(g)]
        return out

    wants = [T(HEAD + " WHERE") + a + T("HAVING") + b for a in alts(w) for b in alts(h)]
    for text in (q.serialize(), q.print()):
        ctx.observe("snql", text)
        ctx.check(ctx.either(*[ctx.matches(text, x) for x in wants]), "the conditions of WHERE and HAVING are not both printed faithfully")
    ctx.reach("serialized")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for n in (1, 2) if deep else (1,):
        out.append(("both/%d" % n, both, {"n": n}, {"reach": ["serialized"], "bounds": "%d conditions in each clause" % n, "cost": 40 ** n}))
    for clause in ("where", "having"):
        for op in [t for _, t in ALLOPS]:
            out.append(("single/%s/%s" % (clause, op.replace(" ", "")), single, {"clause": clause, "op": op}, {"reach": ["serialized"], "bounds": "every operand kind", "cost": 5}))
        for first in (True, False):
            d = 3 if deep and first else 2
            out.append(("nested/%s/%s" % (clause, first), nested, {"clause": clause, "depth": d, "first": first},
                        {"reach": ["serialized"], "bounds": "binary trees of depth %d" % d, "cost": 20 * 100 ** (d - 2)}))
        out.append(("groups/%s" % clause, groups, {"clause": clause, "sizes": [2, 3, 5] if not deep else [2, 3, 4, 5, 6]}, {"reach": ["serialized"], "bounds": "groups of up to 5 (6) groups", "cost": 50}))
        d = 4 if deep else 3
        out.append(("spine/%s" % clause, spine, {"clause": clause, "depth": d}, {"reach": ["serialized"], "bounds": "depth %d" % d, "cost": 6 ** d}))
        out.append(("tower/%s" % clause, tower, {"clause": clause, "depths": [4, 7, 12] + ([25] if deep else [])}, {"reach": ["serialized"], "bounds": "depth 4, 7 and 12 (25)", "cost": 60}))
        for kind in ("top", "and", "or", "below"):
            out.append(("large/%s/%s" % (clause, kind), large, {"clause": clause, "kind": kind, "sizes": [20, 60, 150] + ([400] if deep else [])},
                        {"reach": ["serialized"], "bounds": "20, 60 and 150 (400) conditions", "cost": 60}))
        for kind in ("top", "and", "or"):
            out.append(("wide/%s/%s" % (clause, kind), wide, {"clause": clause, "kind": kind, "sizes": ([1] if kind == "top" else []) + [2, 3, 4, 5, 6, 7, 8, 12]},
                        {"reach": ["serialized"], "bounds": "up to 12 conditions", "cost": 5}))
    return out
