"""dev: mutation experiments.  mutate.py gen OUT.json | test IN OUT | check IN OUT [--max N]
gen: list single-site mutants of /repo/snuba_sdk; test: keep those that pass the 518 tests;
check: run the checks on each survivor until one reports a violation."""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
REPO = "/repo"

def span(src_lines, n):
    return (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)

class Gen:
    def __init__(s, path):
        s.path = path
        s.src = open(os.path.join(REPO, path), encoding="utf8").read()
        s.b = s.src.encode()
        s.off = [0]
        for l in s.b.split(b"\n"):
            s.off.append(s.off[-1] + len(l) + 1)
        s.out = []
        s.tree = ast.parse(s.src)
    def pos(s, n):
        return s.off[n.lineno - 1] + n.col_offset, s.off[n.end_lineno - 1] + n.end_col_offset
    def text(s, n):
        a, b = s.pos(n)
        return s.b[a:b].decode()
    def add(s, n, new, op):
        a, b = s.pos(n)
        s.out.append(dict(file=s.path, a=a, b=b, old=s.text(n), new=new, op=op, line=n.lineno))
    def run(s):
        for n in ast.walk(s.tree):
            for c in ast.iter_child_nodes(n):
                c.parent = n
        s.visit(s.tree)
        return s.out
    def visit(s, n):
        m = getattr(s, "v_" + type(n).__name__, None)
        skip = False
        if isinstance(n, ast.Raise):
            s.stmt(n); skip = True
        if isinstance(n, (ast.arg, ast.AnnAssign)) and getattr(n, "value", None) is None:
            skip = True
        if m and not skip:
            m(n)
        if skip: return
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list", "bases"): continue
            for c in v if isinstance(v, list) else [v]:
                if isinstance(c, ast.AST): s.visit(c)
    def stmt(s, n):
        s.add(n, "pass", "del-stmt")
    def v_Expr(s, n):
        if isinstance(n.value, ast.Constant): return
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)): return
        s.stmt(n)
    def v_Assign(s, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)): s.stmt(n)
    def v_AugAssign(s, n): s.stmt(n)
    def v_If(s, n):
        s.add(n.test, "True", "if-true"); s.add(n.test, "False", "if-false")
    def v_IfExp(s, n):
        s.add(n, "(" + s.text(n.body) + ")", "ifexp-body"); s.add(n, "(" + s.text(n.orelse) + ")", "ifexp-else")
    def v_Compare(s, n):
        if len(n.ops) != 1: return
        l, r = s.text(n.left), s.text(n.comparators[0])
        o = type(n.ops[0]).__name__
        t = {"Eq": ["!="], "NotEq": ["=="], "Lt": ["<=", "!="], "LtE": ["<"], "Gt": [">=", "!="], "GtE": [">"], "In": ["not in"], "NotIn": ["in"], "Is": ["is not"], "IsNot": ["is"]}[o]
        for x in t: s.add(n, "(%s) %s (%s)" % (l, x, r), "cmp")
        if r == "None" and o == "Is": s.add(n, "(not (%s))" % l, "none-falsy")
        if r == "None" and o == "IsNot": s.add(n, "(True if (%s) else False)" % l, "none-truthy")
        if o == "Eq" : s.add(n, "(%s) in (%s, None)" % (l, r), "eq-or-none")
    def v_BoolOp(s, n):
        op = "and" if isinstance(n.op, ast.And) else "or"
        vs = ["(" + s.text(v) + ")" for v in n.values]
        s.add(n, "(" + (" or " if op == "and" else " and ").join(vs) + ")", "boolop")
        for i in range(len(vs)):
            s.add(n, "(" + (" %s " % op).join(vs[:i] + vs[i + 1:]) + ")", "bool-drop")
    def v_UnaryOp(s, n):
        if isinstance(n.op, ast.Not): s.add(n, "(" + s.text(n.operand) + ")", "not-drop")
    def v_BinOp(s, n):
        if isinstance(n.op, ast.Add): s.add(n, "(%s)" % s.text(n.left), "add-left"); s.add(n, "(%s)" % s.text(n.right), "add-right")
    def v_Constant(s, n):
        if isinstance(getattr(n, "parent", None), (ast.Expr, ast.JoinedStr)): return
        if type(n.value) is int:
            s.add(n, str(n.value + 1), "const+1")
            if n.value: s.add(n, str(n.value - 1), "const-1")
        elif type(n.value) is bool:
            s.add(n, str(not n.value), "const-not")
        elif type(n.value) is str and "\n" not in s.text(n) and not s.text(n).startswith("r"):
            s.add(n, repr(n.value + "x"), "str+")
            if n.value.strip() != n.value: s.add(n, repr(n.value.strip()), "str-strip")
    def iter_(s, e):
        t = s.text(e)
        s.add(e, "list(%s)[:4]" % t, "iter-trunc4")
        s.add(e, "(lambda q: q if len(q) < 4 else q[:-1])(list(%s))" % t, "iter-droplast")
        s.add(e, "(lambda q: q if len(q) < 3 else [q[1], q[0], *q[2:]])(list(%s))" % t, "iter-swap")
        s.add(e, "[q for q in (%s) if q]" % t, "iter-truthy")
        s.add(e, "(lambda l: [q for i, q in enumerate(l) if q not in l[:i]])(list(%s))" % t, "iter-dedupe")
        s.add(e, "list(%s)[1:]" % t, "iter-tail")
    def v_For(s, n): s.iter_(n.iter)
    def v_comprehension(s, n):
        s.iter_(n.iter)
        for i in n.ifs: s.add(i, "True", "compif-true")
    def v_Tuple(s, n): s.seq(n, "(", ",)")
    def v_List(s, n): s.seq(n, "[", "]")
    def v_Set(s, n):
        if len(n.elts) > 1: s.seq(n, "{", "}")
    def seq(s, n, o, c):
        if isinstance(n.ctx if hasattr(n, "ctx") else ast.Load(), ast.Store): return
        if isinstance(getattr(n, "parent", None), ast.Subscript): return
        es = [s.text(e) for e in n.elts]
        for i in range(len(es)):
            r = es[:i] + es[i + 1:]
            s.add(n, o + ", ".join(r) + (c if r else c[-1]), "elt-drop")
        if len(es) > 1: s.add(n, o + ", ".join([es[1], es[0]] + es[2:]) + c, "elt-swap")
    def v_Dict(s, n):
        if len(n.keys) < 1 or None in n.keys: return
        kv = ["%s: %s" % (s.text(k), s.text(v)) for k, v in zip(n.keys, n.values)]
        for i in range(len(kv)): s.add(n, "{" + ", ".join(kv[:i] + kv[i + 1:]) + "}", "dict-drop")
    def v_Subscript(s, n):
        if not isinstance(n.ctx, ast.Load): return
        if isinstance(n.slice, ast.Slice):
            s.add(n, "(" + s.text(n.value) + ")", "slice-drop")
        elif isinstance(n.slice, ast.Constant) and type(n.slice.value) is int:
            s.add(n, "%s[%d]" % (s.text(n.value), -1 if n.slice.value == 0 else 0), "index")
    def v_Call(s, n):
        f = s.text(n.func)
        if f in ("isinstance", "super", "cast", "TypeVar", "re.compile"): return
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "replace", "upper", "lower", "lstrip", "rstrip", "copy", "join", "split", "format", "get", "encode", "decode", "items"):
            s.add(n, "(" + s.text(n.func.value) + ")", "method-drop")
        for i, k in enumerate(n.keywords):
            if k.arg:
                args = [s.text(x) for x in n.args] + [("%s=%s" % (q.arg, s.text(q.value)) if q.arg else "**" + s.text(q.value)) for j, q in enumerate(n.keywords) if j != i]
                s.add(n, "%s(%s)" % (f, ", ".join(args)), "kw-drop")
        if len(n.args) == 2 and not n.keywords: s.add(n, "%s(%s, %s)" % (f, s.text(n.args[1]), s.text(n.args[0])), "arg-swap")
        if f in ("all", "any"): s.add(n, ("any" if f == "all" else "all") + "(" + ", ".join(s.text(x) for x in n.args) + ")", "all-any")
    def v_JoinedStr(s, n):
        p = n
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                e = s.text(v.value)
                s.add(v.value, "str(%s).strip()" % e, "f-strip")
    def v_Return(s, n):
        if n.value is not None and not isinstance(n.value, ast.Constant): s.add(n.value, "None", "ret-none")

def gen(out):
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, "snuba_sdk")):
        for f in sorted(fs):
            if f.endswith(".py") and f != "__init__.py":
                r += Gen(os.path.relpath(os.path.join(d, f), REPO)).run()
    seen, o = set(), []
    for m in r:
        k = (m["file"], m["a"], m["b"], m["new"])
        if k in seen or m["old"] == m["new"]: continue
        seen.add(k)
        b = open(os.path.join(REPO, m["file"]), "rb").read()
        try: compile(b[:m["a"]] + m["new"].encode() + b[m["b"]:], "x", "exec")
        except SyntaxError: continue
        m["id"] = len(o); o.append(m)
    json.dump(o, open(out, "w"), indent=0)
    print(len(o))

def applied(m, w):
    p = os.path.join(w, m["file"])
    b = open(p, "rb").read()
    open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])

def test1(m):
    w = tempfile.mkdtemp(prefix="mut."); w2 = w + "/r"
    shutil.copytree(REPO, w2, ignore=shutil.ignore_patterns(".git"))
    applied(m, w2)
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=w2, capture_output=True, timeout=120, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        ok = p.returncode == 0
    except subprocess.TimeoutExpired:
        ok = False
    shutil.rmtree(w)
    return ok

def test(inp, out):
    ms = json.load(open(inp)); keep = []
    with ThreadPoolExecutor(int(os.environ.get("J", 6))) as ex:
        for i, (m, ok) in enumerate(zip(ms, ex.map(test1, ms))):
            if ok: keep.append(m)
            if i % 100 == 0:
                print(i, len(keep), flush=True); json.dump(keep, open(out, "w"), indent=0)
    json.dump(keep, open(out, "w"), indent=0); print(len(ms), len(keep))

# checks in the order in which they are tried for each file
ORDER = {
 "aliased_expression": "C03 C08 C24 C23", "column": "C08 C03 C24 C23 C06", "conditions": "C24 C04 C23", "delete_query": "C14 C13",
 "entity": "C09 C08 C24 C06 C23", "expressions": "C09 C24 C23", "formula": "C20 C24 C23 C12", "function": "C24 C03 C08 C23", "legacy": "C21 C22",
 "metrics_query": "C12 C19 C24 C23", "metrics_query_visitors": "C19 C13 C16", "metrics_visitors": "C15 C20 C16", "mql_context": "C19", "mql_visitor": "C15 C16 C20",
 "orderby": "C24 C05 C23", "query": "C12 C05 C24 C09 C23", "query_validation": "C10 C11", "query_visitors": "C05 C10 C09 C24 C06", "relationships": "C24 C06 C11 C23",
 "request": "C13 C08 C24 C23", "schema": "C10 C11 C24", "snuba": "C13 C21", "storage": "C08 C24 C23 C05", "timeseries": "C24 C12 C19 C23", "visitors": "C02 C01 C03 C04 C06 C10",
 "mql": "C18 C17 C16", "or_optimizer": "C07 C04 C12"}
ALL = ["C%02d" % i for i in range(1, 26)]

def check1(m):
    w = tempfile.mkdtemp(prefix="mut."); w2 = w + "/r"
    shutil.copytree(REPO, w2, ignore=shutil.ignore_patterns(".git"))
    applied(m, w2)
    stem = os.path.basename(m["file"])[:-3]
    first = ORDER.get(stem, "").split()
    order = first + ([p for p in ALL if p not in first and p != "C25"] if os.environ.get("FULL") else [])
    res = None; notes = []
    for p in order:
        try:
            r = subprocess.run(["python3-vt", "/verif/run.py", p, "--tier", "quick", "--jobs", os.environ.get("RJ", "4")], capture_output=True, text=True, timeout=1200,
                               env=dict(os.environ, SX_REPO=w2, SX_EVIDENCE=w + "/ev", SX_FAILFAST="1"))
        except subprocess.TimeoutExpired:
            notes.append(p + " timeout"); continue
        if r.returncode == 1:
            res = p; break
        inc = [l for l in r.stdout.splitlines() if l.startswith("INCONCLUSIVE")]
        if inc: notes.append(inc[0][:200])
    shutil.rmtree(w)
    return res, notes

def check(inp, out):
    ms = json.load(open(inp)); done = {}
    if os.path.exists(out): done = {x["id"]: x for x in json.load(open(out))}
    todo = [m for m in ms if m["id"] not in done]
    with ThreadPoolExecutor(int(os.environ.get("J", 2))) as ex:
        for m, (res, notes) in zip(todo, ex.map(check1, todo)):
            m["caught"] = res; m["notes"] = notes; done[m["id"]] = m
            print("%5d %s:%d %s %r -> %r : %s %s" % (m["id"], m["file"][10:], m["line"], m["op"], m["old"][:60], m["new"][:80], res or "MISSED", notes[:1]), flush=True)
            json.dump(list(done.values()), open(out, "w"), indent=0)

if __name__ == "__main__":
    {"gen": gen, "test": test, "check": check}[sys.argv[1]](*sys.argv[2:])
