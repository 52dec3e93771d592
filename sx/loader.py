"""Rewrites source files so that symbolic values can flow through them, and imports them.

The rewriting is purely local (each operator, call, f-string and set/dict display goes through a
hook in rt.py) and keeps the program's control flow: what is executed is the current source."""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import rt

_CMP = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
    ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
}
_BIN = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<",
    ast.RShift: ">>", ast.MatMult: "@",
}


def _name(n):
    return ast.Name(id=n, ctx=ast.Load())


def _call(n, args):
    return ast.Call(func=_name(n), args=args, keywords=[])


def own_yield(fn):
    """fn is a generator (its entries are not scheduling points: replays see every resumption as a call)"""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(x))
    return False


class Rewriter(ast.NodeTransformer):
    def __init__(self, entry_hooks):
        self.entry_hooks = entry_hooks
        self.stack = []
        self.functions = []

    # -- definitions: leave annotations alone
    def _func(self, node):
        self.stack.append(node.name)
        qual = ".".join(self.stack)
        self.functions.append(qual)
        node.decorator_list = [_call("_sx_deco", [self.visit(d)]) for d in node.decorator_list]
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        body = []
        for s in node.body:
            r = self.visit(s)
            body.extend(r if isinstance(r, list) else [r])
        if self.entry_hooks and not own_yield(node):
            hook = ast.Expr(_call("_sx_enter", [ast.Constant(qual)]))
            k = 1 if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            body.insert(k, hook)
        node.body = body
        self.stack.pop()
        return node

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        self.stack.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    # -- expressions
    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                conv = "" if v.conversion == -1 else chr(v.conversion)
                spec = ast.Constant("") if v.format_spec is None else self.visit(v.format_spec)
                parts.append(
                    ast.Tuple(elts=[self.visit(v.value), ast.Constant(conv), spec], ctx=ast.Load())
                )
        return _call("_sx_fstr", parts)

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals", "vars", "dir"):
            self.generic_visit(node)
            return node
        if isinstance(node.func, ast.Name) and node.func.id in ("TypeVar", "NewType"):
            return node
        func = self.visit(node.func)
        args = [self.visit(a) for a in node.args]
        kws = [ast.keyword(arg=k.arg, value=self.visit(k.value)) for k in node.keywords]
        return ast.Call(func=_name("_sx_call"), args=[func] + args, keywords=kws)

    def visit_Compare(self, node):
        left = self.visit(node.left)
        rights = [self.visit(c) for c in node.comparators]
        ops = [_CMP[type(o)] for o in node.ops]
        if len(ops) == 1:
            if ops[0] in ("is", "is not") and isinstance(rights[0], ast.Constant) and rights[0].value is None:
                node.left = left
                node.comparators = rights
                return node
            return _call("_sx_cmp", [ast.Constant(ops[0]), left, rights[0]])
        return _call(
            "_sx_cmpchain",
            [ast.Tuple(elts=[ast.Constant(o) for o in ops], ctx=ast.Load()), left] + rights,
        )

    def visit_BinOp(self, node):
        return _call(
            "_sx_binop", [ast.Constant(_BIN[type(node.op)]), self.visit(node.left), self.visit(node.right)]
        )

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name):
            load = ast.Name(id=node.target.id, ctx=ast.Load())
        elif isinstance(node.target, ast.Attribute) and isinstance(node.target.value, ast.Name):
            load = ast.Attribute(value=node.target.value, attr=node.target.attr, ctx=ast.Load())
        else:
            self.generic_visit(node)
            return node
        return ast.Assign(
            targets=[node.target],
            value=_call("_sx_ibinop", [ast.Constant(_BIN[type(node.op)]), load, self.visit(node.value)]),
        )

    def visit_Subscript(self, node):
        if not isinstance(node.ctx, ast.Load):
            self.generic_visit(node)
            return node
        sl = node.slice
        if isinstance(sl, ast.Slice):
            idx = ast.Call(
                func=_name("_sx_slice"),
                args=[
                    self.visit(x) if x is not None else ast.Constant(None)
                    for x in (sl.lower, sl.upper, sl.step)
                ],
                keywords=[],
            )
        else:
            idx = self.visit(sl)
        return _call("_sx_getitem", [self.visit(node.value), idx])

    def visit_Set(self, node):
        return _call("_sx_mkset", [ast.List(elts=[self.visit(e) for e in node.elts], ctx=ast.Load())])

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return _call("_sx_mkset", [ast.GeneratorExp(elt=node.elt, generators=node.generators)])

    def visit_Dict(self, node):
        pairs = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                pairs.append(ast.Tuple(elts=[self.visit(v)], ctx=ast.Load()))
            else:
                pairs.append(ast.Tuple(elts=[self.visit(k), self.visit(v)], ctx=ast.Load()))
        return _call("_sx_mkdict", [ast.List(elts=pairs, ctx=ast.Load())])

    def visit_DictComp(self, node):
        self.generic_visit(node)
        return _call(
            "_sx_mkdict",
            [
                ast.GeneratorExp(
                    elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
                    generators=node.generators,
                )
            ],
        )


HOOKS = {
    "_sx_fstr": rt.fstr,
    "_sx_call": rt.call,
    "_sx_cmp": rt.cmp,
    "_sx_cmpchain": rt.cmpchain,
    "_sx_binop": rt.binop,
    "_sx_ibinop": rt.ibinop,
    "_sx_getitem": rt.getitem,
    "_sx_slice": slice,
    "_sx_mkset": rt.mkset,
    "_sx_mkdict": rt.mkdict,
    "_sx_enter": rt.enter,
    "_sx_deco": rt.deco,
}

ENCODED = {}  # module -> number of functions rewritten


class Loader(importlib.abc.Loader):
    def __init__(self, path, entry_hooks):
        self.path = path
        self.entry_hooks = entry_hooks

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        rw = Rewriter(self.entry_hooks)
        tree = ast.fix_missing_locations(rw.visit(tree))
        ENCODED[module.__name__] = rw.functions
        code = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__.update(HOOKS)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """roots: {top-level package: (directory containing it, entry_hooks)}"""

    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        base, hooks = self.roots[top]
        p = os.path.join(base, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            spec = importlib.util.spec_from_file_location(
                name, f, loader=Loader(f, hooks), submodule_search_locations=[p]
            )
            return spec
        f = p + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(f, hooks))
        return None


def install(roots):
    sys.meta_path.insert(0, Finder(roots))
