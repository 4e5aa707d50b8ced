"""The source of the package: modules, functions, classes, scopes.  Nothing is imported or run."""
from __future__ import annotations

import ast
import os

PKG = "castep_outputs"


class Mod:
    def __init__(self, name, path, tree, text):
        self.name, self.path, self.tree, self.text = name, path, tree, text
        self.is_pkg = path.endswith("__init__.py")


class Fn:
    """A function, lambda or module body."""

    def __init__(self, fid, node, mod, qual, parent, cls):
        self.fid, self.node, self.mod, self.qual = fid, node, mod, qual
        self.parent, self.cls = parent, cls
        self.locals = set()
        self.captured = set()
        self.globals = set()
        self.nonlocals = set()
        self.is_gen = False
        self.kind = None
        self._limit = 0

    def depth_limit(self):
        """How often a function may be active at once: large ones are not unrolled."""
        if not self._limit:
            self._limit = 1 if sum(1 for _ in ast.walk(self.node)) > 2500 else 3
        return self._limit


class Cls:
    def __init__(self, cid, node, mod, qual):
        self.cid, self.node, self.mod, self.qual = cid, node, mod, qual
        self.attrs = {}
        self.bases = []
        self.members = {}
        self.enum = None


def _walk_scope(node):
    """Nodes of one scope; nested functions and classes are given but not entered."""
    stack = [node] if not isinstance(node, list) else list(node)
    first = True
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
        first = False


class Program:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.fns = {}
        self.bynode = {}
        self.errors = []
        self.nodes = 0
        self.operands = set()   # subscripts computed with, compared, tested or passed to a call
        base = os.path.join(root, PKG)
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                with open(p, encoding="utf-8") as fh:
                    text = fh.read()
                tree = ast.parse(text, p)
                m = Mod(rel, os.path.relpath(p, root), tree, text)
                self.mods[rel] = m
                for n in ast.walk(tree):
                    n.nid = self.nodes = self.nodes + 1
                    if isinstance(n, (ast.Compare, ast.BinOp, ast.UnaryOp, ast.BoolOp, ast.FormattedValue, ast.Call)):
                        sub = [n.value] if isinstance(n, ast.FormattedValue) else \
                            [*n.args, *[k.value for k in n.keywords]] if isinstance(n, ast.Call) else \
                            list(ast.iter_child_nodes(n))
                    else:
                        sub = [n.test] if isinstance(n, (ast.If, ast.While, ast.IfExp)) else []
                    self.operands.update(x for x in sub if isinstance(x, ast.Subscript))
                self._scan(m)

    def resolve_from(self, mod, node):
        if not node.level:
            return node.module
        parts = mod.name.split(".")
        if not mod.is_pkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (node.level - 1)]
        return ".".join(parts + ([node.module] if node.module else []))

    def _scan(self, mod):
        top = Fn(mod.name, mod.tree, mod, "<module>", None, None)
        top.kind = "module"
        self.fns[top.fid] = top
        self.bynode[id(mod.tree)] = top
        self._scope(top, mod.tree.body, mod, "", None)

    def _scope(self, fn, body, mod, prefix, cls):
        node = fn.node
        if fn.kind != "module":
            a = node.args
            for x in (*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg, a.kwarg):
                if x is not None:
                    fn.locals.add(x.arg)
        used = set()
        children = []
        for n in _walk_scope(body):
            if isinstance(n, ast.Name):
                (fn.locals if isinstance(n.ctx, (ast.Store, ast.Del)) else used).add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                fn.locals.add(n.name)
                children.append(n)
                for d in n.decorator_list:
                    for x in ast.walk(d):
                        if isinstance(x, ast.Name):
                            used.add(x.id)
                if not isinstance(n, ast.ClassDef):
                    for d in [*n.args.defaults, *[k for k in n.args.kw_defaults if k]]:
                        for x in ast.walk(d):
                            if isinstance(x, ast.Name):
                                used.add(x.id)
            elif isinstance(n, ast.Lambda):
                children.append(n)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    if al.name != "*":
                        fn.locals.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                fn.locals.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                fn.locals.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                fn.locals.add(n.rest)
            elif isinstance(n, ast.Global):
                fn.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                fn.nonlocals.update(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                fn.is_gen = True
        fn.locals -= fn.globals | fn.nonlocals
        fn.used = used
        for n in children:
            self._child(fn, n, mod, prefix, cls)

    def _child(self, fn, n, mod, prefix, cls):
        if isinstance(n, ast.ClassDef):
            q = f"{prefix}{n.name}"
            for m in n.body:
                if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self._child(fn, m, mod, q + ".", q)
                elif isinstance(m, ast.ClassDef):
                    self._child(fn, m, mod, q + ".", q)
            return
        name = getattr(n, "name", "<lambda>")
        q = f"{prefix}{name}"
        fid = f"{mod.name}:{q}:{n.lineno}:{n.col_offset}"
        f = Fn(fid, n, mod, q, fn, cls)
        f.kind = "lambda" if isinstance(n, ast.Lambda) else "def"
        self.fns[fid] = f
        self.bynode[id(n)] = f
        self._scope(f, [n.body] if isinstance(n, ast.Lambda) else n.body, mod, q + ".", cls)
        # variables of enclosing functions which this one uses
        free = (f.used | f.nonlocals | getattr(f, "free", set())) - f.locals
        p = f.parent
        if p is not None and p.kind != "module":
            cap = free & p.locals
            p.captured |= cap
            p.free = getattr(p, "free", set()) | (free - p.locals)
