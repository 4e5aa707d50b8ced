"""Queries over the syntax trees: names through imports, call sites, enclosing constructs."""
from __future__ import annotations

import ast
import builtins


class Names:
    """Resolves dotted expressions of one module to external qualified names."""

    def __init__(self, prog, mod):
        self.prog, self.mod = prog, mod
        self.alias = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.alias[a.asname] = a.name
                    else:
                        self.alias[a.name.split(".")[0]] = a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom):
                m = prog.resolve_from(mod, n)
                for a in n.names:
                    if a.name != "*":
                        self.alias[a.asname or a.name] = f"{m}.{a.name}"

    def name(self, e, fn=None):
        if isinstance(e, ast.Attribute):
            b = self.name(e.value, fn)
            return f"{b}.{e.attr}" if b else None
        if isinstance(e, ast.Name):
            f = fn
            while f is not None and f.kind != "module":
                if e.id in f.locals:
                    if e.id in self.alias and not any(
                            isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)
                            for n in ast.walk(f.node)):
                        break
                    return None
                f = f.parent
            if e.id in self.alias:
                return self.alias[e.id]
            if f is not None and f.kind == "module" and e.id in f.locals:
                return f"{self.mod.name}.{e.id}"
            if hasattr(builtins, e.id):
                return e.id
        return None


def own_nodes(fn):
    """Nodes of a function without those of functions inside it."""
    body = fn.node.body
    stack = list(body) if isinstance(body, list) else [body]
    if fn.kind != "module":
        a = fn.node.args
        stack += [d for d in (*a.defaults, *a.kw_defaults) if d is not None]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        if isinstance(n, ast.ClassDef):
            stack += [x for x in n.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]
            continue
        stack.extend(ast.iter_child_nodes(n))


def parents(tree):
    out = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def where(fn, node):
    return f"{fn.mod.path}:{getattr(node, 'lineno', 0)} {fn.qual}"
