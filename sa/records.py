"""Records put into a result are their own: a list or mapping which has been put into one record is not filled further and
put into the next one.  A forward dataflow over each function; the fact tracked for a local name is where the object it
stands for has been put since the name was last given a new one."""
from __future__ import annotations

import ast

from .astq import own_nodes

PUT = ("append", "appendleft", "insert")
FILL = ("append", "extend", "insert", "update", "setdefault", "add", "pop", "clear", "remove", "appendleft", "popitem")
FRESH = ("dict", "list", "set", "defaultdict", "OrderedDict", "Counter", "deque")
FILLERS = ("stack_dict", "fix_data_types", "add_aliases")


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        e = e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "setdefault":
        return root(e.func.value)
    return e.id if isinstance(e, ast.Name) else None


def held(e):
    """Names whose objects an expression holds as they are."""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, (ast.Tuple, ast.List)):
        return {n for x in e.elts for n in held(x)}
    if isinstance(e, ast.Dict):
        return {n for x in e.values for n in held(x)}
    return set()


class Flow:
    def __init__(self, fn):
        self.fn = fn
        self.found = {}
        self.names = self.subjects()

    def subjects(self):
        """Local names given fresh mutable objects, and nothing but, which are filled as well."""
        fresh, other, filled = set(), set(), set()
        for x in own_nodes(self.fn):
            if isinstance(x, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for t in ts:
                    if isinstance(t, ast.Name) and x.value is not None:
                        v = x.value
                        new = isinstance(v, (ast.Dict, ast.List, ast.DictComp, ast.ListComp, ast.Set)) or \
                            isinstance(v, ast.Call) and (isinstance(v.func, ast.Name) and v.func.id in FRESH or
                                                         isinstance(v.func, ast.Attribute) and v.func.attr in ("copy", "groupdict"))
                        (fresh if new else other).add(t.id)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        other |= {y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
                    elif isinstance(t, ast.Subscript) and root(t):
                        filled.add(root(t))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in FILL:
                filled.add(root(x.func.value))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in FILLERS and x.args:
                filled.add(root(x.args[0]))
            elif isinstance(x, ast.Global | ast.Nonlocal):
                other |= set(x.names)
        return (fresh - other) & filled

    # ------------------------------------------------------------ statements
    def run(self):
        if self.names:
            self.block(self.fn.node.body, {})
        return self.found

    @staticmethod
    def join(a, b):
        if a is None or b is None:
            return b if a is None else a
        return {k: a.get(k, frozenset()) | b.get(k, frozenset()) for k in a.keys() | b.keys()}

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return st
        if isinstance(s, ast.If):
            st = self.expr(s.test, st)
            yes, no = self.test(s.test, st)
            return self.join(self.block(s.body, yes), self.block(s.orelse, no))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            loops, self.loops = getattr(self, "loops", None), {"break": None, "continue": None}
            st = self.expr(s.iter if not isinstance(s, ast.While) else s.test, st)
            for _ in range(6):
                inner = self.bind(s.target, st) if not isinstance(s, ast.While) else st
                out = self.join(self.block(s.body, inner), self.loops["continue"])
                new = self.join(st, out)
                if new == st:
                    break
                st = new
            out = self.join(self.block(s.orelse, st) if s.orelse else st, self.loops["break"])
            self.loops = loops
            return out
        if isinstance(s, (ast.Break, ast.Continue)):
            k = "break" if isinstance(s, ast.Break) else "continue"
            if getattr(self, "loops", None):
                self.loops[k] = self.join(self.loops[k], st)
            return None
        if isinstance(s, ast.Return | ast.Raise):
            for x in (getattr(s, "value", None), getattr(s, "exc", None)):
                if x is not None:
                    self.expr(x, st)
            return None
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for it in s.items:
                st = self.expr(it.context_expr, st)
                if it.optional_vars is not None:
                    st = self.bind(it.optional_vars, st)
            return self.block(s.body, st)
        if isinstance(s, ast.Try) or type(s).__name__ == "TryStar":
            body = self.block(s.body, st)
            out = self.block(s.orelse, body) if body is not None else None
            for h in s.handlers:
                out = self.join(out, self.block(h.body, self.join(st, body)))
            return self.block(s.finalbody, out) if out is not None else None
        if isinstance(s, ast.Match):
            st = self.expr(s.subject, st)
            out = st
            for c in s.cases:
                i = st
                for x in ast.walk(c.pattern):
                    n = getattr(x, "name", None)
                    if isinstance(n, str):
                        i = self.rebind(n, i)
                out = self.join(out, self.block(c.body, i))
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return st
            st = self.expr(s.value, st)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                if isinstance(t, ast.Subscript) and root(t):
                    for n in held(s.value):
                        st = self.put(n, root(t), s, st)
                else:
                    st = self.bind(t, st)
            return st
        if isinstance(s, ast.AugAssign):
            st = self.expr(s.value, st)
            if isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.Tuple)):
                for n in held(s.value):
                    st = self.put(n, None, s, st)
            return st
        if isinstance(s, ast.Delete):
            for t in s.targets:
                st = self.bind(t, st)
            return st
        for x in ast.iter_child_nodes(s):
            if isinstance(x, ast.expr):
                st = self.expr(x, st)
        return st

    def test(self, e, st):
        """if x: - the object of an x which is empty has been put nowhere worth telling."""
        neg = isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)
        n = e.operand if neg else e
        yes, no = st, st
        if isinstance(n, ast.Name) and n.id in st:
            empty = {**st, n.id: frozenset()}
            yes, no = (empty, st) if neg else (st, empty)
        return yes, no

    def expr(self, e, st):
        for x in ast.walk(e):
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)):
                continue
            if isinstance(x, ast.NamedExpr):
                st = self.rebind(x.target.id, st)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr in PUT and x.args:
                    for n in held(x.args[-1]):
                        st = self.put(n, None, x, st)
                elif x.func.attr == "setdefault" and len(x.args) == 2 and root(x.func.value):
                    for n in held(x.args[1]):
                        st = self.put(n, root(x.func.value), x, st)
        return st

    def bind(self, t, st):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                st = self.rebind(x.id, st)
        return st

    def rebind(self, n, st):
        st = dict(st)
        st.pop(n, None)
        for k, toks in st.items():
            if any(b == n for _l, b, _m in toks):
                st[k] = frozenset((l, b, m or b == n) for l, b, m in toks)
        return st

    def always(self, n, node):
        """Whether some loop around the statement fills the object and never makes a new one."""
        for lo in own_nodes(self.fn):
            if not isinstance(lo, (ast.For, ast.While)) or not any(x is node for b in lo.body for x in ast.walk(b)):
                continue
            inside = [x for b in lo.body for x in ast.walk(b)]
            if isinstance(lo, ast.For):
                inside += list(ast.walk(lo.target))
            if any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, (ast.Store, ast.Del)) for x in inside):
                continue
            if any(self.fills(x, n) for x in inside):
                return True
        return False

    @staticmethod
    def fills(x, n):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
            return root(x) == n
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in FILL:
            return root(x.func.value) == n
        return isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in FILLERS and bool(x.args) and root(x.args[0]) == n

    def put(self, n, base, node, st):
        """base None: into a list; else into a mapping reached from that name."""
        if n not in self.names or n == base:
            return st
        for line, b, moved in sorted(st.get(n, ()), key=str):
            if ((base is None and b is None) or moved) and self.always(n, node):
                self.found.setdefault((n, node.lineno), line)
        return {**st, n: st.get(n, frozenset()) | {(node.lineno, base, False)}}


def check(F, R):
    rule = "what has been put into one record is not put into the next"
    R.rules = [*R.rules, rule]
    for fn in F.prog.fns.values():
        if fn.kind != "def":
            continue
        fl = Flow(fn)
        R.count("records followed", len(fl.names))
        for (n, line), first in sorted(fl.run().items()):
            R.violation(f"{fn.qual}:{n}:shared", f"{fn.mod.path}:{line} {fn.qual}",
                        f"'{n}' is put into a result again (first in line {first}) without having been given a new object: both entries are one", rule)
