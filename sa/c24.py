"""C24: quantities derived from what is read follow their definition.  The expression stored under the name of a derived
quantity is expanded to a polynomial in the entries it is made of (constant ranges unrolled, helpers inlined, names
replaced by what they were last given) and compared, as a polynomial, with the definition."""
from __future__ import annotations

import ast
import itertools
import re
from fractions import Fraction

from .astq import own_nodes

RULES = ["the trace is the sum of the diagonal entries", "the second invariant is the sum of the principal 2x2 minors",
         "a spilling given in per cent is reported as a fraction", "the total population is that of up plus that of down"]
SPIN = re.compile(r"""['"](up|dn|down)_total['"]""")


class Unknown(Exception):
    pass


class Opaque:
    """Something read: known by how it was reached."""

    def __init__(self, base, idx=()):
        self.base, self.idx = base, idx


class Poly(dict):
    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)}) if c else Poly()

    @staticmethod
    def atom(a):
        return Poly({(a,): Fraction(1)})

    def __add__(self, o):
        r = Poly(self)
        for k, v in o.items():
            r[k] = r.get(k, 0) + v
            if not r[k]:
                del r[k]
        return r

    def scale(self, c):
        return Poly({k: v * c for k, v in self.items()}) if c else Poly()

    def __mul__(self, o):
        r = Poly()
        for (a, x), (b, y) in itertools.product(self.items(), o.items()):
            r = r + Poly({tuple(sorted(a + b, key=repr)): x * y})
        if len(r) > 400:
            raise Unknown
        return r

    def value(self):
        if not self:
            return Fraction(0)
        if set(self) == {()}:
            return self[()]
        raise Unknown


def poly(v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, Opaque):
        return Poly.atom(("e", *v.idx[-2:]) if len(v.idx) >= 2 else (v.base, *v.idx))
    raise Unknown


def integer(v):
    n = poly(v).value()
    if n.denominator != 1:
        raise Unknown
    return int(n)


def items(v):
    if isinstance(v, list):
        return v
    if isinstance(v, Opaque) and len(v.idx) < 2:
        return [Opaque(v.base, (*v.idx, i)) for i in range(3)]
    raise Unknown


class Eval:
    def __init__(self, prog, fn, depth=0):
        self.prog, self.fn, self.depth = prog, fn, depth

    def expr(self, e, env):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unknown
        return f(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, bool) or not isinstance(e.value, (int, float)):
            raise Unknown
        return Poly.const(Fraction(str(e.value)))

    def e_Name(self, e, env):
        v = env.get(e.id, Opaque(e.id))
        if v is None:
            raise Unknown
        return v

    def e_Attribute(self, e, env):
        return Opaque(ast.unparse(e))

    def e_NamedExpr(self, e, env):
        env[e.target.id] = v = self.expr(e.value, env)
        return v

    def e_Tuple(self, e, env):
        return [self.expr(x, env) for x in e.elts]

    e_List = e_Tuple

    def e_Subscript(self, e, env):
        if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
            return Opaque(ast.unparse(e))
        b = self.expr(e.value, env)
        if isinstance(e.slice, ast.Slice):
            ix = [None if x is None else integer(self.expr(x, env)) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            return items(b)[slice(*ix)]
        i = integer(self.expr(e.slice, env))
        if isinstance(b, list):
            if not -len(b) <= i < len(b):
                raise Unknown
            return b[i]
        if isinstance(b, Opaque):
            return Opaque(b.base, (*b.idx, i % 3 if i < 0 else i))
        raise Unknown

    def e_UnaryOp(self, e, env):
        v = poly(self.expr(e.operand, env))
        if isinstance(e.op, ast.USub):
            return v.scale(-1)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unknown

    def e_BinOp(self, e, env):
        a, b = self.expr(e.left, env), self.expr(e.right, env)
        return self.binop(e.op, a, b)

    @staticmethod
    def binop(op, a, b):
        if isinstance(op, ast.Add) and isinstance(a, list) and isinstance(b, list):
            return a + b
        a, b = poly(a), poly(b)
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a + b.scale(-1)
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, (ast.Div, ast.Mod, ast.FloorDiv)):
            c = b.value()
            if not c:
                raise Unknown
            if isinstance(op, ast.Div):
                return a.scale(1 / c)
            return Poly.const(a.value() % c if isinstance(op, ast.Mod) else a.value() // c)
        if isinstance(op, ast.Pow):
            n = b.value()
            if n not in (0, 1, 2, 3):
                raise Unknown
            r = Poly.const(1)
            for _ in range(int(n)):
                r = r * a
            return r
        raise Unknown

    def truth(self, e, env):
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(x, env) for x in e.values]
            return all(vs) if isinstance(e.op, ast.And) else any(vs)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not self.truth(e.operand, env)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = poly(self.expr(e.left, env)).value(), poly(self.expr(e.comparators[0], env)).value()
            ops = {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b, ast.Eq: a == b, ast.NotEq: a != b}
            if type(e.ops[0]) in ops:
                return ops[type(e.ops[0])]
        raise Unknown

    def comp(self, e, env):
        out = []

        def go(gens, env):
            if not gens:
                out.append(self.expr(e.elt, env))
                return
            g = gens[0]
            for x in items(self.expr(g.iter, env)):
                inner = dict(env)
                self.bind(g.target, x, inner)
                if all(self.truth(c, inner) for c in g.ifs):
                    go(gens[1:], inner)
        go(e.generators, env)
        return out

    e_ListComp = e_GeneratorExp = comp

    def e_IfExp(self, e, env):
        return self.expr(e.body if self.truth(e.test, env) else e.orelse, env)

    def e_Call(self, e, env):
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise Unknown
        s = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else None
        lib = isinstance(e.func, ast.Name) or isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and \
            e.func.value.id in ("math", "itertools", "typing", "operator", "functools")
        g = [f for f in self.prog.fns.values() if f.kind == "def" and f.node.name == s]
        if isinstance(e.func, ast.Name) and len(g) == 1:
            got = self.inline(g[0], e, env)
            if got is not None:
                return got
        if lib and not e.keywords:
            if s == "cast" and len(e.args) == 2:
                return self.expr(e.args[1], env)
            if s in ("float", "tuple", "list", "iter") and len(e.args) == 1:
                v = self.expr(e.args[0], env)
                return v if s == "float" or isinstance(v, Opaque) else items(v)
            if s in ("abs", "fabs", "round", "int") and e.args:
                # a function of its own of what it is given: equal to no polynomial of it
                return Poly.atom(("e", s, tuple(sorted(poly(self.expr(e.args[0], env)).items(), key=repr))))
            if s in ("range", "sum", "fsum", "prod", "zip", "enumerate", "combinations", "permutations", "product", "mul", "add",
                     "sub", "reversed"):
                a = [self.expr(x, env) for x in e.args]
                if s == "range":
                    return [Poly.const(i) for i in range(*[integer(x) for x in a])]
                if s in ("sum", "fsum", "prod"):
                    r = poly(a[1]) if len(a) > 1 else Poly.const(1 if s == "prod" else 0)
                    for x in items(a[0]):
                        r = r * poly(x) if s == "prod" else r + poly(x)
                    return r
                if s in ("mul", "add", "sub"):
                    return self.binop({"mul": ast.Mult(), "add": ast.Add(), "sub": ast.Sub()}[s], *a)
                if s == "zip":
                    return [list(x) for x in zip(*[items(x) for x in a])]
                if s == "enumerate":
                    return [[Poly.const(i), x] for i, x in enumerate(items(a[0]))]
                if s == "reversed":
                    return items(a[0])[::-1]
                if s == "product":
                    return [list(x) for x in itertools.product(*[items(x) for x in a])]
                return [list(x) for x in getattr(itertools, s)(items(a[0]), integer(a[1]))]
        return Opaque(ast.unparse(e))

    def inline(self, g, e, env):
        if self.depth > 3:
            return None
        a = g.node.args
        if a.vararg or a.kwarg or a.posonlyargs:
            return None
        ps = [x.arg for x in a.args]
        inner = {}
        try:
            for p, x in zip(ps, e.args):
                inner[p] = self.expr(x, env)
            for k in e.keywords:
                inner[k.arg] = self.expr(k.value, env)
            sub = Eval(self.prog, g, self.depth + 1)
            for s in g.node.body:
                if isinstance(s, ast.Return):
                    return sub.expr(s.value, inner) if s.value is not None else None
                sub.stmt(s, inner)
        except Unknown:
            return None
        return None

    # ------------------------------------------------------------ statements
    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            try:
                vs = items(v)
            except Unknown:
                vs = None
            if vs is None or len(vs) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                self.forget(t, env)
                return
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env)

    @staticmethod
    def forget(n, env):
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                env[x.id] = None
            # what is changed in place is not known any more
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                    isinstance(env.get(x.func.value.id), list):
                env[x.func.value.id] = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and \
                    isinstance(env.get(x.value.id), list):
                env[x.value.id] = None

    def stmt(self, s, env):
        try:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                v = self.expr(s.value, env)
                for t in ts:
                    if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                        self.bind(t, v, env)
                    else:
                        self.forget(t, env)
                return
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                env[s.target.id] = self.binop(s.op, self.e_Name(s.target, env), self.expr(s.value, env))
                return
            if isinstance(s, ast.For) and not s.orelse and not any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(s)):
                for x in items(self.expr(s.iter, env)):
                    self.bind(s.target, x, env)
                    for b in s.body:
                        if not isinstance(b, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For)):
                            raise Unknown
                        self.stmt(b, env)
                return
        except Unknown:
            pass
        self.forget(s, env)

    def before(self, path):
        """What names stand for at a statement, from the statements before it in the blocks around it."""
        env = {}
        for body, i in path:
            for s in body[:i]:
                self.stmt(s, env)
            if isinstance(body[i], (ast.For, ast.While)):
                for x in ast.walk(body[i]):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        env[x.id] = Opaque(x.id)
        return env


def stores(fn):
    """(key, value expression, index of it in the value or None, path of blocks) of what is stored under constant keys."""
    def blocks(body, path):
        for i, s in enumerate(body):
            here = [*path, (body, i)]
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            subs = [getattr(s, k) for k in ("body", "orelse", "finalbody") if isinstance(getattr(s, k, None), list)]
            subs += [h.body for h in getattr(s, "handlers", ())] + [c.body for c in getattr(s, "cases", ())]
            if subs:
                for b in subs:
                    yield from blocks(b, here)
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                    for k, x in [(None, t)] if not isinstance(t, ast.Tuple) else list(enumerate(t.elts)):
                        if isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Constant):
                            yield x.slice.value, s.value, k, here, s
            for x in ast.walk(s):
                if isinstance(x, ast.Dict):
                    for k, v in zip(x.keys, x.values):
                        if isinstance(k, ast.Constant):
                            yield k.value, v, None, here, s
                elif isinstance(x, ast.Call):
                    if (isinstance(x.func, ast.Name) and x.func.id == "dict") or \
                            (isinstance(x.func, ast.Attribute) and x.func.attr == "update"):
                        for k in x.keywords:
                            if k.arg:
                                yield k.arg, k.value, None, here, s
                    if isinstance(x.func, ast.Attribute) and x.func.attr == "append" and x.args and \
                            isinstance(x.func.value, ast.Subscript) and isinstance(x.func.value.slice, ast.Constant):
                        yield x.func.value.slice.value, x.args[0], None, here, s
    yield from blocks(fn.node.body, [])


def e(i, j):
    return Poly.atom(("e", i, j))


TRACE = e(0, 0) + e(1, 1) + e(2, 2)
MINORS = Poly()
for _i, _j in ((0, 1), (0, 2), (1, 2)):
    MINORS = MINORS + e(_i, _i) * e(_j, _j) + (e(_i, _j) * e(_j, _i)).scale(-1)
WANT = {"trace": (TRACE, RULES[0]), "ii": (MINORS, RULES[1])}
SCALED = {"charge_spilling": Fraction(1, 100)}
KEYS = (*WANT, *SCALED, "total")


def show(p):
    def mono(m, c):
        t = "*".join("t" + "".join(str(i) for i in a[1:]) if a[0] == "e" else str(a[0]) for a in m)
        return f"{'+' if c > 0 else '-'}{'' if abs(c) == 1 and m else str(abs(c))}{t}"
    return " ".join(mono(m, c) for m, c in sorted(p.items(), key=repr)) or "0"


def check(F, R):
    R.explanation = ("Each expression stored under the name of a derived quantity is expanded to a polynomial in the entries it "
                     "is made of and compared with the definition.")
    R.rules = RULES
    for fn in F.functions():
        if ".parsers." not in fn.mod.name + ".":
            continue
        found = [x for x in stores(fn) if x[0] in KEYS]
        steps = {x.target.slice.value for x in own_nodes(fn) if isinstance(x, ast.AugAssign) and
                 isinstance(x.target, ast.Subscript) and isinstance(x.target.slice, ast.Constant)}
        for key, value, k, path, s in found:
            R.count("expressions found")
            # arrived at in steps: what is stored at one of them is not the quantity itself
            if key in steps or (key in WANT and sum(x[0] == key for x in found) > 1):
                R.count("expressions not decided")
                continue
            ev = Eval(F.prog, fn)
            try:
                v = ev.expr(value, ev.before(path))
                p = poly(v if k is None else items(v)[k])
            except (Unknown, IndexError, TypeError, RecursionError, KeyError):
                R.count("expressions not decided")
                continue
            at = f"{fn.mod.path}:{s.lineno} {fn.qual}"
            R.samples.append(f"{at}: {key} = {show(p)[:200]}")
            if key in SCALED:
                # scaled where it is stored, or as a whole at another place (not decided)
                c = next(iter(p.values())) if len(p) == 1 and len(next(iter(p))) == 1 else 1
                R.count("expressions not decided" if c == 1 else "expressions compared")
                if c not in (1, SCALED[key]):
                    R.violation(f"{fn.qual}:{key}", at, f"a per cent value is reported {c} times as large as printed", RULES[2])
                continue
            if key == "total":
                spins = sorted({m[1] for a in p for x in a for m in SPIN.finditer(str(x))})
                if len(spins) != 2 or any(not SPIN.search(str(x)) for a in p for x in a):
                    R.count("expressions not decided")
                    continue
                R.count("expressions compared")
                if len(p) != 2 or any(c != 1 or len(a) != 1 or a[0][0] == "e" for a, c in p.items()):
                    R.violation(f"{fn.qual}:{key}", at, f"total is {show(p)[:200]}, not the sum of both", RULES[3])
                continue
            want, rule = WANT[key]
            if not p or any(a[0] != "e" for m in p for a in m) or () in p:
                R.count("expressions not decided")
                continue
            R.count("expressions compared")
            if p != want:
                R.violation(f"{fn.qual}:{key}", at, f"{key} is {show(p)[:200]}, not {show(want)}", rule)
