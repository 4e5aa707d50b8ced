"""C06: every loop over the input makes progress."""
from __future__ import annotations

import ast
import multiprocessing as mp
import time

from .astq import Names, own_nodes, where
from .engine import PKG, Engine
from .interp import Args
from .report import Incomplete
from .models import consts
from .values import HANDLE, Inst, const

RULES = ["no pass of a loop over the input puts back the line it started with and goes on",
         "no loop goes on for ever once the input has ended",
         "every pass of a while loop changes what its condition looks at, or moves forward in the input",
         "a section is not handed to the function reading it with the line which made it a section still in it",
         "putting a line back moves back by the line last read, never forward, never further"]
FW = f"{PKG}.utilities.filewrapper"
WRAP = {"enumerate", "iter", "filter", "map", "zip", "reversed", "islice", "takewhile", "dropwhile", "chain"}
LIMIT = 400


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return f"{b}.{e.attr}" if b else None
    return None


def short(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


def streams_of(e):
    """Names an iterated expression takes its elements from."""
    d = dotted(e)
    if d:
        return [d]
    if isinstance(e, ast.NamedExpr):
        return [e.target.id, *streams_of(e.value)]
    if isinstance(e, ast.Call) and short(e.func) in WRAP and short(e.func) != "chain":
        return [d for a in e.args for d in streams_of(a)]
    return []


class Walk:
    """Lower bounds of how far the streams have moved, along the paths of a piece of code.

    A state is a frozenset of items: ("p", stream, n) how many lines it has moved at least, ("f", test, bool) decisions taken,
    ("w", name) sections still holding their first line, ("c", name) names changed."""

    def __init__(self, A, fn):
        self.A, self.fn = A, fn
        self.rec = []
        self.lost = False

    # ---- states
    @staticmethod
    def p(st, s):
        return next((x[2] for x in st if x[0] == "p" and x[1] == s), 0)

    def move(self, sts, s, n):
        out = set()
        for st in sts:
            k = max(-2, min(2, self.p(st, s) + n))
            out.add(frozenset([x for x in st if not (x[0] == "p" and x[1] == s) and not (x[0] == "w" and x[1] == s)]
                              + [("p", s, k)]))
        return out

    def used(self, sts, s):
        return {frozenset(x for x in st if not (x[0] == "w" and x[1] == s)) for st in sts}

    def set(self, sts, name, truth=None, whole=None):
        out = set()
        for st in sts:
            keep = [x for x in st if not (x[0] == "f" and name in x[3]) and not (x[0] in "pw" and (
                x[1] == name or x[1].startswith(name + ".")))]
            keep.append(("c", name))
            if truth is not None:
                keep.append(("f", name, truth, (name,)))
            if whole and ("c", whole) not in st:
                keep.append(("w", name, whole))
            out.add(frozenset(keep))
        return out

    def cap(self, sts):
        if len(sts) > LIMIT:
            self.lost = True
            sts = {frozenset(x for x in st if x[0] != "f") for st in sts}
        return sts

    # ---- expressions
    def calls(self, e, sts):
        """Effects of the calls of an expression, in the order they are carried out."""
        if e is None or not sts:
            return sts
        if isinstance(e, ast.Lambda):
            return sts
        if isinstance(e, ast.BoolOp):
            sts = self.calls(e.values[0], sts)
            return sts | self.calls_all(e.values[1:], sts)
        if isinstance(e, ast.IfExp):
            t, f = self.test(e.test, sts)
            return self.calls(e.body, t) | self.calls(e.orelse, f)
        if isinstance(e, ast.NamedExpr):
            sts = self.calls(e.value, sts)
            return self.set(sts, e.target.id, None, self.whole(e.value))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return self.calls(e.generators[0].iter, sts)
        if isinstance(e, ast.Call):
            sts = self.calls(e.func, sts)
            sts = self.calls_all([*e.args, *[k.value for k in e.keywords]], sts)
            return self.call(e, sts)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                sts = self.calls(c, sts)
            elif isinstance(c, ast.keyword):
                sts = self.calls(c.value, sts)
        return sts

    def calls_all(self, es, sts):
        for e in es:
            sts = self.calls(e, sts)
        return sts

    def whole(self, e):
        if isinstance(e, ast.Call) and short(e.func) == "from_re":
            a = e.args[0] if e.args else next((k.value for k in e.keywords if k.arg == "init_line"), None)
            if isinstance(a, ast.Name):
                return a.id
        return None

    def stream_arg(self, e):
        """The stream Block.from_re and Block.get_lines read."""
        k = 1 if short(e.func) == "from_re" else 0
        a = e.args[k] if len(e.args) > k else next((x.value for x in e.keywords if x.arg == "in_file"), None)
        return dotted(a) if a is not None else None

    def call(self, e, sts):
        s = short(e.func)
        if s == "next" and isinstance(e.func, ast.Name) and e.args:
            for d in streams_of(e.args[0]):
                sts = self.move(sts, d, 1)      # (at the end, putting back is undone too)
            return sts
        if s in ("__next__", "readline") and isinstance(e.func, ast.Attribute):
            d = dotted(e.func.value)
            return self.move(sts, d, 1) if d else sts
        if s in ("from_re", "get_lines"):
            d = self.stream_arg(e)
            return self.move(sts, d, 1) if d else sts
        if s == "rewind" and isinstance(e.func, ast.Attribute):
            d = dotted(e.func.value)
            n = 1
            if e.args:
                n = e.args[0].value if isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, int) else 1
            return self.move(sts, d, -n) if d else sts
        if isinstance(e.func, ast.Attribute):
            d = dotted(e.func.value)
            if d:
                sts = self.used(sts, d)
                if d in self.A.tested:
                    sts = {st | {("c", d)} for st in sts}
        for g in self.A.target(e, self.fn):
            if g is self.A.owner:
                for a in e.args:
                    d = dotted(a)
                    bad = d and [x for st in sts for x in st if x[0] == "w" and x[1] == d]
                    if bad:
                        self.rec.append((e, d))
            ps = [a.arg for a in (*g.node.args.posonlyargs, *g.node.args.args)]
            if g.cls is not None and ps and ps[0] in ("self", "cls") and isinstance(e.func, ast.Attribute):
                d = dotted(e.func.value)
                for k, n in self.A.summary(g).items():
                    if d and k.startswith(ps[0] + ".") and n:
                        sts = self.move(sts, d + k[len(ps[0]):], n)
                ps = ps[1:]
            got = dict(zip(ps, e.args))
            got.update({k.arg: k.value for k in e.keywords if k.arg})
            sm = self.A.summary(g)
            for q, a in got.items():
                d = dotted(a)
                if d:
                    sts = self.move(sts, d, sm[q]) if sm.get(q) else self.used(sts, d)
            break
        else:
            for a in e.args:
                d = dotted(a)
                if d:
                    sts = self.used(sts, d)
        return sts

    # ---- conditions
    def test(self, e, sts):
        if not sts:
            return set(), set()
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.test(e.operand, sts)
            return f, t
        if isinstance(e, ast.BoolOp):
            t, f = self.test(e.values[0], sts)
            for v in e.values[1:]:
                if isinstance(e.op, ast.And):
                    t, f2 = self.test(v, t)
                    f = f | f2
                else:
                    t2, f = self.test(v, f)
                    t = t | t2
            return t, f
        if isinstance(e, ast.Constant):
            return (sts, set()) if e.value else (set(), sts)
        call = e.value if isinstance(e, ast.NamedExpr) else e
        if isinstance(call, ast.Call) and short(call.func) == "from_re":
            d = self.stream_arg(call)
            sts = self.calls_all([*call.args, *[k.value for k in call.keywords]], sts)
            t, f = (self.move(sts, d, 1) if d else sts), sts
            if isinstance(e, ast.NamedExpr):
                t, f = self.set(t, e.target.id, None, self.whole(call)), self.set(f, e.target.id)
            return t, f
        sts = self.calls(e, sts)
        key = ast.unparse(e.target if isinstance(e, ast.NamedExpr) else e)
        names = tuple(sorted({n.id for n in ast.walk(e) if isinstance(n, ast.Name)}))
        pure = not any(isinstance(n, ast.Call) and short(n.func) in ("next", "readline") for n in ast.walk(e))
        t, f = set(), set()
        for st in sts:
            known = next((x[2] for x in st if x[0] == "f" and x[1] == key), None)
            if known is not False:
                t.add(st | {("f", key, True, names)} if pure and known is None and key in self.A.again else st)
            if known is not True:
                f.add(st | {("f", key, False, names)} if pure and known is None and key in self.A.again else st)
        return t, f

    # ---- statements
    def block(self, body, sts):
        """(states at the end, at breaks, at continues, at returns)"""
        br, co, re = set(), set(), set()
        for s in body:
            if not sts:
                break
            sts, b, c, r = self.stmt(s, self.cap(sts))
            br |= b
            co |= c
            re |= r
        return sts, br, co, re

    def assign(self, t, sts, truth=None, whole=None):
        if isinstance(t, ast.Name):
            return self.set(sts, t.id, truth, whole)
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                sts = self.assign(x, sts)
        elif isinstance(t, ast.Starred):
            sts = self.assign(t.value, sts)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            d = dotted(t if isinstance(t, ast.Attribute) else t.value)
            if d:
                sts = {st | {("c", d), ("c", d.split(".")[0])} for st in sts}
        return sts

    def stmt(self, s, sts):
        no = set()
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            sts = self.calls(s.value, sts) if s.value is not None else sts
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                truth = bool(s.value.value) if isinstance(s.value, ast.Constant) and not isinstance(s, ast.AugAssign) else None
                sts = self.assign(t, sts, truth, self.whole(s.value) if s.value is not None else None)
            return sts, no, no, no
        if isinstance(s, ast.Expr):
            return self.calls(s.value, sts), no, no, no
        if isinstance(s, ast.If):
            t, f = self.test(s.test, sts)
            a = self.block(s.body, t)
            b = self.block(s.orelse, f)
            return tuple(x | y for x, y in zip(a, b))
        if isinstance(s, ast.Return):
            return no, no, no, self.calls(s.value, sts)
        if isinstance(s, ast.Raise):
            return no, no, no, no
        if isinstance(s, ast.Break):
            return no, sts, no, no
        if isinstance(s, ast.Continue):
            return no, no, sts, no
        if isinstance(s, (ast.For, ast.While)):
            return self.loop(s, sts)
        if isinstance(s, ast.With):
            for w in s.items:
                sts = self.calls(w.context_expr, sts)
                if w.optional_vars is not None:
                    sts = self.assign(w.optional_vars, sts)
            return self.block(s.body, sts)
        if isinstance(s, ast.Try):
            e, b, c, r = self.block(s.body, sts)
            e2, b2, c2, r2 = self.block(s.orelse, e) if s.orelse else (e, no, no, no)
            b, c, r = b | b2, c | c2, r | r2
            for h in s.handlers:      # taken to happen before anything was read, or after the whole body
                e3, b3, c3, r3 = self.block(h.body, sts | e)
                e2, b, c, r = e2 | e3, b | b3, c | c3, r | r3
            if s.finalbody:
                e2, b4, c4, r4 = self.block(s.finalbody, e2)
                b, c, r = b | b4, c | c4, r | r4
            return e2, b, c, r
        if isinstance(s, ast.Match):
            sts = self.calls(s.subject, sts)
            out = [sts, set(), set(), set()]
            for c in s.cases:
                got = self.block(c.body, sts)
                out = [x | y for x, y in zip(out, got)]
            return tuple(out)
        if isinstance(s, ast.Assert):
            return self.calls(s.test, sts), no, no, no
        if isinstance(s, ast.Delete):
            for t in s.targets:
                d = dotted(t.value if isinstance(t, ast.Subscript) else t)
                if d:
                    sts = {st | {("c", d)} for st in sts}
            return sts, no, no, no
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.set(sts, s.name), no, no, no
        return sts, no, no, no

    def loop(self, s, sts):
        """A loop within: not entered, or left by a break or by its end after any number of passes (each making progress)."""
        if isinstance(s, ast.For):
            sts = self.calls(s.iter, sts)
            here = sts
            for d in streams_of(s.iter):
                here = self.move(here, d, 1)
            here = self.assign(s.target, here)
            out = sts
        else:
            here, out = self.test(s.test, sts)
        e, b, c, r = self.block(s.body, here)
        ends = e | c
        changed = frozenset(x for st in ends for x in st if x[0] == "c")
        if isinstance(s, ast.While):
            back, over = self.test(s.test, ends)
            out = out | over
            e2, b2, _c2, r2 = self.block(s.body, back) if back else (set(), set(), set(), set())
            b, r = b | b2, r | r2
        after = set()
        for st in out:       # facts may be changed by the passes
            after.add(frozenset([x for x in st if not (x[0] == "f" and any(y[1] in x[3] for y in changed))]) | changed)
        if s.orelse:
            after, b5, c5, r5 = self.block(s.orelse, after)
            r = r | r5
        return after | b, set(), set(), r


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.names = {m.name: Names(prog, m) for m in prog.mods.values()}
        self.by = {}
        for f in prog.fns.values():
            if f.kind == "def":
                self.by.setdefault(f.node.name, []).append(f)
        self.sums = {}
        self.again, self.tested = set(), set()
        self.owner = None

    def target(self, e, fn):
        s = short(e.func)
        if isinstance(e.func, ast.Name):
            q = self.names[fn.mod.name].name(e.func, fn)
            if q and not q.startswith(PKG):
                return []
            got = [g for g in self.by.get(s or "", ()) if g.mod is fn.mod or (q or "").endswith("." + s)]
            return got if len(got) == 1 else []
        got = self.by.get(s or "", ())
        if isinstance(e.func, ast.Attribute) and dotted(e.func.value) in ("self", "cls"):
            got = [g for g in got if g.cls is not None and g.mod is fn.mod]
            return got if len(got) == 1 else []
        return []

    def summary(self, g):
        """{parameter: least net movement over the ways the function returns}"""
        if g in self.sums:
            return self.sums[g]
        self.sums[g] = {}
        keep = self.again, self.tested, self.owner
        self.prepare(g.node.body)
        w = Walk(self, g)
        e, _b, _c, r = w.block(g.node.body, {frozenset()})
        out = {}
        ends = e | r
        a = g.node.args
        ps = {x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)}
        if ends and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(g)):
            for s in {x[1] for st in ends for x in st if x[0] == "p"}:
                if s.split(".")[0] in ps:
                    out[s] = min(Walk.p(st, s) for st in ends)
        self.again, self.tested, self.owner = keep
        self.sums[g] = out
        return out

    def prepare(self, body):
        seen = {}
        for b in body:
            for n in ast.walk(b):
                tests = []
                if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                    tests.append(n.test)
                while tests:
                    t = tests.pop()
                    if isinstance(t, ast.BoolOp):
                        tests += t.values
                    elif isinstance(t, ast.UnaryOp):
                        tests.append(t.operand)
                    else:
                        k = ast.unparse(t.target if isinstance(t, ast.NamedExpr) else t)
                        seen[k] = seen.get(k, 0) + 1
        self.again = {k for k, n in seen.items() if n > 1}


def loops(F, R, A):
    for f in F.prog.fns.values():
        if f.kind != "def":
            continue
        for n in own_nodes(f):
            if isinstance(n, ast.For):
                ss = streams_of(n.iter)
                if not ss:
                    continue
                if not any(isinstance(x, ast.Call) and (short(x.func) in ("rewind", "seek") or A.target(x, f))
                           for b in n.body for x in ast.walk(b)):
                    R.count("loops which put nothing back")
                    continue
                R.count("loops whose paths are followed")
                A.prepare(n.body)
                A.tested, A.owner = set(), f
                w = Walk(A, f)
                start = {frozenset(("p", s, 1) for s in ss)}
                e, _b, c, _r = w.block(n.body, start)
                for s in ss:
                    if any(Walk.p(st, s) <= 0 for st in e | c):
                        R.violation(f"{f.qual}:for {s}", where(f, n),
                                    f"a pass of this loop can put its own line of '{s}' back and go on, so it never ends", RULES[0])
                for call, d in w.rec:
                    R.violation(f"{f.qual}:recursion {d}", where(f, call),
                                f"the section '{d}' is handed to {f.node.name} itself with its first line, which makes it a "
                                "section again", RULES[3])
            elif isinstance(n, ast.While):
                R.count("while loops")
                A.prepare([n])
                A.tested = {d for x in ast.walk(n.test) if (d := dotted(x))}
                A.owner = f
                w = Walk(A, f)
                t, _f = w.test(n.test, {frozenset()})
                t = {frozenset(x for x in st if x[0] != "f") for st in t}
                e, _b, c, _r = w.block(n.body, t)
                if any(isinstance(x, ast.Call) and short(x.func) not in ("next", "from_re", "get_lines", "len", "bool", "strip",
                                                                         "readline", "startswith", "any", "all")
                       for x in ast.walk(n.test)):
                    continue
                tested = set(A.tested)
                for st in e | c:
                    if not w.test(n.test, {st})[0]:
                        continue
                    moved = any(x[0] == "p" and x[2] > 0 for x in st)
                    back = [x[1] for x in st if x[0] == "p" and x[2] < 0]
                    inner = {x.target.id for x in ast.walk(n.test) if isinstance(x, ast.NamedExpr)}
                    changed = {x[1] for x in st if x[0] == "c"} - inner
                    if (not moved and not changed & tested) or (back and not moved):
                        R.violation(f"{f.qual}:while {ast.unparse(n.test)[:60]}", where(f, n),
                                    "a pass of this loop can leave all its condition looks at as it was", RULES[2])
                        break


# ---------------------------------------------------------------- at the end of the input
def work(task):
    t = time.time()
    kind, arg, root = task
    try:
        E = Engine(root)
        E.I.probe = {}
        if kind == "parser":
            E.run_parser(arg, two=False)
        else:
            for n in E.registry():
                if n in arg:
                    continue
                try:
                    E.run_parser(n)
                except Exception as err:  # noqa: BLE001
                    E.I.notes.append(str(err))
            E.run_rest()
        return E.I.probe, E.I.probed, None, time.time() - t
    except Exception as err:  # noqa: BLE001
        return {}, {}, f"{kind} {arg}: {type(err).__name__} {err}", time.time() - t


def at_end(F, R):
    big = list(F.big)
    tasks = [("parser", n, F.root) for n in big] + [("others", tuple(big), F.root)]
    got, seen, errs = {}, {}, []
    with mp.get_context("fork").Pool(len(tasks)) as pool:
        for a, b, err, _w in pool.map(work, tasks, 1):
            got.update(a)
            seen.update(b)
            if err:
                errs.append(err)
    if len(errs) > 1:
        raise Incomplete("; ".join(errs))
    if errs:
        R.cov["analysis_notes"] = errs
    R.cov["loops evaluated at the end of the input"] = len(seen)
    for path, line, fn in sorted(seen):
        if len(R.samples) < 12:
            R.samples.append(f"{path}:{line} {fn}: left at the end of the input")
    for (path, line, fn), what in got.items():
        R.violation(f"{fn}:at end", f"{path}:{line} {fn}", f"the loop {what}", RULES[1])


# ---------------------------------------------------------------- putting back
def typestate(F, R):
    E, I = F.E, F.I

    def pos(st):
        ob = st.heap.get(HANDLE)
        got = consts(ob.attrs["at"], 1) if type(ob) is Inst and "at" in ob.attrs else None
        return got[0] if got else None

    def fresh(name):
        cls = I.modvars.get(FW, {}).get(name)
        if not cls:
            return None
        st = E.begin(FW)
        st.heap[HANDLE] = Inst(("x", "TextIO"), {"binary": frozenset([("c", "bool", False)]), "at": const(0)})
        node = I.prog.fns[FW].node
        return cls, st, node

    def step(ob, meth, st, node):
        f = I.models.getattr(ob, meth, st, node)
        return None if st.dead else I.call(f, Args([]), st, node)
    for seq, want in (("n", 1), ("nr", 0), ("nn", 2), ("nnr", 1), ("nrn", 1), ("nnrn", 2), ("nnrr", None), ("r", None)):
        got = fresh("FileWrapper")
        if not got:
            return
        cls, st, node = got
        ob = I.call(cls, Args([frozenset([("r", HANDLE)])]), st, node)
        bad = None
        for i, ch in enumerate(seq):
            before = pos(st)
            I.sinks = [[]]
            step(ob, "__next__" if ch == "n" else "rewind", st, node)
            if st.dead:
                break
            now = pos(st)
            if ch == "r" and before is not None and now is not None and now > before:
                bad = "moves forward"
        if st.dead:
            continue
        R.count("sequences of reading and putting back")
        now = pos(st)
        if now is None:
            continue
        if want is not None and now != want:
            bad = f"leaves the file at line {now} where {want} is expected, after {seq.replace('n', 'next ').replace('r', 'rewind ')}"
        if bad:
            f = next((g for g in I.prog.fns.values() if g.qual == "FileWrapper.rewind"), None)
            R.violation("FileWrapper:rewind", where(f, f.node) if f else FW, f"putting a line back {bad}", RULES[4])
    for seq, want in (("n", "a"), ("nn", "b"), ("nrn", "a"), ("nnrn", "b"), ("nnrrn", "a")):
        got = fresh("Block")
        if not got:
            return
        cls, st, node = got
        f = I.models.getattr(cls, "from_iterable", st, node)
        if st.dead:
            return
        ob = I.call(f, Args([frozenset([("t", (const("a"), const("b"), const("c")))])]), st, node)
        r = None
        for ch in seq:
            I.sinks = [[]]
            if not st.dead:
                r = step(ob, "__next__" if ch == "n" else "rewind", st, node)
        if st.dead or not r:
            continue
        R.count("sequences of reading and putting back")
        c = consts(r, 1)
        if c and c[0] != want:
            f = next((g for g in I.prog.fns.values() if g.qual == "Block.rewind"), None)
            R.violation("Block:rewind", where(f, f.node) if f else FW,
                        f"reading a section's lines a, b, c by {seq.replace('n', 'next ').replace('r', 'rewind ')}gives {c[0]}, "
                        f"not {want}", RULES[4])


def check(F, R):
    R.explanation = ("Paths through every loop over a stream are followed with a lower bound of how far it has moved; every "
                     "while loop and every reader is evaluated by abstract interpretation with the input at its end; the "
                     "positions kept by the two readers are evaluated over sequences of reading and putting back.")
    R.rules = RULES
    A = Analysis(F.prog)
    R.count("functions", len([f for f in F.prog.fns.values() if f.kind == "def"]))
    loops(F, R, A)
    typestate(F, R)
    at_end(F, R)
