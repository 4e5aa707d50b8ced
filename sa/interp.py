"""Flow-sensitive abstract interpreter for the package's source.

Works on the syntax tree only.  Calls inside the package are analysed in the context of their call
site, everything outside it through the models of models.py.  What is not modelled is "anything",
about which no check reports.
"""
from __future__ import annotations

import ast
import sys

from . import rx
from .program import Program
from .values import (BOOL, BOT, C, Dict, Env, FALSE, HANDLE, Iff, Inst, Iter, List, N, NONE, S, State, TOP, TOP_ATOM, TopObj,
                     TRUE, UNB, atom_refs, av_refs, const, join, joinall, pv, refset, sjoin, subst_av)

sys.setrecursionlimit(60000)

MAXITER = 14
MAXDEPTH = 60


class Args:
    __slots__ = ("pos", "kw", "star", "kwstar")

    def __init__(self, pos=(), kw=None, star=None, kwstar=None):
        self.pos, self.kw, self.star, self.kwstar = list(pos), kw or {}, star, kwstar


class Frame:
    __slots__ = ("fn", "returns", "ctx", "loops", "yields", "tryrec", "live")

    def __init__(self, fn, ctx):
        self.fn, self.ctx = fn, ctx
        self.returns, self.loops, self.tryrec = [], [], []
        self.live = ()


class Loop:
    __slots__ = ("breaks", "conts")

    def __init__(self):
        self.breaks, self.conts = [], []


# ---------------------------------------------------------------- provenance markers
def is_marker(x):
    return isinstance(x, tuple) and x and x[0] == "*"


def map_prov(av, f):
    out = set()
    ch = False
    for a in av:
        k = a[0]
        if k in ("s", "b"):
            p = f(a[1])
            b = a if p is a[1] else (k, p)
        elif k in ("n", "xi"):
            p = f(a[2])
            b = a if p is a[2] else (k, a[1], p)
        elif k == "m":
            p = f(a[2])
            b = a if p is a[2] else (*a[:2], p, *a[3:])
        elif k == "t":
            n = tuple(map_prov(x, f) for x in a[1])
            b = a if n == a[1] else ("t", n)
        elif k == "tu":
            n = map_prov(a[1], f)
            b = a if n is a[1] else ("tu", n, a[2])
        else:
            b = a
        ch = ch or b is not a
        out.add(b)
    return frozenset(out) if ch else av


def _mark(p, f):
    if not isinstance(p, tuple) or len(p) != 3:
        return p
    kind, idx, base = p
    if is_marker(idx):
        return (kind, f(idx), base)
    b = _mark(base, f)
    return p if b is base else (kind, idx, b)


def has_marker(av):
    for a in av:
        k = a[0]
        p = a[1] if k in ("s", "b") else a[2] if k in ("n", "m", "xi") else None
        while isinstance(p, tuple) and len(p) == 3:
            if is_marker(p[1]):
                return True
            p = p[2]
        if k == "t" and any(has_marker(x) for x in a[1]):
            return True
    return False


def at_index(av, i):
    """Element i of a positional sequence whose elements are described by av."""
    def one(m):
        if i is None:
            return "?"
        _s, a, st, n = m
        if i >= 0:
            return a + i * st
        if n is not None:
            return a + (n + i) * st
        return i if (a == 0 and st == 1) or True else "?"
    return map_prov(av, lambda p: _mark(p, one))


def generic(av):
    """Forget positions."""
    return map_prov(av, lambda p: _mark(p, lambda m: "?"))


def shifted(av, lo, step, n):
    def one(m):
        _s, a, st, k = m
        k2 = None if k is None else max(0, k - lo)
        if n is not None:
            k2 = n if k2 is None else min(n, k2)
        return ("*", a + lo * st, st * step, k2)
    return map_prov(av, lambda p: _mark(p, one))


POS = ("*", 0, 1, None)


def nid(n):
    """Number of a syntax node: the same in every process."""
    v = getattr(n, "nid", None)
    if v is None:
        v = (type(n).__name__, getattr(n, "lineno", 0), getattr(n, "col_offset", 0), getattr(n, "end_col_offset", 0))
    return v


class Interp:
    def __init__(self, root="/repo", program=None):
        self.prog = program or Program(root)
        self.gheap = {}
        self.evalset = []
        self.callargs = {}
        self.instream = None
        self.probe = None       # {place: what} of loops which do not end at the end of the input, when looked for
        self.nopen = 0
        self.binwin, self.ranges, self.namespace = False, [], None
        self.probing = False
        self.counters = {}
        self.probed = {}
        self.gorigin = {}
        self.modvars = {}
        self.modstat = {}
        self.clsinfo = {}
        self.events = {}
        self.frames = []
        self.sinks = [[]]
        self.ctxs = {}
        self.tmpn = 0
        self.phase = "init"
        self.run = "load"
        self.depth = 0
        self.unmodelled = {}
        self.hooks = {}
        self.memo, self.nomemo, self.memo_hits = {}, False, 0
        self.stubs, self.stub_calls = {}, []
        self.memoised = set()
        self.recres, self.recursed = {}, set()
        self.ctxpar, self.inside = {}, {}
        self.reclimit = {}
        self.calls_analysed = set()
        self.visited = set()
        self.argaddr = set()
        self.notes = []
        from . import models
        self.models = models.Models(self)

    # ------------------------------------------------------------ events
    def ev(self, kind, node, detail="", **data):
        fn = self.frames[-1].fn if self.frames else None
        where = fn.mod.path if fn else "?"
        key = (kind, where, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), detail)
        e = self.events.get(key)
        if e is None:
            e = self.events[key] = {"kind": kind, "file": where, "line": getattr(node, "lineno", 0),
                                    "fn": fn.qual if fn else "?", "detail": detail, "col": getattr(node, "col_offset", 0),
                                    "chain": " > ".join(f.fn.qual for f in self.frames[-6:]), "n": 0, "node": node}
            e.update(data)
            e["runs"] = set()
        e["n"] += 1
        e["runs"].add(self.run)
        return e

    def note_args(self, fn, nargs, node, st):
        """Known text, patterns and logicals passed at a call of a function of the package."""
        got = {}
        for n, v in nargs.items():
            if not callable(v) and v and len(v) <= 40:
                x = frozenset((a[1], a[2]) if a[0] == "rx" else a[2] for a in v
                              if a[0] == "rx" or (a[0] == "c" and isinstance(a[2], (str, bool, int))))
                if len(x) == len(v):
                    got[n] = x
        cur = self.frames[-1].fn
        if self.instream is not None and any(self.is_main(v, st) for v in nargs.values()
                                                                      if not callable(v)):
            self.instream.setdefault((cur.mod.path, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), cur.qual,
                                      fn.qual, fn.mod.name), set()).add(tuple(sorted(
                                          (k, tuple(sorted(map(repr, x)))) for k, x in got.items())))
        key = (cur.mod.path, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fn.qual)
        old = self.callargs.get(key)
        if old is None:
            self.callargs[key] = got
        else:
            for n in list(old):
                if n in got:
                    old[n] = old[n] | got[n]
                else:
                    del old[n]

    def is_main(self, v, st):
        """Whether a value may be the caller's file, or an object which holds it."""
        for a in v:
            if a[0] == "r":
                ob = self.get(st, a[1])
                if a[1] == HANDLE:
                    return True
                if type(ob) is Inst and any(b == ("r", HANDLE) for x in ob.attrs.values() for b in x):
                    return True
        return False

    def un(self, what, node=None):
        fn = self.frames[-1].fn.qual if self.frames else "?"
        self.unmodelled.setdefault(what, f"{fn}:{getattr(node, 'lineno', 0)}")

    # ------------------------------------------------------------ contexts and heap
    def ctx(self):
        return self.frames[-1].ctx if self.frames else 0

    def subctx(self, key):
        k = (self.ctx(), key)
        v = self.ctxs.get(k)
        if v is None:
            v = self.ctxs[k] = len(self.ctxs) + 1
            self.ctxpar[v] = k[0]
        return v

    def alloc(self, st, node, obj, tag=""):
        addr = (nid(node), self.ctx(), tag, 0)
        new = None
        if self.evalset and self.evalset[-1][0] is node:
            new = self.evalset[-1][1]
            if addr in new and addr in st.heap:
                # another outcome of the same evaluation: one object, either content
                st.heap[addr] = st.heap[addr].join(obj)
                return frozenset([("r", addr)])
            new.add(addr)
        if addr in st.heap:
            old = self.demote(st, addr)
            obj = obj.subst(addr, old)
        st.heap[addr] = obj
        return frozenset([("r", addr)])

    def demote(self, st, addr):
        """An object becomes one of the old ones of its site."""
        old = (*addr[:3], 1)
        ob = st.heap[addr].subst(addr, old)
        prev = st.heap.get(old)
        st.heap[old] = ob if prev is None else prev.subst(addr, old).join(ob)
        del st.heap[addr]
        st.subst(addr, old)
        return old

    def get(self, st, addr):
        o = st.heap.get(addr)
        if o is None:
            o = self.gheap.get(addr)
            if o is None:
                return TopObj()
        return o

    def single(self, addr):
        return not (len(addr) == 4 and addr[3] == 1)

    def put(self, st, addr, obj, node=None, how="write"):
        """Replace an object (strong for single objects, join for summaries)."""
        if self.phase == "run" and (addr in self.gheap or addr in self.argaddr):
            old = self.get(st, addr)
            if old != obj:
                org = "argument" if addr in self.argaddr else self.gorigin.get(addr, ("module", "?"))
                self.ev("mutate", node, str(org), origin=org, how=how)
        if not self.single(addr):
            old = self.get(st, addr)
            obj = old if old == obj else old.join(obj)
        st.heap[addr] = obj

    def remember(self, fid, rv, st):
        """Makes a result of a large recursive function the result of its recursive calls."""
        for k in [k for k in self.memo if k[0] in self.recursed]:
            del self.memo[k]
        s = State([{"%rv": rv}], dict(st.heap))
        keep = self.reach(s)
        s.heap = {k: v for k, v in s.heap.items() if k in keep}
        for k in list(s.heap):
            new = (k[0], k[1], ("rec", k[2]), 1)
            ob = s.heap.pop(k)
            s.heap[new] = ob.subst(k, new)
            s.subst(k, new)
        self.recres[fid] = (s.top()["%rv"], s.heap)

    def reach(self, st, more=()):
        """Addresses reachable from the top frame (and from more); those of module objects count."""
        todo = set(more)
        for v in st.frames[-1].values():
            av_refs(v, todo)
        heap = st.heap
        if self.gheap:
            todo.update(k for k in heap if k in self.gheap)
        seen = set()
        while todo:
            a = todo.pop()
            o = heap.get(a)
            if o is None or a in seen:
                continue
            seen.add(a)
            todo |= refset(o) - seen
        return seen

    def within(self, c, anc):
        """Whether context c lies inside context anc."""
        k = (c, anc)
        v = self.inside.get(k)
        if v is None:
            v = c == anc or (c != 0 and self.within(self.ctxpar.get(c, 0), anc))
            self.inside[k] = v
        return v

    def forget(self, st, ctx):
        """What an earlier activation in this context left becomes old (a summary)."""
        within = self.within
        for a in [k for k in st.heap if k[3] == 0 and isinstance(k[1], int) and within(k[1], ctx)]:
            self.demote(st, a)

    def gc(self, st, force=False):
        if len(st.heap) < st.lim and not force:
            return
        seen = set()
        todo = set(self.frames[-1].live) if self.frames else set()
        for f in st.frames:
            for v in f.values():
                av_refs(v, todo)
        heap = st.heap
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            o = heap.get(a)
            if o is None:
                continue
            todo |= refset(o) - seen
        if len(seen) < len(heap):
            gh = self.gheap
            st.heap = {k: v for k, v in heap.items() if k in seen or k in gh}
        st.lim = max(60, len(st.heap) * 3 // 2)

    def unify(self, a, b):
        """Join of two states; a variable holding one object here and another, made in place of it,
        there (``d = {**d, ...}``) holds one object after it."""
        if a is None or b is None or a.dead or b.dead:
            return sjoin(a, b)
        clean = False
        fa, fb = a.top(), b.top()
        for k in list(fa):
            v, w = fa[k], fb.get(k)
            if v is w or not w or len(v) != 1 or len(w) != 1 or v == w:
                continue
            (x,), (y,) = v, w
            if x[0] != "r" or y[0] != "r":
                continue
            x, y = x[1], y[1]
            if any(not self.single(z) or z in self.gheap or z in self.argaddr for z in (x, y)):
                continue
            p, q = a.heap.get(x), b.heap.get(y)
            if type(p) is not type(q) or type(p) not in (Dict, List) or type(p) is List and p.kind != q.kind:
                continue
            if p == type(p)() or q == type(q)() or type(p) is List and not (p.elems and q.elems):
                continue
            if not clean:
                clean = True
                a, b = a.copy(), b.copy()
                self.gc(a, True)
                self.gc(b, True)
                fa, fb = a.top(), b.top()
            if x not in b.heap:
                b.heap[x] = b.heap[y].subst(y, x)
                del b.heap[y]
                b.subst(y, x)
                fb = b.top()
            elif y not in a.heap:
                a.heap[y] = a.heap[x].subst(x, y)
                del a.heap[x]
                a.subst(x, y)
                fa = a.top()
        return sjoin(a, b)

    # ------------------------------------------------------------ temporaries
    def stash(self, st, av):
        k = f"%t{self.tmpn}"
        self.tmpn += 1
        st.top()[k] = av
        return k

    def unstash(self, st, k):
        return st.top().pop(k, BOT)

    def evs(self, nodes, st):
        base = self.tmpn
        keys = []
        for n in nodes:
            v = self.eval(n, st)
            if st.dead:
                self.tmpn = base
                return None
            keys.append(self.stash(st, v))
        out = [self.unstash(st, k) for k in keys]
        self.tmpn = base
        return out

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modvars:
            return True
        mod = self.prog.mods.get(name)
        if mod is None:
            return False
        parts = name.split(".")
        for i in range(1, len(parts)):
            self.load(".".join(parts[:i]))
        if name in self.modvars:
            return True
        self.modvars[name] = {"__name__": const(name), "__file__": S(), "__doc__": S()}
        saved = (self.frames, self.sinks, self.phase, self.tmpn)
        self.frames, self.sinks, self.phase, self.tmpn = [], [[]], "init", 0
        fn = self.prog.fns[name]
        fr = Frame(fn, self.subctx(("mod", name)))
        self.frames = [fr]
        st = State([{"%mod": const(name)}], {})
        for s in mod.tree.body:
            before = st.copy()
            raises = isinstance(s, ast.Raise)
            self.exec(s, st)
            if st.dead:
                if raises:
                    break
                self.un(f"module statement never completes: {ast.unparse(s)[:60]}", s)
                st = before
                continue
            for a, o in st.heap.items():
                if a not in self.gheap:
                    self.gorigin[a] = ("module", f"{name}:{s.lineno}")
                self.gheap[a] = o
            st.heap = {}
            for k, v in st.top().items():
                if not k.startswith("%"):
                    self.modvars[name][k] = v
        self.frames, self.sinks, self.phase, self.tmpn = saved
        return True

    def load_all(self):
        for m in sorted(self.prog.mods):
            if not m.endswith("__main__"):
                self.load(m)

    def modattr(self, name, attr):
        if self.load(name):
            v = self.modvars[name].get(attr)
            if v is not None:
                return v
            if f"{name}.{attr}" in self.prog.mods:
                self.load(f"{name}.{attr}")
                return frozenset([("mod", f"{name}.{attr}")])
            return TOP
        return self.models.ext(f"{name}.{attr}")

    # ------------------------------------------------------------ variables
    def lookup(self, name, st, node):
        fr = self.frames[-1]
        fn = fr.fn
        if fn.kind == "module":
            v = st.top().get(name)
            if v is None:
                v = self.modvars[fn.mod.name].get(name)
            if v is not None:
                return v
            return self.builtin(name, node)
        if name in fn.locals:
            if name in fn.captured:
                v = self.env_get(st, self.env_addr(st), name)
            else:
                v = st.top().get(name)
            if v is None:
                v = frozenset([UNB])
            if UNB in v:
                self.ev("unbound", node, name, definite=len(v) == 1)
                v = v - {UNB}
                if not v:
                    st.dead = True
            return v
        if name not in fn.globals:
            a = self.parent_env(st)
            while a is not None:
                env = self.get(st, a)
                if not isinstance(env, Env):
                    return TOP
                if name in env.vars:
                    v = env.vars[name]
                    if UNB in v:
                        v = v - {UNB}
                        self.ev("unbound", node, name, definite=not v)
                        if not v:
                            st.dead = True
                    return v
                p = env.vars.get("%parent")
                a = next(iter(p))[1] if p else None
        v = self.modvars.get(fn.mod.name, {}).get(name)
        if v is not None:
            return v
        return self.builtin(name, node)

    def env_addr(self, st):
        v = st.top().get("%env")
        return next(iter(v))[1] if v else None

    def parent_env(self, st):
        v = st.top().get("%penv")
        return next(iter(v))[1] if v else None

    def env_get(self, st, addr, name):
        env = self.get(st, addr)
        return env.vars.get(name) if isinstance(env, Env) else TOP

    def setvar(self, name, av, st, node=None):
        fr = self.frames[-1]
        fn = fr.fn
        if fn.kind == "module":
            st.top()[name] = av
            self.modvars[fn.mod.name][name] = av
            return
        if name in fn.globals:
            self.ev("global_write", node, name)
            return
        if name in fn.captured:
            a = self.env_addr(st)
            env = self.get(st, a).copy()
            env.vars[name] = av
            st.heap[a] = env
            return
        if name in fn.nonlocals:
            a = self.parent_env(st)
            while a is not None:
                env = self.get(st, a)
                if name in env.vars:
                    env = env.copy()
                    env.vars[name] = av
                    st.heap[a] = env
                    return
                p = env.vars.get("%parent")
                a = next(iter(p))[1] if p else None
            return
        st.top()[name] = av

    def getvar_raw(self, name, st):
        fn = self.frames[-1].fn
        if name in fn.captured and fn.kind != "module":
            return self.env_get(st, self.env_addr(st), name)
        return st.top().get(name)

    def builtin(self, name, node):
        import builtins
        if hasattr(builtins, name):
            if name in ("None", "True", "False"):
                return const(getattr(builtins, name))
            if name == "Ellipsis":
                return const(...)
            return frozenset([("x", name)])
        self.ev("noname", node, name)
        return TOP

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """Runs statements; False when the end cannot be reached."""
        for s in stmts:
            if self.exec(s, st) is False or st.dead:
                st.dead = True
                return False
        return True

    def exec(self, s, st):
        self.gc(st)
        if st.dead:
            return False
        self.visited.add(id(s))
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.un("stmt " + type(s).__name__, s)
            return True
        r = m(s, st)
        fr = self.frames[-1]
        if fr.tryrec and not st.dead and r is not False:
            fr.tryrec[-1].append(st.copy())
        return False if (r is False or st.dead) else True

    def x_Expr(self, s, st):
        v = self.eval(s.value, st)
        if self.binwin and not st.dead and any(a[0] == "b" and a[1] == ("F",) for a in v):
            self.models.bintoken("drop", st, s)

    def x_Pass(self, s, st):
        pass

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        if st.dead:
            return False
        for t in s.targets:
            k = self.stash(st, v)
            self.assign(t, v, st, s)
            v = self.unstash(st, k)
            self.tmpn -= 1
            if st.dead:
                return False

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            v = self.eval(s.value, st)
            if st.dead:
                return False
            self.assign(s.target, v, st, s)

    def x_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, t)
        else:
            load = ast.copy_location(
                ast.Attribute(t.value, t.attr, ast.Load()) if isinstance(t, ast.Attribute)
                else ast.Subscript(t.value, t.slice, ast.Load()), t)
            cur = self.eval(load, st)
        if st.dead:
            return False
        k = self.stash(st, cur)
        r = self.eval(s.value, st)
        cur = self.unstash(st, k)
        self.tmpn -= 1
        if st.dead:
            return False
        v = self.models.binop(s.op, cur, r, st, s, inplace=True)
        self.assign(t, v, st, s)

    def x_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        if st.dead:
            return False
        st.top()["%ret"] = v
        self.frames[-1].returns.append(st.copy())
        return False

    def x_If(self, s, st):
        t, f = self.cond(s.test, st)
        a = b = None
        if t is not None:
            a = self.by_case(s, ast.In, s.body, t)
        if f is not None:
            b = self.by_case(s, ast.NotIn, s.orelse, f)
        r = self.unify(a, b)
        if r is None:
            st.dead = True
            return False
        st.set_from(r)

    def by_case(self, s, op, body, st):
        """Runs a branch; where a name is one of a few known keys there, once for each key."""
        e = s.test
        if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and isinstance(e.ops[0], op) and body:
            n = e.left.id
            av = self.getvar_raw(n, st)
            if av is not None and 2 <= len(av) <= 8 and all(x[0] == "c" for x in av) and \
                    any(isinstance(x, ast.Name) and x.id == n for b in body for x in ast.walk(b)):
                r = None
                for x in sorted(av, key=repr):
                    c = st.copy()
                    self.setvar(n, frozenset([x]), c, e)
                    if self.block(body, c):
                        r = sjoin(r, c)
                return r
        return st if self.block(body, st) else None

    def loop_push(self):
        lp = Loop()
        self.frames[-1].loops.append(lp)
        return lp

    def loop_pop(self):
        self.frames[-1].loops.pop()

    def marks(self):
        fr = self.frames[-1]
        return (len(fr.returns), len(self.sinks[-1]), [len(x) for x in fr.tryrec])

    def reset(self, m):
        fr = self.frames[-1]
        del fr.returns[m[0]:]
        del self.sinks[-1][m[1]:]

    def fix(self, st, body):
        """Fixpoint of body(state) -> (state at the end of the step or None, exit state or None)."""
        head = st.copy()
        exits = None
        for it in range(MAXITER):
            m = self.marks()
            cur = head.copy()
            self.gc(cur)
            nxt, exits = body(cur)
            if nxt is None:
                break
            self.gc(nxt)
            new = head.join(nxt)
            if new.same(head):
                break
            head = new
            if it < MAXITER - 1:
                self.reset(m)
        else:
            self.notes.append("no fixpoint in " + self.frames[-1].fn.qual)
        return exits

    def ended(self, st):
        """A copy of a state in which every stream has been read to its end."""
        st = st.copy()
        st.frames = [dict(f) for f in st.frames]
        for a, ob in list(st.heap.items()):
            n = None
            if type(ob) is Iter:
                n = ob.copy()
                n.elems, n.rest = (), BOT
            elif type(ob) is Inst and isinstance(ob.cls, tuple):
                if ob.cls[1] in ("TextIO", "file"):
                    n = ob.copy()
                    n.attrs["ended"] = TRUE
            elif type(ob) is Inst and self.models.find(ob.cls, "__next__"):
                n = ob.copy()
                for k, v in n.attrs.items():
                    if v and all(x[0] in ("t", "tu") for x in v):
                        n.attrs[k] = frozenset([("t", ())])
            if n is not None:
                st.heap[a] = n
        return st

    def probe_while(self, s, st):
        """Whether a loop goes on for ever once its streams are at their end."""
        fr = self.frames[-1]
        key = (fr.fn.mod.path, s.lineno, fr.fn.qual)
        if self.probing or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in s.body for x in ast.walk(b)):
            return
        self.probed[key] = self.probed.get(key, 0) + 1
        self.probing = True
        tr = [list(x) for x in fr.tryrec]
        nret, nloops, tmp = len(fr.returns), len(fr.loops), self.tmpn
        self.sinks.append([])
        lp = self.loop_push()
        again = [None]

        def body(cur):
            lp.breaks.clear()
            lp.conts.clear()
            t, f = self.cond(s.test, cur)
            end = None
            if t is not None and self.block(s.body, t):
                end = t
            for c in lp.conts:
                end = sjoin(end, c)
            again[0] = end
            return end, f
        ex = self.fix(self.ended(st), body)
        sink = self.sinks.pop()
        if ex is None and again[0] is not None and not sink and not lp.breaks and len(fr.returns) == nret:
            self.probe[key] = "does not end once the input has ended"
        del fr.returns[nret:]
        del fr.loops[nloops:]
        for x, y in zip(fr.tryrec, tr):
            x[:] = y
        self.tmpn = tmp
        self.probing = False

    def probe_iter(self, av, st, node):
        fr = self.frames[-1]
        key = (fr.fn.mod.path, getattr(node, "lineno", 0), fr.fn.qual)
        if self.probing:
            return
        self.probed[key] = self.probed.get(key, 0) + 1
        self.probing = True
        tr = [list(x) for x in fr.tryrec]
        self.sinks.append([])
        c = self.ended(st)
        self.models.next_of(av, c, node)
        sink = self.sinks.pop()
        if not c.dead and not sink:
            self.probe[key] = "gives elements for ever once the input has ended"
        for x, y in zip(fr.tryrec, tr):
            x[:] = y
        self.probing = False

    def x_While(self, s, st):
        if self.probe is not None:
            self.probe_while(s, st)
        lp = self.loop_push()

        def body(cur):
            lp.breaks.clear()
            lp.conts.clear()
            t, f = self.cond(s.test, cur)
            end = None
            if t is not None and self.block(s.body, t):
                end = t
            for c in lp.conts:
                end = sjoin(end, c)
            return end, f
        ex = self.fix(st, body)
        brk = list(lp.breaks)
        self.loop_pop()
        if ex is not None and s.orelse:
            if not self.block(s.orelse, ex):
                ex = None
        for b in brk:
            ex = sjoin(ex, b)
        if ex is None:
            st.dead = True
            return False
        st.set_from(ex)

    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        if st.dead:
            return False
        lp = self.loop_push()
        ik = self.stash(st, it)

        def step(cur, el):
            end = None
            few = 2 <= len(el) <= 4 and all(x[0] == "r" for x in el)
            for x in sorted(el, key=repr) if few else (None,):
                c = cur.copy() if few else cur
                self.assign(s.target, frozenset([x]) if few else el, c, s)
                if not c.dead and self.block(s.body, c):
                    end = sjoin(end, c)
            for c in lp.conts:
                end = sjoin(end, c)
            lp.conts.clear()
            return end
        ex = self.iterate(it, st, step, s, lp)
        self.tmpn -= 1
        brk = list(lp.breaks)
        self.loop_pop()
        if ex is not None and s.orelse:
            if not self.block(s.orelse, ex):
                ex = None
        for b in brk:
            ex = sjoin(ex, b)
        if ex is None:
            st.dead = True
            return False
        ex.top().pop(ik, None)
        st.set_from(ex)

    def iterate(self, it, st, step, node, lp=None):
        """Runs step(state, element) over the iterable; gives the state after exhaustion or None."""
        segs = self.models.segments(it, st, node)
        cur = st
        for segn, (kind, av, extra) in enumerate(segs):
            if cur is None:
                return None
            if kind == "one":
                before = None if extra else cur.copy()
                self.models.presence(before, extra, False)
                self.models.presence(cur, extra, True)
                extra = bool(extra)
                saved = self.frames[-1].ctx
                self.frames[-1].ctx = self.subctx(("i", nid(node), extra if extra is not True else 0,
                                                   segn if len(segs) < 70 else 0))
                end = step(cur, av)
                self.frames[-1].ctx = saved
                cur = sjoin(before, end)
            elif kind == "gen":
                kb = list(lp.breaks) if lp else []

                def body(c, av=av, kb=kb):
                    if lp:
                        lp.breaks[:] = kb
                        lp.conts.clear()
                    ex = c.copy()
                    return step(c, av), ex
                cur = self.fix(cur, body)
            else:  # an object with __next__
                if self.probe is not None and cur is not None:
                    self.probe_iter(av, cur, node)
                kb = list(lp.breaks) if lp else []

                def body(c, av=av, kb=kb):
                    if lp:
                        lp.breaks[:] = kb
                        lp.conts.clear()
                    self.sinks.append([])
                    el = self.models.next_of(av, c, node)
                    sink = self.sinks.pop()
                    ex = None
                    for names, s2 in sink:
                        if names is not None and "StopIteration" in names:
                            ex = sjoin(ex, s2)
                        else:
                            self.sinks[-1].append((names, s2))
                    if c.dead:
                        return None, ex
                    return step(c, el), ex
                cur = self.fix(cur, body)
        return cur

    def x_Break(self, s, st):
        self.frames[-1].loops[-1].breaks.append(st.copy())
        return False

    def x_Continue(self, s, st):
        self.frames[-1].loops[-1].conts.append(st.copy())
        return False

    def x_FunctionDef(self, s, st):
        fn = self.prog.bynode[id(s)]
        v = self.mkfn(fn, st, s)
        for d in reversed(s.decorator_list):
            k = self.stash(st, v)
            dv = self.eval(d, st)
            v = self.unstash(st, k)
            self.tmpn -= 1
            if st.dead:
                return False
            v = self.call(dv, Args([v]), st, d)
            if st.dead:
                return False
        self.setvar(s.name, v, st, s)

    x_AsyncFunctionDef = x_FunctionDef

    def mkfn(self, fn, st, node):
        """Function value; its defaults are evaluated here."""
        a = node.args
        pos = [*a.posonlyargs, *a.args]
        defs = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            defs[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defs[p.arg] = d
        env = Env({})
        fr = self.frames[-1]
        if fr.fn.kind != "module":
            pe = st.top().get("%env") or st.top().get("%penv")
            if pe:
                env.vars["%parent"] = pe
        for name, d in defs.items():
            v = self.eval(d, st)
            if st.dead:
                return BOT
            env.vars["%d:" + name] = v
        if not env.vars:
            return frozenset([("fn", fn.fid, None)])
        addr = (nid(node), self.ctx(), "env", 0)
        st.heap[addr] = env
        return frozenset([("fn", fn.fid, addr)])

    def x_ClassDef(self, s, st):
        for d in s.decorator_list:
            self.eval(d, st)
        bases = self.evs([b for b in s.bases if not isinstance(b, ast.Starred)], st)
        if bases is None:
            return False
        fr = self.frames[-1]
        cid = f"{fr.fn.mod.name}.{s.name}"
        from .models import ClsInfo
        ci = ClsInfo(cid, s, fr.fn.mod)
        ci.bases = bases
        self.clsinfo[cid] = ci
        v = frozenset([("cls", cid)])
        self.setvar(s.name, v, st, s)
        self.models.class_body(ci, s, st)
        if st.dead:
            return False

    def x_Import(self, s, st):
        for al in s.names:
            top = al.name.split(".")[0]
            if top == "castep_outputs":
                self.load(al.name)
            name = al.name if al.asname else top
            if top != "castep_outputs":
                self.ev("import", s, al.name)
            self.setvar(al.asname or top, frozenset([("mod", name)]), st, s)

    def x_ImportFrom(self, s, st):
        src = self.prog.resolve_from(self.frames[-1].fn.mod, s)
        if src == "__future__":
            return
        if src in self.prog.mods:
            self.load(src)
        else:
            self.ev("import", s, src)
        for al in s.names:
            if al.name == "*":
                if src in self.modvars:
                    vs = self.modvars[src]
                    names = [k for k in vs if not k.startswith("_")]
                    al_ = vs.get("__all__")
                    if al_:
                        segs = self.models.segments(al_, st, s)
                        if all(k == "one" for k, *_ in segs):
                            names = [c[2] for _k, av, _ in segs for c in av if c[0] == "c"]
                    for n in names:
                        if n in vs:
                            self.setvar(n, vs[n], st, s)
                        else:
                            self.ev("noexport", s, n)
                continue
            self.setvar(al.asname or al.name, self.modattr(src, al.name), st, s)

    def x_Global(self, s, st):
        pass

    x_Nonlocal = x_Global

    def x_Assert(self, s, st):
        t, f = self.cond(s.test, st)
        if f is not None:
            self.sinks[-1].append((frozenset(["AssertionError"]), f.copy()))
        if t is None:
            st.dead = True
            return False
        st.set_from(t)

    def x_Raise(self, s, st):
        names = None
        if s.exc is not None:
            e = s.exc
            f = e.func if isinstance(e, ast.Call) else e
            v = self.eval(f, st)
            if st.dead:
                return False
            names = frozenset(a[1].split(".")[-1] for a in v if a[0] in ("x", "cls", "xi")) or None
            if isinstance(e, ast.Call):
                self.evs([a for a in e.args if not isinstance(a, ast.Starred)], st)
                if st.dead:
                    return False
        self.ev("raise", s, ",".join(sorted(names or ())))
        self.sinks[-1].append((names, st.copy()))
        st.dead = True
        return False

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, frozenset([UNB]), st, s)
            elif isinstance(t, ast.Subscript):
                vs = self.evs([t.value, t.slice], st)
                if vs is None:
                    return False
                self.models.delitem(vs[0], vs[1], st, t)
            elif isinstance(t, ast.Attribute):
                self.eval(t.value, st)

    def x_Try(self, s, st):
        fr = self.frames[-1]
        rec = [st.copy()]
        fr.tryrec.append(rec)
        self.sinks.append([])
        ok = self.block(s.body, st)
        sink = self.sinks.pop()
        fr.tryrec.pop()
        hstate = None
        for r in rec:
            hstate = sjoin(hstate, r)
        outs = []
        handled = []
        for h in s.handlers:
            names = None
            hs = hstate.copy()
            if h.type is not None:
                v = self.eval(h.type, hs)
                names = set()
                for a in v:
                    if a[0] == "t":
                        for x in a[1]:
                            names |= {b[1].split(".")[-1] for b in x if b[0] in ("x", "cls")}
                    elif a[0] in ("x", "cls"):
                        names.add(a[1].split(".")[-1])
            handled.append(names)
            for en, es in sink:
                if names is None or en is None or self.catches(names, en):
                    hs = sjoin(hs, es)
            hs.dead = False
            if h.name:
                self.setvar(h.name, frozenset([("xi", "exception", None)]), hs, h)
            if self.block(h.body, hs):
                outs.append(hs)
        for en, es in sink:
            if not any(n is None or (en is not None and self.catches(n, en)) for n in handled):
                self.sinks[-1].append((en, es))
        if ok:
            if s.orelse:
                ok = self.block(s.orelse, st)
        res = st.copy() if ok else None
        for o in outs:
            res = sjoin(res, o)
        if s.finalbody:
            f = res if res is not None else hstate.copy()
            if not self.block(s.finalbody, f):
                res = None
            elif res is not None:
                res = f
        if res is None:
            st.dead = True
            return False
        st.set_from(res)
        st.dead = False

    x_TryStar = x_Try

    def catches(self, names, raised):
        import builtins
        for r in raised:
            rc = getattr(builtins, r, None)
            for n in names:
                if n == r:
                    return True
                nc = getattr(builtins, n, None)
                if isinstance(rc, type) and isinstance(nc, type) and issubclass(rc, nc):
                    return True
        return False

    def x_With(self, s, st):
        exits = []
        for i in s.items:
            v = self.eval(i.context_expr, st)
            if st.dead:
                return False
            ent = self.models.enter(v, st, i.context_expr)
            exits.append((self.stash(st, v), i.context_expr))
            if st.dead:
                return False
            if i.optional_vars is not None:
                self.assign(i.optional_vars, ent, st, s)
        supp = any(self.models.suppresses(st.top()[k]) for k, _ in exits)
        fr = self.frames[-1]
        rec = [st.copy()]
        if supp:
            fr.tryrec.append(rec)
        self.sinks.append([])
        ok = self.block(s.body, st)
        sink = self.sinks.pop()
        if supp:
            fr.tryrec.pop()
        for en, es in sink:
            for k, n in exits:
                self.models.exit(es.top().get(k, BOT), es, n)
        self.sinks[-1].extend(sink)
        self.tmpn -= len(exits)
        if supp:
            h = None
            for r in rec:
                h = sjoin(h, r)
            res = sjoin(st.copy() if ok else None, h)
            st.set_from(res)
            st.dead = False
            ok = True
        if not ok:
            return False
        for k, n in exits:
            v = st.top().get(k, BOT)
            self.models.exit(v, st, n)
            st.top().pop(k, None)

    def x_Match(self, s, st):
        v = self.eval(s.subject, st)
        if st.dead:
            return False
        outs = None
        k = self.stash(st, v)
        cur = st
        for c in s.cases:
            if cur is None:
                break
            subj = cur.top().get(k, v)
            if not subj:
                break
            t = cur.copy()
            yes, no = self.models.pattern(c.pattern, subj, t)
            if not yes:
                continue
            nxt = cur.copy() if no else None
            if nxt is not None:
                nxt.top()[k] = no
            if isinstance(s.subject, ast.Name):
                self.setvar(s.subject.id, yes, t, s)
                if nxt is not None:
                    self.setvar(s.subject.id, no, nxt, s)
            if c.guard is not None:
                gt, gf = self.cond(c.guard, t)
                if gf is not None:
                    nxt = sjoin(nxt, gf)
                    nxt.top()[k] = v
                t = gt
            if t is not None:
                t.top().pop(k, None)
                if self.block(c.body, t):
                    outs = sjoin(outs, t)
            cur = nxt
        self.tmpn -= 1
        if cur is not None:
            cur.top().pop(k, None)
            outs = sjoin(outs, cur)
        if outs is None:
            st.dead = True
            return False
        st.set_from(outs)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, node):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, node)
        elif isinstance(t, ast.Subscript):
            k = self.stash(st, v)
            vs = self.evs([t.value, t.slice], st)
            v = self.unstash(st, k)
            self.tmpn -= 1
            if vs is None:
                return
            self.models.setitem(vs[0], vs[1], v, st, t)
        elif isinstance(t, ast.Attribute):
            k = self.stash(st, v)
            o = self.eval(t.value, st)
            v = self.unstash(st, k)
            self.tmpn -= 1
            if st.dead:
                return
            self.models.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def unpack(self, t, v, st, node):
        n = len(t.elts)
        star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
        vals = [BOT] * n
        starany = BOT
        exact = None
        ok = False
        for a in v:
            segs = self.models.segments(frozenset([a]), st, node)
            if all(k == "one" and x for k, _e, x in segs):
                els = [e for _k, e, _x in segs]
                if star is None:
                    if len(els) != n:
                        continue
                    for i, e in enumerate(els):
                        vals[i] = join(vals[i], e)
                else:
                    if len(els) < n - 1:
                        continue
                    after = n - star - 1
                    mid = els[star:len(els) - after]
                    for i in range(star):
                        vals[i] = join(vals[i], els[i])
                    for j in range(after):
                        vals[star + 1 + j] = join(vals[star + 1 + j], els[len(els) - after + j])
                    exact = mid if exact is None and not ok else "no"
                    starany = join(starany, joinall(mid))
                ok = True
            else:
                el = BOT
                for k, e, _x in segs:
                    if k == "user":
                        el = join(el, self.models.next_of(e, st, node))
                        st.dead = False
                    else:
                        el = join(el, e)
                for i in range(n):
                    if star is None or i < star:
                        vals[i] = join(vals[i], at_index(el, i))
                    elif i > star:
                        vals[i] = join(vals[i], at_index(el, i - n))
                if star is not None:
                    starany = join(starany, shifted(el, star, 1, None))
                    exact = "no"
                ok = True
        if not ok:
            st.dead = True
            return
        if star is not None:
            if isinstance(exact, list):
                lst = List("list", tuple(exact))
            else:
                lst = List("list", None, starany)
            vals[star] = self.alloc(st, t, lst)
        keys = [self.stash(st, x) for x in vals]
        for e, k in zip(t.elts, keys):
            self.assign(e.value if isinstance(e, ast.Starred) else e, st.top().get(k, BOT), st, node)
            if st.dead:
                break
        for k in keys:
            st.top().pop(k, None)
        self.tmpn -= len(keys)

    # ------------------------------------------------------------ conditions
    def cond(self, e, st):
        """(state where true or None, state where false or None); st is used up."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, other = st, None
            for v in e.values:
                if cur is None:
                    break
                t, f = self.cond(v, cur)
                if isand:
                    cur, other = t, sjoin(other, f)
                else:
                    cur, other = f, sjoin(other, t)
            return (cur, other) if isand else (other, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t, f = self.cond(e.operand, st)
            return f, t
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return self.cond_compare(e, st)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" \
                and len(e.args) == 2 and not e.keywords:
            vs = self.evs(e.args, st)
            if vs is None:
                return None, None
            yes, no = self.models.split_isinstance(vs[0], vs[1], st)
            return self.branch(e.args[0], yes, no, st)
        v = self.eval(e, st)
        if st.dead:
            return None, None
        return self.cond_value(e, v, st)

    def branch(self, target, yes, no, st):
        t = f = None
        if yes:
            t = st.copy() if no else st
            self.refine(target, yes, t)
        if no:
            f = st
            self.refine(target, no, f)
        return t, f

    def cond_value(self, e, v, st, report=True):
        yes, no = set(), set()
        counted = isinstance(e, ast.Name) and self.counter(e.id)
        for a in v:
            r = self.models.truth(a, st, e)
            if a[0] == "n" and a[1] != "bool" and report and not counted:
                self.ev("num_truth", e, str(a[2])[:80], prov=a[2], none=any(x[0] in ("gn",) or x == C(None) for x in v))
            if r is not False:
                yes.add(a)
            if r is not True:
                no.add(a)
        if st.dead:
            return None, None
        # an empty text / known values
        return self.branch(e, frozenset(yes), self.falsy(frozenset(no)), st)

    def counter(self, name):
        """Whether the function counts with this name (its zero says that the count has run out)."""
        fn = self.frames[-1].fn
        c = self.counters.get(fn.fid)
        if c is None:
            c = self.counters[fn.fid] = {n.target.id for n in ast.walk(fn.node)
                                         if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name)}
        return name in c

    def falsy(self, no):
        out = set()
        for a in no:
            if a[0] == "s":
                out.add(C(""))
            else:
                out.add(a)
        return frozenset(out)

    def refine(self, e, av, st):
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, ast.Name):
            fn = self.frames[-1].fn
            if fn.kind == "module" or e.id in fn.locals:
                old = self.getvar_raw(e.id, st)
                self.setvar(e.id, av, st, e)
                if old is not None and old is not av and any(a[0] == "r" and a not in av for a in old):
                    # what it does not refer to here may not be there at all on this path
                    self.gc(st, True)
        elif isinstance(e, ast.Subscript):
            self.models.refine_item(e, av, st)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "group" \
                and len(e.args) == 1 and isinstance(e.func.value, ast.Name):
            self.models.refine_item(ast.Subscript(e.func.value, e.args[0], ast.Load()), av, st)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            o = self.getvar_raw(e.value.id, st)
            if o and e.attr == "lastindex" and av and all(x[0] == "c" and x[1] == "int" for x in av):
                # the last group which took part, took part
                gs = {x[2] for x in av}
                out = frozenset((*a[:3], a[3] | gs, a[4]) if a[0] == "m" and len(gs) == 1 else a for a in o)
                if out != o:
                    self.refine(e.value, out, st)
            elif o and len(o) == 1:
                a = next(iter(o))
                if a[0] == "r" and self.single(a[1]):
                    ob = self.get(st, a[1])
                    if isinstance(ob, Inst) and e.attr in ob.attrs and a[1] in st.heap:
                        ob = ob.copy()
                        ob.attrs[e.attr] = av
                        st.heap[a[1]] = ob

    def cond_compare(self, e, st):
        op, left, right = e.ops[0], e.left, e.comparators[0]
        vs = self.evs([left, right], st)
        if vs is None:
            return None, None
        l, r = vs
        if isinstance(op, (ast.Is, ast.IsNot)):
            yes, no = self.models.cmp_is(l, r, st)
            t, f = self.branch(left, yes, no, st)
        elif isinstance(op, (ast.Eq, ast.NotEq)):
            yes, no = self.models.cmp_eq(l, r, st, e)
            t, f = self.branch(left, yes, no, st)
        elif isinstance(op, (ast.In, ast.NotIn)):
            return self.models.cond_in(e, l, r, st, isinstance(op, ast.NotIn))
        else:
            res = self.models.compare(op, l, r, st, e)
            return self.cond_value(e, res, st)
        if isinstance(op, (ast.IsNot, ast.NotEq)):
            t, f = f, t
        return t, f

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        if st.dead:
            return BOT
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.un("expr " + type(e).__name__, e)
            return TOP
        if not isinstance(e, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute)):
            return m(e, st)
        self.evalset.append((e, set()))
        v = m(e, st)
        self.evalset.pop()
        return v

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        if not st.dead:
            self.assign(e.target, v, st, e)
        return v

    def e_Tuple(self, e, st):
        return self.display(e, st, "t")

    def e_List(self, e, st):
        return self.display(e, st, "list")

    def e_Set(self, e, st):
        return self.display(e, st, "set")

    def display(self, e, st, kind):
        vs = self.evs([x.value if isinstance(x, ast.Starred) else x for x in e.elts], st)
        if vs is None:
            return BOT
        out, exact, rest = [], True, BOT
        allgen = len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred)
        for x, v in zip(e.elts, vs):
            if isinstance(x, ast.Starred):
                for k, av, must in self.models.segments(v, st, x):
                    if k == "one" and must:
                        out.append(av)
                        continue
                    exact = False
                    if k == "user":
                        av = self.models.drain(av, st, x)
                    rest = join(rest, av if allgen else generic(av))
            else:
                out.append(v)
        if not exact:
            rest = joinall([rest, *out])
        if kind == "t":
            return frozenset([("t", tuple(out))]) if exact else frozenset([("tu", rest, None)])
        if kind == "set":
            return self.alloc(st, e, self.models.mkset(out) if exact else List("set", None, rest, None, True))
        return self.alloc(st, e, List(kind, tuple(out)) if exact else List(kind, None, rest))

    def e_Dict(self, e, st):
        nodes = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                nodes.append(k)
            nodes.append(v)
        vs = self.evs(nodes, st)
        if vs is None:
            return BOT
        vs = iter(vs)
        d = Dict({})
        base = None
        for n, k in enumerate(e.keys):
            if k is None:
                v = next(vs)
                self.models.dict_update(d, v, st, e, base)
                if n == 0 and len(v) == 1:
                    base = next((a[1] for a in v if a[0] == "r"), None)
            else:
                kk = next(vs)
                self.models.dict_set(d, kk, next(vs), True)
        return self.alloc(st, e, d)

    def e_JoinedStr(self, e, st):
        parts = self.evs([v.value if isinstance(v, ast.FormattedValue) else v for v in e.values], st)
        if parts is None:
            return BOT
        combos = [""]
        provs = set()
        lit = False
        parts_ = []
        for v, p in zip(e.values, parts):
            spec = ""
            if isinstance(v, ast.FormattedValue):
                if v.format_spec is not None:
                    fs = self.eval(v.format_spec, st)
                    c = next(iter(fs)) if len(fs) == 1 else None
                    spec = c[2] if c and c[0] == "c" else None
                    if st.dead:
                        return BOT
                conv = v.conversion
            else:
                conv = -1
                if next(iter(p))[2].strip():
                    lit = True
            strs = set()
            unknown = False
            for a in p:
                if a[0] == "s":
                    provs.add(a[1])
                s = self.models.fmt(a, spec, conv, st)
                if s is None:
                    unknown = True
                    self.models.str_of(frozenset([a]), st, e)
                else:
                    strs.add(s)
            if self.binwin:
                if isinstance(v, ast.FormattedValue):
                    parts_.append(next((a[2][1] for a in p if a[0] == "n" and a[2] and a[2][0] == "blen"), None))
                elif isinstance(v, ast.Constant):
                    parts_.append(v.value)
            if unknown or combos is None or len(strs) * len(combos) > 24:
                combos = None
            else:
                combos = [c + s for c in combos for s in sorted(strs)]
        if combos is None:
            if len(provs) == 1 and not lit:
                return S(next(iter(provs)))
            if self.binwin and parts_ and isinstance(parts_[0], str):
                return S(("fmt", tuple(parts_)))
            return S()
        return frozenset(C(x) for x in combos)

    def e_FormattedValue(self, e, st):
        return self.e_JoinedStr(ast.JoinedStr([e]), st)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return self.boolval(e, st)
        v = self.eval(e.operand, st)
        if st.dead:
            return BOT
        return self.models.unary(e.op, v, st, e)

    def boolval(self, e, st):
        t, f = self.cond(e, st.copy())
        r = BOT
        if t is not None:
            r = join(r, TRUE)
        if f is not None:
            r = join(r, FALSE)
        s = sjoin(t, f)
        if s is None:
            st.dead = True
            return BOT
        st.set_from(s)
        return r

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        cur = st.copy()
        done = []
        for i, x in enumerate(e.values):
            if isinstance(x, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and i < len(e.values) - 1 and \
                    not (isinstance(x, ast.UnaryOp) and not isinstance(x.op, ast.Not)) and self.pure_bool(x):
                t, f = self.cond(x, cur)
                stop, go = (f, t) if isand else (t, f)
                if stop is not None:
                    stop.top()["%bo"] = FALSE if isand else TRUE
                    done.append(stop)
                cur = go
                if cur is None:
                    break
                continue
            v = self.eval(x, cur)
            if cur.dead:
                cur = None
                break
            if i == len(e.values) - 1:
                cur.top()["%bo"] = v
                done.append(cur)
                break
            cur.top()["%bo"] = v
            t, f = self.cond_value(x, v, cur)
            stop, go = (f, t) if isand else (t, f)
            if stop is not None:
                vv = stop.top()["%bo"]
                keep = frozenset(a for a in vv if self.models.truth(a, stop, x, quiet=True) is not (True if isand else False))
                if isand:
                    keep = self.falsy(keep)
                stop.top()["%bo"] = keep
                done.append(stop)
            cur = go
            if cur is None:
                break
        r = None
        for d in done:
            if d.top().get("%bo"):
                r = sjoin(r, d)
        if r is None:
            st.dead = True
            return BOT
        v = r.top().pop("%bo")
        st.set_from(r)
        return v

    def pure_bool(self, x):
        if isinstance(x, ast.Compare):
            return True
        if isinstance(x, ast.UnaryOp):
            return True
        return all(self.pure_bool(v) for v in x.values)

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            return self.boolval(e, st)
        vs = self.evs([e.left, *e.comparators], st)
        return BOT if vs is None else BOOL

    def e_IfExp(self, e, st):
        t, f = self.cond(e.test, st.copy())
        r = None
        for s, x in ((t, e.body), (f, e.orelse)):
            if s is None:
                continue
            v = self.eval(x, s)
            if s.dead:
                continue
            s.top()["%ie"] = v
            r = sjoin(r, s)
        if r is None:
            st.dead = True
            return BOT
        v = r.top().pop("%ie")
        st.set_from(r)
        return v

    def e_BinOp(self, e, st):
        vs = self.evs([e.left, e.right], st)
        if vs is None:
            return BOT
        return self.models.binop(e.op, vs[0], vs[1], st, e)

    def e_Attribute(self, e, st):
        v = self.eval(e.value, st)
        if st.dead:
            return BOT
        return self.models.getattr(v, e.attr, st, e)

    def e_Subscript(self, e, st):
        vs = self.evs([e.value, e.slice], st)
        if vs is None:
            return BOT
        return self.models.getitem(vs[0], vs[1], st, e)

    def e_Slice(self, e, st):
        vs = self.evs([x if x is not None else ast.Constant(None) for x in (e.lower, e.upper, e.step)], st)
        if vs is None:
            return BOT
        return frozenset([("slice", tuple(vs))])

    def e_Lambda(self, e, st):
        return self.mkfn(self.prog.bynode[id(e)], st, e)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_Await(self, e, st):
        self.eval(e.value, st)
        return TOP

    def e_Yield(self, e, st):
        v = NONE if e.value is None else self.eval(e.value, st)
        if st.dead:
            return BOT
        st.top()["%yield"] = join(st.top().get("%yield", BOT), v)
        return TOP

    def e_YieldFrom(self, e, st):
        v = self.eval(e.value, st)
        if st.dead:
            return BOT
        el = BOT
        for k, av, _m in self.models.segments(v, st, e):
            el = join(el, self.models.drain(av, st, e) if k == "user" else av)
        st.top()["%yield"] = join(st.top().get("%yield", BOT), el)
        return NONE

    # ---- comprehensions
    def e_ListComp(self, e, st):
        els, rest = self.comp(e, [e.elt], st)
        if st.dead:
            return BOT
        if els is not None:
            return self.alloc(st, e, List("list", tuple(x[0] for x in els)))
        return self.alloc(st, e, List("list", None, rest[0], rest[1]))

    def e_SetComp(self, e, st):
        els, rest = self.comp(e, [e.elt], st)
        if st.dead:
            return BOT
        if els is not None:
            return self.alloc(st, e, self.models.mkset([x[0] for x in els]))
        return self.alloc(st, e, List("set", None, rest[0], self.models.setopt(rest[1]), True))

    def e_GeneratorExp(self, e, st):
        els, rest = self.comp(e, [e.elt], st)
        if st.dead:
            return BOT
        if els is not None:
            return self.alloc(st, e, Iter(tuple(x[0] for x in els)))
        return self.alloc(st, e, Iter(None, rest[0], BOT, False, rest[1]))

    def e_DictComp(self, e, st):
        els, rest = self.comp(e, [e.key, e.value], st)
        if st.dead:
            return BOT
        d = Dict({})
        if els is not None:
            for k, v in els:
                self.models.dict_set(d, k, v, True)
        else:
            for k, v, must in rest[2]:
                self.models.dict_set(d, k, v, bool(must))
            d.iff = rest[3] if len(rest) > 3 else None
            if rest[0]:
                self.models.dict_set(d, rest[0], rest[1], False)
        return self.alloc(st, e, d)

    def which(self, cnd, t, f):
        """Presence of what a condition lets through: it may be that of a key in a dictionary."""
        if isinstance(cnd, ast.Compare) and len(cnd.ops) == 1 and isinstance(cnd.ops[0], ast.In) and \
                isinstance(cnd.left, ast.Name) and isinstance(cnd.comparators[0], ast.Name):
            k, d = self.getvar_raw(cnd.left.id, t), self.getvar_raw(cnd.comparators[0].id, t)
            if k is not None and d is not None and len(k) == len(d) == 1:
                (k,), (d,) = k, d
                if k[0] == "c" and d[0] == "r" and self.single(d[1]):
                    p, q = t.heap.get(d[1]), f.heap.get(d[1])
                    if type(p) is Dict and type(q) is Dict and k in p.items and p.items[k][1] and k not in q.items:
                        return Iff((d[1], k))
        return False

    def comp(self, e, outs, st):
        """Elements of a comprehension: (list of element tuples, _) when known one by one, else (None, [AV...])."""
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        base = self.tmpn
        saved = {}
        for n in sorted(names):
            v = self.getvar_raw(n, st)
            if v is not None:
                saved[n] = self.stash(st, v)
        acck = f"%acc{self.tmpn}"
        self.tmpn += 1
        nelk = self.tmpn
        self.tmpn += 100
        info = {"exact": True, "n": 0, "opt": True}
        st.top()[acck] = frozenset([("t", tuple(BOT for _ in outs))])
        slots = []
        keyed = {}

        def leaf(cur, must, general):
            vs = self.evs(outs, cur)
            if vs is None:
                return None
            if len(outs) == 2 and vs[0] and len(vs[0]) <= 4 and all(a[0] == "c" for a in vs[0]) and \
                    isinstance(e, ast.DictComp):
                for a in vs[0]:  # entries of a dictionary, by key
                    k = f"%ky{nelk}_{a!r}"
                    keyed[k] = a
                    cur.top()[k] = join(cur.top().get(k, BOT), vs[1])
                plain = False
            else:
                plain = True
            old = [joinall(x) for x in zip(*[a[1] for a in cur.top().get(acck)])]
            cur.top()[acck] = frozenset([("t", tuple(join(a, b) for a, b in zip(old, vs)))]) if plain \
                else frozenset([("t", tuple(old))])
            if general:
                info["exact"] = info["opt"] = False
            else:
                if not must:
                    info["exact"] = False
                if len(slots) < 400:
                    k = f"%el{nelk}_{len(slots)}"
                    slots.append((k, must))
                    cur.top()[k] = frozenset([("t", tuple(vs))])
                else:
                    info["exact"] = info["opt"] = False
            return cur

        def level(i, cur, must, general):
            if i == len(e.generators):
                return leaf(cur, must, general)
            g = e.generators[i]
            it = self.eval(g.iter, cur)
            if cur.dead:
                return None
            segs = self.models.segments(it, cur, g.iter)
            gen = general or any(k != "one" for k, *_ in segs)
            posn = len(e.generators) == 1 and not g.ifs and len(segs) == 1 and segs[0][0] == "gen"
            if gen:
                info["exact"] = info["opt"] = False

            mustmap = {}

            def step(c, el, g=g):
                elm = mustmap.get("m", True) if must is True else False
                if gen and not posn:
                    el = generic(el)
                self.assign(g.target, el, c, g.iter)
                if c.dead:
                    return None
                out_false = None
                for cnd in g.ifs:
                    t, f = self.cond(cnd, c)
                    out_false = sjoin(out_false, f)
                    if t is None:
                        return out_false
                    if f is not None:
                        elm = self.which(cnd, t, f) if elm is True else False
                    c = t
                r = level(i + 1, c, elm, gen)
                return sjoin(r, out_false)
            ik = self.stash(cur, it)
            # note which elements may be missing
            if not gen:
                res = cur
                for kind, av, m in segs:
                    if res is None:
                        break
                    mustmap["m"] = m
                    b = None if m else res.copy()
                    self.models.presence(b, m, False)
                    self.models.presence(res, m, True)
                    svc = self.frames[-1].ctx
                    self.frames[-1].ctx = self.subctx(("c", nid(g), len(slots)))
                    res = sjoin(b, step(res, av))
                    self.frames[-1].ctx = svc
            else:
                res = self.iterate(it, cur, step, g.iter)
            self.tmpn -= 1
            if res is not None:
                res.top().pop(ik, None)
            return res
        end = level(0, st.copy(), True, False)
        self.tmpn = base
        if end is None:
            st.dead = True
            return None, None
        top = end.top()
        acc = [joinall(x) for x in zip(*[a[1] for a in top.pop(acck)])]
        els = []
        for k, must in slots:
            v = top.pop(k, None)
            if v is None or not v:
                info["exact"] = False
                continue
            v = [a for a in v if a[0] == "t"]
            els.append((*[joinall(x) for x in zip(*[a[1] for a in v])], must))
        bykey = []
        for k, a in keyed.items():
            v = top.pop(k, None)
            if v:
                bykey.append((frozenset([a]), v, False))
        for n in sorted(names):
            if n in saved:
                self.setvar(n, top.pop(saved[n], BOT), end, e)
            else:
                fn = self.frames[-1].fn
                if fn.kind == "module":
                    top.pop(n, None)
                elif n not in fn.captured:
                    top.pop(n, None)
        st.set_from(end)
        if info["exact"]:
            return [x[:-1] for x in els], None
        rest = list(acc)
        if isinstance(e, ast.DictComp):
            if info["opt"]:
                rest[:] = [BOT, BOT, els]
                at = {m[0] if type(m) is Iff and k == frozenset([m[1]]) else None for k, _v, m in els if m is not True}
                rest.append(at.pop() if len(at) == 1 else None)
            else:
                rest.append(bykey)
        else:
            rest.append(tuple(els) if info["opt"] and len(els) <= 60 else None)
        return None, rest

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2:
            return self.boolval(e, st)
        nodes = [e.func]
        for a in e.args:
            nodes.append(a.value if isinstance(a, ast.Starred) else a)
        for k in e.keywords:
            nodes.append(k.value)
        vs = self.evs(nodes, st)
        if vs is None:
            return BOT
        args = Args()
        it = iter(vs[1:])
        for a in e.args:
            v = next(it)
            if isinstance(a, ast.Starred):
                segs = self.models.segments(v, st, a)
                if all(k == "one" and m for k, _v, m in segs) and args.star is None:
                    args.pos.extend(x for _k, x, _m in segs)
                else:
                    el = BOT
                    for k, x, _m in segs:
                        el = join(el, self.models.drain(x, st, a) if k == "user" else x)
                    args.star = join(args.star or BOT, el)
            elif args.star is not None:
                args.star = join(args.star, v)
            else:
                args.pos.append(v)
        for k in e.keywords:
            v = next(it)
            if k.arg is None:
                for a in v:
                    ob = self.get(st, a[1]) if a[0] == "r" else None
                    if isinstance(ob, Dict) and len(v) == 1 and not ob.restk:
                        for kk, (x, must) in ob.items.items():
                            if kk[0] == "c" and isinstance(kk[2], str):
                                args.kw[kk[2]] = x if must else x | {UNB}
                    else:
                        args.kwstar = join(args.kwstar or BOT, ob.allvals() if isinstance(ob, Dict) else TOP)
            else:
                args.kw[k.arg] = v
        return self.call(vs[0], args, st, e)

    def call(self, f, args, st, node):
        """Calls every possible callee and joins."""
        atoms = [a for a in f if a != UNB]
        if not atoms:
            st.dead = True
            return BOT
        if len(atoms) == 1:
            v = self.call1(atoms[0], args, st, node)
            self.after_setdefault(atoms, args, st)
            return v
        r = None
        # keep the arguments alive and renamed with the state
        for a in sorted(atoms, key=repr):
            s = st.copy()
            v = self.call1(a, args, s, node)
            if s.dead:
                continue
            s.top()["%cr"] = v
            r = sjoin(r, s)
        if r is None:
            st.dead = True
            return BOT
        v = r.top().pop("%cr")
        st.set_from(r)
        self.after_setdefault(atoms, args, st)
        return v

    def after_setdefault(self, atoms, args, st):
        if args.pos and not st.dead and any(a[0] == "xm" and a[2] == "setdefault" for a in atoms):
            self.models.assume_key([x for a in atoms if a[0] == "xm" for x in a[1]], args.pos[0], st)

    def call1(self, a, args, st, node):
        k = a[0]
        if k == "fn":
            return self.call_fn(a, args, st, node)
        if k == "bm":
            return self.call_fn(a[2], Args([frozenset([a[1]]), *args.pos], args.kw, args.star, args.kwstar), st, node)
        return self.models.call(a, args, st, node)

    def call_fn(self, a, args, st, node):
        fn = self.prog.fns[a[1]]
        hook = self.hooks.get(fn.qual)
        if hook is not None:
            r = hook(self, fn, args, st, node)
            if r is not None:
                return r
        if fn.fid in self.stubs:
            self.stub_calls.append((fn.fid, args, node))
            return self.stubs[fn.fid]
        active = sum(1 for f in self.frames if f.fn is fn)
        if active >= (self.reclimit.get(fn.qual) or fn.depth_limit()) or len(self.frames) > MAXDEPTH:
            # the innermost activation of a recursive function stands for those which do not recurse
            self.ev("recursion", node, fn.qual)
            self.recursed.update(f.fn.fid for f in self.frames)
            known = self.recres.get(fn.fid)
            if known is not None:
                for k, v in known[1].items():
                    w = st.heap.get(k)
                    st.heap[k] = v if w is None or w is v else w.join(v)
                return known[0]
            st.dead = True
            return BOT
        self.calls_analysed.add((fn.fid))
        ctx = self.subctx(("f", nid(node), fn.fid))
        top = {}
        env = self.get(st, a[2]) if a[2] is not None else None
        if isinstance(env, Env) and "%parent" in env.vars:
            top["%penv"] = env.vars["%parent"]
        fr = Frame(fn, ctx)
        nargs = self.bind(fn, env, args, st, node)
        if nargs is None:
            self.ev("badcall", node, fn.qual)
            st.dead = True
            return BOT
        self.note_args(fn, nargs, node, st)
        self.forget(st, ctx)
        outer = st.frames
        st.frames = [{}, top]
        self.frames.append(fr)
        if fn.captured:
            addr = (nid(fn.node), ctx, "locals", 0)
            ev = Env({})
            if "%penv" in top:
                ev.vars["%parent"] = top["%penv"]
            st.heap[addr] = ev
            top["%env"] = frozenset([("r", addr)])
        saved_tmp = self.tmpn
        self.tmpn = 0
        # tuples for *args and dicts for **kwargs are made in the new context
        for n, v in nargs.items():
            if callable(v):
                v = v(st)
            self.setvar(n, v, st, node)
        # the function only sees what its arguments reach
        whole = st.heap
        fr.live = live = self.reach(st)
        if self.binwin and HANDLE in whole:
            live = fr.live = {*live, HANDLE}
        st.heap = {k: v for k, v in whole.items() if k in live}
        mkey = (fn.fid, ctx, self.phase)
        known = self.memo.setdefault(mkey, [])
        hit = None
        if not self.nomemo:
            for m in known:
                if m[0].same(st):
                    hit = m
                    break
        if hit is None:
            entry = st.copy()
            entry.frames = [{}, dict(st.frames[-1])]
            self.sinks.append([])
            try:
                if fn.kind == "lambda":
                    v = self.eval(fn.node.body, st)
                    if not st.dead:
                        st.top()["%ret"] = v
                        fr.returns.append(st.copy())
                elif self.block(fn.node.body, st):
                    st.top()["%ret"] = NONE
                    fr.returns.append(st.copy())
                r = None
                for s in fr.returns:
                    r = sjoin(r, s)
                rv = BOT
                if r is not None:
                    rv = r.top().get("%ret", BOT)
                    if fn.is_gen:
                        y = r.top().get("%yield", BOT)
                        rv = self.alloc(r, fn.node, Iter(None, y) if y else Iter(()))
                    r.frames = [{"%rv": rv}]
                    keep = self.reach(r, live)
                    r.heap = {k: v for k, v in r.heap.items() if k in keep}
            finally:
                self.frames.pop()
                self.tmpn = saved_tmp
                sink = self.sinks.pop()
            sunk = []
            for nm, s2 in sink:
                s2 = s2.copy()
                s2.frames = s2.frames[:1]
                sunk.append((nm, s2))
            hit = (entry, r, rv, sunk)
            known.insert(0, hit)
            del known[6:]
        else:
            self.frames.pop()
            self.tmpn = saved_tmp
            self.memo_hits += 1
        _entry, r, rv, sunk = hit
        rest = [(k, v) for k, v in whole.items() if k not in live]

        def back(s):
            heap = dict(s.heap)
            for k, v in rest:
                w = heap.get(k)
                heap[k] = v if w is None else w if w is v else w.join(v)
            fs = list(outer)
            fs[-1] = dict(fs[-1])
            return State(fs, heap)
        for nm, s2 in sunk:
            self.sinks[-1].append((nm, back(s2)))
        if r is None:
            st.dead = True
            st.frames, st.heap = outer, whole
            return BOT
        st.set_from(back(r))
        st.dead = False
        if fn.fid in self.memoised:
            kinds = {t for x in rv if x[0] == "r" and (t := type(self.get(st, x[1])).__name__) in ("Dict", "List", "Iter")}
            if kinds:
                self.ev("memo", fn.node, fn.qual, mutable="/".join(sorted(kinds)).lower())
        post = self.hooks.get("after:" + fn.qual)
        if post is not None:
            post(self, fn, args, st, node, rv)
        return rv

    def bind(self, fn, env, args, st, node):
        a = fn.node.args
        out = {}
        pos = [*a.posonlyargs, *a.args]
        kw = dict(args.kw)
        given = list(args.pos)
        ponly = {p.arg for p in a.posonlyargs}
        for p in pos:
            if given:
                out[p.arg] = given.pop(0)
            elif p.arg in kw and p.arg not in ponly:
                out[p.arg] = kw.pop(p.arg)
            elif args.star is not None:
                out[p.arg] = args.star
                d = env.vars.get("%d:" + p.arg) if isinstance(env, Env) else None
                if d is not None:
                    out[p.arg] = join(out[p.arg], d)
        if given and not a.vararg:
            return None
        if a.vararg:
            tup = frozenset([("t", tuple(given))]) if args.star is None else \
                frozenset([("tu", joinall([args.star, *given]), None)])
            out[a.vararg.arg] = tup
        for p in a.kwonlyargs:
            if p.arg in kw:
                out[p.arg] = kw.pop(p.arg)
        if a.kwarg:
            kwd = Dict({C(k): (v - {UNB}, UNB not in v) for k, v in kw.items()})
            if args.kwstar is not None:
                kwd.restk, kwd.restv = S(), args.kwstar
            kn = a.kwarg
            out[a.kwarg.arg] = lambda s: self.alloc(s, kn, kwd)
        elif kw:
            return None
        for p in [*pos, *a.kwonlyargs]:
            v = out.get(p.arg)
            d = env.vars.get("%d:" + p.arg) if isinstance(env, Env) else None
            if v is None:
                if d is not None:
                    out[p.arg] = d
                elif args.kwstar is not None:
                    out[p.arg] = args.kwstar
                else:
                    return None
                if args.kwstar is not None and d is not None:
                    out[p.arg] = join(d, args.kwstar)
            elif UNB in v:
                out[p.arg] = join(v - {UNB}, d or BOT)
        return out
