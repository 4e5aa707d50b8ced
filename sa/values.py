"""Abstract values, heap objects and states of the abstract interpreter.

An abstract value (AV) is a frozenset of atoms.  Atoms are plain tuples:

  ('c', type name, value)     a known constant
  ('s', prov)                 some text;  ('b', prov) some bytes
  ('n', type name, prov)      some number (int, float, complex, bool)
  ('gn', what)                None, because a pattern part took no part in the match
  ('t', (AV, ...))            tuple of known length
  ('tu', AV, prov)            tuple of unknown length
  ('r', addr)                 reference into the abstract heap
  ('fn', fid, env addr)       function of the package
  ('bm', self atom, fn atom)  bound method;   ('xm', self AV, name) method of a builtin value
  ('cls', cid) ('enum', cid, value) ('enumany', cid)
  ('mod', name) ('x', qualified name) ('xi', qualified name, prov)
  ('m', rx, prov, present, absent)   match object;  ('rx', pattern | None, flags)
  ('part', fn AV, (AV, ...), ((name, AV), ...))  functools.partial;  ('slice', (AV, AV, AV))
  ('view', 'items' | 'keys' | 'values', dict AV)  view of a dict
  ('top',)                    anything
  ('unb',)                    name possibly not bound
"""
from __future__ import annotations

TOP_ATOM = ("top",)
TOP = frozenset([TOP_ATOM])
BOT = frozenset()
UNB = ("unb",)
REFKINDS = frozenset(["r", "t", "tu", "fn", "bm", "xm", "part", "slice", "view"])
MAXALT = 40
MAXSTR = 30
MAXINT = 8


def C(v):
    return ("c", type(v).__name__, v)


HANDLE = ("arg", 0, "h", 0)      # the file handle a caller passed in


def const(v):
    return frozenset([("c", type(v).__name__, v)])


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
BOOL = TRUE | FALSE


def S(prov=None):
    return frozenset([("s", prov)])


def N(t, prov=None):
    return frozenset([("n", t, prov)])


def depth(p):
    d = 0
    while isinstance(p, tuple) and p:
        d += 1
        p = p[-1]
    return d


def pv(kind, idx, base):
    """Provenance: selector (kind, idx) applied to base."""
    if base is None:
        return None
    if depth(base) > 6:
        return None
    return (kind, idx, base)


def join(a, b):
    if a is b or not b:
        return a
    if not a:
        return b
    r = a | b
    if len(r) > 8:
        r = squash(r)
    return r


def squash(r):
    if TOP_ATOM in r:
        return TOP | ({UNB} & r)
    nstr = [a for a in r if a[0] == "c" and a[1] == "str"]
    if len(nstr) > MAXSTR:
        r = (r - set(nstr)) | S()
    nint = [a for a in r if a[0] == "c" and a[1] in ("int", "float")]
    if len(nint) > MAXINT:
        r = r - set(nint)
        for a in nint:
            r = r | N(a[1])
    if len(r) > MAXALT:
        out = set()
        for a in r:
            if a[0] == "s":
                out.add(("s", None))
            elif a[0] == "n":
                out.add(("n", a[1], None))
            elif a[0] == "c" and a[1] == "str":
                out.add(("s", None))
            else:
                out.add(a)
        if len(out) > 3 * MAXALT:
            return TOP
        r = frozenset(out)
    return r


def joinall(avs):
    r = BOT
    for a in avs:
        r = join(r, a)
    return r


# ---------------------------------------------------------------- refs
def atom_refs(a, out):
    k = a[0]
    if k == "r":
        out.add(a[1])
    elif k == "t":
        for x in a[1]:
            av_refs(x, out)
    elif k == "tu":
        av_refs(a[1], out)
    elif k == "fn":
        if a[2] is not None:
            out.add(a[2])
    elif k == "bm":
        atom_refs(a[1], out)
        atom_refs(a[2], out)
    elif k == "xm":
        av_refs(a[1], out)
    elif k == "slice":
        for x in a[1]:
            av_refs(x, out)
    elif k == "view":
        av_refs(a[2], out)
    elif k == "part":
        av_refs(a[1], out)
        for x in a[2]:
            av_refs(x, out)
        for _n, x in a[3]:
            av_refs(x, out)


def av_refs(av, out):
    for a in av:
        if a[0] in REFKINDS:
            atom_refs(a, out)


def subst_atom(a, old, new):
    k = a[0]
    if k == "r":
        return ("r", new) if a[1] == old else a
    if k == "t":
        return ("t", tuple(subst_av(x, old, new) for x in a[1]))
    if k == "tu":
        return ("tu", subst_av(a[1], old, new), a[2])
    if k == "fn":
        return ("fn", a[1], new) if a[2] == old else a
    if k == "bm":
        return ("bm", subst_atom(a[1], old, new), subst_atom(a[2], old, new))
    if k == "xm":
        return ("xm", subst_av(a[1], old, new), a[2])
    if k == "view":
        return ("view", a[1], subst_av(a[2], old, new))
    if k == "slice":
        return ("slice", tuple(subst_av(x, old, new) for x in a[1]))
    if k == "part":
        return ("part", subst_av(a[1], old, new), tuple(subst_av(x, old, new) for x in a[2]),
                tuple((n, subst_av(x, old, new)) for n, x in a[3]))
    return a


def subst_av(av, old, new):
    for a in av:
        if a[0] in REFKINDS:
            refs = set()
            atom_refs(a, refs)
            if old in refs:
                return frozenset(subst_atom(x, old, new) for x in av)
    return av


# ---------------------------------------------------------------- heap objects
def refset(ob):
    """Addresses an object refers to (objects are not changed once they are in a heap)."""
    try:
        return ob._rf
    except AttributeError:
        out = set()
        ob.refs(out)
        ob._rf = r = frozenset(out) if out else frozenset()
        return r


class Dict:
    """items: atom -> (AV, must); rest for keys not known; iff: an item which is not surely there is there
    exactly when its key is in the dictionary at this address."""

    __slots__ = ("_rf", "items", "restk", "restv", "factory", "unord", "iff")

    def __init__(self, items=None, restk=BOT, restv=BOT, factory=BOT, unord=False, iff=None):
        self.items = items or {}
        self.iff = iff
        self.restk, self.restv, self.factory, self.unord = restk, restv, factory, unord

    def copy(self):
        return Dict(dict(self.items), self.restk, self.restv, self.factory, self.unord)

    def key(self):
        return (self.items, self.restk, self.restv, self.factory, self.unord, self.iff)

    def __eq__(self, o):
        return type(o) is Dict and self.key() == o.key()

    def join(self, o):
        if type(o) is not Dict:
            return TopObj()
        items = {}
        for k, (v, m) in self.items.items():
            if k in o.items:
                v2, m2 = o.items[k]
                items[k] = (join(v, v2), m and m2)
            else:
                items[k] = (v, False)
        for k, (v, m) in o.items.items():
            if k not in items:
                items[k] = (v, False)
        if len(items) > 400:
            rk, rv = BOT, BOT
            for k, (v, _m) in items.items():
                rk, rv = join(rk, frozenset([k])), join(rv, v)
            return Dict({}, join(rk, join(self.restk, o.restk)), join(rv, join(self.restv, o.restv)),
                        join(self.factory, o.factory), self.unord or o.unord)
        return Dict(items, join(self.restk, o.restk), join(self.restv, o.restv),
                    join(self.factory, o.factory), self.unord or o.unord, self.iff if self.iff == o.iff else None)

    def refs(self, out):
        for k, (v, _m) in self.items.items():
            atom_refs(k, out)
            av_refs(v, out)
        av_refs(self.restk, out)
        av_refs(self.restv, out)
        av_refs(self.factory, out)

    def subst(self, old, new):
        return Dict({subst_atom(k, old, new): (subst_av(v, old, new), m) for k, (v, m) in self.items.items()},
                    subst_av(self.restk, old, new), subst_av(self.restv, old, new),
                    subst_av(self.factory, old, new), self.unord, new if self.iff == old else self.iff)

    def allvals(self):
        r = self.restv
        for v, _m in self.items.values():
            r = join(r, v)
        return r

    def allkeys(self):
        r = self.restk
        if self.items:
            r = join(r, frozenset(self.items))
        return r


class Iff(tuple):
    """(address of a dictionary, key): not surely there, but there exactly when the key is in that dictionary."""

    __slots__ = ()

    def __bool__(self):
        return False


def may(m, n):
    """Presence after a join."""
    return m if type(m) is type(n) and m == n else bool(m) and bool(n)


def opt_join(a, b):
    if a is None or b is None or len(a) != len(b):
        return None
    return tuple((join(x, y), may(m, n)) for (x, m), (y, n) in zip(a, b))


def set_join(a, b):
    if a is None or b is None or any(len(x) != 1 or next(iter(x))[0] != "c" for x, _m in a + b) or len(a) + len(b) > 60:
        return None
    p, q = dict(a), dict(b)
    return tuple((x, may(p[x], q[x]) if x in p and x in q else False) for x in {**p, **q})


def opt_subst(a, old, new):
    return None if a is None else tuple(
        (subst_av(x, old, new), Iff((new, m[1])) if type(m) is Iff and m[0] == old else m) for x, m in a)


class List:
    """kind: list, set, deque.  elems: tuple of AV when the length is known; opt: when it is not, the
    elements in order with whether they are surely there (None: not known)."""

    __slots__ = ("_rf", "kind", "elems", "rest", "opt", "unord")

    def __init__(self, kind="list", elems=(), rest=BOT, opt=None, unord=False):
        self.kind, self.elems, self.rest, self.opt, self.unord = kind, elems, rest, opt, unord

    def copy(self):
        return List(self.kind, self.elems, self.rest, None, self.unord)

    def key(self):
        return (self.kind, self.elems, self.rest, self.opt, self.unord)

    def __eq__(self, o):
        return type(o) is List and self.key() == o.key()

    def any(self):
        return joinall(self.elems) if self.elems is not None else self.rest

    def join(self, o):
        if type(o) is not List or o.kind != self.kind:
            return TopObj()
        u = self.unord or o.unord
        if self.elems is not None and o.elems is not None and len(self.elems) == len(o.elems) and \
                (self.kind != "set" or self.elems == o.elems or max(map(len, (BOT, *self.elems, *o.elems))) > 1):
            return List(self.kind, tuple(join(a, b) for a, b in zip(self.elems, o.elems)), BOT, None, u)
        if self.kind == "set":
            opt = set_join(self.opt if self.elems is None else tuple((e, True) for e in self.elems),
                           o.opt if o.elems is None else tuple((e, True) for e in o.elems))
        else:
            opt = opt_join(self.opt, o.opt)
        return List(self.kind, None, join(self.any(), o.any()), opt, u)

    def refs(self, out):
        if self.elems is not None:
            for e in self.elems:
                av_refs(e, out)
        av_refs(self.rest, out)

    def subst(self, old, new):
        return List(self.kind, None if self.elems is None else tuple(subst_av(e, old, new) for e in self.elems),
                    subst_av(self.rest, old, new), opt_subst(self.opt, old, new), self.unord)


class Inst:
    """Instance of a class of the package (cls = cid) or an external one (cls = ('x', name))."""

    __slots__ = ("_rf", "cls", "attrs")

    def __init__(self, cls, attrs=None):
        self.cls, self.attrs = cls, attrs or {}

    def copy(self):
        return Inst(self.cls, dict(self.attrs))

    def __eq__(self, o):
        return type(o) is Inst and self.cls == o.cls and self.attrs == o.attrs

    def join(self, o):
        if type(o) is not Inst or o.cls != self.cls:
            return TopObj()
        at = dict(self.attrs)
        for k in set(self.attrs) | set(o.attrs):
            a, b = self.attrs.get(k), o.attrs.get(k)
            at[k] = join(a, b) if a is not None and b is not None else (a if a is not None else b) | {UNB}
        return Inst(self.cls, at)

    def refs(self, out):
        for v in self.attrs.values():
            av_refs(v, out)

    def subst(self, old, new):
        return Inst(self.cls, {k: subst_av(v, old, new) for k, v in self.attrs.items()})


class Iter:
    """Iterator over given elements (elems: exact sequence or None)."""

    __slots__ = ("_rf", "elems", "rest", "src", "unord", "opt")

    def __init__(self, elems=None, rest=BOT, src=BOT, unord=False, opt=None):
        self.elems, self.rest, self.src, self.unord, self.opt = elems, rest, src, unord, opt

    def copy(self):
        return Iter(self.elems, self.rest, self.src, self.unord)

    def any(self):
        return joinall(self.elems) if self.elems is not None else self.rest

    def __eq__(self, o):
        return type(o) is Iter and \
            (self.elems, self.rest, self.src, self.unord, self.opt) == (o.elems, o.rest, o.src, o.unord, o.opt)

    def join(self, o):
        if type(o) is not Iter:
            return TopObj()
        u = self.unord or o.unord
        if self.elems is not None and o.elems is not None and len(self.elems) == len(o.elems):
            return Iter(tuple(join(a, b) for a, b in zip(self.elems, o.elems)), BOT, join(self.src, o.src), u)
        return Iter(None, join(self.any(), o.any()), join(self.src, o.src), u, opt_join(self.opt, o.opt))

    def refs(self, out):
        if self.elems is not None:
            for e in self.elems:
                av_refs(e, out)
        av_refs(self.rest, out)
        av_refs(self.src, out)

    def subst(self, old, new):
        return Iter(None if self.elems is None else tuple(subst_av(e, old, new) for e in self.elems),
                    subst_av(self.rest, old, new), subst_av(self.src, old, new), self.unord, opt_subst(self.opt, old, new))


class Env:
    """Variables of a function which nested functions capture."""

    __slots__ = ("_rf", "vars")

    def __init__(self, vars=None):
        self.vars = vars or {}

    def copy(self):
        return Env(dict(self.vars))

    def __eq__(self, o):
        return type(o) is Env and self.vars == o.vars

    def join(self, o):
        if type(o) is not Env:
            return TopObj()
        return Env({k: join(self.vars.get(k, frozenset([UNB])), o.vars.get(k, frozenset([UNB])))
                    for k in set(self.vars) | set(o.vars)})

    def refs(self, out):
        for v in self.vars.values():
            av_refs(v, out)

    def subst(self, old, new):
        return Env({k: subst_av(v, old, new) for k, v in self.vars.items()})


class TopObj:
    __slots__ = ("_rf",)

    def copy(self):
        return self

    def __eq__(self, o):
        return type(o) is TopObj

    def join(self, o):
        return self

    def refs(self, out):
        pass

    def subst(self, old, new):
        return self


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("frames", "heap", "dead", "lim")

    def __init__(self, frames=None, heap=None, lim=60):
        self.dead, self.lim = False, lim
        self.frames = frames if frames is not None else [{}]
        self.heap = heap if heap is not None else {}

    def copy(self):
        fr = list(self.frames)
        fr[-1] = dict(fr[-1])
        return State(fr, dict(self.heap), self.lim)

    def set_from(self, o):
        self.frames, self.heap, self.dead, self.lim = o.frames, o.heap, o.dead, o.lim

    def top(self):
        return self.frames[-1]

    def same(self, o):
        if len(self.frames) != len(o.frames):
            return False
        for a, b in zip(self.frames, o.frames):
            if a is not b and a != b:
                return False
        if self.heap.keys() != o.heap.keys():
            return False
        for k, v in self.heap.items():
            w = o.heap[k]
            if v is not w and v != w:
                return False
        return True

    def join(self, o):
        """New state; objects present on one side only are kept."""
        if o.dead:
            return self
        if self.dead:
            return o
        n = min(len(self.frames), len(o.frames))
        fr = []
        for a, b in zip(self.frames[:n], o.frames[:n]):
            if a is b:
                fr.append(a)
                continue
            f = dict(a)
            for k, v in b.items():
                w = f.get(k)
                if w is None:
                    f[k] = v if k[0] == "%" else v | {UNB}
                elif w is not v:
                    f[k] = join(w, v)
            for k in a:
                if k not in b and k[0] != "%":
                    f[k] = f[k] | {UNB}
            fr.append(f)
        fr[-1] = dict(fr[-1])
        heap = dict(self.heap)
        for k, v in o.heap.items():
            w = heap.get(k)
            if w is None:
                heap[k] = v
            elif w is not v and w != v:
                heap[k] = w.join(v)
        return State(fr, heap, max(self.lim, o.lim))

    def subst(self, old, new):
        for i, f in enumerate(self.frames):
            ch = {}
            for k, v in f.items():
                w = subst_av(v, old, new)
                if w is not v:
                    ch[k] = w
            if ch:
                g = dict(f)
                g.update(ch)
                self.frames[i] = g
        for k, ob in list(self.heap.items()):
            if old in refset(ob):
                self.heap[k] = ob.subst(old, new)


def sjoin(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a.join(b)
