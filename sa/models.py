"""Models of everything the package uses from outside it: builtins, methods of builtin values, re, typing ..."""
from __future__ import annotations

import ast
import collections
import itertools
import logging
import math
import pathlib
import re
import string
from fractions import Fraction

from . import rx
from .interp import Args, POS, nid, at_index, generic, map_prov, shifted
from .values import (BOOL, BOT, C, Dict, Env, FALSE, HANDLE, Iff, Inst, Iter, List, N, NONE, S, TOP, TOP_ATOM, TopObj,
                     TRUE, UNB, const, join, joinall, pv, sjoin)

ITER = {"Iterable", "Collection", "Container", "Sized", "object"}
SUPER = {
    "str": {"str", "Sequence", "Hashable", "Reversible"} | ITER,
    "bytes": {"bytes", "Sequence", "Hashable", "Reversible", "ByteString", "Buffer"} | ITER,
    "tuple": {"tuple", "Sequence", "Hashable", "Reversible"} | ITER,
    "list": {"list", "Sequence", "MutableSequence", "Reversible"} | ITER,
    "deque": {"deque", "Sequence", "MutableSequence", "Reversible"} | ITER,
    "set": {"set", "Set", "MutableSet"} | ITER,
    "dict": {"dict", "Mapping", "MutableMapping", "Reversible"} | ITER,
    "defaultdict": {"defaultdict", "dict", "Mapping", "MutableMapping", "Reversible"} | ITER,
    "int": {"int", "Number", "Integral", "Real", "Hashable", "object"},
    "bool": {"bool", "int", "Number", "Integral", "Real", "Hashable", "object"},
    "float": {"float", "Number", "Real", "Hashable", "object"},
    "complex": {"complex", "Number", "Hashable", "object"},
    "NoneType": {"NoneType", "Hashable", "object"},
    "iterator": {"Iterable", "Iterator", "Generator", "object", "map", "filter", "zip"},
    "view": {"Iterable", "Collection", "Set", "KeysView", "ItemsView", "ValuesView", "object"},
    "file": {"TextIOBase", "IOBase", "TextIO", "IO", "TextIOWrapper", "Iterable", "Iterator", "object", "BinaryIO",
             "StringIO", "BufferedIOBase", "BufferedReader"},
    "Path": {"Path", "PurePath", "PosixPath", "Hashable", "object", "PathLike"},
    "function": {"Callable", "FunctionType", "object", "Hashable"},
    "type": {"type", "Callable", "object", "Hashable"},
    "ellipsis": {"EllipsisType", "object"},
    "Match": {"Match", "object"},
    "Pattern": {"Pattern", "object", "Hashable"},
    "range": {"range", "Sequence", "Reversible"} | ITER,
    "slice": {"slice", "object"},
    "stdout": {"TextIOBase", "IOBase", "TextIO", "IO", "TextIOWrapper", "Iterable", "Iterator", "object"},
    "exception": {"Exception", "BaseException", "object"},
}
UNSURE = {"file": {"TextIOWrapper", "StringIO", "BinaryIO", "BufferedIOBase", "BufferedReader", "TextIOBase", "TextIO",
                   "RawIOBase"},
          "stdout": {"TextIOWrapper", "TextIOBase", "TextIO", "IOBase", "IO"},
          "iterator": {"Generator", "map", "filter", "zip"}, "exception": set()}
TYPES = {"str", "bytes", "tuple", "list", "set", "frozenset", "dict", "int", "bool", "float", "complex", "type",
         "object", "range", "slice", "bytearray"}
PYTYPES = {"int": int, "float": float, "complex": complex, "bool": bool}
CONSTS = {
    "typing.TYPE_CHECKING": False, "os.SEEK_CUR": 1, "os.SEEK_SET": 0, "os.SEEK_END": 2, "io.SEEK_CUR": 1,
    "string.ascii_uppercase": string.ascii_uppercase, "string.ascii_lowercase": string.ascii_lowercase,
    "string.digits": string.digits, "string.ascii_letters": string.ascii_letters,
    "string.punctuation": string.punctuation, "string.whitespace": string.whitespace,
    "os.sep": "/", "os.linesep": "\n",
}
for _n in ("DEBUG", "INFO", "WARNING", "WARN", "ERROR", "CRITICAL", "NOTSET"):
    CONSTS["logging." + _n] = getattr(logging, _n)
for _n in ("MULTILINE", "M", "IGNORECASE", "I", "DOTALL", "S", "VERBOSE", "X", "ASCII", "A", "UNICODE", "U", "LOCALE",
           "L", "NOFLAG"):
    if hasattr(re, _n):
        CONSTS["re." + _n] = int(getattr(re, _n))

STRPURE = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "swapcase", "expandtabs",
           "removesuffix", "removeprefix", "replace", "zfill", "ljust", "rjust", "center", "translate", "format",
           "format_map"}
KEEP = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "swapcase", "expandtabs",
        "removesuffix", "removeprefix", "replace", "translate", "zfill", "ljust", "rjust", "center"}
STRBOOL = {"startswith", "endswith", "isdigit", "isnumeric", "isalpha", "isalnum", "isspace", "isupper", "islower",
           "isdecimal", "isidentifier", "istitle", "isascii"}
EXC = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else type("x", (), __builtins__))
       if n.endswith(("Error", "Exception", "Iteration", "Warning", "Interrupt", "Exit"))}
import builtins as _b  # noqa: E402

EXC = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}


class ClsInfo:
    def __init__(self, cid, node, mod):
        self.cid, self.node, self.mod = cid, node, mod
        self.name = node.name
        self.bases = []
        self.attrs = {}
        self.members = {}
        self.kind = None
        self.enum = {}
        self.order = []


def last(name):
    return name.rsplit(".", 1)[-1]


def isconst(a):
    k = a[0]
    if k in ("c", "enum", "cls", "x", "fn", "mod"):
        return True
    if k == "t":
        return all(len(x) == 1 and isconst(next(iter(x))) for x in a[1])
    return False


def pyconst(av):
    """The Python value of an AV that is one known constant, else None wrapped."""
    if len(av) == 1:
        a = next(iter(av))
        if a[0] == "c":
            return True, a[2]
        if a[0] == "t":
            vs = [pyconst(x) for x in a[1]]
            if all(v[0] for v in vs):
                return True, tuple(v[1] for v in vs)
    return False, None


def consts(av, limit=24):
    """Python values when every alternative is a constant, else None."""
    out = []
    for a in av:
        if a[0] == "c":
            out.append(a[2])
        else:
            ok, v = pyconst(frozenset([a]))
            if not ok:
                return None
            out.append(v)
    return out if len(out) <= limit else None


def wrap(v):
    """AV of an immutable Python value."""
    if isinstance(v, tuple):
        return frozenset([("t", tuple(wrap(x) for x in v))])
    return const(v)


def strprov(av):
    return {a[1] if a[0] in ("s", "b") else None for a in av if a[0] in ("s", "b")}


class Models:
    def __init__(self, interp):
        self.i = interp

    # ------------------------------------------------------------ types of atoms
    def tname(self, a, st):
        """Name of the type, a ClsInfo, or None when not known."""
        k = a[0]
        if k == "c":
            return "NoneType" if a[2] is None else "ellipsis" if a[2] is ... else a[1]
        if k == "s":
            return "str"
        if k == "b":
            return "bytes"
        if k == "n":
            return a[1]
        if k == "gn":
            return "NoneType"
        if k in ("t", "tu"):
            return "tuple"
        if k in ("fn", "bm", "xm", "part"):
            return "function"
        if k == "cls":
            return "type"
        if k == "x":
            n = a[1]
            return "type" if n in TYPES or n in EXC or last(n)[:1].isupper() else "function"
        if k == "m":
            return "Match"
        if k == "rx":
            return "Pattern"
        if k == "view":
            return "view"
        if k == "slice":
            return "slice"
        if k in ("enum", "enumany"):
            return self.i.clsinfo.get(a[1])
        if k == "xi":
            n = last(a[1])
            return "stdout" if n in ("stderr", "stdin") else n if n in SUPER else None
        if k == "r":
            ob = self.i.get(st, a[1])
            if type(ob) is Dict:
                return "defaultdict" if ob.factory else "dict"
            if type(ob) is List:
                return ob.kind
            if type(ob) is Iter:
                return "iterator"
            if type(ob) is Inst:
                if isinstance(ob.cls, tuple):
                    n = ob.cls[1]
                    if n in ("TextIO", "file"):
                        return "file"
                    return "function" if n in ("singledispatch",) else None
                return self.i.clsinfo.get(ob.cls)
        return None

    def mro(self, cid, seen=None):
        out = [cid]
        ci = self.i.clsinfo.get(cid)
        if ci is None:
            return out
        for b in ci.bases:
            for a in b:
                if a[0] == "cls":
                    for c in self.mro(a[1]):
                        if c not in out:
                            out.append(c)
                elif a[0] == "x":
                    out.append(("x", last(a[1])))
        return out

    def find(self, cid, name):
        for c in self.mro(cid):
            if isinstance(c, tuple):
                continue
            ci = self.i.clsinfo.get(c)
            if ci is not None and name in ci.members:
                return ci.members[name]
            if ci is not None and name in ci.attrs:
                return ("attr", ci.attrs[name])
        return None

    def isinst1(self, a, t, st):
        """True, False or None (not known)."""
        tn = self.tname(a, st)
        if tn is None:
            return None
        if t[0] == "c" and t[2] is None:
            return tn == "NoneType"
        if t[0] == "cls":
            if isinstance(tn, ClsInfo):
                if t[1] in self.mro(tn.cid):
                    return True
                return False
            ci = self.i.clsinfo.get(t[1])
            if ci is not None and any(m == ("x", "Protocol") for m in self.mro(t[1])):
                return None
            return False
        if t[0] == "x":
            n = last(t[1])
            if n == "Any":
                return True
            if isinstance(tn, ClsInfo):
                m = self.mro(tn.cid)
                if ("x", n) in m or n == "object":
                    return True
                if n in ("Iterable", "Iterator", "Sized", "Callable", "Container", "Hashable", "Collection"):
                    meth = {"Iterable": "__iter__", "Iterator": "__next__", "Sized": "__len__",
                            "Callable": "__call__", "Container": "__contains__", "Collection": "__contains__"}.get(n)
                    if meth:
                        return self.find(tn.cid, meth) is not None
                    return True
                if any(isinstance(x, tuple) and x[1] not in ("object", "Generic", "Protocol") for x in m):
                    return None
                return False
            sup = SUPER.get(tn)
            if sup is None:
                return None
            if n in UNSURE.get(tn, ()):
                return None
            if n == "function" and tn == "function":
                return True
            return n in sup
        return None

    def typeatoms(self, av, st, out=None):
        out = [] if out is None else out
        for a in av:
            if a[0] == "t":
                for x in a[1]:
                    self.typeatoms(x, st, out)
            elif a[0] == "r":
                for _k, e, _m in self.segments(frozenset([a]), st, None):
                    self.typeatoms(e, st, out)
            else:
                out.append(a)
        return out

    def split_isinstance(self, v, types, st):
        ts = self.typeatoms(types, st)
        yes, no = set(), set()
        for a in v:
            if a[0] == "top":
                yes.add(a)
                no.add(a)
                continue
            rs = [self.isinst1(a, t, st) if t[0] in ("cls", "x", "c") else None for t in ts]
            if any(r is True for r in rs):
                yes.add(a)
            elif all(r is False for r in rs):
                no.add(a)
            else:
                yes.add(a)
                no.add(a)
        return frozenset(yes), frozenset(no)

    # ------------------------------------------------------------ truth
    def truth(self, a, st, node, quiet=False):
        k = a[0]
        if k == "c":
            return bool(a[2])
        if k == "gn":
            return False
        if k == "t":
            return len(a[1]) > 0
        if k in ("s", "b", "n", "tu", "top", "xi", "enumany"):
            return None
        if k == "enum":
            ci = self.i.clsinfo.get(a[1])
            if ci is not None and ci.kind == "Flag" and isinstance(a[2], int):
                return bool(a[2])
            return True
        if k == "view":
            ob = self.dictof(a[2], st)
            return self.dtruth(ob) if ob is not None else None
        if k == "r":
            ob = self.i.get(st, a[1])
            if type(ob) is Dict:
                return self.dtruth(ob)
            if type(ob) is List:
                return None if ob.elems is None else len(ob.elems) > 0
            if type(ob) is Iter:
                return True
            if type(ob) is Inst:
                if isinstance(ob.cls, tuple):
                    return None if ob.cls[1] not in ("TextIO", "file", "singledispatch") else True
                for meth in ("__bool__", "__len__"):
                    m = self.find(ob.cls, meth)
                    if m is not None:
                        if quiet:
                            return None
                        s = st.copy()
                        nsink = len(self.i.sinks[-1])
                        r = self.callmethod(frozenset([a]), meth, [], s, node)
                        del self.i.sinks[-1][nsink:]
                        if s.dead:
                            return None
                        vals = {self.truth(x, s, node) for x in r}
                        return vals.pop() if len(vals) == 1 else None
                return True
            return None
        return True

    def dtruth(self, ob):
        if any(m for _v, m in ob.items.values()):
            return True
        if not ob.items and not ob.restk:
            return False
        return None

    def dictof(self, av, st):
        for a in av:
            if a[0] == "r":
                ob = self.i.get(st, a[1])
                if type(ob) is Dict:
                    return ob
        return None

    # ------------------------------------------------------------ iteration
    def segments(self, av, st, node):
        atoms = [a for a in av if a != UNB]
        if len(atoms) == 1:
            return self.segs1(atoms[0], st, node)
        views = {a[1] for a in atoms if a[0] == "view"}
        if len(views) == 1 and all(a[0] == "view" for a in atoms):
            return self.viewsegs(("view", views.pop(), frozenset(x for a in atoms for x in a[2])), st)
        if all(a[0] == "r" and type(self.i.get(st, a[1])) is Dict for a in atoms):
            return self.viewsegs(("view", "keys", frozenset(atoms)), st)
        alls = [self.segs1(a, st, node) for a in atoms]
        if not alls:
            return []
        if all(all(k == "one" and m for k, _e, m in s) for s in alls):
            n = {len(s) for s in alls}
            if len(n) == 1:
                return [("one", joinall(s[j][1] for s in alls), True) for j in range(n.pop())]
            mx, mn = max(n), min(n)
            if mx <= 12:
                return [("one", joinall(s[j][1] for s in alls if j < len(s)), j < mn) for j in range(mx)]
        out = []
        g = BOT
        for s in alls:
            for k, e, _m in s:
                if k == "user":
                    out.append((k, e, _m))
                else:
                    g = join(g, e)
        if g:
            out.append(("gen", g, None))
        return out

    def segs1(self, a, st, node):
        k = a[0]
        if k == "c":
            v = a[2]
            if isinstance(v, str):
                return [("one", const(c), True) for c in v] if len(v) <= 60 else [("gen", S(), None)]
            if isinstance(v, (bytes, tuple, frozenset)):
                return [("one", wrap(c), True) for c in v]
            return []
        if k == "s":
            return [("gen", S(pv("char", POS, a[1])), None)]
        if k == "b":
            return [("gen", N("int", pv("byte", POS, a[1])), None)]
        if k == "t":
            return [("one", x, True) for x in a[1]]
        if k == "tu":
            return [("gen", a[1], None)] if a[1] else []
        if k == "gn":
            self.i.ev("group_none_use", node, str(a[1]), use="iteration")
            return []
        if k == "view":
            return self.viewsegs(a, st)
        if k == "cls":
            ci = self.i.clsinfo.get(a[1])
            if ci is not None and ci.enum:
                return [("one", frozenset([("enum", a[1], v)]), True) for v in ci.order]
            return [("gen", TOP, None)]
        if k == "r":
            ob = self.i.get(st, a[1])
            if type(ob) is List:
                self.unord("unord_iter", ob, node)
                if ob.elems is not None:
                    return [("one", e, True) for e in ob.elems]
                if ob.opt is not None:
                    return [("one", e, m) for e, m in ob.opt]
                return [("gen", ob.rest, None)] if ob.rest else []
            if type(ob) is Iter:
                if ob.elems is not None:
                    return [("one", e, True) for e in ob.elems]
                if ob.opt is not None:
                    return [("one", e, m) for e, m in ob.opt]
                return [("gen", ob.rest, None)] if ob.rest else []
            if type(ob) is Dict:
                return self.viewsegs(("view", "keys", frozenset([a])), st)
            if type(ob) is Inst:
                if isinstance(ob.cls, tuple):
                    if ob.cls[1] in ("TextIO", "file"):
                        if ob.attrs.get("ended") == TRUE:
                            return []
                        self.i.ev("file_iter", node, "iterate")
                        return [("gen", self.line(ob), None)]
                    return [("gen", TOP, None)]
                if self.find(ob.cls, "__next__") and self.find(ob.cls, "__iter__"):
                    return [("user", frozenset([a]), None)]
                if self.find(ob.cls, "__iter__"):
                    r = self.callmethod(frozenset([a]), "__iter__", [], st, node)
                    if st.dead:
                        st.dead = False
                        return []
                    if r == frozenset([a]):
                        return [("user", r, None)]
                    return self.segments(r, st, node)
                if self.find(ob.cls, "__getitem__"):
                    s = st.copy()
                    r = self.callmethod(frozenset([a]), "__getitem__", [N("int")], s, node)
                    return [("gen", r, None)]
                return [("gen", TOP, None)]
            return [("gen", TOP, None)]
        if k == "n":
            return []
        return [("gen", TOP, None)]

    def line(self, ob):
        m = ob.attrs.get("binary")
        if m == TRUE:
            return frozenset([("b", ("L",))])
        return S(("L",))

    def viewsegs(self, a, st):
        kind = a[1]
        out = []
        items = {}
        rk = rv = BOT
        for r in a[2]:
            ob = self.i.get(st, r[1]) if r[0] == "r" else None
            if type(ob) is not Dict:
                return [("gen", TOP if kind != "items" else frozenset([("t", (TOP, TOP))]), None)]
            for kk, (v, m) in ob.items.items():
                if kk in items:
                    items[kk][0] = join(items[kk][0], v)
                    items[kk][1] += m
                else:
                    items[kk] = [v, int(m)]
            if ob.restk:
                rk, rv = join(rk, ob.restk), join(rv, ob.restv)
        for kk, (v, m) in items.items():
            ka = frozenset([kk])
            e = ka if kind == "keys" else v if kind == "values" else frozenset([("t", (ka, v))])
            must = m == len(a[2])
            if not must and len(a[2]) == 1:
                (r,) = a[2]
                must = self.iff(r[1], kk)
            out.append(("one", e, must))
        if rk:
            e = rk if kind == "keys" else rv if kind == "values" else frozenset([("t", (rk, rv))])
            out.append(("gen", e, None))
        if len(out) > 250:
            g = BOT
            for _k, e, _m in out:
                g = join(g, e)
            if kind == "items":
                ks = vs = BOT
                for x in g:
                    if x[0] == "t" and len(x[1]) == 2:
                        ks, vs = join(ks, x[1][0]), join(vs, x[1][1])
                g = frozenset([("t", (ks, vs))])
            return [("gen", g, None)]
        return out

    def iff(self, addr, key):
        return Iff((addr, key)) if self.i.single(addr) else False

    def presence(self, st, m, there):
        """A state in which the key of an Iff is (not) in its dictionary."""
        if type(m) is not Iff or st is None:
            return
        o = st.heap.get(m[0])
        if type(o) is Dict and m[1] in o.items and not o.items[m[1]][1]:
            o = o.copy()
            if there:
                o.items[m[1]] = (o.items[m[1]][0], True)
            else:
                del o.items[m[1]]
            st.heap[m[0]] = o

    def exact(self, av, st, node):
        """List of element AVs when known one by one, else None."""
        segs = self.segments(av, st, node)
        if all(k == "one" and m for k, _e, m in segs):
            return [e for _k, e, _m in segs]
        return None

    def elems(self, av, st, node, keep=True):
        """(exact list or None, join of all elements)."""
        segs = self.segments(av, st, node)
        if all(k == "one" and m for k, _e, m in segs):
            es = [e for _k, e, _m in segs]
            return es, joinall(es)
        el = BOT
        only = len(segs) == 1
        for k, e, _m in segs:
            x = self.drain(e, st, node) if k == "user" else e
            el = join(el, x if only else generic(x))
        return None, el

    def raises(self, name, st):
        self.i.sinks[-1].append((frozenset([name]), st.copy()))

    def next_of(self, av, st, node):
        res = None
        for a in sorted(av, key=repr):
            s = st.copy()
            v = BOT
            if a[0] == "r":
                ob = self.i.get(s, a[1])
                if type(ob) is Iter:
                    if ob.elems is not None:
                        if not ob.elems:
                            self.raises("StopIteration", s)
                            continue
                        v = ob.elems[0]
                        n = ob.copy()
                        n.elems = ob.elems[1:]
                        self.i.put(s, a[1], n, node)
                    else:
                        self.raises("StopIteration", s)
                        v = ob.rest
                        if not v:
                            continue
                elif type(ob) is Inst and not isinstance(ob.cls, tuple):
                    v = self.callmethod(frozenset([a]), "__next__", [], s, node)
                    if s.dead:
                        continue
                elif type(ob) is Inst and ob.cls[1] in ("TextIO", "file"):
                    self.raises("StopIteration", s)
                    if ob.attrs.get("ended") == TRUE:
                        continue
                    v = self.line(ob)
                else:
                    self.raises("StopIteration", s)
                    v = TOP
            elif a[0] == "gn":
                continue
            else:
                self.raises("StopIteration", s)
                v = TOP
            s.top()["%nx"] = v
            res = sjoin(res, s)
        if res is None:
            st.dead = True
            return BOT
        v = res.top().pop("%nx")
        st.set_from(res)
        return v

    def drain(self, av, st, node):
        """Everything a user iterator gives when read to its end."""
        acc = BOT
        for _ in range(6):
            self.i.sinks.append([])
            s = st.copy()
            k = self.i.stash(s, acc)
            v = self.next_of(av, s, node)
            sink = self.i.sinks.pop()
            acc2 = join(acc, v)
            ex = None
            for names, s2 in sink:
                if names is not None and "StopIteration" in names:
                    ex = sjoin(ex, s2)
                else:
                    self.i.sinks[-1].append((names, s2))
            self.i.tmpn -= 1
            s.top().pop(k, None)
            if ex is not None:
                ex.top().pop(k, None)
            new = st.join(s) if not s.dead else st
            done = acc2 == acc and new.same(st)
            acc = acc2
            if not s.dead:
                st.set_from(new)
            if ex is not None:
                st.set_from(st.join(ex))
            st.dead = False
            if done:
                break
        return acc

    # ------------------------------------------------------------ operators
    NUMRANK = {"bool": 0, "int": 1, "float": 2, "complex": 3}

    def binop(self, op, l, r, st, node, inplace=False):
        i = self.i
        out = BOT
        opn = type(op).__name__
        for a in l:
            for b in r:
                v = self.binop1(opn, a, b, st, node, inplace)
                if st.dead:
                    return BOT
                out = join(out, v)
                if TOP_ATOM in out:
                    return TOP
        if not out:
            st.dead = True
        return out

    def binop1(self, op, a, b, st, node, inplace):
        i = self.i
        for x, y in ((a, b), (b, a)):
            if x[0] == "gn" and op != "BitOr":
                if y[0] in ("s", "n", "c", "top", "b", "gn"):
                    i.ev("group_none_use", node, str(x[1]), use="operator")
                return BOT
        if TOP_ATOM in (a, b):
            return TOP
        ka, kb = a[0], b[0]
        if ka == "c" and kb == "c":
            try:
                x, y = a[2], b[2]
                if op == "Add":
                    res = x + y
                elif op == "Sub":
                    res = x - y
                elif op == "Mult":
                    if isinstance(x, str) and isinstance(y, int) and y > 500:
                        return S()
                    res = x * y
                elif op == "FloorDiv":
                    res = x // y
                elif op == "Mod":
                    res = x % y
                elif op == "Div":
                    res = x / y
                elif op == "BitOr":
                    res = x | y
                elif op == "BitAnd":
                    res = x & y
                elif op == "BitXor":
                    res = x ^ y
                elif op == "LShift" and y < 64:
                    res = x << y
                elif op == "RShift":
                    res = x >> y
                elif op == "Pow" and abs(y) < 40:
                    res = x ** y
                else:
                    return N("int")
                if isinstance(res, int) and abs(res) > 10**9:
                    return N("int")
                return const(res)
            except Exception:
                if op == "BitOr" and (x is None or y is None):
                    return frozenset([("t", (frozenset([a]), frozenset([b])))])
                return BOT
        ta, tb = self.tname(a, st), self.tname(b, st)
        if ta in self.NUMRANK and tb in self.NUMRANK:
            t = ta if self.NUMRANK[ta] >= self.NUMRANK[tb] else tb
            if t == "bool":
                t = "bool" if op in ("BitOr", "BitAnd", "BitXor") else "int"
            if op == "Div" and t == "int":
                t = "float"
            p = a[2] if ka == "n" and kb == "c" else b[2] if kb == "n" and ka == "c" else None
            if i.binwin:
                if p is None or p[0] != "blen":
                    p = self.arop(op, a, b)
                else:
                    p = ("blen", p[1] * b[2]) if op == "FloorDiv" and ka == "n" and isinstance(b[2], int) else None
            return N(t, p)
        if ta == "str":
            if op == "Mod":
                return S()
            if op == "Add" and tb == "str":
                pa = a[1] if ka == "s" else None
                pb = b[1] if kb == "s" else None
                if ka == "s" and kb == "c" and not b[2].strip():
                    return S(pa)
                if kb == "s" and ka == "c" and not a[2].strip():
                    return S(pb)
                return S()
            if op == "Mult" and tb in ("int", "bool"):
                return S()
            if tb is not None:
                return BOT if tb in SUPER else TOP
        if tb == "str" and op == "Mult":
            return S()
        if ta == "bytes" and tb == "bytes" and op == "Add":
            return frozenset([("b", None)])
        if ta == "bytes" or tb == "bytes":
            return frozenset([("b", None)])
        # types and unions
        if op == "BitOr" and {ta, tb} & {"type"} or (op == "BitOr" and ka in ("x", "cls") or kb in ("x", "cls")):
            return frozenset([("t", (frozenset([a]), frozenset([b])))])
        if op == "BitOr" and ka == "t" and all(self.tname(y, st) in ("type", "NoneType") for x in a[1] for y in x):
            return frozenset([("t", (*a[1], frozenset([b])))])
        # enums
        if ka == "enum" and kb == "enum" and a[1] == b[1]:
            try:
                x, y = a[2], b[2]
                v = x | y if op == "BitOr" else x & y if op == "BitAnd" else x ^ y if op == "BitXor" else None
                if v is not None:
                    return frozenset([("enum", a[1], v)])
            except TypeError:
                pass
            return frozenset([("enumany", a[1])])
        if ka in ("enum", "enumany") and kb in ("enum", "enumany"):
            return frozenset([("enumany", a[1])])
        # sequences
        if ta == "tuple" and tb == "tuple" and op == "Add":
            if ka == "t" and kb == "t":
                return frozenset([("t", a[1] + b[1])])
            return frozenset([("tu", generic(join(self.any1(a, st), self.any1(b, st))), None)])
        if op == "Mult" and (ta in ("tuple", "list") and tb in ("int", "bool")
                             or tb in ("tuple", "list") and ta in ("int", "bool")):
            s, n = (a, b) if ta in ("tuple", "list") else (b, a)
            segs = self.segs1(s, st, node)
            if n[0] == "c" and all(k == "one" for k, *_ in segs) and len(segs) * max(n[2], 0) <= 64:
                es = tuple(e for _k, e, _m in segs) * max(n[2], 0)
                return frozenset([("t", es)]) if s[0] in ("t", "tu") else i.alloc(st, node, List("list", es))
            el = generic(joinall(e for _k, e, _m in segs))
            return frozenset([("tu", el, None)]) if s[0] in ("t", "tu") else i.alloc(st, node, List("list", None, el))
        if ta in ("list", "deque") and op == "Add":
            if inplace:
                self.extend(a, frozenset([b]), st, node)
                return frozenset([a])
            ea, eb = self.exact(frozenset([a]), st, node), self.exact(frozenset([b]), st, node)
            if ea is not None and eb is not None:
                return i.alloc(st, node, List("list", tuple(ea + eb)))
            return i.alloc(st, node, List("list", None, generic(join(self.any1(a, st), self.any1(b, st)))))
        if ta in ("set", "view", "frozenset") and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            ea, la = self.elems(frozenset([a]), st, node)
            eb, lb = self.elems(frozenset([b]), st, node)
            ca = None if ea is None else [consts(x, 1) for x in ea]
            cb = None if eb is None else [consts(x, 1) for x in eb]
            if ca is not None and cb is not None and all(ca) and all(cb):
                xa, xb = [x[0] for x in ca], [x[0] for x in cb]
                if op == "BitOr":
                    rs = xa + [x for x in xb if x not in xa]
                elif op == "BitAnd":
                    rs = [x for x in xa if x in xb]
                elif op == "Sub":
                    rs = [x for x in xa if x not in xb]
                else:
                    rs = [x for x in xa if x not in xb] + [x for x in xb if x not in xa]
                new = self.mkset([wrap(x) for x in rs])
            else:
                oa, ob_ = self.optconsts(a, st, node), self.optconsts(b, st, node)
                opt = None
                if oa is not None and ob_ is not None and op != "BitXor":
                    if op == "BitOr":
                        opt = [(x, bool(oa.get(x, False)) or bool(ob_.get(x, False))) for x in {**oa, **ob_}]
                    elif op == "BitAnd":
                        opt = [(x, ob_[x] if m is True else m if ob_[x] is True else False)
                           for x, m in oa.items() if x in ob_]
                    else:
                        opt = [(x, m if x not in ob_ else False) for x, m in oa.items() if not ob_.get(x, False)]
                    opt = tuple((frozenset([x]), m) for x, m in opt)
                elif op == "BitAnd" and (oa is not None or ob_ is not None):
                    # nothing else but some of the known keys
                    known, other = (oa, b) if oa is not None else (ob_, a)
                    opt = []
                    segs = self.segs1(other, st, node)
                    rest = {k for kd, e, _m in segs if kd != "one" for k in e}
                    one = {e: m for kd, e, m in segs if kd == "one" and len(e) == 1}
                    for x, m in known.items():
                        e = frozenset([x])
                        if any(self.maykey(x, k, st) for k in rest):
                            opt.append((e, False))
                        elif e in one:
                            opt.append((e, one[e] if m is True else m if one[e] is True else False))
                    opt = tuple(opt)
                new = List("set", None, joinall(x for x, _m in opt) if opt is not None else
                           join(la, lb) if op in ("BitOr", "BitXor") else la, opt, True)
            if inplace and a[0] == "r":
                i.put(st, a[1], new, node)
                return frozenset([a])
            return i.alloc(st, node, new)
        if ta in ("dict", "defaultdict") and op == "BitOr":
            if inplace:
                d = i.get(st, a[1]).copy()
                self.dict_update(d, frozenset([b]), st, node, a[1])
                i.put(st, a[1], d, node)
                return frozenset([a])
            d = i.get(st, a[1]).copy()
            self.dict_update(d, frozenset([b]), st, node, a[1])
            return i.alloc(st, node, d)
        if op == "Div" and (ta == "Path" or tb == "Path"):
            return frozenset([("xi", "pathlib.Path", None)])
        if ta == "NoneType" or tb == "NoneType":
            return BOT
        if op in ("Add", "Sub", "Mult", "Div") and isinstance(ta, str) and isinstance(tb, str) and \
                ta in SUPER and tb in SUPER:
            return BOT
        return TOP

    def any1(self, a, st):
        return joinall(e for _k, e, _m in self.segs1(a, st, None))

    def unary(self, op, v, st, node):
        o = type(op).__name__
        out = BOT
        for a in v:
            if a[0] == "c" and isinstance(a[2], (int, float, complex)):
                x = a[2]
                out = join(out, const(-x if o == "USub" else +x if o == "UAdd" else ~x))
            elif a[0] == "n":
                out = join(out, N("int" if a[1] == "bool" else a[1], a[2]))
            elif a[0] == "enum" and isinstance(a[2], int):
                ci = self.i.clsinfo.get(a[1])
                full = 0
                for x in (ci.enum.values() if ci else ()):
                    if isinstance(x, int):
                        full |= x
                out = join(out, frozenset([("enum", a[1], full & ~a[2])]))
            elif a[0] == "gn":
                self.i.ev("group_none_use", node, str(a[1]), use="operator")
            else:
                out = TOP
        if not out:
            st.dead = True
        return out

    def cmp_is(self, l, r, st):
        yes, no = set(), set()
        for a in l:
            for b in r:
                if TOP_ATOM in (a, b):
                    res = None
                elif b == C(None) or b[0] == "gn":
                    if a == C(None) or a[0] == "gn":
                        res = True
                    else:
                        res = None if a[0] in ("xi",) and a[1] == "any" else False
                elif a == C(None) or a[0] == "gn":
                    res = False
                elif a[0] == "c" and b[0] == "c":
                    res = a[2] == b[2] and a[1] == b[1]
                elif a[0] in ("x", "cls", "enum", "mod") and b[0] in ("x", "cls", "enum", "mod"):
                    res = a == b
                elif a[0] == "r" and b[0] == "r":
                    res = (True if self.i.single(a[1]) else None) if a == b else False
                elif a[0] == "fn" and b[0] == "fn":
                    res = None if a == b else False
                elif a[0] == "c" and a[1] == "bool" and b[0] == "n" and b[1] == "bool":
                    res = None
                elif a[0] == "n" and a[1] == "bool" and b[0] == "c" and b[1] == "bool":
                    yes.add(b)
                    no.add(C(not b[2]))
                    continue
                elif a[0] in ("enumany", "xi") or b[0] in ("enumany", "xi"):
                    res = None
                elif self.tname(a, st) is not None and self.tname(b, st) is not None and \
                        self.tname(a, st) != self.tname(b, st):
                    res = False
                else:
                    res = None
                if res is not False:
                    yes.add(a)
                if res is not True:
                    no.add(a)
        return frozenset(yes), frozenset(no)

    def cmp_eq(self, l, r, st, node):
        yes, no = set(), set()
        if self.i.binwin:
            self.binhead(l, r, st, node)
            ps = [{a[2] for a in x if a[0] == "n" and a[2]} for x in (l, r)]
            self.i.ranges += [("change", p, node) for p in ps[0] & ps[1]]
        for a in l:
            for b in r:
                res = self.eq1(a, b, st, node)
                if res is not False:
                    if a[0] == "s" and b[0] == "c":
                        yes.add(b)
                    elif a[0] == "n" and b[0] == "c" and a[1] == b[1]:
                        yes.add(b)
                    else:
                        yes.add(a)
                if res is not True:
                    no.add(a)
        return frozenset(yes), frozenset(no)

    def eq1(self, a, b, st, node):
        if TOP_ATOM in (a, b):
            return None
        if a[0] == "c" and b[0] == "c":
            return a[2] == b[2]
        if isconst(a) and isconst(b):
            return a == b
        ta, tb = self.tname(a, st), self.tname(b, st)
        if ta is None or tb is None:
            return None
        if isinstance(ta, ClsInfo) or isinstance(tb, ClsInfo):
            return None
        if ta in self.NUMRANK and tb in self.NUMRANK:
            return None
        g = {"defaultdict": "dict"}
        if g.get(ta, ta) != g.get(tb, tb):
            if {ta, tb} <= {"set", "view", "frozenset", "dict"}:
                return None
            return False
        if a[0] == "t" and b[0] == "t" and len(a[1]) != len(b[1]):
            return False
        if a[0] == "r" and b[0] == "r":
            oa, ob = self.i.get(st, a[1]), self.i.get(st, b[1])
            if type(oa) is List and type(ob) is List and oa.elems is not None and ob.elems is not None:
                if oa.kind == "list" and len(oa.elems) != len(ob.elems):
                    return False
        return None

    def compare(self, op, l, r, st, node):
        out = BOT
        for a in l:
            for b in r:
                if a[0] == "gn" or b[0] == "gn":
                    self.i.ev("group_none_use", node, str((a if a[0] == "gn" else b)[1]), use="comparison")
                    continue
                if a[0] == "c" and b[0] == "c":
                    try:
                        x, y = a[2], b[2]
                        o = type(op).__name__
                        v = x < y if o == "Lt" else x <= y if o == "LtE" else x > y if o == "Gt" else x >= y
                        out = join(out, const(v))
                    except TypeError:
                        pass
                else:
                    out = join(out, BOOL)
        if not out:
            st.dead = True
        return out

    def binhead(self, l, r, st, node):
        """A record is compared with the name of a section."""
        for x, y in ((l, r), (r, l)):
            if any(a[0] == "b" and a[1] == ("F",) for a in x):
                for v in consts(y, 1) or ():
                    if isinstance(v, bytes) and v:
                        self.bintoken("=" + v.decode("latin-1"), st, node, True)

    def cond_in(self, e, l, r, st, negated):
        i = self.i
        if i.binwin:
            for b in r:
                if b[0] == "t" and len(b[1]) == 1:
                    self.binhead(l, b[1][0], st, e)
        yes, no = set(), set()
        t_ops, f_ops = [], []
        for b in r:
            if b[0] == "view" and b[1] == "keys":
                bs = list(b[2])
            else:
                bs = [b]
            for b2 in bs:
                for a in l:
                    y, n = self.in1(a, b2, st, e, t_ops, f_ops, len(l) == 1 and len(r) == 1)
                    yes |= y
                    no |= n
        if st.dead:
            return None, None
        t, f = i.branch(e.left, frozenset(yes), frozenset(no), st)
        for fn in t_ops:
            if t is not None:
                fn(t)
        for fn in f_ops:
            if f is not None:
                fn(f)
        return (f, t) if negated else (t, f)

    def in1(self, a, b, st, e, t_ops, f_ops, sole):
        i = self.i
        both = ({a}, {a})
        if TOP_ATOM in (a, b):
            return both
        if b[0] == "gn":
            i.ev("group_none_use", e, str(b[1]), use="in")
            return set(), set()
        if b[0] in ("c", "s"):
            if a[0] == "gn":
                i.ev("group_none_use", e, str(a[1]), use="in")
                return set(), set()
            if a[0] == "c" and b[0] == "c":
                try:
                    return ({a}, set()) if a[2] in b[2] else (set(), {a})
                except TypeError:
                    return set(), set()
            return both
        if b[0] in ("enum", "enumany"):
            if a[0] == "enum" and b[0] == "enum" and isinstance(a[2], int) and isinstance(b[2], int):
                return ({a}, set()) if (a[2] & b[2]) == a[2] else (set(), {a})
            return both
        if b[0] == "r":
            ob = i.get(st, b[1])
            if type(ob) is Dict:
                if isconst(a):
                    if a in ob.items:
                        if ob.items[a][1]:
                            return {a}, set()
                        if sole and i.single(b[1]):
                            def mk(s, a=a, b=b):
                                o = i.get(s, b[1])
                                if type(o) is Dict and a in o.items and b[1] in s.heap:
                                    o = o.copy()
                                    o.items[a] = (o.items[a][0], True)
                                    s.heap[b[1]] = o

                            def rm(s, a=a, b=b):
                                o = i.get(s, b[1])
                                if type(o) is Dict and a in o.items and b[1] in s.heap:
                                    o = o.copy()
                                    del o.items[a]
                                    s.heap[b[1]] = o
                            t_ops.append(mk)
                            f_ops.append(rm)
                        return both
                    if not ob.restk:
                        return set(), {a}
                    if not any(self.maykey(a, k, st) for k in ob.restk):
                        return set(), {a}
                    return both
                if not ob.items and not ob.restk:
                    return set(), {a}
                if a[0] == "s" and not ob.restk:
                    ks = {k for k in ob.items if k[0] == "c" and k[1] == "str"}
                    if ks and len(ks) <= 24:
                        return ks, {a}
                return both
            if type(ob) is Inst and not isinstance(ob.cls, tuple):
                m = self.find(ob.cls, "__contains__")
                if m is not None:
                    self.callmethod(frozenset([b]), "__contains__", [frozenset([a])], st, e)
                return both
        if b[0] in ("t", "tu", "r", "view", "cls"):
            es = self.exact(frozenset([b]), st, e)
            if es is None:
                return both
            yes, no = set(), {a}
            for x in es:
                for y in x:
                    r = self.eq1(a, y, st, e)
                    if r is not False:
                        yes.add(y if a[0] == "s" and y[0] == "c" else a)
                    if r is True and len(x) == 1:
                        no.discard(a)
            if a[0] == "c" and a in yes and a not in no:
                return yes, set()
            return yes, no
        return both

    def maykey(self, a, k, st):
        if k == TOP_ATOM or a == TOP_ATOM:
            return True
        ta, tk = self.tname(a, st), self.tname(k, st)
        if ta is None or tk is None:
            return True
        if isinstance(ta, ClsInfo) or isinstance(tk, ClsInfo):
            return ta is tk
        if ta in self.NUMRANK and tk in self.NUMRANK:
            return True
        if ta == tk == "tuple" and a[0] == "t" and k[0] == "t":
            return len(a[1]) == len(k[1])
        if a[0] == "c" and k[0] == "c":
            return a == k
        return ta == tk

    # ------------------------------------------------------------ regular expressions
    def rxof(self, av, st):
        """Pattern atoms of the first argument of a re function."""
        out = set()
        for a in av:
            if a[0] == "rx":
                out.add(a)
            elif a[0] == "c" and isinstance(a[2], (str, bytes)):
                out.add(("rx", a[2], 0))
            else:
                out.add(("rx", None, 0))
        return out

    def matchcall(self, r, meth, subj, st, node, flags=0):
        """Result of a match-like method of one pattern on one subject AV."""
        i = self.i
        pat, fl = r[1], r[2] | flags
        base = None
        ps = set()
        ok = False
        for a in subj:
            if a[0] in ("s", "b"):
                ps.add(a[1])
                ok = True
            elif a[0] == "gn":
                i.ev("group_none_use", node, str(a[1]), use="regular expression")
            elif a[0] in ("c", "top", "xi"):
                ps.add(None)
                ok = ok or a == TOP_ATOM or a[0] == "xi" or isinstance(a[2], (str, bytes))
        if not ok:
            st.dead = True
            return BOT
        base = ps.pop() if len(ps) == 1 else None
        key = (pat, fl) if pat is not None else None
        if pat is not None:
            i.ev("regex", node, f"{meth}:{pat}", pattern=pat, flags=fl, method=meth)
            if not rx.info(pat, fl).ok:
                i.ev("bad_regex", node, str(pat)[:80])
        m = ("m", key, base, frozenset(), frozenset())
        if meth in ("match", "search", "fullmatch"):
            if pat == "(?!)":
                return frozenset([C(None)])      # matches nothing
            if pat == "":
                return frozenset([m])
            return frozenset([m, C(None)])
        if meth == "finditer":
            m = ("m", key, pv("iter", POS, base), frozenset(), frozenset())
            return i.alloc(st, node, Iter(None, frozenset([m])))
        if meth == "findall":
            b = pv("find", POS, base)
            n = rx.info(pat, fl).ngroups if pat is not None else None
            if n == 0:
                el = S(b)
            elif n == 1:
                el = S(pv("grp", 1, b))
            elif n is None:
                el = TOP
            else:
                el = frozenset([("t", tuple(S(pv("grp", g, b)) for g in range(1, n + 1)))])
            return i.alloc(st, node, List("list", None, el))
        if meth == "split":
            return i.alloc(st, node, List("list", None, S(pv("resplit", POS, base))))
        return TOP

    def gname(self, key, g):
        """Canonical name of a group: its name, else its number."""
        if isinstance(g, str):
            return g
        inf = rx.info(*key)
        for n, k in inf.names.items():
            if k == g:
                return n
        return g

    def group(self, m, g, st, node):
        i = self.i
        key, base, present, absent = m[1], m[2], m[3], m[4]
        if key is None:
            return S(pv("grp", g, base)) if base is not None else S()
        if g == 0:
            return S(base)
        inf = rx.info(*key)
        num = inf.names.get(g) if isinstance(g, str) else g
        if num is None or not (0 <= num <= inf.ngroups):
            i.ev("group_missing", node, str(g), pattern=key[0], group=g)
            return BOT
        nm = self.gname(key, g)
        i.ev("group_use", node, f"{nm}", pattern=key[0])
        s = inf.status(num, present, absent)
        v = S(pv("grp", nm, base))
        if s == "yes":
            return v
        gn = frozenset([("gn", f"group {nm!r}")])
        if s == "no":
            return gn
        return v | gn

    def groupkeys(self, av):
        ks = consts(av)
        return ks

    def match_method(self, m, name, args, st, node):
        i = self.i
        key = m[1]
        if name in ("group", "__getitem__"):
            if not args.pos:
                return S(m[2])
            outs = []
            for a in args.pos:
                ks = consts(a)
                if ks is None:
                    inf = rx.info(*key) if key else None
                    if inf and inf.names:
                        v = joinall(self.group(m, n, st, node) for n in inf.names)
                    else:
                        v = S()
                    outs.append(v)
                    continue
                v = BOT
                for k in ks:
                    v = join(v, self.group(m, k, st, node))
                if not v:
                    self.raises("IndexError", st)
                    st.dead = True
                    return BOT
                outs.append(v)
            return outs[0] if len(outs) == 1 else frozenset([("t", tuple(outs))])
        if name == "groups":
            if key is None:
                return frozenset([("tu", S(), None)])
            inf = rx.info(*key)
            dv = args.pos[0] if args.pos else None
            return frozenset([("t", tuple(self.dflt(self.group(m, g, st, node), dv)
                                          for g in range(1, inf.ngroups + 1)))])
        if name == "groupdict":
            if key is None:
                return i.alloc(st, node, Dict({}, S(), S()))
            inf = rx.info(*key)
            dv = args.pos[0] if args.pos else args.kw.get("default")
            d = Dict({})
            for n in inf.names:
                d.items[C(n)] = (self.dflt(self.group(m, n, st, node), dv), True)
            return i.alloc(st, node, d)
        if name in ("start", "end", "pos", "endpos"):
            return N("int")
        if name == "span":
            return frozenset([("t", (N("int"), N("int")))])
        return TOP

    def dflt(self, v, dv):
        if dv is None:
            return v
        gn = frozenset(a for a in v if a[0] == "gn")
        return (v - gn) | dv if gn else v

    # ------------------------------------------------------------ items
    def getitem(self, obj, key, st, node):
        res = None
        atoms = [a for a in obj if a != UNB]
        if len(atoms) == 1:
            v = self.getitem1(atoms[0], key, st, node)
            if not v:
                st.dead = True
            return v
        for a in sorted(atoms, key=repr):
            s = st.copy()
            v = self.getitem1(a, key, s, node)
            if s.dead or not v:
                continue
            s.top()["%gi"] = v
            res = sjoin(res, s)
        if res is None:
            st.dead = True
            return BOT
        v = res.top().pop("%gi")
        st.set_from(res)
        if any(a[0] == "r" and type(st.heap.get(a[1])) is Dict and st.heap[a[1]].factory for a in atoms):
            self.assume_key(obj, key, st)
        return v

    def getitem1(self, a, key, st, node):
        i = self.i
        k = a[0]
        if k == "top":
            return TOP
        if k == "gn":
            i.ev("group_none_use", node, str(a[1]), use="subscript")
            return BOT
        if k == "m":
            return self.match_method(a, "__getitem__", Args([key]), st, node)
        if k in ("x",):
            return frozenset([a])
        if k == "cls":
            ci = i.clsinfo.get(a[1])
            if ci is not None and ci.enum:
                ks = consts(key)
                if ks is not None:
                    out = frozenset(("enum", a[1], ci.enum[n]) for n in ks if n in ci.enum)
                    return out or frozenset([("enumany", a[1])])
                return frozenset([("enumany", a[1])])
            return frozenset([a])
        if k == "r":
            ob = i.get(st, a[1])
            if type(ob) is Dict:
                return self.dict_get(a, ob, key, st, node)
            if type(ob) is List:
                return self.seqitem(ob.elems, ob.rest, key, st, node, "list")
            if type(ob) is Inst and not isinstance(ob.cls, tuple):
                if self.find(ob.cls, "__getitem__"):
                    return self.callmethod(frozenset([a]), "__getitem__", [key], st, node)
            if type(ob) is Iter:
                return BOT
            return TOP
        if k == "t":
            if a[1] and all(y[0] in ("x", "cls") for x in a[1] for y in x) and \
                    not any(y[0] in ("n", "c", "slice") for y in key):
                return frozenset([a])  # A union type being parameterised
            return self.seqitem(a[1], BOT, key, st, node, "tuple")
        if k == "tu":
            return self.seqitem(None, a[1], key, st, node, "tuple")
        if k in ("s", "b"):
            p = a[1]
            sl = [x for x in key if x[0] == "slice"]
            if sl:
                lo, hi, step = (pyconst(x) for x in sl[0][1])
                if lo[0] and hi[0] and step[0]:
                    if lo[1] in (None, 0) and hi[1] is None:
                        return frozenset([a])
                    return frozenset([(k, pv("cut", (lo[1], hi[1]), p))])
                return frozenset([(k, None)])
            if k == "b":
                return N("int")
            ix = consts(key)
            return S(pv("char", ix[0] if ix and len(ix) == 1 else "?", p))
        if k == "c":
            v = a[2]
            if isinstance(v, (str, bytes, tuple)):
                sl = [x for x in key if x[0] == "slice"]
                if sl:
                    bs = [pyconst(x) for x in sl[0][1]]
                    if all(b[0] for b in bs):
                        return wrap(v[slice(*[b[1] for b in bs])])
                    return S() if isinstance(v, str) else TOP
                ix = consts(key)
                if ix is not None:
                    out = BOT
                    for x in ix:
                        try:
                            out = join(out, wrap(v[x]))
                        except (IndexError, TypeError):
                            pass
                    return out
                return S() if isinstance(v, str) else TOP
            return BOT
        if k in ("n", "fn", "bm"):
            return BOT
        return TOP

    def seqitem(self, elems, rest, key, st, node, kind):
        i = self.i
        out = BOT
        for x in key:
            if x[0] == "slice":
                lo, hi, step = (pyconst(y) for y in x[1])
                if i.binwin:
                    for side, y in zip(("from", "to"), x[1]):
                        i.ranges += [(side, self.arprov(a[2]), node) for a in y if a[0] == "n"]
                if elems is not None and lo[0] and hi[0] and step[0]:
                    es = elems[slice(lo[1], hi[1], step[1])]
                    out = join(out, frozenset([("t", tuple(es))]) if kind == "tuple" else
                               i.alloc(st, node, List("list", tuple(es))))
                    continue
                el = joinall(elems) if elems is not None else rest
                if lo[0] and hi[0] and step[0] and elems is None:
                    l0, s0 = lo[1] or 0, step[1] or 1
                    if s0 > 0 and l0 >= 0:
                        n = None
                        if hi[1] is not None and hi[1] >= 0:
                            n = max(0, -(-(hi[1] - l0) // s0))
                        el = shifted(el, l0, s0, n)
                    elif s0 == -1 and lo[1] is None and hi[1] is None:
                        el = generic(el)
                    else:
                        el = generic(el)
                else:
                    el = generic(el)
                out = join(out, frozenset([("tu", el, None)]) if kind == "tuple" else
                           i.alloc(st, node, List("list", None, el)))
            elif x[0] == "c" and isinstance(x[2], int):
                if elems is not None:
                    if -len(elems) <= x[2] < len(elems):
                        out = join(out, elems[x[2]])
                    else:
                        self.raises("IndexError", st)
                else:
                    out = join(out, at_index(rest, x[2]))
            elif x[0] == "n" and x[1] in ("int", "bool") or x == TOP_ATOM or x[0] == "xi":
                out = join(out, generic(joinall(elems) if elems is not None else rest))
            elif x[0] == "gn":
                i.ev("group_none_use", node, str(x[1]), use="subscript")
            elif x[0] in ("r",):
                out = join(out, generic(joinall(elems) if elems is not None else rest))
        return out

    def alike(self, new, old, st):
        """Values found under unknown keys which a key read as new may have had before."""
        kinds = {self.tname(a, st) for a in new}
        return frozenset(a for a in old if a[0] != "top" and self.tname(a, st) in kinds)

    def dict_get(self, a, ob, key, st, node, default=None, create=True):
        """d[key] (default None) or d.get(key, default)."""
        i = self.i
        out = BOT
        miss = False
        for k in key:
            if isconst(k):
                if k in ob.items:
                    v, must = ob.items[k]
                    out = join(out, v)
                    if must:
                        continue
                    absent = True
                else:
                    absent = True
                    if ob.restk and not (ob.factory and default is None and create) and \
                            any(self.maykey(k, x, st) for x in ob.restk):
                        out = join(out, ob.restv)
                        if default is None and not ob.factory:
                            absent = "maybe"
                if default is None and ob.factory and create:
                    nv = self.factory(ob, st, node, ("k", k))
                    ob = i.get(st, a[1]).copy()
                    old = ob.items.get(k)
                    nv2 = nv if old is None else join(old[0], nv)
                    if old is None and ob.restk and any(self.maykey(k, x, st) for x in ob.restk):
                        if node in i.prog.operands:
                            out = joinall([out, nv, ob.restv])
                            continue
                        nv2 = join(nv2, self.alike(nv, ob.restv, st))
                    ob.items[k] = (nv2, True if len(key) == 1 else False)
                    i.put(st, a[1], ob, node, "default entry")
                    out = join(out, nv2)
                elif absent:
                    miss = True
            else:
                if ob.factory and default is None and create:
                    kt = frozenset([k])
                    if not ob.restv or not any(self.maykey(k, x, st) for x in ob.restk):
                        nv = self.factory(ob, st, node, ("u",))
                        ob = i.get(st, a[1]).copy()
                        ob.restk, ob.restv = join(ob.restk, kt), join(ob.restv, nv)
                        i.put(st, a[1], ob, node, "default entry")
                    elif k not in ob.restk:
                        ob = i.get(st, a[1]).copy()
                        ob.restk = join(ob.restk, kt)
                        i.put(st, a[1], ob, node, "default entry")
                    out = join(out, ob.restv)
                    if not ob.restv:
                        out = TOP
                else:
                    v = BOT
                    for kk, (x, _m) in ob.items.items():
                        if self.maykey(kk, k, st):
                            v = join(v, x)
                    if ob.restk:
                        v = join(v, ob.restv)
                    out = join(out, v)
                    miss = True
        if default is not None:
            return join(out, default) if miss else out
        if miss:
            self.raises("KeyError", st)
            if not out:
                i.ev("key_missing", node, str(sorted(map(str, key)))[:80])
        return out

    def factory(self, ob, st, node, tag):
        i = self.i
        f = ob.factory
        saved = i.frames[-1].ctx
        i.frames[-1].ctx = i.subctx(("df", tag[0], tag[1] if len(tag) > 1 else 0))
        try:
            return i.call(f, Args(), st, node)
        finally:
            i.frames[-1].ctx = saved

    def dict_set(self, d, key, val, must):
        one = len(key) == 1
        for k in key:
            if isconst(k):
                old = d.items.get(k)
                if old is None:
                    d.items[k] = (val, must and one)
                elif must and one:
                    d.items[k] = (val, True)
                else:
                    d.items[k] = (join(old[0], val), old[1])
            else:
                d.restk = join(d.restk, frozenset([k]))
                d.restv = join(d.restv, val)

    def dict_update(self, d, src, st, node, base=None):
        """base: address of the dictionary whose keys d has."""
        i = self.i
        for a in src:
            ob = i.get(st, a[1]) if a[0] == "r" else None
            if type(ob) is Dict:
                sure = base is not None and ob.iff == base and len(src) == 1
                for k, (v, m) in ob.items.items():
                    if sure and k in d.items:
                        d.items[k] = (v, d.items[k][1])
                        continue
                    self.dict_set(d, frozenset([k]), v, m and len(src) == 1)
                if ob.restk:
                    d.restk, d.restv = join(d.restk, ob.restk), join(d.restv, ob.restv)
            elif a == TOP_ATOM or a[0] == "xi":
                d.restk, d.restv = TOP, TOP
            else:
                self.dict_pairs(d, frozenset([a]), st, node)

    def dict_pairs(self, d, it, st, node):
        for k, e, m in self.segments(it, st, node):
            if k == "user":
                e = self.drain(e, st, node)
            for x in e:
                p = self.exact(frozenset([x]), st, node)
                if p is not None and len(p) == 2:
                    self.dict_set(d, p[0], p[1], k == "one" and bool(m) and len(e) == 1)
                elif p is None:
                    if x == TOP_ATOM:
                        d.restk, d.restv = TOP, TOP
                    else:
                        _e, el = self.elems(frozenset([x]), st, node)
                        d.restk = join(d.restk, at_index(el, 0))
                        d.restv = join(d.restv, at_index(el, 1))

    def each(self, obj, st, fn):
        """Applies fn(atom, state) for every possible object, joining the outcomes."""
        atoms = [a for a in obj if a != UNB]
        if len(atoms) == 1:
            fn(atoms[0], st)
            return
        res = None
        for a in sorted(atoms, key=repr):
            s = st.copy()
            fn(a, s)
            if not s.dead:
                res = sjoin(res, s)
        if res is None:
            st.dead = True
        else:
            st.set_from(res)

    def setitem(self, obj, key, val, st, node):
        i = self.i

        def one(a, s):
            if a[0] == "r":
                ob = i.get(s, a[1])
                if type(ob) is Dict:
                    d = ob.copy()
                    self.dict_set(d, key, val, True)
                    i.put(s, a[1], d, node, "item")
                elif type(ob) is List:
                    ix = consts(key)
                    n = ob.copy()
                    if ob.elems is not None and ix and len(ix) == 1 and isinstance(ix[0], int) and \
                            -len(ob.elems) <= ix[0] < len(ob.elems):
                        es = list(ob.elems)
                        es[ix[0]] = val
                        n.elems = tuple(es)
                    elif ob.elems is not None and not any(x[0] == "slice" for x in key):
                        n.elems = tuple(join(e, val) for e in ob.elems)
                    else:
                        v = val
                        if any(x[0] == "slice" for x in key):
                            v = self.elems(val, s, node)[1]
                        n.elems, n.rest = None, join(ob.any(), v)
                    i.put(s, a[1], n, node, "item")
                elif type(ob) is Inst and not isinstance(ob.cls, tuple) and self.find(ob.cls, "__setitem__"):
                    self.callmethod(frozenset([a]), "__setitem__", [key, val], s, node)
            elif a[0] in ("t", "tu", "s", "n", "gn", "m") or a == C(None):
                s.dead = True
        self.each(obj, st, one)
        self.assume_key(obj, key, st)

    def assume_key(self, obj, key, st):
        """The key is in the dictionary now, whichever of the possible ones it is."""
        if len(key) != 1 or st.dead:
            return
        k = next(iter(key))
        if not isconst(k):
            return
        for a in obj:
            if a[0] == "r":
                ob = st.heap.get(a[1])
                if type(ob) is Dict and k in ob.items and not ob.items[k][1]:
                    ob = ob.copy()
                    ob.items[k] = (ob.items[k][0], True)
                    st.heap[a[1]] = ob

    def delitem(self, obj, key, st, node):
        i = self.i

        def one(a, s):
            if a[0] != "r":
                return
            ob = i.get(s, a[1])
            if type(ob) is Dict:
                d = ob.copy()
                for k in key:
                    if isconst(k) and k in d.items:
                        if len(key) == 1 and i.single(a[1]):
                            del d.items[k]
                        else:
                            d.items[k] = (d.items[k][0], False)
                    elif not isconst(k):
                        d.items = {x: (v, m and not self.maykey(x, k, s)) for x, (v, m) in d.items.items()}
                i.put(s, a[1], d, node, "delete")
            elif type(ob) is List:
                n = ob.copy()
                n.rest, n.elems = ob.any(), None
                i.put(s, a[1], n, node, "delete")
        self.each(obj, st, one)

    def refine_item(self, e, av, st):
        i = self.i
        if not isinstance(e.value, ast.Name):
            return
        fn = i.frames[-1].fn
        if fn.kind != "module" and e.value.id not in fn.locals:
            return
        o = i.getvar_raw(e.value.id, st)
        if not o or not isinstance(e.slice, ast.Constant):
            return
        g = e.slice.value
        if any(a[0] == "m" for a in o):
            allnone = all(a[0] == "gn" or a == C(None) for a in av)
            nonone = not any(a[0] == "gn" or a == C(None) for a in av)
            out = set()
            for a in o:
                if a[0] == "m" and a[1] is not None:
                    inf = rx.info(*a[1])
                    num = inf.names.get(g) if isinstance(g, str) else g
                    if isinstance(num, int):
                        if nonone:
                            a = (*a[:3], a[3] | {num}, a[4])
                        elif allnone:
                            a = (*a[:4], a[4] | {num})
                        if not inf.consistent(a[3], a[4]):
                            continue
                out.add(a)
            if out:
                i.setvar(e.value.id, frozenset(out), st)
            else:
                st.dead = True
            return
        if len(o) == 1:
            a = next(iter(o))
            if a[0] == "r" and i.single(a[1]) and a[1] in st.heap:
                ob = i.get(st, a[1])
                if type(ob) is Dict and C(g) in ob.items:
                    ob = ob.copy()
                    ob.items[C(g)] = (av, ob.items[C(g)][1])
                    st.heap[a[1]] = ob

    # ------------------------------------------------------------ attributes
    def ext(self, name):
        """Value of an external name."""
        if name in CONSTS:
            return const(CONSTS[name])
        if name in ("sys.stdout", "sys.stderr", "sys.stdin"):
            return frozenset([("xi", name, None)])
        return frozenset([("x", name)])

    def getattr(self, av, name, st, node):
        i = self.i
        out = BOT
        pure = set()
        for a in sorted((x for x in av if x != UNB), key=repr):
            k = a[0]
            if k == "top":
                return TOP
            if k in ("s", "b") or (k == "c" and isinstance(a[2], (str, bytes))):
                if hasattr(bytes if k == "b" or isinstance(a[2] if k == "c" else "", bytes) else str, name):
                    pure.add(a)
                continue
            v = self.getattr1(a, name, st, node)
            if st.dead:
                st.dead = False
                continue
            out = join(out, v)
        if pure:
            out = join(out, frozenset([("xm", frozenset(pure), name)]))
        if not out:
            if av - {UNB} and not any(a[0] == "gn" or a == ("c", "NoneType", None) for a in av):
                i.ev("noattr", node, name)
            st.dead = True
        return out

    def getattr1(self, a, name, st, node):
        i = self.i
        k = a[0]
        one = frozenset([a])
        if k == "mod":
            if a[1] in i.prog.mods:
                return i.modattr(a[1], name)
            full = f"{a[1]}.{name}"
            return self.ext(full)
        if k == "x":
            return self.ext(f"{a[1]}.{name}")
        if k == "gn":
            i.ev("group_none_use", node, str(a[1]), use="." + name)
            return BOT
        if k == "cls":
            if name == "__name__":
                return const(i.clsinfo[a[1]].name)
            ci = i.clsinfo.get(a[1])
            if name == "__members__" and ci is not None and ci.enum:
                return i.alloc(st, node, Dict({C(n): (frozenset([("enum", a[1], v)]), True)
                                               for n, v in ci.enum.items()}))
            m = self.find(a[1], name)
            if m is None:
                return TOP
            kind, v = m
            if kind == "enum":
                return frozenset([("enum", a[1], v)])
            if kind == "cm":
                return frozenset(("bm", a, f) for f in v if f[0] == "fn") or TOP
            return v
        if k == "enum":
            ci = i.clsinfo.get(a[1])
            if name in ("name", "_name_"):
                for n, v in (ci.enum.items() if ci else ()):
                    if v == a[2]:
                        return const(n)
                return S()
            if name == "value":
                return const(a[2]) if isinstance(a[2], (int, str)) else TOP
            return self.clsattr(a[1], a, name, st, node)
        if k == "enumany":
            if name == "name":
                return S()
            return self.clsattr(a[1], a, name, st, node)
        if k == "r":
            ob = i.get(st, a[1])
            if type(ob) is Inst:
                if isinstance(ob.cls, tuple):
                    n = ob.cls[1]
                    if n in ("TextIO", "file"):
                        if name == "name":
                            return S(("name",))
                        if name == "closed":
                            return ob.attrs.get("closed", FALSE) if n == "file" and ob.attrs.get("owner") == const("own") else BOOL
                        return frozenset([("xm", one, name)])
                    if n == "singledispatch":
                        if name in ("register", "dispatch"):
                            return frozenset([("xm", one, name)])
                        if name in ("__wrapped__",):
                            return ob.attrs.get("default", TOP)
                        return TOP
                    if n == "Namespace":
                        if name not in ob.attrs:
                            i.ev("nsopen", node, name)
                        return ob.attrs.get(name, TOP)
                    return TOP
                if name == "__class__":
                    return frozenset([("cls", ob.cls)])
                if name == "__dict__" and not any(UNB in v for v in ob.attrs.values()):
                    return i.alloc(st, node, Dict({C(k): (v, True) for k, v in ob.attrs.items()}))
                v = ob.attrs.get(name)
                if v is not None:
                    if UNB in v:
                        v = v - {UNB}
                        m = self.find(ob.cls, name)
                        if m is None:
                            i.ev("unbound_attr", node, f"{last(ob.cls)}.{name}")
                        elif m[0] == "attr":
                            v = join(v, m[1])
                    return v
                return self.clsattr(ob.cls, a, name, st, node)
            if type(ob) is TopObj:
                return TOP
            if type(ob) is Dict and name == "default_factory":
                return ob.factory or NONE
            t = collections.defaultdict if type(ob) is Dict else \
                {"list": list, "set": set, "deque": collections.deque}.get(ob.kind) if type(ob) is List else None
            if t is not None and not hasattr(t, name) and not (type(ob) is Dict and hasattr(collections.Counter, name)):
                return BOT
            return frozenset([("xm", one, name)])
        if k == "m":
            if name == "re":
                return frozenset([("rx", *a[1])]) if a[1] else frozenset([("rx", None, 0)])
            if name == "string":
                return S(a[2])
            if name == "lastindex":
                if a[1] is None or not 0 < rx.info(*a[1]).ngroups < 7:
                    return N("int") | NONE
                inf = rx.info(*a[1])
                cs = inf.consistent(a[3], a[4])
                out = frozenset(C(g) for c in cs for g in c)
                return out | NONE if any(not c for c in cs) else out
            if name in ("lastgroup", "pos", "endpos"):
                return TOP
            return frozenset([("xm", one, name)])
        if k == "rx":
            if name == "pattern":
                return const(a[1]) if a[1] is not None else S()
            if name == "flags":
                return const(a[2])
            if name == "groups":
                return const(rx.info(a[1], a[2]).ngroups) if a[1] is not None else N("int")
            if name == "groupindex":
                if a[1] is None:
                    return TOP
                return i.alloc(st, node, Dict({C(n): (const(g), True) for n, g in rx.info(a[1], a[2]).names.items()}))
            return frozenset([("xm", one, name)])
        if k == "n" or k == "c":
            if k == "c" and a[2] is None:
                return BOT
            if not hasattr(PYTYPES.get(a[1], object), name) and a[1] in PYTYPES:
                return BOT
            if name in ("real", "imag"):
                return N("float" if (a[1] == "complex") else a[1], a[2] if k == "n" else None)
            return frozenset([("xm", one, name)])
        if k == "xi":
            if last(a[1]) == "Path":
                if isinstance(a[2], tuple) and a[2][0] == "PATH" and name in ("name", "stem", "suffix"):
                    return const(getattr(pathlib.PurePosixPath(a[2][1]), name))
                if name in ("name", "stem", "suffix"):
                    return S(("path", name))
                if name in ("parent",):
                    return one
                if name in ("parts", "suffixes", "parents"):
                    return TOP
                return frozenset([("xm", one, name)])
            if a[1] == "exception":
                return TOP
            if a[1] == "stat":
                return N("int")
            if last(a[1]) == "Namespace":
                i.ev("nsattr", node, name, name=name)
                return TOP
            return frozenset([("xm", one, name)])
        if k in ("t", "tu"):
            return frozenset([("xm", one, name)]) if hasattr(tuple, name) or name.startswith("_") else BOT
        if k in ("view", "slice"):
            return frozenset([("xm", one, name)])
        if k == "fn":
            f = i.prog.fns[a[1]]
            if name in ("__name__", "__qualname__"):
                return const(getattr(f.node, "name", "<lambda>"))
            return TOP
        if k == "part":
            return TOP
        return TOP

    def clsattr(self, cid, a, name, st, node):
        i = self.i
        m = self.find(cid, name)
        if m is None:
            if any(isinstance(c, tuple) and c[1] not in ("object", "Generic", "Enum", "Flag") for c in self.mro(cid)):
                return TOP
            if name.startswith("__"):
                return TOP
            i.ev("noattr", node, f"{last(cid)}.{name}")
            return BOT
        kind, v = m
        if kind == "enum":
            return frozenset([("enum", cid, v)])
        if kind == "prop":
            return i.call(v, Args([frozenset([a])]), st, node)
        if kind == "cm":
            return frozenset(("bm", ("cls", cid), f) for f in v if f[0] == "fn") or TOP
        if kind == "sm":
            return v
        if kind == "attr":
            return v
        if kind == "sdm":
            return frozenset([("part", v, (frozenset([a]),), ())])
        return frozenset(("bm", a, f) for f in v if f[0] == "fn") or frozenset(
            [("part", v, (frozenset([a]),), ())])

    def callmethod(self, obj, name, pos, st, node):
        f = self.getattr(obj, name, st, node)
        if st.dead:
            return BOT
        return self.i.call(f, Args(pos), st, node)

    def setattr(self, obj, name, val, st, node):
        i = self.i

        def one(a, s):
            if a[0] == "xi" and last(a[1]) == "Namespace":
                i.ev("nsset", node, name, name=name)
            if a[0] == "r":
                ob = i.get(s, a[1])
                if type(ob) is Inst:
                    if not isinstance(ob.cls, tuple):
                        m = self.find(ob.cls, "=" + name)
                        if m is not None:
                            i.call(m[1], Args([frozenset([a]), val]), s, node)
                            return
                    n = ob.copy()
                    n.attrs[name] = val
                    i.put(s, a[1], n, node, "attribute")
            elif a[0] in ("cls", "mod", "x", "fn"):
                i.ev("mutate", node, f"attribute of {a[1]}", origin=("module", str(a[1])), how="attribute")
        self.each(obj, st, one)

    # ------------------------------------------------------------ with
    def enter(self, v, st, node):
        out = BOT
        for a in v:
            if a[0] == "r":
                ob = self.i.get(st, a[1])
                if type(ob) is Inst and not isinstance(ob.cls, tuple) and self.find(ob.cls, "__enter__"):
                    out = join(out, self.callmethod(frozenset([a]), "__enter__", [], st, node))
                elif type(ob) is Iter and not ob.unord:      # of a function decorated as a context manager: what it yields
                    v2 = ob.any()
                    for b in v2:
                        f = self.i.get(st, b[1]) if b[0] == "r" else None
                        if type(f) is Inst and isinstance(f.cls, tuple) and f.attrs.get("closed") == TRUE:
                            n = f.copy()
                            n.attrs["closed"] = FALSE
                            self.i.put(st, b[1], n, node)
                    out = join(out, v2)
                else:
                    out = join(out, frozenset([a]))
            elif a[0] == "xi":
                out = join(out, frozenset([a]))
            else:
                out = TOP
        return out

    def exit(self, v, st, node):
        for a in v:
            if a[0] == "r":
                ob = self.i.get(st, a[1])
                if type(ob) is Iter:
                    for b in ob.any():
                        f = self.i.get(st, b[1]) if b[0] == "r" else None
                        if type(f) is Inst and isinstance(f.cls, tuple) and f.attrs.get("closed") == FALSE:
                            n = f.copy()
                            n.attrs["closed"] = TRUE
                            self.i.put(st, b[1], n, node)
                    continue
                if type(ob) is Inst and isinstance(ob.cls, tuple) and ob.cls[1] in ("TextIO", "file"):
                    if ob.attrs.get("owner") == const("caller"):
                        self.i.ev("close_caller", node, "with")
                    n = ob.copy()
                    n.attrs["closed"] = TRUE
                    self.i.put(st, a[1], n, node)
                elif type(ob) is Inst and not isinstance(ob.cls, tuple) and self.find(ob.cls, "__exit__"):
                    d = st.dead
                    st.dead = False
                    self.callmethod(frozenset([a]), "__exit__", [NONE, NONE, NONE], st, node)
                    st.dead = d

    def suppresses(self, v):
        return any(a[0] == "xi" and a[1] == "suppress" for a in v)

    # ------------------------------------------------------------ match statement
    def pattern(self, p, subj, st):
        i = self.i
        t = type(p).__name__
        if t == "MatchAs":
            if p.pattern is None:
                if p.name:
                    i.setvar(p.name, subj, st, p)
                return subj, BOT
            y, n = self.pattern(p.pattern, subj, st)
            if p.name and y:
                i.setvar(p.name, y, st, p)
            return y, n
        if t == "MatchOr":
            yes = BOT
            cur = subj
            for q in p.patterns:
                if not cur:
                    break
                y, cur = self.pattern(q, cur, st)
                yes = join(yes, y)
            return yes, cur
        if t == "MatchSingleton":
            return self.cmp_is(subj, const(p.value), st)
        if t == "MatchValue":
            v = i.eval(p.value, st)
            if st.dead:
                st.dead = False
                return subj, subj
            return self.cmp_eq(subj, v, st, p)
        if t == "MatchClass":
            c = i.eval(p.cls, st)
            if st.dead:
                st.dead = False
                return subj, subj
            y, n = self.split_isinstance(subj, c, st)
            if p.patterns and y:
                if len(p.patterns) == 1 and all(a[0] == "x" and a[1] in TYPES for a in c):
                    y2, n2 = self.pattern(p.patterns[0], y, st)
                    return y2, join(n, n2)
                for q in p.patterns:
                    self.pattern(q, TOP, st)
                n = join(n, y)
            for q, at in zip(p.kwd_patterns, p.kwd_attrs):
                if y:
                    self.pattern(q, self.getattr(y, at, st, p), st)
                    n = join(n, y)
            return y, n
        if t == "MatchSequence":
            yes, no = set(), set()
            star = next((k for k, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)), None)
            binds = {}
            for a in subj:
                tn = self.tname(a, st)
                if tn in ("str", "bytes", "dict", "defaultdict", "set", "int", "float", "NoneType", "bool", "complex",
                          "iterator", "function", "type", "Match", "Pattern", "file", "Path") \
                        or isinstance(tn, ClsInfo):
                    no.add(a)
                    continue
                es = self.exact(frozenset([a]), st, p) if a != TOP_ATOM else None
                n = len(p.patterns)
                if es is not None:
                    if (star is None and len(es) != n) or (star is not None and len(es) < n - 1):
                        no.add(a)
                        continue
                    ok, sure = True, True
                    for k, q in enumerate(p.patterns):
                        if isinstance(q, ast.MatchStar):
                            if q.name:
                                i.setvar(q.name, i.alloc(st, p, List("list", tuple(es[k:len(es) - (n - k - 1)]))), st, p)
                            continue
                        e = es[k] if star is None or k < star else es[len(es) - (n - k)]
                        y, nn = self.pattern(q, e, st)
                        if not y:
                            ok = False
                            break
                        if nn:
                            sure = False
                    if ok:
                        yes.add(a)
                    if not ok or not sure:
                        no.add(a)
                    continue
                _e, el = self.elems(frozenset([a]), st, p) if a != TOP_ATOM else (None, TOP)
                ok = True
                for k, q in enumerate(p.patterns):
                    if isinstance(q, ast.MatchStar):
                        if q.name:
                            i.setvar(q.name, i.alloc(st, p, List("list", None, shifted(el, star, 1, None))), st, p)
                        continue
                    e = at_index(el, k if star is None or k < star else k - n)
                    y, _n = self.pattern(q, e, st)
                    if not y:
                        ok = False
                        break
                if ok:
                    yes.add(a)
                no.add(a)
            return frozenset(yes), frozenset(no)
        if t == "MatchMapping":
            y, n = self.split_isinstance(subj, frozenset([("x", "collections.abc.Mapping")]), st)
            for q in p.patterns:
                self.pattern(q, TOP, st)
            if p.rest:
                i.setvar(p.rest, TOP, st, p)
            return y, join(n, y) if p.patterns else n
        if t == "MatchStar":
            if p.name:
                i.setvar(p.name, TOP, st, p)
            return subj, BOT
        return subj, subj

    # ------------------------------------------------------------ text
    def fmt(self, a, spec, conv, st):
        if a[0] == "c" and spec is not None:
            v = a[2]
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            try:
                return format(v, spec)
            except (ValueError, TypeError):
                return None
        if a[0] == "rx" and a[1] is not None:
            return None
        return None

    def unord(self, kind, ob, node):
        if ob.kind in ("set", "frozenset") and node is not None and (ob.elems is None or len(ob.elems) > 1) and \
                any(x[0] not in "n" and not (x[0] == "c" and isinstance(x[2], (int, float))) for x in ob.any()):
            self.i.ev(kind, node, f"{type(node).__name__}:{getattr(node, 'end_lineno', 0)}:"
                      f"{getattr(node, 'end_col_offset', 0)}")

    def str_of(self, av, st, node):
        i = self.i
        out = BOT
        for a in av:
            k = a[0]
            if k == "c":
                out = join(out, const(str(a[2])) if not isinstance(a[2], bytes) else S())
            elif k == "s":
                out = join(out, frozenset([a]))
            elif k == "n":
                out = join(out, S(a[2]))
            elif k == "gn":
                i.ev("group_none_use", node, str(a[1]), use="text")
                out = join(out, const("None"))
            elif k == "xi" and last(a[1]) == "Path":
                out = join(out, S(a[2]))
            elif k == "r" and type(i.get(st, a[1])) is Inst and not isinstance(i.get(st, a[1]).cls, tuple) and \
                    self.find(i.get(st, a[1]).cls, "__str__"):
                out = join(out, self.callmethod(frozenset([a]), "__str__", [], st, node))
            else:
                if k == "r" and type(i.get(st, a[1])) is List:
                    self.unord("unord_text", i.get(st, a[1]), node)
                out = join(out, S())
        return out

    def setopt(self, opt):
        """Elements of a set which may or may not be there (constants only)."""
        if opt is None:
            return None
        out = {}
        for e, m in opt:
            if len(e) != 1 or not isconst(next(iter(e))):
                return None
            out[e] = m if e not in out else bool(out[e]) or bool(m)
        return tuple(out.items())

    def optconsts(self, a, st, node):
        """{constant: surely there} of a set, a view or the like, or None."""
        segs = self.segs1(a, st, node)
        if any(k != "one" for k, _e, _m in segs):
            return None
        o = self.setopt(tuple((e, m) for _k, e, m in segs))
        return None if o is None else {next(iter(e)): m for e, m in o}

    def mkset(self, els):
        seen = []
        for e in els:
            if e not in seen:
                seen.append(e)
        if len(seen) > 200:
            return List("set", None, joinall(seen), None, True)
        if not all(len(e) == 1 and isconst(next(iter(e))) for e in seen):
            return List("set", None, generic(joinall(seen)), None, True)
        return List("set", tuple(seen), BOT, None, len(seen) > 1)

    def extend(self, a, it, st, node):
        i = self.i
        es, el = self.elems(it, st, node)
        ob = i.get(st, a[1])
        if type(ob) is not List:
            return
        n = ob.copy()
        if es is not None and ob.elems is not None and len(es) + len(ob.elems) <= 64:
            n.elems = ob.elems + tuple(es)
        else:
            x = ob.any()
            n.elems, n.rest = None, join(x, el if not x and es is None else generic(el))
        i.put(st, a[1], n, node, "extend")

    # ------------------------------------------------------------ classes
    def class_body(self, ci, node, st):
        i = self.i
        basenames = {m[1] for m in self.mro(ci.cid) if isinstance(m, tuple)}
        if basenames & {"Enum", "IntEnum", "StrEnum"}:
            ci.kind = "Enum"
        if basenames & {"Flag", "IntFlag"}:
            ci.kind = "Flag"
        for k in ("TypedDict", "NamedTuple", "Protocol"):
            if k in basenames:
                ci.kind = k
        if basenames & EXC:
            ci.kind = "exception"
        modlevel = i.frames[-1].fn.kind == "module"
        top = st.top()
        saved = {}
        nxt = 1

        def bind(n, v):
            if n not in saved:
                saved[n] = top.get(n)
            top[n] = v
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fnv = i.mkfn(i.prog.bynode[id(s)], st, s)
                kind = "m"
                skip = False
                reg = None
                for d in s.decorator_list:
                    dn = d.func if isinstance(d, ast.Call) else d
                    nm = ast.unparse(dn).split(".")
                    if nm[-1] in ("property", "cached_property"):
                        kind = "prop"
                    elif nm[-1] == "classmethod":
                        kind = "cm"
                    elif nm[-1] == "staticmethod":
                        kind = "sm"
                    elif nm[-1] == "overload":
                        skip = True
                    elif nm[-1] == "setter":
                        kind = "set"
                    elif nm[-1] == "singledispatchmethod":
                        kind = "sdm"
                    elif nm[-1] == "register":
                        reg = nm[0]
                if skip:
                    continue
                if reg is not None and reg in ci.members:
                    _k, sd = ci.members[reg]
                    for x in sd:
                        if x[0] == "r":
                            ob = i.get(st, x[1]).copy()
                            tn = self.anntype(i.prog.bynode[id(s)], 1)
                            ob.attrs[tn] = fnv
                            st.heap[x[1]] = ob
                    continue
                if kind == "sdm":
                    sd = i.alloc(st, s, Inst(("x", "singledispatch"), {"default": fnv, "skip": const(1)}))
                    ci.members[s.name] = ("sdm", sd)
                    continue
                if kind == "set":
                    ci.members["=" + s.name] = ("m", fnv)
                    continue
                ci.members[s.name] = (kind, fnv)
                bind(s.name, fnv)
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                if isinstance(s, ast.AnnAssign):
                    if s.value is None:
                        continue
                    targets, val = [s.target], s.value
                else:
                    targets, val = s.targets, s.value
                v = i.eval(val, st)
                if st.dead:
                    st.dead = False
                    v = TOP
                for t in targets:
                    if not isinstance(t, ast.Name):
                        continue
                    if ci.kind in ("Enum", "Flag") and not t.id.startswith("_"):
                        a = next(iter(v)) if len(v) == 1 else TOP_ATOM
                        if a[0] == "xi" and a[1] == "auto":
                            if ci.kind == "Flag":
                                val_ = 1 << (nxt - 1)
                                nxt += 1
                            else:
                                val_ = nxt
                                nxt += 1
                        elif a[0] == "c":
                            val_ = a[2]
                            if ci.kind == "Flag" and isinstance(val_, int) and val_:
                                nxt = max(nxt, val_.bit_length() + 1)
                        elif a[0] == "enum":
                            val_ = a[2]
                        else:
                            val_ = ("?", t.id)
                        if ci.kind == "Enum" and not isinstance(val_, int) and self.find(ci.cid, "_generate_next_value_"):
                            val_ = ("?", t.id)
                        ci.enum[t.id] = val_
                        if val_ not in ci.order and (ci.kind == "Enum" or
                                                     (isinstance(val_, int) and val_ and not val_ & (val_ - 1))):
                            ci.order.append(val_)
                        ci.members[t.id] = ("enum", val_)
                        bind(t.id, frozenset([("enum", ci.cid, val_)]))
                    else:
                        ci.attrs[t.id] = v
                        bind(t.id, v)
            elif isinstance(s, ast.ClassDef):
                i.x_ClassDef(s, st)
                cid = f"{ci.mod.name}.{s.name}"
                ci.attrs[s.name] = frozenset([("cls", cid)])
            elif isinstance(s, ast.Expr):
                pass
            else:
                i.exec(s, st)
        for n, v in saved.items():
            if v is None:
                top.pop(n, None)
                if modlevel:
                    pass
            else:
                top[n] = v

    def anntype(self, fn, idx=0):
        """Type named by the annotation of a parameter, as used by register()."""
        a = fn.node.args
        ps = [*a.posonlyargs, *a.args]
        if idx >= len(ps) or ps[idx].annotation is None:
            return "T:?"
        ann = ps[idx].annotation
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return "T:?"
        if isinstance(ann, ast.Subscript):
            ann = ann.value
        names = []
        for x in self._union(ann):
            v = self.resolve_name(x, fn.mod)
            names.append(v)
        return "T:" + "|".join(names)

    def _union(self, ann):
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            return [*self._union(ann.left), *self._union(ann.right)]
        return [ann]

    def resolve_name(self, x, mod):
        dotted = ast.unparse(x)
        parts = dotted.split(".")
        v = self.i.modvars.get(mod.name, {}).get(parts[0])
        a = next(iter(v)) if v and len(v) == 1 else None
        if a is None:
            return "x:" + parts[-1]
        if a[0] == "cls":
            return "cls:" + a[1]
        if a[0] == "mod":
            if a[1] in self.i.prog.mods and len(parts) == 2:
                w = self.i.modattr(a[1], parts[1])
                b = next(iter(w))
                if b[0] == "cls":
                    return "cls:" + b[1]
            return "x:" + parts[-1]
        return "x:" + parts[-1]

    def typekey(self, av):
        out = []
        for a in self.typeatoms(av, None):
            if a[0] == "cls":
                out.append("cls:" + a[1])
            elif a[0] == "x":
                out.append("x:" + last(a[1]))
        return "T:" + "|".join(out)

    def instantiate(self, a, args, st, node):
        i = self.i
        cid = a[1]
        ci = i.clsinfo.get(cid)
        if ci is None:
            return TOP
        if ci.kind == "exception":
            return frozenset([("xi", "exception", None)])
        if ci.kind == "TypedDict":
            d = Dict({})
            if args.pos:
                self.dict_update(d, args.pos[0], st, node)
            for k, v in args.kw.items():
                self.dict_set(d, const(k), v, True)
            return i.alloc(st, node, d)
        if ci.kind == "NamedTuple":
            names = [s.target.id for s in ci.node.body if isinstance(s, ast.AnnAssign)]
            vals = list(args.pos)
            for n in names[len(vals):]:
                vals.append(args.kw.get(n, ci.attrs.get(n, args.star or TOP)))
            return frozenset([("t", tuple(vals))])
        if ci.kind in ("Enum", "Flag"):
            ks = consts(args.pos[0]) if args.pos else None
            if ks and all(k in ci.enum.values() for k in ks):
                return frozenset(("enum", cid, k) for k in ks)
            if ci.kind == "Flag" and ks == [0]:
                return frozenset([("enum", cid, 0)])
            return frozenset([("enumany", cid)])
        ref = i.alloc(st, node, Inst(cid))
        init = self.find(cid, "__init__")
        if init is not None:
            k = i.stash(st, ref)
            i.call(init[1], Args([ref, *args.pos], args.kw, args.star, args.kwstar), st, node)
            ref = i.unstash(st, k)
            i.tmpn -= 1
            if st.dead:
                return BOT
        return ref

    # ------------------------------------------------------------ calls
    def call(self, a, args, st, node):
        k = a[0]
        i = self.i
        if k == "top":
            return TOP
        if k == "x":
            return self.call_x(a[1], args, st, node)
        if k == "xm":
            return self.call_xm(a, args, st, node)
        if k == "cls":
            return self.instantiate(a, args, st, node)
        if k == "part":
            kw = dict(a[3])
            kw.update(args.kw)
            return i.call(a[1], Args([*a[2], *args.pos], kw, args.star, args.kwstar), st, node)
        if k == "r":
            ob = i.get(st, a[1])
            if type(ob) is Inst:
                if isinstance(ob.cls, tuple):
                    if ob.cls[1] == "singledispatch":
                        return self.dispatch(ob, args, st, node)
                    return TOP
                if self.find(ob.cls, "__call__"):
                    f = self.getattr(frozenset([a]), "__call__", st, node)
                    return i.call(f, args, st, node)
            return TOP
        if k == "gn":
            i.ev("group_none_use", node, str(a[1]), use="call")
            st.dead = True
            return BOT
        if k == "c":
            st.dead = True
            return BOT
        return TOP

    def dispatch(self, ob, args, st, node):
        i = self.i
        pos = 1 if "skip" in ob.attrs else 0
        if len(args.pos) <= pos:
            return i.call(ob.attrs["default"], args, st, node)
        groups = {}
        for x in args.pos[pos]:
            f = None
            best = None
            for tk, fv in ob.attrs.items():
                if not tk.startswith("T:"):
                    continue
                for one in tk[2:].split("|"):
                    t = ("cls", one[4:]) if one.startswith("cls:") else ("x", one[2:])
                    r = self.isinst1(x, t, st)
                    if r is True:
                        tn = self.tname(x, st)
                        exactm = (isinstance(tn, str) and tn == one[2:]) or \
                            (isinstance(tn, ClsInfo) and one == "cls:" + tn.cid)
                        rank = 2 if exactm else 1
                        if best is None or rank > best:
                            best, f = rank, fv
            f = f or ob.attrs["default"]
            groups.setdefault(f, set()).add(x)
        res = None
        for f, xs in groups.items():
            s = st.copy() if len(groups) > 1 else st
            p = list(args.pos)
            p[pos] = frozenset(xs)
            v = i.call(f, Args(p, args.kw, args.star, args.kwstar), s, node)
            if s.dead:
                continue
            s.top()["%sd"] = v
            res = sjoin(res, s)
        if res is None:
            st.dead = True
            return BOT
        v = res.top().pop("%sd")
        st.set_from(res)
        return v

    def arg(self, args, n, name=None, default=None):
        if n is not None and len(args.pos) > n:
            return args.pos[n]
        if name is not None and name in args.kw:
            return args.kw[name]
        if args.star is not None:
            return args.star
        return default

    # ---- external functions
    def call_x(self, name, args, st, node):
        i = self.i
        i.ev("ext", node, name)
        for p, r in (("builtins.", ""),):
            if name.startswith(p):
                name = name[len(p):]
        f = getattr(self, "f_" + name.replace(".", "_"), None)
        if f is not None:
            return f(args, st, node)
        if name in EXC or last(name) in EXC:
            return frozenset([("xi", "exception", None)])
        head, _, meth = name.partition(".")
        if head in ("str", "bytes") and meth in ("maketrans", "fromhex"):
            return TOP
        if head in ("str", "bytes") and meth and args.pos:
            return self.call(("xm", args.pos[0], meth), Args(args.pos[1:], args.kw, args.star, args.kwstar), st, node)
        if head in ("dict", "list", "set", "tuple") and meth and args.pos:
            ff = self.getattr(args.pos[0], meth, st, node)
            return BOT if st.dead else i.call(ff, Args(args.pos[1:], args.kw), st, node)
        if head in ("logging", "warnings"):
            return NONE
        if head == "re" and meth in ("search", "match", "fullmatch", "finditer", "findall", "split"):
            out = BOT
            fl = self.arg(args, 2, "flags") if meth != "split" else args.kw.get("flags")
            fs = consts(fl) if fl is not None else [0]
            for r in sorted(self.rxof(args.pos[0], st), key=repr):
                out = join(out, self.matchcall(r, meth, self.arg(args, 1, "string", TOP), st, node,
                                               (fs or [0])[0] if isinstance((fs or [0])[0], int) else 0))
                if st.dead:
                    return BOT
            return out
        if head == "typing" or name.startswith("collections.abc."):
            return TOP
        i.un("call " + name, node)
        return TOP

    def f_re_compile(self, args, st, node):
        fl = self.arg(args, 1, "flags")
        fs = consts(fl) if fl is not None else [0]
        out = set()
        for a in args.pos[0] if args.pos else args.kw.get("pattern", TOP):
            if a[0] == "rx":
                out.add(a)
            elif a[0] == "c" and isinstance(a[2], (str, bytes)) and fs:
                for f in fs:
                    out.add(("rx", a[2], f))
                    self.i.ev("compile", node, str(a[2]), pattern=a[2], flags=f)
            else:
                out.add(("rx", None, 0))
        return frozenset(out)

    def f_re_sub(self, args, st, node):
        subj = self.arg(args, 2, "string", TOP)
        for r in self.rxof(args.pos[0], st):
            if r[1] is not None:
                self.i.ev("regex", node, f"sub:{r[1]}", pattern=r[1], flags=r[2], method="sub")
        return self.subres(subj, self.arg(args, 1, "repl", TOP), st, node)

    def subres(self, subj, repl, st, node):
        for f in repl:
            if f[0] in ("fn", "bm"):
                self.i.call(frozenset([f]), Args([frozenset([("m", None, None, frozenset(), frozenset())])]), st, node)
        out = BOT
        for a in subj:
            if a[0] == "s":
                out = join(out, frozenset([a]))
            elif a[0] == "gn":
                self.i.ev("group_none_use", node, str(a[1]), use="re.sub")
            else:
                out = join(out, S())
        return out or S()

    def f_re_escape(self, args, st, node):
        cs = consts(args.pos[0])
        if cs is not None and all(isinstance(c, str) for c in cs):
            return frozenset(C(re.escape(c)) for c in cs)
        return S()

    # ---- conversions
    def numconv(self, t, args, st, node):
        if not args.pos:
            if args.star is not None:
                return N(t)
            if t == "complex" and args.kw:
                return N("complex")
            return const({"int": 0, "float": 0.0, "complex": 0j, "bool": False}[t])
        if t == "complex" and len(args.pos) == 2:
            for x in args.pos:
                for a in x:
                    if a[0] == "gn":
                        self.i.ev("group_none_use", node, str(a[1]), use=t)
            return N("complex")
        out = BOT
        for a in args.pos[0]:
            k = a[0]
            if k == "s":
                out = join(out, N(t, a[1]))
            elif k == "n":
                out = join(out, N(t, a[2]))
            elif k == "c":
                try:
                    if isinstance(a[2], str) and len(args.pos) > 1:
                        out = join(out, N(t))
                    else:
                        out = join(out, const({"int": int, "float": float, "complex": complex}[t](a[2])))
                except (ValueError, TypeError, OverflowError):
                    self.raises("ValueError", st)
            elif k == "gn":
                self.i.ev("group_none_use", node, str(a[1]), use=t)
            elif k == "xi" and a[1] == "fractions.Fraction":
                out = join(out, N(t, a[2]))
            elif k in ("top", "xi", "b"):
                out = join(out, N(t, a[1] if k == "b" else None))
            elif k in ("r", "t", "tu", "fn", "m"):
                ob = self.i.get(st, a[1]) if k == "r" else None
                if type(ob) in (TopObj, Inst):
                    out = join(out, N(t))
                else:
                    self.raises("TypeError", st)
            else:
                out = join(out, N(t))
        if not out:
            st.dead = True
        return out

    def f_int(self, args, st, node):
        return self.numconv("int", args, st, node)

    def f_float(self, args, st, node):
        return self.numconv("float", args, st, node)

    def f_complex(self, args, st, node):
        if self.i.binwin and len(args.pos) == 2:
            self.i.ev("complex", node, "", re=args.pos[0], im=args.pos[1])
            return N("complex", self.arprov(*[a[2] for p in args.pos for a in p if a[0] == "n"]))
        return self.numconv("complex", args, st, node)

    def f_bool(self, args, st, node):
        if not args.pos:
            return FALSE
        out = BOT
        for a in args.pos[0]:
            r = self.truth(a, st, node)
            if a[0] == "n":
                out = join(out, N("bool", a[2]))
                if a[1] != "bool":
                    self.i.ev("num_truth", node, str(a[2])[:80], prov=a[2], none=False, conv=True)
            else:
                out = join(out, BOOL if r is None else const(r))
        return out

    def f_str(self, args, st, node):
        if not args.pos:
            return const("")
        if len(args.pos) > 1 or "encoding" in args.kw:
            return frozenset(("s", self.bindec(a[1], "s", st, node) if a[0] == "b" else None) for a in args.pos[0])
        return self.str_of(args.pos[0], st, node)

    def f_repr(self, args, st, node):
        return S()

    f_format = f_ascii = f_chr = f_hex = f_bin = f_oct = f_repr

    def f_bytes(self, args, st, node):
        return frozenset([("b", None)])

    f_bytearray = f_bytes

    # ---- order of records in binary files (only where binwin is set)
    def bintoken(self, tok, st, node, reset=False):
        ob = st.heap.get(HANDLE)
        if type(ob) is not Inst or "wins" not in ob.attrs:
            return None
        wins = frozenset(w for a in ob.attrs["wins"] if a[0] == "win" for w in a[1])
        new = frozenset([(tok,)]) if reset else frozenset(self.after(w, tok) for w in wins)
        n = ob.copy()
        n.attrs["wins"] = frozenset([("win", new)])
        self.i.put(st, HANDLE, n, node)
        return new

    def after(self, w, tok):
        """Pieces of one record count as one record."""
        if w and "@" in w[-1]:
            if "@" in tok and int(tok.split("@")[1]) > int(w[-1].split("@")[1]):
                w = w[:-1]
            else:
                w = (*w[:-1], "R")
        return (*w, tok)[-8:]

    def bindec(self, p, letter, st, node):
        """A record is decoded: where it comes from, by what was decoded before it."""
        if not self.i.binwin or p is None or p[0] in ("mark", "rec"):
            return p
        cut, start = "", 0
        while p and p[0] == "cut":
            lo = p[1][0] or 0
            start = None if start is None or not isinstance(lo, int) or lo < 0 else start + lo
            cut = f"@{start or 0}"
            p = p[2]
        if p != ("F",):
            return p
        new = self.bintoken(letter + cut, st, node)
        return p if new is None else ("rec", new)

    def leaves(self, p):
        """The records a number depends on."""
        if p is None:
            return frozenset()
        if p[0] in ("rec", "field"):
            return frozenset([p])
        if p[0] == "ar":
            return frozenset(p[1])
        return frozenset()

    def arprov(self, *ps):
        got = frozenset(y for p in ps for y in self.leaves(p))
        if len(ps) == 1:
            return ps[0] if got else None
        return self.arith(got, None)

    def arith(self, leaves, mono):
        """A number computed from records; mono: (numerator, denominator, ((factor, power), ...)) where it is a product."""
        if not leaves:
            return None
        if mono is not None and mono[:2] == (1, 1) and len(mono[2]) == 1 and mono[2][0][1] == 1:
            return mono[2][0][0]
        return ("ar", tuple(sorted(leaves, key=repr)), mono)

    def mono(self, a):
        if a[0] == "c":
            return (a[2], 1, ()) if type(a[2]) is int and a[2] > 0 else None
        p = a[2] if a[0] == "n" else None
        if p is None:
            return None
        if p[0] in ("rec", "field"):
            return (1, 1, ((p, 1),))
        return p[2] if p[0] == "ar" else None

    def arop(self, op, a, b):
        ls = frozenset(y for x in (a, b) if x[0] == "n" for y in self.leaves(x[2]))
        x, y = self.mono(a), self.mono(b)
        m = None
        if x is not None and y is not None and op in ("Mult", "FloorDiv", "Div"):
            k = 1 if op == "Mult" else -1
            n, d = (x[0] * y[0], x[1] * y[1]) if k == 1 else (x[0] * y[1], x[1] * y[0])
            fs = dict(x[2])
            for f, e in y[2]:
                fs[f] = fs.get(f, 0) + k * e
            g = math.gcd(n, d)
            m = (n // g, d // g, tuple(sorted(((f, e) for f, e in fs.items() if e), key=repr)))
        return self.arith(ls, m)

    def f_int_from_bytes(self, args, st, node):
        p = None
        if self.i.binwin:
            o = self.arg(args, 1, "byteorder", const("big"))
            for c in consts(o) or ["?"]:
                self.i.ev("byteorder", node, str(c))
        if args.pos and args.pos[0] and all(a[0] == "c" and a[2] == b"" for a in args.pos[0]):
            return const(0)
        for a in args.pos[0] if args.pos else ():
            if a[0] == "b":
                p = self.bindec(a[1], "i", st, node)
        return N("int", p)

    def f_ord(self, args, st, node):
        return N("int")

    def f_hash(self, args, st, node):
        return N("int")

    f_id = f_hash

    def f_fractions_Fraction(self, args, st, node):
        p = None
        out = set()
        for a in args.pos[0] if args.pos else ():
            if a[0] == "s":
                out.add(("xi", "fractions.Fraction", a[1]))
            elif a[0] == "gn":
                self.i.ev("group_none_use", node, str(a[1]), use="Fraction")
            elif a[0] == "n":
                out.add(("xi", "fractions.Fraction", a[2]))
            else:
                out.add(("xi", "fractions.Fraction", None))
        if not out:
            st.dead = True
        return frozenset(out)

    def f_abs(self, args, st, node):
        out = BOT
        for a in args.pos[0]:
            if a[0] == "c" and isinstance(a[2], (int, float)):
                out = join(out, const(abs(a[2])))
            elif a[0] == "n":
                out = join(out, N("float" if a[1] == "complex" else a[1], a[2]))
            else:
                out = join(out, TOP)
        return out

    def f_round(self, args, st, node):
        out = BOT
        for a in args.pos[0]:
            if a[0] in ("n", "c"):
                out = join(out, N("int" if len(args.pos) == 1 else a[1], a[2] if a[0] == "n" else None))
            else:
                out = TOP
        return out

    def f_divmod(self, args, st, node):
        return frozenset([("t", (N("int"), N("int")))])

    def f_math_isqrt(self, args, st, node):
        if self.i.binwin:
            out = BOT
            for a in args.pos[0] if args.pos else ():
                m, p = self.mono(a), a[2] if a[0] == "n" else None
                m = None if m is None or m[:2] != (1, 1) else (1, 1, tuple((f, Fraction(e, 2)) for f, e in m[2]))
                out = join(out, N("int", self.arith(self.leaves(p), m)))
            return out
        return N("int")

    def f_math_sqrt(self, args, st, node):
        return frozenset(("n", "float", a[2]) for a in self.f_math_isqrt(args, st, node))

    def f_math_floor(self, args, st, node):
        if self.i.binwin:
            return frozenset(("n", "int", a[2] if a[0] == "n" else None) for p in args.pos for a in p) or BOT
        return N("int")

    f_math_ceil = f_math_floor

    def f_len(self, args, st, node):
        out = BOT
        for a in args.pos[0]:
            if a[0] == "gn":
                self.i.ev("group_none_use", node, str(a[1]), use="len")
                continue
            if a[0] == "c":
                try:
                    out = join(out, const(len(a[2])))
                except TypeError:
                    pass
                continue
            if a[0] == "t":
                out = join(out, const(len(a[1])))
                continue
            if a[0] == "r":
                ob = self.i.get(st, a[1])
                if type(ob) is List and ob.elems is not None and ob.kind != "set":
                    out = join(out, const(len(ob.elems)))
                    continue
                if type(ob) is Inst and not isinstance(ob.cls, tuple) and self.find(ob.cls, "__len__"):
                    out = join(out, self.callmethod(frozenset([a]), "__len__", [], st, node))
                    if st.dead:
                        return BOT
                    continue
                if type(ob) is Dict and not ob.restk and all(m for _v, m in ob.items.values()):
                    out = join(out, const(len(ob.items)))
                    continue
            out = join(out, N("int", ("blen", 1) if a[0] == "b" and self.i.binwin else None))
        if not out:
            st.dead = True
        return out

    # ---- containers
    def f_list(self, args, st, node):
        if not args.pos:
            return self.i.alloc(st, node, List("list", ()))
        es, el = self.elems(args.pos[0], st, node)
        u = self.unordered(args.pos[0], st)
        if st.dead:
            return BOT
        return self.i.alloc(st, node, List("list", tuple(es)) if es is not None else
                            List("list", None, el, self.optels(args.pos[0], st, node), u))

    def unordered(self, av, st):
        for a in av:
            if a[0] == "r":
                ob = self.i.get(st, a[1])
                if type(ob) in (List, Iter, Dict) and ob.unord:
                    return True
        return False

    def optels(self, av, st, node):
        segs = self.segments(av, st, node)
        if len(segs) > 60 or any(k != "one" for k, _e, _m in segs):
            return None
        return tuple((e, m) for _k, e, m in segs)

    def f_collections_deque(self, args, st, node):
        r = self.f_list(args, st, node)
        return r

    def f_tuple(self, args, st, node):
        if not args.pos:
            return frozenset([("t", ())])
        av = args.pos[0]
        if all(a[0] in ("t", "tu") for a in av):
            return av
        out = BOT
        for a in sorted(av, key=repr):
            es, el = self.elems(frozenset([a]), st, node)
            if st.dead:
                return BOT
            out = join(out, frozenset([("t", tuple(es))]) if es is not None else frozenset([("tu", el, None)]))
        return out

    def f_set(self, args, st, node):
        if not args.pos:
            return self.i.alloc(st, node, List("set", ()))
        es, el = self.elems(args.pos[0], st, node)
        return self.i.alloc(st, node, self.mkset(es) if es is not None else
                            List("set", None, generic(el), self.setopt(self.optels(args.pos[0], st, node)), True))

    f_frozenset = f_set

    def f_dict(self, args, st, node):
        d = Dict({})
        for p in args.pos[:1]:
            self.dict_update(d, p, st, node)
        for k, v in args.kw.items():
            self.dict_set(d, const(k), v, True)
        if args.kwstar is not None:
            d.restk, d.restv = join(d.restk, S()), join(d.restv, args.kwstar)
        return self.i.alloc(st, node, d)

    f_collections_OrderedDict = f_dict

    def f_collections_Counter(self, args, st, node):
        d = Dict({})
        if args.pos:
            _es, el = self.elems(args.pos[0], st, node)
            if el:
                d.restk, d.restv = generic(el), N("int")
        d.factory = frozenset([("x", "int")])
        return self.i.alloc(st, node, d)

    def f_collections_defaultdict(self, args, st, node):
        d = Dict({})
        f = args.pos[0] if args.pos else NONE
        for p in args.pos[1:2]:
            self.dict_update(d, p, st, node)
        for k, v in args.kw.items():
            self.dict_set(d, const(k), v, True)
        d.factory = frozenset(a for a in f if a != C(None))
        return self.i.alloc(st, node, d)

    def f_collections_ChainMap(self, args, st, node):
        d = Dict({})
        for p in reversed(args.pos):
            self.dict_update(d, p, st, node)
        return self.i.alloc(st, node, d)

    def f_dict_fromkeys(self, args, st, node):
        d = Dict({})
        v = args.pos[1] if len(args.pos) > 1 else NONE
        for k, e, m in self.segments(args.pos[0], st, node):
            if k == "user":
                e = self.drain(e, st, node)
            self.dict_set(d, e, v, k == "one" and bool(m))
        d.unord = self.unordered(args.pos[0], st)
        return self.i.alloc(st, node, d)

    def f_range(self, args, st, node):
        cs = [consts(p, 1) for p in args.pos]
        if all(cs) and all(isinstance(c[0], int) for c in cs):
            r = range(*[c[0] for c in cs])
            if len(r) <= 64:
                return wrap(tuple(r))
        if self.i.binwin:
            self.i.ranges.append(("count", self.arprov(*[a[2] for p in args.pos for a in p if a[0] == "n"]), node))
        return frozenset([("tu", N("int"), None)])

    def f_iter(self, args, st, node):
        i = self.i
        if len(args.pos) == 2:
            v = i.call(args.pos[0], Args(), st, node)
            return BOT if st.dead else i.alloc(st, node, Iter(None, v))
        out = BOT
        for a in sorted(args.pos[0], key=repr):
            if a[0] == "r" and type(i.get(st, a[1])) is Iter:
                out = join(out, frozenset([a]))
                continue
            segs = self.segs1(a, st, node)
            if len(segs) == 1 and segs[0][0] == "user":
                out = join(out, segs[0][1])
                continue
            es = [e for _k, e, _m in segs]
            if all(k == "one" and m for k, _e, m in segs):
                out = join(out, i.alloc(st, node, Iter(tuple(es))))
            else:
                if a[0] == "r" and type(i.get(st, a[1])) is Inst:
                    out = join(out, frozenset([a]))
                    continue
                out = join(out, i.alloc(st, node, Iter(None, joinall(es))))
        return out

    def f_next(self, args, st, node):
        i = self.i
        if len(args.pos) > 1:
            i.sinks.append([])
            v = self.next_of(args.pos[0], st, node)
            sink = i.sinks.pop()
            res = None
            if not st.dead:
                st.top()["%nn"] = v
                res = st.copy()
            for names, s in sink:
                if names is not None and "StopIteration" in names:
                    s.dead = False
                    s.top()["%nn"] = args.pos[1]
                    res = sjoin(res, s)
                else:
                    i.sinks[-1].append((names, s))
            if res is None:
                st.dead = True
                return BOT
            v = res.top().pop("%nn")
            st.set_from(res)
            st.dead = False
            return v
        i.ev("next", node, "", )
        return self.next_of(args.pos[0], st, node)

    def f_enumerate(self, args, st, node):
        i = self.i
        start = self.arg(args, 1, "start", const(0))
        s0 = consts(start, 1)
        es, el = self.elems_lazy(args.pos[0], st, node)
        if es is not None and s0 and isinstance(s0[0], int):
            return i.alloc(st, node, Iter(tuple(frozenset([("t", (const(s0[0] + j), e))]) for j, e in enumerate(es))))
        if es is not None:
            el = joinall(es)
        if el is None:
            return self.lazy_user(args.pos[0], lambda e: frozenset([("t", (N("int"), e))]), st, node)
        return i.alloc(st, node, Iter(None, frozenset([("t", (N("int"), el))])))

    def elems_lazy(self, av, st, node):
        return self.elems(av, st, node)

    def lazy_user(self, av, f, st, node):
        return TOP

    def zipelems(self, seqs, st, node, longest=None):
        """seqs: AVs -> list of tuples of AV, or an AV of the general element."""
        parts = [self.elems(s, st, node) for s in seqs]
        exacts = [p[0] for p in parts]
        if parts and all(e is not None for e in exacts):
            n = (max if longest is not None else min)(len(e) for e in exacts)
            return [tuple(e[j] if j < len(e) else longest for e in exacts) for j in range(n)], None
        if any(e is not None for e in exacts) and longest is None:
            n = min(len(e) for e in exacts if e is not None)
            if n <= 64:
                return [tuple(p[0][j] if p[0] is not None else at_index(p[1], j) for p in parts) for j in range(n)], None
        return None, frozenset([("t", tuple(join(p[1], longest) if longest is not None else p[1] for p in parts))])

    def f_zip(self, args, st, node):
        i = self.i
        if args.star is not None:
            return i.alloc(st, node, Iter(None, frozenset([("tu", generic(self.elems(args.star, st, node)[1]), None)])))
        if i.binwin:
            self.zip_over(args.pos, st, node)
        es, g = self.zipelems(args.pos, st, node)
        if es is not None:
            return i.alloc(st, node, Iter(tuple(frozenset([("t", e)]) for e in es)))
        return i.alloc(st, node, Iter(None, g))

    def zip_over(self, seqs, st, node):
        """A reader before a finite sequence: zip takes one element of the reader too many."""
        def reader(av):
            obs = [st.heap.get(a[1]) if a[0] == "r" else None for a in av]
            return bool(obs) and all(type(o) is Inst and o.cls is not None and self.find(o.cls, "__next__") for o in obs)

        seen = None
        for s in seqs:
            if reader(s):
                seen = s
            elif seen is not None and self.elems(s, st, node)[0] is not None:
                self.i.ev("zip_over", node)
                return

    def f_itertools_zip_longest(self, args, st, node):
        fv = args.kw.get("fillvalue", NONE)
        es, g = self.zipelems(args.pos, st, node, fv)
        if es is not None:
            return self.i.alloc(st, node, Iter(tuple(frozenset([("t", e)]) for e in es)))
        return self.i.alloc(st, node, Iter(None, g))

    def f_map(self, args, st, node):
        i = self.i
        if args.star is not None:
            return TOP
        es, g = self.zipelems(args.pos[1:], st, node)
        if st.dead:
            return BOT
        if es is not None:
            outs = []
            for j, e in enumerate(es):
                svc = i.frames[-1].ctx
                i.frames[-1].ctx = i.subctx(("map", nid(node), j))
                ks = [i.stash(st, o) for o in outs]
                v = i.call(args.pos[0], Args(list(e)), st, node)
                outs = [i.unstash(st, k) for k in ks]
                i.tmpn -= len(ks)
                i.frames[-1].ctx = svc
                if st.dead:
                    return BOT
                outs.append(v)
            return i.alloc(st, node, Iter(tuple(outs)))
        acc = BOT
        for _ in range(2):
            s = st.copy()
            nsink = len(i.sinks[-1])
            v = i.call(args.pos[0], Args(list(next(iter(g))[1])), s, node)
            del i.sinks[-1][nsink + 1:]
            if not s.dead:
                acc = join(acc, v)
                st.set_from(st.join(s))
        return i.alloc(st, node, Iter(None, acc) if acc else Iter(()))

    def f_filter(self, args, st, node, neg=False):
        i = self.i
        es, el = self.elems(args.pos[1], st, node)
        items = es if es is not None else [el]
        outs = []
        exact = es is not None
        for e in items:
            if args.pos[0] == NONE:
                self.num_check(e, node)
                res = {a: self.truth(a, st, node) for a in e}
                keep = frozenset(a for a, r in res.items() if r is not False) if not neg else \
                    frozenset(a for a, r in res.items() if r is not True)
                sure = all(r is (not neg) for r in res.values())
            else:
                s = st.copy()
                nsink = len(i.sinks[-1])
                v = i.call(args.pos[0], Args([e]), s, node)
                del i.sinks[-1][nsink + 1:]
                ts = {self.truth(a, s, node) for a in v}
                if not s.dead:
                    st.set_from(st.join(s))
                want = not neg
                keep = e if (want in ts or None in ts) else BOT
                sure = ts == {want}
            if keep:
                outs.append(keep)
                if not sure:
                    exact = False
        if exact:
            return i.alloc(st, node, Iter(tuple(outs)))
        return i.alloc(st, node, Iter(None, generic(joinall(outs)) if es is not None else joinall(outs)))

    def f_itertools_filterfalse(self, args, st, node):
        return self.f_filter(args, st, node, neg=True)

    def f_reversed(self, args, st, node):
        es, el = self.elems(args.pos[0], st, node)
        return self.i.alloc(st, node, Iter(tuple(reversed(es))) if es is not None else Iter(None, generic(el)))

    def f_sorted(self, args, st, node):
        es, el = self.elems(args.pos[0], st, node)
        if "key" in args.kw and el:
            s = st.copy()
            nsink = len(self.i.sinks[-1])
            self.i.call(args.kw["key"], Args([generic(el)]), s, node)
            del self.i.sinks[-1][nsink + 1:]
        if es is not None and not args.kw:
            cs = [consts(e, 1) for e in es]
            if all(cs):
                try:
                    return self.i.alloc(st, node, List("list", tuple(wrap(c) for c in sorted(c[0] for c in cs))))
                except TypeError:
                    pass
        return self.i.alloc(st, node, List("list", None, generic(el)))

    def f_min(self, args, st, node):
        if len(args.pos) > 1:
            cs = [consts(p, 1) for p in args.pos]
            if all(cs) and not args.kw:
                try:
                    return const((min if self._mm == "min" else max)(c[0] for c in cs))
                except (TypeError, AttributeError):
                    pass
            return joinall(args.pos)
        _es, el = self.elems(args.pos[0], st, node)
        if "default" in args.kw:
            el = join(el, args.kw["default"])
        if not el:
            st.dead = True
        return generic(el)

    _mm = "min"

    def f_max(self, args, st, node):
        self._mm = "max"
        r = self.f_min(args, st, node)
        self._mm = "min"
        return r

    def f_sum(self, args, st, node):
        es, el = self.elems(args.pos[0], st, node)
        ts = {self.tname(a, st) for a in el}
        start = self.arg(args, 1, "start")
        if start is not None:
            return TOP
        if ts <= {"int", "bool"}:
            return N("int") if ts else const(0)
        if ts <= {"int", "bool", "float"}:
            return N("float")
        return TOP

    def num_check(self, v, node):
        for a in v:
            if a[0] == "n" and a[1] != "bool":
                self.i.ev("num_truth", node, str(a[2])[:80], prov=a[2],
                          none=any(x[0] in ("gn",) or x == C(None) for x in v))

    def anyall(self, args, st, node, isany):
        es, el = self.elems(args.pos[0], st, node)
        if st.dead:
            return BOT
        for e in (es if es is not None else [el]):
            self.num_check(e, node)
        if es is not None:
            res = not isany
            unk = False
            for e in es:
                ts = {self.truth(a, st, node) for a in e}
                if ts == {isany}:
                    return const(isany)
                if None in ts or len(ts) > 1:
                    unk = True
            return BOOL if unk else const(res)
        ts = {self.truth(a, st, node) for a in el}
        if not (ts - {not isany}):
            return const(not isany)
        return BOOL

    def f_any(self, args, st, node):
        return self.anyall(args, st, node, True)

    def f_all(self, args, st, node):
        return self.anyall(args, st, node, False)

    def f_itertools_islice(self, args, st, node):
        i = self.i
        src = args.pos[0]
        cs = [consts(p, 1) for p in args.pos[1:]]
        if all(cs) and cs:
            lo, hi = (0, cs[0][0]) if len(cs) == 1 else (cs[0][0], cs[1][0])
        else:
            lo = hi = None
        segs = self.segments(src, st, node)
        if all(k == "one" and m for k, _e, m in segs) and hi is not None:
            es = [e for _k, e, _m in segs]
            return i.alloc(st, node, Iter(tuple(es[lo:hi])))
        acc = BOT
        for k, e, _m in segs:
            if k == "user":
                # reads some lines
                acc = join(acc, self.drain(e, st, node))
            else:
                acc = join(acc, e)
        if lo is not None and lo >= 0:
            acc = shifted(acc, lo, 1, None if hi is None else hi - lo)
        else:
            acc = generic(acc)
        return i.alloc(st, node, Iter(None, acc))

    def f_itertools_count(self, args, st, node):
        return self.i.alloc(st, node, Iter(None, N("int")))

    def f_itertools_chain(self, args, st, node):
        out, exact = [], True
        rest = BOT
        for p in args.pos:
            es, el = self.elems(p, st, node)
            if es is None:
                exact = False
            else:
                out += es
            rest = join(rest, el)
        if args.star is not None:
            exact = False
            rest = join(rest, self.elems(args.star, st, node)[1])
        return self.i.alloc(st, node, Iter(tuple(out)) if exact else Iter(None, generic(rest)))

    def f_itertools_chain_from_iterable(self, args, st, node):
        es, el = self.elems(args.pos[0], st, node)
        rest = self.elems(el, st, node)[1] if el else BOT
        return self.i.alloc(st, node, Iter(None, generic(rest)))

    def f_itertools_combinations_with_replacement(self, args, st, node):
        _es, el = self.elems(args.pos[0], st, node)
        n = consts(args.pos[1], 1)
        el = generic(el)
        t = ("t", (el,) * n[0]) if n and n[0] <= 4 else ("tu", el, None)
        return self.i.alloc(st, node, Iter(None, frozenset([t])))

    f_itertools_combinations = f_itertools_permutations = f_itertools_combinations_with_replacement

    def f_itertools_product(self, args, st, node):
        els = [generic(self.elems(p, st, node)[1]) for p in args.pos]
        n = consts(args.kw["repeat"], 1) if "repeat" in args.kw else [1]
        if n and len(els) * n[0] <= 6:
            return self.i.alloc(st, node, Iter(None, frozenset([("t", tuple(els * n[0]))])))
        return self.i.alloc(st, node, Iter(None, frozenset([("tu", joinall(els), None)])))

    def f_itertools_repeat(self, args, st, node):
        return self.i.alloc(st, node, Iter(None, args.pos[0]))

    f_itertools_cycle = f_reversed

    def f_itertools_takewhile(self, args, st, node):
        return self.f_filter(Args([TRUE, args.pos[1]]) if False else args, st, node)

    f_itertools_dropwhile = f_itertools_takewhile

    def f_itertools_groupby(self, args, st, node):
        _es, el = self.elems(args.pos[0], st, node)
        return self.i.alloc(st, node, Iter(None, frozenset([("t", (TOP, frozenset([("tu", el, None)])))])))

    def f_copy_copy(self, args, st, node, deep=False):
        i = self.i
        out = BOT
        memo = {}
        for a in sorted(args.pos[0], key=repr):
            if a[0] == "r":
                ob = i.get(st, a[1])
                if deep:
                    out = join(out, self.deepcopy(a, st, node, 0, memo))
                elif type(ob) is Iter or type(ob) is TopObj:
                    out = join(out, frozenset([a]))
                else:
                    out = join(out, i.alloc(st, node, ob.copy()))
            else:
                out = join(out, frozenset([a]))
        return out

    def f_copy_deepcopy(self, args, st, node):
        return self.f_copy_copy(args, st, node, deep=True)

    def deepcopy(self, a, st, node, depth, memo=None):
        i = self.i
        memo = {} if memo is None else memo
        if a[0] == "t":
            return frozenset([("t", tuple(self.deepav(x, st, node, depth + 1, memo) for x in a[1]))])
        if a[0] == "tu":
            return frozenset([("tu", self.deepav(a[1], st, node, depth + 1, memo), a[2])])
        if a[0] != "r":
            return frozenset([a])
        if a[1] in memo:
            return memo[a[1]]
        ob = i.get(st, a[1])
        if type(ob) is TopObj:
            return TOP
        n = ob.copy()
        r = i.alloc(st, node, n, ("dc", len(memo)))
        memo[a[1]] = r
        if type(ob) is Dict:
            n.items = {k: (self.deepav(v, st, node, depth + 1, memo), m) for k, (v, m) in ob.items.items()}
            n.restv = self.deepav(ob.restv, st, node, depth + 1, memo)
        elif type(ob) is List:
            if ob.elems is not None:
                n.elems = tuple(self.deepav(e, st, node, depth + 1, memo) for e in ob.elems)
            n.rest = self.deepav(ob.rest, st, node, depth + 1, memo)
        elif type(ob) is Inst:
            n.attrs = {k: self.deepav(v, st, node, depth + 1, memo) for k, v in ob.attrs.items()}
        st.heap[next(iter(r))[1]] = n.copy()
        return r

    def deepav(self, av, st, node, depth, memo):
        out = BOT
        for a in sorted(av, key=repr):
            out = join(out, self.deepcopy(a, st, node, depth, memo))
        return out

    # ---- introspection
    def f_isinstance(self, args, st, node):
        y, n = self.split_isinstance(args.pos[0], args.pos[1], st)
        return join(TRUE if y else BOT, FALSE if n else BOT)

    def f_issubclass(self, args, st, node):
        return BOOL

    def f_callable(self, args, st, node):
        return BOOL

    def f_type(self, args, st, node):
        if len(args.pos) != 1:
            return TOP
        out = BOT
        for a in args.pos[0]:
            tn = self.tname(a, st)
            if isinstance(tn, ClsInfo):
                out = join(out, frozenset([("cls", tn.cid)]))
            elif tn in TYPES:
                out = join(out, frozenset([("x", tn)]))
            elif tn == "defaultdict":
                out = join(out, frozenset([("x", "collections.defaultdict")]))
            elif tn == "NoneType":
                out = join(out, frozenset([("x", "NoneType")]))
            elif tn is None:
                return TOP
            else:
                out = join(out, frozenset([("x", tn)]))
        return out

    def f_hasattr(self, args, st, node):
        ns = consts(args.pos[1])
        if ns is None:
            return BOOL
        out = BOT
        for a in args.pos[0]:
            if a[0] == "r":
                ob = self.i.get(st, a[1])
                if type(ob) is Inst and not isinstance(ob.cls, tuple):
                    for n in ns:
                        v = ob.attrs.get(n)
                        if v is not None and UNB not in v:
                            out = join(out, TRUE)
                        elif self.find(ob.cls, n) is not None:
                            out = join(out, TRUE)
                        elif v is not None:
                            out = BOOL
                        else:
                            out = join(out, FALSE)
                    continue
                if type(ob) is Inst and ob.cls[1] == "TextIO":
                    out = BOOL
                    continue
                if type(ob) in (List, Dict):
                    tp = {"list": list, "set": set, "deque": list}.get(getattr(ob, "kind", ""), dict)
                    out = join(out, joinall(const(hasattr(tp, n)) for n in ns))
                    continue
                out = BOOL
            elif a[0] in ("s", "n", "t", "tu") or a[0] == "c":
                tp = {"s": str, "t": tuple, "tu": tuple}.get(a[0]) or \
                    (type(a[2]) if a[0] == "c" else {"int": int, "float": float, "bool": bool}.get(a[1], complex))
                out = join(out, joinall(const(hasattr(tp, n)) for n in ns))
            else:
                out = BOOL
        return out

    def f_getattr(self, args, st, node):
        ns = consts(args.pos[1])
        if ns is None:
            out = BOT
            for a in args.pos[0]:
                if a[0] == "mod" and a[1] == "logging":
                    out = join(out, frozenset([("x", "logging.info")]))
                else:
                    out = TOP
            return out
        out = BOT
        if len(args.pos) > 2 and not args.star and len(ns) == 1:
            has = self.f_hasattr(args, st, node)
            if has == FALSE:
                return args.pos[2]
            if has == TRUE:
                return self.getattr(args.pos[0], next(iter(ns)), st, node)
        for n in ns:
            s = st.copy()
            v = self.getattr(args.pos[0], n, s, node)
            if s.dead:
                v = BOT
            out = join(out, v)
            if not s.dead:
                st.set_from(st.join(s))
        if len(args.pos) > 2:
            out = join(out, args.pos[2])
        if not out:
            st.dead = True
        return out

    def f_setattr(self, args, st, node):
        ns = consts(args.pos[1])
        if ns is None:
            self.i.ev("nsopen", node, "setattr")
        for n in ns or ():
            self.setattr(args.pos[0], n, args.pos[2], st, node)
        return NONE

    def f_vars(self, args, st, node):
        self.i.ev("nsopen", node, "vars")
        return TOP

    f_dir = f_globals = f_locals = f_eval = f_vars

    def f_super(self, args, st, node):
        return TOP

    def f_object(self, args, st, node):
        return frozenset([("xi", "object", None)])

    def f_print(self, args, st, node):
        to = args.kw.get("file", args.kwstar if args.kwstar is not None else NONE)
        for a in to:
            if a == C(None) or a[0] == "xi" and a[1] in ("sys.stdout", "sys.stderr"):
                self.i.ev("console", node, "print" if a == C(None) else f"print to {a[1]}", implicit=a == C(None))
            else:
                self.i.ev("file_write", node, "print", caller=self.is_caller_file(a, st))
        return NONE

    def is_caller_file(self, a, st):
        ob = self.i.get(st, a[1]) if a[0] == "r" else None
        return type(ob) is Inst and isinstance(ob.cls, tuple) and ob.attrs.get("owner") == const("caller")

    def f_input(self, args, st, node):
        return S()

    def f_slice(self, args, st, node):
        p = list(args.pos)
        if len(p) == 1:
            p = [NONE, p[0]]
        while len(p) < 3:
            p.append(NONE)
        return frozenset([("slice", tuple(p[:3]))])

    # ---- functools, typing, enum ...
    def f_functools_wraps(self, args, st, node):
        return frozenset([("x", "identity")])

    def f_identity(self, args, st, node):
        return args.pos[0] if args.pos else TOP

    f_typing_overload = f_typing_final = f_functools_lru_cache_ = f_identity
    f_typing_no_type_check = f_typing_runtime_checkable = f_staticmethod = f_identity

    def f_functools_lru_cache(self, args, st, node):
        if args.pos and any(a[0] in ("fn", "bm") for a in args.pos[0]):
            for a in args.pos[0]:
                if a[0] == "fn":
                    self.i.memoised.add(a[1])
            return args.pos[0]
        return frozenset([("x", "functools.lru_cache")])

    f_functools_cache = f_functools_lru_cache

    def f_functools_update_wrapper(self, args, st, node):
        return args.pos[0]

    def f_functools_partial(self, args, st, node):
        return frozenset([("part", args.pos[0], tuple(args.pos[1:]), tuple(sorted(args.kw.items())))])

    def f_functools_reduce(self, args, st, node):
        i = self.i
        es, el = self.elems(args.pos[1], st, node)
        acc = args.pos[2] if len(args.pos) > 2 else el
        if es is not None:
            it = list(es)
            acc = args.pos[2] if len(args.pos) > 2 else it.pop(0)
            for e in it:
                acc = i.call(args.pos[0], Args([acc, e]), st, node)
                if st.dead:
                    return BOT
            return acc
        for _ in range(3):
            s = st.copy()
            v = i.call(args.pos[0], Args([acc, el]), s, node)
            if s.dead:
                break
            acc = join(acc, v)
            st.set_from(st.join(s))
        return acc

    def f_functools_singledispatch(self, args, st, node):
        return self.i.alloc(st, node, Inst(("x", "singledispatch"), {"default": args.pos[0]}))

    def f_typing_cast(self, args, st, node):
        return args.pos[1]

    def f_typing_TypeVar(self, args, st, node):
        return frozenset([("x", "typing.TypeVar()")])

    f_typing_ParamSpec = f_typing_NewType = f_typing_TypeVar

    def f_typing_NamedTuple(self, args, st, node):
        return TOP

    def f_enum_auto(self, args, st, node):
        return frozenset([("xi", "auto", None)])

    f_contextlib_contextmanager = f_identity

    def f_contextlib_nullcontext(self, args, st, node):
        return args.pos[0] if args.pos else NONE

    def f_contextlib_suppress(self, args, st, node):
        return frozenset([("xi", "suppress", None)])

    def f_contextlib_closing(self, args, st, node):
        return args.pos[0]

    def f_struct_unpack(self, args, st, node):
        return self.unpack_fmt(args.pos[0], args.pos[1] if len(args.pos) > 1 else BOT, st, node)

    f_struct_unpack_from = f_struct_unpack

    def f_struct_iter_unpack(self, args, st, node):
        v = self.unpack_fmt(args.pos[0], args.pos[1] if len(args.pos) > 1 else BOT, st, node, True)
        return self.i.alloc(st, node, Iter(None, v))

    def f_struct_Struct(self, args, st, node):
        return frozenset([("xi", "struct.Struct", args.pos[0] if args.pos else BOT)])

    def unpack_fmt(self, fmt, data, st, node, each=False):
        cs = consts(fmt)
        p = None
        for a in data:
            if a[0] == "b":
                p = a[1]
        form = next((a[1][1] for a in fmt if a[0] == "s" and isinstance(a[1], tuple) and a[1][:1] == ("fmt",)), None)
        if cs and len(cs) == 1 and isinstance(cs[0], (str, bytes)):
            f = cs[0] if isinstance(cs[0], str) else cs[0].decode()
            if self.i.binwin:
                self.i.ev("unpack", node, repr((f,)), parts=(f,), each=each)
                p = self.bindec(p, "".join(re.findall(r"[a-zA-Z?]", f)), st, node)
            out = []
            for n, c in re.findall(r"(\d*)([a-zA-Z?])", f):
                cnt = int(n) if n else 1
                if c == "x":
                    continue
                if c in "sp":
                    out.append(frozenset([("b", p)]))
                    continue
                t = "float" if c in "dfe" else "bool" if c == "?" else "int"
                out += [N(t, pv("field", len(out) + j, p)) for j in range(min(cnt, 64))]
            return frozenset([("t", tuple(out))])
        c = None
        if form:
            self.i.ev("unpack", node, repr(form), parts=form, each=each)
            c = form[-1][-1:] if isinstance(form[-1], str) else None
        elif isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.JoinedStr):
            lastv = node.args[0].values[-1]
            if isinstance(lastv, ast.Constant):
                c = str(lastv.value)[-1:]
        t = None if not c else "float" if c in "dfe" else "bool" if c == "?" else "int" if c in "ilqhIQLHbB" else None
        p = self.bindec(p, c or "?", st, node)
        el = N(t, pv("field", POS, p)) if t else TOP
        return frozenset([("tu", el, None)])

    def f_io_StringIO(self, args, st, node):
        return self.i.alloc(st, node, Inst(("x", "file"), {"owner": const("own"), "binary": FALSE}))

    def f_io_BytesIO(self, args, st, node):
        return self.i.alloc(st, node, Inst(("x", "file"), {"owner": const("own"), "binary": TRUE}))

    def f_open(self, args, st, node):
        mode = self.arg(args, 1, "mode", const("r"))
        return self.openfile(mode, st, node, self.arg(args, 0, "file", TOP), self.encoded(args, 3))

    f_io_open = f_open

    def encoded(self, args, k):
        """Whether an encoding is given (None: not known)."""
        if args.star is not None or args.kwstar is not None:
            return None
        v = args.kw.get("encoding") or (args.pos[k] if len(args.pos) > k else None)
        return bool(v) and any(a not in (C(None), UNB) for a in v)

    def openfile(self, mode, st, node, path, enc=None):
        self.i.nopen += 1
        if enc is not None and all(isinstance(m, str) and "b" not in m for m in consts(mode) or ["?"]) and \
                (consts(mode) or ["b"]) != ["b"]:
            self.i.ev("decoding", node, str(enc), enc=enc)
        cs = consts(mode) or ["?"]
        ps = {a[1] if a[0] == "s" else a[2] if a[0] == "xi" else a[2] if a[0] == "c" else None for a in path}
        for m in cs:
            for q in ps:
                self.i.ev("open", node, f"{m} {q}", mode=m, path=q)
        b = TRUE if all(isinstance(m, str) and "b" in m for m in cs) else FALSE
        return self.i.alloc(st, node, Inst(("x", "file"), {"owner": const("own"), "binary": b, "mode": mode}))

    def f_pathlib_Path(self, args, st, node):
        p = None
        out = set()
        for a in args.pos[0] if args.pos else ():
            p = a[1] if a[0] == "s" else a[2] if a[0] == "xi" else \
                ("PATH", a[2]) if a[0] == "c" and isinstance(a[2], str) and len(args.pos) == 1 else None
            out.add(("xi", "pathlib.Path", p))
        return frozenset(out) or frozenset([("xi", "pathlib.Path", None)])

    f_pathlib_PurePath = f_pathlib_Path

    def f_argparse_ArgumentParser(self, args, st, node):
        return frozenset([("xi", "argparse.ArgumentParser", None)])

    # ---- methods
    def call_xm(self, a, args, st, node):
        i = self.i
        recv, name = a[1], a[2]
        x = next(iter(recv))
        k = x[0]
        if k in ("s", "b") or (k == "c" and isinstance(x[2], (str, bytes))):
            return self.str_method(recv, name, args, st, node)
        if k == "m":
            return self.match_method(x, name, args, st, node)
        if k == "rx":
            if name in ("sub", "subn"):
                if x[1] is not None:
                    i.ev("regex", node, f"sub:{x[1]}", pattern=x[1], flags=x[2], method="sub")
                return self.subres(self.arg(args, 1, "string", TOP), self.arg(args, 0, "repl", TOP), st, node)
            return self.matchcall(x, name, self.arg(args, 0, "string", TOP), st, node)
        if k == "view":
            if name in ("isdisjoint",):
                return BOOL
            if name in ("intersection", "union", "difference"):
                return TOP
            return TOP
        if k in ("t", "tu"):
            if name in ("index", "count"):
                return N("int")
            return TOP
        if k == "slice":
            if name == "indices":
                return frozenset([("t", (N("int"), N("int"), N("int")))])
            return TOP
        if k in ("n", "c"):
            if name in ("is_integer",):
                return BOOL
            if name in ("conjugate",):
                return frozenset([x])
            if name == "to_bytes":
                return frozenset([("b", None)])
            if name in ("bit_length", "as_integer_ratio"):
                return N("int")
            return TOP
        if k == "xi":
            return self.xi_method(x, name, args, st, node)
        if k == "r":
            ob = i.get(st, x[1])
            if type(ob) is Dict:
                return self.dict_method(x, ob, name, args, st, node)
            if type(ob) is List:
                return self.set_method(x, ob, name, args, st, node) if ob.kind == "set" else \
                    self.list_method(x, ob, name, args, st, node)
            if type(ob) is Iter:
                if name == "__next__":
                    return self.next_of(frozenset([x]), st, node)
                if name == "__iter__":
                    return frozenset([x])
                return NONE if name == "close" else TOP
            if type(ob) is Inst and isinstance(ob.cls, tuple):
                if ob.cls[1] == "singledispatch":
                    return self.register(x, ob, args, st, node)
                return self.file_method(x, ob, name, args, st, node)
        return TOP

    def register(self, x, ob, args, st, node):
        i = self.i
        n = ob.copy()
        if len(args.pos) == 2:
            n.attrs[self.typekey(args.pos[0])] = args.pos[1]
            st.heap[x[1]] = n
            return args.pos[1]
        f = args.pos[0]
        for a in f:
            if a[0] == "fn":
                n.attrs[self.anntype(i.prog.fns[a[1]], 0)] = f
                st.heap[x[1]] = n
                if x[1] in i.gheap:
                    i.gheap[x[1]] = n
                return f
        # register(type) used as decorator
        tk = self.typekey(f)
        return frozenset([("part", frozenset([("xm", frozenset([x]), "register")]), (f,), ())])

    def optarg(self, v, st):
        """Constant(s) an option is declared with; None when not known."""
        es, _el = self.elems(v, st, None) if not any(a[0] == "c" for a in v) else (None, None)
        if es is not None:
            vals = [consts(e, 60) for e in es]
            return ("seq", tuple(x[0] for x in vals)) if all(x and len(x) == 1 for x in vals) else None
        c = consts(v, 60)
        return ("const", c[0]) if c and len(c) == 1 else None

    def positioned(self, x, ob, name, args, st, node):
        """A file of which the line it is at is tracked."""
        at = consts(ob.attrs["at"], 1)
        if name == "tell":
            return ob.attrs["at"]
        n = ob.copy()
        if name == "seek":
            n.attrs["at"] = args.pos[0] if args.pos and len(args.pos) == 1 else N("int")
            r = n.attrs["at"]
        else:
            n.attrs["at"] = const(at[0] + 1) if at and isinstance(at[0], int) else N("int")
            r = S(("L",))
        self.i.put(st, x[1], n, node)
        return r

    def file_method(self, x, ob, name, args, st, node):
        i = self.i
        b = ob.attrs.get("binary") == TRUE
        kind = "b" if b else "s"
        caller = ob.attrs.get("owner") == const("caller")
        ended = ob.attrs.get("ended") == TRUE
        if ended and name in ("readline", "read"):
            return frozenset([C(b"" if b else "")])
        if "at" in ob.attrs and name in ("readline", "tell", "seek"):
            return self.positioned(x, ob, name, args, st, node)
        if name == "readline":
            i.ev("file_read", node, "readline")
            return frozenset([(kind, ("L",)), C(b"" if b else "")])
        if name == "read":
            i.ev("file_read", node, "read")
            if i.binwin and args.pos and consts(args.pos[0], 1) == [4]:
                return frozenset([("b", ("mark",)), C(b"")])
            return frozenset([(kind, ("F",))])
        if name == "readlines":
            return i.alloc(st, node, List("list", None, frozenset([(kind, ("L",))])))
        if name in ("tell", "seek"):
            if name == "seek":
                self.bintoken("seek", st, node)
            return N("int")
        if name in ("close", "detach"):
            if caller:
                i.ev("close_caller", node, name)
            i.ev("file_close", node, name)
            n = ob.copy()
            n.attrs["closed"] = TRUE
            i.put(st, x[1], n, node)
            return NONE
        if name in ("write", "writelines", "truncate"):
            i.ev("file_write", node, name, caller=caller)
            return N("int")
        if name in ("__enter__",):
            return frozenset([x])
        if name in ("__next__",):
            return self.next_of(frozenset([x]), st, node)
        if name in ("readable", "seekable", "writable"):
            return BOOL
        if name == "getvalue":
            return S()
        return NONE

    def xi_method(self, x, name, args, st, node):
        i = self.i
        n = last(x[1])
        if n == "ArgumentParser":
            if name == "add_argument":
                kw = {k: self.optarg(v, st) for k, v in args.kw.items() if k in ("choices", "default", "nargs", "action",
                                                                                "dest", "type")}
                for combo in itertools.product(*[consts(p, 60) or [None] for p in args.pos]):
                    i.ev("option", node, repr(combo), names=combo, kw=kw)
                return TOP
            if name in ("add_argument_group", "add_mutually_exclusive_group"):
                return frozenset([x])
            if name == "parse_args" and len(args.pos) < 2:
                if i.namespace is not None:
                    return i.namespace(st, node)
                return frozenset([("xi", "argparse.Namespace", None)])
            if name in ("set_defaults", "add_subparsers", "parse_known_args", "parse_args", "parse_intermixed_args"):
                i.ev("nsopen", node, name)
            return TOP
        if n == "Struct" and name in ("unpack", "unpack_from", "iter_unpack"):
            v = self.unpack_fmt(x[2], args.pos[0] if args.pos else BOT, st, node, name == "iter_unpack")
            return i.alloc(st, node, Iter(None, v)) if name == "iter_unpack" else v
        if n == "Path":
            if name == "open":
                return self.openfile(self.arg(args, 0, "mode", const("r")), st, node, frozenset([x]), self.encoded(args, 2))
            if name in ("with_suffix", "expanduser", "absolute", "resolve", "with_name", "joinpath", "with_stem",
                        "relative_to"):
                return frozenset([x])
            if name in ("is_file", "exists", "is_dir"):
                return BOOL
            if name in ("glob", "iterdir", "rglob"):
                return i.alloc(st, node, Iter(None, frozenset([("xi", "pathlib.Path", None)]), BOT, True))
            if name == "stat":
                return frozenset([("xi", "stat", None)])
            if name == "read_text":
                i.ev("open", node, "r", mode="r")
                i.ev("decoding", node, str(self.encoded(args, 0)), enc=self.encoded(args, 0))
                return S(("F",))
            if name == "read_bytes":
                i.ev("open", node, "rb", mode="rb")
                return frozenset([("b", ("F",))])
            if name in ("write_text", "write_bytes", "unlink", "mkdir", "rename", "touch", "rmdir", "replace",
                        "chmod", "lchmod", "symlink_to", "hardlink_to", "link_to", "copy", "move"):
                i.ev("fs_write", node, name)
                return NONE
            if name in ("as_posix", "__str__"):
                return S(x[2])
        if x[1] in ("sys.stdout", "sys.stderr"):
            i.ev("console", node, f"{x[1]}.{name}", implicit=False)
            return NONE
        return TOP

    def str_method(self, recv, name, args, st, node):
        i = self.i
        isb = all(a[0] == "b" or (a[0] == "c" and isinstance(a[2], bytes)) for a in recv)
        cr = consts(recv, 40)
        cas = [consts(p, 40) for p in args.pos]
        for p in args.pos:
            for x in p:
                if x[0] == "gn" and name not in ("format",):
                    i.ev("group_none_use", node, str(x[1]), use="." + name)
        # constant folding
        if cr is not None and all(c is not None and len(c) == 1 for c in cas) and not args.kw and args.star is None \
                and args.kwstar is None and name not in ("join", "encode", "decode"):
            out = BOT
            pos = [c[0] for c in cas]
            for c in cr:
                try:
                    v = getattr(c, name)(*pos)
                except Exception:
                    continue
                if isinstance(v, list):
                    out = join(out, i.alloc(st, node, List("list", tuple(wrap(x) for x in v)), ("cf", c)))
                elif isinstance(v, dict):
                    return TOP
                else:
                    out = join(out, wrap(v))
            if not out:
                st.dead = True
            return out
        mk = (lambda p: ("b", p)) if isb else (lambda p: ("s", p))
        if name in STRBOOL:
            return BOOL
        if name in KEEP:
            out = set()
            for a in recv:
                if a[0] in ("s", "b"):
                    out.add(a)
                elif not args.pos and a[0] == "c":
                    out.add(C(getattr(a[2], name)()))
                elif a[0] == "c" and all(c is not None and len(c) == 1 for c in cas):
                    try:
                        out.add(C(getattr(a[2], name)(*[c[0] for c in cas])))
                    except Exception:
                        out.add(mk(None))
                else:
                    out.add(mk(None))
            return frozenset(out)
        if name in ("split", "rsplit"):
            sep = self.arg(args, 0, "sep")
            mx = self.arg(args, 1, "maxsplit")
            sc = consts(sep) if sep is not None else [None]
            ml = consts(mx) if mx is not None else None
            kind = "word"
            if not (sc == [None]):
                kind = f"split:{sc[0]!r}" if sc and len(sc) == 1 else "split:?"
            if mx is not None:
                kind += f":{'r' if name == 'rsplit' else ''}{ml[0] if ml and len(ml) == 1 else '?'}"
            el = BOT
            for a in recv:
                if a[0] in ("s", "b"):
                    el = join(el, frozenset([(a[0], pv(kind, POS, a[1]))]))
                elif a[0] == "c" and a[2]:
                    el = join(el, frozenset([mk(None)]))
            if not el:
                return i.alloc(st, node, List("list", ()))
            return i.alloc(st, node, List("list", None, el))
        if name == "splitlines":
            el = BOT
            for a in recv:
                el = join(el, frozenset([mk(pv("ln", POS, a[1]) if a[0] in ("s", "b") else None)]))
            return i.alloc(st, node, List("list", None, el))
        if name in ("partition", "rpartition"):
            t = []
            for j in range(3):
                e = BOT
                for a in recv:
                    e = join(e, frozenset([mk(pv(name, j, a[1]) if a[0] in ("s", "b") else None)]))
                t.append(e)
            return frozenset([("t", tuple(t))])
        if name == "join":
            es, el = self.elems(args.pos[0], st, node)
            if st.dead:
                return BOT
            for a in el:
                if a[0] == "gn":
                    i.ev("group_none_use", node, str(a[1]), use="join")
            if es is not None and cr is not None:
                combos = list(cr)
                acc = [""]
                ok = True
                for sep in combos[:1]:
                    for j, e in enumerate(es):
                        cs = consts(e)
                        if cs is None or not all(isinstance(c, str) for c in cs) or len(acc) * len(cs) > 24:
                            ok = False
                            break
                        acc = [x + (sep if j else "") + c for x in acc for c in cs]
                if ok and len(combos) == 1:
                    return frozenset(C(x) for x in acc)
            # join of the words of one text
            ps = {a[1] for a in el if a[0] == "s"}
            if len(ps) == 1 and cr and not cr[0].strip():
                p = next(iter(ps))
                if isinstance(p, tuple) and len(p) == 3 and isinstance(p[1], tuple) and p[1][:1] == ("*",):
                    m = p[1]
                    return S(p[2] if m[1:3] == (0, 1) and m[3] is None else ("words", m[1:], p[2]))
            return S()
        if name in ("find", "index", "rfind", "rindex", "count"):
            return N("int")
        if name == "encode":
            return frozenset(("b", a[1] if a[0] == "s" else None) for a in recv)
        if name == "decode":
            if i.binwin:
                return frozenset(("s", self.bindec(a[1], "s", st, node) if a[0] == "b" else None) for a in recv)
            return frozenset(("s", a[1] if a[0] == "b" else None) for a in recv)
        if name in ("format", "format_map", "__add__", "__mod__", "__str__"):
            return S()
        if name == "maketrans":
            return TOP
        if name in ("__len__",):
            return N("int")
        i.un("str." + name, node)
        return TOP

    def dict_method(self, x, ob, name, args, st, node):
        i = self.i
        one = frozenset([x])
        if name in ("items", "keys", "values"):
            return frozenset([("view", name, one)])
        if name == "get":
            return self.dict_get(x, ob, args.pos[0], st, node, default=self.arg(args, 1, "default", NONE), create=False)
        if name == "setdefault":
            dv = self.arg(args, 1, "default", NONE)
            key = args.pos[0]
            out = BOT
            d = ob.copy()
            for k in key:
                if isconst(k):
                    if k in d.items:
                        v, m = d.items[k]
                        if not m:
                            v = join(v, dv)
                            d.items[k] = (v, len(key) == 1)
                        out = join(out, v)
                    else:
                        v = dv
                        if d.restk and any(self.maykey(k, y, st) for y in d.restk):
                            v = join(v, self.alike(dv, d.restv, st))
                        d.items[k] = (v, len(key) == 1)
                        out = join(out, v)
                else:
                    d.restk, d.restv = join(d.restk, frozenset([k])), join(d.restv, dv)
                    out = join(out, d.restv)
            i.put(st, x[1], d, node, "setdefault")
            return out
        if name == "update":
            d = ob.copy()
            for p in args.pos[:1]:
                self.dict_update(d, p, st, node, x[1])
            for k, v in args.kw.items():
                self.dict_set(d, const(k), v, True)
            if st.dead:
                return BOT
            i.put(st, x[1], d, node, "update")
            return NONE
        if name == "pop":
            key = args.pos[0]
            dv = self.arg(args, 1)
            v = self.dict_get(x, ob, key, st, node, default=dv, create=False) if dv is not None else \
                self.dict_get(x, Dict(ob.items, ob.restk, ob.restv), key, st, node)
            if not v:
                st.dead = True
                return BOT
            self.delitem(one, key, st, node)
            return v
        if name == "popitem":
            ks, vs = ob.allkeys(), ob.allvals()
            if not ks:
                self.raises("KeyError", st)
                st.dead = True
                return BOT
            d = ob.copy()
            d.items = {k: (v, False) for k, (v, _m) in d.items.items()}
            i.put(st, x[1], d, node, "popitem")
            return frozenset([("t", (ks, vs))])
        if name == "copy":
            return i.alloc(st, node, ob.copy())
        if name == "clear":
            i.put(st, x[1], Dict({}, BOT, BOT, ob.factory), node, "clear")
            return NONE
        if name in ("__contains__",):
            return BOOL
        if name == "__getitem__":
            return self.getitem(one, args.pos[0], st, node)
        if name == "__setitem__":
            self.setitem(one, args.pos[0], args.pos[1], st, node)
            return NONE
        if name == "fromkeys":
            return self.f_dict_fromkeys(args, st, node)
        if name == "most_common":
            return i.alloc(st, node, List("list", None, frozenset([("t", (ob.allkeys(), ob.allvals()))])))
        i.un("dict." + name, node)
        return TOP

    def list_method(self, x, ob, name, args, st, node):
        i = self.i
        if name in ("append", "appendleft"):
            n = ob.copy()
            v = args.pos[0] if args.pos else args.star or TOP
            if ob.elems is not None and len(ob.elems) < 24 and i.single(x[1]):
                n.elems = (*ob.elems, v) if name == "append" else (v, *ob.elems)
            else:
                n.elems, n.rest = None, join(ob.any(), v)
            i.put(st, x[1], n, node, name)
            return NONE
        if name in ("extend", "extendleft"):
            self.extend(x, args.pos[0], st, node)
            return NONE
        if name == "insert":
            n = ob.copy()
            ix = consts(args.pos[0], 1)
            if ob.elems is not None and ix and isinstance(ix[0], int) and len(ob.elems) < 24:
                es = list(ob.elems)
                es.insert(ix[0], args.pos[1])
                n.elems = tuple(es)
            else:
                n.elems, n.rest = None, join(generic(ob.any()), args.pos[1])
            i.put(st, x[1], n, node, name)
            return NONE
        if name in ("pop", "popleft"):
            ix = consts(args.pos[0], 1) if args.pos else ([-1] if name == "pop" else [0])
            n = ob.copy()
            if ob.elems is not None and ix and isinstance(ix[0], int):
                es = list(ob.elems)
                if not es or not -len(es) <= ix[0] < len(es):
                    self.raises("IndexError", st)
                    st.dead = True
                    return BOT
                v = es.pop(ix[0])
                n.elems = tuple(es)
                i.put(st, x[1], n, node, name)
                return v
            if not ob.any():
                self.raises("IndexError", st)
                st.dead = True
                return BOT
            v = at_index(ob.any(), ix[0]) if ix and isinstance(ix[0], int) else generic(ob.any())
            n.elems = None
            n.rest = shifted(ob.any(), 1, 1, None) if ix == [0] else ob.any()
            i.put(st, x[1], n, node, name)
            return v
        if name in ("sort", "reverse"):
            n = ob.copy()
            if ob.elems is not None and name == "reverse":
                n.elems = tuple(reversed(ob.elems))
            else:
                n.elems, n.rest = None, generic(ob.any())
            n.unord = False
            i.put(st, x[1], n, node, name)
            return NONE
        if name == "clear":
            i.put(st, x[1], List(ob.kind, ()), node, name)
            return NONE
        if name == "remove":
            n = ob.copy()
            n.elems, n.rest = None, generic(ob.any())
            i.put(st, x[1], n, node, name)
            return NONE
        if name == "copy":
            return i.alloc(st, node, ob.copy())
        if name in ("index", "count"):
            return N("int")
        if name == "__contains__":
            return BOOL
        if name == "__getitem__":
            return self.getitem(frozenset([x]), args.pos[0], st, node)
        i.un("list." + name, node)
        return TOP

    def set_method(self, x, ob, name, args, st, node):
        i = self.i
        if name == "add":
            n = ob.copy()
            if ob.elems is not None and len(args.pos[0]) == 1 and isconst(next(iter(args.pos[0]))) and \
                    i.single(x[1]) and len(ob.elems) < 100:
                n.elems = ob.elems if args.pos[0] in ob.elems else (*ob.elems, args.pos[0])
            else:
                n.elems, n.rest = None, join(ob.any(), generic(args.pos[0]))
            n.unord = True
            i.put(st, x[1], n, node, name)
            return NONE
        if name in ("update", "discard", "remove", "clear", "difference_update", "intersection_update"):
            n = ob.copy()
            r = ob.any()
            if name == "update":
                for p in args.pos:
                    r = join(r, self.elems(p, st, node)[1])
            n.elems, n.rest, n.unord = None, generic(r), True
            i.put(st, x[1], n, node, name)
            return NONE
        if name in ("union", "intersection", "difference", "symmetric_difference", "copy"):
            r = ob.any()
            if name in ("union", "symmetric_difference"):
                for p in args.pos:
                    r = join(r, self.elems(p, st, node)[1])
            if name == "copy":
                return i.alloc(st, node, ob.copy())
            return i.alloc(st, node, List("set", None, r, None, True))
        if name in ("issubset", "issuperset", "isdisjoint", "__contains__"):
            return BOOL
        if name == "pop":
            if not ob.any():
                st.dead = True
            self.unord("unord_pick", ob, node)
            return ob.any()
        i.un("set." + name, node)
        return TOP
