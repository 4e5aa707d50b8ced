"""The shape of a parse result: for every place in it, the types it can hold and where its text came from."""
from __future__ import annotations

from .values import Dict, Inst, Iter, List, TOP_ATOM

MAXDEPTH = 14
RECUR = {".iterations", ".geom_opt", ".md"}


def tname(a):
    k = a[0]
    if k == "c":
        return a[1]
    if k == "s":
        return "str"
    if k == "b":
        return "bytes"
    if k == "n":
        return a[1]
    if k == "gn":
        return "NoneType"
    if k in ("t", "tu"):
        return "tuple"
    if k in ("enum", "enumany"):
        return "enum"
    if k == "top":
        return "?"
    if k == "unb":
        return None
    if k == "m":
        return "match"
    if k == "rx":
        return "pattern"
    if k == "xi":
        return a[1]
    if k == "view":
        return "view"
    return "function" if k in ("fn", "bm", "xm", "part", "x") else k


def atomtype(a, get):
    if a[0] == "r":
        o = get(a[1])
        if type(o) is Dict:
            return "dict"
        if type(o) is List:
            return o.kind
        if type(o) is Iter:
            return "iterator"
        if type(o) is Inst:
            return "instance " + (o.cls[1] if isinstance(o.cls, tuple) else o.cls)
        return "?"
    return tname(a)


def keytype(a, get):
    if a[0] == "t":
        return "(" + ",".join("|".join(sorted({keytype(b, get) for b in e})) for e in a[1]) + ")"
    return atomtype(a, get) or "?"


def prov(a):
    if a[0] in ("s", "b"):
        return a[1]
    if a[0] in ("n", "tu", "xi"):
        return a[2]
    return None


class Schema:
    def __init__(self):
        self.types = {}     # path -> set of type names
        self.provs = {}     # path -> set of provenances (None: not known)
        self.consts = {}    # path -> set of constant texts
        self.top = set()    # paths where something unknown is
        self.seqs = {}      # path -> set of tuples of provenances of sequences of known length

    def add(self, path, t):
        self.types.setdefault(path, set()).add(t)
        if t == "?":
            self.top.add(path)


def extract(av, get):
    s = Schema()
    walk(s, av, (), get, frozenset(), set())
    return s


def walk(s, av, path, get, onpath, memo):
    if len(path) > MAXDEPTH or (path, av) in memo or path and path[-1][0] == "." and path[-1] in RECUR and path[-1] in path[:-1]:
        return
    memo.add((path, av))
    for a in av:
        t = atomtype(a, get)
        if t is None:
            continue
        s.add(path, t)
        if a[0] in ("s", "n", "b"):
            s.provs.setdefault(path, set()).add(prov(a))
        if a[0] == "c" and a[1] == "str":
            s.consts.setdefault(path, set()).add(a[2])
        if a[0] == "t":
            seq(s, a[1], path, get, onpath, memo)
        elif a[0] == "tu":
            walk(s, a[1], (*path, "[]"), get, onpath, memo)
        elif a[0] == "r":
            if a[1] in onpath:
                continue
            on = onpath | {a[1]}
            o = get(a[1])
            if type(o) is Dict:
                for k, (v, _m) in o.items.items():
                    if k[0] == "c" and k[1] == "str":
                        walk(s, v, (*path, "." + k[2]), get, on, memo)
                    else:
                        kp = (*path, "{" + keytype(k, get) + "}")
                        walk(s, v, kp, get, on, memo)
                        keys(s, k, path, get)
                if o.restk or o.restv:
                    kts = sorted({keytype(k, get) for k in o.restk}) or ["?"]
                    for k in o.restk:
                        keys(s, k, path, get)
                    for kt in kts:
                        if kt == "?":
                            s.top.add(path)
                        walk(s, o.restv, (*path, "{" + kt + "}"), get, on, memo)
            elif type(o) in (List, Iter):
                if o.elems is not None:
                    seq(s, o.elems, path, get, on, memo)
                else:
                    walk(s, o.rest, (*path, "[]"), get, on, memo)


def keys(s, k, path, get):
    """Where the keys of a mapping come from."""
    p = (*path, "<key>")
    if k[0] == "t":
        for i, e in enumerate(k[1]):
            for a in e:
                q = (*p, f"[{i}]")
                t = atomtype(a, get)
                if t:
                    s.add(q, t)
                if a[0] in ("s", "n"):
                    s.provs.setdefault(q, set()).add(prov(a))
    else:
        t = atomtype(k, get)
        if t:
            s.add(p, t)
        if k[0] in ("s", "n"):
            s.provs.setdefault(p, set()).add(prov(k))


def seq(s, elems, path, get, onpath, memo):
    """Sequence of known length: by position where the elements differ in type."""
    ts = [frozenset(atomtype(a, get) for a in e) for e in elems]
    if len(set(ts)) <= 1:
        for e in elems:
            walk(s, e, (*path, "[]"), get, onpath, memo)
        ps = []
        for e in elems:
            q = {prov(a) for a in e if a[0] in ("s", "n")}
            ps.append(next(iter(q)) if len(q) == 1 and all(a[0] in ("s", "n") for a in e) else None)
        if len(ps) > 1 and all(ps):
            s.seqs.setdefault(path, set()).add(tuple(ps))
    else:
        for i, e in enumerate(elems):
            walk(s, e, (*path, f"[{i}]"), get, onpath, memo)


def text(path):
    return "".join(path) or "(result)"
