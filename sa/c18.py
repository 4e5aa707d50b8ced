"""C18: binary records are read as the format lays them down."""
from __future__ import annotations

import ast
import json
import os
import re

from .astq import own_nodes, where
from .values import Dict, HANDLE, Inst, List

RULES = ["numbers are read big-endian, with the sizes of the format",
         "every field comes from its own record, records are decoded in the order of the format",
         "loops over records run as often as the count in the file says",
         "reading, skipping and stepping back move by whole records",
         "a reader in lockstep with a finite sequence does not take a record too many",
         "the real part of a complex number comes before its imaginary part"]
DECODERS = {"unpack", "unpack_from", "iter_unpack", "Struct", "from_bytes", "frombuffer", "fromfile"}
REF = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref", "records.json")
SIZES = {"i": 4, "l": 4, "I": 4, "L": 4, "q": 8, "Q": 8, "h": 2, "H": 2, "b": 1, "B": 1, "d": 8, "f": 4, "e": 2, "?": 1}


# ---------------------------------------------------------------- where fields come from
def norm(w):
    return " ".join("i" + t[1:] if t[:1] == "l" else t for t in w)


def windows(p):
    """{record} a value comes from (None: not known)."""
    if p is None:
        return None
    if p[0] == "rec":
        return {norm(w) for w in p[1]}
    if p[0] == "field":
        return windows(p[2])
    if p[0] == "cut":
        return windows(p[2])
    if p[0] == "ar":
        out = set()
        for q in p[1]:
            w = windows(q)
            if w is None:
                return None
            out |= w
        return out
    return None


def label(p):
    """Which number of its record (where not the first), and what is computed from it; None: not known."""
    if p is None:
        return None
    if p[0] == "ar":
        if len(p) < 3 or p[2] is None:
            return None
        n, d, fs = p[2]
        out = f"{n}/{d}" * ((n, d) != (1, 1))
        for f, e in fs:
            x = label(f)
            if x is None:
                return None
            out += f" ({'|'.join(sorted(windows(f) or ()))}{x})" + f"^{e}" * (e != 1)
        return out
    if p[0] == "field":
        i = p[1]
        inner = label(p[2])
        if isinstance(i, int):
            return f"#{i}" * (i != 0)
        if isinstance(i, tuple) and i[:1] == ("*",):
            return None
        return inner
    return "" if p[0] == "rec" else None


def fields(av, st, out, path=(), depth=0):
    if depth > 12:
        return
    for a in av:
        if a[0] == "r":
            ob = st.heap.get(a[1])
            if type(ob) is Dict:
                for k, (v, _m) in ob.items.items():
                    name = str(k[2]) if k[0] == "c" and isinstance(k[2], str) else "{}"
                    if name == "{}":
                        fields([k], st, out, (*path, "<key>"), depth + 1)
                    fields(v, st, out, (*path, name), depth + 1)
                fields(ob.restk, st, out, (*path, "<key>"), depth + 1)
                fields(ob.restv, st, out, (*path, "{}"), depth + 1)
            elif type(ob) is List:
                for e in (*(ob.elems or ()), ob.rest):
                    fields(e, st, out, (*path, "[]"), depth + 1)
        elif a[0] == "t":
            for j, e in enumerate(a[1]):
                fields(e, st, out, (*path, str(j) if path and path[-1] == "<key>" else "[]"), depth + 1)
        elif a[0] == "tu":
            fields(a[1], st, out, (*path, "[]"), depth + 1)
        elif a[0] in ("n", "s", "b"):
            w = windows(a[2] if a[0] == "n" else a[1])
            if w:
                ws, ls, ts = out.setdefault(".".join(path), (set(), set(), set()))
                ws |= w
                if a[0] == "n":
                    ts.add(a[1])
                    ls.add(label(a[2]))
                else:
                    ts.add({"s": "str", "b": "bytes"}[a[0]])


def table(F):
    """Per binary format: fields, counts and cuts with the records they come from; events of the decoding."""
    from .interp import Args
    E, I = F.E, F.I
    I.memo.clear()
    I.binwin = I.nomemo = True
    I.ranges = []
    out, evs = {}, []
    old = I.events
    I.events = {}
    try:
        for name, (v, binary) in sorted(F.reg.items()):
            f = E.fnof(v)
            if not binary or f is None:
                continue
            mod = f.mod.name
            st = E.begin(mod)
            h = E.handle(st, True)
            st.heap[HANDLE].attrs["wins"] = frozenset([("win", frozenset([("^",)]))])
            I.ranges = []
            r = I.call(v, Args([h]), st, I.prog.fns[mod].node)
            got = {}
            fields(r, st, got)
            counts = []
            for tag, p, node in I.ranges:
                w = windows(p)
                if w:
                    counts.append((tag, tuple(sorted(w)), label(p), node.lineno))
            out[name] = (got, counts, f, st.dead)
        # decoders no format of today reaches
        for f in I.prog.fns.values():
            if f.kind == "def" and f.cls is None and f.parent is not None and f.parent.kind == "module" and any(
                    isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) in DECODERS
                    for n in own_nodes(f)) and len([*f.node.args.posonlyargs, *f.node.args.args]) == 1:
                st = E.begin(f.mod.name)
                E.handle(st, True)
                I.call(frozenset([("fn", f.fid, None)]), Args([frozenset([("b", ("F",))])]), st, f.node)
        evs = [dict(e) for e in I.events.values() if e["kind"] in ("unpack", "byteorder", "complex", "zip_over")]
    finally:
        I.events = old
        I.binwin = I.nomemo = False
        I.memo.clear()
    return out, evs


def snapshot(F):
    out, _evs = table(F)
    return {n: {"fields": {k: {"records": sorted(v[0]), "parts": sorted(v[1] - {None}), "types": sorted(v[2])}
                           for k, v in sorted(got.items())},
                "counts": sorted({(t, w, x or "") for t, w, x, _l in counts})}
            for n, (got, counts, _f, _d) in out.items()}


def bless(F):
    with open(REF, "w", encoding="utf-8") as f:
        json.dump(snapshot(F), f, indent=1, sort_keys=True)
        f.write("\n")


def records(F, R):
    with open(REF, encoding="utf-8") as f:
        ref = json.load(f)
    tab, evs = table(F)
    for name, (got, counts, fn, _dead) in tab.items():
        want = ref.get(name)
        if want is None:
            continue
        w0 = where(fn, fn.node)
        for path, (ws, ls, ts) in got.items():
            if path not in want["fields"]:
                continue
            R.count("fields")
            ref1 = want["fields"][path]
            bad = sorted(ws - set(ref1["records"]))
            other = sorted(x for x in ls - set(ref1["parts"]) if x is not None) if ref1["parts"] and not bad else []
            types = sorted(x for x in ts - set(ref1["types"]) if x) if not bad else []
            if len(R.samples) < 12:
                R.samples.append(f"{name}.{path}: {len(ws)} record contexts")
            if bad:
                R.violation(f"{name}.{path}", w0, f"{name}: {path} is taken from the record reached by [{bad[0]}], where the "
                            f"format has it at [{ref1['records'][0]}]", RULES[1])
            if other:
                R.violation(f"{name}.{path}", w0, f"{name}: {path} is {say(other[0])} of its record, where the format has "
                            f"{say(ref1['parts'][0])}", RULES[1])
            if types:
                R.violation(f"{name}.{path}", w0, f"{name}: {path} is read as {types[0]}, where the format has "
                            f"{'/'.join(ref1['types'])}", RULES[0])
        for path in want["fields"]:
            if path not in got and got:
                R.count("fields without a known record")
        known = {}
        for t, ws, x in want["counts"]:
            known.setdefault((t, tuple(ws)), set()).add(x)
        for tag, ws, x, line in counts:
            R.count("counts and cuts")
            if (tag, ws) not in known:
                if tag == "change" or not any(t == tag for t, _w in known):
                    continue
            elif x is None or x in known[tag, ws]:
                continue
            what = {"count": "a loop runs as often as", "from": "a list is cut at", "to": "a list is cut at",
                    "change": "a change is looked for in"}[tag]
            R.violation(f"{name}:{tag}", f"{fn.mod.path}:{line}",
                        f"{name}: {what} {say(x)} of [{'; '.join(ws)}], which the format does not do", RULES[2])
    for e in evs:
        w = f"{e['file']}:{e['line']} {e['fn']}"
        if e["kind"] == "byteorder":
            R.count("numbers decoded")
            if e["detail"] not in ("big", "?"):
                R.violation(f"{e['fn']}:byteorder", w, f"a number is read {e['detail']}-endian", RULES[0])
        elif e["kind"] == "unpack":
            R.count("numbers decoded")
            formats(R, e, w)
        elif e["kind"] == "complex":
            R.count("complex pairs")
            a, b = stride(e["re"]), stride(e["im"])
            if a and b and (a[1] == b[1] == 2 and (a[0] % 2 or b[0] != a[0] + 1) or a[1] != b[1] or a[1] > 2):
                R.violation(f"{e['fn']}:complex", w, f"the real part is taken from number {a[0]} in steps of {a[1]}, the "
                            f"imaginary part from {b[0]} in steps of {b[1]}", RULES[5])
        elif e["kind"] == "zip_over":
            R.violation(f"{e['fn']}:zip", w, "the reader comes before a finite sequence in zip(), so a record is taken and lost "
                        "when the sequence ends", RULES[4])


def say(x):
    if not x:
        return "the number"
    return f"number {x[1:]}" if x[0] == "#" else x


def stride(av):
    for a in av:
        if a[0] == "n" and a[2] and a[2][0] == "field" and isinstance(a[2][1], tuple) and a[2][1][:1] == ("*",):
            return a[2][1][1], a[2][1][2]
    return None


def formats(R, e, w):
    parts = e["parts"]
    first = parts[0] if isinstance(parts[0], str) else ""
    if first[:1] not in (">", "!"):
        R.violation(f"{e['fn']}:byteorder", w, f"the format {''.join(x if isinstance(x, str) else '{n}' for x in parts)!r} does not "
                    "say big-endian", RULES[0])
    for x in parts:
        for c in re.findall(r"[a-zA-Z?]", x) if isinstance(x, str) else ():
            if c in SIZES and c not in "ilILd":
                R.violation(f"{e['fn']}:size", w, f"numbers of {SIZES[c]} byte{'s' * (SIZES[c] > 1)} ({c}) are read: the format has "
                            "integers and logicals of 4, reals of 8", RULES[0])
    for k, x in zip(parts, parts[1:]):
        if isinstance(k, int) and isinstance(x, str) and x[:1] in SIZES and SIZES[x[0]] != k:
            R.violation(f"{e['fn']}:size", w, f"one number of {SIZES[x[0]]} bytes is read for every {k} bytes of the record",
                        RULES[0])


# ---------------------------------------------------------------- movement by records
class Stop(Exception):
    """Not understood."""


class Bad(Exception):
    def __init__(self, node, why):
        super().__init__(why)
        self.node, self.why = node, why


class Gone(Exception):
    """The path ends in an exception."""


def add(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
        if not out[x]:
            del out[x]
    return out


def const(c):
    return {1: c} if c else {}


def key(a):
    return tuple(sorted(a.items(), key=repr))


class Pos:
    """A boundary within the sequence of records: index and 0 (before it), 1 (after its first mark) or 2 (after its data)."""

    def __init__(self, idx, place=0):
        self.idx, self.place = idx, place

    def size(self, d=0):
        return {("s", key(add(self.idx, const(d)))): 1}


class Mover:
    def __init__(self, prog, cls, sign):
        self.prog, self.cls, self.sign = prog, cls, sign
        self.pos = Pos({"p": 1})
        self.depth = 0
        self.fresh = 0
        self.plan, self.known = [], {}      # whether records are empty, as far as that is asked
        self.methods = {n.name: n for n in cls.node.body if isinstance(n, ast.FunctionDef) and not any(
            ast.unparse(d).split(".")[-1] == "overload" for d in n.decorator_list)}

    def empty(self, d):
        """Whether the record is empty whose size this is: either is tried."""
        if len(d) != 1:
            return None
        (x, c), = d.items()
        if abs(c) != 1 or not (isinstance(x, tuple) and x[0] == "s"):
            return None
        if x not in self.known:
            k = len(self.known)
            self.known[x] = self.plan[k] if k < len(self.plan) else False
        return self.known[x]

    def z(self, d):
        return {x: c for x, c in d.items() if not self.known.get(x)} if self.known else d

    # -- values: dict (affine), ("mark", idx), ("data", idx), ("stream",), ("self",), ("pos", Pos), ("tuple", [...]), None
    def run(self, name, args):
        fn = self.methods[name]
        return self.call(fn, [("self",), *args], {})

    def call(self, fn, args, kw):
        if self.depth > 6:
            raise Stop
        a = fn.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(ps, args))
        ds = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
        ds.update({k.arg: d for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for p in ps + [x.arg for x in a.kwonlyargs]:
            if p in kw:
                env[p] = kw[p]
            elif p not in env:
                env[p] = self.ev(ds[p], {}) if p in ds else None
        self.depth += 1
        r = self.block(fn.body, env)
        self.depth -= 1
        return r[1] if r and r[0] == "ret" else None

    def block(self, body, env):
        for s in body:
            r = self.stmt(s, env)
            if r:
                return r
        return None

    def stmt(self, s, env):
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Assert)):
            return None
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return None
        if isinstance(s, ast.Return):
            return ("ret", None if s.value is None else self.ev(s.value, env))
        if isinstance(s, ast.Raise):
            raise Gone
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return None
            v = self.ev(s.value, env)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                self.bind(t, v, env)
            return None
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            env[s.target.id] = self.ev(ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), env)
            return None
        if isinstance(s, ast.If):
            return self.branch(s, env)
        if isinstance(s, ast.For):
            return self.forloop(s, env)
        if isinstance(s, ast.While):
            return self.whileloop(s, env)
        if isinstance(s, ast.Continue):
            return ("cont",)
        raise Stop

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(v, tuple) and v and v[0] == "tuple" and len(v[1]) == len(t.elts):
            for x, y in zip(t.elts, v[1]):
                self.bind(x, y, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(x, None, env)

    def branch(self, s, env):
        c = self.truth(s.test, env)
        if c is True:
            return self.block(s.body, env)
        if c is False:
            return self.block(s.orelse, env)
        # not known: at most one branch may go on
        p = self.pos
        saved = (Pos(dict(p.idx), p.place), dict(env))
        outs = []
        for body in (s.body, s.orelse):
            self.pos = Pos(dict(saved[0].idx), saved[0].place)
            e = dict(saved[1])
            try:
                r = self.block(body, e)
            except Gone:
                continue
            outs.append((r, self.pos, e))
        if not outs:
            raise Gone
        if len(outs) == 2:
            (r0, p0, e0), (r1, p1, e1) = outs
            if r0 or r1 or key(p0.idx) != key(p1.idx) or p0.place != p1.place:
                raise Stop
            env.clear()
            env.update({k: v for k, v in e0.items() if e1.get(k) == v})
            self.pos = p0
            return None
        r, self.pos, e = outs[0]
        env.clear()
        env.update(e)
        return r

    def truth(self, e, env):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.truth(e.operand, env)
            return None if c is None else not c
        if isinstance(e, ast.BoolOp):
            got = [self.truth(x, env) for x in e.values]
            if isinstance(e.op, ast.Or):
                return True if got[0] is True else False if all(g is False for g in got) else None
            return False if got[0] is False else True if all(g is True for g in got) else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = self.ev(e.left, env), self.ev(e.comparators[0], env)
            if isinstance(l, dict) and isinstance(r, dict):
                return self.cmp(type(e.ops[0]).__name__, add(l, r, -1))
            return None
        v = self.ev(e, env)
        if isinstance(v, dict):
            return self.cmp("NotEq", v)
        return None

    def cmp(self, op, d):
        """Truth of d OP 0, by the sign of n."""
        d = self.z(d)
        lo, hi = self.range(d)
        if lo == 0 and hi is None or hi == 0 and lo is None:
            v = self.empty(d)
            if v is not None:
                if v:
                    lo = hi = 0
                elif lo == 0:
                    lo = 1
                else:
                    hi = -1
        return {"Lt": True if hi is not None and hi < 0 else False if lo is not None and lo >= 0 else None,
                "LtE": True if hi is not None and hi <= 0 else False if lo is not None and lo > 0 else None,
                "Gt": True if lo is not None and lo > 0 else False if hi is not None and hi <= 0 else None,
                "GtE": True if lo is not None and lo >= 0 else False if hi is not None and hi < 0 else None,
                "Eq": True if lo == hi == 0 else False if (lo is not None and lo > 0 or hi is not None and hi < 0) else None,
                "NotEq": False if lo == hi == 0 else True if (lo is not None and lo > 0 or hi is not None and hi < 0) else None,
                }.get(op)

    def range(self, d):
        lo = hi = 0
        for x, c in d.items():
            if x == 1:
                a = b = 1
            elif x == "n":
                a, b = {1: (1, None), -1: (None, -1), 0: (0, 0)}[self.sign]
            elif isinstance(x, tuple) and x[0] == "s":
                a, b = 0, None
            else:
                a = b = None
            if c < 0:
                a, b = b, a
            lo = None if lo is None or a is None else lo + c * a
            hi = None if hi is None or b is None else hi + c * b
        return lo, hi

    def forloop(self, s, env):
        it = s.iter
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and not s.orelse):
            raise Stop
        vs = [self.ev(x, env) for x in it.args]
        if any(not isinstance(v, dict) for v in vs):
            raise Stop
        if len(vs) == 1:
            n = vs[0]
        elif len(vs) == 2:
            n = add(vs[1], vs[0], -1)
        elif key(vs[2]) == key(const(-1)):
            n = add(vs[0], vs[1], -1)
        elif key(vs[2]) == key(const(1)):
            n = add(vs[1], vs[0], -1)
        else:
            raise Stop
        self.times(s, n, env, s.target)
        return None

    def whileloop(self, s, env):
        t = s.test
        if s.orelse:
            raise Stop
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r = self.ev(t.left, env), self.ev(t.comparators[0], env)
            op = type(t.ops[0]).__name__
        else:
            l, r, op = self.ev(t, env), {}, "NotEq"
        if not (isinstance(l, dict) and isinstance(r, dict)):
            raise Stop
        d = add(l, r, -1)
        # what one turn does to it
        self.fresh += 1
        before = {k: v for k, v in env.items()}
        trial = Mover(self.prog, self.cls, self.sign)
        trial.plan, trial.known = self.plan, self.known
        trial.pos, trial.depth = Pos({("k", self.fresh): 1}, self.pos.place), self.depth
        e = dict(env)
        names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
        trial.block(s.body, e)
        l2 = trial.ev(t.left, e) if isinstance(t, ast.Compare) else trial.ev(t, e)
        r2 = trial.ev(t.comparators[0], e) if isinstance(t, ast.Compare) else {}
        if not (isinstance(l2, dict) and isinstance(r2, dict)):
            raise Stop
        step = add(add(l2, r2, -1), d, -1)
        if set(step) - {1} or abs(step.get(1, 0)) != 1:
            raise Stop
        step = step[1]
        if op in ("Lt", "NotEq") and step == 1:
            n = add({}, d, -1)
        elif op in ("Gt", "NotEq") and step == -1:
            n = d
        elif op == "LtE" and step == 1:
            n = add(const(1), d, -1)
        elif op == "GtE" and step == -1:
            n = add(const(1), d)
        else:
            raise Stop
        self.times(s, n, env, None)
        for k in names:
            if k in before and isinstance(before[k], dict) and isinstance(e.get(k), dict):
                ch = add(e[k], before[k], -1)
                if not set(ch) - {1}:
                    c = ch.get(1, 0)
                    env[k] = add(before[k], {x: c * y for x, y in n.items()} if c else {})
        return None

    def times(self, s, n, env, target):
        """The body, n times."""
        lo, hi = self.range(n)
        if lo == hi == 0 or hi is not None and hi <= 0:
            return
        assigned = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        left = n

        def once(place):
            self.fresh += 1
            k = ("k", self.fresh)
            self.pos = Pos({k: 1}, place)
            e = dict(env)
            for x in assigned:
                e[x] = None
            if target is not None and isinstance(target, ast.Name):
                e[target.id] = None
            r = self.block(s.body, e)
            if r and r[0] == "ret":
                raise Stop
            d = add(self.pos.idx, {k: 1}, -1)
            if set(d) - {1}:
                raise Stop
            return d.get(1, 0), self.pos.place
        idx, place = self.pos.idx, self.pos.place
        d, p2 = once(place)
        if p2 != place:
            # a first turn which is different
            if lo is None or lo < 1:
                raise Bad(s, "one turn of the loop does not keep in step with the records")
            idx, place, left = add(idx, const(d)), p2, add(n, const(-1))
            d, p2 = once(place)
            if p2 != place:
                raise Bad(s, "one turn of the loop does not keep in step with the records")
        if lo is None or lo < 0:
            raise Stop
        self.pos = Pos(add(idx, {x: d * c for x, c in left.items()} if d else {}), place)
        for x in assigned:
            env[x] = None

    # -- expressions
    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return const(e.value) if isinstance(e.value, int) and not isinstance(e.value, bool) else None
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.bind(e.target, v, env)
            return v
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, env)
            return ("stream",) if v == ("self",) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
            v = self.ev(e.operand, env)
            return add({}, v, -1) if isinstance(v, dict) else None
        if isinstance(e, ast.BinOp):
            l, r = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(l, dict) and isinstance(r, dict):
                if isinstance(e.op, ast.Add):
                    return add(l, r)
                if isinstance(e.op, ast.Sub):
                    return add(l, r, -1)
                if isinstance(e.op, ast.Mult):
                    for a, b in ((l, r), (r, l)):
                        if not set(a) - {1}:
                            return {x: c * a.get(1, 0) for x, c in b.items() if a.get(1, 0)}
            return None
        if isinstance(e, (ast.Tuple, ast.List)):
            return ("tuple", [self.ev(x, env) for x in e.elts])
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env)
            self.ev(e.slice, env)
            if isinstance(v, tuple) and v[:1] == ("tuple",) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) \
                    and e.slice.value < len(v[1]):
                return v[1][e.slice.value]
            return None
        if isinstance(e, ast.Call):
            return self.evcall(e, env)
        if isinstance(e, ast.IfExp):
            c = self.truth(e.test, env)
            if c is None:
                raise Stop
            return self.ev(e.body if c else e.orelse, env)
        if isinstance(e, ast.BoolOp):
            for x in e.values[:-1]:
                v = self.ev(x, env)
                c = self.cmp("NotEq", v) if isinstance(v, dict) else None
                if c is None:
                    break
                if c == isinstance(e.op, ast.Or):
                    return v
            else:
                return self.ev(e.values[-1], env)
            self.truth(e, env)
            return None
        if isinstance(e, ast.Compare):
            self.truth(e, env)
            return None
        if isinstance(e, (ast.JoinedStr, ast.Lambda)):
            return None
        raise Stop

    def evcall(self, e, env):
        f = e.func
        base = self.ev(f.value, env) if isinstance(f, ast.Attribute) and not isinstance(f.value, ast.Constant) else None
        if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
            raise Stop
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if base == ("stream",) and name == "seek":
            args = [self.ev(e.args[0], env)]
            wh = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "whence"), None)
            wh = None if wh is None else ast.unparse(wh).split(".")[-1]
            return self.seek(e, args[0], wh)
        args = [self.ev(a, env) for a in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if base == ("stream",):
            if name == "read":
                return self.read(e, args[0] if args else None)
            if name == "tell":
                return ("pos", self.pos)
            raise Stop
        if base == ("self",):
            if name in self.methods:
                return self.call(self.methods[name], [base, *args], kw)
            raise Stop
        if name == "next" and args[:1] == [("self",)] and "__next__" in self.methods:
            return self.call(self.methods["__next__"], [("self",)], {})
        if name == "from_bytes" and args:
            return {("s", args[0][1]): 1} if isinstance(args[0], tuple) and args[0][0] == "mark" else None
        if name in ("unpack", "unpack_from"):
            m = next((a for a in args if isinstance(a, tuple) and a[0] == "mark"), None)
            return ("tuple", [{("s", m[1]): 1}]) if m else None
        if name == "abs" and args and isinstance(args[0], dict):
            lo, hi = self.range(args[0])
            if lo is not None and lo >= 0:
                return args[0]
            if hi is not None and hi <= 0:
                return add({}, args[0], -1)
            return None
        if name in ("max", "min") and len(args) == 2 and all(isinstance(a, dict) for a in args):
            c = self.cmp("GtE", add(args[0], args[1], -1))
            if c is None:
                a, b = args if set(args[1]) <= {1} else args[::-1]
                if name == "max" and set(b) <= {1} and b.get(1, 0) > 0 and self.empty(a) is not None:
                    return b if self.empty(a) else a if b[1] == 1 else None
                return None
            return args[0] if c == (name == "max") else args[1]
        if name == "len" and args:
            a = args[0]
            if isinstance(a, tuple) and a[0] == "data":
                return {("len", a[1]): 1}
            return None
        if name in ("bytes", "bytearray", "memoryview", "int", "cast") and args:
            return args[-1]
        fs = [g for g in self.prog.fns.values() if g.kind == "def" and g.node.name == name and g.mod is self.cls.mod
              and g.parent is not None and g.parent.kind == "module"]
        if isinstance(f, ast.Name) and len(fs) == 1:
            return self.call(fs[0].node, args, kw)
        if any(a in (("self",), ("stream",)) for a in (*args, *kw.values())):
            raise Stop
        return None

    def read(self, e, n):
        if not isinstance(n, dict):
            raise Stop
        p = self.pos
        n = self.z(n)
        none = not self.z(p.size())
        if key(n) == key(const(4)) and (p.place in (0, 2) or none):
            m = ("mark", key(p.idx))
            self.pos = Pos(p.idx, 1) if p.place == 0 else Pos(add(p.idx, const(1)), 0)
            return m
        if key(n) == key(self.z(p.size())) and (p.place == 1 or p.place == 2 and none):
            self.pos = Pos(p.idx, 2)
            return ("data", key(p.idx))
        if any(isinstance(x, tuple) and x[0] == "len" for x in n):
            raise Stop
        raise Bad(e, f"reads {self.say(n)} bytes {('before a record', 'after the first mark of a record', 'after the data of a record')[p.place]}")

    def say(self, a):
        out = ""
        for x, c in sorted(a.items(), key=repr):
            t = "" if x == 1 else "size" if isinstance(x, tuple) and x[0] == "s" else str(x)
            out += f"{c:+d}{t and '*' + t}"
        return out or "0"

    def seek(self, e, by, wh):
        if isinstance(by, tuple) and by and by[0] == "pos":
            self.pos = by[1]
            return None
        if not isinstance(by, dict) or wh not in ("SEEK_CUR", "1"):
            raise Stop
        p = self.pos
        off = add({}, by)
        off = add(off, {0: {}, 1: const(4), 2: add(const(4), p.size())}[p.place])
        for d in (0, 1, -1, 2, -2):
            o = off
            for j in range(d):
                o = add(add(o, const(-8)), p.size(j), -1)
            for j in range(-1, d - 1, -1):
                o = add(add(o, const(8)), p.size(j))
            q = Pos(add(p.idx, const(d)))
            for place, want in ((0, {}), (1, const(4)), (2, add(const(4), q.size()))):
                if key(self.z(o)) == key(self.z(want)):
                    self.pos = Pos(q.idx, place)
                    return None
        raise Bad(e, f"moves by {self.say(by)} bytes from "
                  f"{('before a record', 'after the first mark of a record', 'after the data of a record')[p.place]}, which is not "
                  "the boundary of a record")


class Cls:
    def __init__(self, node, mod):
        self.node, self.mod = node, mod


def movement(F, R):
    for m in F.prog.mods.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ClassDef):
                continue
            src = [x for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)]
            if not any(x.func.attr == "from_bytes" or x.func.attr in ("unpack",) for x in src) or \
                    not any(x.func.attr == "read" for x in src):
                continue
            one(F, R, Cls(n, m))


def one(F, R, cls):
    for name, expect in (("__next__", {"p": 1, 1: 1}), ("skip", {"p": 1, "n": 1}), ("rewind", {"p": 1, "n": -1})):
        for sign in (1,) if name == "__next__" else (1, 0, -1):
            plan = []
            for _ in range(16):
                mv = Mover(F.prog, cls, sign)
                mv.plan = plan
                if name not in mv.methods:
                    break
                move(F, R, cls, name, expect, sign, mv)
                done = list(mv.known.values())
                while done and done[-1]:
                    done.pop()
                if not done:
                    break
                plan = [*done[:-1], True]


def move(F, R, cls, name, expect, sign, mv):
    fn = mv.methods[name]
    w = f"{cls.mod.path}:{fn.lineno} {cls.node.name}.{name}"
    what = f"{cls.node.name}.{name}" + {1: "(n)", 0: "(0)", -1: "(-n)"}[sign] * (name != "__next__")
    R.count("movements")
    try:
        r = mv.run(name, [] if name == "__next__" else [{"n": 1} if sign else {}])
    except Gone:
        return
    except Bad as b:
        R.violation(f"{cls.node.name}.{name}:{sign}", f"{cls.mod.path}:{b.node.lineno} {cls.node.name}.{name}",
                    f"{what} {b.why}", RULES[3])
        return
    except (Stop, RecursionError, KeyError, IndexError):
        R.count("movements not understood")
        return
    want = dict(expect)
    if not sign:
        want.pop("n", None)
    if key(mv.pos.idx) != key(want) or mv.pos.place:
        R.violation(f"{cls.node.name}.{name}:{sign}", w, f"{what} leaves the file {mv.say(add(mv.pos.idx, {'p': 1}, -1))} "
                    f"records on{('', ', after its first mark', ', after its data')[mv.pos.place]}, not "
                    f"{mv.say(add(want, {'p': 1}, -1))}", RULES[3])
    elif name == "__next__" and isinstance(r, tuple) and r[0] == "data" and r[1] != key({"p": 1}):
        R.violation(f"{cls.node.name}.{name}", w, f"{what} does not give the data of the record it reads", RULES[3])
    elif name == "__next__" and isinstance(r, tuple) and r[0] == "mark":
        R.violation(f"{cls.node.name}.{name}", w, f"{what} gives a length mark", RULES[3])


def check(F, R):
    R.explanation = ("Each binary parser is evaluated by abstract interpretation with every decoded value carrying the sequence of "
                     "decodings which led to it (eight back, or to the head of the section); fields, loop counts and cuts are "
                     "compared with the committed table of the formats. Formats are checked for byte order and size. The "
                     "reader's movements are followed over an affine domain of record boundaries, for every n.")
    R.rules = RULES
    records(F, R)
    movement(F, R)
