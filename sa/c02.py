"""C02: files opened for a caller are closed again, a caller's handle is not."""
from __future__ import annotations

import ast

from .astq import Names, own_nodes, parents, where
from .engine import PKG
from .interp import Args
from .report import Incomplete
from .schema import text
from .values import FALSE, HANDLE, Inst, N, NONE, S, TRUE, const

RULES = ["every file opened is owned by a with statement, a try ... finally, or an object which closes it",
         "given a path, a parser runs on a file open for reading, in text or binary mode as its format needs, which is closed "
         "afterwards; its result is passed on as it is",
         "no path leads from a parser to closing or detaching the handle it was given",
         "objects made around a handle do not close it when they are given up",
         "no result holds a file, a reader or an iterator"]
OPENS = {"open", "io.open", "builtins.open", "gzip.open", "bz2.open", "lzma.open", "codecs.open", "os.fdopen", "io.FileIO",
         "tempfile.TemporaryFile"}
GCCLOSE = {"io.TextIOWrapper", "io.BufferedReader", "io.BufferedRandom", "io.BufferedWriter", "io.BufferedRWPair", "os.fdopen",
           "codecs.StreamReaderWriter"}
CLOSERS = {"__del__", "__exit__", "close"}
FW = f"{PKG}.utilities.filewrapper"


def short(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


class Owners:
    def __init__(self, prog):
        self.prog = prog
        self.par = {m.name: parents(m.tree) for m in prog.mods.values()}
        self.names = {m.name: Names(prog, m) for m in prog.mods.values()}
        self.memo = {}

    def opens(self):
        for f in self.prog.fns.values():
            if f.kind == "lambda":
                continue
            for n in own_nodes(f):
                if isinstance(n, ast.Call) and self.is_open(n, f):
                    yield f, n

    def is_open(self, n, f):
        q = self.names[f.mod.name].name(n.func, f)
        if q in OPENS:
            return True
        if isinstance(n.func, ast.Attribute) and n.func.attr == "open" and (q is None or q.startswith("pathlib.")):
            return True
        return False

    def owned(self, n, f, hops=0):
        """None when somebody closes what this expression opens, else why not."""
        if hops > 4:
            return None
        par = self.par[f.mod.name]
        x = n
        while True:
            p = par.get(id(x))
            if p is None:
                return "is not kept by anything that closes it"
            if isinstance(p, ast.withitem):
                return None if p.context_expr is x or x is not p.optional_vars else None
            if isinstance(p, ast.Call):
                s = short(p.func)
                if x is p.func or (isinstance(x, ast.Attribute)):
                    if isinstance(p.func, ast.Attribute) and p.func.attr == "close":
                        return None
                    return f"is used at once by .{s}() and left open"
                if s in ("enter_context", "push", "callback"):
                    return None
                if s in ("closing", "nullcontext", "cast") or s and s[0].isupper() or s in self.classes():
                    x = p
                    continue
                q = self.names[f.mod.name].name(p.func, f)
                gs = [g for g in self.prog.fns.values() if g.kind == "def" and g.node.name == s]
                if q and q.startswith(PKG) or gs:
                    return f"is handed to {s}() and closed by nobody"
                return f"is handed to {s or 'a call'}() and closed by nobody"
            if isinstance(p, ast.Attribute):
                x = p
                continue
            if isinstance(p, (ast.IfExp, ast.BoolOp, ast.keyword, ast.Starred, ast.Tuple, ast.List)):
                x = p
                continue
            if isinstance(p, ast.NamedExpr):
                r = self.name_owned(p.target.id, p, f, hops)
                if r is None:
                    return None
                x = p
                continue
            if isinstance(p, (ast.Assign, ast.AnnAssign)):
                ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                why = "is not kept by anything that closes it"
                for t in ts:
                    if isinstance(t, ast.Name):
                        why = self.name_owned(t.id, p, f, hops)
                    elif isinstance(t, ast.Attribute):
                        why = self.attr_owned(t, f)
                    else:
                        why = None
                    if why is None:
                        return None
                return why
            if isinstance(p, (ast.Return, ast.Lambda)):
                return self.factory(f, hops)
            if isinstance(p, ast.Expr):
                return "is not kept by anything that closes it"
            if isinstance(p, (ast.stmt, ast.comprehension)):
                return "is closed by nobody"
            x = p

    def classes(self):
        if "cls" not in self.memo:
            self.memo["cls"] = {n.name for m in self.prog.mods.values() for n in ast.walk(m.tree) if isinstance(n, ast.ClassDef)}
        return self.memo["cls"]

    def name_owned(self, name, at, f, hops):
        par = self.par[f.mod.name]
        anc = set()
        x = at
        while x is not None:
            anc.add(id(x))
            x = par.get(id(x))
        for n in own_nodes(f):
            if isinstance(n, ast.Try) and n.finalbody and any(
                    isinstance(c, ast.Call) and short(c.func) == "close" and isinstance(c.func, ast.Attribute)
                    and any(isinstance(y, ast.Name) and y.id == name for y in ast.walk(c.func.value))
                    for b in n.finalbody for c in ast.walk(b)):
                return None
            if isinstance(n, ast.withitem) and any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Load)
                                                   for y in ast.walk(n.context_expr)):
                c = n.context_expr
                if isinstance(c, ast.Name) or isinstance(c, ast.Call) and (
                        short(c.func) in ("closing", "enter_context") or short(c.func) in self.classes()):
                    return None
            if isinstance(n, ast.Call) and short(n.func) in ("enter_context", "push", "callback", "finalize") and any(
                    isinstance(y, ast.Name) and y.id == name for a in n.args for y in ast.walk(a)):
                return None
            if isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Name) and n.value.id == name:
                return self.factory(f, hops)
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == name:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and self.attr_owned(t, f) is None:
                        return None
        closes = [n for n in own_nodes(f) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                  and n.func.attr == "close" and isinstance(n.func.value, ast.Name) and n.func.value.id == name]
        if closes:
            return f"('{name}') is closed only when nothing goes wrong before line {closes[0].lineno}"
        return f"('{name}') is closed by nobody"

    def attr_owned(self, t, f):
        c = f
        while c is not None and c.cls is None:
            c = c.parent
        if c is None or not (isinstance(t.value, ast.Name) and t.value.id in ("self", "cls")):
            return None if c is None else f"(.{t.attr}) is closed by nobody"
        meths = {g.node.name: g for g in self.prog.fns.values() if g.kind == "def" and g.cls is not None and g.cls == c.cls
                 and g.mod is c.mod}
        for g in meths.values():
            if any(isinstance(n, ast.Call) and short(n.func) == "finalize" for n in own_nodes(g)):
                return None
        todo, seen = [m for m in meths if m in CLOSERS], set()
        while todo:
            m = todo.pop()
            if m in seen:
                continue
            seen.add(m)
            for n in own_nodes(meths[m]):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    v = n.func.value
                    if n.func.attr == "close":
                        return None     # (which of its files is not told apart)
                    if isinstance(v, ast.Name) and v.id == "self" and n.func.attr in meths:
                        todo.append(n.func.attr)
        return f"(.{t.attr}) is closed by nobody: the class does not close it when it is given up"

    def factory(self, f, hops):
        if any("contextmanager" in ast.unparse(d) for d in getattr(f.node, "decorator_list", ())):
            return None
        name = getattr(f.node, "name", None)
        if name is None:
            return None
        found = False
        for g in self.prog.fns.values():
            if g.kind == "lambda":
                continue
            for n in own_nodes(g):
                if isinstance(n, ast.Call) and short(n.func) == name and g is not f:
                    found = True
                    r = self.owned(n, g, hops + 1)
                    if r is not None:
                        return f"(through {name}()) {r} (line {n.lineno})"
        return None if found else None


def paths(F, R):
    """Every parser called with a path, in place of its function a marker."""
    E, I = F.E, F.I
    for name, (fv, binary) in sorted(F.reg.items()):
        fn = E.fnof(fv)
        if fn is None:
            continue
        for label, arg in (("text", S()), ("Path", frozenset([("xi", "pathlib.Path", None)]))):
            seen = []

            def hook(i, f, args, st, node, seen=seen):
                for a in (args.pos[0] if args.pos else ()):
                    ob = i.get(st, a[1]) if a[0] == "r" else None
                    seen.append(ob.copy() if type(ob) is Inst and isinstance(ob.cls, tuple) else a[0])
                if seen and all(x in ("s", "xi") for x in seen if isinstance(x, str)) and all(isinstance(x, str) for x in seen):
                    return None     # it has others open the file
                return const("%result")
            if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(fn)):
                R.violation(f"{name}:lazy", where(fn, fn.node), "given a path, a parser gives a reader of the file, not what is "
                            "in it", RULES[1])
            mod = E.parser_mod(binary)
            nopen = I.nopen
            I.memo = {}
            old = I.hooks
            I.hooks = {**old, fn.qual: hook}
            st = E.begin(mod)
            try:
                r = I.call(fv, Args([arg]), st, I.prog.fns[mod].node)
            except (RecursionError, AttributeError, TypeError, KeyError, ValueError, IndexError):
                continue
            finally:
                I.hooks = old
            R.count("parsers called with a path")
            w = where(fn, fn.node)
            obs = [o for o in seen if type(o) is Inst and o.cls[1] in ("file", "TextIO")]
            if seen and I.nopen == nopen:
                R.violation(f"{name}:not opened", w, f"given a path, the {name} parser is run on the path, not on a file", RULES[1])
            if any(o.attrs.get("closed") == TRUE for o in obs):
                R.violation(f"{name}:closed before", w, f"the {name} parser is run on a file which is closed already", RULES[1])
            for o in obs:
                b = o.attrs.get("binary")
                if b == (FALSE if binary else TRUE):
                    R.violation(f"{name}:mode", w, f"given a path, the {name} file is opened in "
                                f"{'text' if binary else 'binary'} mode", RULES[1])
            if st.dead or not r or not seen:
                continue
            for a in r:
                if a[0] == "r":
                    t = I.get(st, a[1])
                    kind = type(t).__name__
                    if kind == "Iter" or type(t) is Inst:
                        R.violation(f"{name}:lazy", w, "given a path, a parser gives a reader of the file, not what is in it", RULES[1])
            for a, o in st.heap.items():
                if type(o) is Inst and isinstance(o.cls, tuple) and o.cls[1] == "file" and o.attrs.get("owner") == const("own") \
                        and "mode" in o.attrs and o.attrs.get("closed") != TRUE:
                    R.violation(f"{name}:left open", w, f"given a path, the file opened for the {name} parser is still open "
                                "when it returns", RULES[1])


def givenup(F, R):
    """Objects of the package around a handle: what happens when they are given up."""
    E, I = F.E, F.I
    for f in F.prog.fns.values():
        if f.kind != "def" or f.cls is None or f.node.name != "__del__":
            continue
        cname = f.qual.split(".")[-2] if "." in f.qual else None
        cls = I.modvars.get(f.mod.name, {}).get(cname)
        if not cls:
            continue
        R.count("classes with a __del__")
        tries = any(isinstance(n, (ast.Try, ast.With)) for g in F.prog.fns.values()
                    if g.kind == "def" and g.cls == f.cls and g.mod is f.mod and g.node.name != "__init__" for n in own_nodes(g))
        node = I.prog.fns[f.mod.name].node
        for own, arg in ((False, None), (True, S()), (True, frozenset([("xi", "pathlib.Path", None)]))):
            st = E.begin(f.mod.name)
            I.memo = {}
            h = arg or E.handle(st, False)
            try:
                ob = I.call(cls, Args([h]), st, node)
                if st.dead:
                    continue
                for a in ob:    # whatever it has been used for since
                    o = I.get(st, a[1]) if a[0] == "r" else None
                    if type(o) is Inst and not isinstance(o.cls, tuple):
                        o = st.heap[a[1]] = o.copy()
                        for k, v in list(o.attrs.items()):
                            if v and all(x[0] == "n" or x[0] == "c" and x[1] in ("NoneType", "int", "float") for x in v):
                                o.attrs[k] = N("int") | NONE
                I.events.clear()
                m = I.models.getattr(ob, "__del__", st, node)
                I.call(m, Args([]), st, node)
            except Exception:  # noqa: BLE001
                continue
            if own and not tries and not st.dead:
                for o in st.heap.values():
                    if type(o) is Inst and isinstance(o.cls, tuple) and o.cls[1] == "file" and "mode" in o.attrs \
                            and o.attrs.get("owner") == const("own") and o.attrs.get("closed") != TRUE:
                        R.violation(f"{cname}:kept", where(f, f.node), f"a {cname} given up may leave the file it opened open",
                                    RULES[1])
            for e in I.events.values():
                if e["kind"] == "close_caller":
                    R.violation(f"{cname}:__del__", where(f, f.node), f"a {cname} given up closes the handle it was made around",
                                RULES[3])


def output(F, R):
    """The dump to a handle of the caller's."""
    E, I = F.E, F.I
    mod = f"{PKG}.cli.castep_outputs_main"
    fv = I.modvars.get(mod, {}).get("parse_all")
    if not fv:
        return
    keep = I.stubs
    I.stubs = {f.fid: const("%result") for f in I.prog.fns.values() if f.kind == "def" and f.depth_limit() == 1}
    st = E.begin(mod)
    h = E.handle(st, False)
    I.events.clear()
    a = Args([], {"output": h, "out_format": S()})
    a.kwstar = frozenset([("tu", frozenset([("xi", "pathlib.Path", None)]), None)])
    try:
        I.call(fv, a, st, I.prog.fns[mod].node)
    except Exception:  # noqa: BLE001
        pass
    I.stubs = keep
    R.count("dumps to a caller's handle")
    for e in I.events.values():
        if e["kind"] == "close_caller":
            R.violation(f"{e['fn']}:close {e['detail']}", f"{e['file']}:{e['line']} {e['fn']}",
                        "closes the handle the caller asked the output to be written to", RULES[2])


def check(F, R):
    R.explanation = ("Every open call is traced to what closes it; every parser is called with a path (its function replaced by a "
                     "marker) and the state of the file compared; all runs with a caller's handle are searched for operations "
                     "which close it; objects made around a handle are given up; results are searched for readers.")
    R.rules = RULES
    O = Owners(F.prog)
    for f, n in O.opens():
        R.count("files opened")
        why = O.owned(n, f)
        if len(R.samples) < 8:
            R.samples.append(f"{where(f, n)}: {'closed' if why is None else why}")
        if why:
            R.violation(f"{f.qual}:open", where(f, n), f"the file opened here {why}", RULES[0])
    for f in F.prog.fns.values():
        if f.kind == "lambda":
            continue
        for n in own_nodes(f):
            if isinstance(n, ast.Call):
                q = O.names[f.mod.name].name(n.func, f)
                if q in GCCLOSE and not any(isinstance(x, ast.Attribute) and x.attr == "detach" for x in own_nodes(f)) and not (
                        n.args and isinstance(n.args[0], ast.Call)):
                    R.violation(f"{f.qual}:{q}", where(f, n), f"{q} closes the handle it is made around when it is given up",
                                RULES[3])
    if not F.reg:
        raise Incomplete("no parsers found")
    for e in F.ev("close_caller"):
        R.violation(f"{e['fn']}:close {e['detail']}", f"{e['file']}:{e['line']} {e['fn']}",
                    f"closes the handle given by the caller ({e['detail']})", RULES[2])
    R.count("parsers run on a caller's handle", len(F.schemas))
    for n, s in F.schemas.items():
        for p, ts in s.types.items():
            for t in ts:
                if t in ("iterator", "instance file", "instance TextIO") or t and t.startswith(f"instance {FW}"):
                    R.violation(f"{n}:result {text(p)}", f"result of {n}", f"{text(p)} of the result holds a {t.split('.')[-1]}",
                                RULES[4])
    paths(F, R)
    givenup(F, R)
    output(F, R)
