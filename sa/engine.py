"""Runs the abstract interpreter over the package: every parser, the command line, the tools, the rest."""
from __future__ import annotations

import ast
import time

from .interp import Args, Frame, Interp
from .values import (HANDLE, BOOL, BOT, Dict, FALSE, Inst, Iter, List, N, NONE, S, State, TOP, TOP_ATOM, TopObj, TRUE, UNB, const,
                     join)

PKG = "castep_outputs"

OUT = ("arg", 0, "out", 0)


class Engine:
    def __init__(self, root="/repo", program=None):
        self.I = Interp(root, program)
        self.I.load_all()
        self.I.phase = "run"
        self.entries = {}
        self.module_events = dict(self.I.events)

    # ---- calling
    def begin(self, mod):
        I = self.I
        I.frames = [Frame(I.prog.fns[mod], 0)]
        I.sinks = [[]]
        return State([{}], {})

    def handle(self, st, binary):
        st.heap[HANDLE] = Inst(("x", "TextIO"), {"owner": const("caller"), "binary": TRUE if binary else FALSE})
        return frozenset([("r", HANDLE)])

    def call(self, mod, fv, pos=(), kw=None, handle=None):
        """Calls an abstract function; handle: None, 'text' or 'binary' puts an open file first."""
        I = self.I
        st = self.begin(mod)
        args = list(pos)
        if handle:
            args.insert(0, self.handle(st, handle == "binary"))
        r = I.call(fv, Args(args, kw or {}), st, I.prog.fns[mod].node)
        return r, st

    # ---- what there is
    def registry(self):
        """{format name: (function value, binary?)} from the tables of the two parser packages."""
        out = {}
        I = self.I
        for mod, binary in ((f"{PKG}.parsers", False), (f"{PKG}.bin_parsers", True)):
            tab = I.modvars.get(mod, {}).get("PARSERS", BOT)
            for a in tab:
                ob = I.gheap.get(a[1]) if a[0] == "r" else None
                if isinstance(ob, Dict):
                    for k, (v, _m) in ob.items.items():
                        if k[0] == "c":
                            out.setdefault(k[2], (v, binary))
        return out

    def fnof(self, v):
        """The package function a value stands for, through the decorator around it."""
        for a in v:
            if a[0] == "r":
                ob = self.I.gheap.get(a[1])
                if isinstance(ob, Inst) and "default" in ob.attrs:
                    return self.fnof(ob.attrs["default"])
            if a[0] == "fn":
                env = self.I.gheap.get(a[2]) if a[2] is not None else None
                hops = 0
                while env is not None and hops < 4:
                    hops += 1
                    inner = [b for n, x in env.vars.items() if n[0] != "%" for b in x
                             if b[0] == "fn" and b[1] != a[1] and self.I.prog.fns[b[1]].parent is not None
                             and self.I.prog.fns[b[1]].parent.kind == "module"]
                    if inner:
                        return self.fnof(frozenset(inner[:1]))
                    par = env.vars.get("%parent", BOT)
                    env = next((self.I.gheap.get(x[1]) for x in par if x[0] == "r"), None)
                return self.I.prog.fns[a[1]]
            if a[0] == "part":
                return self.fnof(a[1])
            if a[0] == "bm":
                return self.I.prog.fns[a[2][1]]
        return None

    def filter_class(self, fn):
        """The Flag class of the filters parameter of the main parser, with its members."""
        I = self.I
        for cid, ci in I.clsinfo.items():
            if ci.enum and {"SCF", "NONE"} <= set(ci.enum) and all(isinstance(v, int) for v in ci.enum.values()):
                return cid, ci.enum
        return None, {}

    def all_filters(self, fn):
        cid, members = self.filter_class(fn)
        if cid is None:
            return {}
        v = 0
        for x in members.values():
            v |= x
        return {"filters": frozenset([("enum", cid, v)])}

    def parser_mod(self, binary):
        return f"{PKG}.bin_parsers" if binary else f"{PKG}.parsers"

    # ---- runs
    def run_parser(self, name, filters=None, two=True):
        fv, binary = self.registry()[name]
        self.I.run = "parser " + name
        fn = self.fnof(fv)
        mod = self.parser_mod(binary)
        kw = {}
        if fn is not None and any(a.arg == "filters" for a in (*fn.node.args.args, *fn.node.args.kwonlyargs)):
            kw = filters if filters is not None else self.all_filters(fn)
        I = self.I
        big = [f for f in I.prog.fns.values() if f.kind == "def" and f.depth_limit() == 1]
        r, st = self.call(mod, fv, kw=kw, handle="binary" if binary else "text")
        if two:
            for f in big:
                if f.fid in I.recursed and f.fid not in I.recres and f is fn and not st.dead:
                    I.remember(f.fid, r, st)
                    r, st = self.call(mod, fv, kw=kw, handle="binary" if binary else "text")
        self.entries[name] = (r, st)
        return r, st

    def run_rest(self):
        """Everything the parsers do not reach: command line, tools, remaining functions."""
        I = self.I
        mv = I.modvars
        I.run = "lazy"

        def get(mod, name):
            return mv.get(f"{PKG}.{mod}", {}).get(name)
        # the lazy reader
        cls = get("tools.md_geom_parser", "MDGeomParser")
        mod = f"{PKG}.tools.md_geom_parser"
        if cls:
            for arg in (S(), frozenset([("xi", "pathlib.Path", None)])):
                st = self.begin(mod)
                node = I.prog.fns[mod].node
                ob = I.call(cls, Args([arg]), st, node)
                if st.dead:
                    continue
                for meth, args in (("get_frame", [N("int")]), ("__len__", []), ("__getitem__", [N("int")]),
                                   ("__getitem__", [frozenset([("slice", (N("int"), N("int"), N("int")))])]),
                                   ("__iter__", []), ("read_next", []), ("next_frame", []), ("__str__", []),
                                   ("__del__", [])):
                    s = st.copy()
                    I.sinks = [[]]
                    f = I.models.getattr(ob, meth, s, node)
                    if not s.dead:
                        r = I.call(f, Args(args), s, node)
                        if meth == "get_frame":
                            self.entries["lazy"] = (r, s)
        I.run = "cli"
        self.run_cli()
        I.run = "rest"
        # the remaining functions, with unknown arguments (large parsers are analysed on their own)
        I.stubs = {f.fid: TOP for f in I.prog.fns.values() if f.kind == "def" and f.depth_limit() == 1}
        done = set()
        for _round in range(3):
            todo = [f for f in I.prog.fns.values() if f.kind == "def" and f.fid not in I.calls_analysed
                    and f.fid not in done and f.parent is not None and f.parent.kind == "module"]
            if not todo:
                break
            for f in todo:
                done.add(f.fid)
                if f.fid in I.calls_analysed:
                    continue
                self.call_unknown(f)
        I.stubs = {}

    def run_cli(self):
        """The entry point which dumps, with an output path of its caller's choice and files of every type."""
        I = self.I
        mod = f"{PKG}.cli.castep_outputs_main"
        fv = I.modvars.get(mod, {}).get("parse_all")
        if not fv:
            return
        keep = I.stubs
        I.stubs = {f.fid: TOP for f in I.prog.fns.values() if f.kind == "def" and f.depth_limit() == 1}
        for out in (S(("ARG", "output")), NONE):
            st = self.begin(mod)
            node = I.prog.fns[mod].node
            paths = frozenset([("tu", frozenset([("xi", "pathlib.Path", ("ARG", "input"))]), None)])
            a = Args([], {"output": out, "out_format": S()})
            a.kwstar = paths
            try:
                I.call(fv, a, st, node)
            except (RecursionError, AttributeError, TypeError, KeyError, ValueError, IndexError) as err:
                I.notes.append(f"parse_all: {type(err).__name__} {err}")
        I.stubs = keep

    def plain_args(self, st):
        """Mutable arguments of a caller: an option mapping with mappings in it, a list of frames, a list of paths."""
        def put(name, ob):
            a = ("arg", 0, name, 0)
            st.heap[a] = ob
            self.I.argaddr.add(a)
            return frozenset([("r", a)])
        text = S()
        inner = put("inner", Dict({}, S(), text | N("float") | BOOL))
        lst = put("list", List("list", None, text))
        deep = put("deep", Dict({}, S(), inner | text | lst))
        opts = put("opts", Dict({}, S(), text | N("float") | N("int") | BOOL | lst | inner | deep))
        frames = put("frames", List("list", None, N("int")))
        paths = put("paths", List("list", None, S(("ARG", "input"))))
        data = put("data", Dict({}, S(), TOP | opts | lst))
        return {"opts": opts, "frames": frames, "paths": paths, "data": data}

    def run_api(self):
        """The entry points again, with arguments of which it is noted when they are changed."""
        I = self.I
        I.run = "api"
        mv = I.modvars
        I.argaddr = set()

        def get(mod, name):
            return mv.get(f"{PKG}.{mod}", {}).get(name)

        def go(mod, fv, make, label):
            if not fv:
                return
            mod = f"{PKG}.{mod}"
            st = self.begin(mod)
            pos, kw = make(self.plain_args(st))
            try:
                r = I.call(fv, Args(pos, kw), st, I.prog.fns[mod].node)
            except (RecursionError, AttributeError, TypeError, KeyError, ValueError, IndexError) as err:
                I.notes.append(f"{label}: {type(err).__name__} {err}")
                return
            self.api[label] = (r, st)
        self.api = {}
        m = "tools.get_generated_files"
        go(m, get(m, "get_generated_files"), lambda a: ([S()], {"param_data": a["opts"], "cell_data": a["opts"]}),
           "get_generated_files")
        go(m, get(m, "get_generated_files"), lambda a: ([S()], {"param_data": a["opts"], "cell_data": NONE}),
           "get_generated_files without cell")
        for f in I.prog.fns.values():
            if f.mod.name == f"{PKG}.{m}" and f.kind == "def" and f.parent is not None and f.parent.kind == "module" \
                    and f.node.name == "get_xc_info":
                n = [x.arg for x in (*f.node.args.posonlyargs, *f.node.args.args)]
                go(m, get(m, f.node.name), lambda a, n=n: ([S() if "seed" in x or x == "src" else a["opts"] for x in n], {}),
                   f.node.name)
        keep = I.stubs
        I.stubs = {f.fid: TOP for f in I.prog.fns.values() if f.kind == "def" and f.depth_limit() == 1}
        m = "cli.castep_outputs_main"
        names = sorted(self.registry())
        go(m, get(m, "parse_all"), lambda a: ([NONE], {n: a["paths"] for n in names}), "parse_all")
        m = "cli.args"
        go(m, get(m, "parse_args"), lambda a: ([a["paths"]], {}), "parse_args")
        m = "utilities.dumpers"
        go(m, get(m, "get_dumpers"), lambda a: ([S()], {}), "get_dumpers")
        if "get_dumpers" in self.api:
            for fv in self.api["get_dumpers"][0]:
                if fv[0] in ("fn", "part", "r"):
                    go(m, frozenset([fv]), lambda a: ([a["data"], TOP], {}), f"dumper {fv[1]}")
        I.stubs = keep
        cls = get("tools.md_geom_parser", "MDGeomParser")
        if cls:
            mod = f"{PKG}.tools.md_geom_parser"
            st = self.begin(mod)
            node = I.prog.fns[mod].node
            ob = I.call(cls, Args([S()]), st, node)
            if not st.dead:
                args = self.plain_args(st)
                f = I.models.getattr(ob, "__getitem__", st, node)
                if not st.dead:
                    r = I.call(f, Args([args["frames"]]), st, node)
                    self.api["MDGeomParser.__getitem__"] = (r, st)

    def shared(self, r, st):
        """Package-level mutable objects a result reaches: [(path, where the object is made)]."""
        I = self.I
        out, seen, todo = [], set(), [(a, "") for a in r]
        while todo:
            a, p = todo.pop()
            if a[0] == "t":
                todo += [(x, p + "[]") for v in a[1] for x in v]
            elif a[0] == "tu":
                todo += [(x, p + "[]") for x in a[1]]
            elif a[0] == "r" and a[1] not in seen:
                seen.add(a[1])
                ob = I.get(st, a[1])
                if a[1] in I.gheap and type(ob) in (Dict, List, Iter):
                    out.append((p or "result", I.gorigin.get(a[1], ("module", "?"))))
                if type(ob) is Dict:
                    for k, (v, _m) in ob.items.items():
                        todo += [(x, f"{p}.{k[2] if k[0] == 'c' else '{}'}") for x in v]
                    todo += [(x, p + "{}") for x in ob.restv]
                elif type(ob) is List:
                    for v in (ob.elems or ()):
                        todo += [(x, p + "[]") for x in v]
                    todo += [(x, p + "[]") for x in ob.rest]
        return out

    def call_unknown(self, f):
        I = self.I
        mod = f.mod.name
        st = self.begin(mod)
        a = f.node.args
        node = f.node
        names = [*a.posonlyargs, *a.args]
        pos, kw = [], {}
        if f.cls is not None:
            deco = {ast.unparse(d).split(".")[-1] for d in node.decorator_list}
            if "staticmethod" not in deco and names:
                pos.append(TOP)
                names = names[1:]
        for x in names:
            pos.append(self.guess(x, st))
        for x in a.kwonlyargs:
            kw[x.arg] = self.guess(x, st)
        if a.kwarg is not None:
            kw[f"{a.kwarg.arg}_x"] = TOP
        v = frozenset([("fn", f.fid, None)])
        try:
            I.call(v, Args(pos, kw), st, node)
        except (RecursionError, AttributeError, TypeError, KeyError, ValueError, IndexError) as err:
            I.notes.append(f"{f.qual}: {type(err).__name__} {err}")

    def guess(self, x, st):
        """An abstract argument from the annotation of a parameter (unknown when in doubt)."""
        t = ast.unparse(x.annotation) if x.annotation is not None else ""
        t = t.strip("'\"")
        if t == "str":
            return S()
        if t == "int":
            return N("int")
        if t == "float":
            return N("float")
        if t == "bool":
            return frozenset([*TRUE, *FALSE])
        if t == "bytes":
            return frozenset([("b", None)])
        if t == "Path":
            return frozenset([("xi", "pathlib.Path", None)])
        return TOP


def events(I):
    return [{k: v for k, v in e.items() if k not in ("node",)} for e in I.events.values()]
