"""C05: truncation and malformed input are reported."""
from __future__ import annotations

import ast
import json
import os
import re

from .astq import Names, own_nodes, where
from .engine import PKG
from .interp import Args
from .report import VERIF
from .values import FALSE, List, S, const

REF = os.path.join(VERIF, "ref", "ends.json")
FW = f"{PKG}.utilities.filewrapper"
RULES = ["no handler takes an error of the parse and carries on",
         "only the listed kinds of section may be ended by the end of the file",
         "the section readers do not return when the file ends inside a section which has to be terminated",
         "a binary record is used only if its length and both marks have been compared",
         "records read by a table of types are counted",
         "what is reported as malformed stays reported"]
SUPER = {"OSError": "Exception", "IOError": "Exception", "EnvironmentError": "Exception", "ValueError": "Exception",
         "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception", "TypeError": "Exception",
         "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "FileNotFoundError": "OSError",
         "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "UnicodeDecodeError": "ValueError",
         "EOFError": "Exception", "Exception": "BaseException", "struct.error": "Exception"}
CONV = {"int", "float", "complex", "fractions.Fraction", "decimal.Decimal"}


def covers(handler, exc):
    if handler in ("IOError", "EnvironmentError"):
        handler = "OSError"
    while exc is not None:
        if exc == handler:
            return True
        exc = SUPER.get(exc)
    return False


def calls(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            yield n


def short(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


class Raising:
    """What the functions of the package may raise, by explicit raises and conversions, through calls by name."""

    def __init__(self, prog):
        self.prog = prog
        self.by = {}
        self.names = {m.name: Names(prog, m) for m in prog.mods.values()}
        own, callees = {}, {}
        for f in prog.fns.values():
            if f.kind != "def":
                continue
            self.by.setdefault(f.node.name, []).append(f)
        for f in prog.fns.values():
            if f.kind != "def":
                continue
            r, cs = set(), set()
            for n in own_nodes(f):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    if short(e):
                        r.add(short(e))
                if isinstance(n, ast.Call):
                    if self.names[f.mod.name].name(n.func, f) in CONV:
                        r.add("ValueError")
                    s = short(n.func)
                    cs |= set(self.by.get(s, ()))
            own[f], callees[f] = r, cs
        self.of = own
        more = True
        while more:
            more = False
            for f in own:
                new = own[f].union(*(own[g] for g in callees[f])) if callees[f] else own[f]
                if new != own[f]:
                    own[f] = new
                    more = True

    def body(self, fn, stmts):
        """{exception: what raises it} of some statements."""
        out = {}
        for s in stmts:
            for n in ast.walk(s):
                if isinstance(n, ast.Raise) and n.exc is not None:
                    e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    if short(e):
                        out.setdefault(short(e), f"raise at line {n.lineno}")
                if isinstance(n, ast.Call):
                    q = self.names[fn.mod.name].name(n.func, fn)
                    if q in CONV and n.args:
                        out.setdefault("ValueError", f"{q}() at line {n.lineno}")
                    s2 = short(n.func)
                    if q is None or q.startswith(PKG):
                        for g in self.by.get(s2, ()):
                            for x in self.of[g]:
                                out.setdefault(x, f"{s2}() at line {n.lineno}")
        return out


def reraises(body):
    """Whether a handler always leaves by an exception (its last statement raises, or both arms do)."""
    if not body:
        return False
    s = body[-1]
    if isinstance(s, ast.Raise):
        return True
    if isinstance(s, ast.If):
        return reraises(s.body) and reraises(s.orelse)
    if isinstance(s, (ast.With, ast.Try)):
        return reraises(s.body) and not getattr(s, "handlers", ())
    return False


def handlers(F, R, RA):
    for fn in F.prog.fns.values():
        names = RA.names[fn.mod.name]
        for n in own_nodes(fn):
            if isinstance(n, ast.Try) or type(n).__name__ == "TryStar":
                for h in n.handlers:
                    R.count("handlers")
                    ts = [h.type] if h.type is None or not isinstance(h.type, ast.Tuple) else h.type.elts
                    kinds = [(names.name(t, fn) or "?").split(".")[-1] if t is not None else "BaseException" for t in ts]
                    report(R, RA, fn, h, kinds, n.body, reraises(h.body))
                for s in n.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, ast.Return):
                            report(R, RA, fn, x, ["BaseException"], n.body, False)
            if isinstance(n, (ast.With, ast.AsyncWith)):
                for it in n.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and names.name(c.func, fn) == "contextlib.suppress":
                        R.count("handlers")
                        report(R, RA, fn, c, [(names.name(a, fn) or "?").split(".")[-1] for a in c.args], n.body, False)


def report(R, RA, fn, node, kinds, body, leaves):
    if leaves:
        return
    got = RA.body(fn, body)
    for x, what in sorted(got.items()):
        if x in ("ImportError", "NotImplementedError", "AttributeError", "StopIteration", "ModuleNotFoundError"):
            continue
        if any(covers(k, x) for k in kinds):
            R.violation(f"{fn.qual}:handler:{','.join(kinds)}:{x}", where(fn, node),
                        f"{' or '.join(kinds)} is caught here and the parse carries on: {what} raises {x}", RULES[0])
            return


def exempt(F):
    """Sections read with leave for the file to end in them."""
    out = []
    for k, a in sorted(F.callargs.items()):
        path, line, _c, callee = k
        if callee.split(".")[-1] in ("from_re", "get_lines") and "eof_possible" in a and path.replace("/", ".")[:-3] != FW:
            yes = {bool(x) for x in a["eof_possible"]}
            out.append((path, line, callee, yes, a))
    return out


def shown(a, n):
    return sorted(str(x) for x in a.get(n, ())) if n in a else None


def bless(F):
    doc, raises = [], {}
    for path, _l, callee, yes, a in exempt(F):
        if True in yes:
            doc.append({"callee": callee.split(".")[-1], "file": path, "start": shown(a, "start"), "end": shown(a, "end")})
    for k in reports(F):
        raises[k] = raises.get(k, 0) + 1
    with open(REF, "w", encoding="utf-8") as f:
        json.dump({"may_end_with_file": doc, "reports": raises}, f, indent=1)
        f.write("\n")


def reports(F):
    """Kinds of explicit error report in the package which the analysis reaches: the exception and its words."""
    out = []
    reached = {(e["file"], e["line"]) for e in F.ev("raise")}
    for fn in F.prog.fns.values():
        if fn.kind != "def" or not re.search(r"parsers|filewrapper|utilit|tools", fn.mod.path):
            continue
        for n in own_nodes(fn):
            if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and (fn.mod.path, n.lineno) in reached:
                cls = short(n.exc.func)
                if cls in (None, "StopIteration", "ImportError", "NotImplementedError", "AttributeError"):
                    continue
                words = " ".join(c.value for a in n.exc.args for c in ast.walk(a)
                                 if isinstance(c, ast.Constant) and isinstance(c.value, str))
                out.append(f"{cls}: {' '.join(re.findall(r'[A-Za-z]{3,}', words))}")
    return out


def ends(F, R, ref):
    ok = ref.get("may_end_with_file", [])
    for path, line, callee, yes, a in exempt(F):
        R.count("section readers called")
        st, en = shown(a, "start"), shown(a, "end")
        if len(R.samples) < 12:
            R.samples.append(f"{path}:{line} {callee}({st}, {en}) end of file {'may' if True in yes else 'may not'} end it")
        if True not in yes:
            continue
        if any(x["callee"] == callee.split(".")[-1] and (
                (x["start"] is not None and x["start"] == st) or (x["end"] is not None and x["end"] == en and x["file"] == path)
                or (x["start"] is None and x["end"] is None and x["file"] == path)) for x in ok):
            continue
        if len(a["eof_possible"]) > 1 or (callee.split(".")[-1] == "from_re" and (st is None or len(st) > 3)):
            continue        # a helper of several sections
        R.violation(f"eof:{callee}:{st}:{en}", f"{path}:{line}",
                    f"the section {' or '.join(st or ['?'])} to {' or '.join(en or ['?'])} may be ended by the end of the file, "
                    "so a truncated one is returned as if whole", RULES[1])


def readers(F, R):
    """Block.from_re and Block.get_lines on a file which ends too early."""
    E, I = F.E, F.I
    cls = I.modvars.get(FW, {}).get("Block")
    if not cls:
        return
    for name, kw, lists in (
            ("from_re", {"init_line": S(), "start": const(""), "end": const("(?!)"), "eof_possible": FALSE}, ("any", "empty")),
            ("from_re", {"init_line": S(), "start": const(""), "end": const("(?!)")}, ("any", "empty")),
            ("get_lines", {"n_lines": const(3), "eof_possible": FALSE}, ("empty",)),
            ("get_lines", {"n_lines": const(3)}, ("empty",))):
        for kind in lists:
            st = E.begin(FW)
            node = I.prog.fns[FW].node
            addr = ("arg", 0, "lines", 0)
            st.heap[addr] = List("list", None, S()) if kind == "any" else List("list", (), frozenset())
            lines = frozenset([("r", addr)])
            try:
                fv = I.models.getattr(cls, name, st, node)
                sig = next(f for f in I.prog.fns.values() if f.qual == f"Block.{name}" and f.mod.name == FW)
                have = {a.arg for a in (*sig.node.args.args, *sig.node.args.kwonlyargs)}
                if not set(kw) | {"in_file"} <= have:
                    continue
                r = I.call(fv, Args([], {**kw, "in_file": lines}), st, node)
            except Exception:  # noqa: BLE001
                continue
            R.count("readers evaluated at the end of a file")
            if r and not st.dead:
                R.violation(f"Block.{name}:returns", where(sig, sig.node),
                            f"{name} returns when the file ends before the section does"
                            + ("" if "eof_possible" in kw else " (by default)"), RULES[2])


# ---------------------------------------------------------------- binary records
class Tags:
    """Which names may hold what was read, its size and the marks around it (through assignments, calls, attributes)."""

    def __init__(self, fns):
        self.fns = fns
        self.by = {}
        for f in fns:
            self.by.setdefault(f.node.name, []).append(f)
        self.var = {}
        self.ret = {}
        self.more = True
        while self.more:
            self.more = False
            for f in fns:
                self.scan(f)

    def add(self, key, tags, table=None):
        t = self.var if table is None else table
        old = t.get(key, frozenset())
        if not tags <= old:
            t[key] = old | tags
            self.more = True

    def scan(self, f):
        for n in own_nodes(f):
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                t = self.expr(n.value, f)
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    self.store(x, t, f)
            elif isinstance(n, ast.Return) and n.value is not None:
                self.add(f, self.expr(n.value, f), self.ret)
            if isinstance(n, ast.Call):
                for g in self.by.get(short(n.func) or "", ()):
                    ps = [a.arg for a in (*g.node.args.posonlyargs, *g.node.args.args)]
                    if g.cls is not None and ps and ps[0] in ("self", "cls"):
                        ps = ps[1:]
                    for p, a in zip(ps, n.args):
                        self.add((g, p), self.expr(a, f))
                    for k in n.keywords:
                        if k.arg:
                            self.add((g, k.arg), self.expr(k.value, f))

    def store(self, x, t, f):
        if isinstance(x, ast.Name):
            self.add((f, x.id), t)
        elif isinstance(x, ast.Attribute):
            self.add(("attr", x.attr), t)
        elif isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                self.store(y, t, f)

    def expr(self, e, f):
        if e is None:
            return frozenset()
        if isinstance(e, ast.Name):
            return self.var.get((f, e.id), frozenset())
        if isinstance(e, ast.Attribute):
            return self.var.get(("attr", e.attr), frozenset())
        if isinstance(e, ast.NamedExpr):
            return self.expr(e.value, f)
        if isinstance(e, ast.Call):
            s = short(e.func)
            args = frozenset().union(*(self.expr(a, f) for a in e.args)) if e.args else frozenset()
            if s == "read" and isinstance(e.func, ast.Attribute):
                if e.args and isinstance(e.args[0], ast.Constant):
                    return frozenset(["mark"])
                return frozenset(["data"]) if args & {"size"} else frozenset(["data", "mark"]) if e.args else frozenset()
            if s in ("from_bytes", "unpack") and args & {"mark"}:
                return frozenset(["size"])
            if s == "len" and "data" in args:
                return frozenset(["length"])
            out = frozenset()
            for g in self.by.get(s or "", ()):
                out |= self.ret.get(g, frozenset())
            return out
        if isinstance(e, (ast.Subscript, ast.Starred, ast.Await)):
            return self.expr(e.value, f)
        if isinstance(e, ast.IfExp):
            return self.expr(e.body, f) | self.expr(e.orelse, f)
        if isinstance(e, ast.BoolOp):
            return frozenset().union(*(self.expr(v, f) for v in e.values))
        if isinstance(e, ast.BinOp):
            return self.expr(e.left, f) | self.expr(e.right, f)
        if isinstance(e, (ast.Tuple, ast.List)):
            return frozenset().union(*(self.expr(v, f) for v in e.elts)) if e.elts else frozenset()
        return frozenset()

    def compared(self):
        """Pairs of tags compared with each other where it matters: the result is used by a condition or returned."""
        out = set()
        for f in self.fns:
            for n in own_nodes(f):
                if not isinstance(n, ast.Compare):
                    continue
                sides = [self.expr(x, f) for x in (n.left, *n.comparators)]
                tup = [x.elts if isinstance(x, (ast.Tuple, ast.List)) else None for x in (n.left, *n.comparators)]
                for a, b, ta, tb in zip(sides, sides[1:], tup, tup[1:]):
                    pairs = [(a, b)]
                    if ta and tb and len(ta) == len(tb):
                        pairs = [(self.expr(x, f), self.expr(y, f)) for x, y in zip(ta, tb)]
                    for x, y in pairs:
                        for p in x:
                            for q in y:
                                out.add(frozenset([p, q]) if p != q else frozenset([p]))
        return out


def raising_tests(fns):
    """Whether any condition in these functions leads to a raise."""
    for f in fns:
        for n in own_nodes(f):
            if isinstance(n, ast.If) and any(isinstance(x, ast.Raise) for s in (*n.body, *n.orelse) for x in ast.walk(s)):
                yield f, n


def records(F, R):
    for m in F.prog.mods.values():
        fns = [f for f in F.prog.fns.values() if f.mod is m and f.kind == "def"]
        heads = [f for f in fns if any(isinstance(n, ast.Call) and short(n.func) == "from_bytes" for n in own_nodes(f))
                 or any(isinstance(n, ast.Call) and short(n.func) == "unpack" for n in own_nodes(f))]
        takes = [f for f in fns if any(isinstance(n, ast.Call) and short(n.func) == "read" and n.args
                                       and not isinstance(n.args[0], ast.Constant) for n in own_nodes(f))]
        if not heads or not takes:
            continue
        R.count("record readers")
        T = Tags(fns)
        got = T.compared()
        leads = any(True for _ in raising_tests(fns))
        f = takes[0]
        if not {frozenset(["length", "size"]), frozenset(["data", "length"])} & got or not leads:
            R.violation(f"{m.name}:record length", where(f, f.node),
                        "the length of the data of a record is not compared with its mark", RULES[3])
        if not {frozenset(["mark"]), frozenset(["size"]), frozenset(["mark", "size"])} & got or not leads:
            R.violation(f"{m.name}:record marks", where(f, f.node),
                        "the marks before and after a record are not compared", RULES[3])
        for g in fns:
            if g.cls is None:
                continue
            for n in own_nodes(g):
                if isinstance(n, ast.Call) and short(n.func) == "zip" and any(
                        isinstance(a, ast.Name) and a.id == "self" for a in n.args):
                    R.count("tables of records")
                    if any(k.arg == "strict" and isinstance(k.value, ast.Constant) and k.value.value is True
                           for k in n.keywords):
                        continue
                    if not isinstance(n.args[0], ast.Name) or n.args[0].id != "self":
                        ok = any(isinstance(c, ast.Compare) and sum(isinstance(x, ast.Call) and short(x.func) == "len"
                                                                    for x in (c.left, *c.comparators)) >= 1
                                 for _f, t in raising_tests([h for h in fns if h is g or h.node.name in
                                                             {short(c.func) for c in calls(g.node)}])
                                 for c in ast.walk(t.test))
                        if ok:
                            continue
                    R.violation(f"{g.qual}:zip", where(g, n), "records are paired with a table of types without counting "
                                "them, so a missing one goes unnoticed", RULES[4])


def check(F, R):
    R.explanation = ("Handlers and suppressions are compared with what the code they guard may raise (through calls); every "
                     "section reader call is evaluated for its end and its leave to be ended by the end of the file; the "
                     "readers themselves are evaluated on a file that ends; the comparisons of record marks are traced; "
                     "explicit error reports are counted.")
    R.rules = RULES
    try:
        with open(REF, encoding="utf-8") as f:
            ref = json.load(f)
    except OSError:
        ref = {}
    RA = Raising(F.prog)
    R.count("functions whose errors are known", len(RA.of))
    handlers(F, R, RA)
    ends(F, R, ref)
    readers(F, R)
    records(F, R)
    want = ref.get("reports", {})
    now = {}
    for k in reports(F):
        now[k] = now.get(k, 0) + 1
    R.cov["error reports"] = sum(now.values())
    if sum(now.values()) < sum(want.values()):
        for k, n in want.items():
            if now.get(k, 0) == 0:
                R.violation(f"report:{k}", "package", f"malformed input is no longer reported ({k})", RULES[5])


