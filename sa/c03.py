"""C03: nothing but the input decides the output."""
from __future__ import annotations

import ast

from .astq import Names, own_nodes, parents, where
from .c02 import Owners

RULES = ["nothing is taken from an unordered collection in an order which matters",
         "no time, randomness, identity, hash, environment or unsorted directory listing is used",
         "text is decoded the same way in every locale",
         "no call leaves anything behind which a later one can see"]
AMBIENT = """time.time time.time_ns time.monotonic time.monotonic_ns time.perf_counter time.perf_counter_ns time.localtime
time.gmtime time.ctime time.asctime time.strftime time.process_time time.tzname time.timezone
datetime.datetime.now datetime.datetime.today datetime.datetime.utcnow datetime.date.today
random uuid secrets numpy.random os.urandom os.getpid os.getppid os.getlogin os.getuid os.getcwd os.getcwdb os.environ
os.environb os.getenv os.cpu_count os.uname os.stat os.getloadavg os.path.getmtime os.path.getctime os.path.getatime
socket platform getpass pwd locale.getlocale locale.getpreferredencoding locale.localeconv locale.getdefaultlocale
pathlib.Path.cwd pathlib.Path.home sys.argv sys.getrefcount sys.getsizeof sys.byteorder gc.get_objects threading.get_ident
sys.hash_info sys.flags sys.path tempfile.gettempdir os.get_terminal_size shutil.get_terminal_size""".split()
LISTS = {"os.listdir", "os.scandir", "os.walk", "glob.glob", "glob.iglob", "os.fwalk"}
LISTMETH = {"iterdir", "glob", "rglob", "walk"}
FREE = {"sorted", "set", "frozenset", "any", "all", "len", "sum", "Counter", "bool", "isinstance", "issubclass", "fsum",
        "startswith", "endswith"}
SETMETH = {"update", "union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint",
           "intersection_update", "difference_update", "symmetric_difference_update", "discard", "add"}
PASS = {"list", "tuple", "iter", "map", "filter", "reversed", "enumerate", "zip", "join", "chain", "from_iterable", "deque",
        "fromkeys", "cycle", "islice", "cast", "format"}
TIEKEYS = {"len", "str.lower", "str.upper", "str.casefold", "type"}


def short(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None


class Order:
    """Whether the order in which a node gives elements can be seen in what the program gives."""

    def __init__(self, prog):
        self.prog = prog
        self.par = {m.name: parents(m.tree) for m in prog.mods.values()}
        self.fnat = {}
        for f in prog.fns.values():
            for n in own_nodes(f):
                self.fnat[id(n)] = f

    def node(self, path, line, col, detail):
        kind, el, ec = detail.split(":")
        for m in self.prog.mods.values():
            if m.path != path:
                continue
            for n in ast.walk(m.tree):
                if type(n).__name__ == kind and getattr(n, "lineno", 0) == line and getattr(n, "col_offset", 0) == col and \
                        str(getattr(n, "end_lineno", 0)) == el and str(getattr(n, "end_col_offset", 0)) == ec:
                    return m, n
        return None, None

    def seen(self, m, n):
        """Why the order of the elements this node goes through is seen, or None."""
        if isinstance(n, ast.For):
            return self.loop(m, n)
        if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
            return self.used(m, n)
        if isinstance(n, ast.DictComp):
            return self.used(m, n)
        if isinstance(n, ast.Call):
            return self.used(m, n, start=True)
        if isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) > 1 and not all(isinstance(x, ast.Starred) for x in t.elts):
                return "elements are taken apart by position"
        if isinstance(n, (ast.Starred, ast.List, ast.Tuple, ast.Name, ast.Attribute, ast.Subscript)):
            return self.used(m, n)
        return None

    def loop(self, m, n):
        f = self.fnat.get(id(n))
        names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        lists, filled = set(), set()
        grew = True
        while grew:         # what follows from the element
            grew = False
            for x in ast.walk(n):
                if isinstance(x, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and x.value is not None:
                    ts, v = (x.targets if isinstance(x, ast.Assign) else [x.target]), x.value
                elif isinstance(x, ast.For) and x is not n:
                    ts, v = [x.target], x.iter
                else:
                    continue
                if any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(v)):
                    new = {y.id for t in ts for y in ast.walk(t)
                           if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} - names
                    if new:
                        names |= new
                        grew = True
        todo = list(n.body)
        while todo:
            s = todo.pop()
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                todo += [x for k in ("body", "orelse", "finalbody") for x in getattr(s, k, ())]
                todo += [x for h in getattr(s, "handlers", ()) for x in h.body]
                continue
            for x in ast.walk(s):
                if isinstance(x, (ast.Yield, ast.YieldFrom)):
                    return "the loop yields"
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
                        "append", "extend", "insert", "appendleft", "write"):
                    d = x.func.value
                    if isinstance(d, ast.Name) and self.sorted_later(f, d.id, n):
                        continue
                    if isinstance(d, ast.Name) and x.func.attr != "write":
                        lists.add(d.id)
                        continue
                    return f"the loop adds to {ast.unparse(d)} in this order"
                if isinstance(x, ast.Call) and short(x.func) == "print":
                    return "the loop prints"
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant):
                if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(s.value)):
                    return "the first element found is returned"
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                uses = s.value is not None and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(s.value))
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    if isinstance(t, ast.Subscript) and not isinstance(s, ast.AugAssign) and isinstance(t.value, ast.Name):
                        if any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(t.slice)):
                            lists.add(t.value.id)
                            if not self.overwrites(n, t, s):
                                filled.add(t.value.id)
                    if isinstance(t, ast.Name) and uses and not isinstance(s, ast.AugAssign) and self.later(f, t.id, n):
                        return f"{t.id} keeps the last element"
                    if isinstance(t, ast.Name) and uses and isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and any(
                            isinstance(x, (ast.JoinedStr, ast.List)) or isinstance(x, ast.Constant) and isinstance(x.value, str)
                            for x in ast.walk(s.value)):
                        return f"{t.id} is put together in this order"
        for d in sorted(lists):
            if f is None:
                continue
            why = self.name(m, f, d, n)
            if why:
                return f"'{d}' is filled in this order and {why}"
            if d in filled and self.callers_own(f, d):
                return f"'{d}', which the caller has, is filled in this order"
        return None

    @staticmethod
    def overwrites(loop, t, s):
        """Whether d[key] = ... gives a key which is there already a new value."""
        d, k = ast.unparse(t.value), ast.unparse(t)
        return any(isinstance(x, ast.Name) and x.id == d for x in ast.walk(loop.iter)) and \
            ast.unparse(t.slice) == ast.unparse(loop.target) or \
            s.value is not None and any(isinstance(x, ast.Subscript) and ast.unparse(x) == k for x in ast.walk(s.value))

    def callers_own(self, f, name, seen=()):
        """Whether a name can stand for an object given by the caller."""
        if name in self.params(f):
            return True
        for x in own_nodes(f):
            if name not in seen and isinstance(x, (ast.Assign, ast.AnnAssign)) and x.value is not None and any(
                    isinstance(t, ast.Name) and t.id == name for t in (x.targets if isinstance(x, ast.Assign) else [x.target])):
                vs = [x.value.body, x.value.orelse] if isinstance(x.value, ast.IfExp) else [x.value]
                if any(isinstance(v, ast.Name) and self.callers_own(f, v.id, (*seen, name)) for v in vs):
                    return True
        return False

    def sorted_later(self, f, name, n):
        return f is not None and any(
            isinstance(x, ast.Call) and (isinstance(x.func, ast.Attribute) and x.func.attr == "sort"
                                         and isinstance(x.func.value, ast.Name) and x.func.value.id == name)
            for x in own_nodes(f))

    def later(self, f, name, n):
        return f is not None and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load)
                                     and x.lineno > n.end_lineno for x in own_nodes(f))

    def name(self, m, f, name, after, hops=0):
        """Whether the order in a variable is seen (it is not when it is sorted or only looked up in)."""
        if self.sorted_later(f, name, after):
            return None
        for x in own_nodes(f):
            if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load) and x.lineno >= after.lineno \
                    and not (after.lineno <= x.lineno <= getattr(after, "end_lineno", 0) and isinstance(after, ast.For)):
                why = self.used(m, x, hops=hops + 1)
                if why:
                    return why
        return None

    def used(self, m, n, start=False, hops=0):
        par = self.par[m.name]
        if hops > 5:
            return None
        x = n
        if start:
            s = short(n.func)
            if s in FREE or s in SETMETH or s in ("min", "max"):
                if s in ("sorted", "min", "max"):
                    return self.ties(n)
                return None
            if s in ("next",):
                return "its first element is taken"
            if s == "join" and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Constant) and \
                    n.func.value.value == "|":
                return None         # alternatives of a pattern
            if s not in PASS:
                return None
        while True:
            p = par.get(id(x))
            if p is None:
                return None
            if isinstance(p, ast.Call):
                if x is p.func:
                    return None
                s = short(p.func)
                if s in ("sorted", "min", "max"):
                    return self.ties(p)
                if s == "update" and isinstance(x, (ast.DictComp, ast.Dict)) and isinstance(p.func, ast.Attribute):
                    d, f = p.func.value, self.fnat.get(id(n))
                    if isinstance(d, ast.Name) and f is not None and d.id not in self.params(f):
                        return self.name(m, f, d.id, p, hops + 1)
                    return f"{ast.unparse(d)} is filled in this order"
                if s in FREE or s in SETMETH:
                    return None
                if s == "next":
                    return "its first element is taken"
                if s == "join" and isinstance(p.func, ast.Attribute) and isinstance(p.func.value, ast.Constant) and \
                        p.func.value.value == "|":
                    return None
                if s in PASS or s in ("append", "extend", "insert", "write", "print", "dict"):
                    if s in ("append", "extend", "insert", "write", "print"):
                        d = p.func.value if isinstance(p.func, ast.Attribute) else None
                        f = self.fnat.get(id(n))
                        if isinstance(d, ast.Name) and f is not None and s != "write":
                            return self.name(m, f, d.id, p, hops + 1)
                        return f"goes to {s}() in this order"
                    x = p
                    continue
                f = self.fnat.get(id(n))
                if isinstance(p.func, ast.Name) and f is not None and any(
                        isinstance(y, ast.Name) and y.id == s and isinstance(y.ctx, ast.Store) for y in own_nodes(f)):
                    return f"goes to {s}() in this order"
                return self.into(p, x, hops)
            if isinstance(p, ast.Starred):
                x = p
                continue
            if isinstance(p, ast.keyword):
                x = p
                continue
            if isinstance(p, (ast.SetComp, ast.Set)):
                return None
            if isinstance(p, ast.comprehension):
                c = par.get(id(p))
                if isinstance(c, ast.SetComp) or p.iter is not x:
                    return None
                x = c
                continue
            if isinstance(p, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.If, ast.While, ast.Assert, ast.Raise, ast.Expr)):
                if isinstance(p, ast.BoolOp):
                    x = p
                    continue
                return None
            if isinstance(p, ast.IfExp):
                if p.test is x:
                    return None
                x = p
                continue
            if isinstance(p, ast.Attribute):
                g = par.get(id(p))
                if p.attr in ("sort", "items", "keys", "values") and isinstance(g, ast.Call):
                    if p.attr == "sort":
                        return None
                    x = g
                    continue
                return None
            if isinstance(p, ast.Subscript):
                if p.value is x and isinstance(p.slice, (ast.Constant, ast.Slice, ast.UnaryOp)) and not (
                        isinstance(p.slice, ast.Constant) and isinstance(p.slice.value, str)):
                    return "an element is taken by position"
                return None
            if isinstance(p, ast.For):
                if p.iter is x:
                    return self.loop(m, p)
                return None
            if isinstance(p, (ast.Return, ast.Lambda)):
                f = self.fnat.get(id(n))
                return self.callers(m, f, hops)
            if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
                f = self.fnat.get(id(n))
                ts = p.targets if isinstance(p, ast.Assign) else [p.target]
                for t in ts:
                    if isinstance(t, (ast.Tuple, ast.List)):
                        return "elements are taken apart by position"
                    if isinstance(t, ast.Name) and f is not None:
                        why = self.name(m, f, t.id, p, hops)
                        if why:
                            return why
                    elif isinstance(t, ast.Subscript):
                        return f"is kept in {ast.unparse(t.value)}"
                if isinstance(p, ast.NamedExpr):
                    x = p
                    continue
                return None
            if isinstance(p, (ast.JoinedStr, ast.FormattedValue)):
                x = p
                continue
            if isinstance(p, (ast.List, ast.Tuple, ast.Dict, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.BinOp,
                              ast.Yield, ast.YieldFrom)):
                if isinstance(p, (ast.Yield, ast.YieldFrom)):
                    return "is yielded in this order"
                x = p
                continue
            return None

    @staticmethod
    def params(f):
        a = getattr(f.node, "args", None)
        return [y.arg for y in (a.posonlyargs + a.args + a.kwonlyargs)] if a is not None else []

    def into(self, call, x, hops):
        """Whether a function of the program sees the order of what it is given."""
        s = short(call.func)
        fs = [g for g in self.prog.fns.values() if g.kind == "def" and g.node.name == s]
        if len(fs) != 1 or hops > 3:
            return None
        g = fs[0]
        ps = self.params(g)
        if isinstance(x, ast.keyword):
            name = x.arg
        elif x in call.args:
            k = call.args.index(x) + (1 if ps[:1] in (["self"], ["cls"]) else 0)
            name = ps[k] if k < len(ps) else None
        else:
            name = None
        if name not in ps:
            return None
        return self.name(g.mod, g, name, g.node, hops + 1)

    def ties(self, call):
        key = next((k.value for k in call.keywords if k.arg == "key"), None)
        if key is not None and ast.unparse(key) in TIEKEYS:
            return f"{short(call.func)}() leaves elements of the same {ast.unparse(key)} in this order"
        return None

    def callers(self, m, f, hops):
        if f is None or getattr(f.node, "name", None) is None or hops > 3:
            return None
        found, whys = False, []
        for g in self.prog.fns.values():
            for n in own_nodes(g):
                if isinstance(n, ast.Call) and short(n.func) == f.node.name:
                    found = True
                    w = self.used(g.mod, n, hops=hops + 1)
                    if w:
                        whys.append(w)
        if not found:
            return "is returned in this order"
        return whys[0] if whys else None


def ambient(F, R):
    par = {m.name: parents(m.tree) for m in F.prog.mods.values()}
    names = {m.name: Names(F.prog, m) for m in F.prog.mods.values()}
    O = Owners(F.prog)
    seen = set()
    for e in F.ev("decoding"):
        seen.add((e["file"], e["line"], e["col"]))
        if not e["enc"]:
            R.violation(f"{e['fn']}:encoding", f"{e['file']}:{e['line']} {e['fn']}", "text is decoded as the locale says", RULES[2])

    def hit(q):
        parts = q.split(".")
        return next((".".join(parts[:k]) for k in range(len(parts), 0, -1) if ".".join(parts[:k]) in AMBIENT), None)
    for f in F.prog.fns.values():
        if f.kind == "lambda":
            continue
        nm = names[f.mod.name]
        R.count("functions scanned")
        for n in own_nodes(f):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                q = nm.name(n, f)
                if q and (d := hit(q)) and not (isinstance(par[f.mod.name].get(id(n)), ast.Attribute)):
                    R.violation(f"{f.qual}:{d}", where(f, n), f"what it does depends on {q}", RULES[1])
            if isinstance(n, ast.Attribute) and n.attr in ("st_mtime", "st_ctime", "st_atime", "st_ino", "st_mtime_ns"):
                R.violation(f"{f.qual}:{n.attr}", where(f, n), f"what it does depends on the {n.attr} of a file", RULES[1])
            if not isinstance(n, ast.Call):
                continue
            q = nm.name(n.func, f)
            if q in ("id", "hash", "builtins.id", "builtins.hash") and getattr(f.node, "name", "") not in ("__hash__",):
                R.violation(f"{f.qual}:{q}", where(f, n), f"{q}() differs from process to process", RULES[1])
            if q in LISTS or q is None and isinstance(n.func, ast.Attribute) and n.func.attr in LISTMETH:
                R.count("directory listings")
                o = Order(F.prog)
                why = o.used(f.mod, n)
                if why:
                    R.violation(f"{f.qual}:{short(n.func)}", where(f, n),
                                f"files come in the order of the directory: {why}", RULES[1])
            if O.is_open(n, f):
                R.count("files opened")
                if (f.mod.path, n.lineno, n.col_offset) not in seen and not decoded(f, n, nm):
                    R.violation(f"{f.qual}:encoding", where(f, n), "text is decoded as the locale says", RULES[2])


def decoded(f, n, nm):
    """Whether an open call names the encoding (itself, or in what it passes on), or is for bytes."""
    if any(k.arg == "encoding" for k in n.keywords):
        return True
    q = nm.name(n.func, f)
    if q in ("gzip.open", "os.fdopen", "io.FileIO", "tempfile.TemporaryFile"):
        return True
    pos = 0 if q is None or q.startswith("pathlib.") else 1
    mode = next((k.value for k in n.keywords if k.arg == "mode"), None) or (n.args[pos] if len(n.args) > pos else None)
    if isinstance(mode, ast.Constant):
        if isinstance(mode.value, str) and "b" in mode.value:
            return True
    if len(n.args) > pos + 2 or any(isinstance(a, ast.Starred) for a in n.args):
        return True
    return any(k.arg is None for k in n.keywords)       # options passed on: only the interpreter can tell


def left(F, R):
    for e in F.ev("mutate", "global_write"):
        w = f"{e['file']}:{e['line']} {e['fn']}"
        if e["kind"] == "global_write":
            if not e["fn"].startswith("<module>"):
                R.violation(f"{e['fn']}:global {e['detail']}", w, f"a call leaves a value in the global name {e['detail']}", RULES[3])
        elif e["origin"] != "argument" and not e["runs"] <= {"rest"}:
            R.violation(f"{e['fn']}:{e['how']}:{e['origin'][1].split(':')[0]}", w,
                        f"a call changes an object every call shares ({e['origin'][1]}; {e['how']})", RULES[3])
    for e in F.ev("memo"):
        if e.get("mutable"):
            R.violation(f"{e['fn']}:memo:{e['detail']}", f"{e['file']}:{e['line']} {e['fn']}",
                        f"{e['detail']} is memoised and returns {e['mutable']}", RULES[3])
    names = {m.name: Names(F.prog, m) for m in F.prog.mods.values()}
    by = {}
    for f in F.prog.fns.values():
        if f.kind == "def":
            by.setdefault(f.node.name, []).append(f)
    O = Owners(F.prog)
    for f in F.prog.fns.values():
        if f.kind != "def":
            continue
        nm = names[f.mod.name]
        if not any(nm.name(d.func if isinstance(d, ast.Call) else d) in
                   ("functools.lru_cache", "functools.cache", "functools.cached_property") for d in f.node.decorator_list):
            continue
        if any(nm.name(d.func if isinstance(d, ast.Call) else d) == "functools.cached_property" for d in f.node.decorator_list):
            continue
        R.count("memoised functions")
        todo, done = [f], set()
        while todo:
            g = todo.pop()
            if g in done:
                continue
            done.add(g)
            for n in own_nodes(g):
                if not isinstance(n, ast.Call):
                    continue
                if O.is_open(n, g) or short(n.func) in ("read_text", "read_bytes", "readline", "readlines", "is_file", "exists"):
                    R.violation(f"{f.qual}:memo", where(f, f.node), f"{f.node.name} is memoised but reads a file "
                                f"({where(g, n)}), so a later call sees what an earlier one read", RULES[3])
                todo += by.get(short(n.func) or "", ())
            if any(isinstance(d, ast.Call) and short(d.func) == "file_or_path" for d in g.node.decorator_list):
                R.violation(f"{f.qual}:memo", where(f, f.node), f"{f.node.name} is memoised but reads a file, so a later call "
                            "sees what an earlier one read", RULES[3])


def check(F, R):
    R.explanation = ("Wherever the abstract interpreter sees the elements of a set taken one by one, the use of their order is "
                     "followed to what it can reach; every name of every function is compared with a list of ambient sources "
                     "through the import table; opens are checked for their decoding; writes to shared objects and memoised "
                     "functions which read are reported.")
    R.rules = RULES
    o = Order(F.prog)
    for e in F.ev("unord_iter"):
        m, n = o.node(e["file"], e["line"], e["col"], e["detail"])
        if n is None:
            continue
        R.count("places where a set is gone through")
        why = o.seen(m, n)
        if len(R.samples) < 12:
            R.samples.append(f"{e['file']}:{e['line']} {e['fn']}: {why or 'order not used'}")
        if why:
            R.violation(f"{e['fn']}:set {ast.unparse(n)[:60]}", f"{e['file']}:{e['line']} {e['fn']}",
                        f"a set is gone through in an order which differs from process to process: {why}", RULES[0])
    for e in F.ev("unord_pick", "unord_text"):
        m, n = o.node(e["file"], e["line"], e["col"], e["detail"])
        if n is None:
            continue
        R.count("places where an element of a set is picked or a set is made text")
        if e["kind"] == "unord_pick":
            x = n
            while x is not None and not isinstance(x, ast.While):
                x = o.par[m.name].get(id(x))
            why = None if x is not None else "one of its elements is picked"
        else:
            why = o.used(m, n) and "its text is used"
        if why:
            R.violation(f"{e['fn']}:set {ast.unparse(n)[:60]}", f"{e['file']}:{e['line']} {e['fn']}",
                        f"the order of a set differs from process to process: {why}", RULES[0])
    ambient(F, R)
    left(F, R)
