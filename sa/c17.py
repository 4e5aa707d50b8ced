"""C17: every alternative of a dispatch over a line can be chosen, and every pattern can match something."""
from __future__ import annotations

import ast
import copy
import re

from . import auto
from .astq import own_nodes

RULE1 = "an earlier alternative does not accept every line a later one accepts"
RULE2 = "a pattern can match something"
METHODS = ("match", "search", "fullmatch")
CAP = 6000


class Patterns:
    """Patterns in force at the call sites of one tree."""

    def __init__(self, F):
        self.at = {}
        for e in F.ev("regex"):
            if e.get("method") in METHODS and e.get("pattern") is not None:
                self.at.setdefault((e["file"], e["line"], e["col"]), set()).add((e["pattern"], e["flags"], e["method"]))
        self.starts = {}
        for (path, line, col, qual), got in F.callargs.items():
            if qual.split(".")[-1] == "from_re" and "start" in got:
                self.starts[(path, line, col)] = {(p[0], p[1], "search") if isinstance(p, tuple) else (p, 0, "search")
                                                 for p in got["start"] if isinstance(p, (str, tuple))}

    def of(self, path, call):
        k = (path, call.lineno, call.col_offset)
        return self.at.get(k) or self.starts.get(k)


def subject(call, path, pats):
    """Name of the variable a pattern call looks at."""
    f = call.func
    args = [*call.args, *[k.value for k in call.keywords if k.arg in ("string", "init_line")]]
    if not isinstance(f, ast.Attribute):
        return None
    if f.attr == "from_re":
        a = args[0] if args else None
    elif isinstance(f.value, ast.Name) and f.value.id in ("re", "regex"):
        a = args[1] if len(args) > 1 else None
    else:
        a = args[0] if args else None
    return a.id if isinstance(a, ast.Name) else None


CASES = {"lower": str.lower, "casefold": str.casefold, "upper": str.upper}


def text(v):
    """(subject, may be stripped left, right, flags, case) of line, line.strip(), line.lower() ...; None if something else."""
    left = right = False
    case = None
    while isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and not v.args and not v.keywords:
        m = v.func.attr
        if m in ("strip", "lstrip", "rstrip"):
            left, right = left or m != "rstrip", right or m != "lstrip"
        elif m in CASES:
            case = case or CASES[m]
        else:
            return None
        v = v.func.value
    return (v.id, left, right, re.IGNORECASE if case else 0, case) if isinstance(v, ast.Name) else None


def literals(a):
    vals = a.elts if isinstance(a, (ast.Tuple, ast.List, ast.Set)) else [a]
    if vals and all(isinstance(v, ast.Constant) and isinstance(v.value, str) for v in vals):
        return [v.value for v in vals]
    return None


def strmethod(call):
    """(subject, pattern, flags, method) of line.startswith("x"), also after line.strip(), line.lower()."""
    f = call.func
    if not (isinstance(f, ast.Attribute) and f.attr in ("startswith", "endswith") and len(call.args) == 1):
        return None
    vals, t = literals(call.args[0]), text(f.value)
    if vals is None or t is None or isinstance(call.args[0], (ast.List, ast.Set)):
        return None
    return within(vals, t, f.attr)


def within(vals, t, how):
    """The pattern of the lines whose text (stripped, in one case) starts with, ends with, has or is one of the values."""
    subj, left, right, flags, case = t
    if case and any(case(v) != v or not v.isascii() for v in vals):
        return None
    # what is cut off would have to be known where the value itself begins or ends with it
    if (left or right) and any(v != v.strip() or not v for v in vals):
        return None
    body = "(?:" + "|".join(re.escape(v) for v in vals) + ")"
    if how == "in":
        return subj, body, flags, "search"
    if how == "startswith":
        return subj, (r"\s*" if left else "") + body, flags, "match"
    if how == "endswith":
        return subj, body + (r"\s*" if right else "") + r"\Z", flags, "search"
    return subj, (r"\s*" if left else "") + body + (r"\s*" if right else "") + r"\Z", flags, "match"


def comparison(e):
    """The same of "x" in line, line == "x", line[:3] == "x"."""
    op, lhs, rhs = e.ops[0], e.left, e.comparators[0]
    if isinstance(op, (ast.In, ast.NotIn)):
        vals = literals(lhs) if isinstance(lhs, ast.Constant) else None
        t = text(rhs)
        if vals and t:
            return within(vals, t, "in")
        vals = literals(rhs) if isinstance(rhs, (ast.Tuple, ast.List, ast.Set)) else None
        t = text(lhs)
        return within(vals, t, "is") if vals and t else None
    if isinstance(op, (ast.Eq, ast.NotEq)):
        if isinstance(lhs, ast.Constant):
            lhs, rhs = rhs, lhs
        vals = literals(rhs) if isinstance(rhs, ast.Constant) else None
        if vals is None:
            return None
        if isinstance(lhs, ast.Subscript) and isinstance(lhs.slice, ast.Slice) and lhs.slice.lower is None and \
                lhs.slice.step is None and isinstance(lhs.slice.upper, ast.Constant) and lhs.slice.upper.value == len(vals[0]):
            t = text(lhs.value)
            return within(vals, t, "startswith") if t else None
        t = text(lhs)
        return within(vals, t, "is") if t else None
    return None


class Put(ast.NodeTransformer):
    """A name replaced by a text."""

    def __init__(self, name, value):
        self.name, self.value = name, value

    def visit_Name(self, n):
        return ast.copy_location(ast.Constant(self.value), n) if n.id == self.name else n


class Atom:
    def __init__(self, subj, pats):
        self.subj, self.pats = subj, pats      # (pattern, flags, method) alternatives


def formula(e, path, pats):
    """('atom', Atom) ('and'|'or', [..]) ('not', x) ('?',)."""
    if isinstance(e, ast.NamedExpr):
        return formula(e.value, path, pats)
    if isinstance(e, ast.BoolOp):
        return ("and" if isinstance(e.op, ast.And) else "or", [formula(v, path, pats) for v in e.values])
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return ("not", formula(e.operand, path, pats))
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        c = comparison(e)
        if c:
            a = ("atom", Atom(c[0], {c[1:]}))
            return ("not", a) if isinstance(e.ops[0], (ast.NotIn, ast.NotEq)) else a
        if isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(e.comparators[0], ast.Constant) and \
                e.comparators[0].value is None:
            a = formula(e.left, path, pats)
            return a if isinstance(e.ops[0], ast.IsNot) else ("not", a)
    if isinstance(e, ast.Call):
        s = strmethod(e)
        if s:
            return ("atom", Atom(s[0], {s[1:]}))
        if isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            return formula(e.args[0], path, pats)
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1:
            g = e.args[0]
            if isinstance(g, (ast.GeneratorExp, ast.ListComp)) and len(g.generators) == 1 and not g.generators[0].ifs and \
                    isinstance(g.generators[0].target, ast.Name) and not g.generators[0].is_async:
                vals = literals(g.generators[0].iter)
                if vals:
                    v = g.generators[0].target.id
                    return ("or" if e.func.id == "any" else "and",
                            [formula(Put(v, x).visit(copy.deepcopy(g.elt)), path, pats) for x in vals])
        p = pats.of(path, e)
        if p:
            s = subject(e, path, pats)
            if s:
                return ("atom", Atom(s, frozenset(p)))
    return ("?",)


def atoms(f):
    if f[0] == "atom":
        yield f[1]
    elif f[0] in ("and", "or"):
        for x in f[1]:
            yield from atoms(x)
    elif f[0] == "not":
        yield from atoms(f[1])


def exits(body):
    return bool(body) and isinstance(body[-1], (ast.Continue, ast.Return, ast.Raise, ast.Break))


def chains(fn):
    """Lists of (test, node): alternatives of which only the first that holds is taken."""
    heads = set()
    nodes = list(own_nodes(fn))
    for n in nodes:
        if isinstance(n, ast.If):
            heads.add(n)
    inner = set()
    for n in nodes:
        if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            inner.add(n.orelse[0])
    for n in nodes:
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            if field == "orelse" and isinstance(n, ast.If) and len(b) == 1 and isinstance(b[0], ast.If):
                continue
            yield from runs_of(b)
    if isinstance(fn.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        yield from runs_of(fn.node.body)


def runs_of(stmts):
    cur = []
    for s in stmts:
        if isinstance(s, ast.If):
            arm, allexit = s, True
            while True:
                cur.append((arm.test, arm))
                allexit = allexit and exits(arm.body)
                if len(arm.orelse) == 1 and isinstance(arm.orelse[0], ast.If):
                    arm = arm.orelse[0]
                    continue
                break
            if not allexit or arm.orelse:
                if len(cur) > 1:
                    yield cur
                cur = []
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.For, ast.While, ast.With, ast.Try, ast.Expr)):
            if rebinds(s) and cur:
                if len(cur) > 1:
                    yield cur
                cur = []
    if len(cur) > 1:
        yield cur


def rebinds(s):
    """Ends a run of alternatives: anything may have changed the line."""
    return any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) for n in ast.walk(s)) or \
        any(isinstance(n, ast.Call) for n in ast.walk(s))


class Langs:
    def __init__(self):
        self.memo = {}

    def get(self, pat, over):
        k = (pat, over)
        if k not in self.memo:
            try:
                p, fl, how = pat
                self.memo[k] = auto.Lang(auto.nfa(p, fl), how, over) if isinstance(p, str) else None
            except auto.Unknown:
                self.memo[k] = None
        return self.memo[k]


def bounds(f, val, subj, hi):
    """Upper (hi) or lower bound of a formula given val(atom, hi) -> bool."""
    k = f[0]
    if k == "?":
        return hi
    if k == "not":
        return not bounds(f[1], val, subj, not hi)
    if k == "and":
        return all(bounds(x, val, subj, hi) for x in f[1])
    if k == "or":
        return any(bounds(x, val, subj, hi) for x in f[1])
    a = f[1]
    if a.subj != subj:
        return hi
    return val(a, hi)


def languages(fs, subj, L):
    """[(Lang)] and a function from the accepted flags to (hi of last, lo of first)."""
    idx, langs = {}, []
    for f in fs:
        for a in atoms(f):
            if a.subj != subj:
                continue
            for p in a.pats:
                for over in (True, False):
                    l = L.get(p, over)
                    if l is not None and (p, over) not in idx:
                        idx[(p, over)] = len(langs)
                        langs.append(l)
    return idx, langs


def valuer(idx, flags):
    def val(a, hi):
        vs = [flags[idx[(p, hi)]] if (p, hi) in idx else hi for p in a.pats]
        return any(vs) if hi else all(vs)
    return val


def witness(f, subj, L, avoid=None):
    """A line which f may accept (and avoid surely does not), None if there is none, 'cap' if not decided."""
    fs = [f] if avoid is None else [f, avoid]
    idx, langs = languages(fs, subj, L)
    # drop bounds never asked for
    if not langs:
        return []

    def want(flags):
        v = valuer(idx, flags)
        return bounds(f, v, subj, True) and (avoid is None or not bounds(avoid, v, subj, False))
    return auto.explore(langs, want, CAP)


def accepts(f, subj, L, line):
    """Whether f surely accepts a line (list of masks)."""
    idx, langs = languages([f], subj, L)
    prev, sts = auto.BOS, [l.init() for l in langs]
    for m in line:
        m = m & -m
        sts = [l.step(s, prev, m) for l, s in zip(langs, sts)]
        prev = m
    flags = [l.step(s, prev, auto.EOS) is True for l, s in zip(langs, sts)]
    return bounds(f, valuer(idx, flags), subj, False)


def check(F, R):
    R.explanation = ("Every dispatch over a line (a chain of if/elif tests, or of tests whose branches leave) is taken from "
                     "the source with the patterns in force at its tests (known to the abstract interpreter). As regular "
                     "languages over all lines, each alternative is compared with each earlier one: a line must exist "
                     "which the later accepts and the earlier does not. Every pattern's language must not be empty.")
    R.rules = [RULE1, RULE2]
    pats = Patterns(F)
    L = Langs()
    for fn in F.functions():
        path = fn.mod.path
        for ch in chains(fn):
            alts = [(formula(t, path, pats), n) for t, n in ch]
            subs = {a.subj for f, _n in alts for a in atoms(f)}
            for subj in sorted(subs):
                mine = [(i, f, n) for i, (f, n) in enumerate(alts) if any(a.subj == subj for a in atoms(f))]
                if not mine:
                    continue
                R.count("dispatches")
                R.count("alternatives", len(mine))
                if len(R.samples) < 12:
                    R.samples.append(f"{path}:{mine[0][2].lineno} {fn.qual}: {len(mine)} alternatives over {subj}")
                for j, (_i, f, n) in enumerate(mine):
                    w = witness(f, subj, L)
                    if w is None:
                        R.violation(f"{fn.qual}:impossible:{ast.unparse(n.test)[:120]}", f"{path}:{n.lineno} {fn.qual}",
                                    f"no line can satisfy {ast.unparse(n.test)[:120]}", RULE2)
                        continue
                    if w == "cap":
                        R.count("alternatives not decided")
                        continue
                    for _k, g, gn in mine[:j]:
                        R.count("pairs compared")
                        if not accepts(g, subj, L, w):
                            continue
                        w2 = witness(f, subj, L, g)
                        if w2 == "cap":
                            R.count("pairs not decided")
                        elif w2 is None:
                            R.violation(f"{fn.qual}:hidden:{ast.unparse(n.test)[:120]}", f"{path}:{n.lineno} {fn.qual}",
                                        f"never reached: every line accepted by {ast.unparse(n.test)[:120]} is taken by "
                                        f"{ast.unparse(gn.test)[:120]} (line {gn.lineno})", RULE1)
                            break
    seen = set()
    for e in F.ev("regex", "compile"):
        p = e.get("pattern")
        if not isinstance(p, str) or (p, e.get("flags", 0)) in seen:
            continue
        seen.add((p, e.get("flags", 0)))
        try:
            n = auto.nfa(p, e.get("flags", 0))
        except auto.Unknown:
            continue
        R.count("patterns")
        if auto.explore([auto.Lang(n, "search", True)], lambda f: f[0], CAP, multi=True) is None:
            R.violation(f"{e['fn']}:empty:{p[:80]}", f"{e['file']}:{e['line']} {e['fn']}",
                        f"the pattern {p[:120]!r} can never match", RULE2)
