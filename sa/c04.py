"""C04: no name is read which the path has not set."""
from __future__ import annotations

import ast

from .astq import parents

RULES = {"unbound": "a local name is read only on paths which set it",
         "unbound_attr": "an attribute is read only after it is set",
         "noname": "a global name exists", "noattr": "an attribute exists", "noexport": "an imported name exists"}


def check(F, R):
    R.explanation = ("The abstract interpreter follows every path of every function (loops to a fixed point, every branch "
                     "whose condition it cannot decide) and carries 'not set' as a value of local names and attributes; a "
                     "read it may reach is reported, unless the same condition guards both.")
    R.rules = list(RULES.values())
    R.count("functions analysed", len(F.analysed))
    R.count("statements and expressions visited", F.visited)
    for fn in F.functions():
        R.count("local names", len(fn.locals))
    trees = {}
    for e in F.ev(*RULES):
        if e["kind"] == "noattr" and e["runs"] <= {"rest"}:
            continue
        if e["kind"] == "unbound" and correlated(F, e, trees):
            R.count("reads under the condition that sets the name")
            continue
        what = {"unbound": "{} may not be set here", "unbound_attr": "attribute {} may not be set here",
                "noname": "no name {}", "noattr": "no attribute {}", "noexport": "no name {} to import"}[e["kind"]]
        R.violation(f"{e['fn']}:{e['kind']}:{e['detail']}", f"{e['file']}:{e['line']} {e['fn']}",
                    what.format(e["detail"]) + f" (reached by {', '.join(sorted(e['runs']))}; {e['chain']})",
                    RULES[e["kind"]])


def conjuncts(t, neg=False):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return conjuncts(t.operand, not neg)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) != neg:
        return [c for v in t.values for c in conjuncts(v, neg)]
    return [(ast.dump(t), neg, t)]


TERM = (ast.Return, ast.Raise, ast.Continue, ast.Break)


def guards(node, par, stop):
    """Conditions known to hold at a node, from the statements around it (innermost first), and the enclosing blocks."""
    out, blocks = [], []
    n = node
    while n is not stop:
        p = par.get(id(n))
        if p is None:
            break
        if isinstance(p, (ast.If, ast.While)):
            if any(n is x for x in p.body):
                out += [(c, p) for c in conjuncts(p.test)]
            elif any(n is x for x in p.orelse) and isinstance(p, ast.If):
                out += [(c, p) for c in conjuncts(p.test, True)]
        elif isinstance(p, ast.IfExp):
            if n is p.body:
                out += [(c, p) for c in conjuncts(p.test)]
            elif n is p.orelse:
                out += [(c, p) for c in conjuncts(p.test, True)]
        elif isinstance(p, ast.BoolOp):
            i = next(i for i, v in enumerate(p.values) if v is n)
            for v in p.values[:i]:
                out += [(c, p) for c in conjuncts(v, isinstance(p.op, ast.Or))]
        for f in ("body", "orelse", "finalbody", "handlers"):
            lst = getattr(p, f, None)
            if isinstance(lst, list) and any(n is x for x in lst):
                i = next(i for i, x in enumerate(lst) if x is n)
                blocks.append((p, f))
                for s in lst[:i]:
                    if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], TERM) and not s.orelse:
                        out += [(c, s) for c in conjuncts(s.test, True)]
        n = p
    return out, blocks


def names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def binds(n, name):
    return isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)


def correlated(F, e, trees):
    fn = next((f for f in F.prog.fns.values() if f.kind in ("def", "lambda") and f.mod.path == e["file"]
               and f.qual == e["fn"]), None)
    if fn is None:
        return False
    if e["file"] not in trees:
        trees[e["file"]] = parents(fn.mod.tree)
    par = trees[e["file"]]
    use = next((n for n in ast.walk(fn.node) if isinstance(n, ast.Name) and n.id == e["detail"]
                and n.lineno == e["line"] and n.col_offset == e["col"]), None)
    if use is None:
        return False
    ug, ub = guards(use, par, fn.node)
    if not ug:
        return False
    keys = {(d, neg) for (d, neg, _t), _s in ug}
    guardnames = set()
    for (_d, _neg, t), _s in ug:
        guardnames |= names(t)
    ubs = {(id(p), f) for p, f in ub}
    for b in (n for n in ast.walk(fn.node) if binds(n, e["detail"])):
        bg, bb = guards(b, par, fn.node)
        inner = [(c, s) for c, s in bg if not any(c[:2] == c2[:2] and s is s2 for c2, s2 in ug)]
        if inner and b.lineno <= use.lineno and all((d, neg) in keys for (d, neg, _t), _s in inner):
            return True
        # a flag set together with the name
        if bb and (id(bb[0][0]), bb[0][1]) not in ubs:
            blk = getattr(bb[0][0], bb[0][1])
            for s in blk:
                for x in ast.walk(s):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id != e["detail"] \
                            and x.id in guardnames:
                        if any(x.id in names(t) and test_of(t, x.id) for (_d, _n, t), s2 in ug
                               if not any(s2 is s3 for _c, s3 in bg)):
                            return True
    return False


def test_of(t, name):
    """Whether a condition is about this one name (its truth, or a comparison of it)."""
    if isinstance(t, ast.Name):
        return t.id == name
    if isinstance(t, ast.Compare):
        return isinstance(t.left, ast.Name) and t.left.id == name
    return False
