"""C19: zero is not absence."""
from __future__ import annotations

import ast


def check(F, R):
    R.explanation = ("The abstract interpreter evaluates the truth of every condition, operand of and/or/not and filter; one "
                     "which is the truth of a number taken from the file, or of a number which may also be None, is reported.")
    R.rules = ["presence is not decided by the truth of a number from the file",
               "a number that may be None is compared with None"]
    trees = {}
    for m in F.prog.mods.values():
        t = trees[m.path] = {}
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.BoolOp, ast.Assert, ast.comprehension)) \
                    or isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                R.count("truth tests in the source")
            if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
                for v, nxt in zip(n.values, n.values[1:]):
                    if isinstance(nxt, ast.Constant) and nxt.value == 0 and not isinstance(nxt.value, bool):
                        t[(v.lineno, v.col_offset)] = True
    R.count("functions analysed", len(F.analysed))
    for e in F.ev("num_truth"):
        R.count("numbers tested for truth")
        if e.get("conv") and e.get("prov") is None:
            continue
        if e.get("prov") is None and not e.get("none"):
            continue
        if e.get("conv"):
            continue
        if trees.get(e["file"], {}).get((e["line"], e["col"])):
            continue        # x or 0
        if not any(r.startswith(("parser", "lazy", "cli")) for r in e["runs"]):
            continue
        R.violation(f"{e['fn']}:{e['detail']}", f"{e['file']}:{e['line']} {e['fn']}",
                    "the truth of a number decides" + (" whether it is there" if e.get("none") else "")
                    + f" (number from {e['prov']})", "zero is a value")
