"""C11: parts of matches exist, and optional ones are used with care."""
from __future__ import annotations

RUNS = ("parser", "lazy")


def check(F, R):
    R.explanation = ("The abstract interpreter knows, for every match object, which patterns it can come from; every use of "
                     "a part is checked against the groups of those patterns, and the values of groups a pattern can leave "
                     "out carry 'absent' to wherever they are used (conversion, measuring, iteration, methods).")
    R.rules = ["a part asked for exists in the pattern", "an absent part is not converted, measured or taken apart",
               "every pattern compiles"]
    for e in F.ev("regex", "compile"):
        R.count("pattern uses")
    for e in F.ev("group_use"):
        R.count("uses of parts")
    R.samples = [f"{e['file']}:{e['line']} {e['fn']} {e['detail']}" for e in F.ev("group_use")][:12]
    for e in F.ev("group_missing", "group_none_use", "bad_regex"):
        w = f"{e['file']}:{e['line']} {e['fn']}"
        if not any(r.startswith(RUNS) for r in e["runs"]) and e["kind"] != "bad_regex":
            continue
        if e["kind"] == "group_missing":
            R.violation(f"{e['fn']}:missing:{e['detail']}", w,
                        f"part {e['detail']} is asked for, but {str(e['pattern'])[:120]!r} has no such group",
                        "a part asked for exists in the pattern")
        elif e["kind"] == "group_none_use":
            R.violation(f"{e['fn']}:absent:{e['detail']}:{e['use']}", w,
                        f"{e['detail']} may be absent and is used ({e['use']}; {e['chain']})",
                        "an absent part is not converted, measured or taken apart")
        else:
            R.violation(f"{e['fn']}:bad pattern", w, f"pattern does not compile: {e['detail']}", "every pattern compiles")
