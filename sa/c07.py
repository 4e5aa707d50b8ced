"""C07: arguments are left as they were; results share nothing with the package."""
from __future__ import annotations

from . import records


def check(F, R):
    R.explanation = ("The abstract interpreter runs every parser and entry point with argument objects it can recognise "
                     "again, knows which objects were made when the modules were loaded (tables, default arguments, class "
                     "attributes), and reports any write to either and any result that still reaches one of the latter.")
    R.rules = ["no write to an object of the caller", "no write to an object made at load time",
               "no assignment to global names", "results reach no mutable object made at load time",
               "no mutable result is memoised"]
    records.check(F, R)
    R.count("functions analysed", len(F.analysed))
    R.count("entry points with caller's objects", len(set(F.api)))
    R.count("results traced", len(F.schemas) + len(F.api))
    for e in F.ev("mutate", "global_write"):
        w = f"{e['file']}:{e['line']} {e['fn']}"
        if e["kind"] == "global_write":
            if e["fn"].startswith("<module>"):
                continue
            R.violation(f"{e['fn']}:global {e['detail']}", w, f"assigns to the global name {e['detail']}",
                        "no assignment to global names")
        elif e["origin"] == "argument":
            if e["runs"] & {"api"}:
                R.violation(f"{e['fn']}:argument", w, f"changes an object its caller passed in ({e['how']}; {e['chain']})",
                            "no write to an object of the caller")
        else:
            if e["runs"] <= {"rest"}:
                continue
            R.violation(f"{e['fn']}:{e['how']}:{e['origin'][1].split(':')[0]}", w,
                        f"changes an object made when the module was loaded ({e['origin'][1]}; {e['how']})",
                        "no write to an object made at load time")
    for n, path, org in F.shared:
        R.violation(f"{n}:{path}:{org[1].split(':')[0]}", str(org[1]),
                    f"the result of {n} holds, at {path}, an object made when the module was loaded ({org[1]})",
                    "results reach no mutable object made at load time")
    for e in F.ev("memo"):
        if e.get("mutable"):
            R.violation(f"{e['fn']}:memo:{e['detail']}", f"{e['file']}:{e['line']} {e['fn']}",
                        f"{e['detail']} is memoised and returns {e['mutable']}", "no mutable result is memoised")
