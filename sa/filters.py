"""C09, C10: what a filter selects, and that it does not change how the file is divided.  The main parser is run by the
abstract interpreter once under no category, once under each category alone, and under the presets."""
from __future__ import annotations

import json
import multiprocessing as mp
import os
import time

from . import schema
from .engine import Engine
from .report import VERIF, Incomplete

REF = os.path.join(VERIF, "ref", "filters.json")
PRESETS = ("LOW", "MEDIUM", "HIGH", "FULL")
EXTRA = "TEST_EXTRA_DATA"


def main_parser(E):
    """(format name, filter class, members) of the parser which takes filters."""
    for n, (v, _b) in E.registry().items():
        f = E.fnof(v)
        if f is None or not any(a.arg == "filters" for a in (*f.node.args.args, *f.node.args.kwonlyargs)):
            continue
        cid, mem = E.filter_class(f)
        if cid is not None:
            return n, cid, mem
    return None


NESTED = {".iterations", ".md"}     # records of steps: each is a result of its own, by the preset


def keep(path):
    if any(x in NESTED for x in path[:-1]):
        return False
    return all(x == "[]" or x.startswith(".") for x in path) and path and path[-1].startswith(".")


def one(task):
    root, label, value = task
    t = time.time()
    try:
        E = Engine(root)
        n, cid, _mem = main_parser(E)
        E.I.instream = {}
        r, st = E.run_parser(n, filters={"filters": frozenset([("enum", cid, value)])}, two=True)
        s = schema.extract(r, lambda a: E.I.get(st, a))
        types = {"".join(p): sorted(x for x in ts if x) for p, ts in s.types.items() if keep(p)}
        return label, types, {k: v for k, v in E.I.instream.items()}, bool(st.dead), time.time() - t, None
    except Exception as err:  # noqa: BLE001
        return label, {}, {}, True, time.time() - t, f"{type(err).__name__}: {err}"


def reference():
    try:
        with open(REF, encoding="utf-8") as f:
            return json.load(f)
    except OSError:
        return {}


class Runs:
    def __init__(self, root, tier="quick"):
        E = Engine(root)
        got = main_parser(E)
        if got is None:
            raise Incomplete("no parser with filters found")
        self.name, self.cid, self.mem = got
        self.flags = {k: v for k, v in self.mem.items() if v and not v & (v - 1)}
        allv = 0
        for v in self.mem.values():
            allv |= v
        self.allv = allv
        tasks = [(root, "(all)", allv), (root, "(none)", 0)]
        tasks += [(root, k, v) for k, v in self.flags.items()]
        tasks += [(root, k, self.mem[k]) for k in PRESETS if k in self.mem and k not in self.flags]
        fs = list(self.flags.items())
        pairs = {f"{a}+{b}": x | y for i, (a, x) in enumerate(fs) for b, y in fs[i + 1:]}
        some = set(pairs) if tier == "thorough" else {w for ws in reference().values() for w in ws if w[0] != "~"} & set(pairs)
        tasks += [(root, k, pairs[k]) for k in sorted(some)]
        self.types, self.ops, self.errors, self.walls = {}, {}, [], {}
        with mp.get_context("fork").Pool(min(8, os.cpu_count() or 4)) as pool:
            for label, types, ops, dead, wall, err in pool.imap_unordered(one, tasks, 1):
                if err or dead:
                    self.errors.append(f"{label}: {err or 'no result'}")
                    continue
                self.types[label], self.ops[label] = types, ops
                self.walls[label] = wall

    def value(self, label):
        if label == "(all)":
            return self.allv
        if label == "(none)":
            return 0
        v = 0
        for x in label.split("+"):
            v |= self.mem[x]
        return v


def runs(F, R):
    key = "filters " + R.tier
    got = F.__dict__.setdefault("_filters", {}).get(key)
    if got is None:
        got = F._filters[key] = Runs(F.root, R.tier)
    if "(all)" not in got.types or "(none)" not in got.types or len(got.errors) > 3:
        raise Incomplete("; ".join(got.errors[:3]))
    return got


def table(X):
    """{field: least sets of categories under which it is reported, '' when under none too}."""
    out = {}
    for p in X.types["(all)"]:
        if p in X.types["(none)"]:
            out[p] = ["(always)"]
            continue
        fs = [k for k in X.flags if p in X.types.get(k, ())]
        fs += [k for k in X.types if "+" in k and p in X.types[k] and not any(f in k.split("+") for f in fs)]
        if fs:      # ~: may be; comes of the steps' own records, merged by the basis-set correction (an SCF section)
            out[p] = sorted("~" + f if "+" in f and "SCF" in f.split("+") else f for f in fs)
    return out


def bless(F):
    X = Runs(F.root, "thorough")
    t = table(X)
    drop = [p for p in t if all(w[0] == "~" for w in t[p]) or p == "[].solvation" or any(p.startswith((q + ".", q + "[")) for q in t if q != p and t[q] == t[p])]
    with open(REF, "w", encoding="utf-8") as f:
        json.dump({p: t[p] for p in sorted(t) if p not in drop}, f, indent=1)
        f.write("\n")


def c09(F, R):
    R.explanation = ("The main parser is evaluated by abstract interpretation under no category, each category alone and each "
                     "preset; the fields its result can have are compared with the committed table of categories.")
    R.rules = ["a field is reported under each category it belongs to", "a field is reported under no other category",
               "presets nest, and full leaves out the test data only",
               "under a set of categories, the fields are those of its members"]
    X = runs(F, R)
    R.cov["categories"] = len(X.flags)
    R.cov["runs"] = len(X.types)
    R.cov["fields"] = len(X.types["(all)"])
    where = f"{X.cid}"
    order = [X.mem[k] for k in ("NONE", *PRESETS) if k in X.mem]
    names = [k for k in ("NONE", *PRESETS) if k in X.mem]
    for a, b, x, y in zip(names, names[1:], order, order[1:]):
        R.count("preset pairs")
        if x & ~y:
            lost = [k for k, v in X.flags.items() if v & x & ~y]
            R.violation(f"nest:{a}:{b}", where, f"preset {b} leaves out {', '.join(lost)}, which {a} has", R.rules[2])
    full = X.mem.get("FULL")
    if full is not None and EXTRA in X.flags:
        lost = [k for k, v in X.flags.items() if not v & full and k != EXTRA]
        if lost:
            R.violation(f"full:{lost}", where, f"preset FULL leaves out {', '.join(lost)}", R.rules[2])
        if full & X.flags[EXTRA]:
            R.violation("full:extra", where, "preset FULL includes the test data", R.rules[2])
    ref = reference()
    first = ["(none)", *X.flags]
    rest = [k for k in X.types if k not in first and k != "(all)"]
    for p, want in ref.items():
        if p not in X.types["(all)"] or not all(f in X.flags for w in want for f in w.strip("~").split("+") if w != "(always)"):
            continue        # under another name now: the business of C13
        R.count("fields compared")
        bare = p.replace("[].", "", 1)
        belongs = "it belongs to " + " or ".join(w.replace("+", " with ") for w in want if w[0] != "~")
        if len(R.samples) < 12:
            R.samples.append(f"{bare}: {', '.join(want)}")
        n = len(R.found)
        for k in first + rest:
            if k == rest[0] and len(R.found) > n:
                break       # decided by single categories already
            if k not in X.types:
                continue
            R.count("field and filter pairs")
            v = X.value(k)
            due = want == ["(always)"] or any(all(X.flags[f] & v for f in w.split("+")) for w in want if w[0] != "~")
            may = due or any(all(X.flags[f] & v for f in w[1:].split("+")) for w in want if w[0] == "~")
            under = "no category" if k == "(none)" else k
            if due and p not in X.types[k]:
                R.violation(f"{bare}:missing:{k}", f"{X.name} parser", f"{bare} is not reported under {under}; "
                            + ("it always is" if want == ["(always)"] else belongs), R.rules[0 if k in first else 3])
            elif not may and p in X.types[k]:
                R.violation(f"{bare}:extra:{k}", f"{X.name} parser", f"{bare} is reported under {under}; {belongs}",
                            R.rules[1 if k in first else 3])


def opname(k):
    return k[4].split(".")[-1]


IGNORED = {"__init__", "name", "lineno", "tell", "close", "file", "__iter__"}


def ops(X, label):
    """Operations on the main file of a run: {site: (operation, known arguments)}."""
    base = {k[5] for k in X.ops["(all)"] if opname(k) == "from_re" or opname(k) == "rewind"}
    real = {k for lab in (label, "(all)") for k in X.ops[lab] if k[5] in base and opname(k) not in IGNORED and k[5] != mod(k[0])}
    # functions which come to work on the file themselves
    users, todo = set(), {k[3] for k in real}
    while todo:
        users |= todo
        todo = {k[3] for k in X.ops["(all)"] if k[4] in todo} - users
    out = {}
    for k, args in X.ops[label].items():
        path, line, col, fn = k[:4]
        if k in real or (k[4] in users and mod(path) not in base and fn != "<module>" and k[4] != fn):
            out[(path, line, col, fn)] = (k[4], tuple(sorted(args)))
    return out


def mod(path):
    return path[:-3].replace("/__init__", "").replace("/", ".")


def textof(a):
    callee, args = a
    shown = sorted({x for alt in args for _k, v in alt for x in v if x[:1] in "'\"" and len(x) > 2})
    return f"{callee.split('.')[-1].strip('_')}({', '.join(x[:60] for x in shown)})"


def keyof(a):
    t = textof(a)
    return t[t.index("(") + 1:-1]


def c10(F, R):
    R.explanation = ("Operations on the main file (reading a block, a line, going back) which the main parser can reach under "
                     "all categories are compared with those it can reach under none and under each category alone: one which "
                     "is reached under some only depends on the filter.")
    R.rules = ["no operation on the file depends on the filter"]
    X = runs(F, R)
    R.cov["runs"] = len(X.ops)
    base = ops(X, "(all)")
    R.cov["operations on the file"] = len(base)
    R.samples = [f"{k[0]}:{k[1]} {textof(v)}" for k, v in sorted(base.items())][:12]
    bad = {}
    for label in X.ops:
        now = ops(X, label)
        a = [(k, v) for k, v in base.items() if k not in now]
        b = [(k, v) for k, v in now.items() if k not in base]
        for k, v in list(b):
            m = next((x for x in a if x[1] == v), None)
            if m is not None:
                a.remove(m)
                b.remove((k, v))
        for k, v in a:
            bad.setdefault(k, (v, "only when asked for; not under", []))[2].append(label)
        for k, v in b:
            bad.setdefault(k, (v, "only when not asked for; under", []))[2].append(label)
    order = sorted(bad)
    for i, k in enumerate(order):
        v, how, labels = bad[k]
        if any(x[3] == v[0] for x in order if x != k):
            continue        # a function of its own: what it does is reported
        key = keyof(v)
        if key:
            key = f"section {key}"
        else:
            nxt = next((x for x in order[i + 1:] if x[0] == k[0] and x[1] - k[1] <= 3 and keyof(bad[x][0])), None)
            key = f"line before section {keyof(bad[nxt][0])}" if nxt else f"{textof(v)} {sorted(labels)[:1]} of {len(labels)}"
        R.violation(key, f"{k[0]}:{k[1]} {k[3]}", f"{textof(v)} on the file happens {how} {', '.join(labels[:4])}"
                    + (f" and {len(labels) - 4} more" if len(labels) > 4 else ""), R.rules[0])
