"""What the analysis knows about the current tree: collected once per run, in parallel where it pays."""
from __future__ import annotations

import multiprocessing as mp
import os
import time
import traceback

from . import schema
from .engine import Engine

ROOT = os.environ.get("SA_ROOT", "/repo")


def payload(E, names):
    I = E.I
    out = {"schemas": {}, "entries": [], "shared": []}
    for n in names:
        ent = E.entries.get(n)
        if ent is None:
            continue
        r, st = ent
        out["entries"].append((n, bool(st.dead)))
        s = schema.extract(r, lambda a: I.get(st, a))
        out["schemas"][n] = s
        out["shared"] += [(n, *x) for x in E.shared(r, st)]
    for n, (r, st) in getattr(E, "api", {}).items():
        out["shared"] += [(n, *x) for x in E.shared(r, st)]
    out["api"] = sorted(getattr(E, "api", {}))
    out["events"] = [{k: v for k, v in e.items() if k != "node"} for e in I.events.values()]
    out["callargs"] = I.callargs
    out["unmodelled"] = dict(I.unmodelled)
    out["notes"] = list(I.notes)
    out["analysed"] = {I.prog.fns[f].qual + "@" + I.prog.fns[f].mod.name for f in I.calls_analysed}
    out["visited"] = len(I.visited)
    return out


def work(task):
    t = time.time()
    kind, arg, root = task
    try:
        E = Engine(root)
        if kind == "parser":
            E.run_parser(arg[0], two=arg[1])
            names = [arg[0]]
        elif kind == "others":
            names = []
            for n in E.registry():
                if n in arg:
                    continue
                try:
                    E.run_parser(n)
                    names.append(n)
                except Exception as err:  # noqa: BLE001
                    E.I.notes.append(f"analysis of {n} failed: {type(err).__name__} {err}")
            E.run_rest()
            E.run_api()
            names.append("lazy")
        else:
            raise ValueError(kind)
        p = payload(E, names)
    except Exception as err:  # noqa: BLE001
        p = {"error": f"{type(err).__name__}: {err}", "trace": traceback.format_exc(), "schemas": {}, "entries": [],
             "events": [], "callargs": {}, "unmodelled": {}, "notes": [], "analysed": set(), "visited": 0, "shared": [], "api": []}
    p["task"] = f"{kind} {arg}"
    p["wall"] = time.time() - t
    return p


class Facts:
    def __init__(self, root=ROOT, two=True, runs=True):
        self.root = root
        self.E = Engine(root)
        self.I = self.E.I
        self.prog = self.I.prog
        self.reg = self.E.registry()
        self.big = [n for n, (v, _b) in self.reg.items()
                    if (f := self.E.fnof(v)) is not None and f.depth_limit() == 1]
        self.schemas, self.events, self.errors = {}, {}, []
        self.unmodelled, self.notes, self.analysed, self.walls = {}, [], set(), {}
        self.shared, self.api = [], []
        self.callargs = dict(self.I.callargs)
        self.visited = 0
        for k, e in self.I.events.items():
            self.events[(e["kind"], e["file"], e["line"], e["col"], e["fn"], e["detail"])] = \
                {k: v for k, v in e.items() if k != "node"}
        if runs:
            self.run(two)

    def run(self, two):
        tasks = [("parser", (n, two), self.root) for n in self.big] + [("others", tuple(self.big), self.root)]
        with mp.get_context("fork").Pool(len(tasks)) as pool:
            for p in pool.map(work, tasks, 1):
                if "error" in p:
                    self.errors.append((p["task"], p["error"], p["trace"]))
                self.schemas.update(p["schemas"])
                for e in p["events"]:
                    o = self.events.setdefault((e["kind"], e["file"], e["line"], e["col"], e["fn"], e["detail"]), e)
                    if o is not e:
                        o["runs"] |= e["runs"]
                        for k in ("none", "conv", "caller"):
                            if k in e:
                                o[k] = o.get(k) or e[k]
                for k, got in p["callargs"].items():
                    old = self.callargs.setdefault(k, got)
                    if old is not got:
                        self.callargs[k] = {n: old[n] | got[n] for n in old if n in got}
                self.unmodelled.update(p["unmodelled"])
                self.notes += p["notes"]
                self.shared += p["shared"]
                self.api += p["api"]
                self.analysed |= p["analysed"]
                self.visited += p["visited"]
                self.walls[p["task"]] = round(p["wall"], 2)

    def ev(self, *kinds):
        return [e for e in self.events.values() if e["kind"] in kinds]

    def functions(self):
        return [f for f in self.prog.fns.values() if f.kind == "def"]
