"""Verdicts, known findings, evidence."""
from __future__ import annotations

import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")


class Incomplete(Exception):
    """The analysis could not be carried out (source does not parse, parts it is about are not there)."""


class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.found = []
        self.cov = {}
        self.explanation = ""
        self.rules = []
        self.samples = []

    def violation(self, key, where, what, rule, **more):
        """key: what identifies the construct (no line numbers); where: file:line function."""
        self.found.append({"key": key, "where": where, "what": what, "rule": rule, **more})

    def count(self, name, n=1):
        self.cov[name] = self.cov.get(name, 0) + n

    def known(self):
        out = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN, encoding="utf-8"):
                line = line.strip()
                if line.startswith("KNOWN-FINDING:"):
                    _, rest = line.split(":", 1)
                    prop, rest = rest.strip().split(" ", 1)
                    key, _, text = rest.partition(" | ")
                    if prop == f"property={self.prop}":
                        out.append((key.strip()[4:] if key.strip().startswith("key=") else key.strip(), text))
        return out

    def finish(self):
        seen, new, old = set(), [], []
        known = self.known()
        for v in self.found:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            hit = next((k for k in known if k[0] == v["key"]), None)
            (old if hit else new).append((v, hit))
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        wall = round(time.time() - self.t0, 2)
        doc = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "other",
            "coverage": {"explanation": self.explanation, **self.cov, "rules": self.rules, "samples": self.samples[:12],
                         "known_findings_seen": [v["key"] for v, _ in old]},
            "wall_s": wall, "violations": len(new),
        }
        with open(os.path.join(ev, f"{self.prop}.json"), "w", encoding="utf-8") as f:
            json.dump(doc, f, indent=1, default=str)
        for v, hit in old:
            print(f"KNOWN-FINDING: property={self.prop} {hit[1]} ({v['where']})")
        if new:
            path = os.path.join(ev, f"{self.prop}.violation.json")
            with open(path, "w", encoding="utf-8") as f:
                json.dump([v for v, _ in new], f, indent=1, default=str)
            for v, _ in new[:20]:
                print(f"  {v['where']}: {v['what']}  [{v['rule']}]")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"{self.prop}: held; " + ", ".join(f"{k}={v}" for k, v in self.cov.items() if isinstance(v, (int, float)))
              + f" ({wall} s)")
        return 0


def fail(prop, msg):
    print(f"{prop}: analysis incomplete: {msg}", file=sys.stderr)
    return 2
