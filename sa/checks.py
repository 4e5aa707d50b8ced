"""The checks by property."""
from __future__ import annotations

from . import c01, c02, c03, c04, c05, c06, c07, c08, c11, c15, c16, c17, c18, c19, c24, filters, shape
from .facts import Facts
from .report import Incomplete, Report

# property: (check, needs: 'two' (main parser in two passes), 'one', 'none' (no run of the parsers))
CHECKS = {
    "C01": (c01.check, "one"),
    "C02": (c02.check, "one"),
    "C03": (c03.check, "one"),
    "C04": (c04.check, "one"),
    "C05": (c05.check, "one"),
    "C06": (c06.check, "none"),
    "C07": (c07.check, "one"),
    "C08": (c08.check, "none"),
    "C09": (filters.c09, "none"),
    "C10": (filters.c10, "none"),
    "C11": (c11.check, "one"),
    "C12": (shape.c12, "two"),
    "C13": (shape.c13, "two"),
    "C14": (shape.c14, "two"),
    "C15": (c15.check, "one"),
    "C16": (c16.check, "one"),
    "C17": (c17.check, "one"),
    "C18": (c18.check, "none"),
    "C19": (c19.check, "one"),
    "C24": (c24.check, "none"),
}


def facts(need, cache):
    key = "two" if need == "two" else need
    if need == "one" and "two" in cache:
        key = "two"
    if key not in cache:
        cache[key] = Facts(two=need == "two", runs=need != "none")
    return cache[key]


def run(prop, tier, cache):
    if prop not in CHECKS:
        raise Incomplete(f"no check for {prop}")
    fn, need = CHECKS[prop]
    R = Report(prop, tier)
    F = facts("two" if tier == "thorough" and need == "one" else need, cache)
    if need != "none":
        if len(F.errors) >= 2 or not F.analysed:
            raise Incomplete("; ".join(e[1] for e in F.errors))
        R.cov["analysis_seconds"] = F.walls
        if F.errors or F.notes:
            R.cov["analysis_notes"] = [e[1] for e in F.errors] + F.notes
    fn(F, R)
    return R.finish()
