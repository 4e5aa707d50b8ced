"""C16: no pattern in use can take exponential time."""
from __future__ import annotations

from . import auto

RULE = "no loop of a pattern in use reads one text in two ways where the rest may then fail"


def patterns(F):
    """{(pattern, flags): [(method, where)]} of every pattern in use, with how it is used."""
    out = {}
    for e in F.ev("regex", "compile"):
        p = e.get("pattern")
        if isinstance(p, str):
            out.setdefault((p, e.get("flags") or 0), []).append(
                (e.get("method", "compile"), f"{e['file']}:{e['line']} {e['fn']}"))
    return out


def check(F, R):
    R.explanation = ("Every pattern the code uses (as known to the abstract interpreter, with the text of composed patterns) "
                     "is parsed and turned into an automaton; a loop state from which one text leads back to it in two "
                     "different ways makes the number of matching attempts exponential, if some continuation then fails. "
                     "Look-ahead and look-behind of one character and word boundaries are taken into account.")
    R.rules = [RULE]
    for (p, fl), uses in sorted(patterns(F).items()):
        R.count("patterns")
        try:
            n = auto.nfa(p, fl)
            hit = auto.exponential(n)
        except auto.Unknown:
            R.count("patterns not decided")
            continue
        R.count("states", len(n.st))
        if len(R.samples) < 12:
            R.samples.append(f"{uses[0][1]} {p[:60]!r}: {len(n.st)} states")
        if hit is None:
            continue
        R.count("ambiguous loops")
        state, word = hit
        how = "fullmatch" if all(m == "fullmatch" for m, _w in uses) else "search"
        try:
            bad = auto.can_fail(n, state, word, how)
        except auto.Unknown:
            continue
        if bad:
            R.violation(f"{p[:100]}", uses[0][1],
                        f"the pattern {p.strip()[:160]!r} reads repetitions of {auto.show(word)!r} in exponentially many "
                        "ways when the rest of the line does not match", RULE)
