"""C15: every form of a number is recognised whole, and what is recognised can be converted."""
from __future__ import annotations

import json
import os
import re

from . import auto, rx
from .auto import DIGIT, FULL, SPACE, Lang, build, explore, masks, nfa, one, show, whole
from .engine import PKG
from .report import VERIF
from .values import const

REF = os.path.join(VERIF, "ref", "numbers.json")
RES = f"{PKG}.utilities.castep_res"
INT, REAL = r"(?:[+-]?\d+)", r"(?:[+-]?(?:\d+\.\d*|\.\d+))"
EXP = rf"(?:(?:{INT}|{REAL})[Ee][+-]?\d{{1,3}})"
FLOAT = r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[Ee][+-]?\d+)?"
RATIO = r"[+-]?\d+/[+-]?\d+"
PYINT = r"[+-]?\d+"
# the named patterns and what they are for
NAMED = {
    "NUMBER_RE": rf"(?:{INT}|{REAL}|{EXP})", "FNUMBER_RE": REAL, "INTNUMBER_RE": INT, "FINTNUMBER_RE": rf"(?:{INT}|{REAL})",
    "EXPNUMBER_RE": EXP, "EXPFNUMBER_RE": rf"(?:{REAL}|{EXP})", "FLOAT_RAT_RE": rf"(?:{INT}|{REAL}|{EXP})",
}
NUMCH = one("0123456789+-.eE") | DIGIT
ASC = FULL & ((1 << 128) - 1)
FORMS = (("1", "i"), ("11", "I"), ("1{9}", "J"), (r"1\.5", "r"), (r"1\.", "d"), (r"\.5", "D"), (r"-1\.5", "s"), (r"\+1\.5", "t"),
         (r"-1", "n"), (r"\+1", "N"), (r"1\.5E-1", "e"), (r"1\.5E-10", "f"), (r"1\.5E-111", "g"), (r"1\.5E1", "h"),
         (r"1\.5E10", "k"), (r"1\.5E111", "l"), (r"1\.5E\+10", "m"), (r"1\.5e-10", "o"), (r"-1\.5E-10", "p"))
SHOWN = {c: re.sub(r"\\", "", w).replace("1{9}", "111111111") for w, c in FORMS}
RULES = ["a number pattern prefers the whole of every number of its forms, standing between blanks",
         "what a number pattern accepts is a numeral which can be converted",
         "a part which takes reals takes them with no digits before or after the point, with either sign, and with one to "
         "three digits of exponent if any",
         "a part takes every form of number it is known to be given"]


def text(r):
    return show(r) if isinstance(r, list) else str(r)


def groups(tree, fl, sc):
    for op, av in tree:
        if op is sc.SUBPATTERN:
            g, a, d, p = av
            f = (fl | a) & ~d
            if g is not None:
                yield g, p, f
            yield from groups(p, f, sc)
        elif op is sc.BRANCH:
            for x in av[1]:
                yield from groups(x, fl, sc)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            yield from groups(av[2], fl, sc)
        elif op is sc.GROUPREF_EXISTS:
            yield from groups(av[1], fl, sc)
            if av[2]:
                yield from groups(av[2], fl, sc)
        elif op is sc.ASSERT:
            yield from groups(av[1], fl, sc)


def alphabet(n):
    m = 0
    for s in n.st:
        if s[0] == "c":
            m |= s[1]
    return m


def profile(n):
    G = Lang(n, "fullmatch", False)
    out = ""
    for w, c in FORMS:
        if explore([G, Lang(nfa(w), "fullmatch", True)], lambda f: f[0] and f[1], alphabet=ASC) not in (None, "cap"):
            out += c
    return out


def skeleton(tree, sc):
    """The words of the literal text of a pattern."""
    out = []

    def go(t):
        for op, av in t:
            if op is sc.LITERAL:
                out.append(chr(av))
            elif op is sc.SUBPATTERN:
                out.append(" ")
                go(av[3])
                out.append(" ")
            elif op is sc.BRANCH:
                for x in av[1]:
                    out.append(" ")
                    go(x)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                out.append(" ")
                go(av[2])
            else:
                out.append(" ")
    go(tree)
    return " ".join(w for w in re.findall(r"[A-Za-z]{2,}", "".join(out)))[:120]


def used(F):
    seen = {}
    for e in F.ev("regex", "compile"):
        p = e.get("pattern")
        if isinstance(p, str):
            seen.setdefault((p, e.get("flags") or 0), []).append(
                (e.get("method", "compile"), f"{e['file']}:{e['line']} {e['fn']}"))
    return dict(sorted(seen.items()))


def number_parts(F):
    """(where, pattern, group name, automaton, key) of every part of a used pattern made of number characters."""
    for (p, fl), uses in used(F).items():
        try:
            t = rx.parse(p, fl)
        except Exception:  # noqa: BLE001
            continue
        names = {v: k for k, v in t.state.groupdict.items()}
        sk = skeleton(t, auto.sc)
        for g, sub, f in groups(t, fl, auto.sc):
            try:
                n = build(sub, f)
            except auto.Unknown:
                continue
            m = alphabet(n)
            if m & DIGIT and not m & ~(NUMCH | SPACE):
                yield uses[0][1], p, names.get(g, g), n, m, f"{sk}|{names.get(g, '#')}"


def table(F):
    out = {}
    for _w, _p, _g, n, m, key in number_parts(F):
        if m & ~NUMCH:
            continue
        pr = profile(n)
        out[key] = "".join(c for c in out[key] if c in pr) if key in out else pr
    return out


def bless(F):
    with open(REF, "w", encoding="utf-8") as f:
        json.dump(dict(sorted(table(F).items())), f, indent=1)
        f.write("\n")


def pattern_of(I, v):
    """(pattern, flags) of a value known to be one pattern or its text."""
    if v is None or len(v) != 1:
        return None
    a = next(iter(v))
    if a[0] == "c" and isinstance(a[2], str):
        return a[2], 0
    if a[0] == "rx" and isinstance(a[1], str):
        return a[1], a[2] or 0
    return None


def named(F):
    """Number patterns known by name: as module values, or as uses in get_numbers."""
    mv = F.I.modvars.get(RES, {})
    for k, form in NAMED.items():
        got = pattern_of(F.I, mv.get(k))
        if got:
            yield f"{RES}:{k}", got, form
    for e in F.ev("regex"):
        if e["fn"].split(".")[-1].startswith("get_numbers") and isinstance(e.get("pattern"), str):
            yield f"{e['file']}:{e['line']} {e['fn']}", (e["pattern"], e.get("flags") or 0), NAMED["NUMBER_RE"]


def check(F, R):
    R.explanation = ("Automata of the number patterns, of the number parts of every pattern in use and of what "
                     "labelled_floats builds, compared as languages with the forms of numbers: all digit strings are covered.")
    R.rules = RULES
    for where, (p, fl), form in named(F):
        R.count("number patterns")
        try:
            r = whole(p, fl, form)
        except auto.Unknown:
            continue
        if r not in (None, "cap"):
            R.violation(f"{where}|whole", where, f"the number {text(r)} is not matched as a whole", RULES[0])
        ok = rf"(?:{PYINT})" if form == INT else rf"(?:{FLOAT}|{RATIO})" if "FLOAT_RAT" in where else FLOAT
        r = explore([Lang(nfa(p, fl), "fullmatch", True), Lang(nfa(ok), "fullmatch", True)], lambda f: f[0] and not f[1])
        if r not in (None, "cap"):
            R.violation(f"{where}|conv", where, f"{text(r)} is matched and cannot be converted", RULES[1])
    # findall of number characters
    for (p, fl), uses in used(F).items():
        if not any(m in ("findall", "finditer") for m, _w in uses):
            continue
        try:
            n = nfa(p, fl)
        except auto.Unknown:
            continue
        m = alphabet(n)
        if not m & DIGIT or m & ~NUMCH & ~one("/"):
            continue
        R.count("patterns which divide a line into numbers")
        L = Lang(n, "fullmatch", True)
        for form in (INT, REAL, EXP):
            if explore([L, Lang(nfa(form), "fullmatch", True)], lambda f: f[0] and f[1]) in (None, "cap"):
                continue
            r = whole(p, fl, form)
            if r not in (None, "cap"):
                where = next(w for x, w in uses if x in ("findall", "finditer"))
                R.violation(f"{where.split(' ')[-1]}|{p[:80]}|findall", where,
                            f"the number {text(r)} is not found as one number", RULES[0])
    # the parts of patterns
    try:
        with open(REF, encoding="utf-8") as f:
            ref = json.load(f)
    except OSError:
        ref = {}
    digits = Lang(nfa(FLOAT), "fullmatch", True)
    words = Lang(nfa(rf"\s*(?:(?:{FLOAT})\s*)*"), "fullmatch", True)
    memo = {}
    now = {}
    for where, p, g, n, m, key in number_parts(F):
        R.count("number parts of patterns")
        if m & ~NUMCH:
            r = explore([Lang(n, "fullmatch", True), words], lambda f: f[0] and not f[1])
        else:
            r = explore([Lang(n, "fullmatch", True), digits], lambda f: f[0] and not f[1])
        if r not in (None, "cap") and re.search(r"\d", text(r)):
            R.violation(f"{key}|conv", where, f"part {g!r} of {p.strip()[:100]!r} accepts {text(r)!r}, which is no number", RULES[1])
        if m & ~NUMCH:
            continue
        k = tuple(map(str, n.st))
        pr = memo.setdefault(k, None) or profile(n)
        memo[k] = pr
        bad = ""
        has = set(pr)
        if has & set("rdDst") and not m & one("eE"):
            bad = "".join(c for c in "rdD" if c not in has)
        if m & one("eE") and has & set("efghklmop"):
            bad = "".join(c for c in "efghklmo" if c not in has)
        if "s" in has and "t" not in has:
            bad += "t"
        if bad:
            R.violation(f"{key}|uniform", where, f"part {g!r} of {p.strip()[:100]!r} does not accept numbers such as "
                        f"{SHOWN[bad[0]]}, though it accepts {SHOWN[next(c for c in pr)]}", RULES[2])
        now.setdefault(key, []).append((pr, where, g, p))
    for key, prs in now.items():
        want = ref.get(key)
        if want is None:
            continue
        R.count("parts compared with the committed table")
        for pr, where, g, p in prs:
            lost = [c for c in want if c not in pr]
            if lost:
                R.violation(f"{key}|lost", where, f"part {g!r} of {p.strip()[:100]!r} no longer accepts numbers such as "
                            f"{SHOWN[lost[0]]}", RULES[3])
    # labelled_floats
    fv = F.I.modvars.get(RES, {}).get("labelled_floats")
    if fv is not None:
        try:
            got = labelled(F.E, fv, ("a", "b"))
        except Exception:  # noqa: BLE001
            got = None
        if got:
            R.count("built patterns")
            r = whole(got, 0, NAMED["NUMBER_RE"], 2, (1, 2))
            if r not in (None, "cap"):
                R.violation("labelled_floats|whole", f"{RES}:labelled_floats",
                            f"in {text(r)!r} a number is not taken whole by the part which stands for it", RULES[0])


def labelled(E, fv, labels):
    """The pattern text built for some labels, where the analysis can tell."""
    r, _st = E.call(RES, fv, (frozenset([("t", tuple(const(x) for x in labels))]),))
    return (pattern_of(E.I, r) or (None,))[0]
