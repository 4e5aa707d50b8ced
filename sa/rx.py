"""Facts about regular expressions, decided on their parsed form (never by running them on text)."""
from __future__ import annotations

import re
import warnings
from functools import lru_cache

try:
    import re._constants as sc
    import re._parser as sp
except ImportError:  # pragma: no cover
    import sre_constants as sc
    import sre_parse as sp

CAP = 512


@lru_cache(maxsize=None)
def parse(pattern, flags=0):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return sp.parse(pattern, flags)
        except (re.error, OverflowError, RecursionError):
            return None


class TooMany(Exception):
    pass


def _comb(seq, ins):
    cur = ins
    for op, av in seq:
        if op is sc.SUBPATTERN:
            g, _a, _d, p = av
            cur = _comb(p, cur)
            if g is not None:
                cur = {c | {g} for c in cur}
        elif op is sc.BRANCH:
            out = set()
            for alt in av[1]:
                out |= _comb(alt, cur)
            cur = out
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            lo, hi, p = av
            once = _comb(p, cur)
            out = set(once) if lo > 0 else set(once) | cur
            if hi == 0:
                out = cur
            elif hi > 1:
                for _ in range(3):
                    more = out | _comb(p, out)
                    if len(more) > CAP:
                        raise TooMany
                    if more == out:
                        break
                    out = more
            cur = out
        elif op is sc.GROUPREF_EXISTS:
            g, yes, no = av
            w = {c for c in cur if g in c}
            wo = cur - w
            out = _comb(yes, w) if w else set()
            if wo:
                out |= _comb(no, wo) if no else wo
            cur = out
        elif op is sc.ASSERT:
            cur = _comb(av[1], cur)
        elif op is getattr(sc, "ATOMIC_GROUP", None):
            cur = _comb(av, cur)
        if len(cur) > CAP:
            raise TooMany
    return cur


class Info:
    __slots__ = ("ngroups", "names", "combos", "ok", "order")

    def status(self, g, present=frozenset(), absent=frozenset()):
        """'yes', 'no' or 'maybe' took part."""
        if g == 0:
            return "yes"
        cs = self.consistent(present, absent)
        n = sum(1 for c in cs if g in c)
        if n == len(cs):
            return "yes" if cs else "maybe"
        return "maybe" if n else "no"

    def consistent(self, present, absent):
        return [c for c in self.combos if present <= c and not (absent & c)]


@lru_cache(maxsize=None)
def info(pattern, flags=0):
    t = parse(pattern, flags)
    i = Info()
    if t is None:
        i.ok = False
        i.ngroups, i.names, i.combos, i.order = 0, {}, [frozenset()], {}
        return i
    i.ok = True
    i.ngroups = t.state.groups - 1
    i.names = dict(t.state.groupdict)
    try:
        cs = _comb(t, {frozenset()})
    except TooMany:
        cs = _approx(t, i.ngroups)
    i.combos = sorted(cs, key=sorted)
    return i


def _approx(t, n):
    must, may = set(), set()

    def go(seq, sure):
        for op, av in seq:
            if op is sc.SUBPATTERN:
                g = av[0]
                if g is not None:
                    may.add(g)
                    if sure:
                        must.add(g)
                go(av[3], sure)
            elif op is sc.BRANCH:
                for alt in av[1]:
                    go(alt, False)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                go(av[2], sure and av[0] > 0)
            elif op is sc.GROUPREF_EXISTS:
                go(av[1], False)
                if av[2]:
                    go(av[2], False)
            elif op is sc.ASSERT:
                go(av[1], sure)
    go(t, True)
    base = frozenset(must)
    out = {frozenset(may), base}
    for g in may - must:
        out.add(frozenset(may - {g}))
        out.add(base | {g})
    return out
