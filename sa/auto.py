"""Automata of regular expressions: languages, priorities and ambiguity, decided on the parsed pattern.

Nothing here runs a pattern on text: patterns are parsed to their syntax tree, turned into automata over classes of
characters, and compared by exploring the (finite) product of their states.
"""
from __future__ import annotations

import re
from functools import lru_cache

from . import rx
from .rx import sc

SYMS = [chr(i) for i in range(128)] + ["é", "٣", "\u00a0", "─"]   # every ASCII character and four kinds beyond
NS = len(SYMS)
FULL = (1 << NS) - 1


def maskof(pred):
    m = 0
    for i, c in enumerate(SYMS):
        if pred(c):
            m |= 1 << i
    return m


SPACE = maskof(str.isspace)
DIGIT = maskof(str.isdecimal)
WORD = maskof(lambda c: c.isalnum() or c == "_")
NL = 1 << SYMS.index("\n")
CATS = {sc.CATEGORY_DIGIT: DIGIT, sc.CATEGORY_NOT_DIGIT: FULL & ~DIGIT, sc.CATEGORY_SPACE: SPACE,
        sc.CATEGORY_NOT_SPACE: FULL & ~SPACE, sc.CATEGORY_WORD: WORD, sc.CATEGORY_NOT_WORD: FULL & ~WORD}


def lit(code, flags=0):
    c = chr(code)
    cs = {c}
    if flags & re.I:
        cs |= {c.lower(), c.upper()}
    m = 0
    for x in cs:
        if x in SYMS:
            m |= 1 << SYMS.index(x)
        elif len(x) == 1 and ord(x) > 127:
            m |= 1 << SYMS.index("─") if not x.isalnum() else 1 << SYMS.index("é")
    return m


def charset(items, flags=0):
    m, neg = 0, False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            m |= lit(av, flags)
        elif op is sc.RANGE:
            for i, c in enumerate(SYMS):
                if av[0] <= ord(c) <= av[1]:
                    m |= 1 << i
                    if flags & re.I:
                        m |= lit(ord(c), flags)
        elif op is sc.CATEGORY:
            m |= CATS[av]
    return FULL & ~m if neg else m


class Unknown(Exception):
    """The pattern uses something, or is of a size, which is not handled."""


class Nfa:
    """States: ('c', mask, to) ('s', [to...]) ('a', assertion, to) ('g', mark, to) ('A',)."""

    def __init__(self):
        self.st = []
        self.loops = {}         # loop state -> its body
        self.approx = False     # a backreference, conditional or long lookaround was widened

    def add(self, *x):
        self.st.append(x)
        if len(self.st) > 6000:
            raise Unknown("size")
        return len(self.st) - 1


def width1(seq):
    """Mask of a lookaround body one character wide, or None."""
    seq = list(seq)
    if len(seq) == 1:
        op, av = seq[0]
        if op is sc.LITERAL:
            return lit(av)
        if op is sc.NOT_LITERAL:
            return FULL & ~lit(av)
        if op is sc.IN:
            return charset(av)
        if op is sc.ANY:
            return FULL & ~NL
        if op is sc.SUBPATTERN:
            return width1(av[3])
        if op is sc.BRANCH:
            ms = [width1(a) for a in av[1]]
            if all(m is not None for m in ms):
                out = 0
                for m in ms:
                    out |= m
                return out
    return None


def build(tree, flags, marks=()):
    n = Nfa()
    acc = n.add("A")

    def seq(items, to, fl):
        for op, av in reversed(list(items)):
            to = one(op, av, to, fl)
        return to

    def one(op, av, to, fl):
        if op is sc.LITERAL:
            return n.add("c", lit(av, fl), to)
        if op is sc.NOT_LITERAL:
            return n.add("c", FULL & ~lit(av, fl), to)
        if op is sc.ANY:
            return n.add("c", FULL if fl & re.S else FULL & ~NL, to)
        if op is sc.IN:
            return n.add("c", charset(av, fl), to)
        if op is sc.SUBPATTERN:
            g, addf, delf, p = av
            fl = (fl | addf) & ~delf
            if g in marks:
                end = n.add("g", (g, 1), to)
                return n.add("g", (g, 0), seq(p, end, fl))
            return seq(p, to, fl)
        if op is sc.BRANCH:
            return n.add("s", [seq(a, to, fl) for a in av[1]])
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or op is getattr(sc, "POSSESSIVE_REPEAT", 0):
            lo, hi, p = av
            greedy = op is not sc.MIN_REPEAT
            if lo > 300:
                raise Unknown("count")
            if hi is sc.MAXREPEAT:
                loop = n.add("s", None)
                body = seq(p, loop, fl)
                n.st[loop] = ("s", [body, to] if greedy else [to, body])
                n.loops[loop] = body
                cur = loop
            else:
                if hi > 300:
                    raise Unknown("count")
                cur = to
                for _ in range(hi - lo):
                    body = seq(p, cur, fl)
                    cur = n.add("s", [body, to] if greedy else [to, body])
            for _ in range(lo):
                cur = seq(p, cur, fl)
            return cur
        if op is sc.AT:
            return n.add("a", (str(av), bool(fl & re.M)), to)
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            d, p = av
            m = width1(p)
            if m is None:
                n.approx = True
                return n.add("a", ("maybe",), to)
            return n.add("a", ("look", d, m, op is sc.ASSERT), to)
        if op is sc.GROUPREF:
            n.approx = True
            loop = n.add("s", None)
            body = n.add("c", FULL, loop)
            n.st[loop] = ("s", [to, body])
            return n.add("a", ("maybe",), loop)
        if op is sc.GROUPREF_EXISTS:
            n.approx = True
            _g, yes, no = av
            return n.add("a", ("maybe",), n.add("s", [seq(yes, to, fl), seq(no, to, fl) if no else to]))
        if op is getattr(sc, "ATOMIC_GROUP", 0):
            n.approx = True
            return n.add("a", ("maybe",), seq(av, to, fl))
        raise Unknown(str(op))

    n.start = seq(tree, acc, flags)
    n.acc = acc
    return n


@lru_cache(maxsize=4000)
def nfa(pattern, flags=0, marks=()):
    t = rx.parse(pattern, flags)
    if t is None:
        raise Unknown("pattern")
    return build(t, t.state.flags if hasattr(t.state, "flags") else flags, marks)


BOS, EOS = "^", "$"


def holds(a, prev, nxt, over):
    """Whether an assertion holds between two symbols (masks; BOS, EOS). over: what widened ones count as."""
    if a[0] == "maybe":
        return over
    if a[0] == "look":
        _k, d, m, pos = a
        side = nxt if d == 1 else prev
        inn = False if side in (BOS, EOS) else bool(side & m)
        return inn == pos
    at, multi = a
    if at in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
        return prev == BOS or (multi and at == "AT_BEGINNING" and prev != BOS and bool(prev & NL))
    if at == "AT_END":
        return nxt == EOS or bool(nxt & NL)
    if at == "AT_END_STRING":
        return nxt == EOS
    w1 = prev != BOS and bool(prev & WORD)
    w2 = nxt != EOS and bool(nxt & WORD)
    if at == "AT_BOUNDARY":
        return w1 != w2
    if at == "AT_NON_BOUNDARY":
        return w1 == w2
    raise Unknown(at)


def masks(n):
    out = set()
    for s in n.st:
        if s[0] == "c":
            out.add(s[1])
        elif s[0] == "a":
            if s[1][0] == "look":
                out.add(s[1][2])
            else:
                out.update((WORD, NL))
    return out


def classes(ms, keep=FULL):
    """Partition of the alphabet by the masks; returns masks of the classes."""
    cur = [keep]
    for m in ms:
        nxt = []
        for c in cur:
            a, b = c & m, c & ~m
            if a:
                nxt.append(a)
            if b:
                nxt.append(b)
        cur = nxt
    return cur


class Lang:
    """The lines on which a pattern is found, as a lazily built deterministic automaton.

    Lines are [^\\n]* with at most one newline, at the end.  how: 'search', 'match' or 'fullmatch'.
    over: assertions which are not decided count as holding (a superset of the lines) or as failing (a subset).
    """

    def __init__(self, n, how, over):
        self.n, self.how, self.over = n, how, over
        self.memo = {}

    def init(self):
        return frozenset([self.n.start])

    def closure(self, states, prev, nxt):
        n, seen, out = self.n, set(), []
        acc = False
        stack = list(states)
        while stack:
            s = stack.pop()
            if s in seen:
                continue
            seen.add(s)
            x = n.st[s]
            if x[0] == "c":
                out.append(s)
            elif x[0] == "s":
                stack.extend(x[1])
            elif x[0] == "g":
                stack.append(x[2])
            elif x[0] == "a":
                if holds(x[1], prev, nxt, self.over):
                    stack.append(x[2])
            elif self.how != "fullmatch" or nxt == EOS:
                acc = True
        return out, acc

    def step(self, states, prev, sym):
        """States after sym (a class mask, or EOS), or True once the pattern is found."""
        if states is True:
            return True
        key = (states, prev, sym)
        r = self.memo.get(key)
        if r is None:
            cs, acc = self.closure(states, prev, sym)
            if acc:
                r = True
            elif sym == EOS:
                r = frozenset()
            else:
                nx = {self.n.st[s][2] for s in cs if self.n.st[s][1] & sym}
                if self.how == "search":
                    nx.add(self.n.start)
                r = frozenset(nx)
            self.memo[key] = r
        return r


def explore(langs, want, cap=20000, alphabet=None, multi=False):
    """A line (list of masks) for which want(accepted flags) holds, None if there is none, 'cap' if unknown."""
    ms = set()
    for l in langs:
        ms |= masks(l.n)
    cl = classes(sorted(ms | {NL, WORD}), FULL if alphabet is None else alphabet)
    # printable representatives first, to find readable lines early
    start = (tuple(l.init() for l in langs), BOS, False)
    seen = {feat(start, langs): None}
    todo = [start]
    back = {start: None}
    pos = 0
    while pos < len(todo):
        cur = todo[pos]
        pos += 1
        sts, prev, nl = cur
        fin = tuple(l.step(s, prev, EOS) is True for l, s in zip(langs, sts))
        if want(fin):
            w = []
            c = cur
            while back[c] is not None:
                c, a = back[c]
                w.append(a)
            return w[::-1]
        if nl and not multi:
            continue
        if len(todo) > cap:
            return "cap"
        for a in cl:
            ns = tuple(l.step(s, prev, a) for l, s in zip(langs, sts))
            if not possible(ns, want):
                continue
            nxt = (ns, a, bool(a & NL))
            f = feat(nxt, langs)
            if f not in seen:
                seen[f] = None
                back[nxt] = (cur, a)
                todo.append(nxt)
    return None


def possible(ns, want):
    """Prunes states from which the wanted verdict cannot come any more (an accepted pattern stays accepted)."""
    fixed = [True if s is True else (False if not s else None) for s in ns]
    opts = [[f] if f is not None else [True, False] for f in fixed]

    def rec(i, acc):
        if i == len(opts):
            return want(tuple(acc))
        return any(rec(i + 1, acc + [o]) for o in opts[i])
    return rec(0, [])


def feat(cfg, langs):
    sts, prev, nl = cfg
    return (sts, prev if prev in (BOS,) else (bool(prev & WORD), prev), nl)


def show(w):
    """A readable line from a list of masks."""
    out = ""
    for m in w:
        for pref in " 1a.-+=:E":
            if m & (1 << SYMS.index(pref)):
                out += pref
                break
        else:
            out += SYMS[(m & -m).bit_length() - 1]
    return out


# ---------------------------------------------------------------- ambiguity
def eps_paths(n, start, limit=4000):
    """[(character state, symbols allowed before, symbols allowed next)] for each way there without reading a character.

    A loop is not re-entered after an iteration which read nothing, as the matcher does not either.
    """
    out = []
    steps = 0
    stack = [(start, frozenset(), (), FULL, FULL)]
    while stack:
        s, inside, visits, pm, nm = stack.pop()
        steps += 1
        if steps > limit:
            raise Unknown("paths")
        x = n.st[s]
        if not pm or not nm:
            continue
        if x[0] == "c":
            if x[1] & nm:
                out.append((s, pm, nm))
        elif x[0] == "g":
            stack.append((x[2], inside, visits, pm, nm))
        elif x[0] == "a":
            for p2, n2 in limits(x[1]):
                stack.append((x[2], inside, visits, pm & p2, nm & n2))
        elif x[0] == "s":
            if visits.count(s) >= 2 or s in n.loops and s in inside:
                continue
            for t in x[1]:
                ins = inside
                if s in n.loops:
                    ins = inside | {s} if t == n.loops[s] else inside - {s}
                stack.append((t, ins, (*visits, s), pm, nm))
    return out


def limits(a):
    """Alternatives (symbols before, symbols next) under which an assertion holds between two characters."""
    if a[0] == "look":
        _k, d, m, pos = a
        m = m if pos else FULL & ~m
        return [(FULL, m)] if d == 1 else [(m, FULL)]
    if a[0] == "maybe":
        return [(FULL, FULL)]
    at, multi = a
    if at in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
        return [(NL, FULL)] if multi and at == "AT_BEGINNING" else []
    if at == "AT_END":
        return [(FULL, NL)]
    if at == "AT_END_STRING":
        return []
    if at == "AT_BOUNDARY":
        return [(WORD, FULL & ~WORD), (FULL & ~WORD, WORD)]
    if at == "AT_NON_BOUNDARY":
        return [(WORD, WORD), (FULL & ~WORD, FULL & ~WORD)]
    return [(FULL, FULL)]


def sccs(nodes, succ):
    """Strongly connected components (iterative Tarjan)."""
    index, low, on, stack, comp, out = {}, {}, set(), [], {}, []
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter(succ(root)))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(succ(w))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        comp[w] = len(out)
                        c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out, comp


def path(starts, goal, edges):
    """Shortest list of labels from one of starts to goal; edges(x) -> [(label, y)]."""
    back = {s: None for s in starts}
    todo = list(starts)
    for v in todo:
        if v == goal and back[v] is not None:
            break
        for a, w in edges(v):
            if w not in back or (w == goal and w in starts and back[w] is None):
                back[w] = (v, a)
                todo.append(w)
    if back.get(goal) is None:
        return None
    out, v, n = [], goal, 0
    while back[v] is not None and n < 100000:
        v, a = back[v]
        out.append(a)
        n += 1
        if v in starts and (not out or v == goal or back[v] is None):
            break
    return out[::-1]


def exponential(n, cap=60000):
    """(pivot state, pumped part as masks) if a loop of the automaton can read one text in two ways, else None."""
    chars = [s for s, x in enumerate(n.st) if x[0] == "c"]
    ways = {s: eps_paths(n, n.st[s][2]) for s in chars}
    # rough components first
    comps, _comp = sccs(chars, lambda s: sorted({t for t, _p, _n in ways[s]}))
    for c in comps:
        cs = set(c)
        if len(c) == 1 and all(t != c[0] for t, _p, _n in ways[c[0]]):
            continue
        inner = {s: [w for w in ways[s] if w[0] in cs] for s in c}
        cl = classes(sorted({n.st[s][1] for s in c} | {m for s in c for _t, p, q in inner[s] for m in (p, q)}))
        nodes = [(s, a) for s in c for a in cl if n.st[s][1] & a]
        memo = {}

        def nxt(v):
            """{(state, symbol): number of ways} after a state has read a symbol."""
            r = memo.get(v)
            if r is None:
                s, a = v
                r = memo[v] = {}
                for t, pm, nm in inner[s]:
                    if a & pm:
                        for b in cl:
                            if b & nm and n.st[t][1] & b:
                                r[(t, b)] = r.get((t, b), 0) + 1
            return r
        fine, fcomp = sccs(nodes, nxt)
        for group in fine:
            gs = set(group)
            for v in group:
                for w, k in nxt(v).items():
                    if k > 1 and w in gs:
                        loop = path([w], v, lambda x: [(x[1], y) for y in nxt(x) if y in gs]) if w != v else []
                        return v[0], [v[1], *(loop or [])]
            pairs = {(v[0], v[0], v[1]) for v in group}

            def succ(x):
                p, q, a = x
                byb = {}
                for (t, b) in nxt((q, a)):
                    if (t, b) in gs:
                        byb.setdefault(b, []).append(t)
                return [(t, u, b) for (t, b) in nxt((p, a)) if (t, b) in gs for u in byb.get(b, ())]
            todo = list(pairs)
            for v in todo:
                for w in succ(v):
                    if w not in pairs:
                        pairs.add(w)
                        todo.append(w)
                if len(pairs) > cap:
                    raise Unknown("size")
            pc, pcomp = sccs(sorted(pairs), succ)
            for comp in pc:
                diag = [v for v in comp if v[0] == v[1]]
                off = [v for v in comp if v[0] != v[1]]
                if diag and off:
                    def lab(v):
                        return [(v[2], w) for w in succ(v) if pcomp[w] == pcomp[diag[0]]]
                    x = path([diag[0]], off[0], lab)
                    y = path([off[0]], diag[0], lab)
                    return diag[0][0], [*(x or []), *(y or [])]
    return None


def can_fail(n, state, word, how, cap=4000):
    """Whether, standing at a state and having read a text there again and again, some continuation does not match."""
    l = Lang(n, "match" if how != "fullmatch" else how, True)
    cur = frozenset([state])
    prev = word[-1] & -word[-1] if word else BOS
    seen = {cur}
    for _ in range(6):
        for m in word:
            m = m & -m
            nx = l.step(cur, prev, m)
            if nx is True:
                return False
            cur, prev = nx, m
        if cur in seen:
            break
        seen.add(cur)
    if not cur:
        return True
    l2 = Lang(n, l.how, True)
    l2.init = lambda: cur
    r = explore([l2], lambda f: not f[0], cap)
    return r is not None


# ---------------------------------------------------------------- the match the matcher prefers
class Pike:
    """Ordered simulation: threads in the order the matcher tries them, each with a tag."""

    def __init__(self, n, over=True):
        self.n, self.over = n, over

    def closure(self, threads, prev, nxt, mark):
        """(threads standing at characters in order, tag of the match found or None, rank of that match)."""
        n, seen, out = self.n, set(), []
        for s0, t0 in threads:
            stack = [(s0, t0)]
            while stack:
                s, t = stack.pop()
                if s in seen:
                    continue
                seen.add(s)
                x = n.st[s]
                if x[0] == "c":
                    out.append((s, t))
                elif x[0] == "s":
                    stack.extend((y, t) for y in reversed(x[1]))
                elif x[0] == "g":
                    stack.append((x[2], mark(x[1], t)))
                elif x[0] == "a":
                    if holds(x[1], prev, nxt, self.over):
                        stack.append((x[2], t))
                else:
                    return out, t
        return out, None

    def advance(self, live, sym):
        return tuple((self.n.st[s][2], t) for s, t in live if self.n.st[s][1] & sym)


def one(chars):
    m = 0
    for c in chars:
        m |= 1 << SYMS.index(c)
    return m


def whole(pattern, flags, form, gaps=0, groups=(), cap=30000):
    """Whether every text of a form, standing between blanks, is matched whole by what the matcher prefers.

    pattern starts at the first character of the text (gaps=0), or at the blanks before it (gaps=number of texts, each
    captured by the group of the same rank).  Returns None, or a text (list of masks) which is not, or 'cap'.
    """
    n = nfa(pattern, flags, tuple(groups))
    p = Pike(n)
    lang = Lang(nfa(form), "fullmatch", True)
    cl = classes(sorted(masks(n) | masks(lang.n) | {one(" "), WORD, NL}), one("0123456789.+-eE "))
    sp = [c for c in cl if c & one(" ")][0]
    total = max(gaps, 1)
    phase0 = ("gap", 0) if gaps else ("num", 0)
    start = (((n.start, ""),), phase0, lang.init(), BOS if not gaps else BOS, False)
    back = {start: None}
    todo = [start]

    def text(c):
        w = []
        while back[c] is not None:
            c, a = back[c]
            w.append(a)
        return w[::-1]
    for cur in todo:
        if len(todo) > cap:
            return "cap"
        threads, phase, fl, prev, _m = cur
        for a in [*cl, EOS, NL]:
            blank = a in (sp, EOS, NL)
            kind, k = phase
            done = kind == "num" and blank
            if done and not (fl is not True and lang.step(fl, prev, EOS) is True):
                continue
            if kind == "gap" and blank and (a != sp):
                continue
            if kind == "gap" and not blank and cur is start:
                continue

            def mark(m, t, kind=kind, k=k, blank=blank, done=done):
                g, end = m
                r = groups.index(g)
                ok = (not end and kind == "gap" and not blank and r == k) or (end and done and r == k)
                return t if ok else "bad"
            live, got = p.closure(threads, prev, a, mark)
            if done and k == total - 1:
                # the texts are over: the preferred match must end here
                if got != "" or any(n.st[s][1] & (0 if a == EOS else a) for s, _t in live):
                    if got is None or got == "bad" or not _dies(n, live, a):
                        return text(cur)
                continue
            if a in (EOS, NL):
                continue
            if kind == "gap":
                np, nf = (("gap", k), lang.init()) if blank else (("num", k), lang.step(lang.init(), sp, a))
            elif done:
                np, nf = ("gap", k + 1), lang.init()
            else:
                np, nf = phase, lang.step(fl, prev, a)
            if not nf:
                continue
            nt = p.advance(live, a)
            if not nt:
                # whatever comes, the text is not matched to its end
                return text(cur) + [a]
            nxt = (nt, np, nf, a, False)
            if nxt not in back:
                back[nxt] = (cur, a)
                todo.append(nxt)
    return None


def _dies(n, live, a):
    """Threads preferred to the match found which could read on over the blank after the text: not counted as whole."""
    return a == EOS or not any(n.st[s][1] & a for s, _t in live)


def cut_number(n, how, groups, cap=4000):
    """A line on which the preferred match ends or starts a captured number between two digits; None, or 'cap'."""
    p = Pike(n)
    cl = classes(sorted(masks(n) | {NL, WORD, DIGIT}), (1 << 128) - 1)

    def restart(ts):
        return ts if how != "search" or any(s == n.start for s, _t in ts) else (*ts, (n.start, frozenset()))
    start = (((n.start, frozenset()),), None, BOS)
    back = {start: None}
    todo = [start]
    for cur in todo:
        threads, best, prev = cur
        if len(todo) > cap:
            return "cap"
        for a in [*cl, EOS]:
            between = prev != BOS and a != EOS and bool(prev & DIGIT) and bool(a & DIGIT)

            def mark(m, t, between=between):
                g, _end = m
                return t | {g} if between else t - {g} if not _end else t
            live, got = p.closure(threads, prev, a, mark)
            b = best if got is None else got
            nt = () if a == EOS else p.advance(live, a)
            if got is None and best is None and a != EOS:
                nt = restart(nt)
            if not nt:
                if b:
                    w = [a] if a != EOS else []
                    c = cur
                    while back[c] is not None:
                        c, x = back[c]
                        w.append(x)
                    return w[::-1], sorted(b)
                continue
            nxt = (nt, b, a)
            if nxt not in back:
                back[nxt] = (cur, a)
                todo.append(nxt)
    return None
