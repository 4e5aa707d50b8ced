"""C12-C14: the shape of results, field names, types and columns, against the committed reference."""
from __future__ import annotations

import ast as pyast
import json
import os

from . import rx
from .report import VERIF, Incomplete
from .schema import text

REF = os.path.join(VERIF, "ref", "schema.json")
PLAIN = {"str", "int", "float", "bool", "NoneType", "complex", "dict", "list", "tuple", "?"}
COLUMN = {"word", "find", "field", "char", "char*", "cut"}




def load():
    with open(REF, encoding="utf-8") as f:
        d = json.load(f)
    out = {}
    for parser, t in d["parsers"].items():
        out[parser] = {tuple(k): (set(v["t"]), {lit(x) for x in v.get("p", ())}, [lit(x) for x in v.get("s", ())])
                       for k, v in ((json.loads(k), v) for k, v in t.items())}
    return out, {frozenset(x): {tuple(y) for y in v} for x, v in ((tuple(json.loads(k)), v)
                                                                  for k, v in d["orders"].items())}


def lit(s):
    return pyast.literal_eval(s)


def bless(F):
    d = {"parsers": {}, "orders": {}}
    for n, s in sorted(F.schemas.items()):
        t = d["parsers"][n] = {}
        for p in sorted(s.types):
            e = {"t": sorted(s.types[p])}
            ps = sorted(repr(x) for x in s.provs.get(p, ()) if x is not None)
            if ps:
                e["p"] = ps
            qs = sorted(repr(x) for x in s.seqs.get(p, ()))
            if qs:
                e["s"] = qs
            t[json.dumps(list(p))] = e
    for names, orders in sorted(orders_of(F).items(), key=lambda x: sorted(x[0])):
        d["orders"][json.dumps(sorted(names))] = sorted(list(o) for o in orders)
    with open(REF, "w", encoding="utf-8") as f:
        f.write("{\n\"orders\": " + json.dumps(d["orders"], indent=0) + ",\n\"parsers\": {\n")
        for i, (n, t) in enumerate(d["parsers"].items()):
            f.write((",\n" if i else "") + json.dumps(n) + ": {\n" +
                    ",\n".join(f"{json.dumps(k)}: {json.dumps(v)}" for k, v in t.items()) + "\n}")
        f.write("\n}\n}\n")


def patterns(F):
    """Every pattern in use: {(pattern, flags)}, with where."""
    out = {}
    for e in F.ev("regex", "compile"):
        pat = e.get("pattern")
        if isinstance(pat, str):
            out.setdefault((pat, e.get("flags") or 0), []).append(e)
    return out


def orders_of(F):
    out = {}
    for pat, fl in patterns(F):
        inf = rx.info(pat, fl)
        if len(inf.names) > 1:
            o = tuple(sorted(inf.names, key=inf.names.get))
            out.setdefault(frozenset(o), set()).add(o)
    return out


def lenient(cur, path):
    """Whether something unknown is at, or above, the path."""
    return any(path[:n] in cur.top for n in range(len(path) + 1))


def sibling_unknown(cur, ref, parent):
    """Whether fields of unknown name appear in this mapping which the reference does not have."""
    return any((*parent, k) in cur.types and (*parent, k) not in ref for k in ("{str}", "{?}"))


def usable(F, ref):
    names = [n for n in ref if n in F.schemas and F.schemas[n].types]
    if len(names) < len(ref) // 2:
        raise Incomplete(f"only {len(names)} of {len(ref)} parsers could be analysed: "
                         + "; ".join(e[1] for e in F.errors))
    return names


def locate(F, parser):
    v = F.reg.get(parser)
    fn = F.E.fnof(v[0]) if v else None
    return f"{fn.mod.path}:{fn.node.lineno} {fn.qual}" if fn is not None else parser


def nested_repeat(p, old, cur):
    """The same record one level further out (a run inside a run) still has the field: its owner is the same code."""
    for i in range(len(p)):
        for j in range(i + 1, len(p)):
            if any(x[0] == "." for x in p[i:j]):
                q = p[:i] + p[j:]
                if q in old and q in cur.types:
                    return True
    return False


def c13(F, R):
    ref, _ = load()
    R.explanation = ("Abstract interpretation of every parser (all branches, every order of sections) gives the set of "
                     "fields of its result and the types each can hold; both are compared with the committed table.")
    R.rules = ["every established field still exists", "no field can hold a type it is not established to hold",
               "no field under a name which is not established"]
    for n in usable(F, ref):
        cur, old = F.schemas[n], ref[n]
        R.count("parsers")
        bad = []
        for p, (ts, _ps, _ss) in sorted(old.items()):
            R.count("fields compared")
            if any(p[:len(b)] == b for b in bad):
                continue
            now = cur.types.get(p)
            if now is None:
                if lenient(cur, p) or p[-1:] == ("<key>",) or "<key>" in p:
                    continue
                par = p[:-1]
                if par not in cur.types or sibling_unknown(cur, old, par):
                    continue
                last = p[-1]
                if last[0] == "[" and (any(len(q) == len(p) and q[:-1] == par and q[-1][0] == "[" for q in cur.types)
                                       or not ({"list", "tuple"} & old[par][0])):
                    continue
                if last[0] == "[" and not ({"list", "tuple"} & cur.types[par]):
                    continue        # the type of the parent changed: reported there
                if last[0] in ".{" and "dict" not in cur.types[par]:
                    continue
                if last[0] == "{" and any(len(q) == len(p) and q[:-1] == par and q[-1][0] in "{." and q not in old
                                          for q in cur.types):
                    continue
                if last[0] == "{" and last in ("{?}",):
                    continue
                if nested_repeat(p, old, cur):
                    continue
                bad.append(p)
                R.violation(f"{n}:{text(p)}:missing", locate(F, n), f"field {text(p)} is never set", "established field")
                continue
            if "?" in now or lenient(cur, p):
                R.count("fields not known")
                continue
            new = now - ts
            if "tuple" in ts and "tuple" in now:
                new -= {"list"}
            if "list" in ts and "list" in now:
                new -= {"tuple"}
            if not new:
                continue
            if new == {"NoneType"} and "dict" in now:
                continue
            bad.append(p)
            R.violation(f"{n}:{text(p)}:{'|'.join(sorted(new))}", locate(F, n),
                        f"field {text(p)} can be {', '.join(sorted(new))}; established: {', '.join(sorted(ts))}",
                        "established type")
        for p in sorted(cur.types):
            if p in old or not p or p[-1][0] != "." or "<key>" in p:
                continue
            par = p[:-1]
            if par not in old or lenient(cur, par):
                continue
            if any(len(q) == len(p) and q[:-1] == par and q[-1][0] == "." for q in old) \
                    and not any((*par, k) in old for k in ("{str}", "{?}")):
                R.violation(f"{n}:{text(p)}:new", locate(F, n), f"field {text(p)} is not an established one",
                            "established field")
    R.samples = [f"{n}: {text(p)} -> {sorted(t)}" for n in list(ref)[:4] for p, (t, _a, _b) in list(ref[n].items())[3:6]]


# ---------------------------------------------------------------- columns
def idxcmp(a, b):
    """Whether two positions certainly differ."""
    ma, mb = isinstance(a, tuple), isinstance(b, tuple)
    if "?" in (a, b) or (ma and a[1] == "?") or (mb and b[1] == "?"):
        return False
    if not ma and not mb:
        if not isinstance(a, int) or not isinstance(b, int):
            return a != b
        return a != b and (a < 0) == (b < 0)
    if ma and mb:
        if a[:1] != ("*",) or b[:1] != ("*",):
            return False
        return (a[1], a[2]) != (b[1], b[2]) and (a[1] < 0) == (b[1] < 0)
    m, c = (a, b) if ma else (b, a)
    if m[0] != "*" or not isinstance(c, int) or (c < 0) != (m[1] < 0) or m[2] == 0:
        return False
    d = c - m[1]
    return d % m[2] != 0 or d // m[2] < 0 or (m[3] is not None and d // m[2] >= m[3])


def alike(a, b, names):
    """Whether a group given by its name is one which some pattern has at that number."""
    if isinstance(a, str) == isinstance(b, str):
        return False
    a, b = (a, b) if isinstance(a, str) else (b, a)
    return b in names.get(a, ())


def differs(q, olds, groups, names):
    """The established source which q, not established for this field, stands in for; None when it cannot be told."""
    if not isinstance(q, tuple) or len(q) != 3:
        return None
    k, i, b = q
    same = [p for p in olds if isinstance(p, tuple) and len(p) == 3 and p[0] == k and p[2] == b]
    if k == "grp":
        if same and (i, b) in groups and not any(alike(i, p[1], names) for p in same):
            return same[0]
        # the same choice one level deeper: words of the wrong group
        return None
    if not same:
        inner = [p for p in olds if isinstance(p, tuple) and len(p) == 3 and p[0] == k and p[1] == i
                 and isinstance(p[2], tuple) and isinstance(b, tuple) and len(p[2]) == 3 and len(b) == 3]
        for p in inner:
            if differs(b, {p[2]}, groups, names):
                return p
        return None
    if all(idxcmp(i, p[1]) for p in same):
        return same[0]
    return None


def describe(q):
    if not isinstance(q, tuple):
        return str(q)
    if len(q) == 3:
        k, i, b = q
        tail = "" if b == ("L",) else f" of {describe(b)}"
        if isinstance(i, tuple) and i[:1] == ("*",):
            i = f"{i[1]}, {i[1] + i[2]}, ..." if isinstance(i[1], int) and isinstance(i[2], int) else "each"
        name = {"grp": "group", "word": "word", "find": "number"}.get(k, k)
        return f"{name} {i}{tail}"
    return "the line"


def c14(F, R):
    ref, orders = load()
    R.explanation = ("The abstract interpreter carries, with every piece of text cut from an input line and every number "
                     "made from it, which group, word or number of the line it is; for each field of each result the set "
                     "of these is compared with the committed table, and so are the orders of named groups in patterns.")
    R.rules = ["a field is filled from its established column or group", "components keep their order",
               "the groups of a pattern keep their order"]
    known_points(F, R)
    names = {}
    for pt, fl in patterns(F):
        for name, k in rx.info(pt, fl).names.items():
            names.setdefault(name, set()).add(k)
    for n in usable(F, ref):
        cur, old = F.schemas[n], ref[n]
        groups = set()
        for _p, (_t, ps, _s) in old.items():
            for q in ps:
                while isinstance(q, tuple) and len(q) == 3:
                    if q[0] == "grp":
                        groups.add((q[1], q[2]))
                    q = q[2]
        for p, (_ts, ps, ss) in sorted(old.items()):
            now = cur.provs.get(p)
            if not now or not ps:
                continue
            R.count("fields with a known source")
            for q in sorted((x for x in now - ps if x is not None), key=repr):
                R.count("sources compared")
                o = differs(q, ps, groups, names)
                if o is not None:
                    R.violation(f"{n}:{text(p)}:{describe(q)}", locate(F, n),
                                f"field {text(p)} is filled from {describe(q)}; established: {describe(o)}",
                                "established column")
                    break
            R.count("sources compared", len(now & ps))
            seqs = cur.seqs.get(p, set())
            for s in sorted(seqs - set(ss), key=repr):
                for o in ss:
                    if len(o) == len(s) and all(isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 3
                                                and a[0] == b[0] and a[2] == b[2] for a, b in zip(o, s)) \
                            and set(s) <= set(o) and o not in seqs:
                        R.violation(f"{n}:{text(p)}:order", locate(F, n),
                                    f"components of {text(p)} come from {[describe(x) for x in s]}; "
                                    f"established: {[describe(x) for x in o]}", "order of components")
                        break
    for names, os_ in sorted(orders_of(F).items(), key=lambda x: sorted(x[0])):
        if names not in orders:
            continue
        R.count("group orders compared", len(os_))
        for o in os_ - orders[names]:
            e = next(es[0] for (pt, fl), es in patterns(F).items()
                     if tuple(sorted(rx.info(pt, fl).names, key=rx.info(pt, fl).names.get)) == o)
            R.violation(f"pattern:{'/'.join(o)}", f"{e['file']}:{e['line']} {e['fn']}",
                        f"groups of the pattern are in the order {', '.join(o)}; "
                        f"established: {' or '.join(', '.join(x) for x in orders[names])}", "order of groups")


def known_points(F, R):
    """Vectors taken from one match by a call with several group names: no name twice."""
    import ast
    for fn in F.prog.fns.values():
        if fn.kind != "def":
            continue
        from .astq import own_nodes, where
        for c in own_nodes(fn):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "group" and len(c.args) > 1:
                R.count("multi-group selections")
                names = [a.value for a in c.args if isinstance(a, ast.Constant)]
                if len(names) == len(c.args) and len(set(names)) < len(names):
                    R.violation(f"{fn.qual}:group:{','.join(map(str, names))}", where(fn, c),
                                f"group({', '.join(map(repr, names))}) takes one part twice", "no component repeats")


def c12(F, R):
    ref, _ = load()
    R.explanation = ("Abstract interpretation of every parser gives the kinds of object its result can contain, at every "
                     "depth; anything but plain data is reported.")
    R.rules = ["results contain text, numbers, logicals, None, dicts, lists and tuples only",
               "prepared for JSON: text keys, no complex numbers; prepared for YAML: no tuples"]
    prepare(F, R)
    for n in usable(F, ref):
        cur = F.schemas[n]
        R.count("parsers")
        for p, ts in sorted(cur.types.items()):
            R.count("places")
            for t in sorted(ts):
                if t in PLAIN or n == "lazy" and not p:
                    continue
                base = t.split(" ")[0]
                R.violation(f"{n}:{text(p)}:{base}", locate(F, n), f"{text(p)} can hold {t}", "plain data")


# ---------------------------------------------------------------- preparation for the output formats
def exemplars(I, st):
    """(label, value): one structure each, with leaves known by type only."""
    from .values import BOOL, Dict, List, N, NONE, S, const
    n = [0]

    def put(ob):
        n[0] += 1
        a = ("arg", 0, f"x{n[0]}", 0)
        I.gheap[a] = ob         # (kept: nothing refers to it until the parser returns it)
        return frozenset([("r", a)])

    def atom(s):
        return ("c", "str", s)

    def tup(*v):
        return frozenset([("t", tuple(v))])

    def dct(v, key=atom("k"), dd=False):
        return put(Dict({key: (v, True)}, factory=frozenset([("x", "list")]) if dd else frozenset()))
    key1 = ("t", (const("H"), const(1)))
    key2 = ("t", (tup(const("H"), const(1)), tup(const("O"), const(2))))
    leaves = {"complex": N("complex"), "real": N("float"), "integer": N("int"), "text": S(), "logical": BOOL, "nothing": NONE}
    for ln, leaf in leaves.items():
        yield ln, leaf
        yield f"list of {ln}", put(List("list", (leaf, leaf)))
        yield f"tuple of {ln}", tup(leaf, leaf)
        many = frozenset([("tu", leaf, None)])
        yield f"long tuple of {ln}", many
        yield f"mapping to long list of long tuples of {ln}", dct(put(List("list", None, many)))
        yield f"mapping to {ln}", dct(leaf)
        yield f"mapping to tuple of {ln}", dct(tup(leaf))
        yield f"mapping to list of tuples of {ln}", dct(put(List("list", (tup(leaf, leaf),))), dd=True)
        yield f"list of mappings to {ln}", put(List("list", (dct(leaf), dct(leaf, dd=True))))
        yield f"mapping to mapping to {ln}", dct(dct(leaf), dd=True)
        yield f"pair-keyed mapping to {ln}", dct(leaf, key1)
        yield f"list of mappings to pair-keyed mappings to {ln}", put(List("list", (dct(dct(leaf, key1)),)))
        yield f"list of mappings to bond-keyed mappings to tuples of {ln}", \
            put(List("list", (dct(dct(tup(leaf), key2)),)))


FORBID = {"json": ({"complex"}, "JSON has no complex numbers"), "yaml": ({"tuple"}, "plain YAML has no tuples")}


def prepare(F, R):
    from .engine import PKG
    from .interp import Args
    from .schema import extract
    from .values import S, const
    E, I = F.E, F.I
    mod = f"{PKG}.cli.castep_outputs_main"
    fv = I.modvars.get(mod, {}).get("parse_single")
    target = F.reg.get("cell")
    if not fv or not target or E.fnof(target[0]) is None:
        R.count("preparation not found")
        return
    fid = E.fnof(target[0]).fid
    keep = I.reclimit
    I.reclimit = {f.qual: 8 for f in F.prog.fns.values()}
    try:
        for fmt in ("json", "yaml", "ruamel", "pyyaml"):
            bad, why = FORBID["json" if fmt == "json" else "yaml"]
            st0 = E.begin(mod)
            for label, v in exemplars(I, st0):
                st = st0.copy()
                I.sinks = [[]]
                I.stubs, I.memo = {fid: v}, {}
                try:
                    r = I.call(fv, Args([S(), const("cell"), const(fmt)], {}), st, I.prog.fns[mod].node)
                except (RecursionError, AttributeError, TypeError, KeyError, ValueError, IndexError):
                    continue
                if st.dead:
                    continue
                s = extract(r, lambda a, st=st: I.get(st, a))
                R.count("structures prepared")
                for p, ts in s.types.items():
                    R.count("prepared places")
                    if s.top or "?" in ts:
                        continue
                    if fmt == "json" and p and p[-1].startswith("{("):
                        R.violation(f"prepare:{fmt}:{label}:keys", locate_fn(F, fv),
                                    f"for {fmt}, a {label} keeps keys {p[-1][1:-1]}", "only text keys in JSON")
                    if "<key>" not in p and ts & bad:
                        R.violation(f"prepare:{fmt}:{label}", locate_fn(F, fv),
                                    f"for {fmt}, a {label} still holds {', '.join(sorted(ts & bad))}: {why}",
                                    "only what the format can represent")
    finally:
        I.stubs, I.reclimit = {}, keep


def locate_fn(F, fv):
    fn = F.E.fnof(fv)
    return f"{fn.mod.path}:{fn.node.lineno} {fn.qual}" if fn else "?"
