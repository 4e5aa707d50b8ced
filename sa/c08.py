"""C08: one parser per file type, through every door.  Each door is evaluated by the abstract interpreter with the file
type as a known text; what is compared is which parser function the call arrives at."""
from __future__ import annotations

import ast
import json
import os

from .astq import where
from .engine import PKG
from .interp import Args
from .report import VERIF, Incomplete
from .values import BOT, FALSE, NONE, S, TOP, TRUE, Inst, List, const

REF = os.path.join(VERIF, "ref", "registry.json")
MAIN = f"{PKG}.cli.castep_outputs_main"
ARGS = f"{PKG}.cli.args"
DUMP = f"{PKG}.utilities.dumpers"
WRITES = {"json": {"json.dump", "json.dumps"}, "pyyaml": {"yaml.dump", "yaml.safe_dump", "yaml.dump_all"},
          "ruamel": {"ruamel.yaml.YAML", "ruamel.yaml.dump"},
          "pprint": {"pprint.pformat", "pprint.pprint", "pprint.PrettyPrinter", "pprint.pp"}, "print": set()}


def exports(F):
    I = F.I
    mv = I.modvars.get(PKG, {})
    out = {}
    for k, v in mv.items():
        fn = F.E.fnof(v)
        if fn is not None:
            out[k] = fn
    return out


def bless(F):
    ex = exports(F)
    d = {}
    for n, (v, _b) in F.reg.items():
        fn = F.E.fnof(v)
        names = sorted(k for k, f in ex.items() if f is fn and k.startswith("parse_"))
        d[n] = names
    with open(REF, "w", encoding="utf-8") as f:
        json.dump(d, f, indent=1)


def consts(v):
    return {a[2] for a in v if a[0] == "c"}


def keys(I, v):
    """Text keys of a table value (dict, ChainMap of dicts); None when not known."""
    out = set()
    for a in v:
        if a[0] != "r":
            return None
        ob = I.gheap.get(a[1])
        if type(ob).__name__ == "Dict":
            if ob.restk:
                return None
            out |= {k[2] for k in ob.items if k[0] == "c"}
        elif type(ob).__name__ == "Inst":
            for x in ob.attrs.values():
                for m in x:
                    if m[0] in "t":
                        for y in m[1]:
                            k = keys(I, y)
                            if k is None:
                                return None
                            out |= k
                    elif m[0] == "r" and type(I.gheap.get(m[1])).__name__ == "List":
                        for y in I.gheap[m[1]].elems or ():
                            k = keys(I, y)
                            if k is None:
                                return None
                            out |= k
        else:
            return None
    return out


def reached(F, mod, fname, pos, kw):
    """The parser functions a call arrives at; None when the call cannot be followed."""
    E, I = F.E, F.I
    fv = I.modvars.get(mod, {}).get(fname)
    if not fv:
        return None, None
    st = E.begin(mod)
    I.stub_calls, I.memo = [], {}
    try:
        r = I.call(fv, Args(pos, kw), st, I.prog.fns[mod].node)
    except (RecursionError, AttributeError, TypeError, KeyError, ValueError, IndexError):
        return None, None
    return {f for f, _a, _n in I.stub_calls}, (r, st)


def check(F, R):
    R.explanation = ("The tables of parsers and the doors to them (file extension, parser name, keyword of the multi-file "
                     "entry point, command-line switches, top-level exports) are evaluated by the abstract interpreter for "
                     "every file type; the function each arrives at is compared.")
    R.rules = ["every door of a file type arrives at the same parser", "the parser is the one exported for that type",
               "every type has its two command-line switches and the reverse", "every output format has a dumper", "what is read from the command line is declared", "a dumper writes the data to the destination",
               "switches: a given file is parsed as its type, --inc-X looks for X alone, none of them for everything"]
    with open(REF, encoding="utf-8") as f:
        ref = json.load(f)
    E, I = F.E, F.I
    I.run = "c08"
    ex = exports(F)
    reg = F.reg
    if len(reg) < len(ref) // 2:
        raise Incomplete("tables of parsers not found")
    fns = {n: E.fnof(v) for n, (v, _b) in reg.items()}
    I.stubs = {f.fid: TOP for f in set(fns.values()) if f is not None}
    # also every other function exported as a parser
    for k, f in ex.items():
        if k.startswith("parse_") and f.mod.name.split(".")[-2:-1] in (["parsers"], ["bin_parsers"]):
            I.stubs[f.fid] = TOP
    w0 = "castep_outputs/parsers/__init__.py"
    for n, names in sorted(ref.items()):
        R.count("file types")
        if n not in reg:
            R.violation(f"{n}:gone", w0, f"no parser is registered for {n!r}", "every type has a parser")
            continue
        fn = fns[n]
        if fn is None:
            R.count("types not resolved")
            continue
        for x in names:
            R.count("exports compared")
            if x not in I.modvars.get(PKG, {}):
                R.violation(f"{n}:export {x}", "castep_outputs/__init__.py", f"{x} is not exported at the top level",
                            "the parser is exported")
            elif x in ex and ex[x] is not fn:
                R.violation(f"{n}:export {x}", f"{fn.mod.path}:{fn.node.lineno}",
                            f"{n!r} is parsed by {fn.qual}, not by the exported {x}", "one parser per type")
    for n in sorted(reg):
        fn = fns[n]
        if fn is None:
            continue
        doors = {
            "parse_single by extension": ("parse_single", [const(f"seed.{n}")], {}),
            "parse_single by extension (json)": ("parse_single", [const(f"seed.{n}")], {"out_format": const("json")}),
            "parse_single by name": ("parse_single", [S(), const(n)], {}),
            "parse_all by keyword": ("parse_all", [NONE], {n: frozenset([("tu", S(), None)])}),
        }
        for door, (f, pos, kw) in doors.items():
            R.count("doors evaluated")
            got, res = reached(F, MAIN, f, pos, kw)
            if got is None:
                R.count("doors not followed")
                continue
            other = got - {fn.fid}
            if other:
                R.violation(f"{n}:{door}", f"{MAIN.replace('.', '/')}.py {f}",
                            f"{door}: {n!r} arrives at {', '.join(sorted(I.prog.fns[o].qual for o in other))}, "
                            f"not at {fn.qual}", "one parser per type")
            elif not got and res[1].dead:
                R.violation(f"{n}:{door}", f"{MAIN.replace('.', '/')}.py {f}", f"{door}: {n!r} never arrives at a parser",
                            "every type is reachable")
    args(F, R, reg)
    dumpers(F, R)
    I.stubs = {}


def args(F, R, reg):
    E, I = F.E, F.I
    before = set(I.events)
    got, res = reached(F, ARGS, "get_parser", [], {})
    opts = [e for k, e in I.events.items() if e["kind"] == "option" and k not in before]
    names = {n for e in opts for n in e["names"] if isinstance(n, str)}
    if not names or any(x is None for e in opts for x in e["names"]):
        R.count("command-line switches not known")
    else:
        for n in sorted(reg):
            for sw in (f"--{n}", f"--inc-{n}"):
                R.count("switches")
                if sw not in names:
                    R.violation(f"{n}:{sw}", "castep_outputs/cli/args.py get_parser", f"there is no switch {sw}",
                                "every type has its switches")
        for x in sorted(names):
            if x.startswith("--inc-") and x != "--inc-all" and x[6:] not in reg:
                R.violation(f"switch {x}", "castep_outputs/cli/args.py get_parser", f"{x} has no parser behind it",
                            "every switch has a parser")
    got, res = reached(F, ARGS, "extract_parsables", [frozenset([("xi", "argparse.Namespace", None)])], {})
    if res is not None and not res[1].dead:
        for a in res[0]:
            ob = I.get(res[1], a[1]) if a[0] == "r" else None
            if type(ob).__name__ == "Dict" and not ob.restk:
                ks = {k[2] for k in ob.items if k[0] == "c"}
                R.count("types taken from the command line", len(ks))
                for n in sorted(set(reg) - ks):
                    R.violation(f"{n}:extract_parsables", "castep_outputs/cli/args.py extract_parsables",
                                f"{n!r} given on the command line is not passed on", "every type is passed on")
                for n in sorted(ks - set(reg)):
                    R.violation(f"{n}:extract_parsables", "castep_outputs/cli/args.py extract_parsables",
                                f"{n!r} is passed on but has no parser", "every switch has a parser")
    namespace(F, R, opts)
    switches(F, R, opts, reg)
    R.formats = set()
    for e in opts:
        if "--out-format" in e["names"] or "-f" in e["names"]:
            ch = e["kw"].get("choices")
            if ch and ch[0] == "seq":
                R.formats |= set(ch[1])


def namespace(F, R, opts):
    """What is read from the parsed command line is something the command line has."""
    I = F.I
    ns = frozenset([("xi", "argparse.Namespace", None)])
    reached(F, ARGS, "parse_args", [], {})
    reached(F, ARGS, "extract_parsables", [ns], {})
    reached(F, MAIN, "run", [ns], {})
    evs = list(I.events.values())
    have = set()
    for e in opts:
        dest = e["kw"].get("dest", ("const", None))
        if any(not isinstance(n, str) for n in e["names"]) or dest is None:
            return
        long = [n for n in e["names"] if n.startswith("--")] or list(e["names"])
        have.add(dest[1] or long[0].lstrip("-").replace("-", "_"))
    if any(e["kind"] == "nsopen" for e in evs) or not have:
        R.count("names of the command line not known")
        return
    have |= {e["name"] for e in evs if e["kind"] == "nsset"}
    for e in evs:
        if e["kind"] == "nsattr" and e["name"] not in have and not e["name"].startswith("_"):
            R.violation(f"namespace:{e['name']}", f"{e['file']}:{e['line']} {e['fn']}", f"{e['name']!r} is read from the command line, which has no such "
                        "argument", "what is read from the command line is declared")
    R.count("names read from the command line", len({e["name"] for e in evs if e["kind"] == "nsattr"}))


def parsed(F, opts, given):
    """What would be parsed for a command line: type -> contents of its list (None: not known)."""
    E, I = F.E, F.I
    fn, fx = (I.modvars.get(ARGS, {}).get(n) for n in ("parse_args", "extract_parsables"))
    if not fn or not fx:
        return None
    st = E.begin(ARGS)

    def namespace(st, node):
        attrs = {}
        for e in opts:
            long = [n for n in e["names"] if n.startswith("--")] or list(e["names"])
            name = long[0].lstrip("-").replace("-", "_")
            kw = e["kw"]
            if kw.get("action") == ("const", "store_true"):
                v = FALSE
            elif "nargs" in kw and ("default" in kw or not long[0].startswith("-")):
                v = ()
            else:
                v = TOP
            v = given.get(name, v)
            if isinstance(v, tuple):
                v = I.alloc(st, node, List("list", tuple(const(x) for x in v)), ("ns", name))
            attrs[name] = v
        return I.alloc(st, node, Inst(("x", "Namespace"), attrs), "ns")
    I.namespace = namespace
    seen = {k for k, e in I.events.items() if e["kind"] == "nsopen"}
    I.memo = {}
    try:
        r = I.call(fn, Args([], {}), st, I.prog.fns[ARGS].node)
        if st.dead or len(r) != 1:
            return None
        ns = I.get(st, next(iter(r))[1]) if next(iter(r))[0] == "r" else None
        flags = {n[4:] for n, v in ns.attrs.items() if n.startswith("inc_") and v == TRUE} if type(ns) is Inst else set()
        r = I.call(fx, Args([r], {}), st, I.prog.fns[ARGS].node)
        if st.dead or len(r) != 1 or {k for k, e in I.events.items() if e["kind"] == "nsopen"} - seen:
            return None
        ob = I.get(st, next(iter(r))[1]) if next(iter(r))[0] == "r" else None
        if type(ob).__name__ != "Dict" or ob.restk:
            return None
        out = {"": flags}
        for k, (v, _m) in ob.items.items():
            a = next(iter(v), None)
            li = I.get(st, a[1]) if a and len(v) == 1 and a[0] == "r" else None
            if type(li) is not List:
                return None
            out[k[2]] = li
        return out
    except (RecursionError, AttributeError, TypeError, KeyError, ValueError, IndexError):
        return None
    finally:
        I.namespace = None


def empty(li):
    return li.elems == () or (li.elems is None and not li.rest)


def switches(F, R, opts, reg):
    """What a command line selects: files by switch, types by --inc-, everything by default."""
    at = "castep_outputs/cli/args.py parse_args"
    names = sorted(reg)
    files = {n: ("the file",) for n in names}
    both = [(n, got) for more in ({}, {f"inc_{names[0]}": TRUE}) for got in [parsed(F, opts, {**files, **more})] for n in names]
    for n, got in both:
        if got is None:
            continue
        R.count("files given by switch")
        if n in got and not got[n].any() & (const("the file") | TOP):
            R.violation(f"--{n}:lost", at, f"a file given by --{n} is not parsed", "a file given by its switch is parsed as that type")
    for what, given in (("a seed name alone", {}), ("--inc-all with another --inc-", {"inc_all": TRUE, f"inc_{names[0]}": TRUE})):
        got = parsed(F, opts, {"seedname": ("seed",), **given})
        R.count("command lines evaluated")
        if got is None:
            R.count("command lines not known")
            continue
        for n in names:
            if n in got and empty(got[n]):
                R.violation(f"{n}:{what}", at, f"with {what} files of type {n} are never found", "by default, and by --inc-all, every type is looked for")
    for x in names:
        got = parsed(F, opts, {"seedname": ("seed",), f"inc_{x}": TRUE})
        R.count("command lines evaluated")
        if got is None:
            R.count("command lines not known")
            continue
        for y in names:
            if y != x and y in got and not empty(got[y]) and y in got[""]:
                R.violation(f"--inc-{x}:{y}", at, f"with --inc-{x} files of type {y} are looked for as well", "--inc-X looks for X only")
                break
        if x in got and empty(got[x]):
            R.violation(f"--inc-{x}", at, f"with --inc-{x} files of type {x} are never found", "--inc-X looks for X")


def dumpers(F, R):
    E, I = F.E, F.I
    fm = set(R.formats) | {"json", "yaml", "ruamel", "pyyaml", "pprint", "print"}
    for x in sorted(fm):
        R.count("output formats")
        got, res = reached(F, DUMP, "get_dumpers", [const(x)], {})
        if res is None:
            continue
        r, st = res
        fs = {a for a in r if a[0] in ("fn", "part")}
        if st.dead or not r or all(a == ("c", "NoneType", None) for a in r):
            R.violation(f"format {x}", "castep_outputs/utilities/dumpers.py get_dumpers", f"no dumper for {x!r}",
                        "every output format has a dumper")
            continue
        for a in fs:
            fn = E.fnof(frozenset([a])) if a[0] == "fn" else None
            ps = [p.arg for p in fn.node.args.posonlyargs + fn.node.args.args] if fn is not None else []
            if len(ps) < 2 or fn.kind not in ("def", "lambda"):
                continue
            R.count("dumpers")
            read = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            for p, what in zip(ps, ("the data", "the destination")):
                if p not in read and not {"locals", "vars"} & read:
                    R.violation(f"format {x}:{p}", where(fn, fn.node), f"the dumper of {x!r} does not use {what} it is given",
                                "a dumper writes the data to the destination")
        want = WRITES.get(x)
        if want is None or len(fs) != 1 or len(r) != 1:
            continue
        before = {k: e["n"] for k, e in I.events.items()}
        st = E.begin(DUMP)
        fh = frozenset([("xi", "TextIO", None)])
        try:
            I.call(frozenset(fs), Args([S(), fh], {}), st, I.prog.fns[DUMP].node)
        except (RecursionError, AttributeError, TypeError, KeyError, ValueError, IndexError):
            continue
        used = {e["detail"] for k, e in I.events.items() if e["kind"] == "ext" and e["n"] > before.get(k, 0)}
        other = {n: w for n, w in WRITES.items() if n != x and used & w and not w & want}
        if other and not (used & want):
            R.violation(f"format {x}:{sorted(other)[0]}", "castep_outputs/utilities/dumpers.py",
                        f"{x!r} is written by the dumper of {sorted(other)[0]!r}", "each format has its own dumper")
    # preparation: the formats whose preparation differs
    if "yaml" not in R.formats and R.formats:
        R.violation("format yaml:choice", "castep_outputs/cli/args.py get_parser", "'yaml' is not offered", "formats offered")
