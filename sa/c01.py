"""C01: reading has no effects.  Two readings of the source agree on what is called: the abstract interpreter (values,
so aliases and helpers do not matter) and the import table (every function, reached or not)."""
from __future__ import annotations

import ast

from .astq import Names, own_nodes, where

# external names with effects outside the process's own data (prefix match at a dot)
DENY = """
os.remove os.unlink os.rename os.renames os.replace os.rmdir os.removedirs os.mkdir os.makedirs os.chdir os.fchdir
os.chmod os.chown os.lchown os.symlink os.link os.truncate os.ftruncate os.mkfifo os.mknod os.utime os.write os.pwrite
os.open os.fdopen os.putenv os.unsetenv os.system os.popen os.exec os.execv os.execve os.execvp os.execl os.execlp
os.spawnl os.spawnv os.spawnvp os.posix_spawn os.fork os.forkpty os.kill os.killpg os.umask os.nice os.setuid os.setgid
os.startfile os.abort os._exit os.dup2 os.close os.sched_setaffinity
os.environ.update os.environ.pop os.environ.clear os.environ.setdefault os.environ.popitem
shutil.copy shutil.copy2 shutil.copyfile shutil.copyfileobj shutil.copytree shutil.copymode shutil.copystat shutil.move
shutil.rmtree shutil.chown shutil.make_archive shutil.unpack_archive
subprocess socket socketserver urllib.request http ftplib smtplib telnetlib xmlrpc ssl asyncio multiprocessing
concurrent threading _thread signal atexit ctypes pty
tempfile.mkstemp tempfile.mkdtemp tempfile.NamedTemporaryFile tempfile.TemporaryFile tempfile.TemporaryDirectory
tempfile.SpooledTemporaryFile tempfile.mktemp
locale.setlocale sys.setrecursionlimit sys.settrace sys.setprofile sys.setswitchinterval sys.set_int_max_str_digits
sys.path.append sys.path.insert sys.path.extend sys.path.remove sys.modules.pop sys.displayhook
warnings.warn warnings.warn_explicit warnings.simplefilter warnings.filterwarnings warnings.resetwarnings
logging.disable logging.captureWarnings logging.setLoggerClass logging.setLogRecordFactory logging.shutdown
logging.root logging.FileHandler logging.handlers logging.config logging.addLevelName logging.raiseExceptions
random.seed random.setstate numpy.random.seed numpy.seterr numpy.set_printoptions decimal.setcontext
decimal.getcontext.prec gc.disable gc.freeze gc.set_threshold faulthandler tracemalloc.start
codecs.open gzip.open bz2.open lzma.open zipfile.ZipFile tarfile.open shelve.open dbm.open sqlite3.connect
pickle.dump marshal.dump csv.writer mmap.mmap fileinput.input
input breakpoint exec pdb.set_trace webbrowser readline builtins.exec builtins.input builtins.breakpoint
time.tzset os.register_at_fork resource.setrlimit
""".split()
DENYSET = set(DENY)
PATHMETH = {"write_text", "write_bytes", "unlink", "mkdir", "touch", "rmdir", "symlink_to", "hardlink_to", "chmod",
            "lchmod"}
WRITEMODE = set("wax+")
DUMPS = {"json.dump", "yaml.dump", "ruamel.yaml.YAML", "pprint.pprint", "pprint.pp"}


def denied(name):
    parts = name.split(".")
    return next((p for n in range(len(parts), 0, -1) if (p := ".".join(parts[:n])) in DENYSET), None)


def check(F, R):
    R.explanation = ("Every call the abstract interpreter resolves to an external function, every file it sees opened or "
                     "written and every external name in every function (through the import table) is compared with a "
                     "list of effectful operations; the only write allowed is to the output parse_all was given.")
    R.rules = ["no call of an effectful external function", "files are opened for reading, except the output of the dump",
               "nothing is printed by itself; a dumper prints to the file it is given",
               "no assignment to attributes or items of external modules",
               "a handle given by the caller is never written to"]
    imports(F, R)
    events(F, R)


def imports(F, R):
    cache = {}
    for fn in F.prog.fns.values():
        if fn.kind == "lambda":
            continue
        names = cache.get(fn.mod.name)
        if names is None:
            names = cache[fn.mod.name] = Names(F.prog, fn.mod)
        R.count("functions scanned")
        for n in own_nodes(fn):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                q = names.name(n, fn)
                if q and (d := denied(q)):
                    R.violation(f"{fn.qual}:{d}", where(fn, n), f"use of {q}", "effectful external function")
            if isinstance(n, ast.Call):
                call(F, R, fn, n, names)
            tg = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else \
                [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tg:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    base = x
                    while isinstance(base, (ast.Attribute, ast.Subscript)):
                        base = base.value
                    if base is x:
                        continue
                    q = names.name(base, fn)
                    if q and not q.startswith("castep_outputs") and fn.kind != "module" and "." not in q.strip(".") \
                            and q in ("os", "sys", "logging", "warnings", "random", "locale", "json", "builtins", "re",
                                      "io", "pprint", "yaml", "numpy", "decimal", "time", "argparse"):
                        R.violation(f"{fn.qual}:assign {q}", where(fn, n), f"assignment to a part of module {q}",
                                    "assignment to external module")


def call(F, R, fn, n, names):
    R.count("call sites scanned")
    q = names.name(n.func, fn)
    if q in ("print", "builtins.print"):
        f = next((k.value for k in n.keywords if k.arg == "file"), None)
        tgt = names.name(f, fn) if f is not None else None
        if f is None and not any(k.arg is None for k in n.keywords) or isinstance(f, ast.Constant) or \
                tgt in ("sys.stdout", "sys.stderr", "sys.__stdout__", "sys.__stderr__"):
            R.violation(f"{fn.qual}:print", where(fn, n), "prints to the console", "printing")
    elif q in ("sys.stdout.write", "sys.stderr.write", "sys.stdout.writelines", "sys.stderr.writelines",
               "pprint.pprint", "pprint.pp", "traceback.print_exc", "sys.stdout.buffer.write", "sys.__stdout__.write",
               "sys.__stderr__.write", "traceback.print_stack"):
        if not (q.startswith("pprint") and (len(n.args) > 1 or any(k.arg == "stream" for k in n.keywords))):
            R.violation(f"{fn.qual}:{q}", where(fn, n), f"{q} writes to the console", "printing")
    elif q in ("open", "io.open", "builtins.open") or isinstance(n.func, ast.Attribute) and n.func.attr == "open" \
            and q is None:
        pos = 0 if q is None else 1
        m = next((k.value for k in n.keywords if k.arg == "mode"), None) or (n.args[pos] if len(n.args) > pos else None)
        if isinstance(m, ast.Constant) and isinstance(m.value, str) and WRITEMODE & set(m.value):
            if ".cli." not in fn.mod.name + ".":
                R.violation(f"{fn.qual}:open", where(fn, n), f"opens a file with mode {m.value!r}", "opening to write")
    elif isinstance(n.func, ast.Attribute) and n.func.attr in PATHMETH and q is None:
        R.violation(f"{fn.qual}:{n.func.attr}", where(fn, n), f"calls {n.func.attr}", "file system change")


def events(F, R):
    for e in F.events.values():
        w = f"{e['file']}:{e['line']} {e['fn']}"
        k = e["kind"]
        if k == "ext":
            R.count("external calls resolved")
            if (d := denied(e["detail"])):
                R.violation(f"{e['fn']}:{d}", w, f"call of {e['detail']}", "effectful external function")
            if e["detail"] in DUMPS and any(r.startswith(("parser", "lazy")) for r in e["runs"]):
                R.violation(f"{e['fn']}:{e['detail']}", w, f"{e['detail']} while parsing", "dump outside the dump step")
        elif k == "open":
            R.count("files opened")
            m = e.get("mode")
            if isinstance(m, str) and WRITEMODE & set(m) and e.get("path") != ("ARG", "output"):
                if e["path"] is None and e["runs"] <= {"rest"}:
                    continue
                R.violation(f"{e['fn']}:open", w, f"opens {e.get('path')} with mode {m!r}",
                            "only the output may be opened to write")
        elif k == "fs_write":
            R.violation(f"{e['fn']}:{e['detail']}", w, f"calls {e['detail']} on a path", "file system change")
        elif k == "console":
            if e.get("implicit") or any(r.startswith(("parser", "lazy")) for r in e["runs"]):
                R.violation(f"{e['fn']}:print", w, e["detail"], "printing")
        elif k == "file_write":
            if e.get("caller") or any(r.startswith(("parser", "lazy")) for r in e["runs"]):
                R.violation(f"{e['fn']}:file_write", w, f"{e['detail']} on an open file", "a handle is only read")
