"""C12 (determinism, no carried state) and C13 (no side effects): effect analysis of everything the API reaches."""
import ast

from ..effects import Reach
from ..model import Func
from .cli import API

PURE_MODS = {"re", "itertools", "functools", "math", "textwrap", "enum", "typing", "dataclasses", "abc", "collections",
             "contextlib", "string", "copy", "operator", "unicodedata", "bisect", "heapq", "html", "numbers",
             "typing_extensions", "fractions", "decimal", "types", "__future__", "difflib", "keyword", "token", "array"}
IO_MODS = {"subprocess", "socket", "shutil", "tempfile", "urllib", "http", "ftplib", "smtplib", "ssl", "sqlite3",
           "asyncio", "multiprocessing", "threading", "fileinput", "pickle", "dbm", "shelve", "webbrowser", "ctypes",
           "mmap", "select", "selectors", "pty", "fcntl", "termios", "curses", "rich", "requests", "syslog", "signal",
           "atexit", "pdb", "code", "getpass", "glob", "linecache", "concurrent", "zipfile", "tarfile", "gzip"}
IO_BUILTINS = {"print", "open", "input", "exit", "quit", "breakpoint"}
ENV_MODS = {"random", "secrets", "uuid", "time", "datetime", "locale", "platform", "getpass", "pwd", "socket", "threading",
            "tempfile", "gc", "weakref", "resource", "sysconfig", "site", "calendar", "zoneinfo"}
ENV_NAMES = {"os.environ", "os.environb", "os.getenv", "os.getcwd", "os.getcwdb", "os.getpid", "os.urandom", "os.listdir", "os.stat",
             "os.path.exists", "os.path.abspath", "os.path.realpath", "os.path.expanduser", "os.path.expandvars", "os.get_terminal_size",
             "shutil.get_terminal_size", "sys.argv", "sys.flags", "sys.stdin", "sys.stdout", "sys.stderr", "sys.getrefcount",
             "sys.getrecursionlimit", "sys.path", "sys.modules", "os.cpu_count", "os.getlogin", "os.uname", "os.name", "sys.platform",
             "os.linesep", "os.sep", "sys.version_info", "sys.hexversion", "sys.version", "sys.maxsize", "sys.getdefaultencoding",
             "sys.getfilesystemencoding", "sys.gettrace", "sys._getframe", "inspect.stack", "inspect.currentframe",
             "pathlib.Path.cwd", "pathlib.Path.home"}
ENV_BUILTINS = {"id", "hash", "input", "open"}
FS_METHODS = {"write_text", "write_bytes", "read_text", "read_bytes", "unlink", "mkdir", "rmdir", "touch", "rename", "iterdir",
              "rglob", "symlink_to", "chmod", "hardlink_to"}
LOG_READS = {"getEffectiveLevel", "isEnabledFor", "hasHandlers", "getChildren"}
LOG_CALLS = {"debug", "info", "warning", "warn", "error", "exception", "critical", "log", "setLevel"}
PURE_OS = {"os.path.join", "os.path.basename", "os.path.dirname", "os.path.split", "os.path.splitext", "os.path.normpath",
           "os.fspath", "os.sep", "os.linesep", "os.path.commonprefix", "os.path", "os"}


def reach(prog, rep):
    R = prog.public(API, "reformat_markdown_text", "func")
    r = Reach(prog, [R])
    rep.stats["functions"] |= {f.qual for f in r.funcs}
    rep.stats["call_sites"] += sum(1 for e in r.effects if e.kind in ("extcall", "method"))
    return R, r


def chain(r, fn, limit=8):
    """one call chain from the API to fn"""
    out, seen = [fn.qual], {fn}
    cur = fn
    while len(out) < limit:
        c = next((x for x in sorted(r.callers.get(cur, ()), key=lambda f: f.qual) if x not in seen), None)
        if c is None:
            break
        out.append(c.qual)
        seen.add(c)
        cur = c
    return tuple(reversed(out))


# ------------------------------------------------------------------ C13

def io_verdict(q):
    """True fine / False an effect / None unknown, for an external name that is used"""
    head = q.split(".")[0]
    if head == "builtins":
        return False if q[9:].split(".")[0] in IO_BUILTINS else True
    if head == "logging":
        return True
    if head == "warnings":
        return False if q in ("warnings.warn", "warnings.warn_explicit", "warnings.showwarning") else None
    if head == "os":
        return True if q in PURE_OS else False
    if head == "sys":
        if q in ("sys.exit",) or q.startswith(("sys.stdout", "sys.stderr", "sys.stdin", "sys.__std", "sys.setrecursion",
                                               "sys.settrace", "sys.setprofile")):
            return False
        return True
    if head == "pathlib" or head == "io":
        return False if q in ("io.open", "io.FileIO", "io.open_code") or q.startswith("pathlib.Path.") else True
    if head in PURE_MODS:
        return True
    if head in IO_MODS:
        return False
    if head in ENV_MODS:
        return True
    return None


def check_C13(prog, rep, prop, tier):
    R, r = reach(prog, rep)
    for e in r.effects:
        if e.kind in ("extcall", "extref", "deco"):
            if e.kind == "extref" and isinstance(e.node, ast.Name) and "." not in e.what and e.what in ("os", "sys", "io", "pathlib"):
                continue
            v = io_verdict(e.what)
            rep.ob("C13.effect", v, e.where, f"{e.what} is reached from the formatting API", chain(r, e.fn))
        elif e.kind == "method":
            if e.what in FS_METHODS:
                rep.ob("C13.effect", False, e.where, f"file system access .{e.what}() is reached from the formatting API", chain(r, e.fn))
    for f in r.funcs:
        rep.ob("C13.function", True, f"{f.loc} ({f.qual})", "no effect outside the call")
    return rep


# ------------------------------------------------------------------ C12

def env_verdict(q):
    head = q.split(".")[0]
    if head == "builtins":
        return False if q[9:] in ENV_BUILTINS else True
    for n in ENV_NAMES:
        if q == n or q.startswith(n + "."):
            return None if q in ("os.linesep", "os.sep", "os.name", "sys.platform", "sys.version_info", "sys.maxsize", "sys.hexversion") else False
    if head in ENV_MODS:
        return None if q == head else False
    if head in ("os", "sys"):
        return True if q in PURE_OS or head == "sys" else None
    if head in PURE_MODS or head == "logging":
        return True
    return None


def loc_id(t, fn):
    if t[0] == "const":
        return ("const", t[3].name if t[3] is not None else "", t[1])
    if t[0] == "classattr":
        return ("classattr", t[2])
    if t[0] == "constattr":
        return ("constattr",) + loc_id(t[1], fn) + (t[2],)
    if t[0] == "default":
        return ("default", fn.qual, t[1])
    if t[0] == "attrof":
        b = t[1]
        return ("attrof", getattr(b[1], "qual", getattr(b[1], "name", b[1])), t[2])
    return tuple(str(x) for x in t)


def names_closure(fn, expr):
    """names an expression is built from, through plain local assignments"""
    out = {n.id for n in ast.walk(expr) if isinstance(n, ast.Name)}
    for _ in range(4):
        more = set()
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id in out:
                        more |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
        if more <= out:
            break
        out |= more
    return out


def memo_key(e):
    """key expression of a store into a cache, or None"""
    n = e.node
    if isinstance(n, ast.Assign):
        for t in n.targets:
            if isinstance(t, ast.Subscript):
                return t.slice
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and n.args:
        return n.args[0]
    return None


def params(fn):
    a = fn.node.args
    return [p.arg for p in a.posonlyargs + a.args + a.kwonlyargs]


def check_C12(prog, rep, prop, tier):
    R, r = reach(prog, rep)
    reads = {}
    for e in r.effects:
        if e.kind == "read":
            reads.setdefault(loc_id(e.extra, e.fn), []).append(e)
    for e in r.effects:
        if e.kind in ("extcall", "extref"):
            v = env_verdict(e.what)
            if v is not True:
                rep.ob("C12.environment", v, e.where, f"{e.what} can influence the result", chain(r, e.fn))
        elif e.kind in ("globalstore", "mutate", "attrstore"):
            state(r, rep, e, reads)
        elif e.kind == "deco" and e.what in ("functools.lru_cache", "functools.cache", "functools.cached_property"):
            rep.ob("C12.state", None, e.where, f"{e.what}: results are shared between calls")
        elif e.kind == "read":
            shared_iterator(prog, r, rep, e)
        elif e.kind == "method" and e.what in LOG_READS or e.kind == "logattr":
            log_taint(r, rep, e)
    for f in r.funcs:
        set_order(prog, r, rep, f)
        rep.ob("C12.function", True, f"{f.loc} ({f.qual})", "depends on its arguments only")
    return rep


def state(r, rep, e, reads):
    t = e.extra
    if t is None:
        return
    if t[0] == "ext" or t[0] == "attrof" and t[1] and t[1][0] == "ext":
        return          # process-wide library state: C14
    lid = loc_id(t, e.fn)
    if t[0] == "default":
        used = True
    elif t[0] in ("classattr",) or t[0] == "attrof":
        used = True
    else:
        inner = {id(x) for x in ast.walk(e.node)} if not isinstance(e.node, (ast.For, ast.With)) else set()
        used = any(id(x.node) not in inner for x in reads.get(lid, ())) or e.kind == "globalstore" and lid in reads
        if not used and e.kind == "mutate" and isinstance(e.node, ast.Call) and \
                e.node.func.attr in ("setdefault", "pop", "popitem", "popleft"):
            used = True
    key = memo_key(e)
    if used and key is not None and t[0] in ("const", "classattr", "default"):
        ks = names_closure(e.fn, key)
        ps = [p for p in params(e.fn) if not (t[0] == "default" and p == t[1])]
        if all(p in ks for p in ps):
            rep.ob("C12.state", None, e.where, f"cache {e.what} keyed by every argument")
            return
    rep.ob("C12.state", False if used else True, e.where,
           f"{e.what} keeps what this call put there and is read by later calls", chain(r, e.fn))


def shared_iterator(prog, r, rep, e):
    from ..effects import const_kind
    t = e.extra
    if t[0] != "const" or not isinstance(t[2], ast.AST):
        return
    if const_kind(t[2], t[3], prog) == "iterator":
        rep.ob("C12.state", False, e.where, f"{e.what} is a module level iterator: what it yields depends on earlier calls", chain(r, e.fn))


def log_taint(r, rep, e):
    """a value read from the logging configuration may only steer logging"""
    fn = e.fn
    tainted = set()

    def hot(x):
        for n in ast.walk(x):
            if n is e.node:
                return True
            if isinstance(n, ast.Name) and n.id in tainted and isinstance(n.ctx, ast.Load):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LOG_READS:
                return True
        return False
    for _ in range(3):
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and hot(n.value):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            tainted.add(x.id)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)) and n.value is not None and hot(n.value) and isinstance(n.target, ast.Name):
                tainted.add(n.target.id)

    def logonly(st):
        if isinstance(st, ast.Expr):
            c = st.value
            if isinstance(c, ast.Constant):
                return True
            return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in LOG_CALLS
        if isinstance(st, ast.Assign):
            return all(isinstance(t, ast.Name) and t.id in loggedonly for t in st.targets)
        if isinstance(st, ast.If):
            return all(logonly(s) for s in st.body + st.orelse)
        if isinstance(st, (ast.For, ast.While)):
            return all(logonly(s) for s in st.body + st.orelse)
        return isinstance(st, ast.Pass)

    # names that are only ever used inside log calls
    inlog = set()
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in LOG_CALLS:
            inlog |= {id(x) for x in ast.walk(n)}
    outs = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in inlog}
    loggedonly = {n.id for n in ast.walk(fn.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - outs
    bad = None
    unsure = None
    for st in ast.walk(fn.node):
        if isinstance(st, (ast.If, ast.While)) and hot(st.test):
            if not all(logonly(s) for s in st.body + st.orelse):
                bad = bad or st
        elif isinstance(st, ast.IfExp) and hot(st.test):
            unsure = unsure or st
        elif isinstance(st, (ast.Return, ast.Yield)) and st.value is not None and hot(st.value):
            unsure = unsure or st
        elif isinstance(st, ast.Call) and id(st) not in inlog and any(hot(a) for a in list(st.args) + [k.value for k in st.keywords]):
            unsure = unsure or st
        elif isinstance(st, (ast.Raise, ast.Assert)) and any(hot(c) for c in ast.iter_child_nodes(st)):
            bad = bad or st
    if bad is not None:
        rep.ob("C12.logging", False, e.where, f"the logging configuration decides what is formatted (line {bad.lineno})", chain(r, fn))
    else:
        rep.ob("C12.logging", True if unsure is None else None, e.where, "a value of the logging configuration leaves the logging calls")


ORDER_FREE = {"any", "all", "sorted", "len", "sum", "max", "min", "set", "frozenset", "bool"}


def set_order(prog, r, rep, fn):
    """iteration over a set exposes the order of string hashes"""
    def isset(e, depth=0):
        if isinstance(e, (ast.Set, ast.SetComp)):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset"):
            return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return isset(e.left, depth) or isset(e.right, depth)
        if isinstance(e, ast.Name) and depth < 3:
            vals = [n.value for n in ast.walk(fn.node) if isinstance(n, ast.Assign)
                    and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if vals:
                return all(isset(v, depth + 1) for v in vals)
            if e.id in params(fn):
                return False
            b = prog.lookup(fn.mod, e.id)
            if b and b[0] == "const":
                return isset(b[1], depth + 1)
        return False

    free = set()
    for n in ast.walk(fn.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ORDER_FREE:
            for a in n.args:
                free.add(id(a))
    for n in ast.walk(fn.node):
        it = None
        if isinstance(n, ast.For):
            it = n.iter
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)) and id(n) not in free:
            it = next((g.iter for g in n.generators if isset(g.iter)), None)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "tuple", "iter", "enumerate", "map", "filter", "zip") and n.args and id(n) not in free:
                it = next((a for a in n.args if isset(a)), None)
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "join" and n.args:
                it = n.args[0]
            elif isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and not n.args and isset(n.func.value):
                it = n.func.value
        if it is not None and isset(it):
            src = it
            one = isinstance(it, (ast.Set,)) and len(it.elts) <= 1
            ints = isinstance(src, ast.Set) and all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in src.elts)
            rep.ob("C12.order", True if one or ints else False, f"{fn.mod.relpath}:{n.lineno} ({fn.qual})",
                   f"iterates over the set {ast.unparse(it)[:60]}: the order depends on the hash seed", chain(r, fn))
