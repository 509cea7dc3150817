"""Abstract semantics of builtins, the standard library and opaque objects."""
import ast
import builtins as _bi
import math
import string

from .terms import Term, Lin, lin, ZERO, ONE, Contradiction, fresh
from .values import *
from . import cover, rx
from .lib_list import exc, sorted_seq, rep, elem_value, order_f, eq_f, quotient
from .lib_str import to_str, fmt_value, opaque_str, join_seq, py_const, fmt_call
from .lib_iter import make_iter, it_next, to_list, image

EXTCONST = {
    "logging.NOTSET": Num(0), "logging.DEBUG": Num(10), "logging.INFO": Num(20), "logging.WARNING": Num(30),
    "logging.WARN": Num(30), "logging.ERROR": Num(40), "logging.CRITICAL": Num(50), "logging.FATAL": Num(50),
    "math.inf": Const(math.inf), "os.R_OK": Num(4), "os.W_OK": Num(2), "os.X_OK": Num(1), "os.F_OK": Num(0),
    "string.digits": S(string.digits), "string.whitespace": S(string.whitespace),
    "string.punctuation": S(string.punctuation), "string.ascii_letters": S(string.ascii_letters),
    "string.ascii_lowercase": S(string.ascii_lowercase), "string.ascii_uppercase": S(string.ascii_uppercase),
    "string.hexdigits": S(string.hexdigits),
    "os.linesep": S("\n"), "os.sep": S("/"), "sys.maxsize": Num(2 ** 63 - 1),
    "re.VERBOSE": Num(64), "re.X": Num(64), "re.MULTILINE": Num(8), "re.M": Num(8), "re.DOTALL": Num(16),
    "re.S": Num(16), "re.IGNORECASE": Num(2), "re.I": Num(2), "re.ASCII": Num(256), "re.A": Num(256),
}

METHOD_NAMES = {"read_text", "write_text", "read_bytes", "write_bytes", "exists", "is_file", "is_dir", "is_absolute",
                "append", "extend", "debug", "info", "warning", "error", "critical", "exception", "log", "write",
                "setLevel", "getEffectiveLevel", "print", "joinpath", "with_name", "resolve", "isatty", "print_help",
                "print_usage"}

LOG_METHODS = {"debug", "info", "warning", "warn", "error", "critical", "exception", "log"}

FS_WRITE = {"write_text", "write_bytes", "unlink", "rename", "replace", "touch", "mkdir", "rmdir", "chmod",
            "symlink_to", "hardlink_to", "link_to", "writelines", "truncate"}

FS_FUNCS = ("os.remove", "os.unlink", "os.rename", "os.replace", "os.makedirs", "os.mkdir", "os.rmdir",
            "os.removedirs", "os.truncate", "os.link", "os.symlink", "os.chmod", "os.utime", "os.write",
            "shutil.copy", "shutil.copyfile", "shutil.copy2", "shutil.move", "shutil.rmtree", "shutil.copytree",
            "shutil.copyfileobj", "tempfile.NamedTemporaryFile", "tempfile.mkstemp", "tempfile.mkdtemp")

PASS_NUM = ("math.floor", "math.ceil", "math.trunc", "builtins.round", "builtins.int")


def is_exc_name(q):
    n = q.rsplit(".", 1)[-1]
    c = getattr(_bi, n, None)
    if q.startswith("builtins."):
        return isinstance(c, type) and issubclass(c, BaseException)
    return n.endswith(("Error", "Exception", "Exit", "Interrupt", "Warning")) and n[:1].isupper()


def pc(v):
    """python constant of a value, or None"""
    ok, c = py_const(v)
    return c if ok else None


def seq_of(v, st):
    if isinstance(v, Seq):
        return v
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), LObj):
        return st.heap[v.id].seq
    return None


def path_term(I, v, st):
    """canonical term of a path-like value"""
    t = I.term(v, st)
    if t.op == "strof" and t.args and isinstance(t.args[0], Term):
        return path_norm(t.args[0])
    return path_norm(t)


def path_norm(t):
    return t


def raises(I, st, q, cls="builtins.OSError"):
    if I.cfg.any_raises:
        return [(st, Exc(ExcV(cls, exact=False, origin=q)))]
    return []


def evr(I, st, kind, data, node, fid, val):
    """event, then a result (value or function of the state)"""
    out = []
    for s, ex in I.ev(st, kind, data, node, fid):
        if ex is not None:
            out.append((s, ex))
        else:
            r = val(s) if callable(val) else (s, val)
            out.append(r)
    return out


def call_ext(I, q, args, kw, st, node, fid):
    h = I.cfg.ext.get(q)
    if h is not None:
        r = h(I, st, args, kw, node, fid)
        if r is not None:
            return r
    if q.startswith("builtins."):
        f = BUILTINS.get(q[9:])
        if f is not None:
            r = f(I, args, kw, st, node, fid)
            if r is not None:
                return r
    f = EXT.get(q)
    if f is not None:
        r = f(I, args, kw, st, node, fid)
        if r is not None:
            return r
    if q.startswith("re."):
        return re_func(I, q[3:], args, kw, st, node, fid)
    if is_exc_name(q):
        return [(st, ExcV(q, True, args))]
    if q in FS_FUNCS:
        return evr(I, st, "fs", {"op": q, "args": args, "kw": kw}, node, fid,
                   Sym(Term("fs", q, *[I.term(a, st) for a in args]))) + raises(I, st, q)
    if q.startswith("builtins.str.") and args and isinstance(args[0], Seq):
        return call_method(I, args[0], q[13:], args[1:], kw, st, node, fid)
    t = Term("ecall", q, *[I.term(a, st) for a in args],
             *[Term("kw", k, I.term(v, st)) for k, v in sorted(kw.items())])
    return I.opaque_result(t, st, node, fid, q, args, kw)


def re_func(I, name, args, kw, st, node, fid):
    from .lib_rx import rx_method
    if name == "compile":
        p = args[0] if args else kw.get("pattern")
        fl = args[1] if len(args) > 1 else kw.get("flags")
        c = pc(p)
        if isinstance(p, RegexV):
            return [(st, p)]
        f = 0
        if fl is not None:
            k = fl.lin.const if isinstance(fl, Num) else None
            if k is None:
                return [(st, RegexV(None, 0))]
            f = int(k)
        if isinstance(c, str):
            return [(st, RegexV(c, f))]
        return [(st, Sym(Term("regex", I.term(p, st))))]
    if name in ("match", "search", "fullmatch", "finditer", "findall", "split", "sub", "subn"):
        out = []
        nargs = {"sub": 2, "subn": 2}.get(name, 1)
        fl = kw.pop("flags", None) if "flags" in kw else None
        for s, r in re_func(I, "compile", [args[0]] + ([fl] if fl is not None else []), {}, st, node, fid):
            if isinstance(r, RegexV):
                rest = list(args[1:])
                if "string" in kw:
                    kw = dict(kw)
                    rest.append(kw.pop("string"))
                out += rx_method(I, r, name, rest, kw, s, node, fid)
            else:
                out += I.opaque_result(Term("re", name, *[I.term(a, s) for a in args]), s, node, fid, "re." + name, args, kw)
        return out
    if name == "escape" and args and pc(args[0]) is not None:
        import re
        return [(st, S(re.escape(pc(args[0]))))]
    return I.opaque_result(Term("ecall", "re." + name, *[I.term(a, st) for a in args]), st, node, fid, "re." + name, args, kw)


# ------------------------------------------------------------------ builtins

def b_len(I, args, kw, st, node, fid):
    v = args[0]
    s = seq_of(v, st)
    if s is not None:
        return [(st, Num(st.store.norm(seq_len(I.norm_seq(s, st)))))]
    if isinstance(v, Tup):
        return [(st, Num(len(v.items)))]
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, DObj) and o.items is not None:
            return [(st, Num(len(o.items)))]
        if isinstance(o, IObj):
            from .model import Func
            a = I.prog.class_attr(o.cls, "__len__")
            if isinstance(a, Func):
                return I.call_func(a, [v], {}, st, node, fid)
    return [(st, Num(Lin(0, {nat("len", I.term(v, st)): 1})))]


def b_str(I, args, kw, st, node, fid):
    if not args:
        return [(st, S(""))]
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), IObj):
        from .model import Func
        for m in ("__str__", "__repr__"):
            a = I.prog.class_attr(st.heap[v.id].cls, m)
            if isinstance(a, Func):
                return I.call_func(a, [v], {}, st, node, fid)
    return [(st, to_str(I, v, st))]


def b_repr(I, args, kw, st, node, fid):
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), IObj):
        from .model import Func
        a = I.prog.class_attr(st.heap[v.id].cls, "__repr__")
        if isinstance(a, Func):
            return I.call_func(a, [v], {}, st, node, fid)
    c = pc(v)
    if isinstance(c, (str, int)):
        return [(st, S(repr(c)))]
    t = Term("repr", I.term(v, st))
    t.sort = "str"
    return [I.value_of(t, st)]


def b_int(I, args, kw, st, node, fid):
    if not args:
        return [(st, Num(0))]
    v = args[0]
    if isinstance(v, Num):
        return [(st, v)]
    if isinstance(v, BoolV):
        out = []
        for s, b in I.branch(st, v.f):
            out.append((s, Num(1 if b else 0)))
        return out
    if isinstance(v, Const):
        if v.v is None:
            return [(st, exc(I, "TypeError", node, fid))]
        if isinstance(v.v, bool):
            return [(st, Num(int(v.v)))]
        if isinstance(v.v, float) and math.isinf(v.v):
            return [(st, exc(I, "OverflowError", node, fid))]
    c = pc(v)
    if isinstance(c, str):
        try:
            return [(st, Num(int(c)))]
        except ValueError:
            return [(st, exc(I, "ValueError", node, fid))]
    t = Term("int", I.term(v, st), *[I.term(a, st) for a in args[1:]])
    t.sort = "int"
    if isinstance(v, Seq) and I.try_depth:
        out = []
        for s, b in I.branch(st, ("atom", Term("isint", I.term(v, st)))):
            out.append((s, Num(lin(t)) if b else exc(I, "ValueError", node, fid)))
        return out
    return [(st, Num(lin(t)))] + raises(I, st, "int", "builtins.ValueError")


def b_bool(I, args, kw, st, node, fid):
    f = I.truth(args[0], st) if args else ("F",)
    return [(st, TRUE if f == ("T",) else FALSE if f == ("F",) else BoolV(f))]


KINDS = {"str": (Seq,), "int": (Num,), "bool": (BoolV,), "tuple": (Tup,), "list": (), "dict": (), "set": ()}


def isinst(I, v, c, st):
    """formula"""
    from .interp import f_or
    if isinstance(c, Tup):
        return f_or(*[isinst(I, v, x, st) for x in c.items])
    name = c.q if isinstance(c, ExtV) else c.cls if isinstance(c, ClsV) else None
    if name is None:
        return ("atom", Term("isinst", I.term(v, st), I.term(c, st)))
    if isinstance(v, ExcV):
        if I.prog.is_subclass(v.cls, name):
            return ("T",)
        if v.exact or not I.prog.is_subclass(name, v.cls) or name in v.nots:
            return ("F",)
        return ("atom", Term("isinst", I.term(v, st), name if isinstance(name, str) else name.qual))
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, IObj):
            return ("T",) if I.prog.is_subclass(o.cls, name) else ("F",)
        if isinstance(o, LObj):
            return ("T",) if name in ("builtins.list", "builtins.object") else ("F",)
        if isinstance(o, DObj):
            return ("T",) if name == "builtins." + o.kind else ("F",)
    if isinstance(v, Seq):
        return ("T",) if name == "builtins.str" else ("F",)
    if isinstance(v, Num):
        return ("T",) if name in ("builtins.int", "numbers.Number") else ("F",)
    if isinstance(v, Tup):
        return ("T",) if name == "builtins.tuple" else ("F",)
    if isinstance(v, Const):
        x = v.v
        k = getattr(_bi, name[9:], None) if isinstance(name, str) and name.startswith("builtins.") else None
        if isinstance(k, type):
            return ("T",) if isinstance(x, k) else ("F",)
        return ("F",)
    return ("atom", Term("isinst", I.term(v, st), name if isinstance(name, str) else name.qual))


def b_isinstance(I, args, kw, st, node, fid):
    f = isinst(I, args[0], args[1], st)
    return [(st, TRUE if f == ("T",) else FALSE if f == ("F",) else BoolV(f))]


def b_range(I, args, kw, st, node, fid):
    ls = []
    for a in args:
        if isinstance(a, Num):
            ls.append(a.lin)
        elif isinstance(a, Const) and isinstance(a.v, bool):
            ls.append(lin(int(a.v)))
        else:
            t = Term("int", I.term(a, st))
            t.sort = "int"
            ls.append(lin(t))
    step = 1
    if len(ls) == 3:
        step = ls[2].const
        if step is None or step == 0:
            return None
        step = int(step)
    a, b = (ZERO, ls[0]) if len(ls) == 1 else (ls[0], ls[1])
    return [I.alloc(st, ItObj("range", cur=a, stop=b, step=step))]


def iters(I, vs, st, node, fid):
    cur = [(st, [])]
    out = []
    for v in vs:
        nx = []
        for s, its in cur:
            for s2, it in make_iter(I, v, s, node, fid):
                if isinstance(it, Exc):
                    out.append((s2, it))
                else:
                    nx.append((s2, its + [it]))
        cur = nx
    return cur, out


def b_enumerate(I, args, kw, st, node, fid):
    n = args[1] if len(args) > 1 else kw.get("start", Num(0))
    cur, out = iters(I, args[:1], st, node, fid)
    for s, (it,) in cur:
        out.append(I.alloc(s, ItObj("enum", it=it, n=n.lin if isinstance(n, Num) else lin(0))))
    return out


def b_zip(I, args, kw, st, node, fid):
    cur, out = iters(I, args, st, node, fid)
    for s, its in cur:
        out.append(I.alloc(s, ItObj("zip", its=tuple(its))))
    return out


def e_ziplong(I, args, kw, st, node, fid):
    cur, out = iters(I, args, st, node, fid)
    for s, its in cur:
        out.append(I.alloc(s, ItObj("ziplong", its=tuple(its), fill=kw.get("fillvalue", NONE))))
    return out


def e_chain(I, args, kw, st, node, fid):
    cur, out = iters(I, args, st, node, fid)
    for s, its in cur:
        out.append(I.alloc(s, ItObj("chain", its=tuple(its))))
    return out


def b_iter(I, args, kw, st, node, fid):
    if len(args) != 1:
        return None
    v = args[0]
    from .interp import GenV, GenExprV
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ItObj):
        return [(st, v)]
    return make_iter(I, v, st, node, fid)


def b_next(I, args, kw, st, node, fid):
    from .interp import STOP, GenV, GenExprV
    v = args[0]
    if isinstance(v, (GenV, GenExprV)):
        # the first value of a lazily evaluated generator
        if isinstance(v, GenExprV):
            out = []
            from .interp import Out

            def body(x, w):
                return [Out("return", x, w)]
            for o in I.iterate_comp(v.node, st, body, v.fid):
                if o.kind == "return":
                    out.append((o.st, o.val))
                elif o.kind == "raise":
                    out.append((o.st, Exc(o.val)))
                elif len(args) > 1:
                    out.append((o.st, args[1]))
                else:
                    out.append((o.st, exc(I, "StopIteration", node, fid)))
            return out
        return None
    if not (isinstance(v, Ref) and isinstance(st.heap.get(v.id), ItObj)):
        return None
    out = []
    for s, x in it_next(I, v, st, node, fid):
        if x is STOP:
            if len(args) > 1:
                out.append((s, args[1]))
            else:
                out.append((s, exc(I, "StopIteration", node, fid)))
        else:
            out.append((s, x))
    return out


def b_list(I, args, kw, st, node, fid):
    if not args:
        return [I.new_list(st)]
    return to_list(I, args[0], st, node, fid)


def b_tuple(I, args, kw, st, node, fid):
    if not args:
        return [(st, Tup(()))]
    if isinstance(args[0], Tup):
        return [(st, args[0])]
    out = []
    for s, r in to_list(I, args[0], st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        seq = s.heap[r.id].seq
        out.append((s, Tup([p.v for p in seq.p]) if all(isinstance(p, Item) for p in seq.p) else r))
    return out


def b_set(I, args, kw, st, node, fid):
    if not args:
        return [I.alloc(st, DObj((), "set", Term("set", id(node))))]
    out = []
    for s, r in to_list(I, args[0], st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        seq = s.heap[r.id].seq
        if all(isinstance(p, Item) for p in seq.p):
            out.append(I.alloc(s, DObj(tuple((p.v, TRUE) for p in seq.p), "set")))
        else:
            out.append(I.alloc(s, DObj(None, "set", Term("setof", snapshot(seq)))))
    return out


def b_dict(I, args, kw, st, node, fid):
    if not args:
        return [I.alloc(st, DObj(tuple((S(k), v) for k, v in kw.items()), "dict", Term("dict", id(node))))]
    out = []
    for s, r in to_list(I, args[0], st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        if isinstance(args[0], Ref) and isinstance(s.heap.get(args[0].id), DObj):
            out.append(I.alloc(s, s.heap[args[0].id]))
            continue
        seq = s.heap[r.id].seq
        if all(isinstance(p, Item) and isinstance(p.v, Tup) and len(p.v.items) == 2 for p in seq.p):
            out.append(I.alloc(s, DObj(tuple(p.v.items for p in seq.p) + tuple((S(k), v) for k, v in kw.items()),
                                       "dict", Term("dict", id(node)))))
        else:
            out.append(I.alloc(s, DObj(None, "dict", Term("dictof", snapshot(seq)))))
    return out


def minmax(I, args, kw, st, node, fid, big):
    if len(args) > 1 and "key" not in kw:
        cur = [(st, args[0])]
        for b in args[1:]:
            nx = []
            for s, a in cur:
                f = order_f(I, ast.GtE() if big else ast.LtE(), a, b, s)
                for s2, t in I.branch(s, f):
                    nx.append((s2, a if t else b))
            cur = nx
        return cur
    out = []
    for s, r in to_list(I, args[0], st, node, fid) if len(args) == 1 else []:
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        seq = I.norm_seq(s.heap[r.id].seq, s)
        if "key" not in kw and seq.p and all(isinstance(p, Item) for p in seq.p) and len(seq.p) <= 4:
            out += minmax(I, [p.v for p in seq.p], {}, s, node, fid, big) if len(seq.p) > 1 else [(s, seq.p[0].v)]
            continue
        n = seq_len(seq)
        for s2, ok in I.branch(s, ("ge", n - 1)):
            if not ok:
                out.append((s2, kw["default"]) if "default" in kw else (s2, exc(I, "ValueError", node, fid)))
                continue
            t = Term("max" if big else "min", snapshot(seq), *[I.term(v, s2) for k, v in sorted(kw.items()) if k != "default"])
            if "key" in kw:
                out.append((s2, Sym(t)))
                continue
            t.sort = "int"
            s3 = bound_elems(I, seq, lin(t), s2, big)
            out.append((s3, Num(lin(t))))
    return out or None


def bound_elems(I, seq, m, st, big):
    """m bounds every element of the sequence"""
    from .interp import HOLE, gsubst
    new = []
    lower0 = True
    for p in seq.p:
        if isinstance(p, Item) and isinstance(p.v, Num):
            d = m - p.v.lin if big else p.v.lin - m
            s = I.with_ge(st, d)
            st = s or st
            lower0 = lower0 and st.store.entails_ge(p.v.lin)
        elif isinstance(p, Img) and p.tmpl is not None and isinstance(p.tmpl, Num):
            v = p.tmpl.lin
            for t in elems_in(v):
                L, i = t.args
                off = i - lin(HOLE)
                if off.const is None:
                    continue
                f = m - v if big else v - m
                f = gsubst(f, {HOLE: lin(HOLE) - off})
                if st.store.entails_eq(p.n - length_of(L)) and off.const == 0:
                    new.append((L, ("ge", f)))
            lower0 = lower0 and all(k.sort == "nat" and c >= 0 for k, c in v.t.items()) and v.c >= 0
        elif isinstance(p, Sl) and isinstance(p.src.sort, tuple) and p.src.sort[1] in ("int", "nat"):
            e = Term("elem", p.src, lin(HOLE))
            if p == full(p.src):
                new.append((p.src, ("ge", (m - lin(e)) if big else (lin(e) - m))))
            lower0 = False
        else:
            lower0 = False
    if lower0:
        s = I.with_ge(st, m)
        st = s or st
    if new:
        st = st.copy()
        st.forall = st.forall + tuple(x for x in new if x not in st.forall)
    return st


def elems_in(x, out=None, depth=0):
    if out is None:
        out = []
    if depth > 8:
        return out
    if isinstance(x, Lin):
        for k in x.t:
            elems_in(k, out, depth + 1)
    elif isinstance(x, Term):
        if x.op == "elem" and x not in out:
            out.append(x)
        for a in x.args:
            elems_in(a, out, depth + 1)
    elif isinstance(x, (tuple, frozenset)):
        for a in x:
            elems_in(a, out, depth + 1)
    elif isinstance(x, Seq):
        for p in x.p:
            if isinstance(p, Sl):
                elems_in(p.src, out, depth + 1)
    return out


def b_sum(I, args, kw, st, node, fid):
    out = []
    for s, r in to_list(I, args[0], st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        seq = I.norm_seq(s.heap[r.id].seq, s)
        start = args[1] if len(args) > 1 else kw.get("start", Num(0))
        if isinstance(start, Num) and all(isinstance(p, Item) and isinstance(p.v, Num) for p in seq.p):
            l = start.lin
            for p in seq.p:
                l = l + p.v.lin
            out.append((s, Num(l)))
            continue
        if isinstance(start, Num):
            t = Term("sum", snapshot(seq))
            t.sort = "int"
            out.append((s, Num(lin(t) + start.lin)))
        else:
            # concatenation of lists
            ps = seq_of(start, s).p if seq_of(start, s) is not None else ()
            good = True
            for p in seq.p:
                q = seq_of(p.v, s) if isinstance(p, Item) else None
                if q is None:
                    good = False
                    break
                ps = ps + q.p
            if good:
                out.append(I.new_list(s, I.mk_seq("list", ps, s).p))
            else:
                t = Term("sumlist", snapshot(seq))
                t.sort = ("list", None)
                out.append(I.new_list(s, (full(t),)))
    return out


def b_sorted(I, args, kw, st, node, fid):
    out = []
    for s, r in to_list(I, args[0], st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
        else:
            q = sorted_seq(I, I.norm_seq(s.heap[r.id].seq, s), kw, s, node, fid)
            if isinstance(q, tuple):
                s, q = q
            out.append(I.new_list(s, q.p))
    return out


def b_reversed(I, args, kw, st, node, fid):
    out = []
    for s, r in to_list(I, args[0], st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        q = rev_seq(I.norm_seq(s.heap[r.id].seq, s))
        out.append(I.alloc(s, ItObj("list", ref=None, seq=q, pos=ZERO, prev=None)))
    return out


def rev_seq(seq):
    ps = []
    for p in reversed(seq.p):
        if isinstance(p, Item):
            ps.append(p)
        else:
            t = Term("rev", snapshot(Seq("list", (p,))))
            t.sort = t.args[0].sort
            n = p.length
            ps.append(Sl(t, ZERO, n))
    return Seq("list", ps)


def anyall(is_all):
    def f(I, args, kw, st, node, fid):
        from .interp import f_and, f_or, f_not, Out
        v = args[0]
        s = seq_of(v, st)
        items = [p.v for p in s.p] if s is not None and all(isinstance(p, Item) for p in s.p) else \
            list(v.items) if isinstance(v, Tup) else None
        if items is not None:
            fs = [I.truth(x, st) for x in items]
            g = f_and(*fs) if is_all else f_or(*fs)
            return [(st, TRUE if g == ("T",) else FALSE if g == ("F",) else BoolV(g))]

        def body(x, w):
            return [Out("normal", y) if b == is_all else Out("break", y) for y, b in I.branch(x, I.truth(w, x))]
        out = []
        for o in I.iterate(v, st, body, node, fid):
            if o.kind == "exhaust":
                out.append((o.st, TRUE if is_all else FALSE))
            elif o.kind == "break":
                out.append((o.st, FALSE if is_all else TRUE))
            elif o.kind == "raise":
                out.append((o.st, Exc(o.val)))
        return out
    return f


def b_map(I, args, kw, st, node, fid):
    if len(args) != 2:
        return None
    cur, out = iters(I, args[1:], st, node, fid)
    for s, (it,) in cur:
        out.append(I.alloc(s, ItObj("map", it=it, fn=args[0])))
    return out


def b_filter(I, args, kw, st, node, fid):
    cur, out = iters(I, args[1:], st, node, fid)
    for s, (it,) in cur:
        out.append(I.alloc(s, ItObj("filter", it=it, fn=args[0])))
    return out


def b_print(I, args, kw, st, node, fid):
    return evr(I, st, "print", {"args": args, "kw": kw, "how": "print"}, node, fid, NONE)


def b_open(I, args, kw, st, node, fid):
    path = args[0] if args else kw.get("file")
    mode = args[1] if len(args) > 1 else kw.get("mode", S("r"))
    return do_open(I, path, mode, args[2:], kw, st, node, fid)


def do_open(I, path, mode, rest, kw, st, node, fid):
    m = pc(mode)
    kw = {k: v for k, v in kw.items() if k not in ("file", "mode")}
    for nm, v in zip(("buffering", "encoding", "errors", "newline"), rest):
        kw.setdefault(nm, v)
    t = Term("open", path_term(I, path, st), m if isinstance(m, str) else I.term(mode, st),
             tuple(sorted((k, I.term(v, st)) for k, v in kw.items())))
    return evr(I, st, "open", {"path": path_term(I, path, st), "mode": m, "kw": kw}, node, fid, Sym(t)) \
        + raises(I, st, "open")


def b_setattr(I, args, kw, st, node, fid):
    n = pc(args[1])
    out = []
    if isinstance(n, str):
        for s, ex in I.setattr(args[0], n, args[2], st, node, fid):
            out.append((s, NONE if ex is None else ex))
        return out
    for s, ex in I.ev(st, "setattr", {"obj": args[0], "name": None, "value": args[2], "nameval": args[1]}, node, fid):
        s = s.copy()
        s.attrs[(I.term(args[0], s), I.term(args[1], s))] = args[2]
        out.append((s, NONE if ex is None else ex))
    return out


def b_getattr(I, args, kw, st, node, fid):
    n = pc(args[1])
    if isinstance(n, str):
        return I.getattr(args[0], n, st, node, fid)
    t = Term("getattr", I.term(args[0], st), I.term(args[1], st))
    return [(st, st.attrs.get((I.term(args[0], st), I.term(args[1], st)), Sym(t)))]


def b_exit(I, args, kw, st, node, fid):
    return evr(I, st, "exit", {"args": args}, node, fid, Exc(ExcV("builtins.SystemExit", True, args, origin="exit")))


def b_abs(I, args, kw, st, node, fid):
    if isinstance(args[0], Num):
        return [(s, args[0] if b else Num(-args[0].lin)) for s, b in I.branch(st, ("ge", args[0].lin))]


def b_divmod(I, args, kw, st, node, fid):
    out = []
    for s, a in I.binop(ast.FloorDiv(), args[0], args[1], st, node, fid):
        if isinstance(a, Exc):
            out.append((s, a))
            continue
        for s2, b in I.binop(ast.Mod(), args[0], args[1], s, node, fid):
            out.append((s2, b if isinstance(b, Exc) else Tup([a, b])))
    return out


def b_slice(I, args, kw, st, node, fid):
    from .interp import SliceV
    if len(args) == 1:
        return [(st, SliceV(None, args[0], None))]
    return [(st, SliceV(*(list(args) + [None] * (3 - len(args)))))]


def b_callable(I, args, kw, st, node, fid):
    return [(st, TRUE if isinstance(args[0], (FuncV, Bound, ClsV, ExtV, Meth)) else
             BoolV(("atom", Term("callable", I.term(args[0], st)))))]


def b_ord(I, args, kw, st, node, fid):
    c = pc(args[0])
    if isinstance(c, str) and len(c) == 1:
        return [(st, Num(ord(c)))]
    return [(st, Num(Lin(0, {nat("ord", I.term(args[0], st)): 1})))]


BUILTINS = {
    "len": b_len, "str": b_str, "repr": b_repr, "ascii": b_repr, "int": b_int, "bool": b_bool,
    "isinstance": b_isinstance, "range": b_range, "enumerate": b_enumerate, "zip": b_zip, "iter": b_iter,
    "next": b_next, "list": b_list, "tuple": b_tuple, "set": b_set, "frozenset": b_set, "dict": b_dict,
    "max": lambda *a: minmax(*a, True), "min": lambda *a: minmax(*a, False), "sum": b_sum,
    "sorted": b_sorted, "reversed": b_reversed, "any": anyall(False), "all": anyall(True), "map": b_map,
    "filter": b_filter, "print": b_print, "open": b_open, "setattr": b_setattr, "getattr": b_getattr,
    "exit": b_exit, "quit": b_exit, "abs": b_abs, "divmod": b_divmod, "slice": b_slice, "callable": b_callable,
    "ord": b_ord,
}


# ------------------------------------------------------------------ standard library

def first(I, args, kw, st, node, fid):
    return [(st, args[0])]


def e_cast(I, args, kw, st, node, fid):
    return [(st, args[1])]


def e_partial(I, args, kw, st, node, fid):
    from .interp import PartialV
    return [(st, PartialV(args[0], args[1:], kw))]


def e_suppress(I, args, kw, st, node, fid):
    return [(st, Sym(Term("suppress", *[a.cls if isinstance(a, ClsV) else a.q if isinstance(a, ExtV) else "?" for a in args])))]


def e_nullctx(I, args, kw, st, node, fid):
    return [(st, Sym(Term("nullctx", *args)))]


def e_logger(I, args, kw, st, node, fid):
    return [(st, Sym(Term("logger", I.term(args[0], st) if args else "root")))]


def mkpath(t):
    if t.sort is None:
        t.sort = "path"
    return Sym(t)


def e_path(I, args, kw, st, node, fid):
    if not args:
        return [(st, mkpath(Term("path", Term("s", "."))))]
    v = args[0]
    t = I.term(v, st)
    if t.op == "strof" and isinstance(t.args[0], Term):
        p = t.args[0]
    elif t.sort == "path":
        p = t
    else:
        p = Term("path", t)
    for b in args[1:]:
        p = join2(p, I.term(b, st))
    return [(st, mkpath(p))]


def join2(a, b):
    if b.op == "strof" and isinstance(b.args[0], Term):
        b = b.args[0]
    t = Term("join", a, b)
    t.sort = "path"
    return t


def joinpath(I, a, b, st):
    return mkpath(join2(path_term(I, a, st), I.term(b, st)))


def e_osjoin(I, args, kw, st, node, fid):
    p = path_term(I, args[0], st)
    for b in args[1:]:
        p = join2(p, I.term(b, st))
    return [(st, str_of(p))]


def str_of(t):
    x = Term("strof", t)
    x.sort = "str"
    return str_term(x)


def e_basename(I, args, kw, st, node, fid):
    t = Term("attr", path_term(I, args[0], st), "name")
    t.sort = "str"
    return [(st, str_term(t))]


def e_dirname(I, args, kw, st, node, fid):
    t = Term("attr", path_term(I, args[0], st), "parent")
    t.sort = "path"
    return [(st, str_of(t))]


def pathq(op):
    def f(I, args, kw, st, node, fid):
        return [(st, BoolV(("atom", Term(op, path_term(I, args[0], st)))))]
    return f


def e_access(I, args, kw, st, node, fid):
    m = args[1] if len(args) > 1 else kw.get("mode")
    return [(st, BoolV(("atom", Term("access", path_term(I, args[0], st), I.term(m, st)))))]


def rounded(how):
    def f(I, args, kw, st, node, fid):
        v = args[0]
        if isinstance(v, Num):
            return [(st, v)]
        c = pc(v)
        if isinstance(c, float) and math.isfinite(c):
            return [(st, Num(lin(getattr(math, how)(c))))]
        if not (isinstance(v, Sym) and isinstance(v.term, Term) and v.term.op == "div"):
            return None
        n, k = lin(v.term.args[0]), lin(v.term.args[1]).const
        if k is None or k < 2 or int(k) != k:
            return None
        if how == "trunc" and not st.store.entails_ge(n):
            return None
        k = int(k)
        up = how == "ceil"
        m = n + (k - 1) if up and k != 2 else n
        s, q = quotient(I, st, m, k)
        if s is None:
            return []
        return [(s, Num(n - lin(q) if up and k == 2 else lin(q)))]
    return f


def e_isinf(I, args, kw, st, node, fid):
    v = args[0]
    if isinstance(v, Num):
        return [(st, FALSE)]
    c = pc(v)
    if isinstance(c, float):
        return [(st, TRUE if math.isinf(c) else FALSE)]
    return [(st, BoolV(("atom", Term("isinf", I.term(v, st)))))]


def e_replacefn(I, args, kw, st, node, fid):
    """dataclasses.replace"""
    v = args[0]
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), IObj):
        o = st.heap[v.id]
        f = dict(o.fields)
        f.update(kw)
        return [I.alloc(st, IObj(o.cls, f))]
    return None


def e_print_stdout(I, args, kw, st, node, fid):
    return evr(I, st, "print", {"args": args, "kw": {"end": S("")}, "how": "write"}, node, fid, NONE)


def e_stderr(I, args, kw, st, node, fid):
    return evr(I, st, "stderr", {"args": args}, node, fid, NONE)


def e_noop(I, args, kw, st, node, fid):
    return [(st, NONE)]


def e_textwrap(kind):
    def f(I, args, kw, st, node, fid):
        t = Term("textwrap", kind, *[I.term(a, st) for a in args], *[Term("kw", k, I.term(v, st)) for k, v in sorted(kw.items())])
        t.sort = "str"
        return [I.value_of(t, st)]
    return f


def e_readstdin(I, args, kw, st, node, fid):
    t = Term("read", Term("ext", "sys.stdin"))
    t.sort = "str"
    return evr(I, st, "read", {"path": Term("ext", "sys.stdin"), "how": "stdin", "kw": {}}, node, fid,
               lambda s: I.value_of(t, s))


def e_islice(I, args, kw, st, node, fid):
    from .interp import SliceV
    out = []
    for s, r in to_list(I, args[0], st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        sl = SliceV(None, args[1], None) if len(args) == 2 else SliceV(args[1], args[2], args[3] if len(args) > 3 else None)
        from .lib_list import getitem
        out += getitem(I, r, sl, s, node, fid)
    return out


def e_product_const(I, args, kw, st, node, fid):
    return None


def e_chainfrom(I, args, kw, st, node, fid):
    out = []
    for s, r in to_list(I, args[0], st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        seq = I.norm_seq(s.heap[r.id].seq, s)
        if all(isinstance(p, Item) for p in seq.p):
            out += e_chain(I, [p.v for p in seq.p], {}, s, node, fid)
        else:
            t = Term("flat", snapshot(seq))
            t.sort = ("list", None)
            out.append(make_iter(I, I.new_list(s, (full(t),))[1], I.new_list(s, (full(t),))[0], node, fid)[0]
                       if False else new_it(I, s, t))
    return out


def new_it(I, st, t):
    return I.alloc(st, ItObj("list", ref=None, seq=Seq("list", (full(t),)), pos=ZERO, prev=None))


EXT = {
    "itertools.chain": e_chain, "itertools.zip_longest": e_ziplong, "itertools.islice": e_islice,
    "itertools.chain.from_iterable": e_chainfrom,
    "functools.partial": e_partial, "typing.cast": e_cast, "contextlib.suppress": e_suppress,
    "contextlib.nullcontext": e_nullctx, "logging.getLogger": e_logger,
    "pathlib.Path": e_path, "pathlib.PurePath": e_path, "pathlib.PosixPath": e_path,
    "os.path.join": e_osjoin, "os.path.basename": e_basename, "os.path.dirname": e_dirname,
    "os.fspath": lambda I, a, kw, st, n, f: [(st, str_of(path_term(I, a[0], st)))],
    "os.path.exists": pathq("exists"), "os.path.isfile": pathq("is_file"), "os.path.isdir": pathq("is_dir"),
    "os.path.lexists": pathq("exists"), "os.access": e_access,
    "math.floor": rounded("floor"), "math.ceil": rounded("ceil"), "math.trunc": rounded("trunc"), "math.isinf": e_isinf,
    "dataclasses.replace": e_replacefn, "copy.copy": None, "copy.deepcopy": None,
    "sys.stdout.write": e_print_stdout, "sys.stderr.write": e_stderr, "sys.exit": b_exit, "os._exit": b_exit,
    "sys.stdout.flush": e_noop, "sys.stderr.flush": e_noop, "sys.stdin.read": e_readstdin,
    "typing.TypeVar": lambda I, a, kw, st, n, f: [(st, Sym(Term("typevar", I.term(a[0], st))))],
}


def e_copy(I, args, kw, st, node, fid):
    v = args[0]
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, LObj):
            return [I.new_list(st, o.seq.p)]
        return [I.alloc(st, o)]
    return [(st, v)]


EXT["copy.copy"] = e_copy
EXT["copy.deepcopy"] = e_copy


# ------------------------------------------------------------------ methods of opaque objects

def obj_method(I, obj, name, args, kw, st, node, fid):
    t = I.term(obj, st)
    h = I.cfg.meth.get(name)
    if h is not None:
        r = h(I, obj, args, kw, st, node, fid)
        if r is not None:
            return r
    if isinstance(obj, ExtV):
        return call_ext(I, obj.q + "." + name, args, kw, st, node, fid)
    if t.op == "open":
        return file_method(I, t, name, args, kw, st, node, fid)
    if t.op == "logger" or (t.op == "ext" and t.args[0] == "logging"):
        r = log_method(I, t, name, args, kw, st, node, fid)
        if r is not None:
            return r
    if t.op == "ext" and t.args[0] in ("sys.stdout", "sys.stderr", "sys.stdin"):
        return call_ext(I, t.args[0] + "." + name, args, kw, st, node, fid)
    if name == "decode" and t.op == "bytes":
        r = Term("read", t.args[0])
        r.sort = "str"
        out = []
        for s, ex in I.ev(st, "decode", {"path": t.args[0], "args": args, "kw": kw}, node, fid):
            out.append((s, ex) if ex is not None else I.value_of(r, s))
        return out
    r = path_method(I, t, name, args, kw, st, node, fid)
    if r is not None:
        return r
    if name == "print" and t.op == "ecall" and "onsole" in t.args[0]:
        return evr(I, st, "print", {"args": args, "kw": kw, "how": "console", "console": t}, node, fid, NONE)
    if name in ("print_help", "print_usage"):
        return evr(I, st, "print", {"args": args, "kw": kw, "how": "parser"}, node, fid, NONE)
    if name in ("error", "exit") and t.op == "ecall" and "rgumentParser" in t.args[0]:
        return b_exit(I, args, kw, st, node, fid)
    if name == "read" and not args and (t.sort == "stream" or t.op in ("ext", "var")):
        r = Term("read", t)
        r.sort = "str"
        return evr(I, st, "read", {"path": t, "how": "stream", "kw": kw}, node, fid, lambda s: I.value_of(r, s)) \
            + raises(I, st, "read")
    m = Term("mcall", t, name, *[I.term(a, st) for a in args],
             *[Term("kw", k, I.term(v, st)) for k, v in sorted(kw.items())])
    q = "." + name
    out = []
    for s, ex in I.ev(st, "method", {"obj": obj, "name": name, "args": args, "kw": kw, "term": m}, node, fid):
        if ex is not None:
            out.append((s, ex))
        else:
            out += I.opaque_result(m, s, node, fid, q, [obj] + list(args), kw)
    return out


def log_method(I, t, name, args, kw, st, node, fid):
    if name in LOG_METHODS:
        return evr(I, st, "log", {"level": name, "args": args, "kw": kw}, node, fid, NONE)
    if name == "setLevel":
        s = st.copy()
        s.attrs[(t, "level")] = args[0]
        return evr(I, s, "setlevel", {"logger": t, "value": args[0]}, node, fid, NONE)
    if name == "getEffectiveLevel":
        v = st.attrs.get((t, "level"))
        if isinstance(v, Num) and st.store.entails_ne(v.lin):
            return [(st, v)]
        n = nat("efflevel", t)
        return [(st, Num(lin(n)))]
    if name == "isEnabledFor":
        return [(st, BoolV(("atom", Term("logenabled", t, I.term(args[0], st)))))]
    if name in ("addHandler", "removeHandler", "addFilter", "removeFilter"):
        return evr(I, st, "setattr", {"obj": Sym(t), "name": name, "value": args[0]}, node, fid, NONE)
    return None


def path_method(I, t, name, args, kw, st, node, fid):
    if name in ("exists", "is_file", "is_dir") and not args:
        return [(st, BoolV(("atom", Term(name, t))))]
    if name == "read_text":
        r = Term("read", t)
        r.sort = "str"
        kw = dict(kw)
        for nm, v in zip(("encoding", "errors", "newline"), args):
            kw.setdefault(nm, v)
        return evr(I, st, "read", {"path": t, "how": "read_text", "kw": kw}, node, fid, lambda s: I.value_of(r, s)) \
            + raises(I, st, "read_text")
    if name == "read_bytes":
        return evr(I, st, "read", {"path": t, "how": "read_bytes", "kw": kw}, node, fid, Sym(Term("bytes", t))) \
            + raises(I, st, "read_bytes")
    if name in ("write_text", "write_bytes"):
        kw = dict(kw)
        for nm, v in zip(("data", "encoding", "errors", "newline"), args):
            kw.setdefault(nm, v)
        data = kw.pop("data", None)
        return evr(I, st, "write", {"path": t, "how": name, "data": data, "kw": kw}, node, fid,
                   Num(Lin(0, {nat("written", t): 1}))) + raises(I, st, name)
    if name == "open":
        return do_open(I, Sym(t), args[0] if args else kw.get("mode", S("r")), args[1:], kw, st, node, fid)
    if name in FS_WRITE and not (name == "replace" and len(args) == 2):
        return evr(I, st, "fs", {"op": name, "obj": t, "args": args, "kw": kw}, node, fid,
                   Sym(Term("fs", name, t, *[I.term(a, st) for a in args]))) + raises(I, st, name)
    if name == "joinpath":
        p = t
        for a in args:
            p = join2(p, I.term(a, st))
        return [(st, mkpath(p))]
    if name in ("as_posix", "__fspath__"):
        return [(st, str_of(t))]
    if name in ("with_name", "with_suffix", "resolve", "absolute", "expanduser", "relative_to", "with_stem"):
        r = Term("pathop", name, t, *[I.term(a, st) for a in args])
        r.sort = "path"
        return I.opaque_result(r, st, node, fid, "path." + name, args, kw, "path")
    if name == "isatty":
        return [(st, BoolV(("atom", Term("isatty", t))))]
    return None


def file_method(I, t, name, args, kw, st, node, fid):
    path = t.args[0]
    okw = dict(t.args[2])
    if name == "read":
        if isinstance(t.args[1], str) and "b" in t.args[1]:
            return evr(I, st, "read", {"path": path, "how": "fileb", "kw": okw}, node, fid, Sym(Term("bytes", path)))
        r = Term("read", path)
        r.sort = "str"
        return evr(I, st, "read", {"path": path, "how": "file", "kw": okw}, node, fid, lambda s: I.value_of(r, s)) \
            + raises(I, st, "read")
    if name in ("write", "writelines"):
        return evr(I, st, "write", {"path": path, "how": "file." + name, "data": args[0] if args else None, "kw": okw,
                                    "mode": t.args[1]}, node, fid, Num(Lin(0, {nat("written", path): 1}))) + raises(I, st, "write")
    if name in ("readlines", "__iter__"):
        r = Term("readlines", path)
        r.sort = ("list", "str")
        return evr(I, st, "read", {"path": path, "how": "readlines", "kw": okw}, node, fid, lambda s: I.value_of(r, s))
    if name in ("close", "flush", "__enter__", "__exit__"):
        return [(st, Sym(t))]
    r = Term("mcall", t, name, *[I.term(a, st) for a in args])
    return I.opaque_result(r, st, node, fid, "file." + name, args, kw)
