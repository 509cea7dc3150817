"""C01-C08, C10: obligations over the abstract runs of the command line tool."""
import ast

from ..interp import Exc
from ..lib_list import eq_f
from ..lib_ext import pc
from ..terms import Term, Lin, lin
from ..values import *
from .cli import Cli, sterm
from .util import walk, ops, whole

STDIN = Term("ext", "sys.stdin")
DOCOPS = ("R", "U", "read")
KNOWN_OPS = {"attr", "join", "elem", "var", "strof", "s", "cat", "sliced", "path", "c", "int", "pathop", "ext"}


def parts(path):
    """x for x.parent / x.name"""
    a, b = path.args[0], path.args[1]
    b = whole(b) if isinstance(b, V) else b
    if isinstance(b, Term) and b.op == "path":
        b = b.args[0]
    if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == "attr" and a.args[0] is b.args[0] \
            and (a.args[1], b.args[1]) == ("parent", "name"):
        return a.args[0]
    return None


class Run:
    """one abstract run of the tool with the observations the properties need"""

    def __init__(self, prog, rep, mode, budget=2, fail=True):
        self.rep = rep
        self.mode = mode
        self.fail = fail
        entry = "__main__" if prog.modules["markflow.__main__"].names.get("__main__") else "main"
        self.entry = entry
        self.local = []            # (rule, status, where, msg, trail)
        keys = ("FAIL", "D", "bad", "pend", "deliv") if mode == "fix" else ()
        hooks = {"on_event": self.event}
        if mode == "fix":
            hooks["on_backedge"] = self.backedge
        self.cli = Cli(prog, mode=mode, budget=budget, entry=entry, ghost_keys=keys, hooks=hooks)
        self.I = self.cli.I
        self.st0 = self.cli.st0

    def go(self):
        self.res = self.cli.run()
        self.rep.use(self.I)
        self.rep.stats["outcomes"] += len(self.res)
        return self

    def ob(self, rule, status, where, msg, st):
        self.local.append((rule, status, where, msg, self.trail(st)))

    def trail(self, st):
        return tuple(f"{e[0]} {e[1:]}"[:200] for e in st.ghost.get("h", ()))

    # ---- option values
    def opt(self, name, st):
        d = self.cli.roles.get(name)
        if d is None:
            return None
        return st.attrs.get((self.cli.ns, d))

    def known(self, name, st):
        """True/False/None for a flag or 'given?' for an optional value"""
        v = self.opt(name, st)
        if v is None:
            return False
        if isinstance(v, BoolV):
            return self.I.decide(v.f, st)
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Ref):
            return True
        return True

    def paths(self):
        return self.cli.role("paths")

    # ---- documents
    def doc_of(self, text):
        """path term a text was read from (exactly), or None"""
        if text.op == "read":
            return text.args[0]
        return None

    def expected(self, p, st):
        """(path term the result of input p must go to, kind)"""
        if self.known("odir", st):
            d = self.cli.role("odir")
            nm = Term("attr", p, "name")
            t = Term("join", d, nm)
            return t, "dir"
        if self.known("ofiles", st):
            return None, "files"
        return p, "same"

    def target(self, p, path, st):
        """is path the designated destination of input p?  True/False/None"""
        exp, kind = self.expected(p, st)
        if kind == "files":
            f = self.cli.role("ofiles")
            if path.op == "elem" and path.args[0] is f:
                if p.op == "elem" and p.args[0] is self.paths():
                    d = lin(path.args[1]) - lin(p.args[1])
                    if st.store.entails_eq(d):
                        return True
                    if st.store.entails_ne(d):
                        return False
                    return None
                return None
            if ops(path) & {"sorted", "reversed", "set", "shuffled"} and ops(path) <= KNOWN_OPS | {"sorted", "reversed", "set", "lst", "list"}:
                return False          # another order than the one given
            return False if self.understood(path) else None
        if path is exp or self.same_path(path, exp, st):
            return True
        return False if self.understood(path) else None

    def in_place(self, p, st):
        """is the destination of input p known to be p itself?  None: not understood"""
        if not self.known("odir", st) and not self.known("ofiles", st):
            return True
        r = False
        for t, v in st.facts.items():
            if t.op == "eq":
                for a, b in (t.args, t.args[::-1]):
                    if isinstance(a, Term) and isinstance(b, Term) and self.same_path(a, p, st) and \
                            self.target(p, b, st) is True and v:
                        return True
                continue
            ts = walk(t)
            if any(x is self.cli.role(k) for k in ("odir", "ofiles") for x in ts) and any(self.same_path(x, p, st) for x in ts if x.op == p.op):
                if {x.op for x in ts} & OBSCURE or t.op in ("phi", "fresh"):
                    r = None
        return r

    def same_path(self, a, b, st):
        if a is b:
            return True
        if a.op == b.op == "elem" and a.args[0] is b.args[0]:
            return st.store.entails_eq(lin(a.args[1]) - lin(b.args[1]))
        if a.op == b.op and len(a.args) == len(b.args):
            return all(x == y or (isinstance(x, Term) and isinstance(y, Term) and self.same_path(x, y, st))
                       for x, y in zip(a.args, b.args))
        return False

    def understood(self, path):
        return ops(path) <= KNOWN_OPS and "var" in ops(path)

    # ---- events
    def event(self, cli, I, st, kind, data, node, fid):
        w = I.loc(node, fid)
        if kind == "read":
            p = data["path"]
            st = self.add(st, ("read", p, self.encs(I, data, st)))
            self.on_read(I, st, p, data, w)
            return self.may_fail(st, p, "builtins.Exception", w)
        if kind == "decode":
            self.decoded(I, st, data, w)
            return None
        if kind == "R":
            st = self.add(st, ("R", data["text"]))
            self.width(I, st, data, w, "reformat")
            p = data["text"]
            pend = st.ghost.get("pend", ())
            st = st.setghost(pend=pend + (p,))
            return [(st, None)]
        if kind == "Rfail":
            st = self.add(st, ("Rfail", data["text"], data["exc"]))
            st = st.setghost(FAIL=True, failed=data["text"])
            if data["exc"] == "ReformatInconsistentException":
                st = st.setghost(inc=data["text"])
            return [(st, None)]
        if kind == "U":
            self.width(I, st, data, w, "single pass")
            return None
        if kind == "write":
            return self.on_write(I, st, data, w)
        if kind == "open":
            return self.on_open(I, st, data, w)
        if kind == "fs":
            self.on_fs(I, st, data, w)
            return None
        if kind == "print":
            return self.on_print(I, st, data, w)
        if kind == "opaque" and data["q"].startswith("logging."):
            self.on_logging(I, st, data, w)
        if kind == "setattr" and data.get("name") in ("addHandler",):
            self.on_handler(I, st, data["value"], w)
        return None

    def add(self, st, e):
        if self.mode == "fix":
            return st
        return st.setghost(h=st.ghost.get("h", ()) + (e,))

    def may_fail(self, st, what, cls, w):
        if not self.fail:
            return [(st, None)]
        f = self.add(st, ("fail", what, w)).setghost(FAIL=True)
        return [(st, None), (f, Exc(ExcV(cls, exact=False, origin=w, nots=self.cli.own())))]

    def encs(self, I, data, st):
        out = {}
        for k, v in (data.get("kw") or {}).items():
            c = v
            if isinstance(v, V):
                c = pc(v)
                if c is None and v != NONE:
                    c = repr(I.term(v, st))
            elif isinstance(v, Term):
                c = v.args[0] if v.op == "s" else (None if repr(v) == "c('None')" else repr(v))
            out[k] = c
        if data.get("how") in ("read_bytes", "write_bytes", "fileb"):
            out["binary"] = True
        return tuple(sorted((k, v) for k, v in out.items() if k in ("encoding", "errors", "newline", "binary")))

    # C03 refusal before reading
    def on_read(self, I, st, p, data, w):
        if self.known("ofiles", st):
            f, ps = self.cli.role("ofiles"), self.paths()
            d = length_of(f) - length_of(ps)
            if st.store.entails_eq(d):
                s = True
            else:
                s = False
                try:
                    st.store.add_ne(d)
                except Exception:
                    s = None
            self.ob("C03.refused", s, w, "a document is read although the numbers of inputs and output files may differ", st)
        self.codec("read", I, st, data, w)

    def codec(self, op, I, st, data, w):
        e = dict(self.encs(I, data, st))
        if data["path"] is STDIN or e.get("binary") and op == "read":
            return                # its text goes to no file; decoded later
        if e.get("binary"):
            e.update(self.encoded(I, st, data))
        self.codecs.setdefault(op, {}).setdefault(self.normenc(e), w)
        bad = e.get("errors") not in (None, "strict")
        self.ob("C10.strict", False if bad else True, w, f"{op} with errors={e.get('errors')!r}", st)
        if op == "write":
            nl = e.get("newline")
            self.ob("C10.newline", False if nl in ("\r", "\r\n") else True, w, f"write with newline={nl!r}", st)
            m = data.get("mode", "w")
            whole = isinstance(m, str) and bool(set(m) & set("wx"))
            if not whole and (not isinstance(m, str) or self.truncates()):
                whole = None
            self.ob("C10.whole", whole, w, f"write to a file opened with mode {m!r}: what the file held before may stay", st)

    def encoded(self, I, st, data):
        """how the bytes that are written were made from text"""
        v = data.get("data")
        t = I.term(v, st) if isinstance(v, V) else v
        if not isinstance(t, Term) or t.op != "encode" and not (t.op == "mcall" and t.args[1] == "encode"):
            return {}
        out = {"encoding": "utf-8"}
        names = ["encoding", "errors"]
        for a in t.args[1 if t.op == "encode" else 2:]:
            k, a = (a.args[0], a.args[1]) if isinstance(a, Term) and a.op == "kw" else (names.pop(0) if names else None, a)
            out[k] = a.args[0] if isinstance(a, Term) and a.op == "s" else repr(a)
        return out

    def decoded(self, I, st, data, w):
        names = ["encoding", "errors"]
        kw = {"encoding": S("utf-8")}
        kw.update(zip(names, data["args"]))
        kw.update(data["kw"])
        self.codec("read", I, st, {"path": data["path"], "kw": kw, "how": "decode"}, w)

    def truncates(self):
        return any(isinstance(n, ast.Attribute) and n.attr == "truncate" for m in self.cli.prog.modules.values()
                   for n in ast.walk(m.tree))

    def normenc(self, e):
        x = e.get("encoding")
        if isinstance(x, str):
            x = x.lower().replace("_", "-").replace("utf8", "utf-8")
            if x == "locale":
                x = None
        return x

    codecs = None

    # C07
    def width(self, I, st, data, w, what):
        wv = data["wv"]
        d = self.cli.roles.get("line_length")
        if d is None:
            self.ob("C07.width", None, w, "no line length option found", st)
            return
        at = Term("attr", self.cli.ns, d)
        n = lin(at)
        if isinstance(wv, Const) and isinstance(wv.v, float):
            import math
            inf = math.isinf(wv.v) and wv.v > 0
            s = st.store.entails_ge(-n) if inf else False
            if inf and not s:
                # unlimited although the requested length may be positive
                s = False if I.with_ge(st, n - 1) is not None else True
            self.ob("C07.width", s, w, f"{what}: unlimited width where the requested length may be positive"
                    if inf else f"{what}: width {wv}", st)
            return
        if isinstance(wv, Num):
            if st.store.entails_eq(wv.lin - n):
                low = self.I.with_ge(st, -n)
                s = st.store.entails_ge(n - 1)
                self.ob("C07.width", True if s else False if low is not None else None, w,
                        f"{what}: a requested length below 1 is passed on instead of 'unlimited'", st)
                return
            if wv.lin.const is not None or set(walk(wv.lin)) <= {at, self.cli.ns}:
                self.ob("C07.width", False, w, f"{what}: width is {wv}, not the requested line length", st)
                return
            self.ob("C07.width", None, w, f"{what}: width is {wv}", st)
            return
        t = data["width"]
        if t.op == "default":
            self.ob("C07.width", False, w, f"{what}: no width passed, the requested line length is ignored", st)
            return
        self.ob("C07.width", None, w, f"{what}: width {t}", st)

    # documents written
    def classify(self, I, st, v):
        """(kind, term): 'R'/'U'/'read' exact document text, 'mod' contains one, 'other'"""
        t = whole(v) if isinstance(v, V) else v
        if t is None:
            t = I.term(v, st)
        if t.op == "encode" or (t.op == "mcall" and t.args[1] == "encode"):
            t = t.args[0]
        if t.op in DOCOPS:
            return t.op, t
        inner = {x.op for x in walk(t)} & set(DOCOPS)
        if inner:
            return "mod", t
        return "other", t

    def renders_ok(self, st):
        return self.known("renders", st) is True and st.ghost.get("inc") is not None

    def on_open(self, I, st, data, w):
        m = data["mode"]
        if not isinstance(m, str) or any(c in m for c in "wax+"):
            self.c01(I, st, w, f"open({data['path']}, {m!r})")
        return self.may_fail(st, data["path"], "builtins.OSError", w)

    def on_fs(self, I, st, data, w):
        self.c01(I, st, w, f"file system operation {data['op']}")
        self.ob("C03.target", None, w, f"file system operation {data['op']}", st)

    def c01(self, I, st, w, what):
        if self.known("renders", st) is True and st.ghost.get("inc") is not None:
            self.ob("C01.nowrite", True, w, "diagnostic render", st)
            return
        k = self.known("check", st)
        self.ob("C01.nowrite", k is False, w, f"{what} is reachable in check mode", st)

    def on_write(self, I, st, data, w):
        path = data["path"]
        v = data["data"]
        k, t = self.classify(I, st, v) if v is not None else ("other", Term("none"))
        render = k == "U" or (k == "mod" and "U" in ops(t) and "R" not in ops(t))
        st2 = self.add(st, ("write", path, t))
        if isinstance(data["how"], str) and data["how"].startswith("file."):
            pass
        self.c01(I, st, w, f"write to {path}")
        self.codec("write", I, st, data, w)
        if render:
            self.ob("C02.render", self.renders_ok(st), w, "a single-pass result is written although renders were not requested or the consistency check did not fail", st)
            p = self.origin(t)
            if self.designated(path, st):
                self.ob("C02.render", False, w, f"a single-pass result is written to the destination {path}", st)
            if p is not None and (self.known("odir", st) or self.known("ofiles", st)):
                same = self.same_path(path, p, st)
                self.ob("C03.input", not same, w, f"render written over input {p}", st)
            return self.may_fail(st2, path, "builtins.Exception", w)
        if k == "R":
            src = t.args[0]
            p = self.doc_of(src)
            if p is None:
                ok = False if ("read" in ops(src)) else None
                self.ob("C02.text", ok, w, f"the text written is the reformat of {src}, not of a document as read", st)
            else:
                self.ob("C02.text", True, w, "", st)
                tg = self.target(p, path, st)
                self.ob("C03.target", tg, w, f"result of {p} is written to {path}", st)
        elif k in ("mod", "read"):
            self.ob("C02.text", False, w, f"the text written is {str(t)[:200]}, not the checked reformat", st)
        elif self.designated(path, st):
            self.ob("C02.text", False if t.op in ("s", "none") else None, w, f"{t} written to a document", st)
        f = st.ghost.get("failed")
        if f is not None:
            p = self.doc_of(f)
            if p is not None and self.target(p, path, st) is True:
                self.ob("C04.nowrite", False, w, f"the destination of {p} is written although formatting it failed", st)
        if k == "R":
            st2 = self.delivered(I, st2, t, path)
        return self.may_fail(st2, path, "builtins.Exception", w)

    def settled(self, text, st):
        """is the document known to be its own reformatted text, or was something compared on the way that may tell?"""
        for t, v in st.facts.items():
            if isinstance(t, Term) and any(x.op == "R" and x.args[0] is text for x in walk(t)) and any(x is text for x in t.args):
                return True
        return False

    def designated(self, path, st):
        if path.op == "join" and parts(path) is not None:
            path = parts(path)
        if path.op == "elem" and path.args[0] in (self.paths(), self.cli.role("ofiles")):
            return True
        return path.op == "join" and path.args[0] is self.cli.role("odir")

    def origin(self, t):
        for x in walk(t):
            if x.op == "read":
                return x.args[0]
        return None

    def on_print(self, I, st, data, w):
        args = data["args"]
        kw = data["kw"]
        how = data["how"]
        f = kw.get("file")
        if f is not None and f != NONE:
            ft = I.term(f, st)
            if ft.op == "ext" and ft.args[0] == "sys.stderr":
                return None
            if ft.op == "open":
                pth = ft.args[0]
                return self.on_write(I, st, {"path": pth, "how": "print", "data": args[0] if args else None,
                                             "kw": dict(ft.args[2])}, w)
            if not (ft.op == "ext" and ft.args[0] == "sys.stdout"):
                return None
        if how == "console":
            ct = data.get("console")
            if any(isinstance(a, Term) and a.op == "kw" and a.args[0] == "stderr" and repr(a.args[1]) == "c('True')" for a in ct.args):
                return None
        ks = [self.classify(I, st, a) for a in args]
        end = kw.get("end", S("\n"))
        sep = kw.get("sep", S(" "))
        st2 = self.add(st, ("print", how, tuple(t for _, t in ks), pc(end), pc(sep), w))
        if self.mode == "fix":
            st2 = st2.setghost(out=st.ghost.get("out", ()) + ((how, tuple(t for _, t in ks), pc(end), w),)
                               if st.ghost.get("out", ()) is not None else None)
        for k, t in ks:
            o = ops(t)
            if "U" in o and k in ("U", "mod"):
                self.ob("C02.render", self.renders_ok(st), w, "a single-pass result is printed although renders were not requested or the consistency check did not fail", st)
            elif k == "R" and self.doc_of(t.args[0]) is None and "read" in ops(t.args[0]):
                self.ob("C02.text", False, w, f"the text printed is the reformat of {t.args[0]}", st)
            elif k == "read" and how in ("print", "write") and self.known("check", st) is False and self.doc_of(t) is STDIN \
                    and not self.settled(t, st):
                self.ob("C02.text", False, w, "the text printed is the document as read", st)
            elif k == "mod" and how in ("print", "write") and "R" in o:
                if any(x.op == "R" and self.doc_of(x.args[0]) is STDIN for x in walk(t)) and self.known("check", st) is False:
                    self.ob("C02.text", False, w, f"the text printed is {str(t)[:200]}, not the checked reformat", st)
            elif k == "R":
                self.ob("C02.text", True, w, "", st)
        return [(st2, None)]

    # logging to stdout (C08)
    def on_logging(self, I, st, data, w):
        q = data["q"]
        if q == "logging.basicConfig":
            kw = data["kw"]
            h = kw.get("handlers")
            if h is not None:
                seq = None
                if isinstance(h, Ref) and isinstance(st.heap.get(h.id), LObj):
                    seq = st.heap[h.id].seq.p
                elif isinstance(h, Tup):
                    seq = [Item(x) for x in h.items]
                if seq is None or not all(isinstance(p, Item) for p in seq):
                    self.ob("C08.log", None, w, "logging handlers not understood", st)
                else:
                    for p in seq:
                        self.on_handler(I, st, p.v, w)
            elif "stream" in kw:
                t = I.term(kw["stream"], st)
                self.ob("C08.log", not (t.op == "ext" and t.args[0] == "sys.stdout"), w, f"log stream {t}", st)
            else:
                self.ob("C08.log", True, w, "", st)
        elif q.startswith("logging.") and q.endswith("Handler"):
            pass

    def on_handler(self, I, st, v, w):
        t = I.term(v, st)
        if t.op == "ecall":
            kws = {a.args[0]: a.args[1] for a in t.args[1:] if isinstance(a, Term) and a.op == "kw"}
            pos = [a for a in t.args[1:] if not (isinstance(a, Term) and a.op == "kw")]
            if t.args[0] == "rich.logging.RichHandler":
                c = kws.get("console", pos[1] if len(pos) > 1 else None)
                if c is None:
                    self.ob("C08.log", False, w, "log records go to STDOUT (RichHandler without a console writes there)", st)
                elif c.op == "ecall" and c.args[0] == "rich.console.Console":
                    k2 = {a.args[0]: a.args[1] for a in c.args[1:] if isinstance(a, Term) and a.op == "kw"}
                    err = repr(k2.get("stderr")) == "c('True')"
                    fl = k2.get("file")
                    if fl is not None and fl.op == "ext" and fl.args[0] == "sys.stderr":
                        err = True
                    if fl is None or fl.op == "ext":
                        self.ob("C08.log", err, w, "log records go to STDOUT", st)
                    else:
                        self.ob("C08.log", None, w, f"console on {fl}", st)
                else:
                    self.ob("C08.log", None, w, f"handler console {c}", st)
                return
            if t.args[0] == "logging.StreamHandler":
                s = pos[0] if pos else kws.get("stream")
                self.ob("C08.log", not (s is not None and s.op == "ext" and s.args[0] == "sys.stdout"), w, "log records go to STDOUT", st)
                return
            if t.args[0] in ("logging.NullHandler", "logging.FileHandler"):
                self.ob("C08.log", True, w, "", st)
                return
        self.ob("C08.log", None, w, f"handler {t}", st)

    # ---- delivery bookkeeping (fix mode)
    def delivered(self, I, st, t, path):
        p = self.doc_of(t.args[0])
        if p is None or self.mode != "fix":
            return st
        if self.target(p, path, st) is True:
            return st.setghost(deliv=st.ghost.get("deliv", ()) + (t.args[0],))
        return st

    def same(self, st, text):
        """does the reformatted text equal the text read?  True/False/None"""
        a = Seq("str", (full(sterm("R", text)),))
        b = Seq("str", (full(text),))
        return self.I.decide(eq_f(self.I, a, b, st), st)

    def settle(self, st):
        """fix mode: account for the documents reformatted since the last settlement"""
        pend = st.ghost.get("pend", ())
        if not pend:
            return st
        n = st.cells.get(("ghost", "n"), Num(lin(0)))
        D = st.ghost.get("D")
        bad = st.ghost.get("bad")
        deliv = st.ghost.get("deliv", ())
        dwhy = st.ghost.get("dwhy")
        for text in pend:
            p = self.doc_of(text)
            if p is None or p.op != "elem" or p.args[0] is not self.paths():
                if p is STDIN:
                    pass
                else:
                    bad = bad or "order"
            elif not (isinstance(n, Num) and st.store.entails_eq(lin(p.args[1]) - n.lin)):
                bad = bad or "order"
            if isinstance(n, Num):
                n = Num(n.lin + 1)
            sm = self.same(st, text)
            if sm is False:
                D = "Y"
            elif sm is None:
                D = "Y" if D == "Y" else "?"
            ok = text in deliv
            if not ok and sm is True and p is not None:
                ok = self.in_place(p, st) is True
            if not ok and self.known("check", st) is not True and p is not STDIN:
                bad = bad or "undelivered"
        s = st.copy()
        s.cells[("ghost", "n")] = n
        s.ghost.update(pend=(), deliv=(), D=D, bad=bad)
        return s

    def backedge(self, I, st, node, fid):
        return [self.settle(st)]

    # ---- outcomes
    def outcome(self, st, v):
        """'ok', 'fail', ('code', value) or 'exc'"""
        if isinstance(v, Exc):
            e = v.v
            if self.cli.prog.is_subclass(e.cls, "builtins.SystemExit") and e.exact:
                if not e.args:
                    return ("code", Num(lin(0)))
                a = e.args[0]
                if a == NONE:
                    return ("code", Num(lin(0)))
                return ("code", a)
            return "exc"
        if self.entry == "main":
            return ("code", v)
        return ("code", Num(lin(0)))

    def code_is(self, st, v, k):
        """exit code value equals k?"""
        if v == NONE:
            return k == 0
        if isinstance(v, BoolV):
            d = self.I.decide(v.f, st)
            return None if d is None else (int(d) == k)
        if isinstance(v, Const) and isinstance(v.v, bool):
            return int(v.v) == k
        if isinstance(v, Num):
            if st.store.entails_eq(v.lin - k):
                return True
            if st.store.entails_ne(v.lin - k):
                return False
            return None
        if isinstance(v, Seq):
            return False if k == 0 else (k == 1)
        return None


# ------------------------------------------------------------------ whole-run obligations

def read_docs(st):
    return any(e[0] == "read" for e in st.ghost.get("h", ())) or st.ghost.get("pend") or \
        ("ghost", "n") in st.cells or st.ghost.get("FAIL")


def where_of(run):
    m = run.cli.prog.modules["markflow.__main__"]
    f = m.names[run.entry][1]
    return f"{m.relpath}:{f.node.lineno} ({f.qual}: exit)"


def eval_C04(run):
    w = where_of(run)
    for st, v in run.res:
        if not st.ghost.get("FAIL"):
            continue
        o = run.outcome(st, v)
        fl = [e for e in st.ghost.get("h", ()) if e[0] in ("fail", "Rfail")]
        at = fl[-1][2] if fl and fl[-1][0] == "fail" else w
        msg = f"after {fl[-1][:2] if fl else 'a failure'} the process ends normally"
        if o == "exc":
            run.ob("C04.masked", True, w, "", st)
            continue
        z = run.code_is(st, o[1], 0)
        run.ob("C04.masked", None if z is None else not z, w, msg, st)


def docs(run, st):
    return [e[1] for e in st.ghost.get("h", ()) if e[0] == "R"]


def coverage(run, st, texts):
    """every given path among the documents?  True / False / None, message"""
    ps = run.paths()
    if any(run.doc_of(t) is STDIN for t in texts):
        return True, ""
    idx = []
    for t in texts:
        p = run.doc_of(t)
        if p is None:
            return None, "a text of unknown origin was reformatted"
        if p.op != "elem" or p.args[0] is not ps:
            return None, f"document {p} is not an element of the given paths"
        idx.append(st.store.norm(lin(p.args[1])))
    n = st.store.norm(length_of(ps))
    consts = set()
    for i in idx:
        if i.const is None:
            return None, "symbolic index"
        consts.add(int(i.const))
    k = 0
    while k in consts:
        k += 1
    if st.store.entails_eq(n - k):
        return True, ""
    if run.I.with_ge(st, n - k - 1) is not None:
        return False, f"the run can end with input number {k + 1} never processed"
    return True, ""


OBSCURE = {"callv", "ecall", "fcall", "mcall", "opaque"}


def obscure(run, st, text):
    """is the comparison of text and result hidden in something not modelled?"""
    r = sterm("R", text)
    for t in st.facts:
        ts = walk(t)
        if any(x is text for x in ts) and any(x is r for x in ts) and t.op != "eq":
            o = {x.op for x in ts}
            if o & OBSCURE or t.op in ("phi", "fresh"):
                return True
    return False


def differs(run, st, text):
    s = run.same(st, text)
    if s is None:
        return None
    return not s


def eval_C05(run):
    w = where_of(run)
    if run.mode == "fix":
        return eval_C05_fix(run)
    for st, v in run.res:
        if st.ghost.get("FAIL"):
            continue
        texts = docs(run, st)
        ck = run.known("check", st)
        o = run.outcome(st, v)
        if not texts:
            # a run that reads nothing although paths were given is C05 in check mode, C06 otherwise
            if o != "exc" and run.cli.roles and ck is not False and run.code_is(st, o[1], 0):
                n = st.store.norm(length_of(run.paths()))
                if run.I.with_ge(st, n - 1) is not None and parsed(run, st):
                    run.ob("C05.all", False, w, "in check mode the run can succeed without comparing the given paths", st)
            continue
        if o == "exc":
            run.ob("C05.verdict", False, w, f"the run ends with {v} although nothing failed", st)
            continue
        code = o[1]
        if ck is not True:
            z = run.code_is(st, code, 0)
            run.ob("C05.outside", z, w, f"a run without failures outside check mode exits {code}", st)
        if ck is False:
            continue
        cov, m = coverage(run, st, texts)
        run.ob("C05.all", cov, w, m, st)
        ds = [differs(run, st, t) for t in texts]
        if any(d is None for d in ds):
            und = [t for t, d in zip(texts, ds) if d is None]
            if any(obscure(run, st, t) for t in und):
                run.ob("C05.verdict", None, w, f"comparison of {und[0]} not understood", st)
                continue
            if any(d is True for d in ds):
                one = run.code_is(st, code, 1)
                run.ob("C05.verdict", one, w, f"exit status {code} although a document differs", st)
                continue
            # both cases are possible on this path: the status cannot be right for both
            run.ob("C05.verdict", False, w, f"exit status {code} does not depend on whether {und[0]} equals its reformatted text in full", st)
            continue
        want = 1 if any(ds) else 0
        run.ob("C05.verdict", run.code_is(st, code, want), w, f"exit status {code} where {want} is due", st)


def parsed(run, st):
    return run.opt("check", st) is not None


def eval_C05_fix(run):
    w = where_of(run)
    for st, v in run.res:
        if st.ghost.get("FAIL") or not parsed(run, st):
            continue
        st = run.settle(st)
        D = st.ghost.get("D")
        ck = run.known("check", st)
        o = run.outcome(st, v)
        if o == "exc":
            if ("ghost", "n") in st.cells:
                run.ob("C05.verdict", None, w, f"ends with {v}", st)
            continue
        if ("ghost", "n") not in st.cells:
            if isinstance(v, Exc) and not run.code_is(st, o[1], 0):
                continue
            n = st.store.norm(length_of(run.paths()))
            ok = st.store.entails_eq(n) or ck is False
            run.ob("C05.all", True if ok else None, w, "no document compared", st)
            continue
        if ck is not True:
            run.ob("C05.outside", run.code_is(st, o[1], 0), w, "exit status outside check mode", st)
        if ck is False:
            continue
        if D == "?":
            run.ob("C05.verdict", None, w, "comparison not decided", st)
        else:
            run.ob("C05.verdict", run.code_is(st, o[1], 1 if D == "Y" else 0), w, f"exit status {o[1]} D={D}", st)
        n = st.cells[("ghost", "n")]
        ok = st.ghost.get("bad") != "order" and isinstance(n, Num) and \
            (st.store.entails_eq(n.lin - length_of(run.paths())) or st.store.entails_eq(length_of(run.paths())))
        run.ob("C05.all", True if ok else None, w, f"documents compared: {n} of {length_of(run.paths())} {st.ghost.get('bad')}", st)


def eval_C06(run):
    w = where_of(run)
    if run.mode == "fix":
        for st, v in run.res:
            if st.ghost.get("FAIL") or not parsed(run, st) or run.known("check", st) is True:
                continue
            o = run.outcome(st, v)
            if o == "exc" or run.code_is(st, o[1], 0) is False:
                continue
            st = run.settle(st)
            n = st.cells.get(("ghost", "n"), Num(lin(0)))
            ps = length_of(run.paths())
            stdin = st.store.entails_eq(ps)
            ok = stdin or (isinstance(n, Num) and st.store.entails_eq(n.lin - ps) and not st.ghost.get("bad"))
            run.ob("C06.all", True if ok else None, w, f"delivered {n} of {ps}: {st.ghost.get('bad')}", st)
        return
    for st, v in run.res:
        if st.ghost.get("FAIL") or not parsed(run, st) or run.known("check", st) is True:
            continue
        o = run.outcome(st, v)
        if o == "exc" or run.code_is(st, o[1], 0) is False:
            continue
        texts = docs(run, st)
        n = st.store.norm(length_of(run.paths()))
        if not texts:
            if run.I.with_ge(st, n - 1) is not None:
                run.ob("C06.all", False, w, "the run can succeed without reformatting the given paths", st)
            continue
        cov, m = coverage(run, st, texts)
        run.ob("C06.all", cov, w, m, st)
        h = st.ghost.get("h", ())
        for t in texts:
            p = run.doc_of(t)
            if p is None or p is STDIN:
                continue
            r = sterm("R", t)
            wr = [e for e in h if e[0] == "write" and e[2] is r]
            tg = [run.target(p, e[1], st) for e in wr]
            if any(x is True for x in tg):
                run.ob("C06.delivered", True, w, "", st)
                continue
            if any(x is None for x in tg):
                run.ob("C06.delivered", None, w, f"target of {t} not understood", st)
                continue
            ip = run.in_place(p, st)
            if ip is None:
                run.ob("C06.delivered", None, w, f"destination of {p} not understood", st)
                continue
            if ip:
                sm = run.same(st, t)
                if sm is True:
                    run.ob("C06.delivered", True, w, "", st)
                    continue
                if sm is None and obscure(run, st, t):
                    run.ob("C06.delivered", None, w, f"comparison of {t} not understood", st)
                    continue
            run.ob("C06.delivered", False, w, f"the result of {p} is not written to its destination", st)


def eval_C08(run):
    w = where_of(run)
    for st, v in run.res:
        if st.ghost.get("FAIL") or not parsed(run, st) or run.known("check", st) is True:
            continue
        if run.mode == "fix":
            out = st.ghost.get("out", ())
            pend = st.ghost.get("pend", ())
            if not any(run.doc_of(t) is STDIN for t in pend):
                continue
            if out is None:
                run.ob("C08.stdout", None, w, "printing in a loop", st)
                continue
            out = [(e[0], e[1], e[2], " ", e[3]) for e in out]
            text = pend[-1]
        else:
            texts = [t for t in docs(run, st) if run.doc_of(t) is STDIN]
            if not texts:
                continue
            text = texts[-1]
            out = [e[1:] for e in st.ghost.get("h", ()) if e[0] == "print"]
        r = sterm("R", text)
        good = [e for e in out if e[0] in ("print", "write") and len(e[1]) == 1 and e[1][0] is r and e[2] == ""]
        rest = [e for e in out if e not in good and not (len(e[1]) == 1 and e[1][0] is Term("s", "") and e[2] == "")]
        unsure = run_unsure(run, st)
        if len(good) == 1 and not rest:
            run.ob("C08.stdout", True, w, "", st)
        elif rest:
            e = rest[0]
            run.ob("C08.stdout", False, e[4], f"STDOUT also receives {[str(x)[:80] for x in e[1]]} (end={e[2]!r})", st)
        elif len(good) > 1:
            run.ob("C08.stdout", False, w, "the document is printed more than once", st)
        else:
            run.ob("C08.stdout", None if unsure else False, w, "the document is not printed as it is", st)


def run_unsure(run, st):
    return any(e[0] == "stdoutop" for e in st.ghost.get("h", ()))


def eval_C10(run):
    if not run.codecs:
        return
    rd, wr = run.codecs.get("read", {}), run.codecs.get("write", {})
    for e, w in wr.items():
        bad = [r for r in rd if r != e]
        run.ob("C10.encoding", not bad, w, f"written with encoding {e!r}, read with {bad[0] if bad else e!r} at {rd[bad[0]] if bad else ''}", run.st0)


EVAL = {"C04": eval_C04, "C05": eval_C05, "C06": eval_C06, "C08": eval_C08, "C10": eval_C10}

METHOD = ("Abstract interpretation of the command line entry point from its current source (argparse namespace modelled "
          "from the add_argument calls found, the formatting functions as opaque operations that may fail): {what} "
          "A fixpoint run over all loops proves obligations for any number of inputs; a second run that partitions traces "
          "over the first loop iterations looks for paths on which an obligation definitely fails.")


def check(prog, rep, prop, tier):
    fail = prop == "C04"
    if prop in ("C06", "C07"):
        from . import cliargs
        cli = cliargs.parsed_cli(prog, rep)
        (cliargs.check_expand if prop == "C06" else cliargs.check_length_type)(cli, rep)
    best = {}
    runs = []
    for mode in ("fix", "peel"):
        run = Run(prog, rep, mode, budget=2 if tier == "quick" else 3, fail=fail)
        run.codecs = {}
        try:
            run.go()
        except Exception as e:
            from ..interp import Budget
            if not isinstance(e, (Budget, RecursionError)):
                raise
            rep.note(f"{mode}: {e}")
            continue
        if prop in EVAL:
            EVAL[prop](run)
        mine = {}
        for rule, s, w, msg, tr in run.local:
            if not rule.startswith(prop):
                continue
            k = (rule, w)
            o = mine.setdefault(k, [True, msg, tr])
            if s is False and o[0] is not False or s is None and o[0] is True:
                mine[k] = [s, msg, tr]
        runs.append((mode, run, mine))
        if mode == "fix" and mine and all(o[0] is True for o in mine.values()):
            break
    for mode, run, mine in runs:
        for (rule, w), (s, msg, tr) in mine.items():
            if mode == "fix":
                others = [m for md, _, m in runs if md == "peel"]
                if s is not True:
                    # not proved: the partitioned run decides whether it is a definite failure
                    o = others[0].get((rule, w)) if others else None
                    rep.ob(rule, "undecided", w, f"not proved by the fixpoint run: {msg}", tr)
                else:
                    rep.ob(rule, "proved", w, msg, tr)
            else:
                if s is False:
                    rep.ob(rule, "violated", w, msg, tr)
                elif not any((rule, w) in m for md, _, m in runs if md == "fix"):
                    rep.ob(rule, "undecided" if s is None else "proved", w, msg, tr)
    return rep
