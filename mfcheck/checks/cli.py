"""Abstract run of the command line entry point: namespace model, documents, events."""
import ast

from ..interp import Interp, Config, Exc, mentions
from ..merge import merge
from ..model import Func, Cls, AnalysisBroken
from ..terms import Term, Lin, lin, ONE, Store
from ..values import (State, Const, Num, Seq, Sym, BoolV, ExcV, ExtV, LObj, Tup, NONE, S, full, length_of, nat)
from ..lib_ext import pc, seq_of

MAIN = "markflow.__main__"
API = "markflow.reformat_markdown"

# option string -> role; a positional has the role of its name
ROLE = {"--line-length": "line_length", "--check": "check", "--output-dir": "odir", "--output-directory": "odir",
        "--output-file": "ofiles", "--write-renders": "renders"}


def find_pass(prog):
    """the single (unverified) formatting pass behind reformat_markdown_text"""
    m = prog.modules.get(API)
    if m is None:
        raise AnalysisBroken("module markflow.reformat_markdown is gone")
    b = m.names.get("_reformat_markdown_text")
    if b and b[0] == "func":
        return b[1]
    top = prog.public(API, "reformat_markdown_text", "func")
    parse = prog.func("markflow.parser.parse_markdown")
    seen, queue = {top}, [top]
    found = None
    while queue:
        f = queue.pop(0)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                b = prog.resolve_expr(f.mod, n.func)
                g = b[1] if b and b[0] == "func" else None
                if isinstance(g, Func) and g not in seen:
                    seen.add(g)
                    if reaches(prog, g, parse) and len(g.node.args.args) >= 2:
                        return g
                    queue.append(g)
    raise AnalysisBroken("no single formatting pass found behind reformat_markdown_text")


def reaches(prog, f, goal, seen=None):
    seen = seen if seen is not None else set()
    if f is goal:
        return True
    if f in seen:
        return False
    seen.add(f)
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Name, ast.Attribute)):
            b = prog.resolve_expr(f.mod, n)
            if b and b[0] == "func" and reaches(prog, b[1], goal, seen):
                return True
    return False


def sterm(op, *args, sort="str"):
    t = Term(op, *args)
    t.sort = sort
    return t


class Cli:
    """interprets main(argv) and keeps what happened"""

    def __init__(self, prog, mode="fix", budget=2, any_raises=False, entry="main", track=(), ghost_keys=(), hooks=None):
        self.prog = prog
        self.opts = []            # add_argument calls: dict(flags, kw, group, node)
        self.groups = {}
        self.events = []          # (state, kind, data, where)
        self.hooks = hooks or {}
        self.parsed = set()
        self.ns = Term("var", "NS")
        self.R = prog.public(API, "reformat_markdown_text", "func")
        self.U = find_pass(prog)
        self.roles = {}           # role -> dest
        self.entry = entry
        cfg = Config(mode=mode, on_event=self.on_event, any_raises=any_raises, ghost_keys=tuple(ghost_keys),
                     attr_hook=self.attr)
        cfg.max_states = 40000
        cfg.max_steps = 2000000
        cfg.max_seconds = 300
        cfg.opaque = {self.R.qual: self.do_R, self.U.qual: self.do_U}
        cfg.meth = {"parse_args": self.do_parse}
        cfg.merge = lambda I, fn, res: merge(res, self.keep, self.keep)
        if "on_backedge" in self.hooks:
            cfg.on_backedge = self.hooks["on_backedge"]
        self.I = Interp(prog, cfg)
        st = State()
        st.budget = budget
        self.st0 = st

    # ---- documented behaviour of the two formatting functions (they are checked by other properties)
    def do_R(self, I, st, args, kw, node, fid):
        a = bind_args(self.R, args, kw)
        text, width = a.get("text", a.get(0)), a.get("width", a.get(1))
        if width is None:
            width = Sym(Term("default", "width"))
        tt = I.term(text, st)
        wt = I.term(width, st)
        out = []
        for s, ex in I.ev(st, "R", {"text": tt, "width": wt, "wv": width}, node, fid):
            if ex is not None:
                out.append((s, ex))
                continue
            out.append(I.value_of(sterm("R", tt), s))
        exc = self.prog.modules["markflow.exceptions"].names
        for n in ("ReformatInconsistentException", "MarkdownFormatException"):
            b = exc.get(n)
            if b and b[0] == "cls":
                for s, ex in I.ev(st, "Rfail", {"text": tt, "exc": n}, node, fid):
                    out.append((s, ex or Exc(ExcV(b[1], True, origin="R:" + n))))
        for s, ex in I.ev(st, "Rfail", {"text": tt, "exc": "other"}, node, fid):
            out.append((s, ex or Exc(ExcV("builtins.Exception", exact=False, origin="R:other", nots=self.own()))))
        return out

    def own(self):
        exc = self.prog.modules["markflow.exceptions"].names
        return tuple(b[1] for n, b in sorted(exc.items()) if b[0] == "cls")

    def do_U(self, I, st, args, kw, node, fid):
        a = bind_args(self.U, args, kw)
        text, width = a.get("text", a.get(0)), a.get("width", a.get(1))
        if width is None:
            width = Sym(Term("default", "width"))
        tt, wt = I.term(text, st), I.term(width, st)
        out = []
        for s, ex in I.ev(st, "U", {"text": tt, "width": wt, "wv": width}, node, fid):
            out.append((s, ex) if ex is not None else I.value_of(sterm("U", tt), s))
        return out

    # ---- argparse
    def add_argument(self, I, st, data, node, fid):
        flags = []
        for a in data["args"]:
            c = pc(a)
            flags.append(c if isinstance(c, str) else None)
        kw = data["kw"]
        if any(o["node"] is node and o["flags"] == flags for o in self.opts):
            return
        recv = I.term(data["obj"], st)
        grp = recv.uid if (recv.op == "mcall" and recv.args[1] == "add_mutually_exclusive_group") else None
        dest = pc(kw["dest"]) if "dest" in kw else None
        pos = bool(flags) and flags[0] is not None and not flags[0].startswith("-")
        if dest is None:
            if pos:
                dest = flags[0]
            else:
                longs = [f for f in flags if f and f.startswith("--")] or [f for f in flags if f]
                dest = longs[0].lstrip("-").replace("-", "_") if longs else None
        self.opts.append({"flags": flags, "kw": kw, "group": grp, "dest": dest, "node": node, "pos": pos,
                          "where": I.loc(node, fid), "st": st})

    def do_parse(self, I, obj, args, kw, st, node, fid):
        t = I.term(obj, st)
        if not (t.op == "ecall" and "rgumentParser" in str(t.args[0])):
            return None
        # what was learnt while building the parser says nothing about the documents: one abstract
        # state per set of ghosts is enough from here on
        key = (node, tuple(sorted(st.ghost.items())), tuple(k for k in st.cells if k[0] != "constcache"))
        if key in self.parsed:
            return []
        self.parsed.add(key)
        st = st.copy()
        st.facts = {}
        st.store = Store()
        st.forall = ()
        st.budget = self.st0.budget
        sts = [st]
        for o in self.opts:
            d = o["dest"]
            if d is None:
                continue
            act = o["kw"].get("action")
            a = pc(act) if act is not None else None
            role = "paths" if o["pos"] else None
            for f in o["flags"]:
                role = ROLE.get(f, role)
            if role:
                self.roles.setdefault(role, d)
            ty = o["kw"].get("type")
            isint = isinstance(ty, ExtV) and ty.q in ("builtins.int", "builtins.float")
            nargs = pc(o["kw"]["nargs"]) if "nargs" in o["kw"] else None
            at = Term("attr", self.ns, d)
            key = (self.ns, d)
            elem = "path" if ty is not None and not isint and role in ("odir", "ofiles", "paths") else ("int" if isint else "str")
            if a in ("store_true", "store_false"):
                at.sort = "bool"
                sts = [self.setattr(I, s, key, at) for s in sts]
            elif a == "count":
                at.sort = "nat"
                sts = [self.setattr(I, s, key, at) for s in sts]
            elif a in ("help", "version"):
                continue
            elif nargs in ("*", "+") or role == "paths":
                at.sort = ("list", elem)
                sts = [self.setattr(I, s, key, at) for s in sts]
            elif a == "append":
                at.sort = ("list", elem)
                new = []
                for s in sts:
                    if "default" not in o["kw"] or o["kw"]["default"] == NONE:
                        n = s.copy()
                        n.attrs[key] = NONE
                        new.append(n)
                    else:
                        for s2, v in [(s, o["kw"]["default"])]:
                            n = s2.copy()
                            n.attrs[key] = v
                            new.append(n)
                    if self.excluded(s, o):
                        continue
                    g = I.with_ge(s, length_of(at) - 1)
                    g = self.setattr(I, g, key, at)
                    new.append(self.given(g, o))
                sts = new
            elif isint or "default" in o["kw"] and o["kw"]["default"] != NONE:
                at.sort = "int" if isint or isinstance(o["kw"].get("default"), Num) else elem
                sts = [self.setattr(I, s, key, at) for s in sts]
            else:
                at.sort = elem
                new = []
                for s in sts:
                    n = s.copy()
                    n.attrs[key] = NONE
                    new.append(n)
                    if not self.excluded(s, o):
                        new.append(self.given(self.setattr(I, s, key, at), o))
                sts = new
        return [(s, Sym(self.ns)) for s in sts]

    def given(self, s, o):
        return s.setghost(given=s.ghost.get("given", ()) + ((o["dest"], o["group"]),))

    def excluded(self, s, o):
        return o["group"] is not None and any(g == o["group"] for _, g in s.ghost.get("given", ()))

    def setattr(self, I, s, key, at):
        s, v = I.value_of(at, s)
        s = s.copy()
        s.attrs[key] = v
        return s

    def attr(self, I, st, t, name):
        return None

    # ---- events
    def on_event(self, I, st, kind, data, node, fid):
        if kind == "method" and data["name"] in ("add_argument",):
            self.add_argument(I, st, data, node, fid)
            return [(st, None)]
        if kind == "read" and self.is_own_file(data["path"]):
            return [(st, None)]
        h = self.hooks.get("on_event")
        if h is not None:
            r = h(self, I, st, kind, data, node, fid)
            if r is not None:
                return r
        return [(st, None)]

    def is_own_file(self, t):
        s = repr(t)
        return "__file__" in s

    def keep(self, t):
        if not self.roles:
            return False
        ks = self._keep
        if ks is None or self._nroles != len(self.roles):
            ks = self._keep = [self.role(r) for r in self.roles]
            self._nroles = len(self.roles)
        # whether a document changed decides the exit status even after its text is forgotten
        return any(contains(t, k) for k in ks) or t.op == "eq" and any(
            isinstance(a, Term) and a.op in ("R", "U") or isinstance(a, Seq) and has_result(a) for a in t.args)

    _keep = None
    _nroles = 0

    def role(self, name):
        d = self.roles.get(name)
        return None if d is None else Term("attr", self.ns, d)

    # ---- run
    def run(self):
        fn = self.prog.public(MAIN, self.entry, "func")
        I = self.I
        st = self.st0
        args = []
        for p in fn.node.args.args:
            t = Term("var", p.arg)
            t.sort = ("list", "str")
            st, v = I.value_of(t, st)
            args.append(v)
        self.res = I.call_func(fn, args, {}, st, fn.node, I.module_frame(fn.mod))
        return self.res


def has_result(seq):
    return any(getattr(getattr(p, "src", None), "op", None) in ("R", "U") for p in seq.p)


def contains(t, x, depth=0):
    if t is x:
        return True
    if depth > 12:
        return False
    for a in t.args:
        if isinstance(a, Term) and contains(a, x, depth + 1):
            return True
        if isinstance(a, Lin) and any(contains(d, x, depth + 1) for d in a.t):
            return True
        if isinstance(a, Seq) and mentions(a, x):
            return True
    return False


def bind_args(fn, args, kw):
    names = [p.arg for p in fn.node.args.args]
    d = {}
    for i, a in enumerate(args):
        d[i] = a
        if i < len(names):
            d[names[i]] = a
    for k, v in kw.items():
        d[k] = v
        if k in names:
            d[names.index(k)] = v
    return d
