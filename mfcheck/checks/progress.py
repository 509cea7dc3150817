"""C16: every document is classified, and every loop of parsing and formatting makes progress."""
import ast

from .. import lang
from ..interp import Interp, Config, Exc, State
from ..terms import Term, lin, Lin
from ..values import *
from .fmt import *
from .partition import list_of, trail_of, UNKNOWN
from .util import walk

LATE = ("split_paragraph", "split_setext_heading")
ENDLESS = {"itertools.count", "itertools.cycle", "itertools.repeat"}


# ---------------------------------------------------------------- loops

def relevant(node):
    """names the continuation of a while loop depends on"""
    names = {n.id for n in ast.walk(node.test) if isinstance(n, ast.Name)}
    for b in node.body:
        for n in ast.walk(b):
            if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                names |= {m.id for m in ast.walk(n.test) if isinstance(m, ast.Name)}
            elif isinstance(n, ast.For):
                names |= {m.id for m in ast.walk(n.iter) if isinstance(m, ast.Name)}
    while True:
        k = len(names)
        for b in node.body:
            for n in ast.walk(b):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    tg = [n.target]
                elif isinstance(n, ast.For):
                    tg = [n.target]
                if any(isinstance(m, ast.Name) and m.id in names for t in tg for m in ast.walk(t)):
                    v = n.iter if isinstance(n, ast.For) else n.value
                    if v is not None:
                        names |= {m.id for m in ast.walk(v) if isinstance(m, ast.Name)}
        if len(names) == k:
            return names


def measure(I, st, fid, names):
    out = []
    for n in sorted(names):
        v = st.frames[fid].get(n) if fid in st.frames else None
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), LObj):
            out.append((n, "len", seq_len(I.norm_seq(st.heap[v.id].seq, st)), I.term(v, st)))
        elif isinstance(v, Num):
            out.append((n, "num", v.lin, I.term(v, st)))
        elif isinstance(v, Seq):
            out.append((n, "len", seq_len(v), I.term(v, st)))
        elif v is not None:
            out.append((n, "other", None, I.term(v, st)))
    return tuple(out)


class Progress:
    def __init__(self, rep, mode):
        self.rep, self.mode = rep, mode
        self.seen = {}      # where -> [statuses]

    def key(self, node, fid):
        return "while:%d:%s" % (node.lineno, fid)

    def head(self, I, st, node, fid):
        return st.setghost(**{self.key(node, fid): measure(I, st, fid, relevant(node))})

    def edge(self, I, st, node, fid):
        if not isinstance(node, ast.While):
            return [st]
        old = st.ghost.get(self.key(node, fid))
        w = I.loc(node, fid)
        if old is None:
            self.seen.setdefault(w, []).append((None, "start of round lost", ()))
            return [st]
        now = {n: (k, l, t) for n, k, l, t in measure(I, st, fid, {n for n, *_ in old})}
        ok = False
        same = True
        for n, k, l, t in old:
            if n not in now:
                same = False
                continue
            k2, l2, t2 = now[n]
            if k == k2 == "len" and st.store.entails_ge(l - l2 - 1):
                ok = True
            if k == k2 == "num" and self.bounded(I, st, node, n, l, l2):
                ok = True
            if t2 is not t and not (l is not None and l2 is not None and k == k2 == "num" and st.store.entails_eq(l - l2)):
                same = False
            if any(x.op in UNKNOWN for x in walk(t2)) or has_iter(I, st, fid, n):
                same = False
        self.seen.setdefault(w, []).append((True if ok else False if same and old else None,
                                            "a round of this loop can leave everything its continuation depends on unchanged", trail_of(st)))
        return [st]

    def bounded(self, I, st, node, n, l, l2):
        """n moves towards a bound in the loop test: n < X and n grows, or n > X and n falls"""
        for c in ast.walk(node.test):
            if not isinstance(c, ast.Compare) or len(c.ops) != 1:
                continue
            a, b, op = c.left, c.comparators[0], c.ops[0]
            names = {m.id for m in ast.walk(b) if isinstance(m, ast.Name)}
            if isinstance(b, ast.Name) and b.id == n:
                a, b = b, a
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(op), type(op))()
                names = {m.id for m in ast.walk(b) if isinstance(m, ast.Name)}
            if not (isinstance(a, ast.Name) and a.id == n) or n in names:
                continue
            assigned = {m.id for x in node.body for m in ast.walk(x) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
            if names & assigned:
                continue
            if isinstance(op, (ast.Lt, ast.LtE)) and st.store.entails_ge(l2 - l - 1):
                return True
            if isinstance(op, (ast.Gt, ast.GtE)) and st.store.entails_ge(l - l2 - 1):
                return True
        return False

    def flush(self, bounded):
        good = True
        for w, obs in self.seen.items():
            st = [o[0] for o in obs]
            if self.mode == "fix":
                good = good and all(s is True for s in st)
        if self.mode == "fix" and not good:
            return False
        for w, obs in self.seen.items():
            for s, m, t in obs:
                self.rep.ob("C16.progress", ("proved" if self.mode == "fix" else "bounded") if s is True else s, w, m, t)
        return good


def has_iter(I, st, fid, n):
    from ..values import Ref
    v = st.frames[fid].get(n)
    if isinstance(v, Ref) and not isinstance(st.heap.get(v.id), LObj):
        return True
    return type(v).__name__ in ("GenV", "Sym")


def while_functions(prog):
    out = []
    for q, fn in sorted(prog.funcs.items()):
        if q.startswith("markflow.__main__") or q.startswith("markflow._argparse") or isinstance(fn.node, ast.Lambda):
            continue
        if any(isinstance(n, ast.While) for n in ast.walk(fn.node)):
            out.append(fn)
    return out


def any_args(u, fn):
    """arbitrary arguments according to the annotations"""
    I, st = u.I, u.st
    args = []
    a = fn.node.args
    for i, p in enumerate(a.args):
        if i >= len(a.args) - len(a.defaults):
            break
        t = Term("var", p.arg)
        t.sort = I.ann_sort(fn.mod, p.annotation)
        if isinstance(t.sort, tuple) and t.sort[0] == "list" and fn.name.startswith("split_"):
            st = I.with_ge(st, length_of(t) - 1)
        st, v = I.value_of(t, st)
        args.append(v)
    u.st = st
    return args


def run_loops(prog, rep, fn, mode, budget):
    cfg = Config(mode=mode)
    p = Progress(rep, mode)
    cfg.on_head, cfg.on_backedge = p.head, p.edge
    pr = predicate(prog, fn)
    # one truth value per call text: outcomes of predicates on whole lists stay uninterpreted
    cfg.force_opaque = lambda f: pr(f) and bool(f.node.args.args) and isinstance(f.node.args.args[0].annotation, ast.Subscript)
    u = Unit(prog, fn, mode, budget, detector_opaque(prog, fn), cfg)
    u.progress = p
    u.res = u.call(any_args(u, fn))
    return u


def endless(prog, rep):
    """for loops and comprehensions over iterators that never end"""
    for q, fn in sorted(prog.funcs.items()):
        if q.startswith("markflow.__main__") or q.startswith("markflow._argparse"):
            continue
        for n in ast.walk(fn.node):
            its = []
            if isinstance(n, ast.For):
                its = [(n.iter, n.body)]
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                its = [(g.iter, ()) for g in n.generators]
            for it, body in its:
                w = f"{fn.mod.relpath}:{n.lineno} ({fn.qual})"
                name = None
                if isinstance(it, ast.Call):
                    name = ext_name(prog, fn, it.func)
                leaves = any(isinstance(x, (ast.Break, ast.Return, ast.Raise)) for b in body for x in ast.walk(b))
                if name in ENDLESS and not (name == "itertools.repeat" and len(it.args) > 1):
                    rep.ob("C16.finite", None if leaves or isinstance(n, ast.GeneratorExp) else False, w, f"{name} never ends")
                    continue
                grown = grows(it, body)
                rep.ob("C16.finite", (None if leaves else False) if grown else True, w,
                       "the loop adds elements to the list it is iterating over")


def grows(it, body):
    if not isinstance(it, ast.Name):
        return False
    if any(isinstance(n, ast.Name) and n.id == it.id and isinstance(n.ctx, ast.Store) for b in body for n in ast.walk(b)):
        return False
    for b in body:      # unconditional growth only
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and \
                b.value.func.attr in ("append", "insert", "extend") and isinstance(b.value.func.value, ast.Name) and b.value.func.value.id == it.id:
            return True
    return False


def ext_name(prog, fn, f):
    if isinstance(f, ast.Name):
        b = prog.lookup(fn.mod, f.id)
        return b[1] if b and b[0] == "ext" else None
    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
        b = prog.lookup(fn.mod, f.value.id)
        return f"{b[1]}.{f.attr}" if b and b[0] == "ext" else None
    return None


# ---------------------------------------------------------------- totality

HARD = {"rxm", "allch", "quant", "callv", "ecall", "fcall", "mcall", "opaque", "phi", "fresh"}


def total(prog, rep, budget):
    fns = splitters(prog)
    try:
        reg = registry_funcs(prog)
        fns = [f for f in reg if f in fns] + [f for f in reg if f not in fns] if reg else fns
    except Exception:
        pass
    fns = [f for f in fns if "ignoring" not in f.name]
    lrd = [f for f in fns if "link_reference" in f.name]
    fns = [f for f in fns if f not in lrd and f.name not in LATE] + [f for f in fns if f.name in LATE]
    cfg = Config(mode="peel")
    used = {}
    stage = [None]

    cfg.on_atom = lambda t: used.setdefault(t, set()).add(stage[0])
    u = Unit(prog, fns[0], "peel", budget, {}, cfg)
    src = strlist("lines")
    st = u.I.with_ge(u.st, length_of(src) - 1)
    st, r = u.I.value_of(src, st)
    live = [st]
    pub = {f.qual for f in splitters(prog) if f.name in SPLIT_NAMES}
    for fn in fns + (lrd if False else []):
        stage[0] = fn.name
        u.I.cfg.opaque = {k: v for k, v in detector_opaque(prog, fn).items() if k in pub or "parse_markdown" in k}
        nx = []
        for s in live:
            for s2, v in u.I.call_func(fn, [r], {}, s, fn.node, u.I.module_frame(fn.mod)):
                if isinstance(v, Exc):
                    continue
                a = list_of(s2, v.items[0], u.I) if isinstance(v, Tup) and v.items else None
                if a is None:
                    nx.append(s2.setghost(odd=fn.name))
                    continue
                s2 = u.I.with_ge(s2, -seq_len(a))
                if s2 is not None:
                    nx.append(s2)
        live = nx
    rep.use(u.I)
    w = f"{prog.public(PARSER, 'parse_markdown').loc} (markflow.parser.parse_markdown)"
    if not live:
        rep.ob("C16.total", "bounded", w, "no path on which every detector declines a line")
        return
    e = Term("elem", src, lin(0))
    e.sort = "str"
    left = 0
    for s in live[:400]:
        possible, why = lang.possible(u.I, s, e)
        if possible is False:
            continue
        left += 1
        hard = [t for t in s.facts if any(x.op in HARD for x in walk(t)) and len(used.get(t, ())) < 2]
        takes = [d for d in s.store.dims() if isinstance(d, Term) and d.op == "take"]
        ok = None if s.ghost.get("odd") or possible is None and hard or possible and takes else False
        rep.ob("C16.total", ok, w, "a line exists that no detector claims: " + (repr(why) if possible else "; ".join(f"{k} is {v}" for k, v in list(s.facts.items())[-6:])[:700]), trail_of(s))
    if not left:
        rep.ob("C16.total", "bounded", w, "no line is declined by every detector")


def registry_funcs(prog):
    """detector functions in the order parse_markdown tries them, when the registry can be evaluated"""
    m = prog.public(PARSER, "parse_markdown").mod
    for name, b in m.names.items():
        if b[0] == "const" and isinstance(b[1], (ast.List, ast.Tuple)):
            out = []
            for e in b[1].elts:
                for x in ast.walk(e):
                    if isinstance(x, ast.Name):
                        y = prog.lookup(m, x.id)
                        if y and y[0] == "func":
                            out.append(y[1])
            if len(out) >= 5:
                return out
    return None


def check(prog, rep, prop, tier):
    b = 2 if tier == "quick" else 3
    total(prog, rep, b)
    endless(prog, rep)

    def ev(u):
        return u.progress.flush(u.mode == "peel")
    units(prog, rep, while_functions(prog), [("fix", 2), ("peel", 3)] + deeper(tier, 5),
          lambda fn, mode, budget: run_loops(prog, rep, fn, mode, budget), ev, "C16.progress")
    return rep
