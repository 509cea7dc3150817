"""C18: a document is the sequence of its sections, each rendered once by the formatter of its kind."""
from ..cover import complete_view, view_of
from ..interp import Exc, Config
from ..model import AnalysisBroken
from ..terms import Term, Lin, lin
from ..values import *
from .cli import find_pass
from .fmt import *
from .code import trail
from .content import show
from .util import walk
from .wrapping import each_unit

DETECT = "markflow.detectors"


def kind_of_class(cls):
    for k, n in KINDS.items():
        if cls.name == "Markdown" + n:
            return k
    return None


def reformat_methods(prog):
    """every method a section object can be rendered with"""
    out = {}
    for q, f in prog.funcs.items():
        if f.cls is not None and f.node.name == "reformatted" and q.startswith("markflow.formatters"):
            out[q] = f
    return out


class Assembly:
    """the pass on a document that parses into the given kinds of sections"""

    def __init__(self, prog, kinds, mode="peel", budget=4, width="int"):
        self.prog, self.kinds = prog, kinds
        fn = self.fn = find_pass(prog)
        u = self.u = Unit(prog, fn, mode, budget)
        I = self.I = u.I
        self.parsed = []
        pm = prog.public(PARSER, "parse_markdown")
        I.cfg.opaque[pm.qual] = self.parse
        for q, f in reformat_methods(prog).items():
            I.cfg.opaque[q] = self.render
        for q, f in prog.funcs.items():
            if f.cls is not None and f.node.name in ("__repr__", "__str__") and q.startswith("markflow.formatters"):
                I.cfg.opaque[q] = lambda I, st, args, kw, node, fid: [(st, str_term(fresh("repr", "str")))]
        self.text = Term("var", "text")
        self.text.sort = "str"
        self.width = Term("var", "width")
        self.width.sort = "int"
        self.parts = [strlist(f"section{i}") for i in range(len(kinds))]
        st, a = I.value_of(self.text, u.st)
        for p in self.parts:
            st = I.with_ge(st, length_of(p) - 1)
        u.res = u.call([a, Num(lin(self.width))], st)
        self.res = u.res

    @property
    def where(self):
        return f"{self.fn.loc} ({self.fn.qual})"

    def parse(self, I, st, args, kw, node, fid):
        self.parsed.append((st, args[0] if args else next(iter(kw.values()), None)))
        items = []
        mod = self.prog.modules[PARSER]
        for k, p in zip(self.kinds, self.parts):
            rs = ask(I, st, mod, f"MarkdownSectionEnum.{k}")
            if len(rs) != 1 or isinstance(rs[0][1], Exc):
                raise AnalysisBroken(f"section kind {k} is gone")
            st, e = rs[0]
            st, r = I.value_of(p, st)
            items.append(Item(Tup([e, r])))
        return [I.new_list(st, items)]

    def render(self, I, st, args, kw, node, fid):
        o = args[0]
        w = args[1] if len(args) > 1 else kw.get("width")
        cls = st.heap[o.id].cls if isinstance(o, Ref) else None
        lines = None
        for s, v in I.getattr(o, "lines", st, node, fid):
            if isinstance(v, Ref) and isinstance(s.heap.get(v.id), LObj):
                lines = I.norm_seq(s.heap[v.id].seq, s)
        t = Term("rendered", cls.name if cls else "?", Seq("list", lines.p) if lines is not None else "?", I.term(w, st) if w is not None else "default")
        t.sort = "str"
        return [I.value_of(t, st)]


def flatten(seq):
    """literal text and rendered sections, in order"""
    out = []

    def put(p):
        if isinstance(p, Lit):
            if out and isinstance(out[-1], str):
                out[-1] += p.s
            else:
                out.append(p.s)
        elif isinstance(p, Item) and isinstance(p.v, Seq):
            for x in p.v.p:
                put(x)
        elif isinstance(p, Join) and p.sep.const is not None and all(isinstance(q, Item) for q in p.seq.p):
            for i, q in enumerate(p.seq.p):
                if i:
                    put(Lit(p.sep.const))
                put(q)
        elif isinstance(p, Sl) and p == full(p.src):
            if p.src.op == "cat" and isinstance(p.src.args[0], Seq):
                for x in p.src.args[0].p:
                    put(x)
            else:
                out.append(p.src)
        else:
            out.append(p)
    for p in seq.p:
        put(p)
    return [x for x in out if x != ""]


def expected(kinds):
    out = []
    for i, k in enumerate(kinds):
        if k == "SETEXT_HEADING" and i and kinds[i - 1] == "BLOCK_QUOTE":
            out += [None, "\n"]
        out += [i, "\n"]
    return out


def judge(A, st, v):
    """None when it is as specified, else what is wrong; '?' when not known"""
    if not isinstance(v, Seq):
        return "?", show(v)
    got = flatten(A.I.norm_seq(v, st))
    want = expected(A.kinds)
    if any(not isinstance(x, str) and not (isinstance(x, Term) and x.op == "rendered") for x in got):
        return "?", show(v)
    # a blank line rendered by its formatter counts as the literal empty line
    i = 0
    text = []
    for x in got:
        if isinstance(x, Term) and x.args[0] == "MarkdownBlankLine" and isinstance(x.args[1], Seq) and \
                all(isinstance(p, Item) and isinstance(p.v, Seq) and p.v.const is not None and not p.v.const.strip() for p in x.args[1].p):
            continue
        if isinstance(x, str) and text and isinstance(text[-1], str):
            text[-1] += x
        else:
            text.append(x)
    exp = []
    for x in want:
        if x is None:
            continue
        if isinstance(x, str) and exp and isinstance(exp[-1], str):
            exp[-1] += x
        else:
            exp.append(x)
    if len(text) != len(exp):
        return "bad", f"sections {A.kinds} are assembled as {show(text)}"
    for a, b in zip(text, exp):
        if isinstance(a, str) or isinstance(b, str):
            if a != b:
                return "bad", f"sections {A.kinds} are assembled as {show(text)}"
            continue
        kind = "Markdown" + KINDS[A.kinds[b]]
        if a.args[0] == "?" or a.args[1] == "?":
            return "?", show(a)
        if a.args[0] != kind:
            return "bad", f"a section of kind {A.kinds[b]} is rendered by {a.args[0]}"
        r = view_of(a.args[1].p, st, A.parts[b], "exact")
        if r is None or r == "empty" or not (st.store.entails_eq(lin(r[0])) and st.store.entails_eq(lin(r[1]) - length_of(A.parts[b]))):
            return "bad", f"the lines of section {b + 1} of {A.kinds} are not those given to its formatter: {show(a.args[1])}"
        w = a.args[2]
        if w is not A.width and not (isinstance(w, (Term, Lin)) and lin(w) == lin(A.width)):
            return "bad", f"a {A.kinds[b]} section is rendered to width {show(w)}"
    return None, ""


def ended(pieces, st):
    """the pieces, with the empty part put back that follows a text's last line ending"""
    if len(pieces) == 1 and isinstance(pieces[0], Sl) and pieces[0].src.op in ("split", "resplit"):
        p = pieces[0]
        n = length_of(p.src)
        last = Term("elem", p.src, st.store.norm(n - 1))
        if st.store.entails_eq(n - 1 - p.hi) and st.store.entails_eq(length_of(last)):
            return (Sl(p.src, p.lo, n),)
    return pieces


def parsed_text(rep, A):
    """parse_markdown gets all the lines of the text"""
    for st, v in A.parsed:
        q = A.I.norm_seq(st.heap[v.id].seq, st) if isinstance(v, Ref) and isinstance(st.heap.get(v.id), LObj) else None
        if q is None:
            rep.ob("C18.lines", None, A.where, show(v))
            continue
        r, atoms = complete_view(ended(q.p, st), st, A.text, "exact")
        if r is False:
            r, _ = complete_view(q.p, st, A.text, "nonws")
            r = None if r else False
        rep.ob("C18.lines", r, A.where, f"the text is parsed as {show(q)}", trail(st))


def check(prog, rep, prop, tier):
    ks = list(KINDS)
    rows = [(k,) for k in ks] + [(a, b) for a in ks for b in ks]
    B, S = "BLOCK_QUOTE", "SETEXT_HEADING"
    rows += [(B, k, S) for k in ks] + [(B, S, k) for k in ks] + [(k, B, S) for k in ks]
    if tier != "quick":
        rows = [(k,) for k in ks] + [(a, b) for a in ks for b in ks] + [(a, b, c) for a in ks for b in ks for c in ks]
    w = None
    for row in rows:
        try:
            A = Assembly(prog, row)
        except AnalysisBroken:
            raise
        except Exception as e:
            import os
            if os.environ.get("MFCHECK_DEBUG"):
                raise
            rep.ob("C18.assembly", None, "reformat pass", f"not analysed: {type(e).__name__}: {e}")
            continue
        rep.use(A.I)
        rep.stats["outcomes"] += len(A.res)
        w = A.where
        if not A.res:
            rep.ob("C18.assembly", None, w, f"no path renders {row}")
        for st, v in A.res:
            if isinstance(v, Exc):
                # a rejection is no rendering; a missing formatter is
                q = v.v.cls if hasattr(v.v, "cls") else ""
                rep.ob("C18.assembly", False if "KeyError" in str(v) or "AttributeError" in str(v) else None, w, f"sections {row}: {show(v)}", trail(st))
                continue
            bad, msg = judge(A, st, v)
            rep.ob("C18.assembly", True if bad is None else None if bad == "?" else False, w, msg, trail(st))
        parsed_text(rep, A)
    rep.downgrade("proved", "bounded")
    registry(prog, rep, tier)
    return rep


# ---------------------------------------------------------------- kinds and detectors

def taker(fn):
    """a detector that takes everything or nothing"""
    def op(I, st, args, kw, node, fid):
        st0, none = I.new_list(st, [])
        out = [(st0, Tup([none, args[0]]))]
        t = Term("by", fn.qual)
        t.sort = ("list", "str")
        s = I.with_ge(st, length_of(t) - 1)
        s, a = I.value_of(t, s)
        s, b = I.new_list(s, [])
        out.append((s, Tup([a, b])))
        return out
    return op


def registry(prog, rep, tier):
    """every detector's sections get the kind the detector is named after"""
    fn = prog.public(PARSER, "parse_markdown")
    where = f"{fn.loc} ({fn.qual})"
    seen = set()

    def go(f, mode, budget):
        u = Unit(prog, f, mode, budget, {d.qual: taker(d) for d in splitters(prog)})
        src = strlist("lines")
        st = u.I.with_ge(u.st, length_of(src) - 1)
        st, r = u.I.value_of(src, st)
        u.res = u.call([r], st)
        return u

    def evaluate(rep, u, w):
        I = u.I
        for st, v in u.res:
            if isinstance(v, Exc):
                continue
            q = I.norm_seq(st.heap[v.id].seq, st) if isinstance(v, Ref) and isinstance(st.heap.get(v.id), LObj) else None
            if q is None or not all(isinstance(p, Item) and isinstance(p.v, Tup) and len(p.v.items) == 2 for p in q.p):
                rep.ob("C18.kind", None, w, show(v), trail(st))
                continue
            for p in q.p:
                kind, ref = p.v.items
                lines = I.norm_seq(st.heap[ref.id].seq, st) if isinstance(ref, Ref) and isinstance(st.heap.get(ref.id), LObj) else None
                name = next((x.args[1] for x in walk(kind) if x.op == "enum"), None)
                by = {x.args[0] for x in walk(lines) if x.op == "by"} if lines is not None else set()
                if name is None or len(by) != 1:
                    rep.ob("C18.kind", None, w, f"section {show(p.v)}", trail(st))
                    continue
                seen.add(name)
                last = by.pop()
                rep.ob("C18.kind", last.rsplit(".", 1)[-1] == "split_" + name.lower(), w,
                       f"lines taken by {last} become a section of kind {name}", trail(st))
    each_unit(prog, rep, [fn], lambda f: [("peel", 1)], go, evaluate, "C18.kind")
    for k in KINDS:
        rep.ob("C18.complete", True if k in seen else None if not seen else False, where, f"no section of kind {k} is ever made")
