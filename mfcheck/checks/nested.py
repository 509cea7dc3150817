"""C21, C24: block quotes and lists around nested text."""
import itertools
import ast

from .. import rx, lang
from ..cover import complete_view, view_of, add_ws
from ..interp import Exc, Config
from ..model import AnalysisBroken
from ..terms import Term, Lin, lin
from ..values import *
from .cli import find_pass
from .fmt import *
from .code import trail
from .content import show, verdict, unknown
from .util import walk
from .wrapping import each_unit

LISTS = "markflow.formatters.lists"


class Alone:
    """a formatter on arbitrary lines, nested passes kept as a term"""

    def __init__(self, prog, kind, mode, budget, opaque=None, most=None, assume=None):
        cls = self.cls = formatter_class(prog, kind)
        m = self.fn = cls.attrs.get("reformatted") or next(f for q, f in prog.funcs.items() if q.endswith("reformatted"))
        u = self.u = Unit(prog, m, mode, budget)
        I = self.I = u.I
        I.cfg.opaque.update({WRAP: wrap_op, PASS: pass_op, find_pass(prog).qual: pass_op})
        I.cfg.opaque.update(opaque or {})
        self.doc = strlist("lines")
        st = I.with_ge(u.st, length_of(self.doc) - 1)
        if most:
            st = I.with_ge(st, lin(most) - length_of(self.doc))
        st, r = I.value_of(self.doc, st)
        self.width = Term("var", "width")
        self.width.sort = "int"
        frame = I.module_frame(cls.mod)
        starts = [st]
        if assume:
            starts = assume(I, st, self.doc, prog)
        self.res = []
        for st in starts:
            for s1, o in I.construct(cls, [Num(0), r], {}, st, cls.node, frame):
                for s2, f in I.getattr(o, "reformatted", s1, cls.node, frame):
                    self.res += I.call(f, [Num(lin(self.width))], {}, s2, cls.node, frame)
        u.res = self.res

    @property
    def where(self):
        return f"{self.fn.loc} ({self.fn.qual})"


def nested_of(x):
    """the nested passes a piece is text of"""
    return [t for t in walk(x) if t.op == "U"]


def blocks(seq):
    """[(what stands before the first line, nested pass, what stands before each further line or None, piece)]"""
    out = []
    cur = []
    for p in seq.p:
        if isinstance(p, Lit) and "\n" in p.s:
            tail = p.s.rsplit("\n", 1)[1]
            cur = [Lit(tail)] if tail else []
            continue
        us = outer(p)
        if us is None:
            cur.append(p)
            continue
        if isinstance(p, Join):
            sep = [x for x in p.sep.p]
            cont = None
            if sep and isinstance(sep[0], Lit) and sep[0].s.startswith("\n"):
                cont = ([Lit(sep[0].s[1:])] if len(sep[0].s) > 1 else []) + sep[1:]
            inner = None
            for q in p.seq.p:
                if isinstance(q, Img) and q.tmpl is not None:
                    inner = q.tmpl
            out.append((list(cur), us, cont, p, inner))
        else:
            out.append((list(cur), us, None, p, None))
        cur.append(p)
    return out


def outer(p):
    """the nested pass this piece is (part of) the result of"""
    src = None
    if isinstance(p, Sl):
        src = p.src
    elif isinstance(p, Join):
        for q in p.seq.p:
            if isinstance(q, Sl):
                src = q.src
            elif isinstance(q, Img) and q.views:
                src = q.views[0][0]
            elif isinstance(q, Item) and isinstance(q.v, Seq):
                for x in q.v.p:
                    t = outer(x)
                    if t is not None:
                        return t
    for _ in range(12):
        if src is None:
            return None
        if src.op == "U":
            return src
        if src.op in ("split", "splitlines", "resplit", "cat", "lst", "replace", "rstrip") and isinstance(src.args[0], Seq):
            nxt = None
            for x in src.args[0].p:
                if isinstance(x, Sl):
                    nxt = x.src
                    break
                if isinstance(x, Join):
                    return outer(x)
            src = nxt
        elif src.op == "elem":
            src = src.args[0]
        else:
            return None
    return None


def left(A, st, u):
    """how much narrower than the container the nested text is formatted"""
    w = u.args[1]
    if isinstance(w, Term) and w.op == "int" and w.args and isinstance(w.args[0], (Lin, Term)):
        w = w.args[0]
    if not isinstance(w, (Term, Lin)):
        return None
    return st.store.norm(lin(A.width) - lin(w))


def length(ps):
    n = lin(0)
    for p in ps:
        n = n + seq_len(Seq("str", (p,)))
    return n


def free(d):
    """can the difference really take more than one value"""
    return all(k.op in ("lws", "rws", "run", "rrun", "len", "n", "var") or k.op in ("ge", "me") and len(d.t) == 1 and margined(k) for k in d.t)


def margined(k):
    """the end of a match (of a group) that may begin with any number of blanks"""
    t = k.args[0]
    if not (isinstance(t, Term) and t.op == "rxm" and t.args[0] == "match" and isinstance(t.args[1], tuple)):
        return False
    pat = rx.parse(*t.args[1])
    ops = [(str(op), av) for op, av in pat or () if str(op) != "AT"]
    if not ops or ops[0][0] != "MAX_REPEAT":
        return False
    lo, hi, body = ops[0][1]
    n, av = str(body[0][0]), body[0][1]
    return lo != hi and len(body) == 1 and (n == "LITERAL" and chr(av) == " " or n == "IN" and len(av) == 1 and str(av[0][1]) == "CATEGORY_SPACE")


# ---------------------------------------------------------------- lists

def entries_op(n, names):
    """the list's source split into n items"""
    def op(I, st, args, kw, node, fid):
        items = []
        for i in range(n):
            e = strlist(f"item{i}")
            st = I.with_ge(st, length_of(e) - 1)
            st, r = I.value_of(e, st)
            items.append(Item(r))
        return [I.new_list(st, items)]
    return op


def same_op(I, st, args, kw, node, fid):
    return [(st, args[0])]


def list_helpers(prog, n):
    """the functions that split a list's lines into items and take the markers off (decided on their own)"""
    o = {}
    m = prog.modules.get(LISTS)
    for name, op in (("_split_list", entries_op(n, None)), ("_dedent_entries", same_op)):
        b = m.names.get(name) if m else None
        if b and b[0] == "func":
            o[b[1].qual] = op
    return o if len(o) == 2 else None


def number_of(ps):
    """the number a prefix starts with"""
    if ps and isinstance(ps[0], Sl) and ps[0].src.op == "numstr" and ps[0] == full(ps[0].src):
        return ps[0].src.args[0]
    return None


def mismatch(A, st, d):
    """is this difference, which should be zero, known not to be (in general)"""
    if st.store.entails_eq(d):
        return False
    if st.store.entails_ne(d) or d.const is not None:
        return True
    if free(d):
        return True
    ns = [k for k in d.t if k.op in ("len", "n") and isinstance(k.args[0], Term) and k.args[0].op == "numstr"]
    if len(ns) == len(d.t) == 2 and d.c == 0 and sum(d.t.values()) == 0:
        x, y = (lin(k.args[0].args[0]) for k in ns)
        c = st.store.norm(x - y).const
        return True if c is not None and c != 0 else None
    return True if ns and len(ns) == len(d.t) == 1 else None


def list_layout(rep, A, n, ordered):
    I = A.I
    w = A.where
    for st, v in A.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq):
            for r in ("C21.width", "C24.items"):
                rep.ob(r, None, w, show(v))
            continue
        v = I.norm_seq(v, st)
        bs = blocks(v)
        if len(bs) != n or any(b[2] is None for b in bs):
            rep.ob("C21.width", None, w, f"{n} items are laid out as {show(v)}", trail(st))
            bad = not unknown(v.p) and len({b[1] for b in bs}) != n
            rep.ob("C24.items", False if bad else None, w, f"{n} items are laid out as {show(v)}", trail(st))
            continue
        exact = None
        for i, (first, u, cont, p, inner) in enumerate(bs):
            d = left(A, st, u)
            if d is None:
                rep.ob("C21.width", None, w, f"width {show(u.args[1])}", trail(st))
                continue
            m = mismatch(A, st, st.store.norm(d - length(cont)))
            rep.ob("C21.width", True if m is False else False if m else None, w,
                   f"an item's text is formatted {show(d)} narrower than its list, but its lines are indented by {show(cont)}", trail(st))
            rep.ob("C21.prefix", all(blank(x) for x in cont) or None, w, f"lines of an item are indented by {show(cont)}", trail(st))
            m = mismatch(A, st, st.store.norm(d - length(first)))
            exact = True if m is False else False if m else None     # the last item's number is the longest
            if not ordered:
                rep.ob("C21.width", True if m is False else False if m else None, w,
                       f"an item's text is formatted {show(d)} narrower than its list, but its first line starts with {show(first)}", trail(st))
            # the item's lines
            e = strlist(f"item{i}")
            t = u.args[0]
            q = Seq("str", (full(t),)) if isinstance(t, Term) else t
            r, atoms = complete_view(q.p, st, e, "nonws") if isinstance(q, Seq) else (None, ())
            rep.ob("C24.items", verdict(r, q.p) if isinstance(q, Seq) else None, w, f"item {i + 1} of {n} is rendered from {show(t)}", trail(st))
            marker(rep, A, st, first, i, ordered)
        if ordered and bs:
            rep.ob("C21.width", exact, w, "the items are not formatted to what the longest number leaves", trail(st))


def blank(p):
    return isinstance(p, Lit) and not p.s.strip(" ") or isinstance(p, Rep) and p.v.const == " "


def marker(rep, A, st, first, i, ordered):
    I, w = A.I, A.where
    st1, line = line_value(I, st, A.doc, 0)
    if not ordered:
        ok = truth_of(I, st1, A.cls.mod, "p.strip() == line.lstrip()[0]", p=Seq("str", tuple(first)), line=line)
        if ok is None and first:
            ok = truth_of(I, st1, A.cls.mod, "p == line.lstrip()[0] + ' '", p=Seq("str", tuple(first)), line=line)
        c = Seq("str", tuple(first)).const
        if ok is None and c is not None:
            ok = False      # the same marker for every list
        own = {t.args[0] for p in first for t in walk(p) if t.op == "var" and str(t.args[0]).startswith("item")}
        if ok is None and i and own == {f"item{i}"}:
            ok = False      # the item's own marker
        rep.ob("C24.marker", ok, w, f"item {i + 1} is marked {show(first)}", trail(st))
        return
    n = number_of(first)
    if n is None:
        rep.ob("C24.number", False if Seq("str", tuple(first)).const is not None else None, w, f"item {i + 1} is marked {show(first)}", trail(st))
        return
    oks = []
    for s, x in ask(I, st1, A.cls.mod, "int(line.lstrip()[:len(line.lstrip()) - len(line.lstrip().lstrip('0123456789'))])", line=line):
        if isinstance(x, Num):
            d = s.store.norm(lin(n) - x.lin - i)
            oks.append(True if s.store.entails_eq(d) else False if s.store.entails_ne(d) or d.const is not None else None)
    rep.ob("C24.number", oks[0] if oks else None, w, f"item {i + 1} is numbered {show(n)}", trail(st))
    tail = Seq("str", tuple(first[1:])).const
    rep.ob("C24.number", None if tail is None else tail.startswith(".") and not tail[1:].strip(" ") and len(tail) > 1, w, f"item {i + 1} is marked {show(first)}", trail(st))


def lists(prog, rep, prop, only):
    for kind in ("BULLET_LIST", "ORDERED_LIST"):
        for n in (1, 2, 3):
            o = list_helpers(prog, n)
            cls = formatter_class(prog, kind)
            w = f"{cls.mod.relpath}:{cls.node.lineno} ({cls.qual})"
            if o is None:
                rep.ob(only + ".items", None, w, "the functions splitting a list were not found")
                continue
            from ..report import Report
            sub = Report(rep.prop, rep.tier, "")
            def go(fn, mode, budget):
                A = Alone(prog, kind, mode, budget, o)
                A.u.A = A
                return A.u
            m = cls.attrs.get("reformatted")
            each_unit(prog, sub, [m] if hasattr(m, "loc") else [], lambda f: [("peel", n + 1)], go,
                      lambda r, u, w: list_layout(r, u.A, n, kind == "ORDERED_LIST"), only + ".items")
            for k in list(sub.obs):
                if not k[0].startswith(only):
                    del sub.obs[k]
            absorb(rep, sub)
            rep.stats["outcomes"] += sub.stats["outcomes"]
            rep.stats["functions"] |= sub.stats["functions"]
            rep.stats["call_sites"] += sub.stats["call_sites"]


def helper(prog, name):
    m = prog.modules.get(LISTS)
    b = m.names.get(name) if m else None
    return b[1] if b and b[0] == "func" else None


def sublists(I, s, v):
    """pieces of each list in a list of lists"""
    if not isinstance(v, Ref) or not isinstance(s.heap.get(v.id), LObj):
        return None
    q = I.norm_seq(s.heap[v.id].seq, s)
    out = []
    for p in q.p:
        if not (isinstance(p, Item) and isinstance(p.v, Ref) and isinstance(s.heap.get(p.v.id), LObj)):
            return None
        out.append(I.norm_seq(s.heap[p.v.id].seq, s).p)
    return out


def splitting(prog, rep, tier):
    """every line of the list in exactly one item; the text behind the marker kept"""
    fn = helper(prog, "_split_list")
    if fn is not None:
        def go(f, mode, budget):
            u = Unit(prog, f, mode, budget)
            u.doc = strlist("lines")
            st = u.I.with_ge(u.st, length_of(u.doc) - 1)
            st, r = u.I.value_of(u.doc, st)
            u.res = u.call([r], st)
            return u

        def flat(rep, u, w):
            for s, v in u.res:
                if isinstance(v, Exc):
                    continue
                es = sublists(u.I, s, v)
                if es is None:
                    rep.ob("C24.split", None, w, show(v))
                    continue
                ps = [p for e in es for p in e]
                r, atoms = complete_view(ps, s, u.doc, "exact")
                rep.ob("C24.split", verdict(r, ps), w, f"the lines of the list are split into {show(es)}", trail(s))
        each_unit(prog, rep, [fn], lambda f: [("peel", 2 if tier == "quick" else 3)], go, flat, "C24.split")
    fn = helper(prog, "_dedent_entries")
    if fn is not None:
        def go2(f, mode, budget):
            u = Unit(prog, f, mode, budget)
            u.docs = [strlist("item0"), strlist("item1")]
            st, refs = u.st, []
            for d in u.docs:
                st = u.I.with_ge(st, length_of(d) - 1)
                st, r = u.I.value_of(d, st)
                refs.append(Item(r))
            st, r = u.I.new_list(st, refs)
            u.res = u.call([r], st)
            return u

        def kept(rep, u, w):
            I = u.I
            for s, v in u.res:
                if isinstance(v, Exc):
                    continue
                es = sublists(I, s, v)
                if es is None:
                    rep.ob("C24.dedent", None, w, show(v))
                    continue
                rep.ob("C24.dedent", len(es) == 2, w, f"two items become {show(es)}", trail(s))
                for e, d in zip(es, u.docs):
                    s1, line = line_value(I, s, d, 0)
                    end = [x for _, x in ask(I, s1, prog.modules[LISTS], "_list_marker_end_pos(line)", line=line) if isinstance(x, Num)] \
                        if helper(prog, "_list_marker_end_pos") else []
                    if len(end) != 1:
                        rep.ob("C24.dedent", None, w, "where the marker ends is not known", trail(s))
                        continue
                    src = Term("elem", d, lin(0))
                    for t in walk(end[0].lin):
                        if t.op == "ge" and t.args[0].op == "rxm" and isinstance(t.args[0].args[1], tuple) and rx.blank_after(t.args[0].args[1][0], t.args[1], t.args[0].args[1][1]):
                            # the character after the marker, if any, is a blank
                            add_ws(src, end[0].lin, end[0].lin + 1)
                    ps = (Item(Seq("str", (Sl(src, lin(0), end[0].lin),))),) + tuple(e)
                    r, atoms = complete_view(ps, s1, d, "nonws")
                    rep.ob("C24.dedent", verdict(r, ps), w, f"the item's text becomes {show(e)}", trail(s))
        each_unit(prog, rep, [fn], lambda f: [("peel", 2 if tier == "quick" else 3)], go2, kept, "C24.dedent")


# ---------------------------------------------------------------- block quotes

def quoted_first(I, st, doc, prog):
    """states in which the first line carries a quote marker"""
    st, line = line_value(I, st, doc, 0)
    return [s2 for s, v in quoted(I, st, prog, line) for s2, b in [(s, v)] if b]


def quoted(I, st, prog, line):
    """[(state, does the line carry a quote marker)]"""
    fs = [f for q, f in prog.funcs.items() if q.endswith(".is_explicit_block_quote_line")]
    if len(fs) != 1:
        raise AnalysisBroken("is_explicit_block_quote_line not found")
    f = fs[0]
    out = []
    for s, v in ask(I, st, f.mod, f.name + "(line)", line=line):
        if not isinstance(v, Exc):
            out += I.branch(s, I.truth(v, s))
    return out


def quote_lines(v):
    """[(prefix pieces, nested pass or None, rest)] of each output line"""
    out = []
    for k, ps in as_lines(v, None):
        if k != "one":
            return None
        pre = []
        u = None
        for i, p in enumerate(ps):
            u = outer(p)
            if u is not None:
                break
            pre.append(p)
        out.append((pre, u, ps[len(pre):]))
    return out


def quote_output(rep, A):
    I, w = A.I, A.where
    for st, v in A.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq):
            rep.ob("C21.quote", None, w, show(v))
            continue
        v = I.norm_seq(v, st)
        ls = quote_lines(v)
        if ls is None:
            rep.ob("C21.quote", None, w, f"the quote is rendered as {show(v)}", trail(st))
            continue
        if not v.p:
            continue
        for pre, u, rest in ls:
            c = Seq("str", tuple(pre)).const
            if c is None or unknown(pre):
                rep.ob("C21.quote", None, w, f"a line of the quote starts with {show(pre)}", trail(st))
                continue
            rep.ob("C21.quote", c[:1] == ">" and not c[1:].strip(" ") and len(c) < 3, w,
                   f"a line of the quote is rendered as {show(pre)} + {show(rest)}", trail(st))
            if u is None:
                continue
            d = left(A, st, u)
            m = None if d is None else mismatch(A, st, st.store.norm(d - len(c)))
            rep.ob("C21.width", True if m is False else False if m else None, w,
                   f"the quoted text is formatted {show(d)} narrower than its container, but its lines start with {c!r}", trail(st))


def source_lines(t):
    """the lines of the text handed to the nested pass"""
    q = t
    for _ in range(4):
        if isinstance(q, Term) and q.op == "cat":
            q = q.args[0]
        elif isinstance(q, Seq) and len(q.p) == 1 and isinstance(q.p[0], Sl) and q.p[0].src.op == "cat" and q.p[0] == full(q.p[0].src):
            q = q.p[0].src.args[0]
        else:
            break
    if not isinstance(q, Seq):
        return None
    ls = as_lines(q, None)
    if any(k != "one" for k, _ in ls):
        return None
    ls = [ps for _, ps in ls]
    if ls and not ls[-1]:
        ls = ls[:-1]
    return ls


def quote_content(rep, A, prog):
    """every line without its marker reaches the nested pass"""
    I, w = A.I, A.where
    for st, v in A.res:
        if isinstance(v, Exc):
            continue
        v = I.norm_seq(v, st) if isinstance(v, Seq) else v
        us = list({t for t in walk(v) if t.op == "U"} | {t for t in walk(v) if isinstance(t, Term) and t.op == "U"})
        if not us:
            continue        # nothing came back from the nested pass
        if len(us) > 1:
            rep.ob("C31.content", False, w, "the quote is formatted in several pieces", trail(st))
            continue
        ls = source_lines(us[0].args[0])
        n = st.store.norm(length_of(A.doc)).const
        if ls is None or n is None:
            rep.ob("C31.content", None, w, f"nested text {show(us[0].args[0])}", trail(st))
            continue
        if len(ls) != n:
            rep.ob("C31.content", verdict(False, [p for l in ls for p in l]), w, f"{n} lines are quoted, {len(ls)} are formatted: {show(ls)}", trail(st))
            continue
        for i, ps in enumerate(ls):
            one_line(rep, A, prog, st, i, ps, w)


def one_line(rep, A, prog, st, i, ps, w):
    I = A.I
    st, line = line_value(I, st, A.doc, i)
    e = Term("elem", A.doc, lin(i))
    for s, marked in quoted(I, st, prog, line):
        qs = list(ps)
        extra = 0
        while qs and isinstance(qs[0], (Lit, Rep)) and not (qs[0].s if isinstance(qs[0], Lit) else qs[0].v.const or "x").strip(">"):
            extra += 1
            qs = qs[1:]
        what = f"line {i + 1} of the quote is formatted as {show(ps)}"
        if marked and extra:
            rep.ob("C31.content", False, w, what, trail(s))
            continue
        if not marked:
            levels(rep, A, s, i, ps[:extra], w)
        q = I.norm_seq(Seq("str", tuple(qs)), s)
        if not q.p:
            lo = None
        elif len(q.p) == 1 and isinstance(q.p[0], Sl) and q.p[0].src == src_of(line) and s.store.entails_eq(q.p[0].hi - seq_len(line)):
            lo = q.p[0].lo
        else:
            within = any(isinstance(p, Sl) and isinstance(p.src, Term) and p.src.op == "cat" for p in q.p)
            rep.ob("C31.content", None if within else verdict(False, q.p), w, what, trail(s))
            continue
        head = Num(seq_len(line) if lo is None else lo)
        gone = "line[:k].strip()"
        ok = truth_of(I, s, A.cls.mod, f"{gone} == '>'" if marked else f"not {gone}", line=line, k=head)
        if ok and lo is not None:
            # at most one blank with it
            ok = truth_of(I, s, A.cls.mod, "len(line[:k].lstrip()) <= 2" if marked else "k <= 1", line=line, k=head)
        if ok is None and lo is not None and not marked and free(s.store.norm(lo)) and s.store.norm(lo).const is None:
            ok = False
        if ok is None and lo is None and marked:
            ok = truth_of(I, s, A.cls.mod, "line.lstrip()[:1] == '>' and not line.lstrip()[1:].strip()", line=line)
        if ok is False and marked and not any(meets(s, e, x) for x in MARKED):
            ok = None         # no line leads here
        if marked:
            rep.ob("C31.shrinks", True if ok else False if lo is not None and s.store.entails_eq(lo) else None, w,
                   what + ": the quote marker stays, so nesting never ends", trail(s))
        rep.ob("C31.content", ok, w, what, trail(s))


QUOTED = ("> a", ">> a", "> > a", "> a > b", "> a>b", ">> a > b", ">a>", "> > > a", "> -> a")


MARKED = [a + b + c for c in ("a", "", "a b", "> b", "  ", "a\\", "    a", "\ta", "* a", "# a", "```") for b in (">", "> ", ">> ", "> > ", ">  ", ">\t", ">>>", ">>  ", ">   > ", ">\x0c", ">\xa0")
          for a in ("", " ", "  ", "   ", "\x0c", "\xa0", "\t", "    ")]


def meets(s, e, x):
    """may line e be x, as far as that line goes?"""
    return lang.fits(s, e, x) is not False and \
        not any(lang.holds(t, e, x) is (not b) for t, b in s.facts.items() if isinstance(t, Term) and lang.mentions(t, e))


OTHER = ("b", " b", "  b", "    b", "> b", ">b", "", "-> b")


def together(s, doc, i, e, x):
    """lines of the document that the path can have, with e being x: every fact about x and other lines is true"""
    es = [Term("elem", doc, lin(j)) for j in range(i + 1)]
    ts = [(t, b) for t, b in s.facts.items() if isinstance(t, Term)]
    es = [y for y in es if y == e or any(lang.mentions(t, y) for t, _ in ts)]
    if len(es) > 4:
        return False
    for xs in itertools.product(*[(x,) if y == e else OTHER for y in es]):
        d = dict(zip(es, xs))
        if lang.fits(s, d, None) is False:
            continue
        ok = True
        for t, b in ts:
            over = [y for y in es if lang.mentions(t, y)]
            if not over:
                continue
            h = lang.holds(t, d, None)
            if h is (not b) or h is None and e in over and len(over) > 1:
                ok = False
                break
        if ok:
            return True
    return False


def levels(rep, A, s, i, ps, w):
    """the line is put behind as many markers as the line it continues has below the outermost"""
    n = s.store.norm(sum((lin(len(p.s)) if isinstance(p, Lit) else lin(p.n) for p in ps), lin(0)))
    es = [e for e in (Term("elem", A.doc, lin(j)) for j in range(i)) if any(isinstance(k, Term) and lang.mentions(k, e) for k in n.t)]
    if not es and i == 1 and n.const is not None:
        es = [Term("elem", A.doc, lin(0))]
    if len(es) != 1:
        return
    e = es[0]
    for x in QUOTED:
        if not meets(s, e, x) or not together(s, A.doc, i, e, x):
            continue
        got = n.const if n.const is not None else lang.value_of(n, e, x)
        bare = "".join(x.split())
        want = len(bare) - len(bare.lstrip(">")) - 1
        if got is not None:
            rep.ob("C31.levels", got == want, w, f"a line that continues {x!r} is put behind {got} markers, not {want}", trail(s))


def src_of(line):
    return line.p[0].src if isinstance(line, Seq) and len(line.p) == 1 and isinstance(line.p[0], Sl) else None


def quotes(prog, rep, tier, evaluate, tag, whats):
    cls = formatter_class(prog, "BLOCK_QUOTE")
    m = cls.attrs.get("reformatted")
    from ..report import Report
    sub = Report(rep.prop, rep.tier, "")

    def go(fn, mode, budget):
        A = Alone(prog, "BLOCK_QUOTE", mode, budget, most=2 if tier == "quick" else 3, assume=quoted_first)
        A.u.A = A
        return A.u
    each_unit(prog, sub, [m] if hasattr(m, "loc") else [], lambda f: [("peel", 2 if tier == "quick" else 3)], go,
              lambda r, u, w: evaluate(r, u.A), tag)
    absorb(rep, sub)
    rep.stats["outcomes"] += sub.stats["outcomes"]
    rep.stats["functions"] |= sub.stats["functions"]
    rep.stats["call_sites"] += sub.stats["call_sites"]


def check_C31(prog, rep, prop, tier):
    quotes(prog, rep, tier, lambda r, A: quote_content(r, A, prog), "C31.content", None)
    return rep


def check_C24(prog, rep, prop, tier):
    lists(prog, rep, prop, "C24")
    splitting(prog, rep, tier)
    return rep


def check_C21(prog, rep, prop, tier):
    lists(prog, rep, prop, "C21")
    quotes(prog, rep, tier, quote_output, "C21.quote", None)
    return rep
