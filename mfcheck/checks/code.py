"""C22: code blocks are reproduced verbatim."""
import re

from .. import lang
from ..cover import complete_view, view_of, reduce_to
from ..interp import Exc, Config
from ..terms import Term, lin
from ..values import *
from .fmt import *
from .util import walk


def trail(st):
    return tuple(f"{k} is {v}" for k, v in list(st.facts.items())[:40])


def tri(pieces, st, target, mode):
    return complete_view(pieces, st, target, mode)


def first_elem(doc, i=0):
    t = Term("elem", doc, lin(i))
    t.sort = "str"
    return t


def body_view(lines, st, doc):
    """(lo, hi) of the document lines a run of output lines reproduces; None unknown; False wrong"""
    items = []
    for k, v in lines:
        if k == "one":
            items.append(Item(Seq("str", v)))
        else:
            items.append(v)
    if not items:
        return "empty"
    atoms = reduce_to(tuple(items), st, doc, "rstrip")
    if len(atoms) == 1 and atoms[0][0] == "sl" and atoms[0][1] is doc:
        return atoms[0][2], atoms[0][3]
    if not atoms:
        return "empty"
    if any(a[0] == "top" for a in atoms):
        return None
    # pieces of other texts whose relation to the document is not known
    for a in atoms:
        if a[0] == "sl" and any(x.op in UNKNOWN for x in walk(a[1])):
            return None
    return False


UNKNOWN = {"callv", "ecall", "fcall", "mcall", "opaque", "phi", "fresh", "sorted", "rev", "sliced", "tget"}


CASE = {"upper", "lower", "title", "capitalize", "casefold", "swapcase", "expandtabs"}


def edited(v):
    """(what, text) if a text is the whole of another one with characters replaced, which no line break survives unchanged"""
    if len(v.p) == 1 and isinstance(v.p[0], Sl) and v.p[0].lo == lin(0):
        t = v.p[0].src
        if t.op == "replace" and all(isinstance(x, Seq) for x in t.args[:3]):
            a, b = t.args[1].const, t.args[2].const
            if a and b is not None and a != b and "\n" not in a:
                return f"replace({a!r}, {b!r})", t.args[0]
        if t.op in CASE and t.args and isinstance(t.args[0], Seq):
            return t.op + "()", t.args[0]
    return None


def edit_each(lines, doc):
    """an edit applied to each line of a run of output lines"""
    for k, p in lines:
        if k == "many" and isinstance(p, Img) and p.tmpl and not p.views:
            q = p.tmpl[1] if isinstance(p.tmpl, tuple) else p.tmpl
            q = q.p if isinstance(q, Seq) else ()
            if len(q) == 1 and isinstance(q[0], Sl):
                e = edited(Seq("str", (Sl(q[0].src, lin(0), q[0].hi),)))
                if e and len(e[1].p) == 1 and isinstance(e[1].p[0], Sl) and e[1].p[0].src.op == "elem" \
                        and e[1].p[0].src.args[0] is doc:
                    return e[0]
    return None


LINES = ("    a", "    a\tb", "\ta", "     a  b", "    \\a `b` \"c\" 'd' *e* _f_ <g> &amp;", "    A b", "    a\u00a0b", "    #a", "    - a", "    a\\\\")


def altered(I, st, lines, doc):
    """an operation on each line of the code after which some line is another one"""
    for k, p in lines:
        if k != "many" or not isinstance(p, Img) or not p.tmpl or p.views or not st.store.entails_ge(lin(p.n) - 1):
            continue
        q = p.tmpl[1] if isinstance(p.tmpl, tuple) else p.tmpl
        q = q.term if isinstance(q, Sym) else q
        es = {x for x in walk(q) if x.op == "elem" and x.args[0] is doc}
        if len(es) != 1:
            continue
        e = es.pop()
        for t in LINES:
            try:
                out = lang.conc(q, e, t)
            except lang.No:
                break
            if isinstance(out, str) and out.rstrip() != t and (
                    not any(e in set(walk(f)) for f in st.facts) or lang.possible(I, st, e, [(re.escape(t) + "$", True)])[0]):
                return f"{t!r} becomes {out!r}"
    return None


def check_edit(rep, S, st, v, w, first):
    """a text operation applied to rendered code: wrong as soon as there is a line of code it can meet"""
    e = edited(v)
    if e is None:
        return False
    what, inner = e
    ls = as_lines(S.I.norm_seq(inner, st), st)
    body = ls[1:-1] if first else ls
    b = body_view(body, st, S.doc) if body else "empty"
    if isinstance(b, tuple) and st.store.entails_ge(b[1] - b[0] - 1):
        rep.ob("C22.body", False, w, f"the lines of code pass through {what}", trail(st))
    else:
        rep.ob("C22.body", None, w, f"the text passes through {what}", trail(st))
    return True


def fenced(rep, S):
    I, doc = S.I, S.doc
    mod = S.cls.mod
    for st, v, k in S.res:
        if isinstance(v, Exc):
            continue
        w = S.where
        if not isinstance(v, Seq) or k is None:
            rep.ob("C22.body", None, w, f"the result is {str(v)[:200]}")
            continue
        v = I.norm_seq(v, st)
        if check_edit(rep, S, st, v, w, True):
            continue
        ls = as_lines(v, st)
        if len(ls) < 2 or ls[0][0] != "one" or ls[-1][0] != "one":
            rep.ob("C22.body", None, w, f"the result is not a list of lines: {str(v)[:300]}", trail(st))
            continue
        e0 = first_elem(doc)
        r, atoms = tri(ls[0][1], st, e0, "nonws")
        rep.ob("C22.fence", r, w, f"the opening line is rendered as {Seq('str', ls[0][1])!r:.300}", trail(st))
        n = lin(k)
        last = Term("elem", doc, st.store.norm(n - 1))
        rl, _ = tri(ls[-1][1], st, last, "nonws")
        st2, lv = line_value(I, st, doc, n - 1)
        st0, fv = line_value(I, st2, doc, 0)
        out_last = Seq("str", ls[-1][1])
        head = Seq("str", ls[0][1])
        # the closing line must be exactly the fence that opened the block
        same = True if st.store.entails_ge(n - 2) and rl is True else None
        if same is None or same is True:
            same = truth_of(I, st0, mod, "len(last) > 2 and last == first.strip()[0] * (len(first.strip()) - len(first.strip().lstrip(first.strip()[0])))",
                            last=out_last, first=fv)
        rep.ob("C22.fence", same if same is not False else False, w, f"the closing line is {out_last!r:.300}", trail(st))
        b = body_view(ls[1:-1], st, doc)
        e = edit_each(ls[1:-1], doc) or altered(I, st, ls[1:-1], doc)
        if e and b is None:
            rep.ob("C22.body", False, w, f"the lines of code are edited: {e}", trail(st))
            continue
        if b is None or b is False:
            rep.ob("C22.body", b, w, f"the lines between the fences are {[str(x)[:120] for x in ls[1:-1]][:6]}", trail(st))
            continue
        lo, hi = (lin(1), lin(1)) if b == "empty" else b
        if not st.store.entails_eq(lo - 1):
            rep.ob("C22.body", False, w, f"the code starts at line {lo} of the block", trail(st))
            continue
        if st.store.entails_eq(hi - n):
            # everything kept: the last line must not be a closing fence, or be the last output line
            rep.ob("C22.body", True, w)
            continue
        if not st.store.entails_eq(hi - n + 1):
            ok = False if st.store.entails_ge(n - 2 - hi) or st.store.norm(hi - n).const is not None else None
            rep.ob("C22.body", ok, w, f"lines 1 to {hi} of {n} are kept", trail(st))
            continue
        closing = truth_of(I, st0, mod, "line.strip() == first.strip()[0] * (len(first.strip()) - len(first.strip().lstrip(first.strip()[0])))",
                           line=lv, first=fv)
        if st.store.entails_eq(n - 1):
            closing = True      # a single line: nothing between
        rep.ob("C22.body", closing, w, "the last line is dropped although it does not close the block", trail(st))
    return all(s != "undecided" and s != "violated" for s in rep.status())


def indented(rep, S):
    I, doc = S.I, S.doc
    for st, v, k in S.res:
        if isinstance(v, Exc):
            continue
        w = S.where
        if not isinstance(v, Seq) or k is None:
            rep.ob("C22.body", None, w, f"the result is {str(v)[:200]}")
            continue
        v = I.norm_seq(v, st)
        if check_edit(rep, S, st, v, w, False):
            continue
        b = body_view(as_lines(v, st), st, doc)
        e = edit_each(as_lines(v, st), doc) or altered(I, st, as_lines(v, st), doc)
        if e and b is None:
            rep.ob("C22.body", False, w, f"the lines of code are edited: {e}", trail(st))
            continue
        if b in (None, False):
            rep.ob("C22.body", b, w, f"the lines are {str(v)[:300]}", trail(st))
            continue
        if b == "empty":
            rep.ob("C22.body", False, w, "nothing of the block is rendered", trail(st))
            continue
        lo, hi = b
        ok = st.store.entails_eq(lo) and st.store.entails_eq(hi - lin(k))
        rep.ob("C22.body", ok, w, f"lines {lo} to {hi} of {k} are kept", trail(st))
    return True


def check(prog, rep, prop, tier):
    b = 3 if tier == "quick" else 5
    for kind, f in (("FENCED_CODE_BLOCK", fenced), ("INDENTED_CODE_BLOCK", indented)):
        sections(prog, rep, kind, [("fix", 2), ("peel", b)] + deeper(tier, 5), f, "C22.body")
    return rep
