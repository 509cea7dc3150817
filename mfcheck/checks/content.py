"""C29 headings and paragraphs, C26 thematic breaks: what the formatters of single pieces of text produce."""
import re

from .. import lang
from ..cover import complete_view, view_of, reduce_to
from ..interp import Exc, Config
from ..terms import Term, lin
from ..values import *
from .fmt import *
from .code import trail, first_elem, UNKNOWN
from .util import walk


def show(x, n=260):
    return str(x)[:n]


def unknown(pieces):
    return any(x.op in UNKNOWN for x in walk(tuple(pieces)))


def verdict(r, pieces):
    """a failed coverage of pieces whose origin is not known settles nothing"""
    return None if r is False and unknown(pieces) else r


def covers(st, pieces, doc, lo, hi):
    """do the pieces hold the non-white text of lines lo..hi of the document? True/False/None"""
    v = view_of(tuple(pieces), st, doc)
    if v == "empty":
        return st.store.entails_ge(lin(lo) - lin(hi)), v
    if v is not None:
        ok = st.store.entails_eq(v[0] - lo) and st.store.entails_eq(v[1] - hi)
        return ok, v
    atoms = reduce_to(tuple(pieces), st, doc)
    if any(a[0] == "top" for a in atoms):
        return (False if loses(pieces, st, doc) else None), atoms
    if st.store.entails_eq(lin(hi) - lin(lo) - 1):
        # a single line
        e = first_elem(doc, st.store.norm(lin(lo)))
        r, atoms = complete_view(tuple(pieces), st, e)
        return verdict(r, pieces), atoms
    return verdict(False, pieces), atoms


def loses(pieces, st, doc):
    """some line is taken over by a rule that drops text of it, whatever the line"""
    for p in pieces:
        if isinstance(p, (Join, Wrapd)) and loses(p.seq.p, st, doc):
            return True
        if isinstance(p, Img) and p.tmpl is not None and st.store.entails_eq(p.n - length_of(doc)):
            v = p.tmpl
            if isinstance(v, Seq) and not unknown(v.p) and not any(q.op == "top" for q in walk(v.p)):
                e = [x for x in walk(v.p) if x.op == "elem" and x.args[0] is doc]
                if e and all(x is e[0] for x in e) and complete_view(v.p, st, e[0])[0] is False:
                    return True
    return False


def atx(rep, S):
    I, doc, w = S.I, S.doc, S.where
    for st, v, k in S.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq) or k is None:
            rep.ob("C29.text", None, w, show(v))
            continue
        v = I.norm_seq(v, st)
        r, atoms = covers(st, v.p, doc, 0, k)
        rep.ob("C29.text", r, w, f"the heading is rendered as {show(v)}", trail(st))
        if any(isinstance(p, Wrapd) or isinstance(p, Lit) and "\n" in p.s for p in v.p):
            rep.ob("C29.level", False, w, f"the heading is spread over several lines: {show(v)}", trail(st))
            continue
        # level: the run of # the text starts with, closed by a blank or the end
        st1, line = line_value(I, st, doc, 0)
        same = truth_of(I, st1, S.cls.mod, "len(out) - len(out.lstrip('#')) == len(line.strip()) - len(line.strip().lstrip('#'))", out=v, line=line)
        if same is None:
            same = rep_level(I, st1, v, line, S)
        rep.ob("C29.level", same, w, f"the level of {show(v)}", trail(st))
        gap = truth_of(I, st1, S.cls.mod, "out.lstrip('#') == '' or out.lstrip('#')[0] == ' '", out=v)
        if gap is None and len(v.p) >= 2 and isinstance(v.p[0], Rep) and v.p[0].v.const == "#" and isinstance(v.p[1], Lit):
            gap = v.p[1].s[:1] == " "
        rep.ob("C29.level", gap, w, f"no blank after the marker in {show(v)}", trail(st))
    return True


def rep_level(I, st, v, line, S):
    """'#' * n followed by something that is not '#'"""
    if not v.p or not (isinstance(v.p[0], Rep) and v.p[0].v.const == "#"):
        return None
    if len(v.p) > 1 and not (isinstance(v.p[1], Lit) and v.p[1].s[:1] != "#"):
        return None
    n = v.p[0].n
    for s, x in ask(I, st, S.cls.mod, "len(line.strip()) - len(line.strip().lstrip('#'))", line=line):
        if isinstance(x, Num):
            d = s.store.norm(n - x.lin)
            if s.store.entails_eq(d):
                continue
            return False if d.const is not None or s.store.entails_ge(d - 1) or s.store.entails_ge(-d - 1) else None
        return None
    return True


def setext(rep, S):
    I, doc, w = S.I, S.doc, S.where
    for st, v, k in S.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq) or k is None:
            rep.ob("C29.text", None, w, show(v))
            continue
        v = I.norm_seq(v, st)
        ls = as_lines(v, st)
        if len(ls) < 2 or ls[-1][0] != "one":
            rep.ob("C29.level", None, w, f"no underline found in {show(v)}", trail(st))
            continue
        body = []
        for kind, x in ls[:-1]:
            body += list(x) if kind == "one" else [x]
            body.append(Lit("\n"))
        r, atoms = covers(st, body, doc, 0, lin(k) - 1)
        rep.ob("C29.text", r, w, f"the heading text is rendered as {show(body)}", trail(st))
        under = Seq("str", ls[-1][1])
        st1, line = line_value(I, st, doc, lin(k) - 1)
        ok = None
        if len(under.p) == 1 and isinstance(under.p[0], Rep):
            ok = truth_of(I, st1, S.cls.mod, "c == line.strip()[0]", c=under.p[0].v, line=line)
            if st1.store.entails_ge(-under.p[0].n):
                ok = False
        elif not under.p:
            ok = False
        else:
            e = first_elem(doc, st.store.norm(lin(k) - 1))
            r2, _ = complete_view(under.p, st, e)
            ok = True if r2 is True else None
        rep.ob("C29.level", ok, w, f"the underline is {show(under)}", trail(st))
    return True


def paragraph(rep, S):
    I, doc, w = S.I, S.doc, S.where
    for st, v, k in S.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq) or k is None:
            rep.ob("C29.text", None, w, show(v))
            continue
        v = I.norm_seq(v, st)
        r, atoms = covers(st, v.p, doc, 0, k)
        rep.ob("C29.text", r, w, f"the paragraph is rendered as {show(v)}", trail(st))
        st1, line = line_value(I, st, doc, lin(k) - 1)
        rs = ask(I, st1, S.cls.mod, "line.endswith('  ')", line=line)
        for s, x in rs:
            if isinstance(x, Exc):
                continue
            for s2, b in I.branch(s, I.truth(x, s)):
                if not b:
                    rep.ob("C29.break", True, w)
                    continue
                p = v.p[-1] if v.p else None
                ok = truth_of(I, s2, S.cls.mod, "out.endswith('  ')", out=v)
                if isinstance(p, Lit):
                    ok = p.s.endswith("  ")
                elif isinstance(p, Wrapd):
                    # a wrapped text never ends in blanks it did not get
                    ok = False if ok is not True else ok
                rep.ob("C29.break", ok, w, f"a hard line break ends as {show(v)}", trail(s2))
    return True


def check_C29(prog, rep, prop, tier):
    b = 2 if tier == "quick" else 4
    sections(prog, rep, "ATX_HEADING", [("fix", 2), ("peel", b)] + deeper(tier, 5), atx, "C29.text")
    sections(prog, rep, "SETEXT_HEADING", [("fix", 2), ("peel", b)] + deeper(tier, 5), setext, "C29.text")
    sections(prog, rep, "PARAGRAPH", [("fix", 2), ("peel", b)] + deeper(tier, 5), paragraph, "C29.text")
    return rep


# ---------------------------------------------------------------- thematic breaks

BREAKS = ("***", "---", "___", " ***", "   - - -", "* * *  ", " _  _ _ ")


def other_char(I, st, v, doc):
    """a character taken from the break that is another one for some breaks"""
    es = {x for x in walk(v) if x.op == "elem" and x.args[0] is doc}
    if len(es) != 1:
        return False
    e = es.pop()
    for t in BREAKS:
        try:
            if lang.conc(v, e, t) != t.strip()[0] and lang.possible(I, st, e, [(re.escape(t) + "$", True)])[0]:
                return True
        except lang.No:
            return False
    return False


def thematic(rep, S):
    I, doc, w = S.I, S.doc, S.where
    for st, v, k in S.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq):
            rep.ob("C26.char", None, w, show(v))
            continue
        v = I.norm_seq(v, st)
        st1, line = line_value(I, st, doc, 0)
        ok, n = None, None
        if len(v.p) == 1 and isinstance(v.p[0], Rep):
            ok = truth_of(I, st1, S.cls.mod, "c == line.strip()[0]", c=v.p[0].v, line=line)
            if ok is None:
                for ch in "*-_":
                    if truth_of(I, st1, S.cls.mod, f"line.strip()[0] == {ch!r}", line=line):
                        ok = truth_of(I, st1, S.cls.mod, f"c == {ch!r}", c=v.p[0].v)
            if ok is None and other_char(I, st, v.p[0].v, doc):
                ok = False
            n = v.p[0].n
        elif v.const is not None:
            ok = False if len(set(v.const)) != 1 or v.const[0] not in "*-_" else \
                truth_of(I, st1, S.cls.mod, "c == line.strip()[0]", c=Seq("str", (Lit(v.const[0]),)), line=line)
            n = lin(len(v.const))
        elif len(v.p) == 1 and isinstance(v.p[0], Sl):
            # part of the source line itself
            n = v.p[0].hi - v.p[0].lo
        rep.ob("C26.char", ok, w, f"the break is rendered as {show(v)}", trail(st))
        if n is not None:
            if st.store.entails_ge(lin(n) - 3):
                enough = True
            else:
                # n is a plain function of the width: shorter values are possible
                only = all(d is S.width for d in st.store.norm(lin(n)).t)
                enough = False if only and I.with_ge(st, 2 - lin(n)) is not None else None
            rep.ob("C26.length", enough, w, f"{n} characters", trail(st))
    return True


def check_C26(prog, rep, prop, tier):
    for width in ("int", "inf"):
        sections(prog, rep, "THEMATIC_BREAK", [("fix", 2), ("peel", 2)], thematic, "C26.char",
                 make=lambda mode, b: Section(prog, "THEMATIC_BREAK", mode, b, width=width))
    return rep
