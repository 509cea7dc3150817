"""C34: a rendered setext heading is underlined exactly as far as its longest line."""
from ..interp import Exc, Config
from ..terms import Term, lin
from ..values import *
from .aligned import Judge, can
from .content import show
from .fmt import *
from .partition import list_of
from .precedence import elem

WRAPPED = strlist("wrapped")


def wraps(I, st, args, kw, node, fid):
    """the heading on one, two or three lines"""
    out = []
    for n in (1, 2, 3):
        s, ps = st, []
        for i in range(n):
            e = elem(WRAPPED, i)
            s = s and I.with_ge(s, length_of(e) - 1)
            ps += ([Lit("\n")] if i else []) + [full(e)]
        if s is not None:
            out.append((s, Seq("str", tuple(ps))))
    return out


def check(prog, rep, prop, tier):
    def make(mode, budget):
        c = Config()
        c.lines, c.free_while = (WRAPPED,), True
        S = Section(prog, "SETEXT_HEADING", mode, budget, cfg=c, opaque={WRAP: wraps})
        # headings of one and two lines, whatever takes them
        frame = S.I.module_frame(S.cls.mod)
        st = S.I.with_ge(S.u.st, length_of(S.doc) - 2)
        for n in (1, 2):
            s, ls = st, []
            for i in range(n):
                s, x = line_value(S.I, s, S.doc, i)
                ls.append(Item(x))
            for s2, x in ask(S.I, s, S.cls.mod, "all(x.strip() for x in (%s,))" % ", ".join("abc"[:n]), **dict(zip("abc", [i.v for i in ls]))):
                for s3, b in [] if isinstance(x, Exc) else S.I.branch(s2, S.I.truth(x, s2)):
                    if b:
                        s3, ref = S.I.new_list(s3, tuple(ls) + (Item(Seq("str", (Lit("---"),))),))
                        S.run(s3, ref, "reformatted", frame)
        return S

    def ev(rep, S):
        J = Judge(rep, S.where)
        for st, v, k in S.res:
            if isinstance(v, Exc):
                continue
            ls = as_lines(S.I.norm_seq(v, st), st) if isinstance(v, Seq) else []
            if len(ls) < 2 or any(kind != "one" for kind, _ in ls) or not all(isinstance(p, (Rep, Lit)) for p in ls[-1][1]):
                J.put("C34.length", None, f"a heading is rendered as {show(v)}", st)
                continue
            ns = [st.store.norm(seq_len(Seq("str", tuple(x)))) for _, x in ls]
            n = ns.pop()
            for i, m in enumerate(ns):
                r = True if st.store.entails_ge(n - m) else False if can(st, m - n - 1) else None
                J.put("C34.length", r, f"line {i + 1} of a heading of {len(ns)} may be longer than the underline", st)
            r = True if any(st.store.entails_ge(m - n) for m in ns) else False if can(st, *[n - m - 1 for m in ns]) else None
            J.put("C34.length", r, f"the underline of a heading of {len(ns)} lines may be longer than all of them", st)
        J.done()
    sections(prog, rep, "SETEXT_HEADING", [("peel", 2 if tier == "quick" else 3)], ev, "C34.length", make)
    return rep
