"""C17: what a single line can open."""
from .. import lang
from ..interp import Config, Exc
from ..model import AnalysisBroken
from ..terms import Term, lin
from ..values import *
from .fmt import *
from .code import trail
from .partition import list_of
from .progress import registry_funcs

OPENERS = ("ATX_HEADING", "BLOCK_QUOTE", "BULLET_LIST", "ORDERED_LIST", "SETEXT_HEADING", "THEMATIC_BREAK")
BREAK = r"\s{0,3}(?:(?:\*\s*){3,}|(?:-\s*){3,}|(?:_\s*){3,})$"
DEEP = "line.strip() != '' and len(line) - len(line.lstrip()) >= 4"


def holding(u, st, mod, text, **env):
    """the states in which a condition holds"""
    out = []
    for s, v in ask(u.I, st, mod, text, **env):
        if not isinstance(v, Exc):
            out += [s2 for s2, b in u.I.branch(s, u.I.truth(v, s)) if b]
    return out


def elem(doc, i):
    t = Term("elem", doc, lin(i))
    t.sort = "str"
    return t


def asked(prog, fn, plain=()):
    """the other public detectors, kept as a contract"""
    pub = {f.qual for f in splitters(prog) if f.name in SPLIT_NAMES} - {f.qual for f in plain}
    return {k: v for k, v in detector_opaque(prog, fn).items() if k in pub or "parse_markdown" in k}


def run(u, prog, fn, st, r, plain=()):
    """[(state, lines taken)] of a detector"""
    u.I.cfg.opaque = asked(prog, fn, plain)
    out = []
    for s, v in u.I.call_func(fn, [r], {}, st, fn.node, u.I.module_frame(fn.mod)):
        if isinstance(v, Exc):
            continue
        a = list_of(s, v.items[0], u.I) if isinstance(v, Tup) and v.items else None
        out.append((s, None if a is None else seq_len(a)))
    return out


def accepted(u, rs):
    out = []
    for s, k in rs:
        if k is None:
            out.append((s, None))
            continue
        s2 = u.I.with_ge(s, k - 1)
        if s2 is not None:
            out.append((s2, k))
    return out


def declined(u, rs):
    return [(s2, k) for s, k in rs for s2 in [s if k is None else u.I.with_ge(s, -k)] if s2 is not None]


def start(prog, fn, mode, budget, most):
    u = Unit(prog, fn, mode, budget)
    u.doc = strlist("lines")
    st = u.I.with_ge(u.st, length_of(u.doc) - 1)
    if most:
        st = u.I.with_ge(st, lin(most) - length_of(u.doc))
    u.st, u.r = u.I.value_of(u.doc, st)
    return u


def judge(rep, u, rule, bad, fn, what, i=0, pats=()):
    """bad: states that should be impossible"""
    w = f"{fn.loc} ({fn.qual})"
    res = True if u.mode == "fix" else "bounded"
    for s, k in bad:
        ok, ex = lang.possible(u.I, s, elem(u.doc, i), pats)
        if ok is False:
            continue
        if k is None or any(d.op == "take" for d in s.store.dims() if isinstance(d, Term)):
            ok, ex = None, ex or "another detector was asked"
        if ok:
            rep.ob(rule, False, w, f"{what}, e.g. {ex!r}", trail(s))
            return False
        res = None
        why = ex
    rep.ob(rule, res, w, what + (f" ({why})" if res is None else ""))
    return res is True


def order(prog):
    try:
        fs = registry_funcs(prog)
        return [f.qual for f in fs] if fs else None
    except AnalysisBroken:
        raise
    except Exception:
        return None


def before(seq, a, b):
    """is detector a tried before detector b (not known: yes)"""
    return seq is None or a.qual not in seq or b.qual not in seq or seq.index(a.qual) < seq.index(b.qual)


def deep(prog, rep, modes):
    seq = order(prog)
    ind = splitter_of(prog, "INDENTED_CODE_BLOCK")
    for kind in OPENERS:
        fn = splitter_of(prog, kind)
        if not before(seq, fn, ind):
            continue        # never asked about such a line

        def go(fn, mode, budget):
            u = start(prog, fn, mode, budget, None if mode == "fix" else 2)
            u.kind = kind
            st, line = line_value(u.I, u.st, u.doc, 0)
            u.res = [x for s in holding(u, st, fn.mod, DEEP, line=line) for x in run(u, prog, fn, s, u.r)]
            return u
        units(prog, rep, [fn], modes, go,
              lambda u: judge(rep, u, "C17.deep", accepted(u, u.res), u.fn, f"a line indented by four or more opens: {kind.lower()}"), "C17.deep")

    def code(fn, mode, budget):
        u = start(prog, fn, mode, budget, None if mode == "fix" else 2)
        st, line = line_value(u.I, u.st, u.doc, 0)
        u.res = [x for s in holding(u, st, fn.mod, DEEP, line=line) for x in run(u, prog, fn, s, u.r)]
        return u
    units(prog, rep, [ind], modes, code,
          lambda u: judge(rep, u, "C17.code", declined(u, u.res), u.fn, "a line indented by four or more does not open an indented code block"), "C17.code")


def underline(prog, rep, tier):
    fn = splitter_of(prog, "SETEXT_HEADING")
    n = 2 if tier == "quick" else 3

    def go(fn, mode, budget):
        u = start(prog, fn, mode, budget, n)
        st, line = line_value(u.I, u.st, u.doc, 0)
        u.res = []
        u.I.cfg.opaque = asked(prog, fn)
        for s, v in u.I.call_func(fn, [u.r], {}, st, fn.node, u.I.module_frame(fn.mod)):
            if isinstance(v, Exc):
                continue
            a = list_of(s, v.items[0], u.I) if isinstance(v, Tup) and v.items else None
            k = None if a is None else s.store.norm(seq_len(a)).const
            if k == 0:
                continue
            u.res.append((s, k))
        return u

    def ev(u):
        by = {}
        for s, k in u.res:
            if k is None:
                by.setdefault(0, []).append((s, None))
                continue
            s1, line = line_value(u.I, s, u.doc, int(k) - 1)
            for s2 in holding(u, s1, u.fn.mod, DEEP, line=line):
                by.setdefault(int(k) - 1, []).append((s2, k))
        for i in range(n):
            judge(rep, u, "C17.underline", by.get(i, []), u.fn, "a line indented by four or more underlines a heading", i)
    units(prog, rep, [fn], [("peel", n)], go, ev, "C17.underline")


def breaks(prog, rep, modes, tier):
    seq = order(prog)
    br = splitter_of(prog, "THEMATIC_BREAK")
    for kind in ("BULLET_LIST", "ORDERED_LIST", "PARAGRAPH"):
        fn = splitter_of(prog, kind)
        if kind != "PARAGRAPH" and before(seq, fn, br):
            def go(fn, mode, budget):
                u = start(prog, br, mode, budget, None if mode == "fix" else 2)
                u.res = [x for s, k in accepted(u, run(u, prog, br, u.st, u.r)) for x in run(u, prog, fn, s, u.r)]
                return u
            units(prog, rep, [fn], modes, go,
                  lambda u: judge(rep, u, "C17.break", accepted(u, u.res), fn, f"a thematic break is taken for: {kind.lower()}"), "C17.break")

            def plain(fn, mode, budget):
                u = start(prog, fn, mode, budget, None if mode == "fix" else 2)
                u.res = run(u, prog, fn, u.st, u.r)
                return u
            units(prog, rep, [fn], modes, plain,
                  lambda u: judge(rep, u, "C17.rule", accepted(u, u.res), fn, f"a line of three or more *, - or _ is taken for: {kind.lower()}", 0,
                                  [(BREAK, True)]), "C17.rule")
        # further lines
        m = 2 if tier == "quick" else 3

        def more(fn, mode, budget):
            u = start(prog, fn, mode, budget, m)
            u.res = [(s, None if k is None else s.store.norm(k).const) for s, k in run(u, prog, fn, u.st, u.r, (br,))]
            out = []
            for s, k in u.res:
                for i in range(1, m if k is None else int(k)):
                    s1, line = line_value(u.I, s, u.doc, i)
                    s1, r = u.I.new_list(s1, [Item(line)])
                    for s2 in holding(u, s1, fn.mod, "line[:2] in ('- ', '* ')", line=line):
                        out += [(s3, i, k2) for s3, k2 in accepted(u, run(u, prog, br, s2, r))]
            u.bad = out
            return u

        def ev(u):
            for i in range(1, m):
                judge(rep, u, "C17.break", [(s, k) for s, j, k in u.bad if j == i], fn,
                      f"a thematic break after the first line is taken for part of: {kind.lower()}", i)
        units(prog, rep, [fn], [("peel", m)], more, ev, "C17.break")


def check(prog, rep, prop, tier):
    modes = [("fix", 2), ("peel", 2 if tier == "quick" else 3)]
    deep(prog, rep, modes)
    underline(prog, rep, tier)
    breaks(prog, rep, modes, tier)
    return rep
