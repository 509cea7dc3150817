"""C19, C20, C30: what wrapping does to a text."""
import time
import ast

from .. import rx
from ..cover import complete_view, view_of, reduce_to, Cov, RUNS
from ..interp import Exc, Config
from ..model import AnalysisBroken
from ..terms import Term, Lin, lin
from ..values import *
from .fmt import *
from .code import trail
from .content import show, verdict
from .util import walk

MOD = "markflow._utils.textwrap"


def var(name, sort):
    t = Term("var", name)
    t.sort = sort
    return t


def is_stage(fn):
    """takes a text (and whether it follows white space), returns pieces, their leading spaces, whether they may be split further"""
    if fn.mod.name != MOD or "." in fn.qual[len(MOD) + 1:] or fn.is_gen or fn.node.returns is None:
        return False
    r = ast.unparse(fn.node.returns).lower().replace(" ", "")
    a = fn.node.args.args
    return r == "tuple[list[str],list[bool],list[bool]]" and len(a) == 2 and \
        [ast.unparse(x.annotation) if x.annotation else None for x in a] == ["str", "bool"]


def stages(prog):
    out = [f for f in prog.funcs.values() if is_stage(f)]
    return sorted(out, key=lambda f: f.qual)


def tri(u, s, v):
    """the three lists of a stage's result"""
    if not isinstance(v, Tup) or len(v.items) != 3:
        return None
    out = []
    for x in v.items:
        if not isinstance(x, Ref) or not isinstance(s.heap.get(x.id), LObj):
            return None
        out.append(u.I.norm_seq(s.heap[x.id].seq, s))
    return out


def run_stage(prog, fn, mode, budget, cfg=None):
    u = Unit(prog, fn, mode, budget, None, cfg)
    u.text = var("text", "str")
    st, a = u.I.value_of(u.text, u.st)
    st, b = u.I.value_of(var("lead", "bool"), st)
    u.res = u.call([a, b], st)
    return u


def each_unit(prog, rep, fns, modes, go, evaluate, tag):
    """like sections(): the fixpoint counts only if it settles everything"""
    from ..report import Report
    for fn in fns:
        w = f"{fn.loc} ({fn.qual})"
        took = 0
        for mode, budget in modes(fn):
            deep = mode == "deep"
            if deep and took > (4 if rep.tier == "quick" else 20):
                break
            mode = "peel" if deep else mode
            sub = Report(rep.prop, rep.tier, "")
            t0 = time.time()
            try:
                u = go(fn, mode, budget)
                rep.use(u.I)
                rep.stats["outcomes"] += len(u.res)
                if not u.res and mode != "fix":
                    sub.ob(tag, None, w, "no path returns")
                evaluate(sub, u, w)
            except AnalysisBroken:
                raise
            except (Budget, RecursionError) as e:
                rep.note(f"{fn.qual} ({mode}): {type(e).__name__} {e}")
                sub.ob(tag, None, w, f"not analysed: {type(e).__name__} {e}")
            except Exception as e:
                import os
                if os.environ.get("MFCHECK_DEBUG"):
                    raise
                rep.note(f"{fn.qual} ({mode}): internal {type(e).__name__}: {e}")
                sub.ob(tag, None, w, f"not analysed: {type(e).__name__}: {e}")
            took = time.time() - t0
            st = sub.status()
            if deep and "violated" not in st:
                continue
            if mode == "fix":
                if st and all(x == "proved" for x in st):
                    absorb(rep, sub)
                    break
                continue
            sub.downgrade("proved", "bounded")
            absorb(rep, sub)


# ---------------------------------------------------------------- C19

def stage_text(rep, u, w):
    for s, v in u.res:
        if isinstance(v, Exc):
            continue
        ls = tri(u, s, v)
        if ls is None:
            rep.ob("C19.stage", None, w, show(v))
            continue
        r, atoms = complete_view(ls[0].p, s, u.text, "nonws")
        rep.ob("C19.stage", verdict(r, ls[0].p), w, f"the pieces of the text are {show(ls[0])}", trail(s))
        for x, what in ((ls[1], "leading space flags"), (ls[2], "evaluate flags")):
            d = s.store.norm(seq_len(ls[0]) - seq_len(x))
            ok = True if s.store.entails_eq(d) else False if s.store.entails_ne(d) else None
            rep.ob("C19.lengths", ok, w, f"as many {what} as pieces (difference {show(d)}): pieces paired by position would be lost", trail(s))


def run_join(prog, fn, mode, budget, width="int", cfg=None):
    u = Unit(prog, fn, mode, budget, None, cfg)
    I = u.I
    u.words, u.leads = var("words", ("list", "str")), var("leads", ("list", "bool"))
    d = length_of(u.words) - length_of(u.leads)
    st = I.with_ge(I.with_ge(u.st, d), -d)
    st, a = I.value_of(u.words, st)
    st, b = I.value_of(u.leads, st)
    u.width = var("width", "int")
    u.res = u.call([a, b, Num(lin(u.width)) if width == "int" else INF], st)
    return u


def joined_text(rep, u, w):
    for s, v in u.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq):
            rep.ob("C19.join", None, w, show(v))
            continue
        v = u.I.norm_seq(v, s)
        r, atoms = complete_view(v.p, s, u.words, "nonws")
        rep.ob("C19.join", verdict(r, v.p), w, f"the joined text is {show(v)}", trail(s))


class Wrapping:
    """wrap() itself, its stages and join() replaced by their contracts"""

    def __init__(self, prog, mode, budget):
        self.prog = prog
        fn = prog.public(MOD, "wrap")
        u = self.u = Unit(prog, fn, mode, budget)
        self.I = u.I
        self.calls, self.joins = [], []
        for f in stages(prog):
            u.I.cfg.opaque[f.qual] = self.stage(f)
        u.I.cfg.opaque[prog.public(MOD, "join").qual] = self.join
        self.text, self.width = var("text", "str"), var("width", "int")
        st, a = u.I.value_of(self.text, u.st)
        u.res = u.call([a, Num(lin(self.width))], st)

    def stage(self, f):
        """the text cut in two at some place, the first piece final, the second to be split further"""
        def op(I, st, args, kw, node, fid):
            from ..lib_list import cut
            names = [x.arg for x in f.node.args.args]
            args = list(args) + [kw[n] for n in names[len(args):] if n in kw]
            if len(args) < 2 or not isinstance(args[0], Seq):
                return I.opaque_func(f, args, {}, st, node, fid)
            t = I.norm_seq(args[0], st)
            n = seq_len(t)
            k = Term("cut", f.qual, I.term(t, st))
            k.sort = "nat"
            self.calls.append((f, t, st))
            s = I.with_ge(st, n - lin(k))
            if s is None:
                return []
            a, b = cut(I, t, lin(0), lin(k), s), cut(I, t, lin(k), n, s)
            s, x = I.new_list(s, [Item(a), Item(b)])
            s, y = I.new_list(s, [Item(args[1]), Item(Const(True))])
            s, z = I.new_list(s, [Item(Const(False)), Item(Const(True))])
            return [(s, Tup([x, y, z]))]
        return op

    def join(self, I, st, args, kw, node, fid):
        f = self.prog.public(MOD, "join")
        names = [x.arg for x in f.node.args.args]
        args = list(args) + [kw.get(n) for n in names[len(args):]]
        self.joins.append((st, args))
        q = I.norm_seq(st.heap[args[0].id].seq, st) if isinstance(args[0], Ref) and isinstance(st.heap.get(args[0].id), LObj) else None
        if q is None:
            return [(st, str_term(fresh("joined", "str")))]
        return [(st, Seq("str", (Join(S(" "), q),)))]


def wrapped_text(rep, W, w):
    I = W.I
    for s, v in W.u.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq):
            rep.ob("C19.wrap", None, w, show(v))
            continue
        v = I.norm_seq(v, s)
        r, atoms = complete_view(v.p, s, W.text, "nonws")
        rep.ob("C19.wrap", verdict(r, v.p), w, f"the wrapped text is made of {show(v)}", trail(s))
    for s, args in W.joins:
        ns = [seq_len(I.norm_seq(s.heap[a.id].seq, s)) if isinstance(a, Ref) and isinstance(s.heap.get(a.id), LObj) else None
              for a in args[:2]]
        if None in ns:
            rep.ob("C19.lengths", None, w, "arguments of join not known")
            continue
        d = s.store.norm(ns[0] - ns[1])
        rep.ob("C19.lengths", True if s.store.entails_eq(d) else False if s.store.entails_ne(d) else None, w,
               f"as many leading space flags as pieces at join (difference {show(d)})", trail(s))


def modes(tier, quick, thorough):
    def f(fn):
        k = fn.qual.rsplit(".", 1)[-1]
        d = quick if tier == "quick" else thorough
        return d.get(k, d[None])
    return f


def wrap_unit(prog, rep, evaluate, tag, ms):
    fn = prog.public(MOD, "wrap")
    def go(fn, mode, budget):
        W = Wrapping(prog, mode, budget)
        W.u.W = W
        return W.u
    each_unit(prog, rep, [fn], lambda f: ms, go, lambda rep, u, w: evaluate(rep, u.W, w), tag)


def check_C19(prog, rep, prop, tier):
    ms = modes(tier, {None: [("fix", 2), ("peel", 2)], "link_split": [("fix", 2), ("peel", 1)], "code_split": [("fix", 2), ("peel", 3)]},
               {None: [("fix", 3), ("peel", 3)], "link_split": [("fix", 2), ("peel", 2)]})
    each_unit(prog, rep, stages(prog), ms, lambda f, m, b: run_stage(prog, f, m, b), stage_text, "C19.stage")
    j = prog.public(MOD, "join")
    each_unit(prog, rep, [j], lambda f: [("fix", 2), ("peel", 3)] + deeper(tier, 4), lambda f, m, b: run_join(prog, f, m, b), joined_text, "C19.join")
    wrap_unit(prog, rep, wrapped_text, "C19.wrap", [("fix", 2), ("peel", 5)])


# ---------------------------------------------------------------- C20

def words_of(pieces, words):
    """indices of the words a line is made of"""
    out = []
    for p in pieces:
        for x in walk((p,)):
            if x.op == "elem" and x.args[0] is words:
                if x.args[1] not in out:
                    out.append(x.args[1])
    return out


def narrow(rep, u, w):
    """every line built fits or is a single piece"""
    I = u.I
    for s, v in u.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq):
            rep.ob("C20.fits", None, w, show(v))
            continue
        v = I.norm_seq(v, s)
        ls = as_lines(v, s)
        wd = lin(u.width)
        for i, (kind, ps) in enumerate(ls):
            if kind != "one" or not all(isinstance(p, (Lit, Sl)) for p in ps):
                if kind == "one" and not ps:
                    continue
                rep.ob("C20.fits", None, w, f"line {show(ps)}", trail(s))
                continue
            n = seq_len(Seq("str", tuple(ps)))
            ws = [k for k in words_of(ps, u.words) if not s.store.entails_eq(length_of(Term("elem", u.words, k)))]
            if s.store.entails_ge(wd - n) or s.store.entails_ge(-wd):
                rep.ob("C20.fits", True, w)
            elif len(ws) <= 1 and not any(isinstance(p, Lit) and p.s.strip() for p in ps):
                rep.ob("C20.fits", True, w)
            else:
                # several pieces (at least two of them not empty) on a line longer than a positive width
                t = I.with_ge(s, wd - 1)
                t = t and I.with_ge(t, n - wd - 1)
                for k in ws[:2]:
                    t = t and I.with_ge(t, length_of(Term("elem", u.words, k)) - 1)
                rep.ob("C20.fits", t is None, w, f"a line longer than the width is made of {show(ps)}", trail(s))
            if i and s.store.entails_ge(-wd):
                unforced(rep, u, s, ls, i, w)


def unforced(rep, u, s, ls, i, w):
    """with no limit a break is made only where the text asks for one"""
    prev = words_of(ls[i - 1][1], u.words) if ls[i - 1][0] == "one" else []
    if not prev:
        rep.ob("C20.nolimit", None, w, f"line break after {show(ls[i - 1])}", trail(s))
        return
    e = Term("elem", u.words, prev[-1])
    asked = [t for t, b in s.facts.items() if b and t.op in ("rxm", "eq", "in", "sw", "ew", "lit") and any(x is e for x in walk(t))]
    rep.ob("C20.nolimit", bool(asked), w, f"under a width that is not positive the line is broken after {show(ls[i - 1][1])}", trail(s))


def unlimited(rep, u, w):
    for s, v in u.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq):
            rep.ob("C20.nolimit", None, w, show(v))
            continue
        ls = as_lines(u.I.norm_seq(v, s), s)
        rep.ob("C20.nolimit", True, w)
        for i in range(1, len(ls)):
            unforced(rep, u, s, ls, i, w)


def same_width(rep, W, w):
    for s, args in W.joins:
        x = args[2] if len(args) > 2 else None
        if not isinstance(x, Num):
            rep.ob("C20.passed", None, w, show(x))
            continue
        d = s.store.norm(x.lin - lin(W.width))
        ok = True if s.store.entails_eq(d) or s.store.entails_ge(-lin(W.width)) and s.store.entails_ge(-x.lin) else \
            False if s.store.entails_ne(d) else None
        rep.ob("C20.passed", ok, w, f"join gets width {show(x)}", trail(s))


def paragraph_width(rep, S):
    """the paragraph is wrapped to the width it is given"""
    for st, v, k in S.res:
        if isinstance(v, Exc):
            continue
        if not isinstance(v, Seq):
            rep.ob("C20.passed", None, S.where, show(v))
            continue
        v = S.I.norm_seq(v, st)
        for x in v.p:
            if isinstance(x, Wrapd):
                t = x.tag.args[0] if x.tag.op == "w" else None
                ok = None
                if isinstance(t, (Term, Lin)):
                    d = st.store.norm(lin(t) - lin(S.width))
                    ok = True if st.store.entails_eq(d) else False if st.store.entails_ne(d) else None
                rep.ob("C20.passed", ok, S.where, f"the text is wrapped to {show(t)}", trail(st))


def check_C20(prog, rep, prop, tier):
    j = prog.public(MOD, "join")
    n = 3 if tier == "quick" else 4
    each_unit(prog, rep, [j], lambda f: [("peel", n)], lambda f, m, b: run_join(prog, f, m, b), narrow, "C20.fits")
    each_unit(prog, rep, [j], lambda f: [("peel", n)], lambda f, m, b: run_join(prog, f, m, b, "inf"), unlimited, "C20.nolimit")
    wrap_unit(prog, rep, same_width, "C20.passed", [("fix", 2), ("peel", 5)])
    sections(prog, rep, "PARAGRAPH", [("fix", 2), ("peel", 2)] + deeper(tier, 4), paragraph_width, "C20.passed")


# ---------------------------------------------------------------- C30

def matches(st, seqs):
    """(start, end) of the matches a stage looked at, in order, if they all come from one search"""
    found = {}
    seen = set()
    for x in walk(tuple(seqs)) + list(st.store.dims()) + list(st.facts):
        for t in walk(x):
            if t.op in ("ms", "me") and isinstance(t.args[0], Term) and t.args[0].op == "rxelem":
                e = t.args[0]
                i = lin(e.args[1]).const
                if i is not None:
                    found.setdefault(e.args[0], {})[int(i)] = e
    if len(found) != 1:
        return None, None
    (src, ms), = found.items()
    return src, [ms[i] for i in sorted(ms)]


def ends(e):
    out = []
    for op in ("ms", "me"):
        t = Term(op, e)
        t.sort = "nat"
        out.append(lin(t))
    return out


def pieces_of(u, s, ls):
    """[(range in the text or None, exact?, flag)]"""
    q, _, ev = ls
    if not all(isinstance(p, Item) for p in q.p) or len(q.p) != len(ev.p) or not all(isinstance(p, Item) for p in ev.p):
        return None
    out = []
    for p, f in zip(q.p, ev.p):
        v = u.I.norm_seq(p.v, s) if isinstance(p.v, Seq) else None
        flag = f.v.v if isinstance(f.v, Const) else any(b for _, b in u.I.branch(s, u.I.truth(f.v, s)))
        if v is None:
            out.append((None, None, flag, v))
            continue
        r = place(v, s, u.text, "exact")
        if r is not None:
            out.append((r, True, flag, v))
        else:
            out.append((place(v, s, u.text, "nonws"), False, flag, v))
    return out


def place(v, s, text, mode):
    """the part of the text these pieces are"""
    r = view_of(v.p, s, text, mode)
    if r is not None:
        return None if r == "empty" else r
    starts = [lo for lo, hi, ch in RUNS.get(text, ())] + [p.lo for p in v.p[:1] if isinstance(p, Sl) and p.src is text]
    for lo in starts:
        c = Cov(s, text, mode, ())
        c.stack = [("sl", text, lo, lo)]
        for a in reduce_to(v.p, s, text, mode):
            c.push(a)
        if len(c.stack) == 1 and c.stack[0][0] == "sl" and c.stack[0][1] is text:
            return c.stack[0][2], c.stack[0][3]
    return None


def final_pieces(rep, u, w):
    for s, v in u.res:
        if isinstance(v, Exc):
            continue
        ls = tri(u, s, v)
        ps = pieces_of(u, s, ls) if ls else None
        if ps is None:
            rep.ob("C30.verbatim", None, w, show(v))
            continue
        for r, exact, flag, x in ps:
            if flag is False:
                ok = True if r is not None and exact else None if x is None or r is None and unknown_text(x) else False
                rep.ob("C30.verbatim", ok, w, f"a piece not to be touched again is {show(x)}", trail(s))
            else:
                rep.ob("C30.verbatim", True, w)


def unknown_text(x):
    from .content import unknown
    return unknown(x.p)


def spans(rep, u, w):
    """a recognised code span or link target is one final piece"""
    for s, v in u.res:
        if isinstance(v, Exc):
            continue
        ls = tri(u, s, v)
        ps = pieces_of(u, s, ls) if ls else None
        if ps is None:
            continue
        src, ms = matches(s, ls)
        if src is None or not isinstance(src.args[0], tuple):
            continue
        pats = [q for q in src.args[0] if isinstance(q, tuple) and q[0] is not None]
        if pats and all(rx.may_match_chars(q[0], "`ab1 .[(", q[1]) == {"`"} for q in pats):
            code_span(rep, u, s, ms, ps, w)
        elif pats and all(any(x in "".join(rx.mandatory(q[0], q[1])) for x in ("[", "]")) for q in pats):
            targets(rep, u, s, ms, ps, w)


def held(s, ps, lo, hi):
    """flag of the piece that holds text[lo:hi] whole (None: no such piece, '?': not known)"""
    vague = False
    for r, exact, flag, x in ps:
        if r is None:
            vague = True
        elif s.store.entails_ge(lin(lo) - lin(r[0])) and s.store.entails_ge(lin(r[1]) - lin(hi)):
            return flag
    return "?" if vague else None


def code_span(rep, u, s, ms, ps, w):
    i = 0
    while i < len(ms):
        a, b = ends(ms[i])
        for j in range(i + 1, len(ms)):
            c, d = ends(ms[j])
            n = s.store.norm((d - c) - (b - a))
            if s.store.entails_eq(n):
                break
            if not s.store.entails_ne(n):
                return
        else:
            return
        f = held(s, ps, a, d)
        if f is not False and one_marker(u, s, a, d):
            return
        rep.ob("C30.code", None if f == "?" else f is False, w,
               "a closed code span is not kept as one final piece: " + show([x for _, _, _, x in ps]), trail(s))
        i = j + 1


def one_marker(u, s, a, d):
    """does the path rest on a text with two marker runs having been found to hold at most one (which cannot be)"""
    for x in walk(list(s.store.dims()) + list(s.facts)):
        if x.op == "findall" and isinstance(x.args[1], Seq) and s.store.entails_ge(1 - length_of(x)):
            r = place(x.args[1], s, u.text, "exact")
            if r is not None and s.store.entails_ge(a - lin(r[0])) and s.store.entails_ge(lin(r[1]) - d):
                return True
    return False


def targets(rep, u, s, ms, ps, w):
    last = lin(0)
    for m in ms:
        a, b = ends(m)
        if not s.store.entails_ge(a - last):
            return
        at_end = [(r, flag) for r, exact, flag, x in ps if r is not None and
                  (s.store.entails_eq(lin(r[1]) - b) or s.store.entails_ge(b - 1 - lin(r[0])) and s.store.entails_ge(lin(r[1]) - b))]
        if any(flag is False for r, flag in at_end) or any(flag is False and x is not None and not x.p for r, exact, flag, x in ps):
            ok = True
        elif any(flag is True and u.I.with_ge(s, lin(r[1]) - lin(r[0]) - 1) is not None for r, flag in at_end):
            ok = False
        else:
            ok = None
        rep.ob("C30.target", ok, w,
               "a link target is not kept as a final piece: " + show([x for _, _, _, x in ps]), trail(s))
        last = b


def whole_words(rep, u, w):
    """join puts every piece on a line as it is"""
    for s, v in u.res:
        if isinstance(v, Exc) or not isinstance(v, Seq):
            continue
        for kind, ps in as_lines(u.I.norm_seq(v, s), s):
            if kind != "one":
                continue
            for p in ps:
                if isinstance(p, Sl) and p.src.op == "elem" and p.src.args[0] is u.words:
                    ok = s.store.entails_eq(p.lo) and s.store.entails_eq(p.hi - length_of(p.src))
                    rep.ob("C30.whole", ok, w, f"only part of a piece is put on a line: {show(ps)}", trail(s))
                elif not isinstance(p, (Lit, Sl)):
                    rep.ob("C30.whole", None if unknown_text(Seq("str", tuple(ps))) else not isinstance(p, (Join, Wrapd)), w, f"a line is made of {show(ps)}", trail(s))


def kept(rep, W, w):
    """a final piece goes to no further stage and reaches join as it is; coarser stages come first"""
    I = W.I
    first = [f for f in stages(W.prog) if f.qual.endswith(".code_split")]
    rank = {MOD + "." + n: i for i, n in enumerate(("code_split", "link_split", "newline_split", "space_split"))}
    for f, t, s in W.calls:
        for x in walk([[p.lo, p.hi] for p in t.p if isinstance(p, Sl)]):
            if x.op == "cut":
                done, now = rank.get(x.args[0]), rank.get(f.qual)
                rep.ob("C30.order", done is None or now is None or done < now, w,
                       f"{f.qual} is applied to a text already split by {x.args[0]}: what it should keep whole may be cut", trail(s))
        # final pieces end at a cut
        r = t.p[-1] if t.p else None
        ks = final_cut(t, s)
        rep.ob("C30.final", not ks, w, f"{f.qual} is applied to a final piece {show(t)}", trail(s))
    done = {f.qual for f, t, s in W.calls}
    for q in ("code_split", "link_split"):
        if any(f.qual == MOD + "." + q for f in stages(W.prog)):
            rep.ob("C30.order", MOD + "." + q in done, w, f"{q} is not applied to the text")
    for s, args in W.joins:
        q = I.norm_seq(s.heap[args[0].id].seq, s) if isinstance(args[0], Ref) and isinstance(s.heap.get(args[0].id), LObj) else None
        if q is None or not all(isinstance(p, Item) and isinstance(p.v, Seq) for p in q.p):
            rep.ob("C30.final", None, w, f"join gets {show(q)}", trail(s))
            continue
        for p in q.p[:-1]:
            v = I.norm_seq(p.v, s)
            ok = not v.p or len(v.p) == 1 and isinstance(v.p[0], Sl)
            rep.ob("C30.final", ok or (None if unknown_text(v) else False), w, f"a final piece reaches join as {show(v)}", trail(s))


def final_cut(t, s):
    """is this text a first (final) piece of some stage: a slice from the start of that stage's text to its cut"""
    for p in t.p:
        if isinstance(p, Sl):
            h = s.store.norm(p.hi)
            for k, c in h.t.items():
                if k.op == "cut" and c == 1:
                    return True
    return False


def check_C30(prog, rep, prop, tier):
    ms = modes(tier, {None: [("peel", 2)], "code_split": [("peel", 3)], "link_split": [("peel", 1)]},
               {None: [("peel", 3)], "link_split": [("peel", 2)], "code_split": [("peel", 4)]})
    def evaluate(rep, u, w):
        final_pieces(rep, u, w)
        spans(rep, u, w)
    each_unit(prog, rep, stages(prog), ms, lambda f, m, b: run_stage(prog, f, m, b), evaluate, "C30.verbatim")
    j = prog.public(MOD, "join")
    each_unit(prog, rep, [j], lambda f: [("peel", 2)], lambda f, m, b: run_join(prog, f, m, b), whole_words, "C30.whole")
    wrap_unit(prog, rep, kept, "C30.final", [("peel", 5)])
