"""C28: what is known of a text from the shape of the pattern that took it apart, and whether nothing of it is lost."""
from .. import lang, rx
from ..cover import gap_ok
from ..interp import Exc
from ..terms import Term, lin
from ..values import *
from .code import trail, first_elem
from .content import covers, show
from .fmt import *
from .util import nodes

MORE = r"(?s:.)*"


def shape(pat, flags):
    """a pattern as a row of literals, runs of white space, words (runs of anything else), rests and other groups:
    [(kind, text or None, group number or None)] or None"""
    t = rx.parse(pat, flags)
    if t is None:
        return None
    out = []

    def one(op, av, g):
        n = str(op)
        if n == "LITERAL":
            if g is None and out and out[-1][0] == "lit" and out[-1][2] is None:
                out[-1] = ("lit", out[-1][1] + chr(av), None)
            else:
                out.append(("lit", chr(av), g))
        elif n == "MAX_REPEAT":
            lo, hi, body = av
            k = str(body[0][0]) if len(body) == 1 else ""
            cs = body[0][1] if k == "IN" else ()
            neg = any(str(o) == "NEGATE" for o, a in cs)
            real = [(str(o), str(a)) for o, a in cs if str(o) != "NEGATE"]
            space = real == [("CATEGORY", "CATEGORY_SPACE")] and not neg
            word = real == [("CATEGORY", "CATEGORY_SPACE")] and neg or real == [("CATEGORY", "CATEGORY_NOT_SPACE")] and not neg
            endless = str(hi) == "MAXREPEAT"
            if space and endless and lo <= 1:
                out.append(("space", lo, g))
            elif word and endless and lo <= 1:
                out.append(("word", lo, g))
            elif k == "ANY" and endless and lo == 0:
                out.append(("rest", 0, g))
            else:
                out.append(("other", None, g))
        elif n == "SUBPATTERN" and av[0] is not None and not av[1] and not av[2]:
            if len(av[3]) == 1:
                one(av[3][0][0], av[3][0][1], av[0])
            else:
                out.append(("other", None, av[0]))
        elif n == "AT":
            pass
        else:
            out.append(("other", None, None))
    for op, av in t:
        one(op, av, None)
    return out


def whole(I, st, t, doc, k):
    """(source, first and last position) of the text a pattern was tried on, if it is the text of all the lines"""
    from ..lib_rx import as_slice
    q = t.args[2]
    if not isinstance(q, Seq):
        q = Seq("str", (full(q),))
    r, _ = covers(st, q.p, doc, 0, k)
    if r is not True:
        return None
    return as_slice(I, q, st)


def head_line(src, lo, doc):
    """does the text from lo on begin with the document's first line (its leading white space aside): 0, 'start' or None"""
    e = first_elem(doc, lin(0))
    if src == e:
        return 0 if lin(lo) == lin(0) else "start" if lang.margin(lo, e) == 0 else None
    if src.op == "join":
        src = Term("cat", Seq("str", (Join(src.args[0], src.args[1]),)))
    if src.op != "cat":
        return None
    p = src.args[0].p[0] if src.args[0].p else None
    if isinstance(p, Join) and p.sep.const is not None and p.seq.p:
        p = p.seq.p[0]
        if isinstance(p, Item) and isinstance(p.v, Seq) and p.v.p:
            p = p.v.p[0]
    if not isinstance(p, Sl):
        return None
    if p.src == doc and lin(p.lo) == lin(0):
        r = 0
    elif p.src == e and (lin(p.lo) == lin(0) or lang.margin(p.lo, e) == 0):
        r = 0 if lin(p.lo) == lin(0) else "start"
    else:
        return None
    k = lin(nat("lws", src, lin(0), length_of(src)))
    if lin(lo) == lin(0):
        return r
    return "start" if r == 0 and lin(lo) == k else None


def found_first(I, st, t, src, lo, doc, cache):
    """the pattern is known to match at the first non-blank of the text, from what the first line is known to be"""
    kind, (pat, flags) = t.args[0], t.args[1]
    h = (rx.prefix(pat, flags) or " ")[0]
    how = head_line(src, lo, doc)
    if not h.strip() or how is None or kind == "match" and how == 0 or kind == "fullmatch":
        return False
    e = first_elem(doc, lin(0))
    known = tuple(sorted((str(x), bool(v)) for x, v in st.facts.items() if isinstance(x, Term) and x.op == "rxm" and v and lang.mentions(x, e)))
    key = (pat, flags, known)
    if key not in cache:
        cons = []
        for x, v in st.facts.items():
            if isinstance(x, Term) and x.op == "rxm" and v and x is not t and lang.mentions(x, e):
                try:
                    p = lang.pattern(x, e)
                    if p:
                        cons.append((lang.aut(*p, most=2000), True))
                except lang.No:
                    pass
        try:
            w = lang.witness(cons + [(lang.aut(r"\s*(?:" + pat + ")", flags, "match", most=2000), False)]) if cons else False
        except lang.No:
            w = False
        cache[key] = w is None
    return cache[key]


def runs_free(items, i):
    """whatever follows, the pattern's items from the i-th on match it: repetitions before them are as long as can be"""
    return all(k in ("space", "word") and n == 0 or k == "rest" for k, n, g in items[i:])


def learn(I, st, t, doc, k, cache):
    """what a successful match tells of the text: where literals stand, which parts are white space, what is the rest.
    -> state, or None if this cannot happen"""
    w = whole(I, st, t, doc, k)
    pat, flags = t.args[1]
    items = shape(pat, flags) if pat is not None and not flags & ~32 else None
    if w is None or items is None:
        return st
    src, lo, hi = w
    names = rx.parse(pat, flags).state.groupdict
    ms, me = lin(nat("ms", t)), lin(nat("me", t))
    if t.args[0] != "search":
        st = I.with_ge(st, ms, -ms)
    elif found_first(I, st, t, src, lo, doc, cache):
        d = ms - lin(nat("lws", src, lin(lo), lin(hi)))
        st = I.with_ge(st, d, -d)
    if st is None:
        return None

    def eq(st, a, b):
        return I.with_ge(st, a - b, b - a) if st is not None else None

    def marks(st, n, a, b):
        for g in [n] + [x for x, m in names.items() if m == n]:
            st = eq(st, lin(nat("gs", t, g)), a)
            st = eq(st, lin(nat("ge", t, g)), b)
        return st
    pos = ms
    for i, (kind, x, g) in enumerate(items):
        if st is None:
            return None
        if g is not None:
            for x in [g] + [x for x, m in names.items() if m == g]:
                st = eq(st, lin(nat("gs", t, x)), pos)
                st = eq(st, lin(nat("ge", t, x)), lin(nat("ge", t, g)))
            if st is None:
                return None
            pos = st.store.norm(pos)
        if kind == "lit":
            ss = I.assume(st, ("atom", Term("lit", src, st.store.norm(lin(lo) + pos), x)), True)
            if not ss:
                return None
            st = ss[0]
            end = pos + len(x)
        else:
            end = lin(nat("ge", t, g)) if g is not None else me if i == len(items) - 1 else lin(nat("at", t, i))
            n = end - pos
            st = I.with_ge(st, n)
            if st is None:
                return None
            if kind == "space":
                run = lin(nat("lws", src, st.store.norm(lin(lo) + pos), lin(hi)))
                st = I.with_ge(st, run - n)
                if st is not None and runs_free(items, i + 1):
                    st = eq(st, n, run)
            elif kind == "word" and runs_free(items, i + 1) and i and items[i - 1][0] == "space" and runs_free(items, i):
                # after all the white space there is a word, or nothing at all
                if st.store.entails_eq(n):
                    st = eq(st, pos, lin(hi) - lin(lo))
                elif st.store.entails_ge(lin(hi) - lin(lo) - pos - 1):
                    st = I.with_ge(st, n - 1)
            elif kind == "rest" and one_line(src):
                st = eq(st, end, lin(hi) - lin(lo))
        if st is not None and g is not None:
            st = marks(st, g, pos, end)
        pos = st.store.norm(end) if st is not None else end
    return eq(st, me, pos)


def one_line(src):
    """no newline can be in the text: it is made of the document's lines and what stands between them"""
    return not any(isinstance(x, Lit) and ("\n" in x.s or "\r" in x.s) for x in nodes(src))


def separate(pieces, st, src, pos):
    """is there white space in front of what is rendered from this place of the source on:
    True / False / 'first' (nothing is rendered before it) / None (not seen)"""

    def holds_mark(p):
        return any(isinstance(x, Sl) and x.src == src and st.store.entails_eq(lin(x.lo) - pos) for x in nodes(p))
    for i, p in enumerate(pieces):
        if isinstance(p, Item) and isinstance(p.v, Seq):
            r = separate(p.v.p, st, src, pos)
            if r is not None:
                return r
            continue
        if not holds_mark(p):
            continue
        if isinstance(p, Wrapd):
            r = separate(p.seq.p, st, src, pos)
        elif isinstance(p, Join) and any(isinstance(x, Item) for x in p.seq.p):
            r = None
            for j, x in enumerate(p.seq.p):
                if isinstance(x, Item) and isinstance(x.v, Seq) and holds_mark(x):
                    r = separate(x.v.p, st, src, pos)
                    if r == "first" and j:
                        r = bool(p.sep.const) and not p.sep.const.strip()
                    if r is not None:
                        break
        else:
            r = "first"
        if r == "first" and i:
            q = pieces[i - 1]
            if isinstance(q, Lit):
                return q.s[-1:].isspace()
            return False if isinstance(q, (Sl, Wrapd)) else None
        return r
    return None


def matches(st):
    return [x for x, v in st.facts.items() if isinstance(x, Term) and x.op == "rxm" and v and isinstance(x.args[1], tuple) and x.args[1][0]]


def judge(sub, S):
    I, doc, w, cache = S.I, S.doc, S.where, {}
    for st, v, k in S.res:
        if isinstance(v, Exc):
            if isinstance(v.v, ExcV) and v.v.name == "builtins.RuntimeError":
                refused(sub, I, st, v, k, doc, w, cache)
            continue
        if not isinstance(v, Seq) or k is None:
            sub.ob("C28.parts", None, w, show(v))
            continue
        v = I.norm_seq(v, st)
        for t in matches(st):
            if st is not None and rx.parse(*t.args[1]) is not None:
                st = learn(I, st, t, doc, k, cache)
        if st is None:
            continue
        v = I.norm_seq(v, st)
        r, atoms = covers(st, v.p, doc, 0, k)
        sub.ob("C28.parts", r, w, f"the definition is rendered as {show(v)}", trail(st))
        for t in matches(st):
            apart(sub, I, st, t, v, doc, k, w)


def apart(sub, I, st, t, v, doc, k, w):
    """parts the pattern tells apart by white space are still apart"""
    s = whole(I, st, t, doc, k)
    items = shape(*t.args[1])
    if s is None or items is None:
        return
    for i in range(2, len(items)):
        g = items[i][2]
        if g is None or items[i - 1][0] != "space" or items[i - 1][2] is not None or items[i - 2][2] is None:
            continue
        a, b = lin(s[1]) + nat("gs", t, g), lin(s[1]) + nat("ge", t, g)
        p = lin(s[1]) + nat("ge", t, items[i - 2][2])
        if st.store.entails_eq(a - b) or st.store.entails_eq(a - p) or gap_ok(s[0], p, lin(s[2]), st):
            continue        # not there
        r = separate(v.p, st, s[0], a)
        sub.ob("C28.apart", r if r in (True, False) else None, w, f"the parts are not kept apart: {show(v)}", trail(st))


def refused(sub, I, st, v, k, doc, w, cache):
    """the formatter gives up on a definition that was recognised"""
    for t, val in st.facts.items():
        if isinstance(t, Term) and t.op == "rxm" and not val and isinstance(t.args[1], tuple) and t.args[1][0]:
            s = whole(I, st, t, doc, k) if k is not None else None
            if s is not None and (found_first(I, st, t, s[0], s[1], doc, cache)):
                sub.ob("C28.taken", True, w, "every definition that is recognised can be taken apart")
                return
    e = first_elem(doc, lin(0))
    ok, x = (None, None)
    if k is not None and st.store.entails_eq(lin(k) - 1):
        ok, x = lang.possible(I, st, e)
    if ok is False:
        return
    sub.ob("C28.taken", False if ok else None, w, f"a definition that was recognised is refused" + (f", for example {x!r}" if ok else ""), trail(st))


def check(prog, rep, prop, tier):
    sections(prog, rep, "LINK_REFERENCE_DEFINITION", [("fix", 2), ("peel", 2 if tier == "quick" else 3)], judge, "C28.parts")
    return rep
