"""Abstract semantics of str operations."""
import ast

from .terms import Term, Lin, lin, ZERO, ONE, Contradiction, fresh
from .values import *
from . import cover, rx

STR_METHODS = {n for n in dir(str) if not n.startswith("__")}
FOLD = {"strip", "lstrip", "rstrip", "startswith", "endswith", "upper", "lower", "title", "capitalize",
        "replace", "find", "rfind", "index", "rindex", "count", "isdigit", "isspace", "isalpha", "isalnum",
        "isupper", "islower", "isdecimal", "isnumeric", "ljust", "rjust", "center", "zfill", "expandtabs",
        "casefold", "swapcase", "removeprefix", "removesuffix", "isidentifier", "isprintable", "isascii"}


def to_value(I, x, st):
    """python constant -> (st, V)"""
    if isinstance(x, bool) or x is None:
        return st, Const(x)
    if isinstance(x, int):
        return st, Num(x)
    if isinstance(x, str):
        return st, S(x)
    if isinstance(x, tuple):
        vs = []
        for y in x:
            st, v = to_value(I, y, st)
            vs.append(v)
        return st, Tup(vs)
    if isinstance(x, list):
        vs = []
        for y in x:
            st, v = to_value(I, y, st)
            vs.append(Item(v))
        return I.new_list(st, vs)
    return st, Const(x)


def py_const(v, st=None):
    """(ok, python value)"""
    if isinstance(v, Const):
        return True, v.v
    if isinstance(v, Num) and v.lin.const is not None:
        return True, int(v.lin.const)
    if isinstance(v, Seq) and v.const is not None:
        return True, v.const
    if isinstance(v, Tup):
        r = [py_const(x, st) for x in v.items]
        if all(a for a, _ in r):
            return True, tuple(b for _, b in r)
    return False, None


def as_slice(I, seq, st):
    """view the string as one slice (src, lo, hi)"""
    seq = I.norm_seq(seq, st)
    if len(seq.p) == 1 and isinstance(seq.p[0], Sl):
        p = seq.p[0]
        return p.src, p.lo, p.hi
    t = snapshot(seq)
    return t, ZERO, length_of(t)


def slice_str(I, src, lo, hi, st):
    return I.mk_seq("str", [Sl(src, lo, hi)], st)


# ------------------------------------------------------------------ stripping

def known_nonws_start(I, src, lo, hi, st):
    for (p, e) in I.nowss.get(src, ()):
        if st.store.entails_eq(p - lo) and st.store.entails_ge(e - hi):
            return True
    for l2, text in cover.lit_facts(src, st):
        d = st.store.norm(lo - l2).const
        if d is not None and 0 <= d < len(text) and text[int(d)].strip():
            return True
    for a, b, ch in cover.RUNS.get(src, ()):
        k = ch.const
        if k and k.strip() and st.store.entails_ge(lo - a) and st.store.entails_ge(b - lo - 1):
            return True
    return False


def known_nonws_end(I, src, lo, hi, st):
    for (e, p) in I.nowse.get(src, ()):
        # char before e is non-ws if p < e
        if st.store.entails_eq(e - hi) and st.store.entails_ge(lo - p):
            return True
    for l2, text in cover.lit_facts(src, st):
        d = st.store.norm(hi - l2).const
        if d is not None and 0 < d <= len(text) and text[int(d) - 1].strip():
            return True
    for a, b, ch in cover.RUNS.get(src, ()):
        k = ch.const
        if k and k.strip() and st.store.entails_ge(b - hi) and st.store.entails_ge(hi - a - 1):
            return True
    return False


def short_text(src, lo, hi, st):
    """the text of a short part all of whose characters are known, or None"""
    n = st.store.norm(hi - lo).const
    if n is None or not 0 < n <= 8:
        return None
    got = {}
    for l2, text in cover.lit_facts(src, st):
        d = st.store.norm(l2 - lo).const
        if d is not None:
            for i, ch in enumerate(text):
                got[int(d) + i] = ch
    if all(i in got for i in range(int(n))):
        return "".join(got[i] for i in range(int(n)))
    return None


def lws(I, src, lo, hi, st):
    """-> (st, a): number of leading whitespace characters of src[lo:hi]"""
    lo, hi = st.store.norm(lo), st.store.norm(hi)
    if st.store.entails_ge(lo - hi) or known_nonws_start(I, src, lo, hi, st) or match_edge(src, lo, "ms"):
        return st, ZERO
    text = short_text(src, lo, hi, st)
    if text is not None:
        return st, lin(len(text) - len(text.lstrip()))
    for x, h in I.nowss.get(src, ()):
        # the same margin seen in a longer part of the text
        (k, c), = x.t.items() if len(x.t) == 1 else ((None, 0),)
        if k is not None and k.op == "lws" and k.args[0] == src and k.args[1] == lo and st.store.entails_eq(x - lo - lin(k)) \
                and st.store.entails_ge(hi - x - 1) and st.store.entails_ge(h - hi):
            return st, st.store.norm(x - lo)
    a = nat("lws", src, lo, hi)
    s2 = I.with_ge(st, hi - lo - a)
    if s2 is None:
        return st, ZERO
    la = lin(a)
    cover.add_ws(src, lo, lo + la)
    reg = I.nowss.setdefault(src, [])
    if (lo + la, hi) not in reg:
        reg.append((lo + la, hi))
    return s2, la


def match_edge(src, x, op):
    """is x the start (end) of a match of patterns that never match white space there"""
    if x.c or len(x.t) != 1:
        return False
    (t, k), = x.t.items()
    if k != 1 or t.op != op or not isinstance(t.args[0], Term) or t.args[0].op != "rxelem":
        return False
    l = t.args[0].args[0]
    if l.op != "rxlist" or not (isinstance(l.args[1], Seq) and l.args[1] == Seq("str", (full(src),))):
        return False
    return bool(l.args[0]) and all(q[0] is not None and rx.solid(q[0], q[1], op == "me") for q in l.args[0])


def rws(I, src, lo, hi, st):
    lo, hi = st.store.norm(lo), st.store.norm(hi)
    if st.store.entails_ge(lo - hi) or known_nonws_end(I, src, lo, hi, st) or match_edge(src, hi, "me"):
        return st, ZERO
    text = short_text(src, lo, hi, st)
    if text is not None:
        return st, lin(len(text) - len(text.rstrip()))
    base = lo
    # canonical base: first non-blank position if known
    best = None
    for (p, e) in I.nowss.get(src, ()):
        if st.store.entails_ge(p - lo) and st.store.entails_ge(hi - p - 1) and st.store.entails_ge(e - p - 1):
            p2 = st.store.norm(p)
            key = (p2.age, repr(p2))
            if best is None or key < best[0]:
                best = (key, p2)
    if best is not None:
        base = best[1]
    b = nat("rws", src, base, hi)
    s2 = I.with_ge(st, hi - base - b - (1 if best is not None else 0))
    if s2 is None:
        return st, ZERO
    lb = lin(b)
    cover.add_ws(src, hi - lb, hi)
    reg = I.nowse.setdefault(src, [])
    if (hi - lb, base) not in reg:
        reg.append((hi - lb, base))
    return s2, lb


def known_text(x, st):
    """a one-character piece whose character is known, as a literal"""
    if x.const is None and len(x.p) == 1 and isinstance(x.p[0], Sl) and not cover.sort_is_list(x.p[0].src):
        p = x.p[0]
        if st.store.entails_eq(p.hi - p.lo - 1):
            for l2, text in cover.lit_facts(p.src, st):
                d = st.store.norm(p.lo - l2).const
                if d is not None and 0 <= d < len(text):
                    return Seq("str", (Lit(text[int(d)]),))
    return x


def run_dim(I, kind, src, lo, hi, chars, st):
    """leading ('run') / trailing ('rrun') characters in the set `chars` (Seq)"""
    lo, hi = st.store.norm(lo), st.store.norm(hi)
    if st.store.entails_ge(lo - hi):
        return st, ZERO
    chars = known_text(chars, st)
    c = chars.const
    if kind == "run":
        for (p, e, cs) in I.nowss.get(("run", src), ()):
            if cs == c and c is not None and st.store.entails_eq(p - lo) and st.store.entails_ge(e - hi):
                return st, ZERO
    else:
        for (e, p, cs) in I.nowse.get(("run", src), ()):
            if cs == c and c is not None and st.store.entails_eq(e - hi) and st.store.entails_ge(lo - p):
                return st, ZERO
    for l2, text in cover.lit_facts(src, st):
        if c is None:
            break
        at = lo if kind == "run" else hi - 1
        d = st.store.norm(at - l2).const
        if d is not None and 0 <= d < len(text) and text[int(d)] not in c:
            return st, ZERO
    if c is not None and kind == "run":
        for (p, e) in I.nowss.get(src, ()):
            if not c.strip() and st.store.entails_eq(p - lo) and st.store.entails_ge(e - hi):
                return st, ZERO
    key = chars if c is None else c
    end = hi
    if kind == "run" and c is not None and all(ch.strip() for ch in c):
        # trailing white space cannot be part of the run
        n = st.store.norm(length_of(src))
        if n != hi and cover.gap_ok(src, hi, n, st):
            end = n
    a = nat(kind, src, lo, end, Term("chars", key))
    s2 = I.with_ge(st, hi - lo - a)
    if s2 is None:
        return st, ZERO
    la = lin(a)
    x, y = (lo, lo + la) if kind == "run" else (hi - la, hi)
    if c is None or len(set(c)) == 1:
        one = chars if c is None else S(c[0])
        cover.add_run(src, x, y, one)
    if c is not None and not c.strip():
        cover.add_ws(src, x, y)
    if c is not None:
        if kind == "run":
            reg = I.nowss.setdefault(("run", src), [])
            e = (y, hi, c)
        else:
            reg = I.nowse.setdefault(("run", src), [])
            e = (x, lo, c)
        if e not in reg:
            reg.append(e)
    # a run ends before, or starts after, a character known not to be in the set
    if c is not None:
        for l2, text in cover.lit_facts(src, s2):
            for j, ch in enumerate(text[:8]):
                if ch in c:
                    continue
                q = l2 + j
                if s2.store.entails_ge(q - lo) and s2.store.entails_ge(hi - q - 1):
                    s3 = I.with_ge(s2, q - lo - la if kind == "run" else hi - q - 1 - la)
                    if s3 is None:
                        break
                    s2 = s3
    # a leading run of this character is at least as long as a known literal there
    if kind == "run" and c is not None and len(set(c)) == 1:
        for l2, text in cover.lit_facts(src, s2):
            d = s2.store.norm(lo - l2).const
            if d is not None and 0 <= d < len(text):
                k = 0
                while int(d) + k < len(text) and text[int(d) + k] == c[0]:
                    k += 1
                if k:
                    s3 = I.with_ge(s2, la - k)
                    if s3 is not None:
                        s2 = s3
    if kind == "run" and c is None:
        # the character taken from this very position
        sl = chars.p
        if len(sl) == 1 and isinstance(sl[0], Sl) and sl[0].src is src and s2.store.entails_eq(sl[0].lo - lo) \
                and s2.store.entails_eq(sl[0].hi - sl[0].lo - 1):
            s3 = I.with_ge(s2, la - 1)
            if s3 is not None:
                s2 = s3
            for l2, text in cover.lit_facts(src, s2):
                if s2.store.entails_eq(l2 - lo):
                    k = 0
                    while k < len(text) and text[k] == text[0]:
                        k += 1
                    s3 = I.with_ge(s2, la - k)
                    if s3 is not None:
                        s2 = s3
    return s2, la


def strip(I, seq, st, left, right, chars):
    """-> [(st, Seq)]; chars None for whitespace, else Seq"""
    seq = I.norm_seq(seq, st)
    c = None if chars is None else chars.const
    out = [(st, seq)]
    if left:
        nxt = []
        for s, q in out:
            nxt += strip_side(I, q, s, True, chars)
        out = nxt
    if right:
        nxt = []
        for s, q in out:
            nxt += strip_side(I, q, s, False, chars)
        out = nxt
    return out


def strip_side(I, seq, st, left, chars):
    c = None if chars is None else chars.const
    ps = list(seq.p)
    done = []
    cur = [(st, ps)]
    guard = 0
    while cur:
        guard += 1
        if guard > 40:
            break
        nxt = []
        for s, ps in cur:
            if not ps:
                done.append((s, Seq("str")))
                continue
            p = ps[0] if left else ps[-1]
            rest = ps[1:] if left else ps[:-1]
            if isinstance(p, Lit) and (chars is None or c is not None):
                t = (p.s.lstrip(c) if left else p.s.rstrip(c))
                if t:
                    q = [Lit(t)] + rest if left else rest + [Lit(t)]
                    done.append((s, Seq("str", q)))
                else:
                    nxt.append((s, rest))
                continue
            if isinstance(p, Sl):
                lo, hi = p.lo, p.hi
                if chars is None:
                    s, d = (lws if left else rws)(I, p.src, lo, hi, s)
                else:
                    s, d = run_dim(I, "run" if left else "rrun", p.src, lo, hi, chars, s)
                nlo, nhi = (lo + d, hi) if left else (lo, hi - d)
                np = Sl(p.src, nlo, nhi)
                if not rest:
                    done.append((s, I.mk_seq("str", [np], s)))
                    continue
                for s2, nonempty in I.branch(s, ("ge", nhi - nlo - 1)):
                    if nonempty:
                        q = [np] + rest if left else rest + [np]
                        done.append((s2, Seq("str", q)))
                    else:
                        nxt.append((s2, rest))
                continue
            if isinstance(p, Rep) and p.v.const is not None and len(p.v.const) == 1 and (chars is None or c is not None):
                inset = (not p.v.const.strip()) if chars is None else p.v.const in c
                if inset:
                    nxt.append((s, rest))
                    continue
                for s2, nonempty in I.branch(s, ("ge", p.n - 1)):
                    if nonempty:
                        done.append((s2, Seq("str", ps)))
                    else:
                        nxt.append((s2, rest))
                continue
            if chars is None and not rest and isinstance(p, Join) and all(
                    isinstance(x, Sl) and x.src.op == "split" and x.src.args[1] is None for x in p.seq.p):
                # words: none starts or ends with white space
                done.append((s, Seq("str", ps)))
                continue
            # opaque text: view the whole remaining string as a source
            q = Seq("str", ps)
            t = Term("cat", q)
            t.sort = "str"
            n = seq_len(q)
            if chars is None:
                s, d = (lws if left else rws)(I, t, ZERO, n, s)
            else:
                s, d = run_dim(I, "run" if left else "rrun", t, ZERO, n, chars, s)
            done.append((s, I.mk_seq("str", [Sl(t, d, n) if left else Sl(t, ZERO, n - d)], s)))
        cur = nxt
    return done


# ------------------------------------------------------------------ predicates

def startswith_f(I, seq, s, st):
    """formula for seq.startswith(s), s python str"""
    if not s:
        return ("T",)
    seq = I.norm_seq(seq, st)
    ps = list(seq.p)
    i = 0
    while i < len(ps) and isinstance(ps[i], Lit):
        t = ps[i].s
        k = min(len(t), len(s))
        if t[:k] != s[:k]:
            return ("F",)
        s = s[k:]
        if not s:
            return ("T",)
        i += 1
    if i == len(ps):
        return ("F",)
    if i == len(ps) - 1 and isinstance(ps[i], Sl):
        p = ps[i]
        return ("atom", Term("sw", p.src, st.store.norm(p.lo), st.store.norm(p.hi), s))
    if isinstance(ps[i], Sl) and st.store.entails_ge(ps[i].hi - ps[i].lo - len(s)):
        p = ps[i]
        return ("atom", Term("sw", p.src, st.store.norm(p.lo), st.store.norm(p.hi), s))
    if isinstance(ps[i], Rep) and ps[i].v.const is not None and len(ps[i].v.const) == 1:
        ch = ps[i].v.const
        k = 0
        while k < len(s) and s[k] == ch:
            k += 1
        rest = s[k:]
        if not rest:
            if st.store.entails_ge(ps[i].n - k):
                return ("T",)
            if i == len(ps) - 1:
                return ("ge", ps[i].n - k)
        elif k == 0 and st.store.entails_ge(ps[i].n - 1):
            return ("F",)
    q = Seq("str", ps[i:])
    t = snapshot(q)
    return ("atom", Term("sw", t, ZERO, length_of(t), s))


def endswith_f(I, seq, s, st):
    if not s:
        return ("T",)
    seq = I.norm_seq(seq, st)
    ps = list(seq.p)
    while ps and isinstance(ps[-1], Lit):
        t = ps[-1].s
        k = min(len(t), len(s))
        if t[-k:] != s[-k:]:
            return ("F",)
        s = s[:-k]
        if not s:
            return ("T",)
        ps.pop()
    if not ps:
        return ("F",)
    if isinstance(ps[-1], Sl) and (len(ps) == 1 or st.store.entails_ge(ps[-1].hi - ps[-1].lo - len(s))):
        p = ps[-1]
        a = Term("sw", p.src, st.store.norm(p.hi - len(s)), st.store.norm(p.hi), s)
        if not s.strip():
            # known whitespace / non-whitespace tail
            for (e, b) in I.nowse.get(p.src, ()):
                if st.store.entails_eq(e - p.hi) and st.store.entails_ge(p.lo - b) and st.store.entails_ge(p.hi - p.lo - 1):
                    return ("F",)
        return f_and2(("ge", p.hi - p.lo - len(s)), ("atom", a))
    if isinstance(ps[-1], Rep) and ps[-1].v.const is not None and set(s) == set(ps[-1].v.const) and \
            st.store.entails_ge(ps[-1].n - len(s)):
        return ("T",)
    q = Seq("str", ps)
    t = snapshot(q)
    n = length_of(t)
    return f_and2(("ge", n - len(s)), ("atom", Term("sw", t, n - len(s), n, s)))


def f_and2(a, b):
    from .interp import f_and
    return f_and(a, b)


def eq_str(I, a, b, st):
    """formula a == b for two str Seqs"""
    from .interp import f_and, f_or
    if a.const is not None and b.const is not None:
        return ("T",) if a.const == b.const else ("F",)
    if a.const is not None:
        a, b = b, a
    a = I.norm_seq(a, st)
    b = I.norm_seq(b, st)
    if a == b:
        return ("T",)
    la, lb = seq_len(a), seq_len(b)
    if st.store.entails_ne(la - lb):
        return ("F",)
    s = b.const
    if s is not None:
        if s == "":
            return ("eq", la)
        sw = startswith_f(I, a, s, st)
        if sw == ("F",):
            return ("F",)
        if len(a.p) == 1 and isinstance(a.p[0], Sl):
            return f_and(("eq", la - len(s)), sw)
        if sw == ("T",):
            return ("eq", la - len(s))
    ta, tb = I.term(a, st), I.term(b, st)
    return ("atom", Term("eq", *sorted((ta, tb), key=lambda q: q.uid)))


def contains_f(I, s, hay, st):
    """formula: python str s in hay (Seq)"""
    from .interp import f_or, f_and
    if s == "":
        return ("T",)
    hay = I.norm_seq(hay, st)
    if hay.const is not None:
        return ("T",) if s in hay.const else ("F",)
    for p in hay.p:
        if isinstance(p, Lit) and s in p.s:
            return ("T",)
    if st.store.entails_ge(len(s) - 1 - seq_len(hay)):
        return ("F",)
    for p in hay.p:
        if isinstance(p, Sl):
            for lo, text in cover.lit_facts(p.src, st):
                if s in text and st.store.entails_ge(lo - p.lo) and st.store.entails_ge(p.hi - lo - len(text)):
                    return ("T",)
    # a slice recognised by a regular expression
    if len(hay.p) == 1 and isinstance(hay.p[0], Sl):
        p = hay.p[0]
        for lo, hi, pat, fl in I.rxslices.get(p.src, ()):
            if pat is not None and st.store.entails_eq(lo - p.lo) and st.store.entails_eq(hi - p.hi):
                if pat is not None and any(s in m for m in rx.mandatory(pat, fl)):
                    return ("T",)
                mc = rx.may_match_chars(pat, s, fl)
                if any(c not in mc for c in s):
                    return ("F",)
        # one of several regular expressions
        pats = span_patterns(p, st)
        if pats:
            hs = snapshot(hay)
            left = [q for q in pats if not any(st.facts.get(Term("in", Term("s", m), hs)) is False for m in rx.mandatory(*q))]
            if left and all(any(s in m for m in rx.mandatory(*q)) for q in left):
                return ("T",)
    return ("atom", Term("in", Term("s", s), snapshot(hay)))


def span_patterns(p, st):
    """the regular expressions one of which matched exactly this slice"""
    lo, hi = (st.store.norm(lin(x)) for x in (p.lo, p.hi))
    out = None
    for l, op in ((lo, "ms"), (hi, "me")):
        if len(l.t) != 1 or l.c != 0 or set(l.t.values()) != {1}:
            return None
        t = next(iter(l.t))
        if not isinstance(t, Term) or t.op != op or not t.args or not isinstance(t.args[0], Term) or t.args[0].op != "rxelem":
            return None
        if out is not None and t.args != out:
            return None
        out = t.args
    if len(out) != 1:
        return None
    src = out[0].args[0]
    if not isinstance(src, Term) or src.op != "rxlist" or not isinstance(src.args[0], tuple):
        return None
    ps = src.args[0]
    return ps if all(isinstance(q, tuple) and len(q) == 2 and isinstance(q[0], str) for q in ps) else None


def find_pos(I, seq, s, st, start=ZERO):
    """Given that s occurs: (st, Lin position of the first occurrence relative to seq start, src, lo, hi)"""
    src, lo, hi = as_slice(I, seq, st)
    lo, hi = st.store.norm(lo), st.store.norm(hi)
    p = nat("find", src, lo, hi, s)
    s2 = I.with_ge(st, hi - lo - p - len(s))
    if s2 is None:
        return None
    s2 = s2.copy()
    s2.facts[Term("lit", src, lo + p, s)] = True
    return s2, lin(p), src, lo, hi


def find_last(I, seq, s, st):
    src, lo, hi = as_slice(I, seq, st)
    lo, hi = st.store.norm(lo), st.store.norm(hi)
    p = nat("rfind", src, lo, hi, s)
    s2 = I.with_ge(st, hi - lo - p - len(s))
    if s2 is None:
        return None
    s2 = s2.copy()
    s2.facts[Term("lit", src, lo + p, s)] = True
    return s2, lin(p), src, lo, hi


# ------------------------------------------------------------------ methods

def opaque_str(I, op, args, st, sort="str"):
    t = Term(op, *args)
    if t.sort is None:
        t.sort = sort
    st, v = I.value_of(t, st)
    return [(st, v)]


def cut2(I, seq, s, st, last=False):
    """fork on containment: -> [(st, None)] when absent, [(st, (before, after))] when present"""
    out = []
    seq = I.norm_seq(seq, st)
    f = contains_f(I, s, seq, st)
    for s1, b in I.branch(st, f):
        if not b:
            out.append((s1, None))
            continue
        # literal piece holding it, everything before being literal
        if seq.p and isinstance(seq.p[0], Lit) and s in seq.p[0].s and not last:
            i = seq.p[0].s.index(s)
            out.append((s1, (I.mk_seq("str", [Lit(seq.p[0].s[:i])], s1),
                             I.mk_seq("str", [Lit(seq.p[0].s[i + len(s):])] + list(seq.p[1:]), s1))))
            continue
        r = (find_last if last else find_pos)(I, seq, s, s1)
        if r is None:
            continue
        s2, p, src, lo, hi = r
        a = slice_str(I, src, lo, lo + p, s2)
        b2 = slice_str(I, src, lo + p + len(s), hi, s2)
        s2 = s2.copy()
        s2.facts[Term("in", Term("s", s), snapshot(b2 if last else a))] = False
        out.append((s2, (a, b2)))
    return out


def nonneg(I, st, *ls):
    return I.with_ge(st, *ls)


def split_words(I, seq, st, maxsplit, node):
    """str.split(None, maxsplit) for maxsplit == 1"""
    out = []
    for s, q in strip(I, seq, st, True, False, None):
        for s1, ne in I.branch(s, ("ge", seq_len(q) - 1)):
            if not ne:
                out.append(I.new_list(s1, []))
                continue
            src, lo, hi = as_slice(I, q, s1)
            lo, hi = s1.store.norm(lo), s1.store.norm(hi)
            w = lin(nat("wordlen", src, lo, hi))
            s2 = I.with_ge(s1, w - 1, hi - lo - w)
            if s2 is None:
                continue
            # whitespace after the word
            e = lo + w
            a = lin(nat("lws", src, s2.store.norm(e), hi))
            cover.add_ws(src, e, e + a)
            s2 = I.with_ge(s2, hi - e - a)
            if s2 is None:
                continue
            reg = I.nowss.setdefault(src, [])
            if (s2.store.norm(e + a), hi) not in reg:
                reg.append((s2.store.norm(e + a), hi))
            I.nowse.setdefault(src, []).append((s2.store.norm(e), lo))
            for s3, more in I.branch(s2, ("ge", hi - e - a - 1)):
                word = slice_str(I, src, lo, e, s3)
                if more:
                    s3 = I.with_ge(s3, a - 1)
                    if s3 is None:
                        continue
                    rest = slice_str(I, src, e + a, hi, s3)
                    out.append(I.new_list(s3, [Item(word), Item(rest)]))
                else:
                    out.append(I.new_list(s3, [Item(word)]))
    return out


def known_lines(I, seq, st):
    """the lines of a text put together from lines of lists that a check named (no element has a line ending)"""
    if not I.cfg.lines or not isinstance(seq, Seq) or not seq.p:
        return None
    seq = I.norm_seq(seq, st)
    out = [[]]
    for p in seq.p:
        if isinstance(p, Lit):
            if "\r" in p.s:
                return None
            for i, x in enumerate(p.s.split("\n")):
                if i:
                    out.append([])
                if x:
                    out[-1].append(Lit(x))
        elif isinstance(p, Sl) and isinstance(p.src, Term) and p.src.op == "elem" and p.src.args[0] in I.cfg.lines:
            out[-1].append(p)
        else:
            return None
    return [Seq("str", tuple(x)) for x in out]


def do_split(I, seq, sep, maxsplit, st, node, fid):
    if isinstance(sep, Seq) and sep.const == "\n" and maxsplit is None:
        ls = known_lines(I, seq, st)
        if ls is not None:
            return [I.new_list(st, [Item(x) for x in ls])]
    """sep: None | Seq; maxsplit: int or None"""
    seq = I.norm_seq(seq, st)
    c = None if sep is None else sep.const
    if seq.const is not None and (sep is None or c):
        parts = seq.const.split(c, -1 if maxsplit is None else maxsplit)
        return [I.new_list(st, [Item(S(x)) for x in parts])]
    if sep is None:
        if maxsplit == 1:
            return split_words(I, seq, st, 1, node)
    elif c and maxsplit == 1:
        out = []
        for s, r in cut2(I, seq, c, st):
            if r is None:
                out.append(I.new_list(s, [Item(seq)]))
            else:
                out.append(I.new_list(s, [Item(r[0]), Item(r[1])]))
        return out
    elif c and maxsplit is None and len(c) >= 2 and c.strip():
        # none, one, or at least two separators
        out = []
        for s, r in cut2(I, seq, c, st):
            if r is None:
                out.append(I.new_list(s, [Item(seq)]))
                continue
            for s2, r2 in cut2(I, r[1], c, s):
                if r2 is None:
                    out.append(I.new_list(s2, [Item(r[0]), Item(r[1])]))
                else:
                    t = Term("split", r2[1], c, None)
                    t.sort = ("list", "str")
                    s3 = I.with_ge(s2, length_of(t) - 1)
                    if s3 is not None:
                        out.append(I.new_list(s3, [Item(r[0]), Item(r2[0]), full(t)]))
        return out
    # an item list: one literal separator inside literal text only
    t = Term("split", seq, c if sep is not None else None, maxsplit) if (sep is None or c is not None) else \
        Term("split", seq, I.term(sep, st), maxsplit)
    t.sort = ("list", "str")
    n = length_of(t)
    s = st
    if len(seq.p) == 1 and isinstance(seq.p[0], Sl) and (sep is None or c and not c.strip()):
        cover.add_split(seq.p[0].src, t)
    if sep is not None:
        s = I.with_ge(st, n - 1)
    if s is None:
        return []
    return [I.new_list(s, [full(t)])]


def str_method(I, obj, name, args, kw, st, node, fid):
    obj = I.norm_seq(obj, st)
    # fold literals
    if obj.const is not None and name in FOLD and not kw:
        cs = [py_const(a, st) for a in args]
        if all(ok for ok, _ in cs):
            try:
                r = getattr(obj.const, name)(*[v for _, v in cs])
            except Exception as e:
                return [(st, Exc(ExcV("builtins." + type(e).__name__, origin=I.loc(node, fid))))]
            st, v = to_value(I, r, st)
            return [(st, v)]
    a0 = args[0] if args else None
    if name in ("strip", "lstrip", "rstrip"):
        chars = None
        if a0 is not None and not (isinstance(a0, Const) and a0.v is None):
            if not isinstance(a0, Seq):
                return opaque_str(I, name, [I.term(obj, st), I.term(a0, st)], st)
            chars = a0
            if chars.const is not None and not chars.const.strip() and set(" \t\n\r\x0b\x0c") <= set(chars.const):
                chars = None
            elif chars.const == "":
                return [(st, obj)]
        return strip(I, obj, st, name != "rstrip", name != "lstrip", chars)
    if name in ("startswith", "endswith") and len(args) == 1:
        from .interp import f_or
        fn = startswith_f if name == "startswith" else endswith_f
        cands = a0.items if isinstance(a0, Tup) else [a0]
        fs = []
        for cnd in cands:
            if isinstance(cnd, Seq) and cnd.const is not None:
                fs.append(fn(I, obj, cnd.const, st))
            else:
                fs.append(("atom", Term(name, I.term(obj, st), I.term(cnd, st))))
        f = f_or(*fs)
        return [(st, TRUE if f == ("T",) else FALSE if f == ("F",) else BoolV(f))]
    if name in ("split", "rsplit"):
        sep = a0 if a0 is not None else kw.get("sep")
        if isinstance(sep, Const):
            sep = None
        mx = args[1] if len(args) > 1 else kw.get("maxsplit")
        mv = None
        if mx is not None:
            ok, mv = py_const(mx, st)
            if ok and isinstance(mv, int) and mv < 0:
                mv = None
            elif not ok:
                mv = "?"
        if sep is not None and not isinstance(sep, Seq):
            sep = str_term(I.term(sep, st))
        if name == "rsplit" and mv is not None:
            if mv == 1 and sep is not None and sep.const:
                out = []
                for s, r in cut2(I, obj, sep.const, st, last=True):
                    out.append(I.new_list(s, [Item(obj)] if r is None else [Item(r[0]), Item(r[1])]))
                return out
            t = Term("rsplit", obj, None if sep is None else I.term(sep, st), mv)
            t.sort = ("list", "str")
            return [I.new_list(st, [full(t)])]
        return do_split(I, obj, sep, mv, st, node, fid)
    if name == "splitlines":
        t = Term("splitlines", obj)
        t.sort = ("list", "str")
        I.splitlines_sites.append((I.loc(node, fid), obj, bool(args or kw)))
        ls = known_lines(I, obj, st) if not args and not kw else None
        if ls is not None:
            return [I.new_list(st, [Item(x) for x in (ls if ls[-1].p else ls[:-1])])]
        s = st
        # nothing in, nothing out
        r = []
        for s2, ne in I.branch(st, ("ge", seq_len(obj) - 1)):
            if not ne:
                r.append(I.new_list(s2, []))
            else:
                s3 = I.with_ge(s2, length_of(t) - 1)
                if s3 is not None:
                    r.append(I.new_list(s3, [full(t)]))
        if args or kw:
            t = Term("splitlines_keep", obj)
            t.sort = ("list", "str")
            return [I.new_list(st, [full(t)])]
        return r
    if name in ("partition", "rpartition") and isinstance(a0, Seq) and a0.const:
        out = []
        for s, r in cut2(I, obj, a0.const, st, last=(name == "rpartition")):
            if r is None:
                out.append((s, Tup([obj, S(""), S("")] if name == "partition" else [S(""), S(""), obj])))
            else:
                out.append((s, Tup([r[0], S(a0.const), r[1]])))
        return out
    if name == "join":
        out = []
        for s, r in I.lib.to_list(I, a0, st, node, fid):
            if isinstance(r, Exc):
                out.append((s, r))
                continue
            v = join_seq(I, obj, s.heap[r.id].seq, s)
            q = v.p[0] if len(v.p) == 1 else None
            if isinstance(q, Join) and len(q.seq.p) == 1:
                w = q.seq.p[0]
                if isinstance(w, Sl) and w.src.op == "split" and all(x is None for x in w.src.args[1:]):
                    # every word has a character
                    s = I.with_ge(s, seq_len(v) - w.length)
                    if s is None:
                        continue
            out.append((s, v))
        return out
    if name in ("find", "index", "rfind", "rindex") and isinstance(a0, Seq) and a0.const and len(args) == 1:
        out = []
        for s, b in I.branch(st, contains_f(I, a0.const, obj, st)):
            if not b:
                if name.endswith("index"):
                    out.append((s, Exc(ExcV("builtins.ValueError", origin=I.loc(node, fid)))))
                else:
                    out.append((s, Num(-1)))
                continue
            r = (find_last if name[0] == "r" else find_pos)(I, obj, a0.const, s)
            if r is None:
                continue
            s2, p, src, lo, hi = r
            if name[0] != "r":
                s2 = s2.copy()
                s2.facts[Term("in", Term("s", a0.const), snapshot(slice_str(I, src, lo, lo + p, s2)))] = False
            out.append((s2, Num(p)))
        return out
    if name == "count" and isinstance(a0, Seq):
        t = nat("count", I.term(obj, st), I.term(a0, st))
        out = []
        if a0.const:
            for s, b in I.branch(st, contains_f(I, a0.const, obj, st)):
                if not b:
                    out.append((s, Num(0)))
                else:
                    s2 = I.with_ge(s, lin(t) - 1)
                    if s2 is not None:
                        out.append((s2, Num(lin(t))))
            return out
        return [(st, Num(lin(t)))]
    if name == "replace" and len(args) == 2 and isinstance(args[0], Seq) and isinstance(args[1], Seq):
        if args[0] == args[1]:
            return [(st, obj)]
        if args[0].const:
            out = []
            for s, b in I.branch(st, contains_f(I, args[0].const, obj, st)):
                if not b:
                    out.append((s, obj))
                else:
                    out += opaque_str(I, "replace", [obj, args[0], args[1]], s)
            return out
        return opaque_str(I, "replace", [obj, args[0], args[1]], st)
    if name in ("ljust", "rjust", "center") and isinstance(a0, Num):
        fill = args[1] if len(args) > 1 else S(" ")
        return pad(I, obj, name, a0.lin, fill, st)
    if name == "removeprefix" and isinstance(a0, Seq) and a0.const is not None:
        out = []
        for s, b in I.branch(st, startswith_f(I, obj, a0.const, st)):
            if not b:
                out.append((s, obj))
            else:
                out += [(x, v) for x, v in I.lib.slice_seq(I, obj, Num(len(a0.const)), None, s)]
        return out
    if name == "removesuffix" and isinstance(a0, Seq) and a0.const:
        out = []
        for s, b in I.branch(st, endswith_f(I, obj, a0.const, st)):
            if not b:
                out.append((s, obj))
            else:
                out += I.lib.slice_seq(I, obj, None, Num(seq_len(obj) - len(a0.const)), s)
        return out
    if name == "format":
        return fmt_call(I, obj, args, kw, st, node, fid)
    if name in ("isdigit", "isspace", "isalpha", "isalnum", "isupper", "islower", "isdecimal", "isnumeric",
                "isidentifier", "isprintable", "isascii", "istitle"):
        if name == "isspace":
            out = []
            for s, q in strip(I, obj, st, True, False, None):
                from .interp import f_and
                f = f_and(("ge", seq_len(obj) - 1), ("eq", seq_len(q)))
                out.append((s, BoolV(f)))
            return out
        return [(st, BoolV(("atom", Term(name, I.term(obj, st)))))]
    if name in ("upper", "lower", "title", "capitalize", "casefold", "swapcase", "expandtabs", "translate", "zfill"):
        return opaque_str(I, name, [obj] + [I.term(a, st) for a in args], st)
    if name == "encode":
        return [(st, Sym(Term("encode", I.term(obj, st), *[I.term(a, st) for a in args],
                              *[Term("kw", k, I.term(v, st)) for k, v in sorted(kw.items())])))]
    if name in ("__len__",):
        return [(st, Num(seq_len(obj)))]
    return I.opaque_result(Term("mcall", I.term(obj, st), name, *[I.term(a, st) for a in args]), st, node, fid,
                           "str." + name, args, kw)


def pad(I, obj, how, width, fill, st):
    """ljust / rjust / center: unknown non-negative amount of padding"""
    n = seq_len(obj)
    out = []
    for s, need in I.branch(st, ("ge", width - n - 1)):
        if not need:
            out.append((s, obj))
            continue
        k = width - n
        if how == "ljust":
            out.append((s, I.mk_seq("str", list(obj.p) + [Rep(fill, k)], s)))
        elif how == "rjust":
            out.append((s, I.mk_seq("str", [Rep(fill, k)] + list(obj.p), s)))
        else:
            l = lin(nat("cpad", I.term(obj, s), s.store.norm(width)))
            s2 = I.with_ge(s, k - l)
            if s2 is not None:
                out.append((s2, I.mk_seq("str", [Rep(fill, l)] + list(obj.p) + [Rep(fill, k - l)], s2)))
    return out


def join_seq(I, sep, seq, st):
    seq = I.norm_seq(seq, st)
    if all(isinstance(p, Item) for p in seq.p) and all(isinstance(p.v, Seq) for p in seq.p):
        ps = []
        for i, p in enumerate(seq.p):
            if i:
                ps += list(sep.p)
            ps += list(p.v.p)
        return I.mk_seq("str", ps, st)
    return Seq("str", (Join(sep, seq),))


def to_str(I, v, st):
    """str(v) as Seq"""
    if isinstance(v, Seq) and v.kind == "str":
        return v
    if isinstance(v, Const):
        return S(str(v.v))
    if isinstance(v, Num):
        n = st.store.norm(v.lin)
        if n.const is not None:
            return S(str(int(n.const)))
        t = Term("numstr", n)
        t.sort = "str"
        return str_term(t)
    t = Term("strof", I.term(v, st))
    t.sort = "str"
    return str_term(t)


def numstr_facts(I, v, st):
    if isinstance(v, Seq) and len(v.p) == 1 and isinstance(v.p[0], Sl) and v.p[0].src.op == "numstr":
        s = I.with_ge(st, length_of(v.p[0].src) - 1)
        return s or st
    return st


def fmt_value(I, v, conv, spec, st):
    """formatted value pieces -> [(st, Seq)]"""
    if conv in (ord("r"), "r"):
        t = Term("repr", I.term(v, st))
        t.sort = "str"
        v = str_term(t)
    elif conv in (ord("a"), "a"):
        t = Term("ascii", I.term(v, st))
        t.sort = "str"
        v = str_term(t)
    if spec is None or spec.const == "":
        return [(st, to_str(I, v, st))]
    # [[fill]align][width] for strings
    c = spec.p
    fill, align, width = " ", None, None
    rest = list(c)
    if rest and isinstance(rest[0], Lit):
        s0 = rest[0].s
        if len(s0) >= 2 and s0[1] in "<>^":
            fill, align, s0 = s0[0], s0[1], s0[2:]
        elif s0 and s0[0] in "<>^":
            align, s0 = s0[0], s0[1:]
        rest = ([Lit(s0)] if s0 else []) + rest[1:]
    base = to_str(I, v, st)
    if len(rest) == 1 and isinstance(rest[0], Lit) and rest[0].s.isdigit():
        width = Lin(int(rest[0].s))
    elif len(rest) == 1 and isinstance(rest[0], Sl) and rest[0].src.op == "numstr":
        width = rest[0].src.args[0]
    elif not rest:
        return [(st, base)]
    if width is not None and (align or isinstance(v, Seq)):
        how = {"<": "ljust", ">": "rjust", "^": "center", None: "ljust"}[align]
        return pad(I, base, how, width, S(fill), st)
    t = Term("format", I.term(v, st), spec)
    t.sort = "str"
    return [(st, str_term(t))]


def fstring(I, e, st, fid):
    cur = [(st, [])]
    done = []
    for part in e.values:
        nxt = []
        for s, ps in cur:
            if isinstance(part, ast.Constant):
                nxt.append((s, ps + [Lit(part.value)]))
                continue
            for s2, v in I.eval(part.value, s, fid):
                if isinstance(v, Exc):
                    done.append((s2, v))
                    continue
                specs = [(s2, None)]
                if part.format_spec is not None:
                    specs = fstring(I, part.format_spec, s2, fid)
                for s3, sp in specs:
                    if isinstance(sp, Exc):
                        done.append((s3, sp))
                        continue
                    for s4, q in fmt_value(I, v, part.conversion if part.conversion != -1 else None, sp, s3):
                        nxt.append((numstr_facts(I, q, s4), ps + list(q.p)))
        cur = nxt
    return done + [(s, I.mk_seq("str", ps, s)) for s, ps in cur]


def fmt_call(I, obj, args, kw, st, node, fid):
    """'...'.format(...)"""
    import string
    c = obj.const
    if c is None:
        return opaque_str(I, "formatted", [obj] + [I.term(a, st) for a in args] +
                          [Term("kw", k, I.term(v, st)) for k, v in sorted(kw.items())], st)
    cur = [(st, [])]
    auto = 0
    try:
        parsed = list(string.Formatter().parse(c))
    except ValueError:
        return opaque_str(I, "formatted", [obj], st)
    for lit, field, spec, conv in parsed:
        if field is not None:
            if field == "":
                v = args[auto] if auto < len(args) else None
                auto += 1
            elif field.isdigit():
                v = args[int(field)] if int(field) < len(args) else None
            else:
                v = kw.get(field)
            if v is None:
                v = Sym(Term("field", field, *[I.term(a, st) for a in args]))
        nxt = []
        for s, ps in cur:
            ps = ps + ([Lit(lit)] if lit else [])
            if field is None:
                nxt.append((s, ps))
                continue
            sp = S(spec) if spec else None
            for s2, q in fmt_value(I, v, conv, sp, s):
                nxt.append((s2, ps + list(q.p)))
        cur = nxt
    return [(s, I.mk_seq("str", ps, s)) for s, ps in cur]


def percent(I, a, b, st):
    c = a.const
    args = list(b.items) if isinstance(b, Tup) else [b]
    if c is None:
        return opaque_str(I, "percent", [a] + [I.term(x, st) for x in args], st)
    ps = []
    i = 0
    import re
    pos = 0
    for m in re.finditer(r"%(-?\d*)([sdr%])", c):
        ps.append(Lit(c[pos:m.start()]))
        pos = m.end()
        if m.group(2) == "%":
            ps.append(Lit("%"))
            continue
        if i >= len(args):
            return opaque_str(I, "percent", [a] + [I.term(x, st) for x in args], st)
        v = args[i]
        i += 1
        if m.group(1):
            return opaque_str(I, "percent", [a] + [I.term(x, st) for x in args], st)
        if m.group(2) == "r":
            t = Term("repr", I.term(v, st))
            t.sort = "str"
            ps += list(str_term(t).p)
        else:
            ps += list(to_str(I, v, st).p)
    ps.append(Lit(c[pos:]))
    return [(st, I.mk_seq("str", ps, st))]
