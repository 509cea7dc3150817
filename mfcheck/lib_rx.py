"""Abstract semantics of the re module."""
from .terms import Term, Lin, lin, ZERO, ONE, Contradiction, fresh
from .values import *
from . import cover, rx
from .lib_str import as_slice, slice_str, opaque_str, contains_f


def rx_norm(rxv):
    return (rxv.pat, rxv.flags)


def bounds(t):
    return lin(nat("ms", t)), lin(nat("me", t))


def register(I, src, lo, hi, pat, flags, st):
    I.rxslices.setdefault(src, [])
    e = (st.store.norm(lo), st.store.norm(hi), pat, flags)
    if e not in I.rxslices[src]:
        I.rxslices[src].append(e)
    if pat is not None:
        ch = rx.single_char(pat, flags)
        if ch is not None:
            cover.add_run(src, lo, hi, S(ch))


def mk_match(I, t, seq, pats, st, s=None, e=None):
    """match value for term t on seq (Seq); pats: tuple of (pat, flags); bounds relative to seq start"""
    src, lo, hi = as_slice(I, seq, st)
    if s is None:
        s, e = bounds(t)
    mw = min(rx.width(p, f)[0] if p is not None else 0 for p, f in pats)
    n = hi - lo
    st2 = I.with_ge(st, s, e - s - mw, n - e)
    if st2 is None:
        st2 = st
    if len(pats) == 1:
        p, f = pats[0]
        mx = rx.width(p, f)[1] if p is not None else None
        if mx is not None and mx < 2000:
            st3 = I.with_ge(st2, s + mx - e)
            st2 = st3 or st2
        register(I, src, lo + s, lo + e, p, f, st2)
    m = MatchV(t, seq, pats)
    I.match_bounds[t] = (s, e)
    return st2, m


def get_bounds(I, m):
    return I.match_bounds.get(m.term) or bounds(m.term)


def match_call(I, rxv, kind, seq, st, node, fid):
    """re.match/search/fullmatch -> [(st, MatchV | None)]"""
    if not isinstance(seq, Seq):
        seq = str_term(I.term(seq, st))
    seq = I.norm_seq(seq, st)
    pat = rxv.pat if isinstance(rxv, RegexV) else None
    flags = rxv.flags if isinstance(rxv, RegexV) else 0
    key = (pat, flags) if pat is not None else I.term(rxv, st)
    t = Term("rxm", kind, key, snapshot(seq))
    t.sort = "match"
    out = []
    # cheap refutation: a mandatory literal that cannot occur
    if pat is not None:
        for lit_ in rx.mandatory(pat, flags):
            if I.decide(contains_f(I, lit_, seq, st), st) is False:
                return [(st, NONE)]
        if st.store.entails_ge(rx.width(pat, flags)[0] - 1 - seq_len(seq)):
            return [(st, NONE)]
        if seq.const is not None:
            import re
            # constant folding on literals of the program text
            m = getattr(re.compile(pat, flags), kind)(seq.const)
            if m is None:
                return [(st, NONE)]
            for s in I.assume(st, ("atom", t), True):
                s2, v = mk_match(I, t, seq, ((pat, flags),), s, lin(m.start()), lin(m.end()))
                out.append((s2, v))
            return out
    g = rx.margin(pat, flags) if pat is not None else None
    if g is not None and (kind == "match" or kind == "search" and rx.anchored(pat, flags)):
        return margin_match(I, t, pat, flags, g, seq, st)
    for s, b in I.branch(st, ("atom", t)):
        if not b:
            out.append((s, NONE))
            continue
        ms, me = bounds(t)
        if kind in ("match", "fullmatch"):
            ms = ZERO
        if kind == "fullmatch":
            me = seq_len(seq)
        s2, m = mk_match(I, t, seq, ((pat, flags),), s, ms, me)
        if pat is not None:
            s2 = lead_facts(I, pat, flags, kind, seq, ms, s2)
            if s2 is None:
                continue
            g = rx.lead(pat, flags)
            if g is not None:
                from .lib_str import strip
                for s3, q in strip(I, seq, s2, True, False, None):
                    k = seq_len(seq) - seq_len(q)
                    s3 = I.with_ge(s3, k - g[0], *([lin(g[1]) - k] if g[1] is not None else []))
                    if s3 is not None:
                        out.append((s3, m))
                continue
        out.append((s2, m))
    return out


def margin_match(I, t, pat, flags, g, seq, st):
    """a pattern `^ {m,n}text`: matches where what follows the leading blanks starts with the text"""
    from .lib_str import strip, startswith_f
    every, mn, mx, text = g
    out = []
    for s, q in strip(I, seq, st, True, False, None):
        k = s.store.norm(seq_len(seq) - seq_len(q))
        conds = [("ge", k - mn)] + ([("ge", lin(mx) - k)] if mx is not None else []) + [startswith_f(I, q, text, s)]
        cur = [s]
        for f in conds:
            nxt = []
            for s1 in cur:
                for s2, b in I.branch(s1, f):
                    if b:
                        nxt.append(s2)
                    else:
                        out.append((s2, NONE))
            cur = nxt
        for s1 in cur:
            for s2, b in ([(s1, True)] if every else I.branch(s1, ("atom", t))):
                if b:
                    s2, m = mk_match(I, t, seq, ((pat, flags),), s2, ZERO, s2.store.norm(k + len(text)))
                    out.append((s2, m))
                else:
                    out.append((s2, NONE))
    return out


def lead_facts(I, pat, flags, kind, seq, ms, st):
    """the match begins with known literal text"""
    pre = rx.prefix(pat, flags)
    if pre and len(seq.p):
        src, lo, hi = as_slice(I, seq, st)
        for f in [("atom", Term("sw", src, st.store.norm(lo + ms), st.store.norm(hi), pre))]:
            ss = I.assume(st, f, True)
            if not ss:
                return None
            st = ss[0]
    return st


def match_method(I, m, name, args, kw, st, node, fid):
    s, e = get_bounds(I, m)
    src, lo, hi = as_slice(I, m.seq, st)
    g = None
    if args:
        if isinstance(args[0], Num) and args[0].lin.const is not None:
            g = int(args[0].lin.const)
        elif isinstance(args[0], Seq):
            g = args[0].const
    if name in ("start", "end", "span", "group", "__getitem__") and len(args) <= 1:
        if g in (None, 0):
            a, b, opt = s, e, False
            sts = [st]
        else:
            a = lin(nat("gs", m.term, g))
            b = lin(nat("ge", m.term, g))
            st2 = I.with_ge(st, a - s, b - a, e - b)
            if st2 is None:
                return []
            sts = [st2]
            info = None
            if len(m.rx) == 1 and m.rx[0][0] is not None:
                info = rx.group_info(m.rx[0][0], g, m.rx[0][1])
            if info is not None:
                mn, mx, mand, pre = info
                st2 = I.with_ge(st2, b - a - mn)
                if st2 is None:
                    return []
                if mx is not None:
                    st2 = I.with_ge(st2, a + mx - b)
                    if st2 is None:
                        return []
                sts = [st2]
                if not mand and name == "group":
                    t = Term("grouped", m.term, g)
                    r = []
                    for x, has in I.branch(st2, ("atom", t)):
                        r.append((x, slice_str(I, src, lo + a, lo + b, x) if has else NONE))
                    return r
        st = sts[0]
        if name == "start":
            return [(st, Num(st.store.norm(a)))]
        if name == "end":
            return [(st, Num(st.store.norm(b)))]
        if name == "span":
            return [(st, Tup([Num(st.store.norm(a)), Num(st.store.norm(b))]))]
        return [(st, slice_str(I, src, lo + a, lo + b, st))]
    if name == "group" and len(args) > 1:
        vals = []
        for x in args:
            rs = match_method(I, m, "group", [x], {}, st, node, fid)
            if not rs:
                return []
            st, v = rs[0]
            vals.append(v)
        return [(st, Tup(vals))]
    if name == "groups":
        n = rx.group_count(m.rx[0][0], m.rx[0][1]) if len(m.rx) == 1 and m.rx[0][0] is not None else None
        if n is not None:
            cur = [(st, [])]
            for i in range(1, n + 1):
                cur = [(s2, vs + [v]) for s1, vs in cur for s2, v in
                       match_method(I, m, "group", [Num(i)], {}, s1, node, fid)]
            return [(s1, Tup(vs)) for s1, vs in cur]
    if name == "groupdict":
        names = rx.group_names(m.rx[0][0], m.rx[0][1]) if len(m.rx) == 1 and m.rx[0][0] is not None else None
        if names is not None:
            cur = [(st, [])]
            for nm in names:
                cur = [(s2, vs + [(S(nm), v)]) for s1, vs in cur for s2, v in
                       match_method(I, m, "group", [S(nm)], {}, s1, node, fid)]
            return [I.alloc(s1, DObj(tuple(vs), "dict", Term("groupdict", m.term))) for s1, vs in cur]
    t = Term("mattr", m.term, name, *[I.term(a, st) for a in args])
    return [(st, Sym(t))]


def rx_method(I, r, name, args, kw, st, node, fid):
    if name in ("match", "search", "fullmatch"):
        seq = args[0] if args else kw.get("string")
        if len(args) > 1:
            # start position
            out = []
            for s, q in I.lib.slice_seq(I, I.norm_seq(seq, st), args[1], args[2] if len(args) > 2 else None, st):
                for s2, m in match_call(I, r, name, q, s, node, fid):
                    if isinstance(m, MatchV):
                        a, b = get_bounds(I, m)
                        off = args[1].lin
                        m2 = MatchV(m.term, seq, m.rx)
                        I.match_bounds[m.term] = (a + off, b + off)
                        m = m2
                    out.append((s2, m))
            return out
        return match_call(I, r, name, seq, st, node, fid)
    if name == "finditer":
        seq = I.norm_seq(args[0], st)
        return [I.alloc(st, ItObj("finditer", seq=seq, pats=(rx_key(r, I, st),), pe=ZERO, k=ZERO, done=False,
                                  t=Term("rxlist", (rx_key(r, I, st),), seq, "found")))]
    if name == "findall":
        seq = I.norm_seq(args[0], st)
        t = Term("findall", rx_key(r, I, st), seq)
        ng = rx.group_count(r.pat, r.flags) if isinstance(r, RegexV) and r.pat is not None else 0
        t.sort = ("list", "str") if ng <= 1 else ("list", None)
        return [I.new_list(st, [full(t)])]
    if name == "split":
        seq = I.norm_seq(args[0], st)
        mx = args[1] if len(args) > 1 else kw.get("maxsplit")
        if isinstance(seq, Seq) and seq.const is not None and mx is None and isinstance(r, RegexV) and r.pat is not None:
            import re
            # constant folding on literals of the program text
            return [I.new_list(st, [Item(NONE if x is None else S(x)) for x in re.split(r.pat, seq.const, flags=r.flags)])]
        if mx is None and isinstance(r, RegexV) and r.pat is not None and only_endings(r.pat):
            from .lib_str import known_lines
            ls = known_lines(I, seq, st)
            if ls is not None:
                return [I.new_list(st, [Item(x) for x in ls])]
        t = Term("resplit", seq, r.pat if isinstance(r, RegexV) else I.term(r, st),
                 *([I.term(mx, st)] if mx is not None else []))
        t.sort = ("list", "str")
        s = I.with_ge(st, length_of(t) - 1)
        if s is not None and mx is None and isinstance(r, RegexV) and r.pat is not None:
            # a text that starts with a separator: the first part is empty
            c = rx.head_char(r.pat, r.flags)
            p0 = seq.p[0] if seq.p else None
            if c and (isinstance(p0, Lit) and p0.s.startswith(c)
                      or isinstance(p0, Sl) and cover.match_lit(p0.src, p0.lo, c, s, "exact") is not None):
                from .lib_iter import elem_value
                s, e = elem_value(I, t, ZERO, s)
                s = I.with_ge(s, length_of(t) - 2)
                s = s and I.with_ge(s, -seq_len(e))
        return [] if s is None else [I.new_list(s, [full(t)])]
    if name in ("sub", "subn"):
        return re_sub(I, r, args, kw, st, node, fid)
    if name == "pattern":
        return [(st, S(r.pat))]
    return I.opaque_result(Term("rxmeth", I.term(r, st), name, *[I.term(a, st) for a in args]), st, node, fid, "re." + name, args, kw)


def only_endings(pat):
    """the pattern matches nothing but single line endings"""
    import re
    return re.fullmatch(r"(?:[\\rn|()?:\r\n]|\[[\\rn\r\n]+\])+", pat) is not None and re.split(pat, "a\nb") == ["a", "b"]


def rx_key(r, I, st):
    if isinstance(r, RegexV):
        return (r.pat, r.flags)
    return (None, 0)


def re_sub(I, r, args, kw, st, node, fid):
    repl, seq = args[0], args[1]
    if not isinstance(seq, Seq):
        seq = str_term(I.term(seq, st))
    seq = I.norm_seq(seq, st)
    pat = r.pat if isinstance(r, RegexV) else None
    if pat is not None and isinstance(repl, Seq) and repl.const == "" and rx.anchored(pat, r.flags):
        out = []
        for s, m in match_call(I, r, "match", seq, st, node, fid):
            if not isinstance(m, MatchV):
                out.append((s, seq))
            else:
                a, b = get_bounds(I, m)
                from .lib_list import cut
                out.append((s, cut(I, seq, b, seq_len(seq), s)))
        return out
    return opaque_str(I, "resub", [rx_key(r, I, st), I.term(repl, st), seq], st)
