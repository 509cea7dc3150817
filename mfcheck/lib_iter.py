"""Abstract semantics of iteration, comprehensions and quantifiers."""
import ast

from .terms import Term, Lin, lin, ZERO, ONE, Contradiction, fresh
from .values import *
from . import cover
from .lib_list import exc, list_get_forks, cut, elem_value, slice_seq
from .lib_rx import mk_match, bounds, get_bounds


def _n(v, default=0):
    if v is None or isinstance(v, Const):
        return lin(default) if v is None or v.v is None else lin(int(v.v))
    if isinstance(v, Num):
        return v.lin
    return None


def make_iter(I, v, st, node, fid):
    """-> [(st, Ref of an ItObj | Exc)]"""
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, ItObj):
            return [(st, v)]
        if isinstance(o, LObj):
            return [I.alloc(st, ItObj("list", ref=v, seq=None, pos=ZERO, prev=None))]
        if isinstance(o, DObj):
            if o.items is not None:
                sq = Seq("list", [Item(k) for k, _ in o.items])
            else:
                t = Term("keys", o.term or Term("ref", v.id))
                t.sort = ("list", None)
                sq = Seq("list", (full(t),))
            return [I.alloc(st, ItObj("list", ref=None, seq=sq, pos=ZERO, prev=None))]
        if isinstance(o, IObj):
            from .model import Func
            a = I.prog.class_attr(o.cls, "__iter__")
            if isinstance(a, Func):
                out = []
                for s, r in I.call_func(a, [v], {}, st, node, fid):
                    if isinstance(r, Exc):
                        out.append((s, r))
                    elif r == v:
                        out.append((s, r))
                    else:
                        out += make_iter(I, r, s, node, fid)
                return out
    if isinstance(v, Tup):
        return [I.alloc(st, ItObj("list", ref=None, seq=Seq("list", [Item(x) for x in v.items]), pos=ZERO, prev=None))]
    if isinstance(v, Seq):
        return [I.alloc(st, ItObj("chars", seq=I.norm_seq(v, st), pos=ZERO))]
    from .interp import GenV, GenExprV
    if isinstance(v, (GenV, GenExprV)):
        out = []
        for s, r in to_list(I, v, st, node, fid):
            out += [(s, r)] if isinstance(r, Exc) else make_iter(I, r, s, node, fid)
        return out
    t = I.term(v, st)
    if v == NONE:
        return [(st, exc(I, "TypeError", node, fid))]
    if isinstance(v, ClsV) and any(isinstance(b, str) and b.startswith("enum.")
                                   for c in I.prog.mro(v.cls) for b in c.bases):
        ms = [Item(Sym(Term("enum", v.cls.qual, k))) for k, a in v.cls.attrs.items()
              if isinstance(a, ast.expr) and not k.startswith("_")]
        return [I.alloc(st, ItObj("list", ref=None, seq=Seq("list", ms), pos=ZERO, prev=None))]
    if t.sort is None:
        t2 = Term("iterof", t)
        t2.sort = ("list", None)
        t = t2
    return [I.alloc(st, ItObj("list", ref=None, seq=Seq("list", (full(t),)), pos=ZERO, prev=None))]


def cur_seq(I, o, st):
    if o.d["ref"] is not None:
        x = st.heap[o.d["ref"].id]
        return I.norm_seq(x.seq, st)
    return I.norm_seq(o.d["seq"], st)


def piece_at(seq, pos, st):
    """the piece a definite position falls on (None when unknown), or 'end'"""
    acc = ZERO
    for p in seq.p:
        if isinstance(p, Ext):
            continue
        if st.store.entails_eq(acc - pos) and isinstance(p, Item):
            return p
        n = p.length
        if not isinstance(p, Item):
            if not st.store.entails_ge(pos - acc - n):
                return None
        acc = acc + n
    return "end" if st.store.entails_eq(acc - pos) else None


def it_exact(I, it, st):
    """is the next step decided without a case split?"""
    o = st.heap[it.id]
    k = o.kind
    if k == "list":
        return piece_at(cur_seq(I, o, st), st.store.norm(o.d["pos"]), st) is not None
    if k == "chars":
        c = o.d["seq"].const
        return c is not None and len(c) <= 64
    if k in ("enum", "map", "filter", "rev"):
        return it_exact(I, o.d["it"], st)
    if k == "zip":
        return all(it_exact(I, x, st) for x in o.d["its"]) if o.d["its"] else True
    if k == "chain":
        return it_exact(I, o.d["its"][0], st) if o.d["its"] else True
    if k == "range":
        c, e = st.store.norm(o.d["cur"]).const, st.store.norm(o.d["stop"]).const
        return c is not None and e is not None and abs(e - c) <= 40
    return False


def _upd(st, it, **kw):
    return st.sethe(it.id, st.heap[it.id].with_(**kw))


def it_next(I, it, st, node, fid):
    """-> [(st, V | STOP | Exc)]"""
    from .interp import STOP
    o = st.heap[it.id]
    k = o.kind
    out = []
    if k == "list":
        seq = cur_seq(I, o, st)
        pos = st.store.norm(o.d["pos"])
        n = seq_len(seq)
        for s, more in I.branch(st, ("ge", n - 1 - pos)):
            if not more:
                s2 = I.with_ge(s, pos - n)
                if s2 is not None:
                    out.append((s2, STOP))
                continue
            link = (o.d["ref"].id, pos) if o.d["ref"] is not None else None
            for s2, v in list_get_forks(I, seq, pos, s, link):
                s3 = match_order(I, o, v, s2)
                if s3 is None:
                    continue
                prev = (v.term.args[0],) + tuple(get_bounds(I, v)) if isinstance(v, MatchV) and v.term.op == "rxelem" else None
                out.append((_upd(s3, it, pos=pos + 1, prev=prev), v))
        return out
    if k == "chars":
        seq, pos = o.d["seq"], st.store.norm(o.d["pos"])
        n = seq_len(seq)
        for s, more in I.branch(st, ("ge", n - 1 - pos)):
            if not more:
                out.append((s, STOP))
            else:
                out.append((_upd(s, it, pos=pos + 1), cut(I, seq, pos, pos + 1, s)))
        return out
    if k == "enum":
        for s, v in it_next(I, o.d["it"], st, node, fid):
            if v is STOP or isinstance(v, Exc):
                out.append((s, v))
            else:
                n = o.d["n"]
                out.append((_upd(s, it, n=n + 1), Tup([Num(s.store.norm(n)), v])))
        return out
    if k == "zip":
        cur = [(st, [])]
        for x in o.d["its"]:
            nx = []
            for s, vs in cur:
                for s2, v in it_next(I, x, s, node, fid):
                    if v is STOP or isinstance(v, Exc):
                        out.append((s2, v))
                    else:
                        nx.append((s2, vs + [v]))
            cur = nx
        if not o.d["its"]:
            return [(st, STOP)]
        return out + [(s, Tup(vs)) for s, vs in cur]
    if k == "ziplong":
        return ziplong(I, it, o, st, node, fid)
    if k == "range":
        c, e, step = st.store.norm(o.d["cur"]), st.store.norm(o.d["stop"]), o.d["step"]
        f = ("ge", e - c - 1) if step > 0 else ("ge", c - e - 1)
        for s, more in I.branch(st, f):
            if more:
                out.append((_upd(s, it, cur=c + step), Num(c)))
            else:
                out.append((s, STOP))
        return out
    if k == "chain":
        its = o.d["its"]
        if not its:
            return [(st, STOP)]
        for s, v in it_next(I, its[0], st, node, fid):
            if v is STOP:
                out += it_next(I, it, _upd(s, it, its=its[1:]), node, fid)
            else:
                out.append((s, v))
        return out
    if k == "map":
        for s, v in it_next(I, o.d["it"], st, node, fid):
            if v is STOP or isinstance(v, Exc):
                out.append((s, v))
            else:
                out += I.call(o.d["fn"], [v], {}, s, node, fid)
        return out
    if k == "filter":
        work = [(st, 0)]
        while work:
            s0, d = work.pop()
            for s, v in it_next(I, o.d["it"], s0, node, fid):
                if v is STOP or isinstance(v, Exc):
                    out.append((s, v))
                    continue
                rs = [(s, v)] if o.d["fn"] == NONE else I.call(o.d["fn"], [v], {}, s, node, fid)
                for s2, b in rs:
                    if isinstance(b, Exc):
                        out.append((s2, b))
                        continue
                    for s3, ok in I.branch(s2, I.truth(b, s2)):
                        if ok:
                            out.append((s3, v))
                        elif d < 2:
                            work.append((s3, d + 1))
                        else:
                            I.dropped += 1
        return out
    if k == "finditer":
        if o.d["done"]:
            return [(st, STOP)]
        t = o.d["t"]
        kk = st.store.norm(o.d["k"])
        n = length_of(t)
        for s, more in I.branch(st, ("ge", n - 1 - kk)):
            if not more:
                out.append((_upd(s, it, done=True), STOP))
                continue
            s2, v = elem_value(I, t, kk, s)
            a, b = get_bounds(I, v)
            s3 = I.with_ge(s2, a - o.d["pe"])
            if s3 is not None:
                out.append((_upd(s3, it, k=kk + 1, pe=b), v))
        return out
    raise AssertionError(k)


def match_order(I, o, v, st):
    p = o.d.get("prev")
    if p is None or not isinstance(v, MatchV) or v.term.op != "rxelem" or v.term.args[0] is not p[0]:
        return st
    a, b = get_bounds(I, v)
    if len(p[0].args) > 2 and p[0].args[2] == "found":
        return I.with_ge(st, a - p[2])
    return I.with_ge(st, a - p[1])


def ziplong(I, it, o, st, node, fid):
    from .interp import STOP
    cur = [(st, [], False)]
    out = []
    for x in o.d["its"]:
        nx = []
        for s, vs, any_ in cur:
            for s2, v in it_next(I, x, s, node, fid):
                if isinstance(v, Exc):
                    out.append((s2, v))
                elif v is STOP:
                    nx.append((s2, vs + [o.d["fill"]], any_))
                else:
                    nx.append((s2, vs + [v], True))
        cur = nx
    return out + [(s, Tup(vs) if a else STOP) for s, vs, a in cur]


def it_source(I, it, st):
    """[(source list term, position expr)] of the underlying lists"""
    o = st.heap.get(it.id)
    if o is None:
        return None
    if o.kind == "list":
        seq = cur_seq(I, o, st)
        if len(seq.p) == 1 and isinstance(seq.p[0], Sl) and cover.sort_is_list(seq.p[0].src):
            return [(seq.p[0].src, st.store.norm(seq.p[0].lo + o.d["pos"]))]
        return None
    if o.kind in ("enum", "map"):
        return it_source(I, o.d["it"], st)
    if o.kind == "zip":
        r = []
        for x in o.d["its"]:
            q = it_source(I, x, st)
            if q:
                r += q
        return r or None
    return None


# ------------------------------------------------------------------ materialising

def accumulate(I, iterate, st, node, fid):
    """run iterate(st, body), appending every value to a fresh list -> [(st, Ref|Exc)]"""
    from .interp import Out
    st, r = I.new_list(st)
    key = "__acc%d" % id(node)
    own = fid in st.frames
    old = None
    if own:
        old = st.frames[fid].get(key)
        st = st.setvar(fid, key, r)

    def body(x, val):
        ref = x.frames[fid][key] if own else r
        s = append_raw(I, ref, val, x)
        return [Out("normal", s)]
    out = []
    for o in iterate(st, body):
        s = o.st
        ref = s.frames[fid].get(key, r) if own and fid in s.frames else r
        if own and fid in s.frames:
            s = s.copy()
            env = dict(s.frames[fid])
            env.pop(key, None)
            if old is not None:
                env[key] = old
            s.frames[fid] = env
        if o.kind == "exhaust" or o.kind == "normal":
            out.append((s, ref))
        elif o.kind == "raise":
            out.append((s, Exc(o.val)))
    return out


def append_raw(I, ref, v, st):
    o = st.heap[ref.id]
    return st.sethe(ref.id, LObj(I.mk_seq("list", o.seq.p + (Item(v, I.item_flags(v, st)),), st), o.link))


def to_list(I, v, st, node, fid):
    """-> [(st, Ref of a new list | Exc)]"""
    from .interp import GenV, GenExprV
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, LObj):
            return [I.new_list(st, o.seq.p)]
        if isinstance(o, ItObj):
            if o.kind == "list":
                seq = cur_seq(I, o, st)
                pos = st.store.norm(o.d["pos"])
                n = seq_len(seq)
                out = []
                for s, ok in I.branch(st, ("ge", n - pos)):
                    q = cut(I, seq, pos, n, s) if ok else Seq("list")
                    if ok:
                        s = _upd(s, v, pos=n)
                    out.append(I.new_list(s, q.p))
                return out
            if o.kind == "finditer" and st.store.norm(o.d["k"]) == ZERO and not o.d["done"]:
                s = _upd(st, v, done=True)
                return [I.new_list(s, (full(rx_sorted(o.d["t"])),))]
            if o.kind == "chain" and o.d["its"]:
                cur = [(st, ())]
                out = []
                for x in o.d["its"]:
                    nx = []
                    for s, ps in cur:
                        for s2, r in to_list(I, x, s, node, fid):
                            if isinstance(r, Exc):
                                out.append((s2, r))
                            else:
                                nx.append((s2, ps + s2.heap[r.id].seq.p))
                    cur = nx
                return out + [I.new_list(s, I.mk_seq("list", ps, s).p) for s, ps in cur]
            if o.kind == "map":
                return map_list(I, o, st, node, fid)
            return accumulate(I, lambda s, b: I.iterate(v, s, b, node, fid), st, node, fid)
        if isinstance(o, DObj) and o.items is not None:
            return [I.new_list(st, [Item(k) for k, _ in o.items])]
    if isinstance(v, Tup):
        return [I.new_list(st, [Item(x) for x in v.items])]
    if isinstance(v, Seq):
        if v.kind == "list":
            return [I.new_list(st, v.p)]
        if v.const is not None:
            return [I.new_list(st, [Item(S(c)) for c in v.const])]
        t = Term("chars", I.norm_seq(v, st))
        t.sort = ("list", "str")
        return [I.new_list(st, (full(t),))]
    if isinstance(v, GenExprV):
        return comp(I, v.node, v.fid, st, node)
    if isinstance(v, GenV):
        return accumulate(I, lambda s, b: I.iterate(v, s, b, node, fid), st, node, fid)
    out = []
    for s, it in make_iter(I, v, st, node, fid):
        if isinstance(it, Exc):
            out.append((s, it))
        else:
            out += to_list(I, it, s, node, fid)
    return out


def rx_sorted(t):
    t.sort = ("list", "match")
    return t


def map_list(I, o, st, node, fid):
    out = []
    fn = o.d["fn"]
    for s, r in to_list(I, o.d["it"], st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        seq = s.heap[r.id].seq
        got = image(I, seq, lambda x, v: I.call(fn, [v], {}, x, node, fid), s)
        if got is not None:
            s2, q, excs = got
            out.append(I.new_list(s2, q.p))
            out += excs
            continue
        out += accumulate(I, lambda x, b: map_each(I, r, fn, x, b, node, fid), s, node, fid)
    return out


def map_each(I, r, fn, st, body, node, fid):
    from .interp import Out

    def b2(x, v):
        res = []
        for y, w in I.call(fn, [v], {}, x, node, fid):
            if isinstance(w, Exc):
                res.append(Out("raise", y, w.v))
            else:
                res += body(y, w)
        return res
    return I.iterate(r, st, b2, node, fid)


def clean(a, b):
    """no observable state change from a to b (facts and constraints may grow)"""
    if a.attrs != b.attrs or a.cells != b.cells:
        return False
    if a.ghost != b.ghost:
        return False
    for k, o in a.heap.items():
        x = b.heap.get(k)
        if x is not o and x != o:
            return False
    return True


def pure_at(I, fn, st, L, i, kdims):
    """evaluate fn on element i of L: single clean outcome -> (st, value, excs) or None"""
    s1, v = elem_value(I, L, i, st)
    outs = fn(s1, v)
    good = [(s, w) for s, w in outs if not isinstance(w, Exc)]
    excs = [(s, w) for s, w in outs if isinstance(w, Exc)]
    if len(good) != 1 or not clean(s1, good[0][0]):
        return None
    for s, w in excs:
        if w.v.exact:
            return None
    return good[0][0], good[0][1], excs


def image(I, seq, fn, st):
    """element-wise image of a list -> (st, Seq, excs) or None when it is not a pure map"""
    from .interp import HOLE, gsubst, mentions
    seq = I.norm_seq(seq, st)
    pieces = []
    excs = []
    for p in seq.p:
        if isinstance(p, Item):
            outs = fn(st, p.v)
            good = [(s, w) for s, w in outs if not isinstance(w, Exc)]
            ex = [(s, w) for s, w in outs if isinstance(w, Exc)]
            if len(good) != 1:
                return None
            excs += ex
            st = good[0][0]
            pieces.append(Item(good[0][1], I.item_flags(good[0][1], st)))
            continue
        if isinstance(p, Sl) and cover.sort_is_list(p.src):
            L, lo, n = p.src, p.lo, p.length
        elif isinstance(p, Img):
            L, lo, n = snapshot(Seq("list", (p,))), ZERO, p.n
        else:
            return None
        k = fresh("k", "nat")
        s0 = I.with_ge(st, lin(k), n - 1 - lin(k))
        if s0 is None:
            # no element
            continue
        clock = Term.clock
        nid0 = new_id()
        r = pure_at(I, fn, s0, L, lo + lin(k), (k,))
        if r is None:
            return None
        s1, v, ex = r
        excs += ex
        if isinstance(v, Ref) and v.id > nid0:
            o = s1.heap.get(v.id)
            if not isinstance(o, LObj):
                return None
            # a list element: keep only its views
            vs = views_at(I, o.seq.p, s1, L, lo, n, k)
            uid = Term("img", Term.clock, k)
            I.img_sorts[uid] = ("list", "str")
            pieces.append(Img(vs, n, None, frozenset(), uid))
            continue
        if age_of(v) > clock or has_ref(v, nid0):
            return None
        flags = I.item_flags(v, s1)
        tm = gsubst(v, {k: lin(HOLE)})
        vs = views_at(I, (Item(v),), s1, L, lo, n, k)
        pieces.append(Img(vs, n, tm, flags, None))
    return st, I.mk_seq("list", pieces, st), excs


def has_ref(v, nid):
    if isinstance(v, Ref):
        return v.id > nid
    if isinstance(v, Tup):
        return any(has_ref(x, nid) for x in v.items)
    if isinstance(v, Seq):
        return any(isinstance(p, Item) and has_ref(p.v, nid) for p in v.p)
    return False


def views_at(I, ps, st, L, lo, n, k):
    """views of the image when element lo+k reproduces source element lo+k"""
    out = []
    targets = [L]
    if L.op == "lst":
        # the parts it is made of
        q = L.args[0].p
        if len(q) == 1 and isinstance(q[0], Img):
            targets = [(v[0], v[1]) for v in q[0].views if cover.sort_is_list(v[0])
                       and st.store.entails_eq(v[2] - v[1] - n)] + [L]
    for t in targets:
        off = lo
        if isinstance(t, tuple):
            t, off = t
        for mode in ("exact", "rstrip", "nonws"):
            r = cover.view_of(ps, st, t, mode)
            if isinstance(r, tuple) and st.store.entails_eq(r[0] - off - lin(k)) and \
                    st.store.entails_eq(r[1] - off - lin(k) - 1):
                out.append((t, off, off + n, mode))
                break
    return out


# ------------------------------------------------------------------ comprehensions

def list_comp(I, e, st, fid):
    return comp(I, e, fid, st, e)


def comp(I, e, fid, st, node):
    """values of a comprehension / generator expression as a list"""
    if len(e.generators) == 1:
        g = e.generators[0]
        out = []
        for s, src in I.eval(g.iter, st, fid):
            if isinstance(src, Exc):
                out.append((s, src))
                continue
            out += comp1(I, e, g, src, s, fid, node)
        return out
    return accumulate(I, lambda s, b: I.iterate_comp(e, s, b, fid), st, node, fid)


def comp1(I, e, g, src, st, fid, node):
    # identity: [x for x in it]
    ident = isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id
    if ident and not g.ifs:
        return to_list(I, src, st, node, fid)
    seq = list_seq(I, src, st)
    if seq is not None and not g.ifs:
        got = image(I, seq, lambda x, v: with_target(I, g, e.elt, v, x, fid), st)
        if got is not None:
            s2, q, excs = got
            return [I.new_list(s2, q.p)] + excs
    return accumulate(I, lambda s, b: iter_over(I, e, g, src, s, b, fid), st, node, fid)


def iter_over(I, e, g, src, st, body, fid):
    """iterate a one-generator comprehension whose iterable is already evaluated"""
    from .interp import Out
    names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    saved = {n: st.frames[fid].get(n) for n in names} if fid in st.frames else {}

    def inner(z, val):
        res = []
        for w, ex in I.assign(g.target, val, z, fid):
            if ex is not None:
                res.append(Out("raise", w, ex.v))
                continue
            cur = [(w, True)]
            for c in g.ifs:
                nx = []
                for q, ok in cur:
                    if not ok:
                        nx.append((q, ok))
                        continue
                    for q2, cv in I.eval(c, q, fid):
                        if isinstance(cv, Exc):
                            res.append(Out("raise", q2, cv.v))
                            continue
                        nx += I.branch(q2, I.truth(cv, q2))
                cur = nx
            for q, ok in cur:
                if not ok:
                    res.append(Out("normal", q))
                    continue
                for q2, v in I.eval(e.elt, q, fid):
                    if isinstance(v, Exc):
                        res.append(Out("raise", q2, v.v))
                    else:
                        res += body(q2, v)
        return res
    outs = I.iterate(src, st, inner, e, fid)
    return [Out(o.kind, restore(o.st, fid, saved), o.val) for o in outs]


def restore(st, fid, saved):
    if not saved or fid not in st.frames:
        return st
    y = st.copy()
    env = dict(y.frames[fid])
    for n, v in saved.items():
        if v is None:
            env.pop(n, None)
        else:
            env[n] = v
    y.frames[fid] = env
    return y


def list_seq(I, src, st):
    """the list content of an iterable value when it is a plain (unconsumed) list"""
    if isinstance(src, Ref):
        o = st.heap.get(src.id)
        if isinstance(o, LObj):
            return o.seq
        if isinstance(o, ItObj) and o.kind == "list" and st.store.norm(o.d["pos"]) == ZERO:
            return cur_seq(I, o, st)
    if isinstance(src, Tup):
        return Seq("list", [Item(x) for x in src.items])
    if isinstance(src, Seq) and src.const is not None and len(src.const) <= 64:
        return Seq("list", [Item(S(c)) for c in src.const])
    return None


def with_target(I, g, elt, v, st, fid):
    """evaluate elt with the comprehension target bound, then unbind"""
    names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
    saved = {n: st.frames[fid].get(n) for n in names} if fid in st.frames else {}
    out = []
    for s, ex in I.assign(g.target, v, st, fid):
        if ex is not None:
            out.append((s, ex))
            continue
        for s2, w in I.eval(elt, s, fid):
            out.append((restore(s2, fid, saved), w))
    return out


# ------------------------------------------------------------------ any / all

def special_call(I, f, e, st, fid):
    if not (isinstance(f, ExtV) and f.q in ("builtins.any", "builtins.all")):
        return None
    if len(e.args) != 1 or e.keywords or not isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
        return None
    g = e.args[0]
    if len(g.generators) != 1:
        return None
    is_all = f.q.endswith(".all")
    gen = g.generators[0]
    out = []
    for s, src in I.eval(gen.iter, st, fid):
        if isinstance(src, Exc):
            out.append((s, src))
            continue
        out += quantify(I, is_all, gen, g.elt, src, s, e, fid)
    return out


def elem_formula(I, is_all, gen, elt, v, st, fid):
    """truth formula of one element's contribution (without side effects) -> (st, f) or None"""
    from .interp import f_and, f_or, f_not
    fs = []
    cur = st
    names = {n.id for n in ast.walk(gen.target) if isinstance(n, ast.Name)}
    saved = {n: st.frames[fid].get(n) for n in names} if fid in st.frames else {}
    asg = I.assign(gen.target, v, cur, fid)
    if len(asg) != 1 or asg[0][1] is not None:
        return None
    cur = asg[0][0]
    for c in list(gen.ifs) + [elt]:
        rs = I.eval(c, cur, fid)
        good = [(s, w) for s, w in rs if not isinstance(w, Exc)]
        if len(good) != 1 or len(rs) != len(good) or not clean(cur, good[0][0]):
            fm = merge_bool(I, cur, rs)
            if fm is None:
                return None
            fs.append(fm)
            continue
        cur = good[0][0]
        fs.append(I.truth(good[0][1], cur))
    cond, body = fs[:-1], fs[-1]
    if is_all:
        f = f_or(*([f_not(x) for x in cond] + [body]))
    else:
        f = f_and(*(cond + [body]))
    return restore(cur, fid, saved), f


def merge_bool(I, st, rs):
    """forked evaluation of a condition as one formula when the forks are told apart by new facts"""
    from .interp import f_and, f_or
    if not rs or any(isinstance(w, Exc) for _, w in rs) or len(rs) > 6:
        return None
    alts = []
    for s, w in rs:
        if not clean(st, s):
            return None
        conj = []
        for t, v in s.facts.items():
            if st.facts.get(t) is not v and t.op != "lit":
                conj.append(("atom", t) if v else ("not", ("atom", t)))
        if s.store is not st.store:
            for k, x in s.store.eq.items():
                if not st.store.entails_eq(lin(k) - x):
                    conj.append(("eq", lin(k) - x))
            for x in s.store.ge:
                if not st.store.entails_ge(x):
                    conj.append(("ge", x))
        alts.append(f_and(*(conj + [I.truth(w, s)])))
    return f_or(*alts)


def quantify(I, is_all, gen, elt, src, st, node, fid):
    from .interp import f_and, f_or, f_not, HOLE, gsubst
    seq = list_seq(I, src, st)
    if seq is not None:
        seq = I.norm_seq(seq, st)
        fs = []
        ok = True
        cur = st
        for p in seq.p:
            if isinstance(p, Item):
                r = elem_formula(I, is_all, gen, elt, p.v, cur, fid)
                if r is None:
                    ok = False
                    break
                cur, f = r
                fs.append(f)
                continue
            if isinstance(p, Sl) and cover.sort_is_list(p.src):
                L, lo, hi = p.src, p.lo, p.hi
            elif isinstance(p, Img):
                L = snapshot(Seq("list", (p,)))
                lo, hi = ZERO, p.n
            else:
                ok = False
                break
            k = fresh("q", "nat")
            s0 = I.with_ge(cur, lin(k) - lo, hi - 1 - lin(k))
            if s0 is None:
                continue
            clock = Term.clock
            s1, v = elem_value(I, L, lin(k), s0)
            r = elem_formula(I, is_all, gen, elt, v, s1, fid)
            if r is None or age_of(r[1]) > clock:
                ok = False
                break
            f = gsubst(r[1], {k: lin(HOLE)})
            if is_all:
                fs.append(forall(L, lo, hi, f))
            else:
                fs.append(f_not(forall(L, lo, hi, f_not(f))))
        if ok:
            f = f_and(*fs) if is_all else f_or(*fs)
            return [(cur, TRUE if f == ("T",) else FALSE if f == ("F",) else BoolV(f))]
    if isinstance(src, Seq) and src.const is None and src.kind == "str":
        cs = char_test(I, gen, elt, st, fid)
        if cs is not None and (cs[1] == is_all):
            f = ("atom", Term("allch", "".join(sorted(set(cs[0]))), I.norm_seq(src, st)))
            return [(st, BoolV(f if is_all else ("not", f)))]
    if isinstance(src, Seq) and src.const is None:
        t = Term("quant", is_all, ast.dump(elt), ast.dump(gen.target), tuple(ast.dump(c) for c in gen.ifs),
                 I.norm_seq(src, st), *free_terms(I, [elt] + gen.ifs, gen.target, st, fid))
        return [(st, BoolV(("atom", t)))]
    # sequential evaluation with short circuit
    out = []
    from .interp import Out

    def body(x, w):
        res = []
        for y, b in I.branch(x, I.truth(w, x)):
            res.append(Out("normal", y) if b == is_all else Out("break", y))
        return res

    class G:
        pass
    g2 = ast.GeneratorExp(elt=elt, generators=[gen])
    ast.copy_location(g2, node)
    for o in iter_over(I, g2, gen, src, st, body, fid):
        if o.kind == "exhaust":
            out.append((o.st, TRUE if is_all else FALSE))
        elif o.kind == "break":
            out.append((o.st, FALSE if is_all else TRUE))
        elif o.kind == "raise":
            out.append((o.st, Exc(o.val)))
    return out


def char_test(I, gen, elt, st, fid):
    """`c == "x"`, `c in "xy"` (or their negations) over the characters of a
    text -> (characters, True if the test is positive)"""
    if gen.ifs or not isinstance(gen.target, ast.Name):
        return None
    pos = True
    while isinstance(elt, ast.UnaryOp) and isinstance(elt.op, ast.Not):
        elt, pos = elt.operand, not pos
    if not isinstance(elt, ast.Compare) or len(elt.ops) != 1:
        return None
    a, op, b = elt.left, elt.ops[0], elt.comparators[0]
    name = gen.target.id
    me = lambda x: isinstance(x, ast.Name) and x.id == name
    if isinstance(op, (ast.Eq, ast.NotEq)) and me(b):
        a, b = b, a
    if not me(a) or any(me(n) for n in ast.walk(b)) or not isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
        return None
    rs = I.eval(b, st, fid)
    if len(rs) != 1 or not isinstance(rs[0][1], Seq) or rs[0][1].kind != "str" or rs[0][1].const is None:
        return None
    k = rs[0][1].const
    if isinstance(op, (ast.Eq, ast.NotEq)) and len(k) != 1 or not k:
        return None
    return k, pos == isinstance(op, (ast.Eq, ast.In))


def head_of(I, seq, st):
    """(source, lo, hi) of a text that starts like `seq`, whitespace aside"""
    from .lib_str import lws
    if len(seq.p) != 1 or not isinstance(seq.p[0], Sl):
        return None
    p = seq.p[0]
    t = p.src
    if t.op == "join" and st.store.entails_eq(p.lo) and isinstance(t.args[0], Seq) and not t.args[0].p and len(t.args) > 1:
        ps = t.args[1].p if isinstance(t.args[1], Seq) else ()
        if len(ps) == 1 and isinstance(ps[0], Sl) and st.store.entails_eq(ps[0].lo) and ps[0].src.op == "split" \
                and ps[0].src.args[1] is None and isinstance(ps[0].src.args[0], Seq):
            x = head_of(I, ps[0].src.args[0], st)
            if x is not None:
                st2, a = lws(I, x[0], x[1], x[2], st)
                return x[0], x[1] + a, x[2]
    return t, p.lo, p.hi


def allch_value(I, t, st):
    chars, seq = t.args
    n = seq_len(seq)
    if st.store.entails_eq(n):
        return True
    if not st.store.entails_ge(n - 1):
        return None
    for u, v in st.facts.items():
        if v and u.op == "allch" and u.args[1] == seq and not set(u.args[0]) & set(chars):
            return False
    h = head_of(I, seq, st)
    if h is not None and all(I.lit_query(h[0], h[1], h[2], c, st) is False for c in chars):
        return False
    return None


def free_terms(I, exprs, target, st, fid):
    bound = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
    out = []
    for x in exprs:
        for n in ast.walk(x):
            if isinstance(n, ast.Name) and n.id not in bound:
                for s, v in I.lookup(n.id, st, fid)[:1]:
                    out.append(I.term(v, s))
    return out


def forall(L, lo, hi, f):
    return ("atom", Term("all", L, lo, hi, f))


def known_all(I, t, st):
    """facts to add when a quantifier atom is assumed -> [states]"""
    from .interp import f_or, HOLE, gsubst
    return None


def assume_all(I, st, t, pol):
    """consequences of a quantifier atom (already recorded as a fact)"""
    from .interp import f_or, f_not, HOLE, gsubst
    L, lo, hi, f = t.args
    if pol:
        g = f
        if not st.store.entails_eq(lo):
            g = f_or(("ge", lo - 1 - lin(HOLE)), g)
        if not st.store.entails_eq(hi - length_of(L)):
            g = f_or(("ge", lin(HOLE) - hi), g)
        s = st.copy()
        if (L, ("f", g)) not in s.forall:
            s.forall = s.forall + ((L, ("f", g)),)
        return [s]
    # a witness
    x = nat("ex", t)
    s = I.with_ge(st, lin(x) - lo, hi - 1 - lin(x))
    if s is None:
        return []
    s, v = elem_value(I, L, lin(x), s)
    return I.assume(s, gsubst(f, {HOLE: lin(x)}), False)
