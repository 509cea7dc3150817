"""Abstract semantics of lists, dicts, slices, comparison and arithmetic."""
import ast
import math

from .terms import Term, Lin, lin, ZERO, ONE, Contradiction, fresh
from .values import *
from . import cover
from .lib_str import (eq_str, contains_f, startswith_f, opaque_str, join_seq, percent, py_const, to_value,
                      as_slice, slice_str)


def exc(I, cls, node, fid):
    return Exc(ExcV("builtins." + cls, origin=I.loc(node, fid)))


# ------------------------------------------------------------------ elements

def instantiate(I, src, i, st):
    """universal facts known about every element of src"""
    from .interp import HOLE, gsubst
    for L, fact in st.forall:
        if L is not src:
            continue
        m = {HOLE: lin(i)}
        if fact[0] == "fact":
            t = gsubst(fact[1], m)
            if st.facts.get(t) is None:
                ss = I.set_fact(st, t, fact[2])
                if not ss:
                    return None
                st = ss[0]
        elif fact[0] == "f":
            ss = I.assume(st, gsubst(fact[1], m), True)
            if not ss:
                return None
            st = ss[0]
        else:
            try:
                l = gsubst(fact[1], m)
                st = st.with_store(st.store.add_eq(l) if fact[0] == "eq" else st.store.add_ge(l))
            except Contradiction:
                return None
    return st


def elem_value(I, src, i, st, link=None):
    """element i (Lin, known in range) of a source list term -> (st, V)"""
    i = st.store.norm(lin(i))
    if src.op == "lst":
        return list_get(I, src.args[0], i, st, link)
    s2 = instantiate(I, src, i, st)
    if s2 is not None:
        st = s2
    if src.op == "rxlist":
        return rx_elem(I, src, i, st)
    if src.op == "rev":
        n = length_of(src.args[0])
        return elem_value(I, src.args[0], n - 1 - i, st)
    e = Term("elem", src, i)
    if e.sort is None and isinstance(src.sort, tuple) and src.sort[0] == "list":
        e.sort = src.sort[1]
    if isinstance(e.sort, tuple) and e.sort and e.sort[0] == "list":
        return I.alloc(st, LObj(Seq("list", (full(e),)), link))
    return I.value_of(e, st)


def rx_elem(I, src, i, st):
    pats, seq = src.args[0], src.args[1]
    from .lib_rx import mk_match
    t = Term("rxelem", src, i)
    return mk_match(I, t, seq, pats, st)


def img_value(I, p, k, st, link=None):
    """element k of an Img piece"""
    from .interp import HOLE, gsubst
    if p.tmpl is not None:
        v = gsubst(p.tmpl, {HOLE: lin(k)})
        return st, v
    # exact view of another list
    for (src, lo, hi, mode) in sorted(p.views, key=repr):
        if mode == "exact" and cover.sort_is_list(src) and st.store.entails_eq(hi - lo - p.n):
            return elem_value(I, src, lo + k, st, link)
    t = Term("imgelem", p.uid if p.uid is not None else Term("lst", Seq("list", (p,))), st.store.norm(lin(k)))
    es = getattr(p, "esort", None)
    t.sort = I.img_sorts.get(p.uid) if p.uid is not None else None
    if isinstance(t.sort, tuple) and t.sort and t.sort[0] == "list":
        return I.alloc(st, LObj(Seq("list", (full(t),)), link))
    return I.value_of(t, st)


def piece_get(I, p, k, st, link=None):
    if isinstance(p, Item):
        return st, p.v
    if isinstance(p, Sl):
        return elem_value(I, p.src, p.lo + k, st, link)
    if isinstance(p, Img):
        return img_value(I, p, k, st, link)
    t = Term("elem", Term("lst", Seq("list", (p,))), st.store.norm(lin(k)))
    return I.value_of(t, st)


def list_get(I, seq, i, st, link=None):
    """-> (st, V), element i without forking"""
    i = lin(i)
    acc = ZERO
    ps = seq.p
    for j, p in enumerate(ps):
        if isinstance(p, Ext):
            continue
        n = p.length
        if st.store.entails_ge(i - acc) and st.store.entails_ge(acc + n - 1 - i):
            if j + 1 < len(ps) and isinstance(ps[j + 1], Ext) and st.store.entails_eq(acc + n - 1 - i):
                st, v = piece_get(I, p, st.store.norm(i - acc), st, link)
                return ext_value(I, v, ps[j + 1], st)
            return piece_get(I, p, st.store.norm(i - acc), st, link)
        acc = acc + n
    t = Term("elem", Term("lst", seq), st.store.norm(i))
    return I.value_of(t, st)


def ext_value(I, v, ext, st):
    if isinstance(v, Seq):
        return st, I.mk_seq("str", v.p + ext.pieces, st)
    if isinstance(v, Ref) and isinstance(st.heap.get(v.id), LObj):
        o = st.heap[v.id]
        return st.sethe(v.id, LObj(I.mk_seq("list", o.seq.p + ext.pieces, st), o.link)), v
    return st, v


def list_get_forks(I, seq, i, st, link=None):
    """-> [(st, V)] choosing the piece by case analysis (index known in range)"""
    i = lin(i)
    out = []
    cur = [st]
    acc = ZERO
    ps = seq.p
    for j, p in enumerate(ps):
        if isinstance(p, Ext):
            continue
        n = p.length
        nxt = []
        for s in cur:
            for s2, below in I.branch(s, ("ge", acc + n - 1 - i)):
                if not below:
                    nxt.append(s2)
                    continue
                s3 = s2
                ext = ps[j + 1] if j + 1 < len(ps) and isinstance(ps[j + 1], Ext) else None
                k = s3.store.norm(i - acc)
                s3, v = piece_get(I, p, k, s3, link)
                if ext is not None:
                    for s4, last in I.branch(s3, ("eq", acc + n - 1 - i)):
                        if last:
                            out.append(ext_value(I, v, ext, s4))
                        else:
                            out.append((s4, v))
                else:
                    out.append((s3, v))
        cur = nxt
        acc = acc + n
        if not cur:
            break
    return out


# ------------------------------------------------------------------ slicing

def clamp(I, v, n, st, default):
    """python slice bound -> [(st, Lin)]"""
    if v is None or (isinstance(v, Const) and v.v is None):
        return [(st, default)]
    if isinstance(v, Const) and isinstance(v.v, bool):
        v = Num(int(v.v))
    if not isinstance(v, Num):
        t = nat("bound", I.term(v, st))
        s = I.with_ge(st, n - t)
        return [] if s is None else [(s, lin(t))]
    out = []
    for s, pos in I.branch(st, ("ge", v.lin)):
        if pos:
            for s2, ok in I.branch(s, ("ge", n - v.lin)):
                out.append((s2, s2.store.norm(v.lin) if ok else n))
        else:
            for s2, ok in I.branch(s, ("ge", n + v.lin)):
                out.append((s2, s2.store.norm(n + v.lin) if ok else ZERO))
    return out


def slice_seq(I, seq, lo, hi, st):
    """-> [(st, Seq)]"""
    n = seq_len(seq)
    out = []
    for s, a in clamp(I, lo, n, st, ZERO):
        for s2, b in clamp(I, hi, n, s, n):
            for s3, ok in I.branch(s2, ("ge", b - a)):
                if not ok:
                    out.append((s3, Seq(seq.kind)))
                else:
                    out.append((s3, cut(I, seq, a, b, s3)))
    return out


def cut(I, seq, a, b, st):
    seq = I.norm_seq(seq, st)
    n = seq_len(seq)
    e = st.store
    if e.entails_eq(a) and e.entails_eq(n - b):
        return seq
    if len(seq.p) == 1 and isinstance(seq.p[0], Sl):
        p = seq.p[0]
        return I.mk_seq(seq.kind, [Sl(p.src, e.norm(p.lo + a), e.norm(p.lo + b))], st)
    out = []
    acc = ZERO
    ok = True
    for p in seq.p:
        ln = p.length
        x, y = acc, acc + ln
        acc = y
        # piece wholly before a or after b
        if e.entails_ge(a - y):
            if isinstance(p, Ext) and out:
                out.append(p)
            elif isinstance(p, Ext) and not e.entails_ge(x - a):
                pass
            continue
        if e.entails_ge(x - b):
            if isinstance(p, Ext) and out and e.entails_eq(x - b):
                out.append(p)
            continue
        inside_lo = e.entails_ge(x - a)
        inside_hi = e.entails_ge(b - y)
        if inside_lo and inside_hi:
            out.append(p)
            continue
        l = ZERO if inside_lo else a - x
        h = ln if inside_hi else b - x
        if not inside_lo and not (e.entails_ge(a - x) and e.entails_ge(y - a)):
            ok = False
            break
        if not inside_hi and not (e.entails_ge(b - x) and e.entails_ge(y - b)):
            ok = False
            break
        if isinstance(p, Sl):
            out.append(Sl(p.src, e.norm(p.lo + l), e.norm(p.lo + h)))
        elif isinstance(p, Lit):
            lc, hc = e.norm(l).const, e.norm(h).const
            if lc is None or hc is None:
                ok = False
                break
            out.append(Lit(p.s[int(lc):int(hc)]))
        elif isinstance(p, Rep) and p.v.const is not None and len(p.v.const) == 1:
            out.append(Rep(p.v, e.norm(h - l)))
        elif isinstance(p, Img):
            q = img_cut(p, l, h, e)
            if q is None:
                ok = False
                break
            out.append(q)
        else:
            ok = False
            break
    if ok:
        return I.mk_seq(seq.kind, out, st)
    t = snapshot(seq)
    return Seq(seq.kind, (Sl(t, e.norm(lin(a)), e.norm(lin(b))),))


def img_cut(p, l, h, e):
    """part [l,h) of an Img whose elements correspond one to one to a view"""
    views = []
    for (src, lo, hi, mode) in p.views:
        if cover.sort_is_list(src) and e.entails_eq(hi - lo - p.n) and (p.tmpl is not None or mode == "exact"):
            views.append((src, e.norm(lo + l), e.norm(lo + h), mode))
    if p.tmpl is not None:
        from .interp import HOLE, gsubst
        t = gsubst(p.tmpl, {HOLE: lin(HOLE) + l}) if e.norm(lin(l)) != ZERO else p.tmpl
        return Img(views, e.norm(lin(h) - l), t, p.flags, ("cut", p.uid, e.norm(lin(l)), e.norm(lin(h))))
    if not views:
        return None
    return Img(views, e.norm(lin(h) - l), None, p.flags, ("cut", p.uid, e.norm(lin(l)), e.norm(lin(h))))


def in_range(I, n, i, st, node, fid, what="list"):
    """case analysis of an index -> [(st, Lin index | Exc)]"""
    out = []
    for s, pos in I.branch(st, ("ge", i)):
        j = i if pos else n + i
        f = ("ge", n - 1 - j) if pos else ("ge", j)
        d = I.decide(f, s)
        if d is True:
            I.index_ok += 1
            out.append((s, s.store.norm(j)))
        elif d is False:
            out.append((s, Exc(ExcV("builtins.IndexError", origin=I.loc(node, fid), sure=True, of=what))))
        else:
            for s2, ok in I.branch(s, f):
                if ok:
                    out.append((s2, s2.store.norm(j)))
                elif I.cfg.check_index:
                    out.append((s2, Exc(ExcV("builtins.IndexError", origin=I.loc(node, fid), of=what))))
    return out


def getitem(I, o, k, st, node, fid):
    from .interp import SliceV
    if isinstance(o, Ref):
        ob = st.heap.get(o.id)
        if isinstance(ob, LObj):
            if isinstance(k, SliceV):
                return slice_list(I, o, ob, k, st, node, fid)
            if isinstance(k, Num):
                seq = I.norm_seq(ob.seq, st)
                n = seq_len(seq)
                out = []
                for s, i in in_range(I, n, k.lin, st, node, fid, seq):
                    if isinstance(i, Exc):
                        out.append((s, i))
                    else:
                        out += [materialize(I, o, seq, i, s2, v) for s2, v in
                                list_get_forks(I, seq, i, s, (o.id, "last" if s.store.entails_eq(n - 1 - i) else i))]
                return out
        if isinstance(ob, DObj):
            return dict_get(I, o, ob, k, st, node, fid)
        if isinstance(ob, IObj):
            a = I.prog.class_attr(ob.cls, "__getitem__")
            from .model import Func
            if isinstance(a, Func):
                return I.call_func(a, [o, k], {}, st, node, fid)
    if isinstance(o, Seq) and o.kind == "str":
        if isinstance(k, SliceV):
            if k.step is not None and py_const(k.step)[1] not in (1, None):
                t = Term("sliced", o, "step", *[I.term(x, st) if x is not None else None for x in (k.lo, k.hi, k.step)])
                t.sort = "str"
                return [(st, str_term(t))]
            return slice_seq(I, I.norm_seq(o, st), k.lo, k.hi, st)
        if isinstance(k, Num):
            o = I.norm_seq(o, st)
            out = []
            for s, i in in_range(I, seq_len(o), k.lin, st, node, fid, o):
                if isinstance(i, Exc):
                    out.append((s, i))
                elif i.const == 0 and isinstance(o.p[0], Rep) and o.p[0].v.const:
                    # is there any repetition at all
                    for s2, b in I.branch(s, ("ge", o.p[0].n - 1)):
                        q = I.norm_seq(o, s2)
                        out.append((s2, S(o.p[0].v.const[0]) if b else cut(I, q, i, i + 1, s2)))
                else:
                    out.append((s, cut(I, o, i, i + 1, s)))
            return out
    if isinstance(o, Tup):
        if isinstance(k, Num) and k.lin.const is not None:
            i = int(k.lin.const)
            if -len(o.items) <= i < len(o.items):
                return [(st, o.items[i])]
            return [(st, exc(I, "IndexError", node, fid))]
        if isinstance(k, SliceV):
            ok = [py_const(x)[1] if x is not None else None for x in (k.lo, k.hi, k.step)]
            return [(st, Tup(o.items[slice(*ok)]))]
    if isinstance(o, MatchV):
        return I.lib.call_method(I, o, "group", [k], {}, st, node, fid)
    if isinstance(o, ClsV):
        t = Term("enumget", o.cls.qual, I.term(k, st))
        return [(st, Sym(t))]
    if isinstance(o, ExtV):
        return [(st, ExtV(o.q))] if o.q.startswith("typing.") else [(st, Sym(Term("item", Term("ext", o.q), I.term(k, st) if not isinstance(k, SliceV) else None)))]
    if isinstance(k, SliceV):
        t = Term("sliced", I.term(o, st), *[I.term(x, st) if x is not None else None for x in (k.lo, k.hi, k.step)])
        t.sort = I.term(o, st).sort
        st, v = I.value_of(t, st)
        return [(st, v)]
    ot = I.term(o, st)
    if isinstance(ot.sort, tuple) and ot.sort[0] == "tuple" and isinstance(k, Num) and k.lin.const is not None:
        st, tv = I.value_of(ot, st)
        return getitem(I, tv, k, st, node, fid)
    t = Term("item", ot, I.term(k, st))
    st, v = I.value_of(t, st)
    return [(st, v)]


def materialize(I, ref, seq, i, st, v):
    """list elements that are lists keep their identity"""
    return st, v


def slice_list(I, o, ob, k, st, node, fid):
    if k.step is not None:
        ok, stp = py_const(k.step)
        if ok and stp == -1 and k.lo is None and k.hi is None:
            seq = I.norm_seq(ob.seq, st)
            if all(isinstance(p, Item) for p in seq.p):
                return [I.new_list(st, reversed(seq.p))]
            t = Term("rev", snapshot(seq))
            t.sort = snapshot(seq).sort
            return [I.new_list(st, [full_n(t, seq_len(seq))])]
        if not (ok and stp in (1, None)):
            t = Term("sliced", snapshot(I.norm_seq(ob.seq, st)), "step",
                     *[I.term(x, st) if x is not None else None for x in (k.lo, k.hi, k.step)])
            t.sort = snapshot(ob.seq).sort
            return [I.new_list(st, [full(t)])]
    out = []
    for s, q in slice_seq(I, I.norm_seq(ob.seq, st), k.lo, k.hi, st):
        out.append(I.new_list(s, q.p))
    return out


def full_n(t, n):
    return Sl(t, ZERO, n)


# ------------------------------------------------------------------ stores

def setitem(I, o, k, v, st, node, fid):
    """-> [(st, Exc|None)]"""
    from .interp import SliceV
    if isinstance(o, Ref):
        ob = st.heap.get(o.id)
        if isinstance(ob, LObj):
            seq = I.norm_seq(ob.seq, st)
            if isinstance(k, Num):
                n = seq_len(seq)
                out = []
                for s, i in in_range(I, n, k.lin, st, node, fid, seq):
                    if isinstance(i, Exc):
                        out.append((s, i))
                        continue
                    s2 = s.sethe(o.id, LObj(replace_at(I, seq, i, v, s, node, fid), ob.link))
                    out += [(x, e) for x, e in I.ev(s2, "liststore", {"list": o, "seq": seq, "value": v}, node, fid)]
                return out
            if isinstance(k, SliceV):
                out = []
                for s, r in I.lib.to_list(I, v, st, node, fid):
                    if isinstance(r, Exc):
                        out.append((s, r))
                        continue
                    n = seq_len(seq)
                    for s1, a in clamp(I, k.lo, n, s, ZERO):
                        for s2, b in clamp(I, k.hi, n, s1, n):
                            for s3, okk in I.branch(s2, ("ge", b - a)):
                                bb = b if okk else a
                                left = cut(I, seq, ZERO, a, s3)
                                right = cut(I, seq, bb, n, s3)
                                q = I.mk_seq("list", left.p + s3.heap[r.id].seq.p + right.p, s3)
                                out += I.ev(s3.sethe(o.id, LObj(q, ob.link)), "liststore",
                                            {"list": o, "seq": seq, "value": v}, node, fid)
                return out
        if isinstance(ob, DObj):
            if ob.items is not None:
                items = list(ob.items)
                undecided = False
                for idx, (kk, vv) in enumerate(items):
                    d = I.decide(eq_f(I, kk, k, st), st)
                    if d:
                        items[idx] = (kk, v)
                        break
                    if d is None:
                        undecided = True
                else:
                    items.append((k, v))
                if undecided:
                    nd = DObj(None, ob.kind, fresh("dict"))
                else:
                    nd = DObj(tuple(items), ob.kind, ob.term)
            else:
                nd = DObj(None, ob.kind, fresh("dict"))
            return I.ev(st.sethe(o.id, nd), "setitem", {"obj": o, "key": k, "value": v}, node, fid)
        if isinstance(ob, IObj):
            a = I.prog.class_attr(ob.cls, "__setitem__")
            from .model import Func
            if isinstance(a, Func):
                return [(s, r if isinstance(r, Exc) else None)
                        for s, r in I.call_func(a, [o, k, v], {}, st, node, fid)]
    return I.ev(st, "setitem", {"obj": o, "key": k, "value": v}, node, fid)


def replace_at(I, seq, i, v, st, node=None, fid=None):
    acc = ZERO
    ps = list(seq.p)
    e = st.store
    for j, p in enumerate(ps):
        if isinstance(p, Ext):
            continue
        n = p.length
        if e.entails_ge(i - acc) and e.entails_ge(acc + n - 1 - i):
            last = e.entails_eq(acc + n - 1 - i)
            exts = ps[j + 1:j + 2] if last and j + 1 < len(ps) and isinstance(ps[j + 1], Ext) else []
            after = ps[j + 1 + len(exts):]
            if isinstance(p, Item):
                return I.mk_seq("list", ps[:j] + [Item(v, I.item_flags(v, st))] + after, st)
            # extends the old value?
            if last and isinstance(v, Seq):
                s_, old = piece_get(I, p, e.norm(i - acc), st)
                if exts and isinstance(old, Seq):
                    old = I.mk_seq("str", old.p + exts[0].pieces, st)
                if isinstance(old, Seq) and v.p[:len(old.p)] == old.p:
                    more = v.p[len(old.p):]
                    pre = exts[0].pieces if exts else ()
                    return I.mk_seq("list", ps[:j + 1] + [Ext(pre + more, I.item_flags(v, st))] + after, st)
            left = cut(I, Seq("list", (p,)), ZERO, i - acc, st)
            right = cut(I, Seq("list", (p,)), i - acc + 1, n, st)
            return I.mk_seq("list", ps[:j] + list(left.p) + [Item(v, I.item_flags(v, st))] + list(right.p) + exts + after, st)
        acc = acc + n
    t = Term("upd", Term("lst", seq), e.norm(lin(i)), I.term(v, st))
    t.sort = ("list", None)
    st_ = full_n(t, seq_len(seq))
    return Seq("list", (st_,))


def delitem(I, o, k, st, node, fid):
    from .interp import SliceV
    if isinstance(o, Ref):
        ob = st.heap.get(o.id)
        if isinstance(ob, LObj):
            seq = I.norm_seq(ob.seq, st)
            n = seq_len(seq)
            out = []
            if isinstance(k, SliceV):
                for s1, a in clamp(I, k.lo, n, st, ZERO):
                    for s2, b in clamp(I, k.hi, n, s1, n):
                        for s3, okk in I.branch(s2, ("ge", b - a)):
                            bb = b if okk else a
                            q = I.mk_seq("list", cut(I, seq, ZERO, a, s3).p + cut(I, seq, bb, n, s3).p, s3)
                            out += I.ev(s3.sethe(o.id, LObj(q, ob.link)), "listdel", {"list": o, "seq": seq}, node, fid)
                return out
            if isinstance(k, Num):
                for s, i in in_range(I, n, k.lin, st, node, fid, seq):
                    if isinstance(i, Exc):
                        out.append((s, i))
                        continue
                    q = I.mk_seq("list", cut(I, seq, ZERO, i, s).p + cut(I, seq, i + 1, n, s).p, s)
                    out += I.ev(s.sethe(o.id, LObj(q, ob.link)), "listdel", {"list": o, "seq": seq}, node, fid)
                return out
        if isinstance(ob, DObj):
            return I.ev(st.sethe(o.id, DObj(None, ob.kind, fresh("dict"))), "setitem", {"obj": o, "key": k}, node, fid)
    return I.ev(st, "setitem", {"obj": o, "key": k}, node, fid)


def set_list(I, ref, seq, st, node, fid, kind="liststore"):
    """replace the contents, propagating to a summarised parent -> [(st, Exc|None)]"""
    ob = st.heap[ref.id]
    old = ob.seq
    st = st.sethe(ref.id, LObj(seq, ob.link))
    if ob.link is not None:
        pid, where = ob.link
        par = st.heap.get(pid)
        if isinstance(par, LObj):
            ps = list(par.seq.p)
            added = seq.p[len(old.p):] if seq.p[:len(old.p)] == old.p else None
            if where == "last" and added is not None and ps:
                if isinstance(ps[-1], Ext):
                    ps[-1] = Ext(ps[-1].pieces + tuple(added), ps[-1].flags)
                else:
                    ps.append(Ext(added))
                st = st.sethe(pid, LObj(I.mk_seq("list", ps, st), par.link))
            else:
                t = fresh("mutated")
                t.sort = ("list", None)
                st = st.sethe(pid, LObj(Seq("list", (full_n(t, seq_len(par.seq)),)), par.link))
    return I.ev(st, kind, {"list": ref, "seq": old, "new": seq}, node, fid)


def list_extend(I, a, b, st, node, fid):
    """a += b -> [(st, a|Exc)]"""
    from .interp import GenV, GenExprV
    out = []
    if isinstance(b, (GenV,)):
        def body(x, v):
            res = []
            from .interp import Out
            for s, e in append(I, a, v, x, node, fid):
                res.append(Out("normal", s) if e is None else Out("raise", s, e.v))
            return res
        for o in I.iterate(b, st, body, node, fid):
            if o.kind == "exhaust":
                out.append((o.st, a))
            elif o.kind == "raise":
                out.append((o.st, Exc(o.val)))
        return out
    for s, r in I.lib.to_list(I, b, st, node, fid):
        if isinstance(r, Exc):
            out.append((s, r))
            continue
        ob = s.heap[a.id]
        q = I.mk_seq("list", ob.seq.p + s.heap[r.id].seq.p, s)
        for s2, e in set_list(I, a, q, s, node, fid):
            out.append((s2, a if e is None else e))
    return out


def append(I, ref, v, st, node, fid):
    ob = st.heap[ref.id]
    q = Seq("list", ob.seq.p + (Item(v, I.item_flags(v, st)),))
    return set_list(I, ref, q, st, node, fid)


LIST_METHODS = {n for n in dir(list) if not n.startswith("__")}


def list_method(I, ref, name, args, kw, st, node, fid):
    ob = st.heap[ref.id]
    seq = I.norm_seq(ob.seq, st)

    def fin(rs, val=NONE):
        return [(s, val if e is None else e) for s, e in rs]

    if name == "append" and len(args) == 1:
        return fin(append(I, ref, args[0], st, node, fid))
    if name == "extend" and len(args) == 1:
        return [(s, v if isinstance(v, Exc) else NONE) for s, v in list_extend(I, ref, args[0], st, node, fid)]
    if name == "copy":
        return [I.new_list(st, seq.p)]
    if name == "clear":
        return fin(set_list(I, ref, Seq("list"), st, node, fid))
    if name == "insert" and len(args) == 2 and isinstance(args[0], Num):
        n = seq_len(seq)
        out = []
        for s, i in clamp(I, args[0], n, st, ZERO):
            q = I.mk_seq("list", cut(I, seq, ZERO, i, s).p + (Item(args[1], I.item_flags(args[1], s)),) + cut(I, seq, i, n, s).p, s)
            out += fin(set_list(I, ref, q, s, node, fid))
        return out
    if name == "pop":
        n = seq_len(seq)
        i = args[0].lin if args and isinstance(args[0], Num) else Lin(-1)
        out = []
        for s, j in in_range(I, n, i, st, node, fid, seq):
            if isinstance(j, Exc):
                out.append((s, j))
                continue
            for s2, v in list_get_forks(I, seq, j, s):
                q = I.mk_seq("list", cut(I, seq, ZERO, j, s2).p + cut(I, seq, j + 1, n, s2).p, s2)
                out += fin(set_list(I, ref, q, s2, node, fid, "listdel"), v)
        return out
    if name == "reverse":
        if all(isinstance(p, Item) for p in seq.p):
            return fin(set_list(I, ref, Seq("list", reversed(seq.p)), st, node, fid, "listdel"))
        t = Term("rev", snapshot(seq))
        t.sort = snapshot(seq).sort
        return fin(set_list(I, ref, Seq("list", (full_n(t, seq_len(seq)),)), st, node, fid, "listdel"))
    if name == "sort":
        q = sorted_seq(I, seq, kw, st, node, fid)
        return fin(set_list(I, ref, q, st, node, fid, "listdel"))
    if name == "index" and args:
        if all(isinstance(p, Item) for p in seq.p):
            cur = [st]
            out = []
            for i, p in enumerate(seq.p):
                nxt = []
                for s in cur:
                    for s2, b in I.branch(s, eq_f(I, p.v, args[0], s)):
                        if b:
                            out.append((s2, Num(i)))
                        else:
                            nxt.append(s2)
                cur = nxt
            return out + [(s, Exc(ExcV("builtins.ValueError", origin=I.loc(node, fid)))) for s in cur]
        t = nat("lindex", snapshot(seq), I.term(args[0], st))
        s = I.with_ge(st, seq_len(seq) - 1 - lin(t))
        return [] if s is None else [(s, Num(lin(t)))]
    if name == "count" and args:
        return [(st, Num(lin(nat("lcount", snapshot(seq), I.term(args[0], st)))))]
    if name == "remove":
        t = Term("removed", snapshot(seq), I.term(args[0], st))
        t.sort = snapshot(seq).sort
        return fin(set_list(I, ref, Seq("list", (full(t),)), st, node, fid, "listdel"))
    return I.opaque_result(Term("mcall", I.term(ref, st), name), st, node, fid, "list." + name, args, kw)


def sorted_seq(I, seq, kw, st, node, fid):
    """sorted copy of a sequence"""
    if not seq.p or (len(seq.p) == 1 and isinstance(seq.p[0], Item)):
        return seq
    # lists of regular expression matches of one text, sorted by start
    srcs = []
    for p in seq.p:
        if isinstance(p, Sl) and p.src.op == "rxlist" and p == full(p.src):
            srcs.append(p.src)
        else:
            srcs = None
            break
    if srcs and len({s.args[1] for s in srcs}) == 1 and "reverse" not in kw:
        key = kw.get("key")
        if key is not None and sorts_by_start(I, key, srcs[0], st, node, fid):
            pats = tuple(x for s in srcs for x in s.args[0])
            t = Term("rxlist", pats, srcs[0].args[1], "sorted")
            t.sort = ("list", "match")
            return Seq("list", (full(t),))
    if srcs and len({s.args[1] for s in srcs}) == 1:
        pats = tuple(x for s in srcs for x in s.args[0])
        t = Term("rxlist", pats, srcs[0].args[1], "unordered")
        t.sort = ("list", "match")
        return Seq("list", (full(t),))
    t = Term("sorted", snapshot(seq), *[Term("kw", k, I.term(v, st)) for k, v in sorted(kw.items())])
    t.sort = snapshot(seq).sort
    return Seq("list", (full_n(t, seq_len(seq)),))


def sorts_by_start(I, key, src, st, node, fid):
    from .lib_rx import mk_match
    s, m = mk_match(I, Term("rxprobe", src), src.args[1], src.args[0][:1], st)
    try:
        rs = I.call(key, [m], {}, s, node, fid)
    except Exception:
        return False
    for s2, v in rs:
        a, _ = m_bounds(m)
        if isinstance(v, Num) and s2.store.entails_eq(v.lin - a):
            continue
        if isinstance(v, Tup) and v.items and isinstance(v.items[0], Num) and s2.store.entails_eq(v.items[0].lin - a):
            continue
        return False
    return bool(rs)


def m_bounds(m):
    from .lib_rx import bounds
    return bounds(m.term)


# ------------------------------------------------------------------ dicts

def dict_get(I, o, ob, k, st, node, fid, default=None):
    if ob.items is not None:
        cur = [st]
        out = []
        exact = True
        for kk, vv in ob.items:
            nxt = []
            for s in cur:
                d = I.decide(eq_f(I, kk, k, s), s)
                if d is True:
                    out.append((s, vv))
                elif d is None:
                    exact = False
                    nxt.append(s)
                else:
                    nxt.append(s)
            cur = nxt
        if not exact and cur:
            if I.cfg.__dict__.get("fork_dict"):
                out2 = list(out)
                for kk, vv in ob.items:
                    for s in cur:
                        for s2 in I.assume(s, eq_f(I, kk, k, s), True):
                            out2.append((s2, vv))
                return out2
            t = Term("dictget", ob.term or Term("ref", o.id), I.term(k, cur[0]))
            return out + [(s, Sym(t)) for s in cur]
        for s in cur:
            out.append((s, default if default is not None else Exc(ExcV("builtins.KeyError", origin=I.loc(node, fid)))))
        return out
    t = Term("dictget", ob.term or Term("ref", o.id), I.term(k, st))
    return [(st, Sym(t))]


def dict_method(I, ref, name, args, kw, st, node, fid):
    ob = st.heap[ref.id]
    if name == "get":
        return dict_get(I, ref, ob, args[0], st, node, fid, args[1] if len(args) > 1 else NONE)
    if ob.items is not None:
        if name == "items":
            return [I.new_list(st, [Item(Tup([k, v])) for k, v in ob.items])]
        if name == "keys":
            return [I.new_list(st, [Item(k) for k, v in ob.items])]
        if name == "values":
            return [I.new_list(st, [Item(v) for k, v in ob.items])]
        if name == "copy":
            return [I.alloc(st, DObj(ob.items, ob.kind, ob.term))]
    if name in ("update", "add", "discard", "remove", "pop", "clear", "setdefault", "popitem"):
        if name == "add" and ob.items is not None:
            if any(I.decide(eq_f(I, k, args[0], st), st) for k, _ in ob.items):
                return [(st, NONE)]
            nd = DObj(ob.items + ((args[0], TRUE),), ob.kind, ob.term)
        else:
            nd = DObj(None, ob.kind, fresh("dict"))
        out = []
        for s, e in I.ev(st.sethe(ref.id, nd), "setitem", {"obj": ref, "key": args[0] if args else None, "value": None}, node, fid):
            if e is not None:
                out.append((s, e))
            else:
                out.append((s, NONE if name in ("update", "add", "discard", "remove", "clear")
                            else Sym(Term("dictget", ob.term or Term("ref", ref.id), *[I.term(a, st) for a in args]))))
        return out
    t = Term("mcall", ob.term or Term("ref", ref.id), name, *[I.term(a, st) for a in args])
    return [(st, Sym(t))]


# ------------------------------------------------------------------ comparison

def eq_f(I, a, b, st):
    if isinstance(a, Num) and isinstance(b, Num):
        return ("eq", a.lin - b.lin)
    if isinstance(a, Const) and isinstance(b, Const):
        return ("T",) if a.v == b.v else ("F",)
    if isinstance(a, Const) and isinstance(a.v, bool) and isinstance(b, Num):
        return ("eq", b.lin - int(a.v))
    if isinstance(b, Const) and isinstance(b.v, bool) and isinstance(a, Num):
        return ("eq", a.lin - int(b.v))
    if isinstance(a, Const) and isinstance(a.v, bool) and isinstance(b, BoolV):
        return b.f if a.v else ("not", b.f)
    if isinstance(b, Const) and isinstance(b.v, bool) and isinstance(a, BoolV):
        return a.f if b.v else ("not", a.f)
    if isinstance(a, Const) and isinstance(a.v, float) and isinstance(b, Num):
        return ("F",)
    if isinstance(b, Const) and isinstance(b.v, float) and isinstance(a, Num):
        return ("F",)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind == "str":
        return eq_str(I, a, b, st)
    if isinstance(a, Tup) and isinstance(b, Tup):
        from .interp import f_and
        if len(a.items) != len(b.items):
            return ("F",)
        return f_and(*[eq_f(I, x, y, st) for x, y in zip(a.items, b.items)])
    solid = (Seq, Num, Tup, MatchV, FuncV, ClsV, ModV, RegexV)
    if isinstance(a, Const) and a.v is None and isinstance(b, solid + (Ref,)):
        return ("F",)
    if isinstance(b, Const) and b.v is None and isinstance(a, solid + (Ref,)):
        return ("F",)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.id == b.id:
            return ("T",)
        oa, ob = st.heap.get(a.id), st.heap.get(b.id)
        if isinstance(oa, LObj) and isinstance(ob, LObj):
            from .interp import f_and
            sa, sb = I.norm_seq(oa.seq, st), I.norm_seq(ob.seq, st)
            if sa == sb:
                return ("T",)
            if all(isinstance(p, Item) for p in sa.p + sb.p):
                if len(sa.p) != len(sb.p):
                    return ("F",)
                return f_and(*[eq_f(I, x.v, y.v, st) for x, y in zip(sa.p, sb.p)])
            if not sa.p:
                return ("eq", seq_len(sb))
            if not sb.p:
                return ("eq", seq_len(sa))
            if st.store.entails_ne(seq_len(sa) - seq_len(sb)):
                return ("F",)
    if a == b:
        return ("T",)
    kinds = {Seq: "s", Num: "n", Tup: "t", FuncV: "f", ClsV: "c", MatchV: "m"}
    ka, kb = kinds.get(type(a)), kinds.get(type(b))
    if ka and kb and ka != kb:
        return ("F",)
    ta, tb = I.term(a, st), I.term(b, st)
    if ta is tb:
        return ("T",)
    return ("atom", Term("eq", *sorted((ta, tb), key=lambda q: q.uid)))


def compare(I, op, a, b, st, node, fid):
    from .interp import f_not, f_or, f_and
    if isinstance(op, ast.Eq):
        return eq_f(I, a, b, st)
    if isinstance(op, ast.NotEq):
        return f_not(eq_f(I, a, b, st))
    if isinstance(op, (ast.Is, ast.IsNot)):
        if isinstance(a, Ref) and isinstance(b, Ref):
            f = ("T",) if a.id == b.id else ("F",)
        else:
            f = eq_f(I, a, b, st)
        return f if isinstance(op, ast.Is) else f_not(f)
    if isinstance(op, (ast.In, ast.NotIn)):
        f = in_f(I, a, b, st, node, fid)
        return f if isinstance(op, ast.In) else f_not(f)
    return order_f(I, op, a, b, st)


def as_lin(v):
    if isinstance(v, Num):
        return v.lin
    if isinstance(v, Const) and isinstance(v.v, bool):
        return Lin(int(v.v))
    return None


def order_f(I, op, a, b, st):
    from .interp import f_not
    la, lb = as_lin(a), as_lin(b)
    if la is not None and lb is not None:
        if isinstance(op, ast.Lt):
            return ("ge", lb - la - 1)
        if isinstance(op, ast.LtE):
            return ("ge", lb - la)
        if isinstance(op, ast.Gt):
            return ("ge", la - lb - 1)
        return ("ge", la - lb)
    ca, cb = py_const(a), py_const(b)
    if ca[0] and cb[0]:
        try:
            x, y = ca[1], cb[1]
            r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
            return ("T",) if r else ("F",)
        except TypeError:
            pass
    for x, y, flip in ((a, b, False), (b, a, True)):
        if isinstance(y, Const) and isinstance(y.v, float) and isinstance(x, Num):
            if math.isinf(y.v):
                less = y.v > 0                      # x < y
                if flip:
                    less = not less
                res = {ast.Lt: less, ast.LtE: less, ast.Gt: not less, ast.GtE: not less}[type(op)]
                return ("T",) if res else ("F",)
            fl = math.floor(y.v)
            # x < 1.5  <=>  x <= 1
            lx = x.lin
            k = type(op)
            if flip:
                k = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}[k]
            ce = math.ceil(y.v)
            if k is ast.Lt:
                return ("ge", Lin(ce) - lx - 1)
            if k is ast.LtE:
                return ("ge", Lin(fl) - lx)
            if k is ast.Gt:
                return ("ge", lx - fl - 1)
            return ("ge", lx - ce)
    ta, tb = I.term(a, st), I.term(b, st)
    if isinstance(op, ast.Lt):
        return ("atom", Term("lt", ta, tb))
    if isinstance(op, ast.GtE):
        return f_not(("atom", Term("lt", ta, tb)))
    if isinstance(op, ast.Gt):
        return ("atom", Term("lt", tb, ta))
    return f_not(("atom", Term("lt", tb, ta)))


def in_f(I, a, b, st, node, fid):
    from .interp import f_or
    if isinstance(b, Seq) and b.kind == "str":
        if isinstance(a, Seq):
            if a.const is not None:
                return contains_f(I, a.const, b, st)
            if b.const is not None and st.store.entails_eq(seq_len(a) - 1):
                return f_or(*[eq_str(I, a, S(c), st) for c in dict.fromkeys(b.const)])
            if b.const is not None and st.store.entails_eq(seq_len(a)):
                return ("T",)
        return ("atom", Term("in", I.term(a, st), I.term(b, st)))
    items = None
    if isinstance(b, Tup):
        items = b.items
    elif isinstance(b, Ref):
        ob = st.heap.get(b.id)
        if isinstance(ob, LObj):
            if all(isinstance(p, Item) for p in ob.seq.p):
                items = [p.v for p in ob.seq.p]
        elif isinstance(ob, DObj) and ob.items is not None:
            items = [k for k, _ in ob.items]
    if items is not None:
        return f_or(*[eq_f(I, a, x, st) for x in items])
    return ("atom", Term("in", I.term(a, st), I.term(b, st)))


# ------------------------------------------------------------------ arithmetic

def quotient(I, st, n, k):
    """n // k: (state, term)"""
    q = Term("floordiv", n, k)
    q.sort = "int"
    more = [n - lin(q) * k, lin(q) * k + (k - 1) - n]
    if st.store.entails_ge(n):
        more.append(lin(q))
    if st.store.entails_ge(lin(k - 1) - n):
        more.append(-lin(q))
    return I.with_ge(st, *more), q


def binop(I, op, a, b, st, node, fid):
    if isinstance(a, Const) and isinstance(a.v, bool):
        a = Num(int(a.v))
    if isinstance(b, Const) and isinstance(b.v, bool):
        b = Num(int(b.v))
    if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
        # a truth value used as a number
        for i, x in enumerate((a, b)):
            if isinstance(x, BoolV) and isinstance((b, a)[i], (Num, BoolV)):
                out = []
                for s, d in I.branch(st, I.truth(x, st)):
                    y = Num(int(d))
                    out += binop(I, op, y if i == 0 else a, b if i == 0 else y, s, node, fid)
                return out
    ca, cb = py_const(a), py_const(b)
    if ca[0] and cb[0] and not isinstance(op, ast.Mod) and \
            (isinstance(ca[1], (int, float)) or isinstance(cb[1], (int, float))) and \
            not (isinstance(op, ast.Mult) and isinstance(ca[1], int) and isinstance(cb[1], int) and abs(ca[1] * cb[1]) > 10**9) \
            and not isinstance(op, ast.Pow) and ca[1] is not None and cb[1] is not None:
        import operator as o
        fn = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
              ast.Mod: o.mod, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitOr: o.or_, ast.BitAnd: o.and_,
              ast.BitXor: o.xor}.get(type(op))
        if fn:
            try:
                if not (isinstance(op, ast.Mult) and (isinstance(ca[1], str) or isinstance(cb[1], str))):
                    r = fn(ca[1], cb[1])
                    st, v = to_value(I, r, st)
                    return [(st, v)]
            except Exception as e:
                return [(st, Exc(ExcV("builtins." + type(e).__name__, origin=I.loc(node, fid))))]
    if isinstance(a, Num) and isinstance(b, Num):
        if isinstance(op, ast.Add):
            return [(st, Num(st.store.norm(a.lin + b.lin)))]
        if isinstance(op, ast.Sub):
            return [(st, Num(st.store.norm(a.lin - b.lin)))]
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                k = st.store.norm(x.lin).const
                if k is not None:
                    return [(st, Num(y.lin * k))]
            t = Term("mul", *sorted((I.term(a, st), I.term(b, st)), key=lambda q: q.uid))
            t.sort = "int"
            return [(st, Num(lin(t)))]
        if isinstance(op, (ast.FloorDiv, ast.Div, ast.Mod)):
            k = st.store.norm(b.lin).const
            n = st.store.norm(a.lin)
            if k is not None and k > 0 and isinstance(op, (ast.FloorDiv, ast.Mod)):
                s, q = quotient(I, st, n, int(k))
                if s is None:
                    return []
                return [(s, Num(lin(q) if isinstance(op, ast.FloorDiv) else n - lin(q) * k))]
            return [(st, Sym(Term({ast.FloorDiv: "floordiv", ast.Div: "div", ast.Mod: "mod"}[type(op)], n, st.store.norm(b.lin))))]
    if isinstance(a, Const) and isinstance(a.v, float) and math.isinf(a.v) and isinstance(b, Num) and isinstance(op, (ast.Add, ast.Sub)):
        return [(st, a)]
    if isinstance(b, Const) and isinstance(b.v, float) and math.isinf(b.v) and isinstance(a, Num) and isinstance(op, ast.Add):
        return [(st, b)]
    if isinstance(b, Const) and isinstance(b.v, float) and math.isinf(b.v) and isinstance(a, Num) and isinstance(op, ast.Sub):
        return [(st, Const(-b.v))]
    if isinstance(op, ast.Add):
        if isinstance(a, Seq) and isinstance(b, Seq) and a.kind == b.kind:
            return [(st, I.concat(a, b, st))]
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = st.heap.get(a.id), st.heap.get(b.id)
            if isinstance(oa, LObj) and isinstance(ob, LObj):
                q = I.mk_seq("list", oa.seq.p + ob.seq.p, st)
                return [I.new_list(st, q.p)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            return [(st, Tup(a.items + b.items))]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Seq) and isinstance(y, Sym):
                t = y.term
                if t.sort is None:
                    yy = str_term(t)
                    return [(st, I.concat(x, yy, st) if x is a else I.concat(yy, x, st))]
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Seq) and isinstance(y, Num):
                return rep(I, x, y.lin, st)
            if isinstance(x, Seq) and isinstance(y, Sym):
                t = nat("count_of", y.term)
                return rep(I, x, lin(t), st)
            if isinstance(x, Ref) and isinstance(st.heap.get(x.id), LObj) and isinstance(y, Num):
                seq = st.heap[x.id].seq
                k = st.store.norm(y.lin).const
                if k is not None and k < 50:
                    return [I.new_list(st, list(seq.p) * max(0, int(k)))]
                if len(seq.p) == 1 and isinstance(seq.p[0], Item):
                    out = []
                    for s, pos in I.branch(st, ("ge", y.lin)):
                        if not pos:
                            out.append(I.new_list(s, []))
                        else:
                            out.append(I.new_list(s, [Img((), s.store.norm(y.lin), seq.p[0].v, seq.p[0].flags, ("rep", I.term(seq.p[0].v, s), s.store.norm(y.lin)))]))
                    return out
    if isinstance(op, ast.Mod) and isinstance(a, Seq):
        return percent(I, a, b, st)
    if isinstance(op, ast.Div) and not isinstance(a, (Num, Const)):
        from .lib_ext import joinpath
        return [(st, joinpath(I, a, b, st))]
    if isinstance(op, ast.Div) and isinstance(b, Sym) and isinstance(a, Seq):
        from .lib_ext import joinpath
        return [(st, joinpath(I, a, b, st))]
    t = Term("binop", type(op).__name__, I.term(a, st), I.term(b, st))
    if I.term(a, st).sort in ("int", "nat") and I.term(b, st).sort in ("int", "nat", None):
        pass
    # arithmetic on an untyped number: treat as integer
    la, lb = num_of(I, a, st), num_of(I, b, st)
    if la is not None and lb is not None and isinstance(op, (ast.Add, ast.Sub)):
        return [(st, Num(la + lb if isinstance(op, ast.Add) else la - lb))]
    return [(st, Sym(t))]


def num_of(I, v, st):
    if isinstance(v, Num):
        return v.lin
    if isinstance(v, Sym) and v.term.sort is None and v.term.op in ("attr", "mcall", "callv", "fcall", "elem", "item", "tget", "var"):
        v.term.sort = "int"
        return lin(v.term)
    return None


def rep(I, x, n, st):
    if not x.p:
        return [(st, x)]
    from .lib_str import known_text
    x = known_text(x, st)
    n = st.store.norm(n)
    k = n.const
    if k is not None:
        return [(st, I.mk_seq("str", [Rep(x, Lin(max(0, int(k))))], st))]
    out = []
    if x.const is not None and not x.const.strip() and I.decide(("ge", n), st) is None:
        # blanks: a negative count is the same as none, without a case split
        d = nat("max0", n)
        s = I.with_ge(st, lin(d) - n)
        return [(s, I.mk_seq("str", [Rep(x, lin(d))], s))]
    for s, pos in I.branch(st, ("ge", n)):
        if pos:
            out.append((s, I.mk_seq("str", [Rep(x, s.store.norm(n))], s)))
        else:
            out.append((s, Seq("str")))
    return out
