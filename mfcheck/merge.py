"""Joining of the outcomes of a call that differ only in facts nobody asks about."""
from .terms import Store, lin, Contradiction, Term
from .values import *


def canon(s, v, extra=()):
    """structural key of everything reachable in the state (heap identities renumbered), and the live ids"""
    ids = {}
    parts = []

    def val(x):
        if isinstance(x, Ref):
            if x.id in ids:
                return ("&", ids[x.id])
            ids[x.id] = len(ids)
            o = s.heap.get(x.id)
            return ("&", ids[x.id], obj(o))
        if isinstance(x, Tup):
            return ("T",) + tuple(val(i) for i in x.items)
        if isinstance(x, Meth):
            return ("M", val(x.obj), x.name)
        if isinstance(x, Bound):
            return ("B", val(x.fn), val(x.self_))
        if isinstance(x, Exc):
            # the argument of an exit is the exit status; that of another exception only its message
            return ("X", x.v, tuple(val(a) for a in x.v.args) if x.v.name.endswith("SystemExit") else None)
        if isinstance(x, Seq):
            return ("Q", x.kind) + tuple(piece(p) for p in x.p)
        return x

    def piece(p):
        if isinstance(p, Item):
            return ("I", val(p.v), p.flags)
        return p

    def obj(o):
        if isinstance(o, LObj):
            return ("L", val(o.seq), o.link)
        if isinstance(o, DObj):
            return ("D", o.kind, o.term, None if o.items is None else tuple((val(a), val(b)) for a, b in o.items))
        if isinstance(o, IObj):
            return ("O", o.cls.qual, tuple(sorted(((k, val(x)) for k, x in o.fields.items()), key=lambda t: t[0])))
        if isinstance(o, ItObj):
            return ("N", id(o))
        return ("?", id(o))
    parts.append(val(v))
    for f in sorted(s.frames, key=str):
        env = s.frames[f]
        parts.append((f, tuple((k, val(env[k])) for k in sorted(env))))
    for k in sorted(s.attrs, key=lambda a: (a[0].uid, str(a[1]))):
        parts.append((k, val(s.attrs[k])))
    for k in sorted((k for k in s.cells if k[0] != "constcache"), key=str):
        parts.append((k, val(s.cells[k])))
    parts.append(tuple(sorted(s.ghost.items(), key=lambda t: t[0])))
    parts.append(s.forall)
    parts.append(s.budget)
    return tuple(parts), ids


def merge(res, keep_fact, keep_dim):
    """keep_fact(term), keep_dim(term): what distinguishes states"""
    if len(res) < 2:
        return res
    groups = {}
    order = []
    for s, v in res:
        try:
            k, ids = canon(s, v)
            fk = frozenset((t, b) for t, b in s.facts.items() if keep_fact(t))
            sk = frozenset(("ge", g) for g in s.store.ge if all(keep_dim(d) for d in g.t)) | \
                frozenset(("eq", d, e) for d, e in s.store.eq.items() if keep_dim(d) and all(keep_dim(x) for x in e.t)) | \
                frozenset(("ne", g) for g in s.store.ne if all(keep_dim(d) for d in g.t))
            key = (k, fk, sk)
            hash(key)
        except TypeError:
            key = ("solo", id(s))
        if key not in groups:
            groups[key] = []
            order.append(key)
        groups[key].append((s, v))
    out = []
    for key in order:
        g = groups[key]
        if len(g) == 1:
            out.append(g[0])
            continue
        s0, v0 = g[0]
        facts = {t: b for t, b in s0.facts.items() if all(x.facts.get(t) == b and t in x.facts for x, _ in g[1:])}
        st = Store()
        try:
            for d, e in s0.store.eq.items():
                if all(x.store.entails_eq(lin(d) - e) for x, _ in g[1:]):
                    st = st.add_eq(lin(d) - e)
            for c in s0.store.ge:
                if all(x.store.entails_ge(c) for x, _ in g[1:]):
                    st = st.add_ge(c)
            for c in s0.store.ne:
                if all(x.store.entails_ne(c) for x, _ in g[1:]):
                    st = st.add_ne(c)
        except Contradiction:
            out += g
            continue
        n = s0.copy()
        n.facts = facts
        n.store = st
        out.append((n, v0))
    return out
