"""Join of abstract states at a loop head.

Numeric leaves that differ become phi dimensions related by the affine hull; sequences that differ
become summaries (Img) described by the slice of an older source sequence they reproduce."""
from fractions import Fraction
import os

from .terms import Term, Lin, lin, ZERO, ONE, Store, Contradiction, age_of, project, hull
from .values import *
from . import cover
from .interp import GenV, GenExprV, CtxV, PartialV


class Fail(Exception):
    pass


class Joiner:
    def __init__(self, I, states, mark, key, node, fn, rnd, prev=None):
        self.I = I
        self.S = states
        self.mark = mark
        self.key = key
        self.rnd = rnd
        self.prev = prev
        self.phis = {}        # lin tuple -> (phi term, new placeholder)
        self.order = []       # [(phi, new, lins)]
        self.refs = {}        # id tuple -> Ref
        self.heap = {}
        self.todo = []
        self.out = State()
        self.n = len(states)

    # ------------------------------------------------------------------ leaves
    def local(self, x):
        return age_of(x) > self.mark

    def mk(self, name, path, sort=None):
        t = Term("phi", name, self.key, path)
        t.age = self.mark + 1
        if t.sort is None:
            t.sort = sort
        return t

    def num(self, lins, path):
        """merge of one integer expression per state -> Lin"""
        ls = tuple(s.store.norm(lin(l)) for s, l in zip(self.S, lins))
        if all(l == ls[0] for l in ls) and not self.local(ls[0]):
            return ls[0]
        r = self.phis.get(ls)
        if r is None:
            phi = self.mk(path[-1] if isinstance(path[-1], str) else "p", path, "int")
            new = Term("phinew", phi)
            new.age = self.mark + 2
            new.sort = "int"
            r = (phi, new)
            self.phis[ls] = r
            self.order.append((phi, new, ls))
        return lin(r[0])

    def term(self, ts, path):
        if all(t is ts[0] for t in ts) and not self.local(ts[0]):
            return ts[0]
        t0 = ts[0]
        if all(t.op == t0.op and len(t.args) == len(t0.args) for t in ts) and t0.op not in ("fresh", "phi"):
            try:
                args = []
                for i in range(len(t0.args)):
                    args.append(self.arg([t.args[i] for t in ts], path + (i,)))
                r = Term(t0.op, *args)
                if r.sort is None:
                    r.sort = t0.sort
                return r
            except Fail:
                pass
        so = t0.sort if all(t.sort == t0.sort for t in ts) else None
        return self.mk("t", path, so)

    def arg(self, xs, path):
        x0 = xs[0]
        if all(type(x) is type(x0) for x in xs):
            if isinstance(x0, Lin):
                return self.num(xs, path)
            if isinstance(x0, Term):
                return self.term(xs, path)
            if all(x == x0 for x in xs) and not self.local(x0):
                return x0
            if isinstance(x0, Seq):
                r = self.skeleton(xs, path)
                if r is not None:
                    return r
        raise Fail

    # ------------------------------------------------------------------ values
    def value(self, vs, path):
        v0 = vs[0]
        if all(v == v0 for v in vs) and not self.local(v0) and not isinstance(v0, (Ref, Tup)):
            return v0
        I = self.I
        if all(isinstance(v, Num) or (isinstance(v, Const) and isinstance(v.v, bool) and False) for v in vs):
            return Num(self.num([v.lin for v in vs], path))
        if all(isinstance(v, Seq) for v in vs) and all(v.kind == v0.kind for v in vs):
            return self.seq(vs, path)
        if all(isinstance(v, Ref) for v in vs):
            return self.ref(vs, path)
        if all(isinstance(v, Tup) for v in vs) and all(len(v.items) == len(v0.items) for v in vs):
            return Tup([self.value([v.items[i] for v in vs], path + (i,)) for i in range(len(v0.items))])
        if all(isinstance(v, BoolV) or (isinstance(v, Const) and isinstance(v.v, bool)) for v in vs):
            return BoolV(("atom", self.mk("b", path, "bool")))
        if all(isinstance(v, MatchV) for v in vs):
            return self.match(vs, path)
        if all(isinstance(v, Sym) for v in vs):
            return Sym(self.term([v.term for v in vs], path))
        if all(isinstance(v, Meth) and v.name == v0.name for v in vs):
            return Meth(self.value([v.obj for v in vs], path + ("m",)), v0.name)
        if all(isinstance(v, Bound) and v.fn == v0.fn for v in vs):
            return Bound(v0.fn, self.value([v.self_ for v in vs], path + ("b",)))
        if all(isinstance(v, FuncV) for v in vs) and all(v.fn is v0.fn and v.closure == v0.closure for v in vs):
            return v0
        return Sym(self.mk("v", path))

    def match(self, vs, path):
        I = self.I
        v0 = vs[0]
        seqs = [v.seq for v in vs]
        rx0 = v0.rx
        if all(v.rx == rx0 for v in vs):
            sq = None
            if all(s == seqs[0] for s in seqs) and not self.local(seqs[0]):
                sq = seqs[0]
            else:
                sq = self.skeleton(seqs, path + ("seq",))
            if sq is not None:
                from .lib_rx import get_bounds
                bs = [get_bounds(I, v) for v in vs]
                t = self.mk("m", path, "match")
                I.match_bounds[t] = (self.num([b[0] for b in bs], path + ("ms",)),
                                     self.num([b[1] for b in bs], path + ("me",)))
                return MatchV(t, sq, rx0)
        return Sym(self.mk("m", path, "match"))

    def ref(self, vs, path):
        ids = tuple(v.id for v in vs)
        r = self.refs.get(ids)
        if r is not None:
            return r
        if all(i == ids[0] for i in ids):
            nid = ids[0]
        else:
            nid = ("phi", self.key, path)
        r = Ref(nid)
        self.refs[ids] = r
        self.todo.append((nid, ids, path))
        return r

    def obj(self, os_, path):
        o0 = os_[0]
        if any(o is None for o in os_):
            return None
        if all(isinstance(o, LObj) for o in os_):
            link = o0.link if all(o.link == o0.link for o in os_) and not self.local_link(o0.link) else None
            return LObj(self.seq([o.seq for o in os_], path), link)
        if all(isinstance(o, DObj) for o in os_):
            if all(o == o0 for o in os_) and not self.local(o0.items or ()):
                return o0
            if all(o.items is not None and o.kind == o0.kind for o in os_) and \
                    all([k for k, _ in o.items] == [k for k, _ in o0.items] for o in os_):
                return DObj(tuple((k, self.value([o.items[i][1] for o in os_], path + (i,)))
                                  for i, (k, _) in enumerate(o0.items)), o0.kind, o0.term)
            return DObj(None, o0.kind, self.mk("d", path))
        if all(isinstance(o, IObj) and o.cls is o0.cls for o in os_):
            names = [n for n in o0.fields if all(n in o.fields for o in os_)]
            return IObj(o0.cls, {n: self.value([o.fields[n] for o in os_], path + (n,)) for n in names})
        if all(isinstance(o, ItObj) and o.kind == o0.kind for o in os_):
            return ItObj(o0.kind, **{k: self.any([o.d.get(k) for o in os_], path + (k,)) for k in o0.d})
        return DObj(None, "dict", self.mk("o", path))

    def local_link(self, l):
        return l is not None and isinstance(l[1], (Lin, Term)) and self.local(l[1])

    def any(self, xs, path):
        x0 = xs[0]
        if all(isinstance(x, Lin) for x in xs):
            return self.num(xs, path)
        if all(isinstance(x, V) for x in xs):
            return self.value(xs, path)
        if all(isinstance(x, Term) for x in xs):
            return self.term(xs, path)
        if all(isinstance(x, tuple) and len(x) == len(x0) for x in xs):
            try:
                return tuple(self.any([x[i] for x in xs], path + (i,)) for i in range(len(x0)))
            except Fail:
                return None
        if all(x == x0 for x in xs):
            return x0
        return None

    # ------------------------------------------------------------------ sequences
    def seq(self, vs, path):
        vs = [self.I.norm_seq(v, s) for v, s in zip(vs, self.S)]
        v0 = vs[0]
        if all(v == v0 for v in vs) and not self.local(v0) and not any(has_refs(v) for v in vs):
            return v0
        wide = self.I.__dict__.setdefault("widened", {})
        if self.rnd == 0:
            wide.pop((self.key, path), None)
        if not ((self.key, path) in wide and len(v0.p) > 1 and any(isinstance(p, Img) for p in v0.p)):
            r = self.skeleton(vs, path)
            if r is not None:
                return r
        if v0.kind == "list" and self.rnd > 2:
            wide[(self.key, path)] = True
        # common prefix
        k = 0
        while all(len(v.p) > k for v in vs) and all(v.p[k] == v0.p[k] for v in vs) and \
                isinstance(v0.p[k], Item) and not self.local(v0.p[k]) and not has_refs(Seq(v0.kind, (v0.p[k],))):
            k += 1
        pre = v0.p[:k]
        rests = [Seq(v0.kind, v.p[k:]) for v in vs]
        im = self.image(rests, v0.kind, path)
        if k:
            # when the prefix is part of a longer reproduced slice prefer the single view
            whole = self.image(vs, v0.kind, path + ("w",), probe=True)
            if whole and not im.views:
                return Seq(v0.kind, (self.image(vs, v0.kind, path),))
        return Seq(v0.kind, pre + (im,))

    def skeleton(self, vs, path):
        """same shape with different numbers / terms"""
        v0 = vs[0]
        if any(len(v.p) != len(v0.p) or v.kind != v0.kind for v in vs):
            return None
        save = (dict(self.phis), list(self.order))
        try:
            return Seq(v0.kind, [self.piece([v.p[i] for v in vs], path + (i,)) for i in range(len(v0.p))])
        except Fail:
            self.phis, self.order = save
            return None

    def piece(self, ps, path):
        p0 = ps[0]
        if any(type(p) is not type(p0) for p in ps):
            raise Fail
        if isinstance(p0, Lit):
            if any(p != p0 for p in ps):
                raise Fail
            return p0
        if isinstance(p0, Sl):
            if all(p.src is p0.src for p in ps) and not self.local(p0.src):
                return Sl(p0.src, self.num([p.lo for p in ps], path + ("lo",)), self.num([p.hi for p in ps], path + ("hi",)))
            if all(p == full(p.src) for p in ps) and all(p.src.op == p0.src.op for p in ps) and p0.src.op not in ("lst", "cat"):
                t = self.term([p.src for p in ps], path + ("src",))
                return full(t)
            raise Fail
        if isinstance(p0, Rep):
            if all(p.v == p0.v for p in ps) and not self.local(p0.v):
                return Rep(p0.v, self.num([p.n for p in ps], path + ("n",)))
            raise Fail
        if isinstance(p0, Item):
            fl = frozenset.intersection(*[frozenset(p.flags) for p in ps])
            v = self.value([p.v for p in ps], path + ("v",))
            return Item(v, fl)
        if isinstance(p0, Ext):
            if any(len(p.pieces) != len(p0.pieces) for p in ps):
                raise Fail
            return Ext([self.piece([p.pieces[i] for p in ps], path + (i,)) for i in range(len(p0.pieces))],
                       frozenset.intersection(*[frozenset(p.flags) for p in ps]))
        if isinstance(p0, Img):
            # same run summary extended
            if all(p == p0 for p in ps) and not self.local(p0):
                return p0
            return self.image([Seq("list", (p,)) for p in ps], "list", path)
        if all(p == p0 for p in ps) and not self.local(p0):
            return p0
        if isinstance(p0, Join):
            if all(p.sep == p0.sep for p in ps):
                q = self.skeleton([p.seq for p in ps], path + ("j",))
                if q is not None:
                    return Join(p0.sep, q)
        if isinstance(p0, Wrapd):
            q = self.skeleton([p.seq for p in ps], path + ("w",))
            if q is not None and all(p.tag == p0.tag for p in ps) and not self.local(p0.tag):
                return Wrapd(q, p0.tag)
        raise Fail

    def image(self, vs, kind, path, probe=False):
        I = self.I
        cands = {}
        for v, s in zip(vs, self.S):
            for t in cover.sources(v.p, s):
                if t.age <= self.mark:
                    cands[t] = True
        views = []
        for T in sorted(cands, key=lambda t: t.uid):
            for mode in ("exact", "rstrip", "nonws"):
                rs = [cover.view_of(v.p, s, T, mode) for v, s in zip(vs, self.S)]
                if mode == "nonws" and any(r is None for r in rs):
                    rs = [cover.view_from_start(v.p, s, T) if r is None else r for r, v, s in zip(rs, vs, self.S)]
                    rs = [(ZERO, r) if isinstance(r, Lin) else r for r in rs]
                if any(r is None for r in rs) or all(r == "empty" for r in rs):
                    continue
                if mode == "nonws" and not probe:
                    a = self.anchored(T, rs)
                    if a:
                        views += a
                        continue
                los = [s.store.norm(r[0]) for r, s in zip(rs, self.S) if r != "empty"]
                if any(r == "empty" for r in rs):
                    his = [s.store.norm(r[1]) for r, s in zip(rs, self.S) if r != "empty"]
                    if all(l == los[0] for l in los) and not self.local(los[0]):
                        e = los[0]
                    elif all(l == his[0] for l in his) and not self.local(his[0]):
                        e = his[0]
                    else:
                        continue
                    rs = [(e, e) if r == "empty" else r for r in rs]
                if probe:
                    return True
                views.append((T, self.num([r[0] for r in rs], path + ("vlo", T.uid)),
                              self.num([r[1] for r in rs], path + ("vhi", T.uid)), mode))
                break
        if probe:
            return False
        n = self.num([seq_len(v) for v in vs], path + ("n",))
        flags = None
        sorts = set()
        for v, s in zip(vs, self.S):
            for p in v.p:
                if isinstance(p, (Item, Img)):
                    f = frozenset(p.flags)
                elif isinstance(p, Ext):
                    f = frozenset(p.flags)
                else:
                    f = frozenset()
                flags = f if flags is None else flags & f
                if isinstance(p, Item):
                    x = p.v
                    sorts.add("str" if isinstance(x, Seq) else "int" if isinstance(x, Num) else
                              ("list", "str") if isinstance(x, Ref) and isinstance(s.heap.get(x.id), LObj) else None)
                elif isinstance(p, Img):
                    sorts.add(I.img_sorts.get(p.uid) if p.tmpl is None else
                              "str" if isinstance(p.tmpl, Seq) else "int" if isinstance(p.tmpl, Num) else None)
                elif isinstance(p, Sl):
                    so = p.src.sort
                    sorts.add(so[1] if isinstance(so, tuple) else None)
        uid = Term("img", self.key, path)
        uid.age = self.mark + 1
        if kind == "list":
            sorts.discard(None) if len(sorts) > 1 and False else None
            I.img_sorts[uid] = sorts.pop() if len(sorts) == 1 else None
        return Img(views, n, None, flags or frozenset(), uid)

    def anchored(self, T, rs):
        """views up to white space from the start of the text to the value of a loop variable"""
        S_ = self.S
        for r, s in zip(rs, S_):
            if r != "empty" and not cover.gap_ok(T, ZERO, r[0], s):
                return None
        out = []
        for name, ls in self.positions(T):
            ok = True
            for n, r, s in zip(ls, rs, S_):
                hi = ZERO if r == "empty" else r[1]
                if not (s.store.entails_ge(n) and s.store.entails_ge(length_of(T) - n)
                        and s.store.entails_ge(n - hi) and cover.gap_ok(T, hi, n, s)):
                    ok = False
                    break
            if ok:
                out.append((T, ZERO, self.num(ls, ("anchor", name)), "nonws"))
        return out

    def positions(self, T):
        """candidate positions in T: loop variables, or how far an iterator over it has come"""
        S_ = self.S
        if cover.sort_is_list(T):
            want = (full(T),)
            for i, o in S_[0].heap.items():
                if isinstance(o, ItObj) and o.kind == "list":
                    os_ = [s.heap.get(i) for s in S_]
                    if all(isinstance(x, ItObj) and x.kind == "list" and self.over(x, s) == want for x, s in zip(os_, S_)):
                        yield ("it", i), [lin(x.d["pos"]) for x in os_]
            return
        if not S_[0].frames:
            return
        fid = max(S_[0].frames)
        if not all(fid in s.frames for s in S_):
            return
        for name in sorted(S_[0].frames[fid]):
            ns = [s.frames[fid].get(name) for s in S_]
            if all(isinstance(n, Num) for n in ns):
                yield name, [n.lin for n in ns]

    def over(self, o, s):
        if o.d["ref"] is not None:
            x = s.heap.get(o.d["ref"].id)
            return tuple(self.I.norm_seq(x.seq, s).p) if isinstance(x, LObj) else None
        return tuple(self.I.norm_seq(o.d["seq"], s).p) if o.d["seq"] is not None else None

    # ------------------------------------------------------------------ whole states
    def run(self):
        S_, I, out = self.S, self.I, self.out
        if self.n == 1 and self.rnd == 0 and self.prev is None and False:
            return S_[0]
        e = S_[0]
        fids = [f for f in e.frames if all(f in s.frames for s in S_)]
        for f in fids:
            env = {}
            for name in sorted(e.frames[f]):
                if all(name in s.frames[f] for s in S_):
                    env[name] = self.value([s.frames[f][name] for s in S_], ("f", f, name))
            out.frames[f] = env
        for k in e.attrs:
            if all(k in s.attrs for s in S_):
                out.attrs[k] = self.value([s.attrs[k] for s in S_], ("a",) + tuple(map(str, k)))
            else:
                out.attrs[k] = Sym(self.mk("a", ("a",) + tuple(map(str, k))))
        for s in S_[1:]:
            for k in s.attrs:
                if k not in out.attrs:
                    out.attrs[k] = Sym(self.mk("a", ("a",) + tuple(map(str, k))))
        for k in set().union(*[s.cells for s in S_]):
            vals = [s.cells[k] for s in S_ if k in s.cells]
            if len(vals) == self.n:
                out.cells[k] = self.value(vals, ("c",) + tuple(map(str, k)))
            elif k[0] == "constcache":
                out.cells[k] = vals[0]
                for s in S_:
                    if k in s.cells and isinstance(vals[0], Ref):
                        self.heap.setdefault(vals[0].id, s.heap.get(vals[0].id))
                        break
            else:
                out.cells[k] = Sym(self.mk("c", ("c",) + tuple(map(str, k))))
        for k in e.ghost:
            vals = [s.ghost.get(k) for s in S_]
            if all(isinstance(v, V) for v in vals):
                out.ghost[k] = self.value(vals, ("g", k))
            elif all(isinstance(v, Lin) for v in vals):
                out.ghost[k] = self.num(vals, ("g", k))
            elif all(v == vals[0] for v in vals) and not self.local(vals[0] if isinstance(vals[0], (Term, tuple)) else ()):
                out.ghost[k] = vals[0]
            else:
                gj = I.cfg.__dict__.get("ghost_join")
                out.ghost[k] = gj(self, k, vals) if gj else None
        # heap: objects common to all states, plus what the merged values refer to
        for i in e.heap:
            if all(i in s.heap for s in S_):
                ids = (i,) * self.n
                if ids not in self.refs:
                    self.refs[ids] = Ref(i)
                    self.todo.append((i, ids, ("h", i)))
        while self.todo:
            nid, ids, path = self.todo.pop()
            o = self.obj([s.heap.get(i) for s, i in zip(S_, ids)], path)
            if o is not None:
                self.heap[nid] = o
        out.heap = self.heap
        # close over references inside kept objects
        for t, v in e.facts.items():
            if not self.local(t) and all(s.facts.get(t) == v for s in S_[1:]):
                out.facts[t] = v
        out.forall = tuple(f for f in e.forall if not self.local(f) and all(f in s.forall for s in S_[1:]))
        out.budget = min(s.budget for s in S_)
        out.trail = e.trail
        out.store = self.stores()
        return out

    def stores(self):
        S_ = self.S
        sets = []
        dims = set()
        for i, s in enumerate(S_):
            eqs = []
            for phi, new, ls in self.order:
                eqs.append(lin(new) - ls[i])
            for k, x in s.store.eq.items():
                if k.age <= self.mark:
                    eqs.append(lin(k) - x)
            news = {new for _, new, _ in self.order}
            pr = project(eqs, lambda d: d.age > self.mark and d not in news)
            sets.append(pr)
            for q in pr:
                dims.update(q.t)
        h = hull(sets, sorted(dims, key=lambda d: d.uid)) if sets else []
        ren = {new: lin(phi) for phi, new, _ in self.order}
        st = Store()
        try:
            for q in h:
                st = st.add_eq(ren_lin(q, ren))
            for c in self.inequalities():
                if all(s.store.entails_ge(self.at(c, i)) for i, s in enumerate(S_)):
                    st = st.add_ge(c)
            for q in S_[0].store.ne:
                if q.age <= self.mark and all(s.store.entails_ne(q) for s in S_[1:]):
                    st = st.add_ne(q)
        except Contradiction:
            raise AssertionError("join produced a contradiction")
        return st

    def at(self, c, i):
        """constraint over phis -> over state i's dims"""
        out = Lin(c.c)
        m = {phi: ls[i] for phi, _, ls in self.order}
        for k, v in c.t.items():
            out = out + (m[k] * v if k in m else Lin(0, {k: v}))
        return out

    def inequalities(self):
        cands = []
        seen = set()

        def add(l):
            if l not in seen and l.t:
                seen.add(l)
                cands.append(l)
        if self.rnd >= 3 and self.prev is not None:
            for g in self.prev.store.ge:
                add(g)
            return cands
        for s in self.S:
            for g in s.store.ge:
                if g.age <= self.mark:
                    add(g)
        phis = [p for p, _, _ in self.order]
        for (p, _, ls) in self.order:
            add(lin(p))
            for l in ls:
                if l.age <= self.mark:
                    add(lin(p) - l)
                    add(l - lin(p))
        # bounds of the single dims behind the phis, expressed over the phis
        for i, s in enumerate(self.S):
            back = {}
            for (p, _, ls) in self.order:
                sg = ls[i].single()
                if sg and sg[0].age > self.mark:
                    back.setdefault(sg[0], lin(p) - sg[1])
            for g in s.store.ge:
                if g.age <= self.mark:
                    continue
                r = Lin(g.c)
                ok = True
                for k, v in g.t.items():
                    if k in back:
                        r = r + back[k] * v
                    elif k.age <= self.mark:
                        r = r + Lin(0, {k: v})
                    else:
                        ok = False
                        break
                if ok:
                    add(r)
                    for dlt in (1,):
                        add(r + dlt)
            # upper bounds against the lengths of older sequences
        lens = set()
        for s in self.S:
            for d in s.store.dims():
                if d.op == "len" and d.age <= self.mark:
                    lens.add(d)
        for (p, _, ls) in self.order[:24]:
            for d in sorted(lens, key=lambda d: d.uid)[:8]:
                add(lin(d) - lin(p))
        ph = phis[:14]
        for a in ph:
            for b in ph:
                if a is not b:
                    add(lin(a) - lin(b))
        return cands


def ren_lin(q, ren):
    out = Lin(q.c)
    for k, v in q.t.items():
        out = out + (ren[k] * v if k in ren else Lin(0, {k: v}))
    return out


def has_refs(v):
    if isinstance(v, Ref):
        return True
    if isinstance(v, Tup):
        return any(has_refs(x) for x in v.items)
    if isinstance(v, Seq):
        return any(has_refs(p.v) for p in v.p if isinstance(p, Item))
    return False


def same_state(a, b):
    if a.frames != b.frames or a.attrs != b.attrs or a.cells != b.cells:
        return False
    if a.ghost != b.ghost or a.facts != b.facts or a.forall != b.forall:
        return False
    if a.store.ge != b.store.ge or a.store.ne != b.store.ne or a.store.eq != b.store.eq:
        return False
    if set(a.heap) != set(b.heap):
        return False
    return all(a.heap[k] == b.heap[k] for k in a.heap)
