"""Abstract interpreter over the package's syntax trees.

Path facts are partitioned inside loop bodies; loops are solved by fixpoint over the affine /
coverage domains (mode 'fix') or by loop peeling with a bounded number of symbolic iterations per
path (mode 'peel', used only to attribute an undischarged obligation to a construct)."""
import ast
import time
import builtins as _bi

from .terms import Term, Lin, lin, ZERO, ONE, Store, Contradiction, fresh, age_of, project, hull
from .values import *
from .values import _nid
from . import cover, rx
from .model import Func, Cls, Module, AnalysisBroken, walk_own


class Out:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val=None):
        self.kind = kind
        self.st = st
        self.val = val

    def __repr__(self):
        return f"Out({self.kind}, {self.val!r})"


class GenExit:
    """carrier for a consumer's break/return travelling out of a generator body"""

    def __init__(self, out):
        self.out = out


STOP = object()
HOLE = Term("hole")
HOLE.sort = "nat"


class Budget(Exception):
    pass


T_ = ("T",)
F_ = ("F",)


def f_not(f):
    if f == T_:
        return F_
    if f == F_:
        return T_
    if f[0] == "not":
        return f[1]
    return ("not", f)


def f_and(*fs):
    out = []
    for f in fs:
        if f == F_:
            return F_
        if f != T_:
            out.append(f)
    if not out:
        return T_
    if len(out) == 1:
        return out[0]
    return ("and",) + tuple(out)


def f_or(*fs):
    out = []
    for f in fs:
        if f == T_:
            return T_
        if f != F_:
            out.append(f)
    if not out:
        return F_
    if len(out) == 1:
        return out[0]
    return ("or",) + tuple(out)


class GenV(V):
    """un-started generator object of a package generator function"""
    __slots__ = ("fn", "args", "kw", "self_", "closure")

    def __init__(self, fn, args, kw, closure=None):
        self.fn = fn
        self.args = tuple(args)
        self.kw = tuple(sorted(kw.items()))
        self.closure = closure

    def __eq__(self, o):
        return isinstance(o, GenV) and o.fn is self.fn and o.args == self.args and o.kw == self.kw

    def __hash__(self):
        return hash(("GenV", id(self.fn), self.args))


class GenExprV(V):
    """lazy generator expression"""
    __slots__ = ("node", "fid")

    def __init__(self, node, fid):
        self.node = node
        self.fid = fid

    def __eq__(self, o):
        return isinstance(o, GenExprV) and o.node is self.node and o.fid == self.fid

    def __hash__(self):
        return hash(("GenExprV", id(self.node)))


class CtxV(V):
    """context manager made by @contextmanager"""
    __slots__ = ("gen",)

    def __init__(self, gen):
        self.gen = gen

    def __eq__(self, o):
        return isinstance(o, CtxV) and o.gen == self.gen

    def __hash__(self):
        return hash(("CtxV", self.gen))


class PartialV(V):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn = fn
        self.args = tuple(args)
        self.kw = tuple(sorted(kw.items()))

    def __eq__(self, o):
        return isinstance(o, PartialV) and (o.fn, o.args, o.kw) == (self.fn, self.args, self.kw)

    def __hash__(self):
        return hash(("PartialV", self.fn, self.args))


class Config:
    """what one analysis treats as opaque, observes, and how it runs"""

    def __init__(self, **kw):
        self.opaque = {}            # Func qual -> handler(I, st, args, kw, node, fid) -> results
        self.ext = {}               # external qualname -> handler
        self.meth = {}              # method name on opaque objects -> handler
        self.on_event = None        # (I, st, kind, data, node, fid) -> st or [(st, Exc|None)]
        self.on_backedge = None     # (I, st, node, fid) -> [st]
        self.on_atom = None         # (term): observes every atom whose truth is asked for
        self.on_head = None         # (I, st, node, fid) -> st at the start of each round of a while loop
        self.on_item = None         # (I, st, listref, value) -> frozenset flags
        self.on_return = None
        self.atom_hook = None       # (I, st, term) -> True / False / None, assumed truth of an atom
        self.join_if = False        # one state after each if statement
        self.merge = None           # (I, fn, [(st, v)]) -> [(st, v)] join of call outcomes
        self.ghost_keys = ()
        self.any_raises = False     # opaque calls may raise
        self.check_index = False    # explore IndexError / StopIteration outcomes
        self.mode = "fix"
        self.peel = 2
        self.max_states = 4000
        self.max_steps = 400000
        self.max_seconds = 100      # of processor time, from the first step
        self.lines = ()             # lists of lines: no element has a line ending in it
        self.free_while = False     # a while loop that certainly goes on is unrolled for nothing
        self.recursion = 1
        self.force_opaque = None    # Func -> bool
        self.__dict__.update(kw)


class Interp:
    def __init__(self, prog, cfg):
        from . import libmodel
        self.prog = prog
        self.cfg = cfg
        self.lib = libmodel
        self.finfo = {}
        self.callstack = []
        self.obs = []
        self.mute = 0
        self.steps = 0
        self.t_end = None
        self.yields = {}
        self.imprecise = []
        self.dropped = 0
        self.funcs_seen = set()
        self.calls_seen = 0
        self.paths = 0
        self.loops = 0
        self.loadcache = {}
        self.nowss = cover.NOWSS
        self.nowse = cover.NOWSE
        self.rxslices = {}
        self.splitlines_sites = []
        self.match_bounds = {}
        self.img_sorts = {}
        self.index_ok = 0
        self.try_depth = 0

    # ------------------------------------------------------------------ reporting
    def loc(self, node, fid=None):
        fn = self.finfo.get(fid, (None,))[0]
        mod = fn.mod if isinstance(fn, Func) else fn
        rel = mod.relpath if mod is not None else "?"
        q = fn.qual if isinstance(fn, Func) else (mod.name if mod is not None else "?")
        return f"{rel}:{getattr(node, 'lineno', 0)} ({q})"

    def oblige(self, rule, status, where, msg, st=None):
        self.obs.append((rule, status, where, msg, None if st is None else st.trail))

    # ------------------------------------------------------------------ state helpers
    def new_frame(self, st, fn, closure=None):
        fid = new_id()
        self.finfo[fid] = (fn, closure)
        st = st.copy()
        st.frames[fid] = {}
        return st, fid

    def alloc(self, st, obj):
        i = new_id()
        s = st.copy()
        s.heap[i] = obj
        return s, Ref(i)

    def new_list(self, st, pieces=()):
        return self.alloc(st, LObj(Seq("list", pieces)))

    def ev(self, st, kind, data, node, fid):
        """emit an event; returns list of (st, Exc|None)"""
        if self.cfg.on_event is None:
            return [(st, None)]
        r = self.cfg.on_event(self, st, kind, data, node, fid)
        if r is None:
            return [(st, None)]
        if isinstance(r, State):
            return [(r, None)]
        return r

    # ------------------------------------------------------------------ terms of values
    def term(self, v, st):
        if isinstance(v, Sym):
            return v.term
        if isinstance(v, Const):
            return Term("c", repr(v.v))
        if isinstance(v, Num):
            n = st.store.norm(v.lin)
            s = n.single()
            if s and s[1] == 0:
                return s[0]
            return Term("int", n)
        if isinstance(v, Seq):
            c = v.const
            if c is not None:
                return Term("s", c)
            return snapshot(self.norm_seq(v, st))
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, LObj):
                return snapshot(self.norm_seq(o.seq, st))
            return Term("ref", v.id)
        if isinstance(v, Tup):
            return Term("tup", *[self.term(x, st) for x in v.items])
        if isinstance(v, BoolV):
            return Term("bool", v.f)
        if isinstance(v, FuncV):
            return Term("fn", v.fn.qual)
        if isinstance(v, ExtV):
            return Term("ext", v.q)
        if isinstance(v, ClsV):
            return Term("cls", v.cls.qual)
        if isinstance(v, ModV):
            return Term("mod", v.mod.name)
        if isinstance(v, RegexV):
            return Term("regex", v.pat, v.flags)
        if isinstance(v, MatchV):
            return v.term
        if isinstance(v, Meth):
            return Term("meth", self.term(v.obj, st), v.name)
        if isinstance(v, Bound):
            return Term("bound", self.term(v.fn, st), self.term(v.self_, st))
        if isinstance(v, ExcV):
            return Term("exc", v.name, v.origin)
        return Term("val", repr(v))

    def norm_piece(self, p, st):
        n = st.store.norm
        if isinstance(p, Sl):
            return Sl(p.src, n(p.lo), n(p.hi))
        if isinstance(p, Rep):
            return Rep(p.v, n(p.n))
        if isinstance(p, Item) and isinstance(p.v, Seq):
            return Item(self.norm_seq(p.v, st), p.flags)
        if isinstance(p, Item) and isinstance(p.v, Num):
            return Item(Num(n(p.v.lin)), p.flags)
        if isinstance(p, Img):
            return Img([(s, n(a), n(b), m) for s, a, b, m in p.views], n(p.n), p.tmpl, p.flags, p.uid)
        return p

    def norm_seq(self, seq, st):
        return self.mk_seq(seq.kind, [self.norm_piece(p, st) for p in seq.p], st)

    def mk_seq(self, kind, pieces, st):
        """concatenate pieces, merging adjacent ones and expanding full snapshots"""
        out = []

        def add(p):
            if isinstance(p, Sl):
                if st.store.entails_eq(p.hi - p.lo):
                    return
                if p.src.op not in ("lst", "cat") and st.store.entails_eq(p.lo):
                    ln = length_of(p.src)
                    if p.hi != ln and st.store.entails_eq(p.hi - ln):
                        p = Sl(p.src, ZERO, ln)     # one spelling for a whole sequence on every path
                if p.src.op in ("lst", "cat") and st.store.entails_eq(p.lo) and \
                        st.store.entails_eq(p.hi - length_of(p.src)):
                    for q in p.src.args[0].p:
                        add(q)
                    return
                if out and isinstance(out[-1], Sl) and out[-1].src is p.src and \
                        st.store.entails_eq(out[-1].hi - p.lo):
                    out[-1] = Sl(p.src, out[-1].lo, p.hi)
                    # might now be complete
                    q = out[-1]
                    if q.src.op in ("lst", "cat") and st.store.entails_eq(q.lo) and \
                            st.store.entails_eq(q.hi - length_of(q.src)):
                        out.pop()
                        add(q)
                    return
            elif isinstance(p, Lit):
                if not p.s:
                    return
                if out and isinstance(out[-1], Lit):
                    out[-1] = Lit(out[-1].s + p.s)
                    return
            elif isinstance(p, Rep):
                k = st.store.norm(p.n).const
                if k is not None and k <= 0:
                    return
                if k is not None and p.v.const is not None and k < 200:
                    add(Lit(p.v.const * int(k)))
                    return
                if not p.v.p:
                    return
                if k == 1:
                    for q in p.v.p:
                        add(q)
                    return
            elif isinstance(p, Ext) and not p.pieces:
                return
            out.append(p)

        for p in pieces:
            add(p)
        return Seq(kind, out)

    def concat(self, a, b, st):
        return self.mk_seq(a.kind, a.p + b.p, st)

    # ------------------------------------------------------------------ formulas
    def truth(self, v, st):
        if isinstance(v, Const):
            return T_ if v.v else F_
        if isinstance(v, BoolV):
            return v.f
        if isinstance(v, Num):
            return f_not(("eq", v.lin))
        if isinstance(v, Seq):
            return ("ge", seq_len(v) - 1) if v.const is None else (T_ if v.const else F_)
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if isinstance(o, LObj):
                return ("ge", seq_len(o.seq) - 1)
            if isinstance(o, DObj):
                if o.items is not None:
                    return T_ if o.items else F_
                return ("atom", Term("truthy", o.term or Term("ref", v.id)))
            return T_
        if isinstance(v, Tup):
            return T_ if v.items else F_
        if isinstance(v, Sym):
            if v.term.op in ("enum", "new", "join", "path") or v.term.sort == "path":
                return T_
            if isinstance(v.term.sort, tuple) and v.term.sort[0] == "list":
                return ("ge", length_of(v.term) - 1)
            if v.term.sort == "match":
                return ("atom", Term("truthy", v.term))
            return ("atom", Term("truthy", v.term))
        return T_

    def decide(self, f, st):
        """True / False / None"""
        k = f[0]
        if k == "T":
            return True
        if k == "F":
            return False
        if k == "ge":
            if st.store.entails_ge(f[1]):
                return True
            if st.store.entails_ge(-f[1] - 1):
                return False
            for K, neg in ((-f[1], False), (f[1] + 1, True)):
                a = self.strip_alias(K, st)
                if a is not None:
                    if st.store.entails_ge(a - 1):
                        return neg
                    if st.store.entails_ge(-a):
                        return not neg
            return None
        if k == "eq":
            if st.store.entails_eq(f[1]):
                return True
            if st.store.entails_ne(f[1]):
                return False
            a = self.strip_alias(f[1], st)
            if a is not None:
                if st.store.entails_eq(a):
                    return True
                if st.store.entails_ne(a):
                    return False
            return None
        if k == "atom":
            return self.atom_value(f[1], st)
        if k == "not":
            r = self.decide(f[1], st)
            return None if r is None else not r
        if k in ("and", "or"):
            res = True if k == "and" else False
            unk = False
            for g in f[1:]:
                r = self.decide(g, st)
                if r is None:
                    unk = True
                elif r != res:
                    return not res
            return None if unk else res
        raise AssertionError(f)

    def strip_alias(self, L, st):
        """stripping both ends of a text leaves nothing exactly when stripping
        its start does: L is the length of a fully stripped piece -> the length
        of the piece with only its start stripped"""
        for d in L.t:
            if d.op != "rws" or abs(L.t[d]) != 1:
                continue
            src, base, hi = d.args
            norm = st.store.norm
            want = norm(hi - base)
            if norm(L * L.t[d] * -1 - (want - lin(d))).const == 0:
                for p, e in self.nowss.get(src, ()):
                    if norm(p - base).const == 0 and norm(e - hi).const == 0:
                        return want
                for w in lin(base).t:
                    # the base is where the white space at the start ends
                    if w.op == "lws" and w.args[0] is src and norm(lin(base) - lin(w) - w.args[1]).const == 0 \
                            and norm(lin(w.args[2]) - hi).const == 0:
                        return want
        return None

    def atom_value(self, t, st):
        if self.cfg.on_atom is not None:
            self.cfg.on_atom(t)
        r = st.facts.get(t)
        if r is not None:
            return r
        if self.cfg.atom_hook is not None:
            r = self.cfg.atom_hook(self, st, t)
            if r is not None:
                return r
        if t.op == "eq":
            a, b = t.args
            if a is b:
                return True
            if a.op == b.op and a.op in ("s", "c", "enum"):
                return False
            # transitive through an established equality
        if t.op == "sw":
            return self.lit_query(t.args[0], t.args[1], t.args[2], t.args[3], st)
        if t.op == "allch":
            from .lib_iter import allch_value
            return allch_value(self, t, st)
        if t.op == "truthy":
            x = t.args[0]
            # a value equal to None / known
            e = st.facts.get(Term("eq", *sorted((x, Term("c", "None")), key=lambda q: q.uid)))
            if e:
                return False
        if t.op == "eq":
            a, b = t.args
            for x, y in ((a, b), (b, a)):
                if y.op == "c" and y.args[0] == "None" and st.facts.get(Term("truthy", x)):
                    return False
        # normalised variant (equalities learnt since)
        if t.age:
            n = self.norm_term(t, st)
            if n is not t:
                r = st.facts.get(n)
                if r is not None:
                    return r
                if n.op == "eq" and n.args[0] is n.args[1]:
                    return True
        return None

    def norm_term(self, t, st, memo=None):
        if not st.store.eq:
            return t
        args = []
        ch = False
        for a in t.args:
            if isinstance(a, Lin):
                b = st.store.norm(a)
            elif isinstance(a, Term) and a.args:
                b = self.norm_term(a, st)
            else:
                b = a
            if b is not a and b != a:
                ch = True
            args.append(b)
        if not ch:
            return t
        n = Term(t.op, *args)
        if n.sort is None:
            n.sort = t.sort
        return n

    def lit_query(self, src, lo, hi, s, st):
        """is src[lo:lo+len(s)] == s within [lo,hi)?"""
        if st.facts.get(Term("sw", src, lo, hi, s)) is not None:
            return st.facts[Term("sw", src, lo, hi, s)]
        if st.store.entails_ge(lo + len(s) - 1 - hi):
            return False
        long_enough = st.store.entails_ge(hi - lo - len(s))
        for l2, text in cover.lit_facts(src, st):
            d = st.store.norm(lo - l2).const
            if d is None:
                continue
            d = int(d)
            # overlap
            for i, c in enumerate(s):
                j = d + i
                if 0 <= j < len(text) and text[j] != c:
                    return False
            if 0 <= d and d + len(s) <= len(text) and long_enough and text[d:d + len(s)] == s:
                return True
        for a, b, ch in cover.RUNS.get(src, ()):
            k = ch.const
            if k and st.store.entails_ge(lo - a) and st.store.entails_ge(b - lo - 1) and s[0] != k:
                return False
            if k and set(s) == {k} and st.store.entails_ge(lo - a) and st.store.entails_ge(b - lo - len(s)) and long_enough:
                return True
        # negative facts on the same position with a prefix of s
        for t, v in st.facts.items():
            if t.op == "sw" and v is False and t.args[0] is src and s.startswith(t.args[3]) \
                    and st.store.entails_eq(t.args[1] - lo) and st.store.entails_eq(t.args[2] - hi):
                return False
        # known whitespace there?
        for a, b in cover.WS.get(src, ()):
            if s[0].strip() and st.store.entails_ge(lo - a) and st.store.entails_ge(b - lo - 1):
                return False
        for p in self.nowss.get(src, ()):
            if not s[0].strip() and st.store.entails_eq(p[0] - lo) and st.store.entails_ge(p[1] - p[0] - 1):
                return False
        # complement of a stripped run: the char after lstrip(ch) is not ch
        for (p, e, chars) in self.nowss.get(("run", src), ()):
            if s[0] in chars and st.store.entails_eq(p - lo):
                return False
        return None

    def assume(self, st, f, pol):
        """states (0..n) in which f == pol"""
        d = self.decide(f, st)
        if d is not None:
            return [st] if d == pol else []
        k = f[0]
        if k == "not":
            return self.assume(st, f[1], not pol)
        try:
            if k == "ge":
                L = f[1] if pol else -f[1] - 1
                s = st.store.add_ge(L)
                for K, neg in ((-L, False), (L + 1, True)):
                    # the length K of a stripped piece is <= 0, or >= 1
                    a = self.strip_alias(K, st)
                    if a is not None:
                        s = s.add_ge(a - 1) if neg else s.add_ge(-a)
                return [self.after_store(st.with_store(s), st.store)]
            if k == "eq":
                s = st.store.add_eq(f[1]) if pol else st.store.add_ne(f[1])
                a = self.strip_alias(f[1], st)
                if a is not None:
                    s = s.add_eq(a) if pol else s.add_ne(a)
                return [self.after_store(st.with_store(s), st.store)]
        except Contradiction:
            return []
        if k == "atom":
            ss = self.set_fact(st, f[1], pol)
            if f[1].op == "all":
                from .lib_iter import assume_all
                ss = [y for x in ss for y in assume_all(self, x, f[1], pol)]
            return ss
        if (k == "and") == pol:
            cur = [st]
            for g in f[1:]:
                nxt = []
                for s in cur:
                    nxt += self.assume(s, g, pol)
                cur = nxt
            return cur
        # disjunction: first, or not-first and second, ...
        out = []
        cur = [st]
        for g in f[1:]:
            nxt = []
            for s in cur:
                out += self.assume(s, g, pol)
                nxt += self.assume(s, g, not pol)
            cur = nxt
        return out

    def after_store(self, st, old=None):
        """the length of a list became known: elements named by their distance from its
        end are the ones named by their number; raises Contradiction"""
        eq = st.store.eq
        if old is None or eq is old.eq:
            return st
        m = {k: e for k, e in eq.items() if k not in old.eq and e.const is not None and k.op == "len"
             and k.args and isinstance(k.args[0], Term) and cover.sort_is_list(k.args[0])}
        if not m:
            return st
        s = st.store
        for g in list(s.ge):
            n = lsubst(g, m)
            if n is not g and n != g:
                s = s.add_ge(n)
        for g in list(s.ne):
            n = lsubst(g, m)
            if n is not g and n != g:
                s = s.add_ne(n)
        for k, e in list(old.eq.items()):
            g = Lin(0, {k: 1}) - e
            n = lsubst(g, m)
            if n is not g and n != g:
                s = s.add_eq(n)
        st = st.with_store(s)
        new = {}
        for t, v in st.facts.items():
            n = tsubst(t, m)
            if n is not t and n not in st.facts:
                new[n] = v
        if new:
            st = st.copy()
            st.facts = {**st.facts, **new}
        return st

    def set_fact(self, st, t, pol):
        s = st.copy()
        s.facts[t] = pol
        n = self.norm_term(t, st)
        if n is not t:
            s.facts[n] = pol
        try:
            if t.op == "sw":
                src, lo, hi, text = t.args
                if pol:
                    s.facts[Term("lit", src, lo, text)] = True
                    s.store = s.store.add_ge(hi - lo - len(text))
                elif len(text) >= 1:
                    pass
            elif t.op == "eq" and pol:
                # string equal to a literal
                for x, y in (t.args, t.args[::-1]):
                    if y.op == "s" and x.op != "s":
                        n_ = length_of(x) if x.op != "cat" else seq_len(x.args[0])
                        s.store = s.store.add_eq(n_ - len(y.args[0]))
                        if x.op == "cat":
                            ps = x.args[0].p
                            if len(ps) == 1 and isinstance(ps[0], Sl):
                                s.facts[Term("lit", ps[0].src, ps[0].lo, y.args[0])] = True
                        else:
                            s.facts[Term("lit", x, ZERO, y.args[0])] = True
            elif t.op == "allch" and pol and len(t.args[0]) == 1:
                ps = t.args[1].p
                if len(ps) == 1 and isinstance(ps[0], Sl) and s.store.entails_ge(seq_len(t.args[1]) - 1):
                    s.facts[Term("lit", ps[0].src, ps[0].lo, t.args[0])] = True
                ch = t.args[0]
                if ch.strip() and s.store.entails_ge(seq_len(t.args[1]) - 1):
                    # so is everything but white space in the texts these characters are all of
                    for x in cover.sources(ps, s):
                        if cover.sort_is_list(x) or ps and isinstance(ps[0], Sl) and x is ps[0].src or x.op in ("cat", "join"):
                            continue
                        if cover.complete_view(ps, s, x)[0] is True:
                            n_ = s.store.norm(length_of(x))
                            a = nat("lws", x, ZERO, n_)
                            s.facts[Term("lit", x, lin(a), ch)] = True
                            s.store = s.store.add_ge(n_ - lin(a) - 1)
                    from .lib_iter import head_of
                    h = head_of(self, t.args[1], s)
                    if h is not None:
                        s.facts[Term("lit", h[0], h[1], t.args[0])] = True
            elif t.op == "in" and pol:
                # substring containment: at least that long
                x, y = t.args
                if x.op == "s":
                    n_ = length_of(y) if y.op != "cat" else seq_len(y.args[0])
                    s.store = s.store.add_ge(n_ - len(x.args[0]))
        except Contradiction:
            return []
        return [s]

    def in_time(self):
        t = time.process_time()
        if self.t_end is None:
            self.t_end = t + self.cfg.max_seconds
        elif t > self.t_end:
            raise Budget("time limit")

    def branch(self, st, f):
        """[(state, bool)]"""
        self.in_time()
        d = self.decide(f, st)
        if d is not None:
            return [(st, d)]
        return [(s, True) for s in self.assume(st, f, True)] + [(s, False) for s in self.assume(st, f, False)]

    def with_ge(self, st, *ls):
        s = st.store
        try:
            for l in ls:
                s = s.add_ge(l)
            if s is st.store:
                return st
            return self.after_store(st.with_store(s), st.store)
        except Contradiction:
            return None

    # ------------------------------------------------------------------ functions
    def value_of(self, t, st):
        """value of a symbolic term according to its sort -> (st, V)"""
        so = t.sort
        if so == "str":
            return st, str_term(t)
        if so in ("int", "nat"):
            return st, Num(lin(t))
        if so == "bool":
            return st, BoolV(("atom", t))
        if isinstance(so, tuple) and so[0] == "list":
            s, r = self.alloc(st, LObj(Seq("list", (full(t),))))
            return s, r
        if isinstance(so, tuple) and so[0] == "tuple":
            items = []
            for i, x in enumerate(so[1:]):
                e = Term("tget", t, i)
                e.sort = x
                st, v = self.value_of(e, st)
                items.append(v)
            return st, Tup(items)
        return st, Sym(t)

    def ann_sort(self, mod, ann):
        """sort from an annotation expression"""
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Name):
            return {"str": "str", "int": "int", "bool": "bool", "Number": "int"}.get(ann.id)
        if isinstance(ann, ast.Subscript):
            base = ann.value.id if isinstance(ann.value, ast.Name) else getattr(ann.value, "attr", "")
            sl = ann.slice
            if base in ("List", "list", "Sequence", "Iterable"):
                return ("list", self.ann_sort(mod, sl))
            if base in ("Tuple", "tuple") and isinstance(sl, ast.Tuple):
                if any(isinstance(e, ast.Constant) and e.value is Ellipsis for e in sl.elts):
                    return ("list", self.ann_sort(mod, sl.elts[0]))
                return ("tuple",) + tuple(self.ann_sort(mod, e) for e in sl.elts)
        return None

    def call(self, f, args, kw, st, node, fid):
        """-> list of (st, V|Exc)"""
        self.steps += 1
        self.calls_seen += 1
        if self.steps > self.cfg.max_steps:
            raise Budget("step limit")
        self.in_time()
        if isinstance(f, FuncV):
            return self.call_func(f.fn, args, kw, st, node, fid, f.closure)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw, st, node, fid)
        if isinstance(f, PartialV):
            k2 = dict(f.kw)
            k2.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k2, st, node, fid)
        if isinstance(f, ClsV):
            return self.construct(f.cls, args, kw, st, node, fid)
        if isinstance(f, ExtV):
            return self.lib.call_ext(self, f.q, args, kw, st, node, fid)
        if isinstance(f, Meth):
            return self.lib.call_method(self, f.obj, f.name, args, kw, st, node, fid)
        if isinstance(f, Ref):
            o = st.heap.get(f.id)
            if isinstance(o, IObj):
                a = self.prog.class_attr(o.cls, "__call__")
                if isinstance(a, Func):
                    return self.call_func(a, [f] + list(args), kw, st, node, fid, None)
        if isinstance(f, Sym):
            t = Term("callv", f.term, *[self.term(a, st) for a in args],
                     *[Term("kw", k, self.term(v, st)) for k, v in sorted(kw.items())])
            if f.term.op == "enumget":
                pass
            return self.opaque_result(t, st, node, fid, "callv", args, kw)
        t = Term("callv", self.term(f, st), *[self.term(a, st) for a in args])
        return self.opaque_result(t, st, node, fid, "callv", args, kw)

    def opaque_result(self, t, st, node, fid, q, args=(), kw=None, sort=None):
        if sort is not None and t.sort is None:
            t.sort = sort
        out = []
        for s, ex in self.ev(st, "opaque", {"q": q, "args": args, "kw": kw or {}, "term": t}, node, fid):
            if ex is not None:
                out.append((s, ex))
                continue
            # objects passed to unknown code may be changed by it
            s, v = self.value_of(t, s)
            out.append((s, v))
        if self.cfg.any_raises:
            out.append((st, Exc(ExcV("builtins.Exception", exact=False, origin=q))))
        return out

    def construct(self, cls, args, kw, st, node, fid):
        prog = self.prog
        if prog.is_subclass(cls, "builtins.BaseException"):
            return [(st, ExcV(cls, True, args))]
        if any(isinstance(b, str) and b.startswith("enum.") for c in prog.mro(cls) for b in c.bases):
            t = Term("enumget", cls.qual, *[self.term(a, st) for a in args])
            return [(st, Sym(t))]
        h = self.cfg.opaque.get(cls.qual)
        if h is not None:
            return h(self, st, args, kw, node, fid)
        st2, r = self.alloc(st, IObj(cls, {}))
        if cls.is_dataclass or any(c.is_dataclass for c in prog.mro(cls)):
            fields = {}
            names = []
            for c in reversed(prog.mro(cls)):
                for s in c.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        if s.target.id not in names:
                            names.append(s.target.id)
            for n, a in zip(names, args):
                fields[n] = a
            fields.update(kw)
            cur = [st2]
            for n in names:
                if n in fields:
                    continue
                d = prog.class_attr(cls, n)
                if isinstance(d, ast.expr):
                    for s3, v in self.eval(d, cur[0], self.module_frame(cls.mod)):
                        if isinstance(v, Exc):
                            return [(s3, v)]
                        fields[n] = v
                        cur = [s3]
                        break
            s4 = cur[0].sethe(r.id, IObj(cls, fields))
            a = prog.class_attr(cls, "__post_init__")
            if isinstance(a, Func):
                return [(s, v if isinstance(v, Exc) else r)
                        for s, v in self.call_func(a, [r], {}, s4, node, fid, None)]
            return [(s4, r)]
        init = prog.class_attr(cls, "__init__")
        if isinstance(init, Func):
            out = []
            for s, v in self.call_func(init, [r] + list(args), kw, st2, node, fid, None):
                out.append((s, v if isinstance(v, Exc) else r))
            return out
        return [(st2, r)]

    def module_frame(self, mod):
        key = ("module", mod.name)
        if key not in self.finfo:
            self.finfo[key] = (mod, None)
        return key

    def bind(self, fn, args, kw, st, fid):
        """bind arguments in frame fid -> list of (st, Exc|None)"""
        a = fn.node.args
        pos = list(a.posonlyargs) + list(a.args)
        env = {}
        args = list(args)
        for p, v in zip(pos, args):
            env[p.arg] = v
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = Tup(extra)
        kwleft = dict(kw)
        for p in pos + list(a.kwonlyargs):
            if p.arg in kwleft:
                env[p.arg] = kwleft.pop(p.arg)
        s = st.copy()
        s.frames[fid] = env
        if a.kwarg:
            s, r = self.alloc(s, DObj(tuple((S(k), v) for k, v in kwleft.items())))
            s = s.setvar(fid, a.kwarg.arg, r)
        # defaults (evaluated in module scope; literals in practice)
        defaults = dict(zip([p.arg for p in pos][len(pos) - len(a.defaults):], a.defaults))
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[p.arg] = d
        mf = self.module_frame(fn.mod)
        for p in pos + list(a.kwonlyargs):
            if p.arg not in s.frames[fid]:
                d = defaults.get(p.arg)
                if d is None:
                    t = Term("missing", fn.qual, p.arg)
                    t.sort = self.ann_sort(fn.mod, p.annotation)
                    s, v = self.value_of(t, s)
                    s = s.setvar(fid, p.arg, v)
                else:
                    rs = self.eval(d, s, mf)
                    s, v = rs[0]
                    if isinstance(v, Exc):
                        v = Sym(fresh("default"))
                    s = s.setvar(fid, p.arg, v)
        return s

    def call_func(self, fn, args, kw, st, node, fid, closure=None):
        h = self.cfg.opaque.get(fn.qual)
        if h is not None:
            return h(self, st, list(args), kw, node, fid)
        if self.cfg.force_opaque is not None and self.cfg.force_opaque(fn):
            return self.opaque_func(fn, args, kw, st, node, fid)
        decos = self.decorators(fn)
        if "unknown" in decos:
            return self.opaque_func(fn, args, kw, st, node, fid)
        g = GenV(fn, args, kw, closure) if fn.is_gen else None
        if "contextmanager" in decos:
            return [(st, CtxV(g))]
        if g is not None:
            return [(st, g)]
        depth = sum(1 for f in self.callstack if f is fn)
        if depth >= self.cfg.recursion or len(self.callstack) > 40:
            return self.opaque_func(fn, args, kw, st, node, fid)
        return self.run_body(fn, args, kw, st, node, closure)

    def run_body(self, fn, args, kw, st, node, closure=None):
        self.funcs_seen.add(fn.qual)
        self.callstack.append(fn)
        try:
            st, nf = self.new_frame(st, fn, closure)
            st = self.bind(fn, args, kw, st, nf)
            if isinstance(fn.node, ast.Lambda):
                out = []
                for s, v in self.eval(fn.node.body, st, nf):
                    out.append((self.drop_frame(s, nf, fn), v))
                return out
            outs = self.exec_block(fn.node.body, st, nf)
            res = []
            for o in outs:
                if o.kind == "normal":
                    s, v = o.st, NONE
                elif o.kind == "return":
                    s, v = o.st, o.val
                elif o.kind == "raise":
                    s, v = o.st, Exc(o.val)
                else:
                    continue
                if self.cfg.on_return is not None:
                    s = self.cfg.on_return(self, s, fn, v, nf) or s
                res.append((self.drop_frame(s, nf, fn), v))
            if self.cfg.merge is not None:
                res = self.cfg.merge(self, fn, res)
            return self.dedupe(res)
        finally:
            self.callstack.pop()

    def drop_frame(self, st, nf, fn):
        if self.has_nested(fn):
            return st
        s = st.copy()
        s.frames.pop(nf, None)
        return s

    def has_nested(self, fn):
        r = self.loadcache.get(("nested", fn))
        if r is None:
            r = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fn.node) if n is not fn.node)
            self.loadcache[("nested", fn)] = r
        return r

    def dedupe(self, res):
        if len(res) < 2:
            return res
        if len(res) > self.cfg.max_states:
            raise Budget(f"state limit ({len(res)})")
        return res

    def decorators(self, fn):
        r = self.loadcache.get(("deco", fn))
        if r is not None:
            return r
        out = []
        for d in getattr(fn.node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            b = self.prog.resolve_expr(fn.mod, t)
            q = None
            if b and b[0] == "ext":
                q = b[1]
            elif isinstance(t, ast.Name):
                q = "builtins." + t.id
            q = q or "unknown"
            name = q.split(".")[-1]
            if name in ("contextmanager",):
                out.append("contextmanager")
            elif name in ("property", "cached_property"):
                out.append("property")
            elif name in ("staticmethod", "classmethod"):
                out.append(name)
            elif name in ("abstractmethod", "wraps", "lru_cache", "cache", "overload", "no_type_check"):
                pass
            elif b and b[0] == "func":
                out.append("unknown")
            else:
                out.append("unknown")
        self.loadcache[("deco", fn)] = out
        return out

    def opaque_func(self, fn, args, kw, st, node, fid):
        t = Term("fcall", fn.qual, *[self.term(a, st) for a in args],
                 *[Term("kw", k, self.term(v, st)) for k, v in sorted(kw.items())])
        if t.sort is None and not isinstance(fn.node, ast.Lambda):
            t.sort = self.ann_sort(fn.mod, fn.node.returns)
        return self.opaque_result(t, st, node, fid, fn.qual, args, kw)

    # ------------------------------------------------------------------ generators
    def run_gen(self, g, st, on_yield, node):
        """drive a generator body; on_yield(st, value) -> outs.  Returns outs ('normal' = exhausted)"""
        fn = g.fn
        if sum(1 for f in self.callstack if f is fn) >= 2:
            raise Budget("recursive generator")
        self.funcs_seen.add(fn.qual)
        self.callstack.append(fn)
        try:
            st, nf = self.new_frame(st, fn, g.closure)
            st = self.bind(fn, g.args, dict(g.kw), st, nf)
            self.yields[nf] = on_yield
            outs = self.exec_block(fn.node.body, st, nf)
            res = []
            for o in outs:
                s = self.drop_frame(o.st, nf, fn)
                if o.kind == "return":
                    res.append(Out("normal", s))
                elif o.kind == "raise" and isinstance(o.val, GenExit):
                    res.append(Out(o.val.out.kind, s, o.val.out.val))
                else:
                    res.append(Out(o.kind, s, o.val))
            return res
        finally:
            self.callstack.pop()

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, st, fid):
        cur = [st]
        done = []
        for s in body:
            nxt = []
            for x in cur:
                for o in self.exec_stmt(s, x, fid):
                    if o.kind == "normal":
                        nxt.append(o.st)
                    else:
                        done.append(o)
            cur = nxt
            if not cur:
                break
            if len(cur) + len(done) > self.cfg.max_states:
                raise Budget("state limit in block")
        return done + [Out("normal", s) for s in cur]

    def exec_stmt(self, s, st, fid):
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Budget("step limit")
        self.in_time()
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.imprecise.append(f"{self.loc(s, fid)}: unsupported statement {type(s).__name__}")
            return [Out("normal", st)]
        return m(s, st, fid)

    def x_Pass(self, s, st, fid):
        return [Out("normal", st)]

    def x_Expr(self, s, st, fid):
        if isinstance(s.value, ast.Constant):
            return [Out("normal", st)]
        return [self.lift(x, v) for x, v in self.eval(s.value, st, fid)]

    def lift(self, st, v):
        if isinstance(v, Exc):
            return Out("raise", st, v.v)
        return Out("normal", st)

    def x_Return(self, s, st, fid):
        if s.value is None:
            return [Out("return", st, NONE)]
        out = []
        for x, v in self.eval(s.value, st, fid):
            out.append(Out("raise", x, v.v) if isinstance(v, Exc) else Out("return", x, v))
        return out

    def x_Assign(self, s, st, fid):
        out = []
        for x, v in self.eval(s.value, st, fid):
            if isinstance(v, Exc):
                out.append(Out("raise", x, v.v))
                continue
            cur = [(x, None)]
            for t in s.targets:
                nxt = []
                for y, e in cur:
                    if e is not None:
                        nxt.append((y, e))
                    else:
                        nxt += self.assign(t, v, y, fid)
                cur = nxt
            for y, e in cur:
                out.append(Out("normal", y) if e is None else Out("raise", y, e.v))
        return out

    def x_AnnAssign(self, s, st, fid):
        if s.value is None:
            return [Out("normal", st)]
        out = []
        for x, v in self.eval(s.value, st, fid):
            if isinstance(v, Exc):
                out.append(Out("raise", x, v.v))
                continue
            for y, e in self.assign(s.target, v, x, fid):
                out.append(Out("normal", y) if e is None else Out("raise", y, e.v))
        return out

    def x_AugAssign(self, s, st, fid):
        out = []
        load = ast.copy_location(_as_load(s.target), s.target)
        for x, vals in self.eval_many([load, s.value], st, fid):
            if isinstance(vals, Exc):
                out.append(Out("raise", x, vals.v))
                continue
            a, b = vals
            # in-place list extension
            if isinstance(s.op, ast.Add) and isinstance(a, Ref) and isinstance(x.heap.get(a.id), LObj):
                for y, v in self.lib.list_extend(self, a, b, x, s, fid):
                    if isinstance(v, Exc):
                        out.append(Out("raise", y, v.v))
                        continue
                    for z, e in self.assign(s.target, a, y, fid, aug=True):
                        out.append(Out("normal", z) if e is None else Out("raise", z, e.v))
                continue
            for y, v in self.binop(s.op, a, b, x, s, fid):
                if isinstance(v, Exc):
                    out.append(Out("raise", y, v.v))
                    continue
                for z, e in self.assign(s.target, v, y, fid):
                    out.append(Out("normal", z) if e is None else Out("raise", z, e.v))
        return out

    def assign(self, t, v, st, fid, aug=False):
        """-> list of (st, Exc|None)"""
        if isinstance(t, ast.Name):
            fn = self.finfo[fid][0]
            if isinstance(fn, Func) and t.id in self.globals_of(fn):
                s = st.copy()
                s.cells[(fn.mod.name, t.id)] = v
                return [(r, e) for r, e in self.ev(s, "global", {"mod": fn.mod.name, "name": t.id, "value": v}, t, fid)]
            if isinstance(fn, Func) and t.id in self.nonlocals_of(fn):
                p = self.finfo[fid][1]
                while p is not None and p in st.frames:
                    if t.id in st.frames[p]:
                        return [(st.setvar(p, t.id, v), None)]
                    p = self.finfo[p][1]
            if isinstance(fn, Module):
                s = st.copy()
                s.cells[(fn.name, t.id)] = v
                return [(s, None)]
            return [(st.setvar(fid, t.id, v), None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, fid)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fid)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.eval(t.value, st, fid):
                if isinstance(o, Exc):
                    out.append((s, o))
                    continue
                out += self.setattr(o, t.attr, v, s, t, fid)
            return out
        if isinstance(t, ast.Subscript):
            if aug and isinstance(v, Ref):
                # x[i] += list : object already updated in place
                return [(st, None)]
            out = []
            for s, vals in self.eval_many([t.value, t.slice], st, fid):
                if isinstance(vals, Exc):
                    out.append((s, vals))
                    continue
                out += self.lib.setitem(self, vals[0], vals[1], v, s, t, fid)
            return out
        return [(st, None)]

    def setattr(self, o, name, v, st, node, fid):
        if isinstance(o, Ref):
            ob = st.heap.get(o.id)
            if isinstance(ob, IObj):
                f = dict(ob.fields)
                f[name] = v
                s = st.sethe(o.id, IObj(ob.cls, f))
                return self.ev(s, "setattr", {"obj": o, "name": name, "value": v}, node, fid)
        s = st.copy()
        if isinstance(o, ModV):
            s.cells[(o.mod.name, name)] = v
        elif isinstance(o, ExtV):
            s.cells[("ext", o.q + "." + name)] = v
        elif isinstance(o, ExcV):
            return [(s, None)]
        else:
            s.attrs[(self.term(o, st), name)] = v
        return self.ev(s, "setattr", {"obj": o, "name": name, "value": v}, node, fid)

    def unpack(self, t, v, st, fid):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = None
        if star and not isinstance(v, Tup) and not (isinstance(v, Ref) and isinstance(st.heap.get(v.id), LObj)):
            got = self.lib.to_list(self, v, st, t, fid)
            if not any(isinstance(r, Exc) for _, r in got):
                return [y for s, r in got for y in self.unpack(t, r, s, fid)]
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, Ref) and isinstance(st.heap.get(v.id), LObj):
            sq = st.heap[v.id].seq
            if all(isinstance(p, Item) for p in sq.p):
                items = [p.v for p in sq.p]
            else:
                # symbolic list of required length
                L = seq_len(sq)
                if not star:
                    ss = self.assume(st, ("eq", L - n), True)
                    out = []
                    for s in ss:
                        vals = []
                        for i in range(n):
                            s, x = self.lib.list_get(self, sq, lin(i), s)
                            vals.append(x)
                        out += self.unpack(t, Tup(vals), s, fid)
                    return out
                out = []
                for s, b in self.branch(st, ("ge", L - (n - 1))):
                    if not b:
                        out.append((s, Exc(ExcV("builtins.ValueError", origin="unpack"))))
                        continue
                    i, after, vals = star[0], n - star[0] - 1, []
                    for k in [lin(k) for k in range(i)] + [L - (after - k) for k in range(after)]:
                        s, x = self.lib.list_get(self, sq, k, s)
                        vals.append(x)
                    for s2, mid in self.lib.slice_seq(self, sq, Num(lin(i)), Num(L - after), s):
                        if isinstance(mid, Seq):
                            s2, r = self.new_list(s2, mid.p)
                            cur = [(s2, None)]
                            for e, x in zip(t.elts, vals[:i] + [r] + vals[i:]):
                                cur = [y for s3, ex in cur for y in ([(s3, ex)] if ex is not None else self.assign(e, x, s3, fid))]
                            out += cur
                return out
        elif isinstance(v, Seq) and v.const is not None:
            items = [S(c) for c in v.const]
        elif isinstance(v, Sym) and isinstance(v.term.sort, tuple) and v.term.sort[0] == "tuple":
            st, tv = self.value_of(v.term, st)
            items = list(tv.items)
        if items is None or (not star and len(items) != n):
            if items is not None and not star and len(items) != n:
                return [(st, Exc(ExcV("builtins.ValueError", origin="unpack")))]
            tt = self.term(v, st)
            items = []
            for i in range(n):
                e = Term("tget", tt, i)
                st, x = self.value_of(e, st)
                items.append(x)
            star = []
        if star:
            i = star[0]
            after = n - i - 1
            if len(items) < n - 1:
                return [(st, Exc(ExcV("builtins.ValueError", origin="unpack")))]
            mid = items[i: len(items) - after]
            st, r = self.new_list(st, [Item(x) for x in mid])
            items = items[:i] + [r] + items[len(items) - after:]
        cur = [(st, None)]
        for e, x in zip(t.elts, items):
            nxt = []
            for s, ex in cur:
                if ex is not None:
                    nxt.append((s, ex))
                else:
                    nxt += self.assign(e, x, s, fid)
            cur = nxt
        return cur

    def globals_of(self, fn):
        r = self.loadcache.get(("glob", fn))
        if r is None:
            r = set()
            if not isinstance(fn.node, ast.Lambda):
                for n in walk_own(fn.node):
                    if isinstance(n, ast.Global):
                        r.update(n.names)
            self.loadcache[("glob", fn)] = r
        return r

    def nonlocals_of(self, fn):
        r = self.loadcache.get(("nonl", fn))
        if r is None:
            r = set()
            if not isinstance(fn.node, ast.Lambda):
                for n in walk_own(fn.node):
                    if isinstance(n, ast.Nonlocal):
                        r.update(n.names)
            self.loadcache[("nonl", fn)] = r
        return r

    def x_Global(self, s, st, fid):
        return [Out("normal", st)]

    x_Nonlocal = x_Global

    def x_Delete(self, s, st, fid):
        cur = [Out("normal", st)]
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                nxt = []
                for o in cur:
                    if o.kind != "normal":
                        nxt.append(o)
                        continue
                    for x, vals in self.eval_many([t.value, t.slice], o.st, fid):
                        if isinstance(vals, Exc):
                            nxt.append(Out("raise", x, vals.v))
                            continue
                        for y, e in self.lib.delitem(self, vals[0], vals[1], x, t, fid):
                            nxt.append(Out("normal", y) if e is None else Out("raise", y, e.v))
                cur = nxt
        return cur

    def x_If(self, s, st, fid):
        out = []
        joining = self.cfg.join_if and self.cfg.join_if(s)
        if joining:
            Term.clock += 1
        mark = Term.clock
        for x, v in self.eval(s.test, st, fid):
            if isinstance(v, Exc):
                out.append(Out("raise", x, v.v))
                continue
            f = self.truth(v, x)
            for y, b in self.branch(x, f):
                out += self.exec_block(s.body if b else s.orelse, y, fid)
        if joining:
            out = self.join_outs(mark, out, s, fid)
        return out

    def join_outs(self, mark, outs, node, fid):
        """one state after a statement instead of one per path through it"""
        from .joins import Joiner
        norm = [o for o in outs if o.kind == "normal"]
        if len(norm) < 2:
            return outs
        groups = {}
        for o in norm:
            groups.setdefault(self.gkey(o.st), []).append(o.st)
        res = [o for o in outs if o.kind != "normal"]
        for k, g in groups.items():
            if len(g) == 1:
                res.append(Out("normal", g[0]))
                continue
            J = Joiner(self, g, mark - 1, (mark, k), node, self.finfo[fid][0], 0, prev=None)
            res.append(Out("normal", J.run()))
        return res

    def x_Assert(self, s, st, fid):
        out = []
        for x, v in self.eval(s.test, st, fid):
            if isinstance(v, Exc):
                out.append(Out("raise", x, v.v))
                continue
            for y, b in self.branch(x, self.truth(v, x)):
                out.append(Out("normal", y) if b else Out("raise", y, ExcV("builtins.AssertionError", origin=self.loc(s, fid))))
        return out

    def x_Raise(self, s, st, fid):
        if s.exc is None:
            e = st.frames.get(fid, {}).get("__exc__")
            if not isinstance(e, ExcV):
                e = ExcV("builtins.Exception", exact=False)
            return [Out("raise", st, e)]
        out = []
        for x, v in self.eval(s.exc, st, fid):
            if isinstance(v, Exc):
                out.append(Out("raise", x, v.v))
                continue
            out.append(Out("raise", x, self.to_exc(v, x, s, fid)))
        return out

    def to_exc(self, v, st, node, fid):
        if isinstance(v, ExcV):
            return v
        if isinstance(v, ClsV):
            return ExcV(v.cls, True)
        if isinstance(v, ExtV):
            return ExcV(v.q, True)
        return ExcV("builtins.Exception", exact=False, origin=self.loc(node, fid))

    def x_Try(self, s, st, fid):
        self.try_depth += bool(s.handlers)
        try:
            outs = self.exec_block(s.body, st, fid)
        finally:
            self.try_depth -= bool(s.handlers)
        mid = []
        for o in outs:
            if o.kind == "raise" and isinstance(o.val, ExcV):
                mid += self.handle(s, o, fid)
            elif o.kind == "normal" and s.orelse:
                mid += self.exec_block(s.orelse, o.st, fid)
            else:
                mid.append(o)
        if not s.finalbody:
            return mid
        res = []
        for o in mid:
            for p in self.exec_block(s.finalbody, o.st, fid):
                if p.kind == "normal":
                    res.append(Out(o.kind, p.st, o.val))
                else:
                    res.append(p)
        return res

    x_TryStar = x_Try

    def exc_match(self, e, h):
        """h: class value(s) -> list of (matched bool, ExcV narrowed)"""
        prog = self.prog
        if h in e.nots:
            return [(False, e)]
        if prog.is_subclass(e.cls, h) or h == "builtins.BaseException":
            return [(True, e)]
        if not e.exact and (prog.is_subclass(h, e.cls)):
            for n in e.nots:
                if prog.is_subclass(h, n):
                    return [(False, e)]
            return [(True, ExcV(h, False, e.args, e.origin, e.nots)),
                    (False, ExcV(e.cls, False, e.args, e.origin, e.nots + (h,)))]
        return [(False, e)]

    def handler_classes(self, t, st, fid):
        """exception classes named by a handler expression; '?' for unknown"""
        out = []
        for x, v in self.eval(t, st, fid)[:1]:
            vs = v.items if isinstance(v, Tup) else [v]
            for w in vs:
                if isinstance(w, ClsV):
                    out.append(w.cls)
                elif isinstance(w, ExtV):
                    out.append(w.q)
                else:
                    out.append("?")
        return out

    def handle(self, s, o, fid):
        pend = [(o.st, o.val)]
        out = []
        for h in s.handlers:
            nxt = []
            for st, e in pend:
                if h.type is None:
                    cl = ["builtins.BaseException"]
                else:
                    cl = self.handler_classes(h.type, st, fid)
                rest = [e]
                for c in cl:
                    r2 = []
                    for ee in rest:
                        if c == "?":
                            self.imprecise.append(f"{self.loc(h, fid)}: handler class unknown")
                            out += self.run_handler(h, st, ee, fid)
                            r2.append(ee)
                            continue
                        for ok, en in self.exc_match(ee, c):
                            if ok:
                                out += self.run_handler(h, st, en, fid)
                            else:
                                r2.append(en)
                    rest = r2
                for ee in rest:
                    nxt.append((st, ee))
            pend = nxt
        for st, e in pend:
            out.append(Out("raise", st, e))
        return out

    def run_handler(self, h, st, e, fid):
        old = st.frames[fid].get("__exc__") if fid in st.frames else None
        for x, ex in self.ev(st, "handled", {"exc": e}, h, fid):
            st = x
        s = st.setvar(fid, "__exc__", e) if fid in st.frames else st
        if h.name and fid in s.frames:
            s = s.setvar(fid, h.name, e)
        outs = self.exec_block(h.body, s, fid)
        res = []
        for o in outs:
            y = o.st
            if fid in y.frames:
                env = dict(y.frames[fid])
                if old is None:
                    env.pop("__exc__", None)
                else:
                    env["__exc__"] = old
                y = y.copy()
                y.frames[fid] = env
            res.append(Out(o.kind, y, o.val))
        return res

    def x_With(self, s, st, fid):
        return self.with_items(s, 0, st, fid)

    def with_items(self, s, i, st, fid):
        if i == len(s.items):
            return self.exec_block(s.body, st, fid)
        it = s.items[i]
        out = []
        for x, v in self.eval(it.context_expr, st, fid):
            if isinstance(v, Exc):
                out.append(Out("raise", x, v.v))
                continue
            out += self.enter(v, it, s, i, x, fid)
        return out

    def enter(self, v, it, s, i, st, fid):
        def body(x, val):
            if it.optional_vars is not None:
                res = []
                for y, e in self.assign(it.optional_vars, val, x, fid):
                    if e is not None:
                        res.append(Out("raise", y, e.v))
                    else:
                        res += self.with_items(s, i + 1, y, fid)
                return res
            return self.with_items(s, i + 1, x, fid)

        if isinstance(v, CtxV):
            def on_yield(x, val):
                res = []
                for o in body(x, val):
                    if o.kind in ("normal", "raise"):
                        res.append(o)
                    else:
                        g = o.st.ghost.get("_pend", ())
                        res.append(Out("normal", o.st.setghost(_pend=g + ((o.kind, o.val, s),))))
                return res
            outs = self.run_gen(v.gen, st, on_yield, s)
            res = []
            for o in outs:
                g = o.st.ghost.get("_pend", ())
                if g and g[-1][2] is s:
                    y = o.st.setghost(_pend=g[:-1])
                    if o.kind == "normal":
                        res.append(Out(g[-1][0], y, g[-1][1]))
                    else:
                        res.append(Out(o.kind, y, o.val))
                else:
                    res.append(o)
            return res
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), IObj):
            cls = st.heap[v.id].cls
            en = self.prog.class_attr(cls, "__enter__")
            ex = self.prog.class_attr(cls, "__exit__")
            if isinstance(en, Func) and isinstance(ex, Func):
                res = []
                for x, val in self.call_func(en, [v], {}, st, s, fid):
                    if isinstance(val, Exc):
                        res.append(Out("raise", x, val.v))
                        continue
                    for o in body(x, val):
                        if o.kind == "raise" and isinstance(o.val, ExcV):
                            a = [v, Sym(Term("exctype")), o.val, NONE]
                        else:
                            a = [v, NONE, NONE, NONE]
                        for y, r in self.call_func(ex, a, {}, o.st, s, fid):
                            if isinstance(r, Exc):
                                res.append(Out("raise", y, r.v))
                            elif o.kind == "raise" and isinstance(o.val, ExcV):
                                for z, b in self.branch(y, self.truth(r, y)):
                                    res.append(Out("normal", z) if b else Out("raise", z, o.val))
                            else:
                                res.append(Out(o.kind, y, o.val))
                return res
        t = self.term(v, st)
        if t.op == "suppress":
            res = []
            for o in body(st, NONE):
                if o.kind == "raise" and isinstance(o.val, ExcV):
                    rest = [o.val]
                    for c in t.args:
                        r2 = []
                        for e in rest:
                            for ok, en in self.exc_match(e, c):
                                if ok:
                                    y = o.st
                                    for y, _ in self.ev(o.st, "handled", {"exc": en}, s, fid):
                                        pass
                                    res.append(Out("normal", y))
                                else:
                                    r2.append(en)
                        rest = r2
                    res += [Out("raise", o.st, e) for e in rest]
                else:
                    res.append(o)
            return res
        if t.op == "nullctx":
            return body(st, t.args[0] if t.args else NONE)
        # unknown context manager: the value itself is bound (open files, locks ...)
        if t.op not in ("open",):
            self.imprecise.append(f"{self.loc(s, fid)}: context manager {t!r} treated as transparent")
        return body(st, v)

    def x_FunctionDef(self, s, st, fid):
        fn = self.loadcache.get(("def", s))
        if fn is None:
            parent = self.finfo[fid][0]
            mod = parent.mod if isinstance(parent, Func) else parent
            fn = Func(mod, s, f"{parent.qual if isinstance(parent, Func) else mod.name}.<locals>.{s.name}")
            self.loadcache[("def", s)] = fn
        return [Out("normal", st.setvar(fid, s.name, FuncV(fn, fid)))]

    def x_ClassDef(self, s, st, fid):
        self.imprecise.append(f"{self.loc(s, fid)}: local class")
        return [Out("normal", st.setvar(fid, s.name, Sym(fresh(s.name))))]

    def x_Import(self, s, st, fid):
        fn = self.finfo[fid][0]
        mod = fn.mod if isinstance(fn, Func) else fn
        x = st
        for k, b in self.prog.import_bindings(mod, s).items():
            if b[0] == "lazy":
                b = self.prog.lookup(b[1], b[2]) or ("ext", "?")
            x, v = self.binding_value(b, x, mod, k)
            x = x.setvar(fid, k, v)
        return [Out("normal", x)]

    x_ImportFrom = x_Import

    def x_Break(self, s, st, fid):
        return [Out("break", st)]

    def x_Continue(self, s, st, fid):
        return [Out("continue", st)]

    # ------------------------------------------------------------------ loops
    def x_While(self, s, st, fid):
        def nxt(x):
            r = []
            for y, v in self.eval(s.test, x, fid):
                if isinstance(v, Exc):
                    r.append((y, v))
                    continue
                for z, b in self.branch(y, self.truth(v, y)):
                    r.append((z, TRUE) if b else (z, STOP))
            return r

        def body(x, v):
            if self.cfg.on_head is not None:
                x = self.cfg.on_head(self, x, s, fid)
            return self.exec_block(s.body, x, fid)

        outs = self.loop(st, nxt, body, s, fid, lambda x: False)
        return self.loop_else(outs, s, fid)

    def loop_else(self, outs, s, fid):
        res = []
        for o in outs:
            if o.kind == "exhaust":
                if s.orelse:
                    res += self.exec_block(s.orelse, o.st, fid)
                else:
                    res.append(Out("normal", o.st))
            elif o.kind == "break":
                res.append(Out("normal", o.st))
            else:
                res.append(o)
        return res

    def x_For(self, s, st, fid):
        out = []
        for x, v in self.eval(s.iter, st, fid):
            if isinstance(v, Exc):
                out.append(Out("raise", x, v.v))
                continue

            def body(y, val, s=s):
                r = []
                for z, e in self.assign(s.target, val, y, fid):
                    if e is not None:
                        r.append(Out("raise", z, e.v))
                    else:
                        r += self.exec_block(s.body, z, fid)
                return r
            outs = self.iterate(v, x, body, s, fid)
            out += self.loop_else(outs, s, fid)
        return out

    def iterate(self, v, st, body, node, fid):
        """run body over the elements of v -> outs with kinds exhaust/break/return/raise"""
        if isinstance(v, GenV):
            def on_yield(x, val):
                res = []
                for o in body(x, val):
                    if o.kind in ("normal", "continue"):
                        res.append(Out("normal", o.st))
                    else:
                        res.append(Out("raise", o.st, GenExit(o)))
                return res
            outs = self.run_gen(v, st, on_yield, node)
            return [Out("exhaust", o.st) if o.kind == "normal" else o for o in outs]
        if isinstance(v, GenExprV):
            return self.iterate_comp(v.node, st, body, v.fid)
        out = []
        for x, it in self.lib.make_iter(self, v, st, node, fid):
            if isinstance(it, Exc):
                out.append(Out("raise", x, it.v))
                continue
            out += self.loop(x, lambda y, it=it: self.lib.it_next(self, it, y, node, fid), body, node, fid,
                             lambda y, it=it: self.lib.it_exact(self, it, y), it)
        return out

    def iterate_comp(self, node, st, body, fid):
        """iterate the values of a comprehension/generator expression lazily"""
        gens = node.generators

        def level(i, x):
            if i == len(gens):
                out = []
                for y, v in self.eval(node.elt, x, fid):
                    if isinstance(v, Exc):
                        out.append(Out("raise", y, v.v))
                    else:
                        out += body(y, v)
                return out
            g = gens[i]
            out = []
            for y, itv in self.eval(g.iter, x, fid):
                if isinstance(itv, Exc):
                    out.append(Out("raise", y, itv.v))
                    continue

                def inner(z, val):
                    res = []
                    for w, e in self.assign(g.target, val, z, fid):
                        if e is not None:
                            res.append(Out("raise", w, e.v))
                            continue
                        cur = [(w, True)]
                        for c in g.ifs:
                            nx = []
                            for q, ok in cur:
                                if not ok:
                                    nx.append((q, ok))
                                    continue
                                for q2, cv in self.eval(c, q, fid):
                                    if isinstance(cv, Exc):
                                        res.append(Out("raise", q2, cv.v))
                                        continue
                                    nx += self.branch(q2, self.truth(cv, q2))
                            cur = nx
                        for q, ok in cur:
                            if not ok:
                                res.append(Out("normal", q))
                            else:
                                for o in level(i + 1, q):
                                    res.append(Out("normal", o.st) if o.kind == "exhaust" else o)
                    return res
                for o in self.iterate(itv, y, inner, node, fid):
                    out.append(o)
            return out

        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: st.frames[fid].get(n) for n in names} if fid in st.frames else {}
        outs = level(0, st)
        res = []
        for o in outs:
            if fid in o.st.frames and saved:
                y = o.st.copy()
                env = dict(y.frames[fid])
                for n, v in saved.items():
                    if v is None:
                        env.pop(n, None)
                    else:
                        env[n] = v
                y.frames[fid] = env
                res.append(Out(o.kind, y, o.val))
            else:
                res.append(o)
        return res

    def loop(self, st, nxt, body, node, fid, exact, it=None):
        outs = []
        work = [st]
        sym = []
        guard = 0
        while work:
            x = work.pop()
            guard += 1
            if guard > 3000:
                raise Budget("loop unrolling")
            if not exact(x):
                sym.append(x)
                continue
            for y, v in nxt(x):
                if v is STOP:
                    outs.append(Out("exhaust", y))
                elif isinstance(v, Exc):
                    outs.append(Out("raise", y, v.v))
                else:
                    for o in body(y, v):
                        if o.kind in ("normal", "continue"):
                            work.append(o.st)
                        else:
                            outs.append(o)
        for x in sym:
            if self.cfg.mode == "peel":
                outs += self.loop_peel(x, nxt, body, node, fid, it)
            else:
                outs += self.loop_fix(x, nxt, body, node, fid, it)
        return outs

    def backedge(self, st, node, fid):
        if self.cfg.on_backedge is None:
            return [st]
        r = self.cfg.on_backedge(self, st, node, fid)
        return [st] if r is None else r

    def loop_peel(self, st, nxt, body, node, fid, it=None):
        outs = []
        work = [st]
        self.loops += 1
        free = 200
        while work:
            x = work.pop()
            nx = nxt(x)
            # an iteration over something whose length is already settled costs nothing
            known = (it is not None or self.cfg.free_while) and free > 0 and not any(v is STOP for _, v in nx)
            free -= known
            for y, v in nx:
                if v is STOP:
                    outs.append(Out("exhaust", y))
                    continue
                if isinstance(v, Exc):
                    outs.append(Out("raise", y, v.v))
                    continue
                if not known:
                    if y.budget <= 0:
                        self.dropped += 1
                        continue
                    y = y.copy()
                    y.budget -= 1
                for o in body(y, v):
                    if o.kind in ("normal", "continue"):
                        work += self.backedge(o.st, node, fid)
                    else:
                        outs.append(o)
            if len(outs) + len(work) > self.cfg.max_states:
                raise Budget("peel states")
        return outs

    def gkey(self, st):
        return tuple(st.ghost.get(k) for k in self.cfg.ghost_keys)

    def live_at(self, node, fid):
        """names of the frame that matter at this loop head (None: all)"""
        fn = self.finfo[fid][0]
        if not isinstance(fn, Func) or not isinstance(node, (ast.For, ast.While)):
            return None
        lv = self.loadcache.get(("live", fn))
        if lv is None:
            from .live import Live
            lv = Live(fn.node)
            self.loadcache[("live", fn)] = lv
        h = lv.heads.get(node)
        return None if h is None else h | lv.always

    def prune(self, st, node, fid):
        live = self.live_at(node, fid)
        env = st.frames.get(fid)
        if live is None or env is None:
            return st
        keep = {k: v for k, v in env.items() if k in live or k.startswith("__")}
        if len(keep) == len(env):
            return st
        s = st.copy()
        s.frames[fid] = keep
        return s

    def shape(self, st, names, fid):
        """coarse kind of each loop variable: trace partitioning key"""
        env = st.frames.get(fid) or {}
        out = []
        for n in names:
            v = env.get(n)
            if v is None:
                out.append("-")
            elif isinstance(v, Const) and (v.v is None or isinstance(v.v, bool)):
                out.append(repr(v.v))
            elif isinstance(v, Sym) and v.term.op == "enum":
                out.append(v.term.uid)
            elif isinstance(v, BoolV):
                out.append("B")
            else:
                out.append(type(v).__name__)
        return tuple(out)

    def loop_fix(self, st, nxt, body, node, fid, it):
        from .joins import Joiner, same_state
        self.loops += 1
        Term.clock += 1
        mark = Term.clock - 1
        lkey = Term.clock
        names = sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        coarse = False
        st = self.prune(st, node, fid)

        def key(x):
            if coarse == 2:
                return (self.gkey(x), ())
            return (self.gkey(x), self.shape(x, names if not coarse else [], fid))
        heads = {key(st): st}
        entry = st
        final = None
        rnd = 0
        while rnd < 14:
            saved_obs = self.obs
            self.obs = []
            outs = []
            nbacks = {}
            nback_all = []
            for k, h in list(heads.items()):
                for y, v in nxt(h):
                    if v is STOP:
                        outs.append(Out("exhaust", y))
                    elif isinstance(v, Exc):
                        outs.append(Out("raise", y, v.v))
                    else:
                        for o in body(y, v):
                            if o.kind in ("normal", "continue"):
                                for z in self.backedge(o.st, node, fid):
                                    z = self.prune(z, node, fid)
                                    nbacks.setdefault(key(z), []).append(z)
                                    nback_all.append(z)
                            else:
                                outs.append(o)
            if not coarse and len(set(heads) | set(nbacks)) > 10:
                coarse = True
                heads = {key(entry): entry}
                rnd = 0
                self.obs = saved_obs
                continue
            newheads = {}
            stable = True
            for k in list(heads) + [q for q in nbacks if q not in heads]:
                group = ([entry] if key(entry) == k else []) + list(nbacks.get(k, ()))
                if not group:
                    continue
                if len(group) == 1 and group[0] is entry:
                    newheads[k] = entry
                    if heads.get(k) is not entry:
                        stable = False
                    continue
                J = Joiner(self, group, mark, (lkey, k), node, self.finfo[fid][0], rnd,
                           prev=heads.get(k) if rnd else None)
                h2 = J.run()
                newheads[k] = h2
                if k not in heads or not same_state(heads[k], h2):
                    stable = False
            if not nbacks:
                stable = True
            if stable:
                mine = self.obs
                self.obs = saved_obs
                self.obs += mine
                final = outs
                if it is not None:
                    final = self.universals(final, nback_all, heads, it, node)
                break
            self.obs = saved_obs
            self.unstable = (heads, newheads)
            heads = newheads
            rnd += 1
        if final is None:
            raise Budget(f"loop at {self.loc(node, fid)} did not stabilise")
        return final

    def universals(self, outs, backs, heads, it, node):
        """facts that hold for every element passed, attached to the exhausted exits"""
        src = self.lib.it_source(self, it, list(heads.values())[0]) if heads else None
        if src is None or not backs:
            return outs
        srcs = src
        res = []
        foralls = []
        for (L, pos) in srcs:
            p = pos.single()
            if p is None:
                continue
            dim, off = p
            cands = None
            for b in backs:
                fs = set()
                for t, v in b.facts.items():
                    if mentions(t, dim):
                        n = tsubst(t, {dim: Lin(-off, {HOLE: 1})})
                        fs.add((n, v))
                cands = fs if cands is None else (cands & fs)
            base_age = min((h.store and L.age) for h in heads.values())
            for (t, v) in cands or ():
                if t.age <= max(L.age, 0) or t.age <= lin(dim).age - 1:
                    foralls.append((L, ("fact", t, v)))
            # linear facts
            lc = None
            for b in backs:
                cs = set()
                for k, e in b.store.eq.items():
                    cs.add(("eq", lin(k) - e))
                for g in b.store.ge:
                    cs.add(("ge", g))
                if lc is None:
                    lc = {c for c in cs if any(mentions(d, dim) and d is not dim for d in c[1].t)}
                else:
                    lc = {c for c in lc if (b.store.entails_eq(c[1]) if c[0] == "eq" else b.store.entails_ge(c[1]))}
            for c in lc or ():
                n = lsubst(c[1], {dim: Lin(-off, {HOLE: 1})})
                if n.age <= lin(dim).age - 1:
                    foralls.append((L, (c[0], n)))
        if not foralls:
            return outs
        for o in outs:
            if o.kind == "exhaust":
                y = o.st.copy()
                y.forall = y.forall + tuple(f for f in foralls if f not in y.forall)
                res.append(Out(o.kind, y, o.val))
            else:
                res.append(o)
        return res

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st, fid):
        self.steps += 1
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.imprecise.append(f"{self.loc(e, fid)}: unsupported expression {type(e).__name__}")
            return [(st, Sym(fresh(type(e).__name__)))]
        return m(e, st, fid)

    def eval_many(self, es, st, fid):
        """-> list of (st, [values] | Exc)"""
        cur = [(st, [])]
        done = []
        for e in es:
            nxt = []
            for s, vs in cur:
                if e is None:
                    nxt.append((s, vs + [None]))
                    continue
                for s2, v in self.eval(e, s, fid):
                    if isinstance(v, Exc):
                        done.append((s2, v))
                    else:
                        nxt.append((s2, vs + [v]))
            cur = nxt
        return done + cur

    def e_Constant(self, e, st, fid):
        v = e.value
        if isinstance(v, bool) or v is None or v is Ellipsis:
            return [(st, Const(v))]
        if isinstance(v, int):
            return [(st, Num(v))]
        if isinstance(v, str):
            return [(st, S(v))]
        return [(st, Const(v))]

    def e_Name(self, e, st, fid):
        return self.lookup(e.id, st, fid)

    def lookup(self, name, st, fid):
        f = fid
        while f is not None:
            env = st.frames.get(f)
            if env is not None and name in env:
                return [(st, env[name])]
            info = self.finfo.get(f)
            f = info[1] if info else None
        fn = self.finfo[fid][0]
        mod = fn.mod if isinstance(fn, Func) else fn
        return self.global_value(mod, name, st)

    def global_value(self, mod, name, st):
        if (mod.name, name) in st.cells:
            return [(st, st.cells[(mod.name, name)])]
        b = self.prog.lookup(mod, name)
        if b is None:
            if name == "__name__":
                return [(st, S(mod.name))]
            if name == "__file__":
                return [(st, Sym(Term("ext", "__file__:" + mod.name)))]
            if hasattr(_bi, name):
                return [(st, ExtV("builtins." + name))]
            # assigned somewhere in the module via global / augmented
            return [(st, Sym(Term("glob", mod.name, name)))]
        st, v = self.binding_value(b, st, mod, name)
        return [(st, v)]

    def binding_value(self, b, st, mod, name):
        if b[0] == "func":
            return st, FuncV(b[1])
        if b[0] == "cls":
            return st, ClsV(b[1])
        if b[0] == "mod":
            return st, ModV(b[1])
        if b[0] == "ext":
            return st, ExtV(b[1])
        if b[0] == "const":
            expr, m = b[1], b[2]
            # the defining name may differ under import aliasing: cache per expression
            key = ("constcache", id(expr))
            if key in st.cells:
                return st, st.cells[key]
            memo = self.__dict__.setdefault("const_memo", {})
            if key in memo:
                v, objs, cells = memo[key]
                s = st.copy()
                for i, o in objs.items():
                    s.heap.setdefault(i, o)
                for c, x in cells.items():
                    s.cells.setdefault(c, x)
                s.cells[key] = v
                return s, v
            fr = self.module_frame(m)
            rs = self.eval(expr, st, fr)
            s, v = rs[0]
            if isinstance(v, Exc) or len(rs) > 1:
                v = Sym(Term("glob", m.name, name))
                s = st
            s = s.copy()
            s.cells[key] = v
            memo[key] = (v, {i: o for i, o in s.heap.items() if i not in st.heap},
                         {c: x for c, x in s.cells.items() if c not in st.cells and c[0] == "constcache"})
            return s, v
        if b[0] == "constidx":
            return st, Sym(Term("glob", b[3].name, name))
        return st, Sym(Term("glob", mod.name, name))

    def e_Attribute(self, e, st, fid):
        out = []
        for s, o in self.eval(e.value, st, fid):
            if isinstance(o, Exc):
                out.append((s, o))
                continue
            out += self.getattr(o, e.attr, s, e, fid)
        return out

    def getattr(self, o, name, st, node, fid):
        if isinstance(o, ModV):
            return self.global_value(o.mod, name, st)
        if isinstance(o, ExtV):
            q = o.q + "." + name
            if ("ext", q) in st.cells:
                return [(st, st.cells[("ext", q)])]
            c = self.lib.EXTCONST.get(q)
            if c is not None:
                return [(st, c)]
            return [(st, ExtV(q))]
        if isinstance(o, ClsV):
            cls = o.cls
            if any(isinstance(b, str) and b.startswith("enum.") for c in self.prog.mro(cls) for b in c.bases):
                if isinstance(cls.attrs.get(name), ast.expr):
                    return [(st, Sym(Term("enum", cls.qual, name)))]
            a = self.prog.class_attr(cls, name)
            if isinstance(a, Func):
                return [(st, FuncV(a))]
            if isinstance(a, ast.expr):
                key = (cls.qual, name)
                if key in st.cells:
                    return [(st, st.cells[key])]
                return [r for r in self.eval(a, st, self.module_frame(cls.mod))][:1]
            if name == "__name__":
                return [(st, S(cls.name))]
            return [(st, Sym(Term("attr", Term("cls", cls.qual), name)))]
        if isinstance(o, Ref):
            ob = st.heap.get(o.id)
            if isinstance(ob, IObj):
                if name in ob.fields:
                    return [(st, ob.fields[name])]
                if name == "__class__":
                    return [(st, ClsV(ob.cls))]
                a = self.prog.class_attr(ob.cls, name)
                if isinstance(a, Func):
                    d = self.decorators(a)
                    if "property" in d:
                        return self.call_func(a, [o], {}, st, node, fid)
                    if "staticmethod" in d:
                        return [(st, FuncV(a))]
                    if "classmethod" in d:
                        return [(st, Bound(FuncV(a), ClsV(ob.cls)))]
                    return [(st, Bound(FuncV(a), o))]
                if isinstance(a, ast.expr):
                    return [r for r in self.eval(a, st, self.module_frame(ob.cls.mod))][:1]
                return [(st, Meth(o, name))]
            return [(st, Meth(o, name))]
        if isinstance(o, ExcV):
            if name == "args":
                return [(st, Sym(Term("attr", self.term(o, st), "args")))]
            return [(st, Sym(Term("attr", self.term(o, st), name)))]
        if isinstance(o, (Seq, Tup, RegexV, MatchV, Num, BoolV)):
            return [(st, Meth(o, name))]
        if isinstance(o, Const):
            if o.v is None:
                return [(st, Exc(ExcV("builtins.AttributeError", origin=self.loc(node, fid))))]
            return [(st, Meth(o, name))]
        if isinstance(o, FuncV):
            return [(st, Sym(Term("attr", Term("fn", o.fn.qual), name)))]
        t = self.term(o, st)
        if (t, name) in st.attrs:
            return [(st, st.attrs[(t, name)])]
        h = self.cfg.__dict__.get("attr_hook")
        if h is not None:
            r = h(self, st, t, name)
            if r is not None:
                return r
        if name in self.lib.METHOD_NAMES or self.is_call_target(node):
            return [(st, Meth(o, name))]
        a = Term("attr", t, name)
        st, v = self.value_of(a, st)
        return [(st, v)]

    def is_call_target(self, node):
        return getattr(node, "_call_target", False)

    def e_Call(self, e, st, fid):
        if isinstance(e.func, ast.Attribute):
            e.func._call_target = True
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and \
                isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            return self.call_super(e, st, fid)
        out = []
        for s, f in self.eval(e.func, st, fid):
            if isinstance(f, Exc):
                out.append((s, f))
                continue
            sp = self.lib.special_call(self, f, e, s, fid)
            if sp is not None:
                out += sp
                continue
            for s2, args, kw in self.eval_args(e, s, fid):
                if isinstance(args, Exc):
                    out.append((s2, args))
                    continue
                out += self.call(f, args, kw, s2, e, fid)
        if len(out) > self.cfg.max_states:
            raise Budget("states at call")
        return out

    def call_super(self, e, st, fid):
        fn = self.finfo[fid][0]
        out = []
        for s2, args, kw in self.eval_args(e, st, fid):
            if isinstance(args, Exc):
                out.append((s2, args))
                continue
            a = None
            if isinstance(fn, Func) and fn.cls is not None:
                for b in fn.cls.bases:
                    if isinstance(b, Cls):
                        a = self.prog.class_attr(b, e.func.attr)
                        if a is not None:
                            break
            if isinstance(a, Func):
                selfname = fn.node.args.args[0].arg
                out += self.call_func(a, [s2.frames[fid][selfname]] + args, kw, s2, e, fid)
            else:
                out.append((s2, NONE))
        return out

    def eval_args(self, e, st, fid):
        """-> list of (st, args|Exc, kw)"""
        exprs = []
        spec = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                exprs.append(a.value)
                spec.append("*")
            else:
                exprs.append(a)
                spec.append("p")
        for k in e.keywords:
            exprs.append(k.value)
            spec.append(("k", k.arg))
        out = []
        for s, vals in self.eval_many(exprs, st, fid):
            if isinstance(vals, Exc):
                out.append((s, vals, None))
                continue
            args, kw = [], {}
            for sp, v in zip(spec, vals):
                if sp == "p":
                    args.append(v)
                elif sp == "*":
                    if isinstance(v, Tup):
                        args += list(v.items)
                    elif isinstance(v, Ref) and isinstance(s.heap.get(v.id), LObj) and \
                            all(isinstance(p, Item) for p in s.heap[v.id].seq.p):
                        args += [p.v for p in s.heap[v.id].seq.p]
                    else:
                        args.append(Sym(Term("star", self.term(v, s))))
                elif sp[1] is None:
                    o = s.heap.get(v.id) if isinstance(v, Ref) else None
                    if isinstance(o, DObj) and o.items is not None:
                        for kk, vv in o.items:
                            if isinstance(kk, Seq) and kk.const is not None:
                                kw[kk.const] = vv
                    else:
                        kw["**"] = v
                else:
                    kw[sp[1]] = v
            out.append((s, args, kw))
        return out

    def e_IfExp(self, e, st, fid):
        out = []
        for s, v in self.eval(e.test, st, fid):
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            for s2, b in self.branch(s, self.truth(v, s)):
                out += self.eval(e.body if b else e.orelse, s2, fid)
        return out

    def e_BoolOp(self, e, st, fid):
        isand = isinstance(e.op, ast.And)
        out = []
        cur = [(st, None)]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for s, _ in cur:
                for s2, v in self.eval(x, s, fid):
                    if isinstance(v, Exc):
                        out.append((s2, v))
                        continue
                    if last:
                        out.append((s2, v))
                        continue
                    for s3, b in self.branch(s2, self.truth(v, s2)):
                        if b == isand:
                            nxt.append((s3, None))
                        else:
                            # value is v, whose truth is now known
                            out.append((s3, Const(b) if isinstance(v, BoolV) else v))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fid):
        out = []
        for s, v in self.eval(e.operand, st, fid):
            if isinstance(v, Exc):
                out.append((s, v))
            elif isinstance(e.op, ast.Not):
                f = f_not(self.truth(v, s))
                out.append((s, TRUE if f == T_ else FALSE if f == F_ else BoolV(f)))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, Num):
                    out.append((s, Num(-v.lin)))
                elif isinstance(v, Const) and isinstance(v.v, (int, float)):
                    out.append((s, Const(-v.v)))
                else:
                    out.append((s, Sym(Term("neg", self.term(v, s)))))
            else:
                if isinstance(e.op, ast.UAdd):
                    out.append((s, v))
                else:
                    out.append((s, Sym(Term("inv", self.term(v, s)))))
        return out

    def e_BinOp(self, e, st, fid):
        out = []
        for s, vals in self.eval_many([e.left, e.right], st, fid):
            if isinstance(vals, Exc):
                out.append((s, vals))
                continue
            out += self.binop(e.op, vals[0], vals[1], s, e, fid)
        return out

    def binop(self, op, a, b, st, node, fid):
        return self.lib.binop(self, op, a, b, st, node, fid)

    def e_Compare(self, e, st, fid):
        out = []
        for s, vals in self.eval_many([e.left] + e.comparators, st, fid):
            if isinstance(vals, Exc):
                out.append((s, vals))
                continue
            fs = []
            for op, a, b in zip(e.ops, vals, vals[1:]):
                fs.append(self.lib.compare(self, op, a, b, s, e, fid))
            f = f_and(*fs)
            out.append((s, TRUE if f == T_ else FALSE if f == F_ else BoolV(f)))
        return out

    def e_Tuple(self, e, st, fid):
        out = []
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, st, fid)
        for s, vals in self.eval_many(e.elts, st, fid):
            out.append((s, vals) if isinstance(vals, Exc) else (s, Tup(vals)))
        return out

    def e_List(self, e, st, fid):
        out = []
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for s, vals in self.eval_many(exprs, st, fid):
            if isinstance(vals, Exc):
                out.append((s, vals))
                continue
            pieces = []
            cur = [(s, ())]
            for x, v in zip(e.elts, vals):
                nx = []
                for s2, ps in cur:
                    if isinstance(x, ast.Starred):
                        for s3, r in self.lib.to_list(self, v, s2, e, fid):
                            if isinstance(r, Exc):
                                out.append((s3, r))
                            else:
                                nx.append((s3, ps + s3.heap[r.id].seq.p))
                    else:
                        nx.append((s2, ps + (Item(v, self.item_flags(v, s2)),)))
                cur = nx
            for s2, ps in cur:
                out.append(self.new_list(s2, ps))
        return out

    def item_flags(self, v, st):
        if self.cfg.on_item is None:
            return frozenset()
        return self.cfg.on_item(self, st, v) or frozenset()

    def e_Set(self, e, st, fid):
        out = []
        for s, vals in self.eval_many(e.elts, st, fid):
            if isinstance(vals, Exc):
                out.append((s, vals))
            else:
                out.append(self.alloc(s, DObj(tuple((v, TRUE) for v in vals), "set")))
        return out

    def e_Dict(self, e, st, fid):
        out = []
        for s, vals in self.eval_many(list(e.keys) + list(e.values), st, fid):
            if isinstance(vals, Exc):
                out.append((s, vals))
                continue
            n = len(e.keys)
            items = []
            exact = True
            for k, v in zip(vals[:n], vals[n:]):
                if k is None:
                    o = s.heap.get(v.id) if isinstance(v, Ref) else None
                    if isinstance(o, DObj) and o.items is not None:
                        items += list(o.items)
                    else:
                        exact = False
                else:
                    items.append((k, v))
            out.append(self.alloc(s, DObj(tuple(items) if exact else None, "dict", Term("dict", id(e)))))
        return out

    def e_JoinedStr(self, e, st, fid):
        return self.lib.fstring(self, e, st, fid)

    def e_FormattedValue(self, e, st, fid):
        return self.lib.fstring(self, ast.JoinedStr(values=[e]), st, fid)

    def e_Subscript(self, e, st, fid):
        out = []
        for s, vals in self.eval_many([e.value, e.slice], st, fid):
            if isinstance(vals, Exc):
                out.append((s, vals))
                continue
            out += self.lib.getitem(self, vals[0], vals[1], s, e, fid)
        return out

    def e_Slice(self, e, st, fid):
        out = []
        for s, vals in self.eval_many([e.lower, e.upper, e.step], st, fid):
            out.append((s, vals) if isinstance(vals, Exc) else (s, SliceV(*vals)))
        return out

    def e_Starred(self, e, st, fid):
        return self.eval(e.value, st, fid)

    def e_Lambda(self, e, st, fid):
        fn = self.loadcache.get(("lambda", e))
        if fn is None:
            parent = self.finfo[fid][0]
            mod = parent.mod if isinstance(parent, Func) else parent
            fn = Func(mod, e, f"{parent.qual if isinstance(parent, Func) else mod.name}.<lambda>@{e.lineno}:{e.col_offset}")
            self.loadcache[("lambda", e)] = fn
        return [(st, FuncV(fn, fid))]

    def e_ListComp(self, e, st, fid):
        return self.lib.list_comp(self, e, st, fid)

    def e_SetComp(self, e, st, fid):
        out = []
        for s, v in self.lib.list_comp(self, e, st, fid):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                out.append(self.alloc(s, DObj(None, "set", Term("setof", self.term(v, s)))))
        return out

    def e_GeneratorExp(self, e, st, fid):
        return [(st, GenExprV(e, fid))]

    def e_DictComp(self, e, st, fid):
        t = Term("dictcomp", id(e), *[self.term(v, st) for n, v in sorted(st.frames.get(fid, {}).items())
                                      if n in names_loaded(e)])
        # evaluate element expressions for their effects
        return [self.alloc(st, DObj(None, "dict", t))]

    def e_NamedExpr(self, e, st, fid):
        out = []
        for s, v in self.eval(e.value, st, fid):
            if isinstance(v, Exc):
                out.append((s, v))
            else:
                for s2, ex in self.assign(e.target, v, s, fid):
                    out.append((s2, ex if ex is not None else v))
        return out

    def e_Yield(self, e, st, fid):
        h = self.yields.get(fid)
        out = []
        vals = self.eval(e.value, st, fid) if e.value is not None else [(st, NONE)]
        for s, v in vals:
            if isinstance(v, Exc):
                out.append((s, v))
                continue
            if h is None:
                out.append((s, NONE))
                continue
            for o in h(s, v):
                if o.kind == "normal":
                    out.append((o.st, NONE))
                elif o.kind == "raise":
                    out.append((o.st, Exc(o.val)))
        return out

    def e_YieldFrom(self, e, st, fid):
        h = self.yields.get(fid)
        out = []
        for s, v in self.eval(e.value, st, fid):
            if isinstance(v, Exc):
                out.append((s, v))
                continue

            def body(x, val):
                return h(x, val) if h else [Out("normal", x)]
            for o in self.iterate(v, s, body, e, fid):
                if o.kind == "exhaust":
                    out.append((o.st, NONE))
                elif o.kind == "raise":
                    out.append((o.st, Exc(o.val)))
        return out

    def e_Await(self, e, st, fid):
        return self.eval(e.value, st, fid)


class SliceV(V):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __eq__(self, o):
        return isinstance(o, SliceV) and (o.lo, o.hi, o.step) == (self.lo, self.hi, self.step)

    def __hash__(self):
        return hash(("SliceV", self.lo, self.hi))


def names_loaded(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def _as_load(t):
    import copy
    n = copy.copy(t)
    n.ctx = ast.Load()
    return n


_MENTIONS = {}


def mentions(x, dim):
    if x is dim:
        return True
    if isinstance(x, Term):
        if x.age < dim.age:
            return False
        # terms share their parts: every one is looked at once
        r = _MENTIONS.get((x.uid, dim.uid))
        if r is None:
            if len(_MENTIONS) > 2000000:
                _MENTIONS.clear()
            r = _MENTIONS[(x.uid, dim.uid)] = any(mentions(a, dim) for a in x.args)
        return r
    if isinstance(x, Lin):
        return any(mentions(k, dim) for k in x.t)
    if isinstance(x, (tuple, frozenset)):
        return any(mentions(a, dim) for a in x)
    if isinstance(x, Seq):
        return any(mentions(p, dim) for p in x.p)
    if isinstance(x, Sl):
        return mentions(x.src, dim) or mentions(x.lo, dim) or mentions(x.hi, dim)
    if isinstance(x, (Item,)):
        return mentions(x.v, dim)
    if isinstance(x, Num):
        return mentions(x.lin, dim)
    if isinstance(x, Sym):
        return mentions(x.term, dim)
    if isinstance(x, Rep):
        return mentions(x.v, dim) or mentions(x.n, dim)
    if isinstance(x, Join):
        return mentions(x.sep, dim) or mentions(x.seq, dim)
    if isinstance(x, Wrapd):
        return mentions(x.seq, dim) or mentions(x.tag, dim)
    if isinstance(x, Tup):
        return mentions(x.items, dim)
    if isinstance(x, BoolV):
        return mentions(x.f, dim)
    if isinstance(x, MatchV):
        return mentions(x.term, dim) or mentions(x.seq, dim)
    if isinstance(x, Img):
        return any(mentions(v, dim) for v in x.views) or mentions(x.n, dim)
    if isinstance(x, Ext):
        return mentions(x.pieces, dim)
    return False


class Sub(dict):
    """a substitution and what it made of the terms met so far"""

    def __init__(self, m):
        super().__init__(m)
        self.memo = {}


def tsubst(t, m):
    """substitute dims (Term -> Lin) inside a term"""
    if not any(t.age >= d.age for d in m):
        return t
    if type(m) is not Sub:
        m = Sub(m)
    r = m.memo.get(t)
    if r is None:
        r = m.memo[t] = tsubst1(t, m)
    return r


def tsubst1(t, m):
    args = [gsubst(a, m) for a in t.args]
    if all(a is b or a == b for a, b in zip(args, t.args)):
        return t
    n = Term(t.op, *args)
    if n.sort is None:
        n.sort = t.sort
    return n


def lsubst(l, m):
    if not any(l.age >= d.age for d in m):
        return l
    if type(m) is not Sub:
        m = Sub(m)
    out = Lin(l.c)
    for k, v in l.t.items():
        if k in m:
            out = out + m[k] * v
        else:
            k2 = tsubst(k, m)
            out = out + Lin(0, {k2: 1}) * v
    return out


def gsubst(x, m):
    if type(m) is not Sub:
        m = Sub(m)
    if isinstance(x, Term):
        if x in m:
            l = m[x]
            s = l.single()
            if s and s[1] == 0:
                return s[0]
            return Term("int", l)
        return tsubst(x, m)
    if isinstance(x, Lin):
        return lsubst(x, m)
    if isinstance(x, tuple):
        return tuple(gsubst(a, m) for a in x)
    if isinstance(x, frozenset):
        return frozenset(gsubst(a, m) for a in x)
    if isinstance(x, Seq):
        return Seq(x.kind, [gsubst(p, m) for p in x.p])
    if isinstance(x, Sl):
        return Sl(tsubst(x.src, m), lsubst(x.lo, m), lsubst(x.hi, m))
    if isinstance(x, Item):
        return Item(gsubst(x.v, m), x.flags)
    if isinstance(x, Ext):
        return Ext([gsubst(p, m) for p in x.pieces], x.flags)
    if isinstance(x, Rep):
        return Rep(gsubst(x.v, m), lsubst(x.n, m))
    if isinstance(x, Join):
        return Join(gsubst(x.sep, m), gsubst(x.seq, m))
    if isinstance(x, Wrapd):
        return Wrapd(gsubst(x.seq, m), gsubst(x.tag, m))
    if isinstance(x, Img):
        return Img([(tsubst(s, m), lsubst(a, m), lsubst(b, m), md) for s, a, b, md in x.views],
                   lsubst(x.n, m), x.tmpl, x.flags, gsubst(x.uid, m))
    if isinstance(x, Num):
        return Num(lsubst(x.lin, m))
    if isinstance(x, Sym):
        return Sym(tsubst(x.term, m))
    if isinstance(x, Tup):
        return Tup([gsubst(a, m) for a in x.items])
    if isinstance(x, BoolV):
        return BoolV(gsubst(x.f, m))
    if isinstance(x, MatchV):
        return MatchV(tsubst(x.term, m), gsubst(x.seq, m), x.rx)
    if isinstance(x, Bound):
        return Bound(gsubst(x.fn, m), gsubst(x.self_, m))
    if isinstance(x, Meth):
        return Meth(gsubst(x.obj, m), x.name)
    return x
