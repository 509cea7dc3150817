"""Abstract values, heap objects, states."""
from .terms import Term, Lin, lin, ZERO, ONE, Store, Contradiction, fresh, age_of


class V:
    __slots__ = ()


class Const(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and (o.v == self.v or o.v is self.v)

    def __hash__(self):
        return hash(("Const", repr(self.v)))

    def __repr__(self):
        return f"{self.v!r}"


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Num(V):
    __slots__ = ("lin",)

    def __init__(self, l):
        self.lin = lin(l)

    def __eq__(self, o):
        return isinstance(o, Num) and o.lin == self.lin

    def __hash__(self):
        return hash(("Num", self.lin))

    @property
    def age(self):
        return self.lin.age

    def __repr__(self):
        return f"{self.lin!r}"


# ---- sequence pieces --------------------------------------------------------

class P:
    __slots__ = ()
    age = 0


class Lit(P):
    """literal text piece"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Lit) and o.s == self.s

    def __hash__(self):
        return hash(("Lit", self.s))

    def __repr__(self):
        return repr(self.s)

    @property
    def length(self):
        return Lin(len(self.s))


class Item(P):
    """one list element"""
    __slots__ = ("v", "flags")

    def __init__(self, v, flags=frozenset()):
        self.v = v
        self.flags = flags

    def __eq__(self, o):
        return isinstance(o, Item) and o.v == self.v and o.flags == self.flags

    def __hash__(self):
        return hash(("Item", self.v))

    @property
    def age(self):
        return age_of(self.v)

    def __repr__(self):
        return f"<{self.v!r}>"

    length = ONE


class Ext(P):
    """extends the last element of the list with more text / elements (length 0)"""
    __slots__ = ("pieces", "flags")

    def __init__(self, pieces, flags=frozenset()):
        self.pieces = tuple(pieces)
        self.flags = flags

    def __eq__(self, o):
        return isinstance(o, Ext) and o.pieces == self.pieces and o.flags == self.flags

    def __hash__(self):
        return hash(("Ext", self.pieces))

    @property
    def age(self):
        return age_of(self.pieces)

    def __repr__(self):
        return f"+=({self.pieces!r})"

    length = ZERO


class Sl(P):
    """slice [lo,hi) of a source sequence term"""
    __slots__ = ("src", "lo", "hi")

    def __init__(self, src, lo, hi):
        self.src = src
        self.lo = lin(lo)
        self.hi = lin(hi)

    def __eq__(self, o):
        return isinstance(o, Sl) and o.src is self.src and o.lo == self.lo and o.hi == self.hi

    def __hash__(self):
        return hash(("Sl", self.src.uid, self.lo, self.hi))

    @property
    def age(self):
        return max(self.src.age, self.lo.age, self.hi.age)

    def __repr__(self):
        if self.lo == ZERO and self.hi == length_of(self.src):
            return f"{self.src!r}[:]"
        return f"{self.src!r}[{self.lo!r}:{self.hi!r}]"

    @property
    def length(self):
        return self.hi - self.lo


class Rep(P):
    """text repeated n times (text is a Seq of length 1 in practice)"""
    __slots__ = ("v", "n")

    def __init__(self, v, n):
        self.v = v
        self.n = lin(n)

    def __eq__(self, o):
        return isinstance(o, Rep) and o.v == self.v and o.n == self.n

    def __hash__(self):
        return hash(("Rep", self.v, self.n))

    @property
    def age(self):
        return max(age_of(self.v), self.n.age)

    def __repr__(self):
        return f"({self.v!r}*{self.n!r})"

    @property
    def length(self):
        k = seq_len(self.v).const
        if k is not None:
            return self.n * k
        return Lin(0, {nat("len", Term("rep", self.v, self.n)): 1})


class Img(P):
    """summary of an unbounded run of elements/characters.

    views: frozenset of (src, lo, hi, mode): the run reproduces src[lo:hi] up to mode
    n: number of elements;  tmpl: None or (hole dim, value): element k is value[hole:=k]
    flags: facts that hold for each element"""
    __slots__ = ("views", "n", "tmpl", "flags", "uid")

    def __init__(self, views, n, tmpl=None, flags=frozenset(), uid=None):
        self.views = frozenset(views)
        self.n = lin(n)
        self.tmpl = tmpl
        self.flags = flags
        self.uid = uid

    def __eq__(self, o):
        return (isinstance(o, Img) and o.views == self.views and o.n == self.n
                and o.tmpl == self.tmpl and o.flags == self.flags and o.uid == self.uid)

    def __hash__(self):
        return hash(("Img", self.views, self.n, self.uid))

    @property
    def age(self):
        m = self.n.age
        for v in self.views:
            m = max(m, v[0].age, v[1].age, v[2].age)
        if self.uid is not None:
            m = max(m, age_of(self.uid))
        return m

    def __repr__(self):
        return f"Img(n={self.n!r}, {', '.join(f'{s!r}[{a!r}:{b!r}]/{m}' for s, a, b, m in self.views)}{', tmpl ' + repr(self.tmpl) if self.tmpl else ''}{', ' + repr(set(self.flags)) if self.flags else ''})"

    @property
    def length(self):
        return self.n


class Join(P):
    """sep.join(list)"""
    __slots__ = ("sep", "seq")

    def __init__(self, sep, seq):
        self.sep = sep
        self.seq = seq

    def __eq__(self, o):
        return isinstance(o, Join) and o.sep == self.sep and o.seq == self.seq

    def __hash__(self):
        return hash(("Join", self.sep, self.seq))

    @property
    def age(self):
        return max(age_of(self.sep), age_of(self.seq))

    def __repr__(self):
        return f"join({self.sep!r}, {self.seq!r})"

    @property
    def length(self):
        return Lin(0, {nat("len", Term("join", self.sep, self.seq)): 1})


class Wrapd(P):
    """opaque text that reproduces the given text up to whitespace (contract of a wrapping function)"""
    __slots__ = ("seq", "tag")

    def __init__(self, seq, tag):
        self.seq = seq
        self.tag = tag

    def __eq__(self, o):
        return isinstance(o, Wrapd) and o.seq == self.seq and o.tag == self.tag

    def __hash__(self):
        return hash(("Wrapd", self.seq, self.tag))

    @property
    def age(self):
        return max(age_of(self.seq), age_of(self.tag))

    def __repr__(self):
        return f"wrapped({self.seq!r})"

    @property
    def length(self):
        return Lin(0, {nat("len", Term("wrapped", self.seq, self.tag)): 1})


class Seq(V):
    """immutable sequence content: kind 'str' or 'list'"""
    __slots__ = ("kind", "p", "_h", "_age")

    def __init__(self, kind, pieces=()):
        self.kind = kind
        self.p = tuple(pieces)
        self._h = None
        self._age = None

    def __eq__(self, o):
        return isinstance(o, Seq) and o.kind == self.kind and o.p == self.p

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.kind, self.p))
        return self._h

    @property
    def age(self):
        if self._age is None:
            self._age = age_of(self.p)
        return self._age

    @property
    def const(self):
        """python str if literal"""
        if self.kind != "str":
            return None
        if not self.p:
            return ""
        if len(self.p) == 1 and isinstance(self.p[0], Lit):
            return self.p[0].s
        return None

    def __repr__(self):
        return f"{'S' if self.kind == 'str' else 'L'}[{' + '.join(map(repr, self.p))}]"


def S(s):
    return Seq("str", (Lit(s),) if s else ())


def nat(op, *args):
    t = Term(op, *args)
    t.sort = "nat"
    return t


def length_of(src):
    """Lin: length of a source sequence term"""
    if src.op in ("lst", "cat"):
        return seq_len(src.args[0])
    return Lin(0, {nat("len", src): 1})


def seq_len(seq):
    n = ZERO
    for p in seq.p:
        n = n + p.length
    return n


def full(src):
    return Sl(src, ZERO, length_of(src))


def str_term(t):
    return Seq("str", (full(t),))


def snapshot(seq):
    """source term standing for the whole sequence"""
    if len(seq.p) == 1 and isinstance(seq.p[0], Sl) and seq.p[0] == full(seq.p[0].src):
        return seq.p[0].src
    t = Term("cat" if seq.kind == "str" else "lst", seq)
    t.sort = "str" if seq.kind == "str" else ("list", None)
    return t


class Tup(V):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.items == self.items

    def __hash__(self):
        return hash(("Tup", self.items))

    @property
    def age(self):
        return age_of(self.items)

    def __repr__(self):
        return f"{self.items!r}"


class Sym(V):
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term

    def __eq__(self, o):
        return isinstance(o, Sym) and o.term is self.term

    def __hash__(self):
        return hash(("Sym", self.term.uid))

    @property
    def age(self):
        return self.term.age

    def __repr__(self):
        return f"{self.term!r}"


class BoolV(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return isinstance(o, BoolV) and o.f == self.f

    def __hash__(self):
        return hash(("BoolV", self.f))

    @property
    def age(self):
        return age_of(self.f)

    def __repr__(self):
        return f"?{self.f!r}"


class Ref(V):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))

    def __repr__(self):
        return f"&{self.id}"


class FuncV(V):
    __slots__ = ("fn", "closure")

    def __init__(self, fn, closure=None):
        self.fn = fn
        self.closure = closure   # frame id of the enclosing frame or None

    def __eq__(self, o):
        return isinstance(o, FuncV) and o.fn is self.fn and o.closure == self.closure

    def __hash__(self):
        return hash(("FuncV", id(self.fn)))

    def __repr__(self):
        return f"<fn {self.fn.qual}>"


class Bound(V):
    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn == self.fn and o.self_ == self.self_

    def __hash__(self):
        return hash(("Bound", self.fn, self.self_))

    def __repr__(self):
        return f"<bound {self.fn!r} {self.self_!r}>"


class Meth(V):
    """method of a builtin / opaque object"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj = obj
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Meth) and o.obj == self.obj and o.name == self.name

    def __hash__(self):
        return hash(("Meth", self.obj, self.name))

    @property
    def age(self):
        return age_of(self.obj)

    def __repr__(self):
        return f"{self.obj!r}.{self.name}"


class ClsV(V):
    __slots__ = ("cls",)

    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.cls is self.cls

    def __hash__(self):
        return hash(("ClsV", id(self.cls)))

    def __repr__(self):
        return f"<class {self.cls.qual}>"


class ModV(V):
    __slots__ = ("mod",)

    def __init__(self, mod):
        self.mod = mod

    def __eq__(self, o):
        return isinstance(o, ModV) and o.mod is self.mod

    def __hash__(self):
        return hash(("ModV", self.mod.name))


class ExtV(V):
    """external (or builtin) object by qualified name"""
    __slots__ = ("q",)

    def __init__(self, q):
        self.q = q

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.q == self.q

    def __hash__(self):
        return hash(("ExtV", self.q))

    def __repr__(self):
        return self.q


class RegexV(V):
    __slots__ = ("pat", "flags")

    def __init__(self, pat, flags=0):
        self.pat = pat
        self.flags = flags

    def __eq__(self, o):
        return isinstance(o, RegexV) and o.pat == self.pat and o.flags == self.flags

    def __hash__(self):
        return hash(("RegexV", self.pat, self.flags))

    def __repr__(self):
        return f"re({self.pat!r})"


class MatchV(V):
    """a regex match (not None): positions are relative to seq"""
    __slots__ = ("term", "seq", "rx")

    def __init__(self, term, seq, rx):
        self.term = term
        self.seq = seq
        self.rx = rx

    def __eq__(self, o):
        return isinstance(o, MatchV) and o.term is self.term and o.seq == self.seq

    def __hash__(self):
        return hash(("MatchV", self.term.uid))

    @property
    def age(self):
        return max(self.term.age, age_of(self.seq))

    def __repr__(self):
        return f"{self.term!r}"


class ExcV(V):
    """exception value; cls: Cls or qualname; exact False means 'some subclass'"""
    __slots__ = ("cls", "exact", "args", "origin", "nots", "sure", "of")

    def __init__(self, cls, exact=True, args=(), origin=None, nots=(), sure=False, of=None):
        self.of = of                # what was too short
        self.sure = sure            # follows from what the path had decided before
        self.cls = cls
        self.exact = exact
        self.args = tuple(args)
        self.origin = origin
        self.nots = tuple(nots)

    @property
    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.qual

    def __eq__(self, o):
        return (isinstance(o, ExcV) and o.cls == self.cls and o.exact == self.exact
                and o.origin == self.origin and o.nots == self.nots)

    def __hash__(self):
        return hash(("ExcV", self.name, self.exact))

    def __repr__(self):
        return f"exc {self.name}{'' if self.exact else '+'}{' from ' + str(self.origin) if self.origin else ''}"


class Exc:
    """raise marker in evaluation results"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Exc({self.v!r})"


# ---- heap objects (immutable; the heap maps ids to the current one) -----------

class LObj:
    """list; link = (parent list id, 'last'|index) when it is an element obtained from a summary"""
    __slots__ = ("seq", "link", "born")

    def __init__(self, seq, link=None):
        self.seq = seq
        self.link = link

    def __eq__(self, o):
        return isinstance(o, LObj) and o.seq == self.seq and o.link == self.link

    def __repr__(self):
        return repr(self.seq)


class DObj:
    """dict/set: items tuple of (key value, value) when exact, else None"""
    __slots__ = ("items", "kind", "term")

    def __init__(self, items, kind="dict", term=None):
        self.items = items
        self.kind = kind
        self.term = term

    def __eq__(self, o):
        return isinstance(o, DObj) and o.items == self.items and o.kind == self.kind and o.term is self.term

    def __repr__(self):
        return f"{self.kind}{self.items!r}"


class IObj:
    """instance of a package class"""
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields

    def __eq__(self, o):
        return isinstance(o, IObj) and o.cls is self.cls and o.fields == self.fields

    def __repr__(self):
        return f"<{self.cls.name} {self.fields!r}>"


class ItObj:
    """iterator state: kind and immutable payload tuple"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d

    def with_(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return ItObj(self.kind, **d)

    def __eq__(self, o):
        return isinstance(o, ItObj) and o.kind == self.kind and o.d == self.d

    def __repr__(self):
        return f"iter:{self.kind}{self.d!r}"


# ---- state --------------------------------------------------------------------

class State:
    __slots__ = ("frames", "heap", "facts", "store", "attrs", "cells", "ghost", "budget", "trail", "forall")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.store = Store()
        self.attrs = {}
        self.cells = {}
        self.ghost = {}
        self.budget = 0
        self.trail = ()
        self.forall = ()

    def copy(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.store = self.store
        s.attrs = dict(self.attrs)
        s.cells = dict(self.cells)
        s.ghost = dict(self.ghost)
        s.budget = self.budget
        s.trail = self.trail
        s.forall = self.forall
        return s

    def setvar(self, fid, name, v):
        s = self.copy()
        env = dict(s.frames[fid])
        env[name] = v
        s.frames[fid] = env
        return s

    def sethe(self, id, obj):
        s = self.copy()
        s.heap[id] = obj
        return s

    def setghost(self, **kw):
        s = self.copy()
        s.ghost.update(kw)
        return s

    def with_store(self, store):
        s = self.copy()
        s.store = store
        return s

    def note(self, msg):
        s = self.copy()
        s.trail = self.trail + (msg,)
        return s


_nid = [0]


def new_id():
    _nid[0] += 1
    return _nid[0]
