"""Interned terms, linear expressions and the affine-equality / inequality domain."""
from fractions import Fraction
from math import gcd


DIM_OPS = {"lws", "rws", "run", "rrun"}
DIM_HOOK = []       # told about every new count of stripped characters, also one made by substitution


class Term:
    """Interned uninterpreted term.  `age` is the newest fresh counter inside it."""
    __slots__ = ("op", "args", "uid", "age", "sort", "_s")
    _table = {}
    _n = 0
    clock = 0

    def __new__(cls, op, *args):
        key = (op,) + args
        t = cls._table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            Term._n += 1
            t.uid = Term._n
            age = 0
            for a in args:
                g = age_of(a)
                if g > age:
                    age = g
            t.age = age
            t.sort = None
            t._s = None
            cls._table[key] = t
            if op in DIM_OPS and DIM_HOOK:
                DIM_HOOK[0](t)
        return t

    def __repr__(self):
        if self._s is None:
            if self.op in ("fresh", "phi"):
                self._s = f"{self.args[0]}'{self.uid}"
            elif not self.args:
                self._s = self.op
            elif len(self.args) == 1 and self.op == "var":
                self._s = str(self.args[0])
            elif self.op == "attr":
                self._s = f"{self.args[0]!r}.{self.args[1]}"
            elif self.op == "elem":
                self._s = f"{self.args[0]!r}[{self.args[1]!r}]"
            else:
                self._s = f"{self.op}({', '.join(map(repr, self.args))})"
            if len(self._s) > 300:
                self._s = self._s[:300] + "…"
        return self._s


def age_of(a):
    if isinstance(a, Term):
        return a.age
    if isinstance(a, Lin):
        return a.age
    f = getattr(a, "age", None)
    if f is not None and not callable(f):
        return f
    if isinstance(a, tuple):
        m = 0
        for x in a:
            g = age_of(x)
            if g > m:
                m = g
        return m
    return 0


def fresh(name, sort=None):
    Term.clock += 1
    t = Term("fresh", name, Term.clock)
    t.age = Term.clock
    t.sort = sort
    return t


class Lin:
    """Immutable linear expression  c + sum(coef * dim)."""
    __slots__ = ("c", "t", "_h", "age")

    def __init__(self, c=0, t=()):
        # t: dict or iterable of pairs
        d = dict(t)
        self.c = c
        self.t = {k: v for k, v in d.items() if v != 0}
        self._h = None
        m = 0
        for k in self.t:
            if k.age > m:
                m = k.age
        self.age = m

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, frozenset(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        o = lin(o)
        d = dict(self.t)
        for k, v in o.t.items():
            d[k] = d.get(k, 0) + v
        return Lin(self.c + o.c, d)

    __radd__ = __add__

    def __neg__(self):
        return Lin(-self.c, {k: -v for k, v in self.t.items()})

    def __sub__(self, o):
        return self + (-lin(o))

    def __rsub__(self, o):
        return lin(o) - self

    def __mul__(self, k):
        return Lin(self.c * k, {d: v * k for d, v in self.t.items()})

    __rmul__ = __mul__

    @property
    def const(self):
        return self.c if not self.t else None

    def single(self):
        """(dim, offset) if this is dim + offset"""
        if len(self.t) == 1:
            (k, v), = self.t.items()
            if v == 1:
                return k, self.c
        return None

    def subst(self, dim, e):
        if dim not in self.t:
            return self
        k = self.t[dim]
        d = dict(self.t)
        del d[dim]
        r = Lin(self.c, d)
        return r + lin(e) * k

    def __repr__(self):
        parts = []
        for k, v in sorted(self.t.items(), key=lambda kv: kv[0].uid):
            if v == 1:
                parts.append(f"+{k!r}")
            elif v == -1:
                parts.append(f"-{k!r}")
            else:
                parts.append(f"{v:+}*{k!r}")
        if self.c or not parts:
            parts.append(f"{self.c:+}" if parts else f"{self.c}")
        s = "".join(parts)
        return s[1:] if s.startswith("+") else s


def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, Term):
        return Lin(0, {x: 1})
    return Lin(x)


ZERO = Lin(0)
ONE = Lin(1)


class Contradiction(Exception):
    pass


def _intnorm(l):
    """scale a >=0 constraint to integer coefs and tighten"""
    if not l.t:
        return l
    dens = 1
    for v in list(l.t.values()) + [l.c]:
        if isinstance(v, Fraction):
            dens = dens * v.denominator // gcd(dens, v.denominator)
    if dens != 1:
        l = l * dens
    g = 0
    for v in l.t.values():
        g = gcd(g, int(v))
    c = l.c
    c = int(c) if not isinstance(c, Fraction) else (c.numerator // c.denominator)
    if g > 1:
        return Lin(c // g, {k: int(v) // g for k, v in l.t.items()})
    return Lin(c, {k: int(v) for k, v in l.t.items()})


class Store:
    """Conjunction of affine equalities (solved form), inequalities >=0, disequalities != 0.

    All dims are integers.  Persistent: every mutator returns a new Store or raises
    Contradiction."""
    __slots__ = ("eq", "ge", "ne", "memo")

    def __init__(self, eq=None, ge=frozenset(), ne=frozenset()):
        self.eq = eq or {}
        self.ge = ge
        self.ne = ne
        self.memo = {}

    def norm(self, l):
        l = lin(l)
        eq = self.eq
        if not eq:
            return l
        for k in list(l.t):
            e = eq.get(k)
            if e is not None:
                l = l.subst(k, e)
        return l

    def add_eq(self, l):
        n = self.norm(l)
        if not n.t:
            if n.c != 0:
                raise Contradiction
            return self
        # choose the dim to solve: unit coefficient, newest
        best = None
        for k, v in n.t.items():
            key = (abs(v) == 1, k.age, k.uid)
            if best is None or key > best[0]:
                best = (key, k, v)
        _, k, v = best
        rest = Lin(n.c, {d: c for d, c in n.t.items() if d is not k})
        if abs(v) == 1:
            sol = rest * (-v)
        else:
            sol = rest * Fraction(-1, 1) * Fraction(1, v)
        neq = {d: e.subst(k, sol) for d, e in self.eq.items()}
        neq[k] = sol
        s = Store(neq, frozenset(), frozenset())
        ge = set()
        for g in self.ge:
            if k in g.t:
                g = _intnorm(g.subst(k, sol))
                if not g.t:
                    if g.c < 0:
                        raise Contradiction
                    continue
            ge.add(g)
        ne = set()
        for g in self.ne:
            if k in g.t:
                g = g.subst(k, sol)
                if not g.t:
                    if g.c == 0:
                        raise Contradiction
                    continue
            ne.add(g)
        s.ge = frozenset(ge)
        s.ne = frozenset(ne)
        # implied equalities / contradictions
        for g in ge:
            if k in sol.t or True:
                if -g in ge:
                    s = s.add_eq(g)
                    return s if k.sort != "nat" or s.entails_ge(sol) else s.add_ge(sol)
        for g in ge:
            if s._refutes(g):
                raise Contradiction
        if k.sort == "nat" and not s.entails_ge(sol):
            return s.add_ge(sol)
        return s

    def add_ge(self, l):
        n = _intnorm(self.norm(l))
        if not n.t:
            if n.c < 0:
                raise Contradiction
            return self
        if n in self.ge:
            return self
        if self._refutes(n):
            raise Contradiction
        # keep only tightest parallel constraint
        ge = set()
        for g in self.ge:
            if g.t == n.t:
                if g.c <= n.c:
                    return self
                continue
            ge.add(g)
        ge.add(n)
        s = Store(self.eq, frozenset(ge), self.ne)
        if s.entails_ge(-n):
            return s.add_eq(n)
        # disequality n != 0 tightens
        if n in self.ne or -n in self.ne:
            ge.discard(n)
            s = Store(self.eq, frozenset(ge), frozenset(x for x in self.ne if x != n and x != -n))
            return s.add_ge(n - 1)
        return s

    def add_ne(self, l):
        n = self.norm(l)
        if not n.t:
            if n.c == 0:
                raise Contradiction
            return self
        if self.entails_ge(n):
            return self.add_ge(n - 1)
        if self.entails_ge(-n):
            return self.add_ge(-n - 1)
        return Store(self.eq, self.ge, self.ne | {n})

    def _refutes(self, n):
        """does the store entail n <= -1 ?"""
        return self.entails_ge(-n - 1)

    def entails_eq(self, l):
        n = self.norm(l)
        if not n.t:
            return n.c == 0
        return self.entails_ge(n) and self.entails_ge(-n)

    def entails_ne(self, l):
        n = self.norm(l)
        if not n.t:
            return n.c != 0
        if n in self.ne or -n in self.ne:
            return True
        return self.entails_ge(n - 1) or self.entails_ge(-n - 1)

    def entails_ge(self, l, depth=6):
        n = self.norm(l)
        if not n.t:
            return n.c >= 0
        r = self.memo.get(n)
        if r is None:
            r = self.memo[n] = self._ent(n, depth, ())
        return r

    def _ent(self, n, depth, used):
        if not n.t:
            return n.c >= 0
        if depth == 0:
            return False
        # pick a dim; n - t*g must eliminate it, t > 0
        # choose dim with fewest candidate constraints
        best = None
        for k, v in n.t.items():
            cands = [g for g in self.ge if g not in used and g.t.get(k, 0) * v > 0]
            if v > 0 and k.sort == "nat":
                cands.append(Lin(0, {k: 1}))
            if best is None or len(cands) < len(best[2]):
                best = (k, v, cands)
                if not cands:
                    return False
        k, v, cands = best
        for g in cands:
            t = Fraction(v, 1) / Fraction(g.t[k], 1)
            if t.denominator == 1:
                t = int(t)
            m = n - g * t
            if len(m.t) > len(n.t) + 2:
                continue
            if self._ent(m, depth - 1, used + (g,)):
                return True
        return False

    def lower(self, l):
        """best constant lower bound found, or None"""
        n = self.norm(l)
        if not n.t:
            return n.c
        for b in (16, 8, 4, 3, 2, 1, 0, -1, -2):
            if self.entails_ge(n - b):
                return b
        return None

    def dims(self):
        out = set(self.eq)
        for e in self.eq.values():
            out.update(e.t)
        for g in self.ge:
            out.update(g.t)
        return out


# ---- affine hull -----------------------------------------------------------

def _rref(rows, order):
    """rows: list of dict dim->Fraction with key None for the constant (row: sum + const = 0)"""
    rows = [dict(r) for r in rows if r]
    out = []
    for d in order:
        piv = None
        for i, r in enumerate(rows):
            if r.get(d, 0) != 0:
                piv = i
                break
        if piv is None:
            continue
        p = rows.pop(piv)
        pv = p[d]
        p = {k: Fraction(v) / pv for k, v in p.items() if v != 0}
        nrows = []
        for r in rows:
            c = r.get(d, 0)
            if c != 0:
                q = dict(r)
                for k, v in p.items():
                    q[k] = q.get(k, 0) - c * v
                q = {k: v for k, v in q.items() if v != 0}
                if q:
                    nrows.append(q)
            else:
                nrows.append(r)
        rows = nrows
        nout = []
        for dd, r in out:
            c = r.get(d, 0)
            if c != 0:
                q = dict(r)
                for k, v in p.items():
                    q[k] = q.get(k, 0) - c * v
                q = {k: v for k, v in q.items() if v != 0}
                r = q
            nout.append((dd, r))
        out = nout
        out.append((d, p))
    return out, rows


def project(eqs, local):
    """eqs: list of Lin (=0).  Eliminate dims for which local(d).  Return list of Lin."""
    rows = []
    dims = set()
    for e in eqs:
        r = {k: Fraction(v) for k, v in e.t.items()}
        if e.c != 0:
            r[None] = Fraction(e.c)
        rows.append(r)
        dims.update(e.t)
    loc = [d for d in dims if local(d)]
    _, rest = _rref(rows, loc)
    return [Lin(r.get(None, 0), {k: v for k, v in r.items() if k is not None}) for r in rest]


def hull(sets, dims):
    """sets: list of lists of Lin(=0) over dims. Return the equalities valid in all."""
    dims = list(dims)
    if not sets:
        return []
    cur = sets[0]
    for other in sets[1:]:
        cur = _intersect(cur, other, dims)
        if not cur:
            return []
    out = []
    for e in cur:
        den = 1
        for v in list(e.t.values()) + [e.c]:
            v = Fraction(v)
            den = den * v.denominator // gcd(den, v.denominator)
        e = e * den
        out.append(Lin(int(e.c), {k: int(v) for k, v in e.t.items()}))
    return out


def _vec(e, dims):
    return [Fraction(e.t.get(d, 0)) for d in dims] + [Fraction(e.c)]


def _rowspace(es, dims):
    rows = [_vec(e, dims) for e in es]
    n = len(dims) + 1
    res = []
    for r in rows:
        for (p, q) in res:
            if r[p] != 0:
                c = r[p]
                r = [a - c * b for a, b in zip(r, q)]
        p = next((i for i, x in enumerate(r) if x != 0), None)
        if p is None:
            continue
        c = r[p]
        r = [x / c for x in r]
        res = [(pp, [a - q[p] * b for a, b in zip(q, r)] if q[p] != 0 else q) for pp, q in res]
        res.append((p, r))
    return [q for _, q in res]


def _intersect(A, B, dims):
    a = _rowspace(A, dims)
    b = _rowspace(B, dims)
    if not a or not b:
        return []
    # find coefficients x,y with x*a = y*b : nullspace of [a; -b]^T
    m, k = len(a), len(b)
    n = len(dims) + 1
    # columns are unknowns x(0..m-1), y(0..k-1); equations per coordinate
    eqs = []
    for j in range(n):
        row = [a[i][j] for i in range(m)] + [-b[i][j] for i in range(k)]
        eqs.append(row)
    # gaussian elimination
    piv = []
    r = 0
    N = m + k
    for c in range(N):
        p = next((i for i in range(r, len(eqs)) if eqs[i][c] != 0), None)
        if p is None:
            continue
        eqs[r], eqs[p] = eqs[p], eqs[r]
        pv = eqs[r][c]
        eqs[r] = [x / pv for x in eqs[r]]
        for i in range(len(eqs)):
            if i != r and eqs[i][c] != 0:
                f = eqs[i][c]
                eqs[i] = [x - f * y for x, y in zip(eqs[i], eqs[r])]
        piv.append(c)
        r += 1
    free = [c for c in range(N) if c not in piv]
    out = []
    for f in free:
        sol = [Fraction(0)] * N
        sol[f] = Fraction(1)
        for i, c in enumerate(piv):
            sol[c] = -eqs[i][f]
        vec = [sum(sol[i] * a[i][j] for i in range(m)) for j in range(n)]
        if any(vec):
            out.append(Lin(vec[-1], {d: v for d, v in zip(dims, vec) if v != 0}))
    # rational coefficients fine
    return out
