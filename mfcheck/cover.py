"""Coverage domain: which part of which source sequence a sequence value reproduces."""
from . import rx
from .terms import DIM_HOOK, Term, Lin, lin, ZERO, ONE
from .values import (Lit, Item, Ext, Sl, Rep, Img, Join, Wrapd, Seq, Ref, Tup, LObj, snapshot,
                     length_of, seq_len, nat, S, Const, full)

MODES = {"exact": 0, "rstrip": 1, "nonws": 2}

# path-independent knowledge about slices (true by definition of the dims involved)
WS = {}      # src -> list of (lo, hi): whitespace only
RUNS = {}    # src -> list of (lo, hi, ch Seq): every character is ch


def add_ws(src, lo, hi):
    l = WS.setdefault(src, [])
    if (lo, hi) not in l:
        l.append((lo, hi))


def add_run(src, lo, hi, ch):
    l = RUNS.setdefault(src, [])
    if (lo, hi, ch) not in l:
        l.append((lo, hi, ch))


SPLITS = {}  # src -> list of split terms of a slice of it at white space


def add_split(src, t):
    l = SPLITS.setdefault(src, [])
    if t not in l:
        l.append(t)


def blank_by_split(src, st, limit=4):
    """a text all of whose (few) words are blank is blank"""
    for t in SPLITS.get(src, ()):
        p = t.args[0].p[0]
        if not (st.store.entails_eq(p.lo) and st.store.entails_eq(p.hi - length_of(src))):
            continue
        n = st.store.norm(length_of(t)).const
        if n is not None and n <= limit and all(elem_blank(t, lin(i), st) for i in range(int(n))):
            return True
    return False


NOWSS = {}   # src -> list of (lo, hi): src[lo:hi] does not start with white space; ("run", src) -> (lo, hi, chars)
NOWSE = {}   # src -> list of (hi, lo): src[lo:hi] does not end with white space; likewise


def note_dim(t):
    """what is true of a count of stripped characters by definition"""
    if len(t.args) < 3 or not isinstance(t.args[0], Term):
        return
    src, lo, hi = t.args[0], lin(t.args[1]), lin(t.args[2])
    a = lin(t)
    if t.op == "lws":
        add_ws(src, lo, lo + a)
        reg, e = NOWSS.setdefault(src, []), (lo + a, hi)
    elif t.op == "rws":
        add_ws(src, hi - a, hi)
        reg, e = NOWSE.setdefault(src, []), (hi - a, lo)
    else:
        key = t.args[3].args[0] if len(t.args) > 3 and isinstance(t.args[3], Term) and t.args[3].op == "chars" else None
        if not isinstance(key, str) or not key:
            return
        x, y = (lo, lo + a) if t.op == "run" else (hi - a, hi)
        if len(set(key)) == 1:
            add_run(src, x, y, S(key[0]))
        if not key.strip():
            add_ws(src, x, y)
        if t.op == "run":
            reg, e = NOWSS.setdefault(("run", src), []), (y, hi, key)
        else:
            reg, e = NOWSE.setdefault(("run", src), []), (x, lo, key)
    if e not in reg:
        reg.append(e)


DIM_HOOK[:] = [note_dim]


def ws_positions(src, x, st, limit=12):
    """positions reachable from x by skipping known whitespace"""
    out = [x]
    i = 0
    iv = list(WS.get(src, ()))
    for p in lit_facts(src, st):
        if p[1] and p[1].strip() == "":
            iv.append((p[0], p[0] + len(p[1])))
    for lo, hi, ch in RUNS.get(src, ()):
        if ch.const and ch.const.strip() == "":
            iv.append((lo, hi))
    for t in SPLITS.get(src, ()):
        if st.store.entails_eq(length_of(t)):
            iv.append((t.args[0].p[0].lo, t.args[0].p[0].hi))       # no words
    while i < len(out) and len(out) < limit:
        cur = out[i]
        i += 1
        for lo, hi in iv:
            if st.store.entails_eq(lo - cur):
                h = st.store.norm(hi)
                if not any(st.store.entails_eq(h - o) for o in out):
                    out.append(h)
    return out


def lit_facts(src, st):
    for t, v in st.facts.items():
        if v and t.op == "lit" and t.args[0] is src:
            yield t.args[1], t.args[2]


def sort_is_list(src):
    return src.op == "lst" or (isinstance(src.sort, tuple) and src.sort[0] == "list")


def gap_ok(src, x, y, st, mode="nonws"):
    x, y = lin(x), lin(y)
    if st.store.entails_eq(x - y):
        return True
    if sort_is_list(src):
        if mode != "nonws":
            return False
        d = st.store.norm(y - x).const
        if d is not None and 0 < d <= 3:
            return all(elem_blank(src, x + k, st) for k in range(int(d)))
        return False
    if mode == "exact":
        return False
    # whitespace only region?
    for p in ws_positions(src, x, st):
        if st.store.entails_ge(p - y):
            return True
    return False


def elem_blank(src, i, st):
    """is list element i known to contain no non-whitespace text"""
    if src.op == "lst":
        seq = src.args[0]
        acc = ZERO
        for p in seq.p:
            if isinstance(p, Item) and st.store.entails_eq(acc - i):
                return seq_blank(p.v, st)
            if isinstance(p, Sl) and st.store.entails_ge(i - acc) and st.store.entails_ge(acc + p.length - 1 - i):
                return elem_blank(p.src, p.lo + (i - acc), st)
            acc = acc + p.length
    for t in st.facts:
        pass
    e = elem_term(src, i, st)
    if isinstance(e, Term):
        return gap_ok(e, ZERO, length_of(e), st)
    return False


def elem_term(src, i, st):
    return Term("elem", src, st.store.norm(lin(i)))


def seq_blank(v, st):
    if isinstance(v, Seq) and v.kind == "str":
        for p in v.p:
            if isinstance(p, Lit):
                if p.s.strip():
                    return False
            elif isinstance(p, Sl):
                if not gap_ok(p.src, p.lo, p.hi, st):
                    return False
            elif isinstance(p, Rep):
                if not ((p.v.const or "x").strip() == "" or st.store.entails_eq(p.n)):
                    return False
            else:
                return False
        return True
    return False


def match_lit(src, pos, s, st, mode):
    """position after literal s at pos in src, or None"""
    cands = ws_positions(src, pos, st) if mode == "nonws" else [pos]
    if mode == "nonws":
        s = s.strip()
        if " " in s:
            parts = s.split()
            cur = pos
            for q in parts:
                cur = match_lit(src, cur, q, st, mode)
                if cur is None:
                    return None
            return cur
    for c in cands:
        for lo, text in lit_facts(src, st):
            if st.store.entails_eq(lo - c):
                if text.startswith(s):
                    return c + len(s)
                if s.startswith(text) and text:
                    return match_lit(src, c + len(text), s[len(text):], st, mode)
            d = st.store.norm(c - lo).const
            if d is not None and 0 < d < len(text) and text[int(d):].startswith(s):
                return c + len(s)
        for lo, hi, ch in RUNS.get(src, ()):
            k = ch.const
            if k and set(s) == {k} and st.store.entails_ge(c - lo) and st.store.entails_ge(hi - c - len(s)):
                return c + len(s)
    return None


def match_rep(src, pos, v, n, st, mode):
    cands = ws_positions(src, pos, st) if mode == "nonws" else [pos]
    for c in cands:
        for lo, hi, ch in RUNS.get(src, ()):
            if ch == v and st.store.entails_ge(c - lo) and st.store.entails_ge(hi - c - n):
                # in the middle of a run any n chars match
                return c + n
        k = st.store.norm(n).const
        if k is not None and v.const:
            return match_lit(src, c, v.const * int(k), st, mode)
    return None


def match_back(src, pos, atom, st, mode):
    """position where lit/rep atom ending at pos starts (whitespace skipped), or None"""
    regions = []
    for lo, hi, ch in RUNS.get(src, ()):
        regions.append((lo, hi, ch, None))
    for lo, text in lit_facts(src, st):
        regions.append((lo, lo + len(text), None, text))
    for lo, hi, ch, text in regions:
        if not (st.store.entails_eq(hi - pos) or (mode == "nonws" and gap_ok(src, hi, pos, st))):
            continue
        if atom[0] == "rep":
            if ch is not None and ch == atom[1] and st.store.entails_ge(hi - lo - atom[2]):
                return hi - atom[2]
        else:
            s = atom[1].strip() if mode == "nonws" else atom[1]
            if text is not None and text.endswith(s):
                return hi - len(s)
            if ch is not None and ch.const and set(s) == {ch.const} and st.store.entails_ge(hi - lo - len(s)):
                return hi - len(s)
    return None


class Cov:
    """reduction of pieces to atoms over a target source"""

    def __init__(self, st, target, mode="nonws", decor=(), heap=None):
        self.st = st
        self.T = target
        self.mode = mode
        self.decor = decor       # literals that may be added or dropped freely
        self.stack = []

    # -- lowering
    def ancestors_include(self, src, depth=0):
        if src is self.T:
            return True
        if depth > 12:
            return False
        if src.op == "elem":
            return self.ancestors_include(src.args[0], depth + 1)
        if src.op in ("lst", "cat"):
            return self.pieces_include(src.args[0].p, depth + 1)
        if src.op in ("split", "splitlines", "resplit"):
            return self.pieces_include(src.args[0].p, depth + 1)
        if src.op in ("replace", "resub") and blank_replace(src) is not None:
            return self.pieces_include(blank_replace(src).p, depth + 1)
        return False

    def pieces_include(self, ps, depth=0):
        for p in ps:
            if isinstance(p, Sl) and self.ancestors_include(p.src, depth + 1):
                return True
            if isinstance(p, Img) and any(self.ancestors_include(v[0], depth + 1) for v in p.views):
                return True
            if isinstance(p, (Join, Wrapd)) and self.pieces_include(p.seq.p, depth + 1):
                return True
            if isinstance(p, Ext) and self.pieces_include(p.pieces, depth + 1):
                return True
            if isinstance(p, Item) and isinstance(p.v, Seq) and self.pieces_include(p.v.p, depth + 1):
                return True
            if isinstance(p, Item) and isinstance(p.v, (Ref, Tup)):
                return True
        return False

    def push_pieces(self, ps):
        for p in ps:
            self.push_piece(p)

    def push_piece(self, p):
        m = self.mode
        if isinstance(p, Lit):
            self.push(("lit", p.s))
        elif isinstance(p, Sl):
            self.push(("sl", p.src, p.lo, p.hi))
        elif isinstance(p, Rep):
            self.push(("rep", p.v, p.n))
        elif isinstance(p, Item):
            self.push_value(p.v)
        elif isinstance(p, Ext):
            self.push_pieces(p.pieces)
        elif isinstance(p, Img):
            best = None
            for (src, lo, hi, mode) in p.views:
                if MODES[mode] > MODES[m]:
                    continue
                if src is self.T:
                    best = (src, lo, hi)
                    break
                if best is None and self.ancestors_include(src):
                    best = (src, lo, hi)
            if best is None:
                if self.st.store.entails_eq(p.n):
                    return
                self.push(("top", p))
            else:
                self.push(("sl",) + best)
        elif isinstance(p, Join):
            sep = p.sep.const
            if sep is not None and (sep.strip() == "" or sep in self.decor):
                if m == "nonws" or sep == "\n":
                    self.push_pieces(p.seq.p)
                    return
            if sep is not None and m == "nonws":
                # explicit items only: literal separators in between
                if all(isinstance(x, Item) for x in p.seq.p):
                    for i, x in enumerate(p.seq.p):
                        if i:
                            self.push(("lit", sep))
                        self.push_piece(x)
                    return
            self.push(("top", p))
        elif isinstance(p, Wrapd):
            if m == "nonws":
                self.push_pieces(p.seq.p)
            else:
                self.push(("top", p))
        else:
            self.push(("top", p))

    def push_value(self, v):
        if isinstance(v, Seq):
            if self.mode != "nonws" and v.kind == "str":
                sub = Cov(self.st, self.T, self.mode, self.decor)
                sub.push_pieces(v.p)
                for a in sub.stack:
                    self.push(a)
                return
            self.push_pieces(v.p)
        elif isinstance(v, Ref):
            o = self.st.heap.get(v.id)
            if isinstance(o, LObj):
                self.push_pieces(o.seq.p)
            else:
                self.push(("top", v))
        elif isinstance(v, Tup):
            for x in v.items:
                self.push_value(x)
        else:
            self.push(("top", v))

    # -- merging
    def push(self, a):
        st = self.st
        if a[0] == "lit":
            if a[1] == "" or (self.mode == "nonws" and not a[1].strip()):
                return
            if a[1] in self.decor or (self.mode == "nonws" and a[1].strip() in self.decor):
                return
        elif a[0] == "rep":
            if st.store.entails_eq(a[2]):
                return
            k = a[1].const
            if k is not None and self.mode == "nonws" and not k.strip():
                return
            if k is not None and k in self.decor:
                return
        elif a[0] == "sl":
            if st.store.entails_eq(a[3] - a[2]) and not (a[1] is self.T):
                # empty slice contributes nothing
                if not st.store.entails_eq(length_of(a[1])):
                    return
            if self.mode == "nonws" and not sort_is_list(a[1]) and a[1] is not self.T \
                    and not self.ancestors_include(a[1]) and gap_ok(a[1], a[2], a[3], st):
                return
        S_ = self.stack
        if S_ and S_[-1][0] == "sl":
            p = S_[-1]
            if a[0] == "sl" and a[1] is p[1]:
                if gap_ok(p[1], p[3], a[2], st, self._gm(p[1])):
                    S_.pop()
                    self.push(("sl", p[1], p[2], a[3]))
                    return
                # a adds only whitespace
                if self.mode == "nonws" and gap_ok(a[1], a[2], a[3], st):
                    return
                if self.mode == "nonws" and gap_ok(p[1], p[2], p[3], st):
                    S_.pop()
                    self.push(a)
                    return
            elif a[0] == "lit":
                e = match_lit(p[1], p[3], a[1], st, self.mode)
                if e is not None:
                    S_.pop()
                    self.push(("sl", p[1], p[2], e))
                    return
            elif a[0] == "rep":
                e = match_rep(p[1], p[3], a[1], a[2], st, self.mode)
                if e is not None:
                    S_.pop()
                    self.push(("sl", p[1], p[2], e))
                    return
        if a[0] == "sl" and S_ and S_[-1][0] in ("lit", "rep"):
            s0 = match_back(a[1], a[2], S_[-1], st, self.mode)
            if s0 is not None:
                S_.pop()
                self.push(("sl", a[1], s0, a[3]))
                return
        if a[0] == "sl" and a[1] is not self.T and self.complete(a):
            exp = self.lift(a[1])
            if exp is not None:
                exp()
                return
        S_.append(a)

    def _gm(self, src):
        if self.mode == "nonws":
            return "nonws"
        return "exact"

    def complete(self, a):
        st = self.st
        src, lo, hi = a[1], a[2], a[3]
        n = length_of(src)
        if self.mode == "nonws":
            return gap_ok(src, ZERO, lo, st) and gap_ok(src, hi, n, st)
        if not st.store.entails_eq(lo):
            return False
        if self.mode == "rstrip" and not sort_is_list(src):
            return gap_ok(src, hi, n, st)
        return st.store.entails_eq(n - hi)

    def lift(self, src):
        if src.op == "elem":
            if not self.ancestors_include(src.args[0]):
                return None
            L, i = src.args
            return lambda: self.push(("sl", L, lin(i), lin(i) + 1))
        if src.op in ("lst", "cat"):
            seq = src.args[0]
            return lambda: self.push_pieces(seq.p)
        if src.op == "split":
            seq, sep = src.args[0], src.args[1]
            if sep is None or sep.strip() == "" or sep in self.decor:
                if self.mode == "nonws" or sep == "\n":
                    return lambda: self.push_pieces(seq.p)
            return None
        if src.op == "splitlines":
            seq = src.args[0]
            return lambda: self.push_pieces(seq.p)
        if src.op == "resplit":
            seq, pat = src.args[0], src.args[1]
            if pat in self.decor or isinstance(pat, str) and len(src.args) == 2 and rx.only_blank(pat) \
                    and (self.mode == "nonws" or "\n" in pat or "\\n" in pat):
                return lambda: self.push_pieces(seq.p)
            return None
        if src.op in ("replace", "resub") and blank_replace(src) is not None and self.mode == "nonws":
            seq = blank_replace(src)
            return lambda: self.push_pieces(seq.p)
        if src.op == "elempart":
            # a component of an element: args (elem term, fields...) not liftable
            return None
        return None


def blank_replace(t):
    """the text this term is a copy of, but for white space replaced by white space"""
    if t.op == "replace" and isinstance(t.args[0], Seq):
        if all(isinstance(a, Seq) and a.const is not None and not a.const.strip() for a in t.args[1:3]) and t.args[1].const:
            return t.args[0]
    if t.op == "resub" and len(t.args) == 3 and isinstance(t.args[2], Seq) and isinstance(t.args[0], tuple):
        pat, repl = t.args[0], t.args[1]
        c = repl if isinstance(repl, str) else repl.const if isinstance(repl, Seq) else repl.args[0] \
            if isinstance(repl, Term) and repl.op == "s" and len(repl.args) == 1 else None
        if isinstance(c, str) and not c.strip() and isinstance(pat[0], str) and rx.only_blank(*pat):
            return t.args[2]
    return None


def reduce_to(pieces, st, target, mode="nonws", decor=()):
    c = Cov(st, target, mode, decor)
    c.push_pieces(pieces)
    return c.stack


def view_of(pieces, st, target, mode="nonws", decor=()):
    """(lo, hi) if the pieces reproduce target[lo:hi], 'empty' if they contribute nothing, else None"""
    atoms = reduce_to(pieces, st, target, mode, decor)
    if not atoms:
        return "empty"
    if len(atoms) == 1 and atoms[0][0] == "sl" and atoms[0][1] is target:
        return (atoms[0][2], atoms[0][3])
    return None


def view_from_start(pieces, st, target):
    """hi if the pieces reproduce target[0:hi] up to white space, else None"""
    c = Cov(st, target, "nonws")
    c.stack = [("sl", target, ZERO, ZERO)]
    c.push_pieces(pieces)
    if len(c.stack) == 1 and c.stack[0][0] == "sl" and c.stack[0][1] is target and st.store.entails_eq(c.stack[0][2]):
        return c.stack[0][3]
    return None


def sources(pieces, st, out=None, depth=0):
    """candidate source terms for views of these pieces"""
    if out is None:
        out = {}
    if depth > 10:
        return out

    def up(src, d=0):
        if d > 10:
            return
        out[src] = True
        if src.op == "elem":
            up(src.args[0], d + 1)
        elif src.op in ("lst", "cat", "split", "splitlines", "resplit"):
            sources(src.args[0].p, st, out, depth + 1)
        elif src.op in ("replace", "resub") and blank_replace(src) is not None:
            sources(blank_replace(src).p, st, out, depth + 1)

    for p in pieces:
        if isinstance(p, Sl):
            up(p.src)
        elif isinstance(p, Img):
            for v in p.views:
                up(v[0])
        elif isinstance(p, (Join, Wrapd)):
            sources(p.seq.p, st, out, depth + 1)
        elif isinstance(p, Ext):
            sources(p.pieces, st, out, depth + 1)
        elif isinstance(p, Item):
            vsources(p.v, st, out, depth + 1)
    return out


def vsources(v, st, out, depth):
    if isinstance(v, Seq):
        sources(v.p, st, out, depth)
    elif isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, LObj):
            sources(o.seq.p, st, out, depth)
    elif isinstance(v, Tup):
        for x in v.items:
            vsources(x, st, out, depth)


def complete_view(pieces, st, target, mode="nonws", decor=()):
    """True / False / None(unknown) + atoms: do the pieces reproduce the whole target?"""
    atoms = reduce_to(pieces, st, target, mode, decor)
    n = length_of(target)
    if mode == "nonws" and len(atoms) > 1:
        # blank text beside the rest is nothing
        atoms = [a for a in atoms if not (a[0] == "sl" and a[1] is not target and gap_ok(a[1], a[2], a[3], st))]
    if not atoms:
        ok = gap_ok(target, ZERO, n, st, "nonws" if mode == "nonws" else "exact")
        if not ok and mode == "nonws" and not sort_is_list(target):
            ok = blank_by_split(target, st)
        return (True if ok else False), atoms
    if len(atoms) == 1 and atoms[0][0] == "sl" and atoms[0][1] is target:
        a = atoms[0]
        c = Cov(st, None, mode, decor)
        if c.complete(a):
            return True, atoms
        return False, atoms
    if any(a[0] == "top" for a in atoms):
        return None, atoms
    if not sort_is_list(target) and atoms[0][0] in ("lit", "rep"):
        # literal text that is known to be what the source starts with
        c = Cov(st, target, mode, decor)
        c.stack = [("sl", target, ZERO, ZERO)]
        for a in atoms:
            c.push(a)
        if len(c.stack) == 1 and c.complete(c.stack[0]):
            return True, c.stack
    return False, atoms
