"""What is known about a line as a regular language: facts become automata, their intersection is decided exactly."""
import re

from . import rx
from .terms import Term, lin
from .values import Lit, Seq, Sl, Join, Item, Num, Rep, full, length_of, nat

BASE = " \t\u2003a1\u0661.!"
LIMIT = 60000


class No(Exception):
    """not a regular constraint we can express"""


class Aut:
    """a pattern as a lazily built deterministic automaton"""

    def __init__(self, pat, flags, kind, wide=False, most=60):
        self.most = most            # longest counted repetition that is written out
        self.wide = wide            # long repetitions may be taken as unbounded
        self.approx = False
        if flags & ~re.UNICODE:
            raise No
        tree = rx.parse(pat, flags)
        if tree is None:
            raise No
        self.kind = kind
        self.eps = []
        self.edges = []
        self.chars = set()
        self.acc = self.node()
        self.start = self.seq(list(tree), self.acc)
        self.memo = {}

    def node(self):
        self.eps.append([])
        self.edges.append([])
        return len(self.eps) - 1

    def seq(self, ops, end):
        for op, av in reversed(ops):
            end = self.one(str(op), av, end)
        return end

    def one(self, n, av, end):
        s = self.node()
        if n in ("LITERAL", "NOT_LITERAL", "ANY", "IN"):
            self.edges[s].append((self.pred(n, av), end))
        elif n == "SUBPATTERN":
            if av[1] or av[2]:
                raise No
            self.eps[s].append(("", self.seq(list(av[3]), end)))
        elif n == "BRANCH":
            for b in av[1]:
                self.eps[s].append(("", self.seq(list(b), end)))
        elif n in ("MAX_REPEAT", "MIN_REPEAT"):
            lo, hi, body = av
            if lo > 60:
                raise No
            if self.most < hi <= 10 ** 6 and self.wide:
                self.approx = True
                hi = 10 ** 7
            if hi > 10 ** 6:
                loop = self.node()
                self.eps[loop].append(("", end))
                self.eps[loop].append(("", self.seq(list(body), loop)))
                cur = loop
            else:
                if hi > self.most:
                    raise No
                cur = end
                for _ in range(int(hi) - lo):
                    x = self.node()
                    self.eps[x].append(("", end))
                    self.eps[x].append(("", self.seq(list(body), cur)))
                    cur = x
            for _ in range(lo):
                cur = self.seq(list(body), cur)
            self.eps[s].append(("", cur))
        elif n == "AT":
            a = str(av)
            if a in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
                self.eps[s].append(("^", end))
            elif a in ("AT_END", "AT_END_STRING"):
                self.eps[s].append(("$", end))
            else:
                raise No
        else:
            raise No
        return s

    def pred(self, n, av):
        if n == "ANY":
            return lambda c: True
        if n in ("LITERAL", "NOT_LITERAL"):
            self.chars.add(chr(av))
            return (lambda c, x=chr(av): c == x) if n == "LITERAL" else (lambda c, x=chr(av): c != x)
        neg = False
        tests = []
        for o, a in av:
            o = str(o)
            if o == "NEGATE":
                neg = True
            elif o == "LITERAL":
                self.chars.add(chr(a))
                tests.append(lambda c, x=chr(a): c == x)
            elif o == "RANGE":
                self.chars |= {chr(a[0]), chr(a[1])}
                tests.append(lambda c, a=a: a[0] <= ord(c) <= a[1])
            elif o == "CATEGORY":
                k = str(a)
                f = {"SPACE": str.isspace, "DIGIT": str.isdecimal, "WORD": lambda c: c.isalnum() or c == "_"}.get(k.rsplit("_", 1)[1])
                if f is None:
                    raise No
                tests.append((lambda c, f=f: not f(c)) if "_NOT_" in k else f)
            else:
                raise No
        return lambda c: any(t(c) for t in tests) != neg

    def closure(self, nodes, start, end):
        out = set(nodes)
        todo = list(nodes)
        while todo:
            for k, t in self.eps[todo.pop()]:
                if t not in out and (k == "" or k == "^" and start or k == "$" and end):
                    out.add(t)
                    todo.append(t)
        return frozenset(out)

    def first(self):
        c = self.closure([self.start], True, False)
        return c, self.kind != "fullmatch" and self.acc in c

    def step(self, s, ch):
        k = (s, ch)
        if k not in self.memo:
            nodes, done = s
            if done:
                self.memo[k] = s
            else:
                nx = {t for n in nodes for p, t in self.edges[n] if p(ch)}
                if self.kind == "search":
                    nx.add(self.start)
                c = self.closure(nx, False, False)
                d = self.kind != "fullmatch" and self.acc in c
                self.memo[k] = (frozenset() if d else c, d)
        return self.memo[k]

    def accepts(self, s, empty):
        return s[1] or self.acc in self.closure(s[0], empty, True)


AUTS, FOUND = {}, {}


def aut(pat, flags=0, kind="match", wide=False, most=60):
    """automata are shared, and with them what was worked out of their states"""
    k = (pat, flags, kind, wide, most)
    if k not in AUTS:
        AUTS[k] = Aut(*k)
    return AUTS[k]


def witness(cons):
    """a line meeting all (automaton, wanted) constraints: text, None (no such line) or False (too hard)"""
    cons = list(dict.fromkeys(cons))
    k = frozenset(cons)
    if k not in FOUND:
        FOUND[k] = search(cons)
    return FOUND[k]


def dead(a, w, s):
    """no continuation gives the wanted answer"""
    return s[1] if not w else not s[1] and not s[0] and a.kind != "search"


def search(cons):
    alpha = list(dict.fromkeys(list(BASE) + sorted(set().union(*[a.chars for a, _ in cons])))) if cons else list(BASE)
    alpha = [c for c in alpha if c not in "\n\r"]
    s0 = tuple(a.first() for a, _ in cons)
    seen = {s0}
    todo = [(s0, "")]
    i = 0
    while i < len(todo):
        s, text = todo[i]
        i += 1
        if all(a.accepts(x, not text) == w for (a, w), x in zip(cons, s)):
            return text
        if len(seen) > LIMIT:
            return False
        for c in alpha:
            n = tuple(a.step(x, c) for (a, _), x in zip(cons, s))
            if n not in seen:
                seen.add(n)
                if not any(dead(a, w, x) for (a, w), x in zip(cons, n)):
                    todo.append((n, text + c))
    return None


def stripped(q, e):
    """is the value the line, up to white space at its ends and within: 'all' white space gone, 'ends', or None"""
    if not isinstance(q, Seq):
        return None
    if len(q.p) == 1 and isinstance(q.p[0], Sl):
        p = q.p[0]
        if p.src == e:
            if p == full(e):
                return "line"
            if margin(p.lo, e) == 0 and (lin(p.hi) - length_of(e)).const == 0:
                return "start"
            return "ends" if ends(p, e) else None
        if p.src.op in ("cat", "join") and p == full(p.src):
            return stripped(p.src.args[0], e) if p.src.op == "cat" else glued(p.src.args, e)
        return None
    if len(q.p) == 1 and isinstance(q.p[0], Join) and not q.p[0].sep.p:
        return glued((q.p[0].sep, q.p[0].seq), e)
    return None


def glued(args, e):
    sep, seq = args[0], args[1]
    if isinstance(sep, Seq) and sep.p or not isinstance(seq, Seq) or len(seq.p) != 1 or not isinstance(seq.p[0], Sl):
        return None
    p = seq.p[0]
    if p == full(p.src) and p.src.op == "split" and all(a is None for a in p.src.args[1:]) and stripped(p.src.args[0], e) in ("line", "ends", "start"):
        return "all"
    return None


def margin(x, e):
    """x == lws(e, 0, len) + c -> c"""
    k = nat("lws", e, lin(0), length_of(e))
    d = lin(x) - lin(k)
    return int(d.const) if d.const is not None else None


def ends(p, e):
    if p.lo != lin(0) and margin(p.lo, e) != 0:
        return False
    d = p.hi - length_of(e)
    return all(k.op == "rws" and v == -1 for k, v in d.t.items()) and d.c == 0


def at(e, lo, text):
    """pattern for: the text stands at position lo of the line"""
    c = margin(lo, e)
    if c is not None and c >= 0:
        if c == 0 and not text[:1].strip():
            raise No
        return r"^\s*" + (r"\S" + "." * (c - 1) if c else "") + re.escape(text)
    if lin(lo).const is not None:
        return "^" + "." * int(lin(lo).const) + re.escape(text)
    raise No


def mentions(t, e, depth=0):
    if isinstance(e, dict):
        return any(mentions(t, x) for x in e)
    if t == e:
        return True
    for a in getattr(t, "args", ()) if isinstance(t, Term) else t if isinstance(t, (tuple, frozenset)) else parts(t):
        if not isinstance(a, (str, int, float, bool, type(None))) and depth < 30 and mentions(a, e, depth + 1):
            return True
    return False


def parts(v):
    if isinstance(v, Seq):
        return v.p
    if isinstance(v, Sl):
        return (v.src,)
    if isinstance(v, Join):
        return (v.sep, v.seq)
    if isinstance(v, Item):
        return (v.v,)
    if hasattr(v, "t") and isinstance(v.t, dict):
        return tuple(v.t)
    return ()


def constraints(I, st, e, most=60):
    """[(automaton, wanted)], list of facts about the line that are not expressed"""
    cons, rest = [], []
    for t, v in st.facts.items():
        if not isinstance(t, Term) or not mentions(t, e):
            continue
        try:
            p = pattern(t, e)
            if p:
                a = aut(*p, wide=bool(v), most=most)
                if a.approx:
                    rest.append(t)
                cons.append((a, bool(v)))
        except No:
            rest.append(t)
    k = lin(nat("lws", e, lin(0), length_of(e)))
    n = length_of(e)
    s = st.store
    dims = [d for d in s.dims() if isinstance(d, Term) and mentions(d, e)]
    whole = [d for d in dims if d.op == "len" and isinstance(d.args[0], Term) and d.args[0].op in ("cat", "join")
             and (stripped(d.args[0].args[0], e) if d.args[0].op == "cat" else glued(d.args[0].args, e)) == "all"]

    def bound(l, pat, less=0):
        lo = s.lower(l)
        up = next((-b for b in range(13) if s.entails_ge(lin(b) - l)), None)
        if lo is not None and lo > 0:
            cons.append((aut(pat % (lo - less), 0, "match"), True))
        if up is not None and -up < 40 and 1 - up - less >= 0:
            cons.append((aut(pat % (1 - up - less), 0, "match"), False))
    if dims:
        bound(n, "^.{%d}")
        bound(k, r"^\s{%d}")
        bound(n - k, r"^\s*\S.{%d}", 1)
        if s.entails_ge(n - k - 1):
            cons.append((aut(r"\S", 0, "search"), True))
        if s.entails_ge(k - n):
            cons.append((aut(r"\S", 0, "search"), False))
    bare = n - k - lin(nat("rws", e, k, n))
    if any(d.op == "rws" and d.args[0] == e for d in dims):
        # the length without the white space at both ends
        def least(b):
            return r"^\s*\S" + (".{%d}.*\\S" % (b - 2) if b > 1 else "")
        lo = s.lower(bare)
        up = next((b for b in range(13) if s.entails_ge(lin(b) - bare)), None)
        if lo is not None and 0 < lo < 40:
            cons.append((aut(least(int(lo))), True))
        if up is not None:
            cons.append((aut(least(up + 1)), False))
        for b in range(1, 13):
            if any((x - (bare - b)).const == 0 or (x + (bare - b)).const == 0 for x in s.ne):
                cons.append((aut(r"^\s*\S" + (".{%d}\\S" % (b - 2) if b > 1 else "") + r"\s*$"), False))
    for d in whole:
        bound(lin(d), r"^(?:\s*\S){%d}")
    for d in dims:
        if d.op == "run" and d.args[0] == e and lin(d.args[2]) == n:
            cs = getattr(d.args[3], "args", (d.args[3],))[0]
            m = "" if lin(d.args[1]) == lin(0) else r"\s*" if margin(d.args[1], e) == 0 and isinstance(cs, str) and cs.strip() == cs else None
            if isinstance(cs, str) and cs and m is not None:
                bound(lin(d), "^" + m + "[" + "".join(re.escape(c) for c in cs) + "]{%d}")
    for d in dims:
        if value(d, e, "") is None and d.op != "take":
            rest.append(d)
    return cons, rest


def value(d, e, text):
    """a number the analysis talks about, on a given line"""
    try:
        x = conc(d, e, text)
    except (No, IndexError, TypeError, ValueError, AttributeError, re.error, RecursionError):
        return None
    return x if isinstance(x, int) else None


def compiled(key):
    if not isinstance(key, tuple) or key[0] is None:
        raise No
    return re.compile(*key)


def text_of(x, e, text):
    r = conc(x, e, text)
    if not isinstance(r, str):
        raise No
    return r


def num(x, e, text):
    r = value_of(x, e, text)
    if r is None or r != int(r):
        raise No
    return int(r)


EDITS = ("upper", "lower", "title", "capitalize", "casefold", "swapcase", "expandtabs", "removeprefix", "removesuffix")


def conc(t, e, text):
    """what a term of the analysis is on a given line (or on given lines, by their terms)"""
    if t is None or isinstance(t, (str, int)):
        return t
    if isinstance(t, Num):
        return num(t.lin, e, text)
    if isinstance(t, Seq):
        out = "" if t.kind == "str" else []
        for p in t.p:
            if isinstance(p, Lit):
                out += p.s
            elif isinstance(p, Item):
                out += [conc(p.v, e, text)]
            elif isinstance(p, Sl):
                src = conc(p.src, e, text)
                lo, hi = num(p.lo, e, text), num(p.hi, e, text)
                if lo < 0 or hi < 0:
                    raise No
                out += src[lo:hi]
            elif isinstance(p, Join):
                out += text_of(p.sep, e, text).join(conc(p.seq, e, text))
            elif isinstance(p, Rep):
                v = conc(p.v, e, text)
                out += (v if t.kind == "str" else [v]) * num(p.n, e, text)
            else:
                raise No
        return out
    if not isinstance(t, Term):
        raise No
    if isinstance(e, dict):
        if t in e:
            return e[t]
    elif t == e:
        return text
    op, a = t.op, t.args
    if op in ("lws", "rws", "run", "rrun", "wordlen"):
        lo, hi = num(a[1], e, text), num(a[2], e, text)
        part = text_of(a[0], e, text)[max(lo, 0):max(hi, 0)]
        if op == "lws":
            return len(part) - len(part.lstrip())
        if op == "rws":
            return len(part) - len(part.rstrip())
        if op == "wordlen":
            return len(re.match(r"\S*", part).group())
        cs = getattr(a[3], "args", (None,))[0] if not isinstance(a[3], str) else a[3]
        if not isinstance(cs, str):
            raise No
        return len(part) - len(part.lstrip(cs) if op == "run" else part.rstrip(cs))
    if op == "len":
        return len(conc(a[0], e, text))
    if op in ("cat", "lst"):
        return conc(a[0], e, text)
    if op in ("s", "c") and isinstance(a[0], str):
        return a[0]
    if op == "join":
        return text_of(a[0], e, text).join(conc(a[1], e, text))
    if op == "split":
        sep, most = conc(a[1], e, text), conc(a[2], e, text)
        return text_of(a[0], e, text).split(sep, -1 if most is None else most)
    if op == "resplit" and len(a) == 2 and isinstance(a[1], str):
        return re.split(a[1], text_of(a[0], e, text))
    if op in ("mcall", "replace") + EDITS and a:
        # a method of texts, with arguments that are known
        name, rest = (a[1], a[2:]) if op == "mcall" else (op, a[1:])
        args = [conc(x, e, text) for x in rest]
        if name not in EDITS + ("replace",) or not all(isinstance(x, (str, int)) for x in args):
            raise No
        return getattr(text_of(a[0], e, text), name)(*args)
    if op == "int" and len(a) == 1:
        return a[0] if isinstance(a[0], int) else num(lin(a[0]), e, text)
    if op == "count" and len(a) == 2:
        return text_of(a[0], e, text).count(text_of(a[1], e, text))
    if op == "elem":
        i = num(a[1], e, text)
        if i < 0:
            raise No
        return conc(a[0], e, text)[i]
    if op in ("ms", "me", "gs", "ge") and isinstance(a[0], Term) and a[0].op == "rxm":
        m = getattr(compiled(a[0].args[1]), a[0].args[0])(text_of(a[0].args[2], e, text))
        if op in ("ms", "me"):
            return (m.start() if op == "ms" else m.end()) if m else 0
        return (m.start(a[1]) if op == "gs" else m.end(a[1])) if m else 0
    raise No


def value_of(l, e, text):
    r = lin(l).c
    for k, c in lin(l).t.items():
        v = value(k, e, text) if isinstance(k, Term) and mentions(k, e) else None
        if v is None:
            return None
        r += c * v
    return r


def fits(st, e, text):
    """does the line meet every numeric constraint of the state that is about it alone? True / False / None"""
    s = st.store
    ok = True
    for kind, ls in (("ge", s.ge), ("ne", s.ne), ("eq", [lin(d) - x for d, x in s.eq.items()])):
        for l in ls:
            ds = [d for d in l.t if isinstance(d, Term)]
            if not any(mentions(d, e) for d in ds):
                continue
            if not all(mentions(d, e) for d in ds):
                if kind != "ge":
                    ok = None
                continue
            v = value_of(l, e, text)
            if v is None:
                ok = None
            elif kind == "ge" and v < 0 or kind == "ne" and v == 0 or kind == "eq" and v != 0:
                return False
    return ok


def possible(I, st, e, extra=()):
    """can the line be such that this state is reached, and be in (or not in) the languages of further patterns:
    (True, example) / (False, None) / (None, why)"""
    cons, rest = constraints(I, st, e, 60 if not extra else 2000)
    more = [(re.compile(p), v) for p, v in extra]
    cons = cons + [(aut(p, 0, "match", most=2000), v) for p, v in extra]
    w = witness(cons)
    if w is None:
        return False, None
    if w is False:
        return None, "too many states"
    if not rest and fits(st, e, w) is True:
        return True, w
    facts = [(t, bool(v)) for t, v in st.facts.items() if isinstance(t, Term) and mentions(t, e)]
    for x in candidates(w, cons):
        if fits(st, e, x) is True and all(holds(t, e, x) is v for t, v in facts) and all(bool(p.match(x)) is v for p, v in more):
            return True, x
    if rest:
        return None, str(rest[0])[:120]
    return None, f"{w!r} meets the facts, not the lengths"


def candidates(w, cons, most=2):
    """lines close to a line that meets the constraints, shortest first"""
    alpha = [c for c in dict.fromkeys("a \t" + "".join(sorted(set().union(set(), *[a.chars for a, _ in cons])))) if c not in "\n\r"][:12]
    ends = [""]
    for _ in range(most):
        ends += [x + c for x in ends if len(x) == _ for c in alpha]
    for x in ends:
        yield w + x
        if x and w:
            yield x + w
    for c in ("\t", " ", "  ", "a"):
        if len(w) > 1:
            yield c.join(w)
            yield w[0] + c + w[1:]
            yield w[:-1] + c + w[-1]


def holds(t, e, text):
    """is a fact true on a given line"""
    try:
        op, a = t.op, t.args
        if op == "rxm":
            return getattr(compiled(a[1]), a[0])(text_of(a[2], e, text)) is not None
        if op == "sw" and isinstance(a[-1], str):
            return text_of(a[0], e, text)[max(num(a[1], e, text), 0):max(num(a[2], e, text), 0)].startswith(a[-1])
        if op == "lit" and isinstance(a[-1], str):
            return text_of(a[0], e, text).startswith(a[-1], max(num(a[1], e, text), 0))
        if op == "in":
            return conc(a[0], e, text) in conc(a[1], e, text)
        if op == "eq":
            return conc(a[0], e, text) == conc(a[1], e, text)
        if op == "allch":
            return set(text_of(a[1], e, text)) <= set(a[0])
    except (No, IndexError, TypeError, ValueError, AttributeError, re.error, RecursionError):
        pass
    if isinstance(e, dict):
        return None
    try:
        p = pattern(t, e)
        return getattr(re.compile(p[0], p[1]), p[2])(text) is not None
    except (No, re.error, TypeError, IndexError):
        return None


def pattern(t, e):
    if t.op == "rxm":
        kind, key, seq = t.args[0], t.args[1], t.args[2]
        how = stripped(seq if isinstance(seq, Seq) else Seq("str", (full(seq),)), e)
        if not isinstance(key, tuple) or key[0] is None:
            raise No
        if how == "line":
            return key[0], key[1], kind
        if how == "start" and kind == "match" and (rx.prefix(key[0], key[1]) or " ")[0].strip():
            return r"\s*(?:" + key[0] + ")", key[1], kind
        raise No
    if t.op in ("sw", "lit"):
        if t.args[0] != e:
            raise No
        text = t.args[-1]
        if not isinstance(text, str):
            raise No
        if t.op == "sw":
            d = lin(t.args[2]) - length_of(e)
            w = (lin(t.args[2]) - lin(t.args[1])).const
            if w is not None and w >= len(text) and d.c == 0 and (not d.t or d.t and text[-1:].strip() and w == len(text) and all(k.op == "rws" and v == -1 for k, v in d.t.items())):
                return ".*" + re.escape(text) + "." * int(w - len(text)) + (r"\s*" if d.t else "") + "$", 0, "match"
            if w is not None and w >= len(text):
                d = lin(0)
            elif w is not None:
                raise No
            if d.t and not (all(k.op == "rws" for k in d.t) and text[-1:].strip()) or not d.t and d.c < 0:
                raise No
        if t.op == "lit":
            d = lin(t.args[1]) - length_of(e)
            if d.const is not None and -d.const >= len(text):
                return ".*" + re.escape(text) + "." * int(-d.const - len(text)) + "$", 0, "match"
        return at(e, t.args[1], text), 0, "match"
    if t.op == "allch":
        how = stripped(t.args[1], e)
        cs = "[" + "".join(re.escape(c) for c in t.args[0]) + "]"
        if how == "all":
            return r"(?:\s|" + cs + ")*", 0, "fullmatch"
        if how == "ends":
            return r"\s*" + cs + r"*\s*", 0, "fullmatch"
        if how == "line":
            return cs + "*", 0, "fullmatch"
        raise No
    raise No
