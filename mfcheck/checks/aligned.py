"""C33: the columns of a rendered table line up and keep their alignment."""
import itertools

from ..interp import Exc, Config
from ..report import Report
from ..terms import Term, Lin, lin
from ..values import *
from .code import trail
from .content import show
from .fmt import *
from .precedence import elem
from .. import lang

CELL = r"re.split(r'(?<!\\)\|', line.strip())[%d].strip()"
KNOWN = [("|a|", "|%s|"), ("|abcde|f|", "|%s|-|"), ("|f|abcde|", "|---|%s|")]
MARKS = ["-", ":-", "-:", ":-:", "------"]


def cells(ps):
    """pieces of each cell of a rendered row; None if the row is not |...|"""
    out = [[]]
    for p in ps:
        if isinstance(p, Lit):
            parts = p.s.split("|")
            for i, x in enumerate(parts):
                if i:
                    out.append([])
                if x:
                    out[-1].append(Lit(x))
        else:
            out[-1].append(p)
    if len(out) < 3 or out[0] or out[-1]:
        return None
    return out[1:-1]


def mark(ps, st, at):
    """is the first (last) character a colon: True / False / None"""
    for p in ps if at == 0 else reversed(ps):
        if isinstance(p, Lit):
            return p.s[at] == ":"
        if isinstance(p, Rep) and p.v.const in ("-", " ") or not isinstance(p, Rep):
            n = seq_len(Seq("str", (p,)))
            if st.store.entails_ge(n - 1) and isinstance(p, Rep):
                return False
            if st.store.entails_eq(n):
                continue
            if isinstance(p, Rep):
                # one dash or none: what is next decides, unless it is a colon
                continue
        return None
    return None


def blank(ps, at):
    """does a cell begin (end) with a blank"""
    p = ps[at] if ps else None
    return isinstance(p, Lit) and p.s[at] == " "


def lines_of(I, st, v):
    """[pieces] of the lines of a rendered table, or None"""
    if not isinstance(v, Seq):
        return None
    ls = as_lines(I.norm_seq(v, st), st)
    return [x for _, x in ls] if all(kind == "one" for kind, _ in ls) else None


class Judge:
    def __init__(self, rep, where, bounded="bounded"):
        self.rep, self.w, self.bad, self.seen = rep, where, {}, set()

    def put(self, rule, r, what, st):
        self.seen.add(rule)
        if r is not True and (rule not in self.bad or self.bad[rule][0] is None):
            self.bad[rule] = (r, what, trail(st))

    def done(self):
        for rule in sorted(self.seen):
            r, what, tr = self.bad.get(rule, ("bounded", "holds", ()))
            self.rep.ob(rule, r, self.w, what, tr)


def level(J, I, st, v, what):
    """all lines are equally long and their dividers stand below each other"""
    ls = lines_of(I, st, v)
    if ls is None:
        J.put("C33.level", None, f"{what}: {show(v)}", st)
        return None
    rows = [cells(x) for x in ls]
    for i, row in enumerate(rows):
        if row is None or rows[0] is None or len(row) != len(rows[0]):
            J.put("C33.level", None, f"{what}: {show(v)}", st)
            return None
        for a, b in zip(rows[0], row):
            # no piece of text has a negative length
            st = I.with_ge(st, *[p.hi - p.lo for p in a + b if isinstance(p, Sl)]) or st
            d = st.store.norm(seq_len(Seq("str", tuple(a))) - seq_len(Seq("str", tuple(b))))
            r = True if st.store.entails_eq(d) else False if can(st, d - 1) or can(st, -d - 1) else None
            J.put("C33.level", r, f"{what}: line 1 and line {i + 1} have cells of different width", st)
        if i != 1:
            for c in row:
                J.put("C33.apart", blank(c, 0) and blank(c, -1) or None if c else None, f"{what}: a cell touches its divider: {show(tuple(c))}", st)
    return rows


def blanks(ps):
    """how many blanks a cell begins with (its pieces in that order or reversed): (number, is text left)"""
    n = lin(0)
    for p, rev in ps:
        if isinstance(p, Lit):
            t = p.s[::-1] if rev else p.s
            n = n + (len(t) - len(t.lstrip(" ")))
            if t.strip(" "):
                return n, True
        elif isinstance(p, Rep) and p.v.const is not None and not p.v.const.strip(" "):
            n = n + seq_len(Seq("str", (p,)))
        else:
            return n, True
    return n, False


def place(J, I, st, rows, marks, what):
    """the text of a cell stands where the divider row says"""
    for i, row in enumerate(rows):
        if i == 1:
            continue
        for c, m in zip(row, marks):
            a, text = blanks([(p, False) for p in c])
            b, _ = blanks([(p, True) for p in reversed(c)])
            if not text:
                continue
            left, right = m[0] == ":", m[-1] == ":"
            if left and not right or not i == 0 and not right:
                good, bad, how = [lin(1) - a], [a - 2], "left"
            elif right and not left:
                good, bad, how = [lin(1) - b], [b - 2], "right"
            else:
                good, bad, how = [a - b + 1, b - a + 1], [a - b - 2, b - a - 2], "centre"
            r = True if all(st.store.entails_ge(x) for x in good) else False if any(can(st, x) for x in bad) else None
            J.put("C33.place", r, f"{what}: a cell of line {i + 1} is not at its {how}: {show(tuple(c))}", st)


def base(x, out):
    """the lengths of the document's text a number is made of; False if there is anything else in it"""
    for k in lin(x).t:
        if not isinstance(k, Term):
            return False
        if k.op == "floordiv":
            if not base(k.args[0], out):
                return False
        elif k.op == "max0":
            if not base(k.args[0], out):
                return False
        elif k.op in ("len", "lws", "rws") and rooted(k):
            out.setdefault(k)
        else:
            return False
    return True


def rooted(t):
    """a part of a given text, nothing picked by the program"""
    if isinstance(t, Term):
        return t.op in ("var", "c", "s") or t.op in ("len", "lws", "rws", "elem", "resplit", "split", "cat", "lst", "join") and all(map(rooted, t.args))
    if isinstance(t, Seq):
        return all(map(rooted, t.p))
    if isinstance(t, Sl):
        return rooted(t.src) and all(rooted(k) for x in (t.lo, t.hi) for k in lin(x).t)
    if isinstance(t, Lin):
        return all(map(rooted, t.t))
    return isinstance(t, (Lit, str, int, float, type(None)))


def value(x, env):
    """None: something else is in it"""
    n = lin(x).c
    for k, c in lin(x).t.items():
        if k in env:
            n += c * env[k]
        elif isinstance(k, Term) and k.op == "max0":
            v = value(k.args[0], env)
            if v is None:
                return None
            n += c * max(v, 0)
        elif isinstance(k, Term) and k.op == "floordiv":
            v = value(k.args[0], env)
            if v is None:
                return None
            n += c * (v // int(lin(k.args[1]).const if not isinstance(k.args[1], int) else k.args[1]))
        else:
            return None
    return n


def can(st, *xs):
    """is there a text for which every x >= 0: the lengths are tried"""
    d = {}
    s = st.store
    xs = [s.norm(x) for x in xs]
    if not all(base(x, d) for x in xs) or len(d) > 6:
        return False
    d = list(d)
    for vs in itertools.product(range(5 if len(d) < 5 else 4), repeat=len(d)):
        env = dict(zip(d, vs))
        if any(value(x, env) < 0 for x in xs) or any(k.op in ("lws", "rws") and beyond(k, env) for k in d):
            continue
        if all(value(l, env) is None or value(l, env) >= 0 for l in s.ge) and all(value(l, env) != 0 for l in s.ne) \
                and all(value(lin(k) - e, env) in (None, 0) for k, e in s.eq.items()):
            return True
    return False


def beyond(k, env):
    """no more blanks than there is text"""
    room = value(lin(k.args[2]) - lin(k.args[1]), env)
    return room is not None and env[k] > max(room, 0)


DIVIDERS = ["|" + "|".join(c) + "|" for n in (1, 2) for c in itertools.product((":-", "-:", ":-:", "--", "", "-", ":", "::", ":--"), repeat=n)]


def real(st, e):
    """a divider row with which the state is reached, as far as that line goes"""
    facts = [(t, bool(v)) for t, v in st.facts.items() if isinstance(t, Term) and lang.mentions(t, e)]
    for x in DIVIDERS:
        if all(lang.holds(t, e, x) is v for t, v in facts) and lang.fits(st, e, x) is not False:
            return x
    return None


def check(prog, rep, prop, tier):
    def make(mode, budget):
        return Section(prog, "TABLE", mode, budget, cfg=Config())

    def free(rep, S):
        J = Judge(rep, S.where)
        for st, v, k in S.res:
            if isinstance(v, Exc):
                continue
            rows = level(J, S.I, st, v, "a table")
            if rows is None or len(rows) < 2:
                continue
            st1, line = line_value(S.I, st, S.doc, 1)
            for i, c in enumerate(rows[1]):
                for at, q in ((0, "startswith"), (-1, "endswith")):
                    for s, x in ask(S.I, st1, S.cls.mod, (CELL % (i + 1)) + f".{q}(':')", line=line):
                        if isinstance(x, Exc):
                            continue
                        for s2, b in S.I.branch(s, S.I.truth(x, s)):
                            m = mark(c, s2, at)
                            J.put("C33.marks", None if m is None else m is b or (False if real(s2, elem(S.doc, 1)) else None),
                                  f"column {i + 1}: the {'left' if at == 0 else 'right'} colon is {'dropped' if b else 'added'}", s2)
        J.done()
    sections(prog, rep, "TABLE", [("peel", 1)], free, "C33.level", make)
    known(prog, rep, tier)
    return rep


def known_tables(prog, budget=2, kinds=MARKS):
    """tables of a known header and divider row and one more row: (unit, header, divider row, state, result)"""
    S = Section(prog, "TABLE", "peel", 1, cfg=Config(), run=False)
    S.I.cfg.free_while = True
    frame = S.I.module_frame(S.cls.mod)
    st0, r0 = S.I.value_of(S.doc, S.u.st)
    st0, line = line_value(S.I, st0, S.doc, 0)
    for head, div in KNOWN:
        for m in kinds:
            st, ref = S.I.new_list(st0, (Item(seq(head)), Item(seq(div % m)), Item(line)))
            for s, x in ask(S.I, st, S.cls.mod, "line.strip().startswith('|')", line=line):
                for s2, b in [] if isinstance(x, Exc) else S.I.branch(s, S.I.truth(x, s)):
                    if b:
                        s2 = s2.copy()
                        s2.budget = budget
                        S.res = []
                        S.run(s2, ref, "reformatted", frame)
                        for s3, v, _ in S.res:
                            yield S, head, div % m, s3, v


def known(prog, rep, tier):
    J = None
    for S, head, div, st, v in known_tables(prog):
        J = J or Judge(rep, S.where)
        if isinstance(v, Exc):
            continue
        what = f"a table {head} {div} and one more row"
        rows = level(J, S.I, st, v, what)
        if rows is None:
            continue
        marks = div.strip("|").split("|")
        place(J, S.I, st, rows, marks, what)
        for c, src in zip(rows[1], marks):
            for at in (0, -1):
                y = mark(c, st, at)
                J.put("C33.marks", None if y is None else y is (src[at] == ":"), f"{what}: the divider row becomes {show(tuple(c))}", st)
    if J is None or "C33.place" not in J.seen:
        rep.ob("C33.place", None, "table", "no table is rendered")
    if J is not None:
        J.done()


def seq(s):
    return Seq("str", (Lit(s),))
