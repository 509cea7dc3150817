"""C23: the rows of a rendered table hold the cells of the rows it was made of."""
import ast
import itertools
import re

from .. import rx, lang
from ..cover import complete_view
from ..interp import Exc, Config
from ..terms import Term, lin
from ..values import *
from .fmt import *
from .code import trail, first_elem
from .content import show, verdict
from .util import walk
from .aligned import known_tables
from .precedence import elem


def join_loops(prog):
    """states are joined after an if inside a loop: cell by cell choices do not multiply"""
    inside = set()
    for f in prog.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, (ast.For, ast.While)):
                inside.update(id(m) for m in ast.walk(n) if isinstance(m, ast.If))
    return lambda n: id(n) in inside


def dividers(pieces):
    """patterns of re.split in the origin of a text: what they match is dropped"""
    return {x.args[1] for x in walk(tuple(pieces)) if x.op == "resplit" and isinstance(x.args[1], str)}


def check(prog, rep, prop, tier):
    def make(mode, budget):
        c = Config()
        c.join_if = join_loops(prog)
        return Section(prog, "TABLE", mode, budget, cfg=c)

    def evaluate(rep, S):
        for st, v, k in S.res:
            if isinstance(v, Exc):
                continue
            w = S.where
            if not isinstance(v, Seq) or k is None:
                rep.ob("C23.cells", None, w, show(v))
                continue
            v = S.I.norm_seq(v, st)
            rows(rep, S, st, v, k, w)
    sections(prog, rep, "TABLE", [("peel", 1), ("peel", 2)] if tier == "quick" else [("peel", 1), ("peel", 2), ("peel", 3)], evaluate, "C23.cells", make)

    accepted(prog, rep)
    return rep


def columns(ps):
    """number of cells of a rendered row, None if not known"""
    n = -1
    for p in ps:
        if isinstance(p, Lit):
            n += p.s.count("|")
        elif isinstance(p, Rep):
            if p.v.const is None or "|" in p.v.const:
                return None
        elif not isinstance(p, (Img, Sl)):
            return None
    return n


def rows(rep, S, st, v, k, w):
    ls = as_lines(v, st)
    i = lin(0)
    for kind, x in ls:
        if kind == "many":
            rep.ob("C23.cells", None, w, f"rows {show(x)}", trail(st))
            return
        if not st.store.entails_eq(i - 1):
            e = first_elem(S.doc, st.store.norm(i))
            ps = S.I.norm_seq(Seq("str", x), st).p
            decor = {"|"} | dividers(ps)
            for pat in dividers(ps):
                ok = None if rx.head_char(pat) != "|" else "\\" in rx.not_after(pat)
                rep.ob("C23.escaped", ok, w, f"rows are split by {pat!r}, which matches an escaped divider", trail(st))
            r, atoms = complete_view(ps, st, e, "nonws", tuple(decor))
            r = verdict(r, ps)
            if r is False and blank(ps) and not text_in(st, elem(S.doc, st.store.norm(i).const), ps):
                r = None        # a row of empty cells
            rep.ob("C23.cells", r, w, f"row {i} is rendered as {show(ps)}; atoms {show(atoms, 600)}", trail(st))
        i = i + 1
    n = {columns(x) for kind, x in ls}
    rep.ob("C23.shape", None if None in n else len(n) == 1, w, f"a table of rows with {n} columns: {show(v)}", trail(st))
    d = st.store.norm(i - k)
    rep.ob("C23.rows", True if st.store.entails_eq(d) else False if d.const else None, w,
           f"{i} lines are rendered for {k} rows", trail(st))


def count(line):
    """cells of a row: escaped dividers are text, the closing divider may be missing"""
    out = re.split(r"(?<!\\)\|", line.strip())[1:]
    return len(out) - (len(out) > 1 and not out[-1].strip())


ROWS = {}
for _n in (1, 2, 3):
    for _c in itertools.product(("a", " ", "", "a\\|b", "b c"), repeat=_n):
        for _e in ("|", "", "| "):
            _x = "|" + "|".join(_c) + _e
            ROWS.setdefault(count(_x), []).append(_x)


def text_in(st, e, ps):
    """is there a row whose text is not rendered: True unless every row that agrees with what is known comes out whole"""
    facts = [(t, bool(b)) for t, b in st.facts.items() if isinstance(t, Term) and lang.mentions(t, e)]
    for x in (x for r in ROWS.values() for x in r if x.strip(" |")):
        if lang.fits(st, e, x) is False or any(lang.holds(t, e, x) is (not b) for t, b in facts):
            continue
        try:
            out = lang.conc(Seq("str", tuple(ps)), e, x)
        except Exception:
            return False        # not known
        if plain(out) != plain(x):
            return True
    return False


def blank(ps):
    """is there a cell that is rendered as nothing but blanks?"""
    return any(
        re.search(r"\|\s*\|", p.s) if isinstance(p, Lit) else isinstance(p, Img) and not p.views
        for p in ps
    )


def plain(row):
    return "".join(re.sub(r"(?<!\\)\|", "", row).split())


def accepted(prog, rep):
    """a row with as many cells as the header is not rejected, another one is"""
    bad, seen = {}, set()
    where = "table"
    fmt = prog.public("markflow.exceptions", "MarkdownFormatException", "cls")
    for S, head, div, st, v in known_tables(prog, 3, ("-",)):
        where = S.where
        # with another exception the table is not rejected as documented
        exc = isinstance(v, Exc) and (not v.v.exact or prog.is_subclass(v.v.cls, fmt))
        rule = "C23.accepted" if exc else "C23.rejected"
        seen.add(rule)
        if rule in bad and bad[rule][0] is False:
            continue
        e = elem(S.doc, 0)
        facts = [(t, bool(b)) for t, b in st.facts.items() if isinstance(t, Term) and lang.mentions(t, e)]
        for x in ROWS[count(head)] if exc else [x for n, r in ROWS.items() if n != count(head) for x in r]:
            if not all(lang.holds(t, e, x) is b for t, b in facts):
                continue
            ok = lang.fits(st, e, x)
            if ok is False:
                continue
            if ok or rule not in bad:
                how = "rejected" if exc else "answered with " + str(v.v) if isinstance(v, Exc) else "accepted"
                bad[rule] = (False if ok else None, f"a table {head} {div} with the row {x!r} is {how}", trail(st))
            if ok:
                break
    for rule in ("C23.accepted", "C23.rejected"):
        r, what, tr = bad.get(rule) or ("bounded", "holds", ())
        rep.ob(rule, r if rule in seen else None, where, what if rule in seen else "no such outcome", tr)
