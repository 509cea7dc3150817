"""C32: a section takes the lines of its construct, no fewer and no more."""
import ast

from .. import lang
from ..interp import Exc
from ..terms import Term, lin
from ..values import *
from .code import trail
from .fmt import *
from .precedence import start, run, asked, elem, order, before, accepted, declined
from .partition import list_of

THEMATIC = r"\s{0,3}(?:(?:\*\s*){3,}|(?:-\s*){3,}|(?:_\s*){3,})$"
BLANK = r"\s*$"
UNDERLINE = r"\s{0,3}(?:=+|-+)\s*$"
# what surely opens a section of the kind when no section is open, and what at most does
CORE = {"ATX_HEADING": r"\s{0,3}#{1,6}(?:\s|$)", "BLANK_LINE": BLANK, "BLOCK_QUOTE": r"\s{0,3}>", "FENCED_CODE_BLOCK": r"\s{0,3}(?:```|~~~)[^`~]*$",
        "TABLE": r"\s{0,3}\|", "THEMATIC_BREAK": THEMATIC, "BULLET_LIST": r"\s{0,3}[-+*] \s*[^\s*_-]", "ORDERED_LIST": r"\s{0,3}[0-9]{1,9}\. \s*\S",
        "INDENTED_CODE_BLOCK": r"\s{4,}\S"}
WIDE = {"ATX_HEADING": r"\s*#", "BLANK_LINE": BLANK, "BLOCK_QUOTE": r"\s*>", "FENCED_CODE_BLOCK": r"\s*(?:```|~~~)", "TABLE": r"\s*\|",
        "THEMATIC_BREAK": r"\s*(?:(?:\*\s*){3,}|(?:-\s*){3,}|(?:_\s*){3,})$", "BULLET_LIST": r"\s*[-+*](?:\s|$)", "ORDERED_LIST": r"\s*[0-9]+[.)](?:\s|$)",
        "INDENTED_CODE_BLOCK": r"\s{4,}"}
# what surely ends an open paragraph
ENDS = dict(CORE, ORDERED_LIST=r"\s{0,3}1\. \s*\S")
del ENDS["INDENTED_CODE_BLOCK"]
STOP = "(?:" + "|".join(WIDE[k] for k in ENDS) + "|" + UNDERLINE + ")"
ANY = "(?:" + "|".join(ENDS.values()) + ")"
SIMPLE = ("ATX_HEADING", "BLANK_LINE", "THEMATIC_BREAK")
LABEL = r"\s{0,3}\[[^\]]{1,999}\]:"


def asked_of(I, st, doc, prog, names):
    """what other detectors said about the lines: {line: [(pattern, in it)]}"""
    out = {}
    for d in st.store.dims():
        if not isinstance(d, Term) or d.op != "take":
            continue
        kind = names.get(d.args[0])
        lt = d.args[1]
        if lt == doc:
            i = 0
        else:
            q = lt.args[0] if isinstance(lt, Term) and lt.op == "lst" else None
            p = q.p[0] if isinstance(q, Seq) and len(q.p) >= 1 else None
            i = None
            if isinstance(p, Sl) and p.src == doc:
                i = st.store.norm(lin(p.lo)).const
            elif isinstance(p, Item):
                t = I.term(p.v, st)
                if isinstance(t, Term) and t.op == "elem" and t.args[0] == doc:
                    i = st.store.norm(lin(t.args[1])).const
        if kind is None or i is None:
            continue
        if st.store.entails_ge(-lin(d)):
            if kind in CORE:
                out.setdefault(int(i), []).append((CORE[kind], False))
        elif st.store.entails_ge(lin(d) - 1) and kind in WIDE:
            out.setdefault(int(i), []).append((WIDE[kind], True))
    return out


class Judge:
    """collects, for one detector, what was shown of its outcomes"""

    def __init__(self, rep, u, names):
        self.rep, self.u, self.names, self.bad = rep, u, names, {}
        self.w = f"{u.fn.loc} ({u.fn.qual})"
        self.seen = set()

    def no(self, rule, st, i, pats, what):
        """line i cannot be in / out of these languages"""
        I = self.u.I
        self.seen.add(rule)
        asked = asked_of(I, st, self.u.doc, None, self.names).get(i, [])
        ok, ex = lang.possible(I, st, elem(self.u.doc, i), list(pats) + asked)
        if ok is False:
            return True
        self.put(rule, False if ok else None, st, what + (f", e.g. line {i + 1}: {ex!r}" if ok else f" ({ex})"))
        return False

    def can(self, st, i, pats):
        """True / False / None: can line i be in (out of) these languages"""
        asked = asked_of(self.u.I, st, self.u.doc, None, self.names).get(i, [])
        return lang.possible(self.u.I, st, elem(self.u.doc, i), list(pats) + asked)

    def put(self, rule, r, st, what):
        self.seen.add(rule)
        if r is not True and (rule not in self.bad or self.bad[rule][0] is None):
            self.bad[rule] = (r, what, trail(st))

    def done(self):
        for rule in sorted(self.seen):
            r, what, tr = self.bad.get(rule, ("bounded" if self.u.mode != "fix" else True, "holds", ()))
            self.rep.ob(rule, r, self.w, what, tr)


def states(u, rs):
    """[(state, number of lines taken)] for the outcomes that take lines"""
    out = []
    for s, k in rs:
        if k is None:
            out.append((s, None))
            continue
        c = s.store.norm(k).const
        if c is not None:
            if c:
                out.append((s, int(c)))
            continue
        s2 = u.I.with_ge(s, k - 1)
        if s2 is not None:
            c = s2.store.norm(k).const
            out.append((s2, int(c) if c is not None else None))
    return out


def rest_of(u, s, k):
    """the state in which a line follows those taken"""
    return u.I.with_ge(s, length_of(u.doc) - k - 1)


def first_lines(J, rs, kind):
    """which first lines a detector takes and which it declines"""
    u = J.u
    for s, k in accepted(u, rs):
        J.no("C32.opens", s, 0, [(WIDE[kind], False)], f"a line of another kind opens: {kind.lower()}")
    for s, k in declined(u, rs):
        J.no("C32.declined", s, 0, [(CORE[kind], True)], f"a line that opens one is declined: {kind.lower()}")


def lines_of(J, rs, kind, seq, prog):
    u = J.u
    for s, k in states(u, rs):
        if k is None:
            J.put("C32.extent", None, s, "the number of lines taken is not known")
            continue
        nxt = rest_of(u, s, k)
        what = f"a section takes a line that is not its: {kind.lower()}"
        cut = f"a section ends before a line that is its: {kind.lower()}"
        if kind in SIMPLE:
            J.put("C32.extent", k == 1, s, f"{k} lines are taken: {kind.lower()}")
        elif kind == "TABLE":
            for i in range(k):
                J.no("C32.extent", s, i, [(WIDE["TABLE"], False)], what)
            if nxt is not None:
                J.no("C32.short", nxt, k, [(CORE["TABLE"], True)], cut)
        elif kind == "INDENTED_CODE_BLOCK":
            for i in range(k):
                J.no("C32.extent", s, i, [(r"\s*$|\s{4,}", False)], what)
            if nxt is not None:
                J.no("C32.short", nxt, k, [(CORE[kind], True)], cut)
        elif kind in ("BULLET_LIST", "ORDERED_LIST"):
            for i in range(1, k):
                J.no("C32.extent", s, i, [(f"{BLANK}|{THEMATIC}|{CORE['TABLE']}", True)], what)
            if nxt is not None:
                J.no("C32.short", nxt, k, [(STOP, False)], cut)
        elif kind in ("PARAGRAPH", "SETEXT_HEADING"):
            last = k if kind == "PARAGRAPH" else k - 1
            for i in range(1, last):
                J.no("C32.extent", s, i, [(ANY, True)], what)
            if last < k:
                J.no("C32.underline", s, k - 1, [(UNDERLINE, False)], "a heading whose last line does not underline it")
                if k == 1:
                    J.put("C32.underline", False, s, "a heading of one line")
            elif nxt is not None:
                a, ex = J.can(nxt, k, [(STOP, False)])
                b, _ = J.can(nxt, k - 1, [(r".*  $", False)]) if a is not False else (False, None)
                J.put("C32.short", True if False in (a, b) else False if a and b else None, s, cut + (f", e.g. {ex!r}" if a else f" ({ex})"))
        elif kind == "BLOCK_QUOTE":
            for i in range(1, k):
                J.no("C32.extent", s, i, [(WIDE["BLOCK_QUOTE"], False), (ANY, True)], what)
            if nxt is not None:
                J.no("C32.short", nxt, k, [(CORE["BLOCK_QUOTE"], True)], cut)
        elif kind == "LINK_REFERENCE_DEFINITION":
            J.no("C32.opens", s, 0, [(LABEL, False)], what)
            for i in range(1, k):
                J.no("C32.extent", s, i, [(BLANK, True)], what)
            closed(J, s, k)


QUOTED = r"(?:'[^'\\\\]+'|\"[^\"\\\\]+\")\s*$"


def searches(st, e):
    """[(fact, holds)] for what was searched for in the line"""
    def about(t):
        return isinstance(t, Term) and (t.op == "rxm" and t.args[0] in ("search", "match", "fullmatch") or t.op == "mcall" and t.args[1] in ("search", "match", "fullmatch"))
    out = []
    for t, v in st.facts.items():
        q = t.args[0] if isinstance(t, Term) and t.op == "truthy" else t
        if about(q) and lang.mentions(q.args[2] if len(q.args) > 2 else q, e):
            out.append((t, bool(v)))
    return out


def closed(J, s, k):
    """lines after the destination are a title that is closed on the last of them"""
    u = J.u
    last = elem(u.doc, k - 1)
    found = searches(s, last)
    what = "a title that is not closed takes the line"
    if k > 2:
        a, ex = J.can(s, k - 1, [(r".*['\")]\s*$", False)])
        J.put("C32.closed", True if a is False or any(v for _, v in found) else False if a or found else None, s, what + f", e.g. {ex!r}")
    elif k == 2 and found:
        J.put("C32.closed", any(v for _, v in found), s, what)
    for i in range(2, k - 1):
        # a line of the title that is itself no title's end
        J.no("C32.goes", s, i, [(BLANK, True)], "a title with a blank line in it")
    if k == 1:
        nxt = rest_of(u, s, k)
        if nxt is not None:
            a, ex = J.can(nxt, 1, [(QUOTED, True)])
            if a and not J.can(nxt, 0, [(r"\[a\]: b$", True)])[0]:
                a = None
            J.put("C32.short", {True: False, False: True}.get(a), s, f"a definition ends before its title, e.g. {ex!r}")


OPENINGS = [("```", "`"), ("~~~~", "~"), ("  ````py", "`"), ("~~~ a", "~")]


def fences(prog, rep, fn, budget):
    """the code goes to the first line that closes it: checked for several first lines, each with any lines after it"""
    w = f"{fn.loc} ({fn.qual})"
    for first, ch in OPENINGS:
        def go(f, mode, b):
            u = Unit(prog, f, mode, b)
            u.doc = strlist("lines")
            st = u.I.with_ge(u.st, lin(budget + 1) - length_of(u.doc))
            st, r = u.I.value_of(u.doc, st)
            st, u.r = u.I.new_list(st, (Item(S(first)),) + tuple(st.heap[r.id].seq.p))
            u.res = run(u, prog, f, st, u.r)
            return u

        def ev(u):
            n = first.count(ch)
            close = r"\s*" + ch * n + r"\s*$"
            J = Judge(rep, u, {})
            J.w = w
            for s, k in u.res:
                k = None if k is None else s.store.norm(k).const
                if not k:
                    J.put("C32.declined", None if k is None else False, s, f"{first!r} does not open code")
                    continue
                k = int(k)
                for i in range(1, k - 1):
                    J.no("C32.extent", s, i - 1, [(close, True)], f"code opened by {first!r} goes past the line that closes it")
                nxt = u.I.with_ge(s, length_of(u.doc) - k)
                if nxt is not None and k == 1:
                    J.put("C32.short", False, nxt, f"code opened by {first!r} ends at once")
                elif nxt is not None:
                    J.no("C32.short", nxt, k - 2, [(close, False)], f"code opened by {first!r} ends at a line that does not close it")
            J.done()
            return False
        units(prog, rep, [fn], [("peel", budget)], go, ev, "C32.extent")


# long sections: known first lines, then any lines
LONG = {"PARAGRAPH": ("a", "a"), "BLOCK_QUOTE": ("> a", "> a"), "TABLE": ("|a|", "|a|"), "INDENTED_CODE_BLOCK": ("    a", "    a"),
        "BULLET_LIST": ("* a", "  b"), "ORDERED_LIST": ("1. a", "   b"), "FENCED_CODE_BLOCK": ("```", "a")}


def thresholds(prog):
    """numbers the detectors compare with: a section must be longer than all of them to be long"""
    out = {4}
    for f in prog.funcs.values():
        if f.mod.name.startswith("markflow.detectors") or f.mod.name == PARSER:
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Compare, ast.Slice)):
                    out |= {c.value for c in ast.walk(n) if isinstance(c, ast.Constant) and type(c.value) is int and c.value <= 64}
    for m in prog.modules.values():
        if m.name.startswith("markflow.detectors"):
            out |= {c.value for n in m.tree.body if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None
                    for c in ast.walk(n.value) if isinstance(c, ast.Constant) and type(c.value) is int and c.value <= 64}
    return max(out)


def concretely(f, own):
    """a detector asked about a line that is known needs no contract"""
    def h(I, st, args, kw, node, fid):
        r = args[0] if args else None
        if isinstance(r, Ref) and isinstance(st.heap.get(r.id), LObj):
            q = st.heap[r.id].seq
            known = [isinstance(x, Item) and isinstance(x.v, Seq) and x.v.const is not None for x in q.p]
            if known and (all(known) if f.name == "parse_markdown" else known[0]):
                return I.run_body(f, args, kw, st, node)
        return own(I, st, args, kw, node, fid)
    return h


def long_sections(prog, rep, kind, fn, names):
    w = f"{fn.loc} ({fn.qual})"
    n = thresholds(prog) + 2
    a, b = LONG[kind]

    def go(f, mode, budget):
        u = Unit(prog, f, mode, budget)
        u.I.cfg.free_while, u.I.cfg.recursion = True, 3
        u.doc = strlist("lines")
        st = u.I.with_ge(u.st, lin(2) - length_of(u.doc))
        st, r = u.I.value_of(u.doc, st)
        st, u.r = u.I.new_list(st, (Item(S(a)),) + tuple(Item(S(b)) for _ in range(n - 1)) + tuple(st.heap[r.id].seq.p))
        op = asked(prog, f)
        byname = {g.qual: g for g in list(splitters(prog)) + [prog.public(PARSER, "parse_markdown")]}
        u.I.cfg.opaque = {q: concretely(byname[q], h) if q in byname else h for q, h in op.items()}
        u.res = []
        for s, v in u.I.call_func(f, [u.r], {}, st, f.node, u.I.module_frame(f.mod)):
            if not isinstance(v, Exc):
                x = list_of(s, v.items[0], u.I) if isinstance(v, Tup) and v.items else None
                u.res.append((s, None if x is None else seq_len(x)))
        return u

    def ev(u):
        J = Judge(rep, u, names)
        J.w = w
        what = f"a section of {n} known lines ({a!r}, {b!r}, ...)"
        for s, k in u.res:
            k = None if k is None else s.store.norm(k).const
            if k is None:
                J.put("C32.long", None, s, f"{what}: the number of lines taken is not known")
                continue
            k = int(k) - n
            if kind == "PARAGRAPH" and k == -n:
                # a heading: the lines are underlined
                c = J.can(s, 1, [(STOP, False)])[0]
                if c:
                    J.no("C32.long", s, 0, [(STOP, False)], f"{what} is declined")
                elif c is None:
                    J.put("C32.long", None, s, f"{what} is declined")
                continue
            if k < 0:
                J.put("C32.long", False, s, f"{what} ends after {k + n} lines")
                continue
            nxt = u.I.with_ge(s, length_of(u.doc) - k - 1)
            if kind == "PARAGRAPH" and nxt is not None and not J.no(
                    "C32.long", nxt, k, [(UNDERLINE, True)], f"{what} is a paragraph although the line after it underlines it"):
                continue
            heading = any(isinstance(d, Term) and d.op == "take" and names.get(d.args[0]) == "SETEXT_HEADING"
                          and not s.store.entails_ge(-lin(d)) for d in s.store.dims())
            if nxt is None or k > 0 or heading:
                J.put("C32.long", True, s, "")
                continue
            pats = {"TABLE": (CORE["TABLE"], True), "INDENTED_CODE_BLOCK": (CORE["INDENTED_CODE_BLOCK"], True),
                    "FENCED_CODE_BLOCK": None}.get(kind, (STOP, False))
            if pats is None:
                J.put("C32.long", False, s, f"{what} is not closed and ends")
            else:
                J.no("C32.long", nxt, 0, [pats], f"{what} ends before a line that is its")
        J.done()
        return False
    units(prog, rep, [fn], [("peel", 3)], go, ev, "C32.long")


def check_kind(prog, rep, kind, tier):
    fn = splitter_of(prog, kind)
    seq = order(prog)
    names = {splitter_of(prog, x).qual: x for x in KINDS}
    m = {"FENCED_CODE_BLOCK": 3, "BLOCK_QUOTE": 3, "LINK_REFERENCE_DEFINITION": 3, "BULLET_LIST": 3, "ORDERED_LIST": 3, "TABLE": 3, "INDENTED_CODE_BLOCK": 3}.get(kind, 2) + (tier != "quick")

    def first(fn, mode, budget):
        u = start(prog, fn, mode, budget, None)
        u.res = run(u, prog, fn, u.st, u.r)
        return u

    def ev1(u):
        from ..report import Report
        sub = Report(rep.prop, rep.tier, "")
        J = Judge(sub, u, names)
        first_lines(J, u.res, kind)
        J.done()
        good = all(x == "proved" for x in sub.status())
        if good or u.mode != "fix":
            absorb(rep, sub)
        return good
    if kind in CORE:
        units(prog, rep, [fn], [("fix", 2), ("peel", 2)], first, ev1, "C32.opens")

    if kind in LONG:
        long_sections(prog, rep, kind, fn, names)

    if kind == "FENCED_CODE_BLOCK":
        return fences(prog, rep, fn, m)

    def go(fn, mode, budget):
        u = start(prog, fn, mode, budget, m + 1)
        if tier != "quick":
            u.I.cfg.max_states, u.I.cfg.max_steps, u.I.cfg.max_seconds = 100000, 20000000, 400
        u.res = run(u, prog, fn, u.st, u.r)
        return u

    def ev(u):
        J = Judge(rep, u, names)
        lines_of(J, u.res, kind, seq, prog)
        J.done()
        return False
    units(prog, rep, [fn], [("peel", m)], go, ev, "C32.extent")


def check(prog, rep, prop, tier):
    for kind in KINDS:
        check_kind(prog, rep, kind, tier)
    return rep
