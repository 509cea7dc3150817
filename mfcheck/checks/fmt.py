"""Shared driver for detectors, wrapping and formatters: entry points, symbolic inputs, modular contracts."""
import time
import ast

from ..interp import Interp, Config, State, Exc, Budget
from ..model import AnalysisBroken
from ..terms import Term, Lin, lin
from ..values import *

PARSER = "markflow.parser"
SPLIT_NAMES = ("split_atx_heading", "split_blank_line", "split_block_quote", "split_bullet_list", "split_fenced_code_block",
               "split_indented_code_block", "split_link_reference_definition", "split_ordered_list", "split_paragraph",
               "split_setext_heading", "split_table", "split_thematic_break")


def strlist(name):
    t = Term("var", name)
    t.sort = ("list", "str")
    return t


def splitters(prog):
    """the public section detectors, by name (a vanished one is an error only if parse_markdown lost it too)"""
    out = []
    m = prog.modules.get("markflow.detectors")
    if m is None:
        raise AnalysisBroken("package markflow.detectors is gone")
    names = [n for n in (m.all or m.names) if n.startswith("split_")]
    for n in sorted(set(names) | set(SPLIT_NAMES)):
        try:
            out.append(prog.public("markflow.detectors", n))
        except AnalysisBroken:
            if n in SPLIT_NAMES:
                raise
    return out


def contract(fn):
    """modular treatment of a detector inside another one: it takes some prefix of its argument"""
    def run(I, st, args, kw, node, fid):
        if not args or not isinstance(args[0], Ref) or not isinstance(st.heap.get(args[0].id), LObj):
            return I.opaque_func(fn, args, kw, st, node, fid)
        src = args[0]
        q = I.norm_seq(st.heap[src.id].seq, st)
        lt = I.term(src, st)
        k = Term("take", fn.qual, lt)
        k.sort = "nat"
        n = seq_len(q)
        s = I.with_ge(st, lin(k), n - lin(k))
        if s is None:
            return []
        from ..lib_list import cut
        s3, ra = I.new_list(s, cut(I, q, lin(0), lin(k), s).p)
        s4, rb = I.new_list(s3, cut(I, q, lin(k), n, s3).p)
        return [(s4, Tup([ra, rb]))]
    return run


def parse_contract(fn):
    """parse_markdown inside a detector or formatter: some sections, at least one for a non-empty document"""
    def run(I, st, args, kw, node, fid):
        out = []
        for s, v in I.opaque_func(fn, args, kw, st, node, fid):
            if isinstance(v, Ref) and args and isinstance(args[0], Ref):
                n = seq_len(I.norm_seq(s.heap[v.id].seq, s))
                m = seq_len(I.norm_seq(s.heap[args[0].id].seq, s))
                if s.store.entails_ge(m - 1):
                    s = I.with_ge(s, n - 1)
                if s is None:
                    continue
            out.append((s, v))
        return out
    return run


class Unit:
    """one function analysed on arbitrary arguments"""

    def __init__(self, prog, fn, mode, budget=2, opaque=None, cfg=None):
        self.prog, self.fn, self.mode = prog, fn, mode
        c = cfg or Config(mode=mode)
        c.mode = mode
        c.opaque = dict(opaque or {})
        self.I = Interp(prog, c)
        self.st = State()
        self.st.budget = budget

    def call(self, args, st=None):
        st = st or self.st
        return self.I.call_func(self.fn, args, {}, st, self.fn.node, self.I.module_frame(self.fn.mod))

    @property
    def where(self):
        return f"{self.fn.loc} ({self.fn.qual})"


def detector_opaque(prog, me):
    o = {}
    for f in splitters(prog):
        if f is not me:
            o[f.qual] = contract(f)
    pm = prog.public(PARSER, "parse_markdown")
    if pm is not me:
        o[pm.qual] = parse_contract(pm)
    return o


def run_detector(prog, fn, mode, budget=2, cfg=None, opaque=None, cells=()):
    """-> (Unit, source term, [(st, value)])"""
    u = Unit(prog, fn, mode, budget, opaque if opaque is not None else detector_opaque(prog, fn), cfg)
    src = strlist("lines")
    u.src = src
    u.st = u.I.with_ge(u.st, length_of(src) - 1)
    u.st, r = u.I.value_of(src, u.st)
    u.arg = r
    for name, v in cells:
        u.st = u.st.copy()
        u.st.cells[("ghost", name)] = v
    u.res = u.call([r])
    return u


def predicate(prog, me=None):
    """functions declared to return bool, other than detectors: their outcome is an uninterpreted truth value"""
    def f(fn):
        r = getattr(fn.node, "returns", None)
        return isinstance(r, ast.Name) and r.id == "bool" and not fn.is_gen and fn is not me
    return f


def pred_cfg(prog, me=None):
    c = Config()
    c.force_opaque = predicate(prog, me)
    return c


def deeper(tier, to):
    """more unrolling where that is cheap; what the last peel said stands where it is not"""
    return [("deep", n) for n in range(3, to + (1 if tier == "quick" else 2))]


def units(prog, rep, fns, modes, go, evaluate, tag):
    """analyse every unit in each mode; a unit that cannot be analysed becomes an undecided obligation"""
    for fn in fns:
        done = False
        took = 0
        for mode, budget in modes:
            if done:
                break
            if mode == "deep" and took > (4 if rep.tier == "quick" else 20):
                break
            t0 = time.time()
            try:
                u = go(fn, "peel" if mode == "deep" else mode, budget)
                took = time.time() - t0
                rep.use(u.I)
                rep.stats["outcomes"] += len(u.res)
                done = evaluate(u) and mode == "fix"
            except AnalysisBroken:
                raise
            except Budget as e:
                took = 1e9
                rep.note(f"{fn.qual} ({mode}): {e}")
                if mode == "peel":
                    rep.ob(tag, None, f"{fn.loc} ({fn.qual})", f"not analysed: {e}")
            except RecursionError as e:
                rep.note(f"{fn.qual} ({mode}): recursion")
                if mode == "peel":
                    rep.ob(tag, None, f"{fn.loc} ({fn.qual})", "not analysed: recursion")
            except Exception as e:
                rep.note(f"{fn.qual} ({mode}): internal {type(e).__name__}: {e}")
                if mode == "peel":
                    rep.ob(tag, None, f"{fn.loc} ({fn.qual})", f"not analysed: {type(e).__name__}: {e}")


# ---------------------------------------------------------------- formatters

KINDS = {"ATX_HEADING": "ATXHeading", "BLANK_LINE": "BlankLine", "BLOCK_QUOTE": "BlockQuote", "BULLET_LIST": "BulletList",
         "FENCED_CODE_BLOCK": "FencedCodeBlock", "INDENTED_CODE_BLOCK": "IndentedCodeBlock",
         "LINK_REFERENCE_DEFINITION": "LinkReferenceDefinition", "ORDERED_LIST": "OrderedList", "PARAGRAPH": "Paragraph",
         "SETEXT_HEADING": "SetextHeading", "TABLE": "Table", "THEMATIC_BREAK": "ThematicBreak"}
INF = Const(float("inf"))
WRAP = "markflow._utils.textwrap.wrap"
PASS = "markflow.reformat_markdown._reformat_markdown_text"


def formatter_class(prog, kind):
    name = "Markdown" + KINDS[kind]
    for m in sorted(prog.modules):
        if m.startswith("markflow.formatters"):
            b = prog.modules[m].names.get(name)
            if b and b[0] == "cls":
                return b[1]
    raise AnalysisBroken(f"class {name} is gone from markflow.formatters")


def splitter_of(prog, kind):
    return prog.public("markflow.detectors", "split_" + kind.lower())


def wrap_op(I, st, args, kw, node, fid):
    """wrapping changes white space only (decided by C19)"""
    if not args or not isinstance(args[0], Seq):
        return [(st, str_term(fresh("wrapped", "str")))]
    rest = list(args[1:]) + [v for _, v in sorted(kw.items())]
    q = I.norm_seq(args[0], st)
    w = I.norm_term(I.term(rest[0], st), st) if rest else Term("c", "default")
    return [(st, Seq("str", (Wrapd(q, Term("w", w)),)))]


def pass_op(I, st, args, kw, node, fid):
    """one formatting pass over nested text"""
    w = args[1] if len(args) > 1 else kw.get("width")
    t = Term("U", I.term(args[0], st), I.term(w, st) if w is not None else Term("c", "default"))
    t.sort = "str"
    return [I.value_of(t, st)]


class Section:
    """a detector followed by the formatter of its kind on what it took"""

    def __init__(self, prog, kind, mode, budget, cfg=None, opaque=None, method="reformatted", run=True, nested=True, width="int"):
        self.prog, self.kind, self.mode = prog, kind, mode
        det, cls = splitter_of(prog, kind), formatter_class(prog, kind)
        self.fn = det
        self.cls = cls
        u = self.u = Unit(prog, det, mode, budget, {}, cfg)
        u.I.cfg.opaque = detector_opaque(prog, det) if nested else {}
        u.I.cfg.opaque.update({WRAP: wrap_op, PASS: pass_op} if opaque is None else opaque)
        I = self.I = u.I
        self.doc = strlist("doc")
        st = I.with_ge(u.st, length_of(self.doc) - 1)
        st, r = I.value_of(self.doc, st)
        self.width = Term("var", "width")
        self.width.sort = "int"
        self.warg = Num(lin(self.width)) if width == "int" else INF
        self.res = []           # (state, value, number of lines taken or None)
        self.taken = []
        self.rejected = 0
        frame = I.module_frame(cls.mod)
        for s, v in u.call([r], st):
            if isinstance(v, Exc) or not (isinstance(v, Tup) and v.items and isinstance(v.items[0], Ref)):
                self.rejected += 1
                continue
            a = I.norm_seq(s.heap[v.items[0].id].seq, s)
            s = I.with_ge(s, seq_len(a) - 1)
            if s is None:
                continue
            self.taken.append((s, v.items[0]))
        if not run:
            return
        for s, ref in self.taken:
            self.run(s, ref, method, frame)

    def run(self, s, ref, method, frame):
        I = self.I
        a = I.norm_seq(s.heap[ref.id].seq, s)
        r = view_of_list(a, s, self.doc)
        for s1, o in I.construct(self.cls, [Num(0), ref], {}, s, self.cls.node, frame):
            if isinstance(o, Exc):
                self.res.append((s1, o, r))
                continue
            for s2, f in I.getattr(o, method, s1, self.cls.node, frame):
                if isinstance(f, Exc) or method not in ("reformatted", "__repr__"):
                    self.res.append((s2, f, r))
                    continue
                for s3, v in I.call(f, [self.warg] if method == "reformatted" else [], {}, s2, self.cls.node, frame):
                    self.res.append((s3, v, r))

    @property
    def where(self):
        m = self.cls.attrs.get("reformatted")
        return f"{m.loc} ({m.qual})" if hasattr(m, "loc") else f"{self.cls.qual}"


def view_of_list(seq, st, doc):
    """number of lines of doc a list holds, if it is a prefix of doc"""
    from ..cover import view_of
    v = view_of(seq.p, st, doc, "exact")
    if v is None or v == "empty" or not st.store.entails_eq(v[0]):
        return None
    return v[1]


def as_lines(seq, st):
    """the lines of a text: [("one", pieces)] and ("many", list piece)"""
    out = [["one", []]]
    def put(p):
        if out[-1][0] != "one":
            out.append(["one", []])     # text after a run of lines without a break: kept apart
        out[-1][1].append(p)
    def nl():
        out.append(["one", []])
    def walk(ps):
        for p in ps:
            if isinstance(p, Lit) and "\n" in p.s:
                parts = p.s.split("\n")
                for i, x in enumerate(parts):
                    if i:
                        nl()
                    if x:
                        put(Lit(x))
            elif isinstance(p, Join) and p.sep.const == "\n":
                first = True
                for q in p.seq.p:
                    if not first:
                        nl()
                    first = False
                    if isinstance(q, Item):
                        if isinstance(q.v, Seq) and q.v.kind == "str":
                            walk(q.v.p)
                        else:
                            put(q)
                    else:
                        if out[-1] == ["one", []]:
                            out.pop()
                        out.append(["many", q])
            else:
                put(p)
    walk(seq.p)
    return [(k, tuple(v) if k == "one" else v) for k, v in out]


def ask(I, st, mod, text, **env):
    """value of an expression over given values -> [(st, value)]"""
    fn = next(f for f in I.prog.funcs.values() if f.mod is mod)
    s, fid = I.new_frame(st, fn, None)
    s.frames[fid] = dict(env)
    return I.eval(ast.parse(text, mode="eval").body, s, fid)


def truth_of(I, st, mod, text, **env):
    """True / False / None"""
    ds = set()
    for s, v in ask(I, st, mod, text, **env):
        if isinstance(v, Exc):
            return None
        for s2, b in I.branch(s, I.truth(v, s)):
            ds.add(b)
    return ds.pop() if len(ds) == 1 else None


def line_value(I, st, doc, i):
    """the i-th line of the document as a value"""
    from ..lib_iter import elem_value
    return elem_value(I, doc, lin(i), st)


def sections(prog, rep, kind, modes, evaluate, tag, make=None):
    """analyse one kind of section; the proof pass counts only if it settles everything"""
    from ..report import Report
    cls = formatter_class(prog, kind)
    w = f"{cls.mod.relpath}:{cls.node.lineno} ({cls.qual})"
    took = 0
    for mode, budget in modes:
        deep = mode == "deep"
        if deep and took > (4 if rep.tier == "quick" else 20):
            break
        mode = "peel" if deep else mode
        sub = Report(rep.prop, rep.tier, "")
        t0 = time.time()
        try:
            S = make(mode, budget) if make else Section(prog, kind, mode, budget)
            rep.use(S.I)
            rep.stats["outcomes"] += len(S.res)
            if not S.res and mode != "fix":
                sub.ob(tag, None, w, "no path renders a section of this kind")
            evaluate(sub, S)
        except AnalysisBroken:
            raise
        except (Budget, RecursionError) as e:
            rep.note(f"{kind} ({mode}): {type(e).__name__} {e}")
            sub.ob(tag, None, w, f"not analysed: {type(e).__name__} {e}")
        except Exception as e:
            import os
            if os.environ.get("MFCHECK_DEBUG"):
                raise
            rep.note(f"{kind} ({mode}): internal {type(e).__name__}: {e}")
            sub.ob(tag, None, w, f"not analysed: {type(e).__name__}: {e}")
        took = time.time() - t0
        st = sub.status()
        if deep and "violated" not in st:
            continue
        if mode == "fix":
            if st and all(x == "proved" for x in st):
                absorb(rep, sub)
                return "proved"
            continue
        if "proved" in st or "bounded" in st:
            sub.downgrade("proved", "bounded")
        absorb(rep, sub)
    return None


def absorb(rep, sub):
    for (rule, where), o in sub.obs.items():
        for _ in range(1):
            rep.ob(rule, o[0], where, o[2], o[3])
        rep.obs[(rule, where)][4] += o[4] - 1
    for n in sub.notes:
        rep.note(n)
