"""C27: no document trips an indexing error."""
from .. import lang
from ..interp import Config, Exc
from ..terms import Term, lin
from ..values import *
from .code import trail
from .fmt import *
from .wrapping import Wrapping, each_unit, modes, run_join, run_stage, stages
from .wrapping import MOD as WRAPMOD

FAILS = ("builtins.IndexError", "builtins.StopIteration", "builtins.KeyError")


MOST = 8                    # failing paths per place for which lines are looked for


def failure(v):
    return isinstance(v, Exc) and isinstance(v.v, ExcV) and v.v.name in FAILS


def lines_known(I, st, doc):
    """can the lines be such that this path is taken: True (with examples) / False / None"""
    n = int(st.store.lower(length_of(doc)) or 0)
    out, sure = [], True
    for i in range(min(n, 6)):
        e = Term("elem", doc, lin(i))
        e.sort = "str"
        ok, x = lang.possible(I, st, e)
        if ok is False:
            return False, None
        if ok is None:
            sure = False
        out.append(x if ok else None)
    return (True if sure else None), out


def of_lines(v, doc):
    """is it the document's list of lines (or a part of it) that is too short"""
    q = v.v.of
    return isinstance(q, Seq) and q.kind == "list" and all(isinstance(p, Sl) and p.src is doc for p in q.p)


def name_of(v):
    return v.v.name.rsplit(".", 1)[-1]


def site(v, w):
    o = str(v.v.origin or "")
    return o if " (" in o else w


def settle(rep, rule, u, doc, w, strict, lines_only=False):
    """strict: an example of a document is needed for every failing path.
    lines_only: what a nested detector requires of the lines it takes is not known, only how many there are"""
    I = u.I
    rep.ob(rule, True, w, f"{len(u.res)} outcomes")
    tries = {}
    for x in u.res:
        st, v = x[0], x[1]
        if not failure(v):
            continue
        where = site(v, w)
        if tries.get(where, 0) >= MOST:
            continue
        msg = f"{name_of(v)}: shorter than assumed"
        if doc is None or doc.sort == "str":
            ok, ex = lang.possible(I, st, doc) if doc is not None else (None, None)
            if ok is False:
                continue
            rep.ob(rule, False if v.v.sure else None, where, msg + (f", for example with the text {ex!r}" if ok else ""), trail(st))
            continue
        ok, ex = lines_known(I, st, doc)
        if ok is False:
            continue
        # an iteration over the lines or the list of lines itself that has run out
        length = v.v.name == "builtins.StopIteration" or of_lines(v, doc)
        if length and not strict:
            bad = True
        elif ok and (length or not lines_only):
            bad = True
        else:
            bad = False
        tries[where] = MOST if bad else tries.get(where, 0) + 1
        rep.ob(rule, False if bad else None, where, msg + (f", for example with the lines {ex!r}" if ok else ""), trail(st))


def config():
    return Config(check_index=True)


def check(prog, rep, prop, tier):
    quick = tier == "quick"
    # detectors
    def detect(fn, mode, budget):
        return run_detector(prog, fn, mode, budget, config())
    ms = [("fix", 2), ("peel", 2 if quick else 3)]
    each_unit(prog, rep, splitters(prog), lambda f: ms, detect,
              lambda sub, u, w: settle(sub, "C27.detector", u, u.src, w, False), "C27.detector")
    # the stages of wrapping
    m2 = modes(tier, {None: [("fix", 2), ("peel", 2)], "link_split": [("fix", 2), ("peel", 1)]},
               {None: [("fix", 3), ("peel", 3)], "link_split": [("fix", 2), ("peel", 2)]})

    def stage(fn, mode, budget):
        return run_stage(prog, fn, mode, budget, config())
    each_unit(prog, rep, stages(prog), m2, stage, lambda sub, u, w: settle(sub, "C27.stage", u, u.text, w, False), "C27.stage")
    j = prog.public(WRAPMOD, "join")
    each_unit(prog, rep, [j], lambda f: [("fix", 2), ("peel", 3)], lambda f, m, b: run_join(prog, f, m, b, cfg=config()),
              lambda sub, u, w: settle(sub, "C27.join", u, None, w, False), "C27.join")
    # detector and formatter
    for kind in KINDS:
        nested = kind in ("SETEXT_HEADING", "BLOCK_QUOTE")
        def render(mode, budget, kind=kind):
            S = Section(prog, kind, mode, budget, config())
            S.res = [r for r in S.res]
            return S
        def judge(sub, S, nested=nested, tag="C27.section"):
            settle(sub, tag, S, S.doc, S.where, True, nested)
        b = {"BULLET_LIST": 1, "ORDERED_LIST": 1, "TABLE": 1}.get(kind, 2)
        fix = [] if kind in ("BULLET_LIST", "ORDERED_LIST", "BLOCK_QUOTE", "TABLE") and quick else [("fix", 2)]
        sections(prog, rep, kind, fix + [("peel", b)], judge, "C27.section", render)

        def describe(mode, budget, kind=kind):
            return Section(prog, kind, mode, budget, config(), method="__repr__")
        sections(prog, rep, kind, [("peel", b)], judge, "C27.message", describe)
    return rep
