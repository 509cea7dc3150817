"""C15: detectors and the parser partition the lines they are given."""
import ast

from ..cover import view_of, reduce_to, gap_ok, complete_view
from ..interp import Exc, Config
from ..terms import Term, lin
from ..values import *
from .fmt import *
from .util import walk

UNKNOWN = {"callv", "ecall", "fcall", "mcall", "opaque", "phi", "fresh", "sorted", "rev", "sliced"}


def list_of(st, v, I):
    if isinstance(v, Ref):
        o = st.heap.get(v.id)
        if isinstance(o, LObj):
            return I.norm_seq(o.seq, st)
    if isinstance(v, Tup):
        return Seq("list", tuple(Item(x) for x in v.items))
    return None


def trail_of(st):
    return tuple(f"{k} is {v}" for k, v in st.facts.items())


def judge(I, st, seq, src):
    """does a list value reproduce exactly the source list?  True/False/None"""
    r, atoms = complete_view(seq.p, st, src, "exact")
    if r is True:
        return True
    unk = any(t.op in UNKNOWN for t in walk(seq)) or any(isinstance(p, Ext) for p in seq.p)
    if r is None or unk:
        return None
    return False


def detector(rep, u):
    I = u.I
    all_ok = True

    def ob(rule, ok, msg, st):
        nonlocal all_ok
        if u.mode == "fix":
            all_ok = all_ok and ok is True
            return
        rep.ob(rule, "bounded" if ok is True else ok, u.where, msg, trail_of(st))
    for st, v in u.res:
        if isinstance(v, Exc):
            continue
        now = list_of(st, u.arg, I)
        m = judge(I, st, now, u.src) if now is not None else None
        ob("C15.input", m, f"the list of lines passed in is changed to {str(now)[:200]}", st)
        if not isinstance(v, Tup) or len(v.items) != 2:
            ob("C15.partition", None, f"result {str(v)[:100]}", st)
            continue
        a, b = (list_of(st, x, I) for x in v.items)
        if a is None or b is None:
            ob("C15.partition", None, f"result {str(v)[:100]}", st)
            continue
        both = I.norm_seq(Seq("list", a.p + b.p), st)
        ok = judge(I, st, both, u.src)
        ob("C15.partition", ok, f"takes {show(a)} and leaves {show(b)} of the lines given", st)
    if u.mode == "fix" and all_ok:
        rep.ob("C15.partition", True, u.where, "")
        rep.ob("C15.input", True, u.where, "")
    return all_ok


def helpers(prog):
    """predicates that get the list of lines from a detector"""
    p = predicate(prog)
    out = []
    for q, fn in sorted(prog.funcs.items()):
        a = fn.node.args.args if not isinstance(fn.node, ast.Lambda) else []
        if q.startswith("markflow.detectors.") and p(fn) and fn.cls is None and a and \
                isinstance(a[0].annotation, ast.Subscript) and "str" in ast.dump(a[0].annotation):
            out.append(fn)
    return out


def untouched(rep, u):
    ms = []
    for st, v in u.res:
        now = list_of(st, u.arg, u.I)
        ms.append((st, now, judge(u.I, st, now, u.src) if now is not None else None))
    if u.mode == "fix":
        if all(m for _, _, m in ms):
            rep.ob("C15.input", True, u.where)
            return True
        return False
    for st, now, m in ms:
        rep.ob("C15.input", "bounded" if m is True else m, u.where, f"the list of lines passed in is changed to {str(now)[:200]}", trail_of(st))


def show(q):
    return str(q)[:160]


def check(prog, rep, prop, tier):
    b = 2 if tier == "quick" else 3
    units(prog, rep, splitters(prog), [("fix", 0), ("fix", 2), ("peel", b)] + deeper(tier, 4),
          lambda fn, mode, budget: run_detector(prog, fn, mode, budget, cfg=None if budget else pred_cfg(prog)),
          lambda u: detector(rep, u), "C15.partition")
    units(prog, rep, helpers(prog), [("fix", 0), ("peel", b)] + deeper(tier, 4),
          lambda fn, mode, budget: run_detector(prog, fn, mode, budget, cfg=None if budget else pred_cfg(prog, fn)), lambda u: untouched(rep, u), "C15.input")
    units(prog, rep, [prog.public(PARSER, "parse_markdown")], [("fix", 2), ("peel", b)] + deeper(tier, 4),
          lambda fn, mode, budget: run_parser(prog, mode, budget), lambda u: parser(rep, u), "C15.parse")
    return rep


# ---------------------------------------------------------------- parse_markdown

def flat(I, st, items, src):
    """contents of section items (kind, lines) concatenated"""
    out = []
    for it in items:
        if not isinstance(it, Item) or not isinstance(it.v, Tup) or len(it.v.items) != 2:
            return None
        q = list_of(st, it.v.items[1], I)
        if q is None:
            return None
        out += q.p
    return I.norm_seq(Seq("list", tuple(out)), st)


def tail_items(I, st, ob):
    q = I.norm_seq(ob.seq, st)
    k = len(q.p)
    while k and isinstance(q.p[k - 1], Item) and isinstance(q.p[k - 1].v, Tup):
        k -= 1
    return q.p[:k], q.p[k:]


def advance(I, st, oid, src):
    """account for the items appended to list oid since the last time -> state"""
    ob = st.heap.get(oid)
    head, tail = tail_items(I, st, ob)
    if not tail:
        return st
    pos = st.cells.get(("ghost", "pos"), Num(lin(0)))
    n = st.cells.get(("ghost", "n"), Num(lin(0)))
    bad = st.ghost.get("bad")
    hl = seq_len(Seq("list", tuple(head)))
    if not isinstance(pos, Num) or not isinstance(n, Num) or not st.store.entails_eq(hl - n.lin):
        bad = bad or "items not understood"
    else:
        f = flat(I, st, tail, src)
        v = view_of(f.p, st, src, "exact") if f is not None else None
        if v == "empty":
            v = (pos.lin, pos.lin)
        if v is None or not st.store.entails_eq(lin(v[0]) - pos.lin):
            bad = bad or "gap"
        else:
            pos = Num(st.store.norm(lin(v[1])))
            n = Num(n.lin + len(tail))
    s = st.copy()
    s.cells[("ghost", "pos")] = pos
    s.cells[("ghost", "n")] = n
    s.ghost["bad"] = bad
    return s


def parser_edge(src):
    def edge(I, st, node, fid):
        for oid, ob in sorted(st.heap.items(), key=lambda t: str(t[0])):
            if isinstance(ob, LObj) and tail_items(I, st, ob)[1]:
                f = flat(I, st, tail_items(I, st, ob)[1], src)
                if f is not None:
                    return [advance(I, st, oid, src)]
        return [st]
    return edge


def run_parser(prog, mode, budget):
    fn = prog.public(PARSER, "parse_markdown")
    cfg = Config(mode=mode)
    src = strlist("lines")
    if mode == "fix":
        cfg.on_backedge = parser_edge(src)
        cfg.ghost_keys = ("bad",)
    return run_detector(prog, fn, mode, budget, cfg=cfg, cells=(("pos", Num(lin(0))), ("n", Num(lin(0)))) if mode == "fix" else ())


def parser(rep, u):
    I = u.I
    good = True
    for st, v in u.res:
        if isinstance(v, Exc):
            continue
        now = list_of(st, u.arg, I)
        m = judge(I, st, now, u.src) if now is not None else None
        q = list_of(st, v, I)
        ok, msg = None, f"result {str(v)[:100]}"
        if u.mode == "fix":
            if q is not None:
                st = advance(I, st, v.id, u.src) if isinstance(v, Ref) else st
                pos = st.cells.get(("ghost", "pos"), Num(lin(0)))
                n = st.cells.get(("ghost", "n"), Num(lin(0)))
                if isinstance(pos, Num) and isinstance(n, Num) and not st.ghost.get("bad") and \
                        st.store.entails_eq(seq_len(q) - n.lin) and st.store.entails_eq(length_of(u.src) - pos.lin) and \
                        all(isinstance(p, (Img, Item)) for p in q.p):
                    ok = True
            if ok is not True or m is not True:
                good = False
            continue
        if q is not None and all(isinstance(p, Item) for p in q.p):
            f = flat(I, st, q.p, u.src)
            if f is not None:
                ok = judge(I, st, f, u.src)
                msg = f"the sections hold {show(f)} of the lines given"
        rep.ob("C15.parse", "bounded" if ok is True else ok, u.where, msg, trail_of(st))
        rep.ob("C15.input", "bounded" if m is True else m, u.where, f"the list of lines passed in is changed to {str(now)[:200]}", trail_of(st))
    if u.mode == "fix" and good:
        rep.ob("C15.parse", True, u.where)
        rep.ob("C15.input", True, u.where)
    return good
