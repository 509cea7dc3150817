"""C11: what reformat_markdown_text returns has been verified by a second pass."""
from ..interp import Interp, Config, Exc, Budget
from .. import lib_str
from ..terms import Term
from ..values import *
from .cli import API, find_pass, bind_args, sterm
from .util import walk


def check(prog, rep, prop, tier):
    R = prog.public(API, "reformat_markdown_text", "func")
    U = find_pass(prog)
    if U is R:
        raise AssertionError("no separate formatting pass")

    def do_U(I, st, args, kw, node, fid):
        a = bind_args(U, args, kw)
        names = [p.arg for p in U.node.args.args]
        t = I.term(a[names[0]], st)
        wv = a.get(names[1])
        w = I.term(wv, st) if wv is not None else Term("default", "width")
        st = st.setghost(calls=st.ghost.get("calls", ()) + ((t, w, I.loc(node, fid)),))
        return [I.value_of(sterm("U", t, w), st), (st, Exc(ExcV("builtins.Exception", exact=False, origin="U")))]
    cfg = Config(mode="peel")
    cfg.opaque = {U.qual: do_U}
    I = Interp(prog, cfg)
    st = State()
    st.budget = 3
    args = []
    names = [p.arg for p in R.node.args.args]
    terms = []
    for p, sort in zip(names[:2], ("str", "int")):
        t = Term("var", p)
        t.sort = sort
        terms.append(t)
        st, v = I.value_of(t, st)
        args.append(v)
    fid = I.module_frame(R.mod)
    rie = prog.modules["markflow.exceptions"].names["ReformatInconsistentException"][1]
    res = I.call_func(R, args, {}, st, R.node, fid)
    rep.use(I)
    rep.stats["outcomes"] += len(res)
    where = f"{R.loc} ({R.qual})"
    for st, r in res:
        calls = st.ghost.get("calls", ())
        trail = tuple(f"pass({t}, {w}) at {x}" for t, w, x in calls) + tuple(f"{k} is {v}" for k, v in st.facts.items())
        one(I, rep, prog, rie, where, st, r, calls, terms, fid, trail)
    return rep


def one(I, rep, prog, rie, where, st, r, calls, terms, fid, trail):
    text, width = terms
    if isinstance(r, Exc) and r.v.origin == "U":
        rep.ob("C11.raise", True, where, "a failing pass raises", trail)
        return
    for t, w, x in calls:
        if w is not width:
            rep.ob("C11.width", False, x, f"a pass runs with width {w}, not the width requested", trail)
        else:
            rep.ob("C11.width", True, x, "", trail)
    us = [sterm("U", t, w) for t, w, x in calls]
    pairs = [(a, b) for a in us for b in us if b.args[0] is a]
    same = None
    for a, b in pairs:
        d = decide_eq(I, st, a, b)
        if d is not None:
            same = (a, b, d)
            break
    odd = any(len({x.op for x in walk(t)} & {"callv", "ecall", "fcall", "mcall", "opaque", "phi", "fresh"}) for t in st.facts)
    if isinstance(r, Exc):
        e = r.v
        if same is not None and same[2] is False:
            ok = prog.is_subclass(e.cls, rie)
            rep.ob("C11.error", True if ok else False, where, f"an unstable result raises {e.name}, not the documented error", trail)
        elif same is not None:
            rep.ob("C11.error", False, where, f"a stable result raises {e.name}", trail)
        else:
            rep.ob("C11.error", None, where, f"raises {e.name} without a comparison", trail)
        return
    if not pairs:
        rep.ob("C11.verified", False, where, "a text is returned that was never formatted a second time", trail)
        return
    if same is None:
        rep.ob("C11.verified", None if odd else False, where,
               "a text is returned although the two passes were not found identical", trail)
        return
    rep.ob("C11.verified", same[2], where, "a text is returned although the two passes differ", trail)
    if not same[2]:
        return
    # expected value: X.rstrip() + "\n" for X one of the two equal texts
    ok = False
    for x in same[:2]:
        s2, v = I.value_of(x, st)
        for s3, v2 in lib_str.strip(I, v, s2, False, True, None):
            if not isinstance(v2, Seq):
                continue
            want = Seq("str", v2.p + S("\n").p)
            if isinstance(r, Seq) and equal(I, s3, want, r):
                ok = True
    txt = str(r)[:200]
    unk = {t.op for t in walk(r)} & {"callv", "ecall", "fcall", "mcall", "opaque", "phi", "fresh"}
    rep.ob("C11.text", True if ok else (None if unk else False), where,
           f"the text returned is {txt}, not the verified text with its trailing whitespace replaced by one newline", trail)


def equal(I, st, a, b):
    from ..lib_list import eq_f
    if a == b:
        return True
    try:
        return I.decide(eq_f(I, a, b, st), st) is True
    except Exception:
        return False


def decide_eq(I, st, a, b):
    from ..lib_list import eq_f
    x = Seq("str", (full(a),))
    y = Seq("str", (full(b),))
    return I.decide(eq_f(I, x, y, st), st)
