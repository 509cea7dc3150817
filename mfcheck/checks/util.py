"""Small helpers shared by the property drivers."""
from ..terms import Term, Lin
from ..values import *

FLOATS = (float,)


def walk(x, out=None, depth=0):
    """every Term inside x (outside in), without descending into documents' own sources twice"""
    out = out if out is not None else []
    if depth > 60:
        return out
    if isinstance(x, Term):
        out.append(x)
        for a in x.args:
            walk(a, out, depth + 1)
    elif isinstance(x, Lin):
        for k in x.t:
            walk(k, out, depth + 1)
    elif isinstance(x, (tuple, list, frozenset)):
        for a in x:
            walk(a, out, depth + 1)
    elif isinstance(x, Seq):
        for p in x.p:
            walk(p, out, depth + 1)
    elif isinstance(x, Sl):
        walk(x.src, out, depth + 1)
    elif isinstance(x, Item):
        walk(x.v, out, depth + 1)
    elif isinstance(x, Num):
        walk(x.lin, out, depth + 1)
    elif isinstance(x, Sym):
        walk(x.term, out, depth + 1)
    elif isinstance(x, Rep):
        walk(x.v, out, depth + 1)
    elif isinstance(x, Join):
        walk(x.sep, out, depth + 1)
        walk(x.seq, out, depth + 1)
    elif isinstance(x, Wrapd):
        walk(x.seq, out, depth + 1)
    elif isinstance(x, Tup):
        walk(x.items, out, depth + 1)
    elif isinstance(x, BoolV):
        walk(x.f, out, depth + 1)
    elif isinstance(x, MatchV):
        walk(x.term, out, depth + 1)
    elif isinstance(x, Img):
        walk(x.views, out, depth + 1)
        walk(x.tmpl, out, depth + 1)
    elif isinstance(x, Ext):
        walk(x.pieces, out, depth + 1)
    return out


def nodes(x, depth=0):
    """every piece and term inside x"""
    if depth > 40 or isinstance(x, (str, int, float, bool, type(None))):
        return
    if isinstance(x, (tuple, list, frozenset)):
        for a in x:
            yield from nodes(a, depth + 1)
        return
    yield x
    if isinstance(x, Term):
        sub = x.args
    elif isinstance(x, Seq):
        sub = x.p
    else:
        sub = [getattr(x, a, None) for a in ("src", "v", "sep", "seq", "pieces", "views", "term", "items")]
    for a in sub:
        yield from nodes(a, depth + 1)


def ops(x):
    return {t.op for t in walk(x)}


def whole(v):
    """the source term when the value is exactly one whole string term"""
    if isinstance(v, Seq) and v.kind == "str" and len(v.p) == 1 and isinstance(v.p[0], Sl):
        p = v.p[0]
        if p == full(p.src):
            return p.src
    if isinstance(v, Sym):
        return v.term
    return None
