"""C14: process-wide state is restored on every exit."""
from ..restore import Restore
from .effectprops import reach, chain


def check(prog, rep, prop, tier):
    R, r = reach(prog, rep)
    A = Restore(prog, r)
    for f, loc, kinds in A.solve():
        if loc is None:
            rep.ob("C14.restored", True, f"{f.loc} ({f.qual})", "every exit restores what the function changed")
            continue
        rep.ob("C14.restored", False, A.sites.get(loc, f.loc),
               f"{'.'.join(str(x) for x in loc[1:])} keeps a changed value when {f.qual} ends with {', '.join(sorted(kinds))}", chain(r, f))
    for f in r.funcs:
        if f not in A.direct:
            rep.ob("C14.nochange", True, f"{f.loc} ({f.qual})", "changes no state outside its own call")
    for e in r.effects:
        if e.kind == "mutate" and e.extra[0] in ("const", "classattr", "default"):
            rep.ob("C14.nochange", None, e.where, f"{e.what} is modified")
    return rep
