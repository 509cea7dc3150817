"""Entry points the interpreter uses (its `lib`)."""
from .terms import Term, lin
from .values import *
from .lib_list import (list_extend, setitem, delitem, getitem, list_get, slice_seq, binop, compare, list_method,
                       dict_method)
from .lib_iter import make_iter, it_next, it_exact, it_source, to_list, list_comp, special_call
from .lib_str import fstring, str_method
from .lib_rx import rx_method, match_method
from .lib_ext import EXTCONST, METHOD_NAMES, call_ext, obj_method


def call_method(I, obj, name, args, kw, st, node, fid):
    if isinstance(obj, Seq) and obj.kind == "str":
        r = str_method(I, obj, name, args, kw, st, node, fid)
        if r is not None:
            return r
    elif isinstance(obj, RegexV):
        return rx_method(I, obj, name, args, kw, st, node, fid)
    elif isinstance(obj, MatchV):
        return match_method(I, obj, name, args, kw, st, node, fid)
    elif isinstance(obj, Ref):
        o = st.heap.get(obj.id)
        r = None
        if isinstance(o, LObj):
            r = list_method(I, obj, name, args, kw, st, node, fid)
        elif isinstance(o, DObj):
            r = dict_method(I, obj, name, args, kw, st, node, fid)
        elif isinstance(o, ItObj):
            if name == "__next__":
                return call_ext(I, "builtins.next", [obj], {}, st, node, fid)
            if name == "__iter__":
                return [(st, obj)]
        if r is not None:
            return r
    elif isinstance(obj, Tup) and name == "index" and len(args) == 1:
        s, ref = I.new_list(st, [Item(x) for x in obj.items])
        return list_method(I, ref, name, args, kw, s, node, fid)
    elif isinstance(obj, Sym) and obj.term.sort == "match":
        pass
    return obj_method(I, obj, name, args, kw, st, node, fid)
