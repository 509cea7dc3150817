"""Typestate analysis: process-wide state changed by a function is back to its original value on every exit.

Domain: per path, the set of locations currently changed, and which local names hold the original value of a
location.  Every call may raise.  Context managers and unbalanced helpers are inlined."""
import ast

from .effects import V, Reach
from .model import Func, Cls

SETTERS = {"sys.setrecursionlimit": "sys.getrecursionlimit", "locale.setlocale": "locale.getlocale",
           "os.chdir": "os.getcwd", "random.setstate": "random.getstate", "socket.setdefaulttimeout": "socket.getdefaulttimeout",
           "sys.settrace": "sys.gettrace", "sys.setprofile": "sys.getprofile", "decimal.setcontext": "decimal.getcontext",
           "logging.disable": "logging.root.manager.disable", "os.umask": None, "random.seed": None,
           "logging.setLoggerClass": "logging.getLoggerClass", "logging.addLevelName": None, "logging.basicConfig": None,
           "logging.captureWarnings": None, "warnings.simplefilter": None, "warnings.filterwarnings": None,
           "warnings.resetwarnings": None, "gc.disable": None, "gc.enable": None, "signal.signal": None,
           "sys.setswitchinterval": "sys.getswitchinterval", "logging.setLogRecordFactory": "logging.getLogRecordFactory"}
PAIRS = {"addHandler": "removeHandler", "addFilter": "removeFilter"}
QUIET = {"getLogger", "getEffectiveLevel", "isEnabledFor", "debug", "info", "warning", "error", "critical", "exception", "log",
         "setLevel", "addHandler", "removeHandler", "addFilter", "removeFilter"}


class S:
    """one abstract path state"""
    __slots__ = ("ch", "env", "facts")

    def __init__(self, ch=frozenset(), env=(), facts=()):
        self.ch = frozenset(ch)
        self.env = dict(env)
        self.facts = dict(facts)

    def copy(self):
        return S(self.ch, self.env, self.facts)

    def key(self):
        return (self.ch, tuple(sorted((k, str(v)) for k, v in self.env.items())), tuple(sorted(self.facts.items())))


OTHER = ("other",)


class Restore:
    def __init__(self, prog, reach):
        self.prog = prog
        self.reach = reach
        self.vs = {}
        self.memo = {}
        self.stack = []
        self.sites = {}       # location -> effect site text
        self.unclear = set()
        self.direct = set()
        for e in reach.effects:
            if self.relevant(e):
                self.direct.add(e.fn)

    def relevant(self, e):
        if e.kind == "globalstore" or e.kind == "extmutate":
            return True
        if e.kind == "attrstore":
            return True
        if e.kind == "extcall" and (e.what in SETTERS or e.what.startswith("os.environ") or e.what in ("os.putenv", "os.unsetenv")):
            return True
        return e.kind == "method" and (e.what in ("setLevel",) or e.what in PAIRS) or e.kind == "extcall" and e.what.endswith(".setLevel")

    # ---- names
    def view(self, fn):
        v = self.vs.get(fn)
        if v is None:
            v = V(_Null(self.reach), fn)
            v.defaults = {}
            for n in ast.walk(fn.node):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    v.imports.update(self.prog.import_bindings(fn.mod, n))
            from .effects import local_names
            v.scopes.append(local_names(fn.node))
            self.vs[fn] = v
        return v

    def loc_of(self, e, fn, s):
        """location id of an attribute / global name, or None"""
        v = self.view(fn)
        if isinstance(e, ast.Name):
            if any(e.id in g for _, g in v.scopes):
                return ("global", fn.mod.name, e.id)
            return None
        if isinstance(e, ast.Attribute):
            q = v.qual(e)
            if q is not None:
                return ("ext", q)
            lg = self.logger(e.value, fn, s)
            if lg is not None:
                return ("logger", lg, e.attr)
            b = v.bind(e.value)
            if b is not None and b[0] in ("mod", "cls", "func"):
                return ("obj", getattr(b[1], "qual", getattr(b[1], "name", "")), e.attr)
            t = v.target(e)
            if t is not None and t[0] == "classattr" and not (isinstance(e.value, ast.Name) and e.value.id == "self"):
                return ("obj", t[1].qual if t[1] else "", e.attr)
        if isinstance(e, ast.Subscript):
            q = v.qual(e.value)
            if q is not None:
                return ("extitem", q, ast.unparse(e.slice))
        return None

    def logger(self, e, fn, s):
        """identity of a logger valued expression, or None"""
        if isinstance(e, ast.Name):
            w = s.env.get((fn.qual, e.id))
            if w is not None and w[0] == "logger":
                return w[1]
        v = self.view(fn)
        if isinstance(e, (ast.Name, ast.Attribute)):
            b = v.bind(e)
            if b is not None and b[0] == "const" and isinstance(b[1], ast.Call):
                q = self.prog.resolve_expr(b[2], b[1].func)
                if q and q[0] == "ext" and q[1] == "logging.getLogger":
                    return b[2].name + ":" + ast.unparse(b[1])
            if b is not None and b[0] == "ext" and b[1] in ("logging.root",):
                return "root"
        if isinstance(e, ast.Call) and v.qual(e.func) == "logging.getLogger":
            return fn.mod.name + ":" + ast.unparse(e)
        return None

    # ---- expressions: yields (state, value) and raising states
    def ev(self, e, fn, s, raises):
        """evaluate for effects; returns list of (state, value)"""
        if e is None:
            return [(s, OTHER)]
        if isinstance(e, (ast.Lambda,)):
            return [(s, OTHER)]
        if isinstance(e, ast.Name):
            return [(s, s.env.get((fn.qual, e.id), self.logval(e, fn, s)))] if not self.loc_of(e, fn, s) \
                else [(s, self.orig(self.loc_of(e, fn, s), s))]
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self" and ("self", e.attr) in s.env:
                return [(s, s.env[("self", e.attr)])]
            loc = self.loc_of(e, fn, s)
            if loc is not None:
                return [(s, self.orig(loc, s))]
            out = []
            for s2, _ in self.ev(e.value, fn, s, raises):
                out.append((s2, OTHER))
            return out
        if isinstance(e, (ast.Tuple, ast.List)):
            outs = [(s, [])]
            for x in e.elts:
                outs = [(s3, vs + [w]) for s2, vs in outs for s3, w in self.ev(x, fn, s2, raises)]
            return [(s2, ("tuple", tuple(vs))) for s2, vs in outs]
        if isinstance(e, ast.IfExp):
            out = []
            for s2, _ in self.ev(e.test, fn, s, raises):
                for s3, val in self.cond(e.test, fn, s2):
                    out += self.ev(e.body if val else e.orelse, fn, s3, raises)
            return out
        if isinstance(e, ast.NamedExpr):
            out = []
            for s2, w in self.ev(e.value, fn, s, raises):
                out.append((self.bind(s2, fn, e.target.id, w), w))
            return out
        if isinstance(e, ast.Call):
            return self.call(e, fn, s, raises)
        outs = [s]
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                outs = self.dedup([s3 for s2 in outs for s3, _ in self.ev(c, fn, s2, raises)])
            elif isinstance(c, ast.comprehension):
                for x in [c.iter] + c.ifs:
                    outs = self.dedup([s3 for s2 in outs for s3, _ in self.ev(x, fn, s2, raises)])
        if isinstance(e, ast.Subscript):
            raises += outs
        return [(s2, OTHER) for s2 in outs]

    def logval(self, e, fn, s):
        lg = self.logger(e, fn, s)
        return ("logger", lg) if lg is not None else OTHER

    def orig(self, loc, s):
        return ("orig", loc) if loc not in s.ch and not any(c[0] == "any" for c in s.ch) else OTHER

    def bind(self, s, fn, name, w):
        n = s.copy()
        n.env[(fn.qual, name)] = w
        for k in list(n.facts):
            if name in k[1]:
                del n.facts[k]
        return n

    def change(self, s, loc, w, where):
        n = s.copy()
        if w == ("orig", loc):
            n.ch = n.ch - {loc}
        else:
            n.ch = n.ch | {loc}
            self.sites.setdefault(loc, where)
        return n

    def where(self, node, fn):
        return f"{fn.mod.relpath}:{getattr(node, 'lineno', '?')} ({fn.qual})"

    def args(self, e, fn, s, raises):
        outs = [(s, [], {})]
        for a in e.args:
            x = a.value if isinstance(a, ast.Starred) else a
            outs = [(s3, ps + [w], kw) for s2, ps, kw in outs for s3, w in self.ev(x, fn, s2, raises)]
        for k in e.keywords:
            outs = [(s3, ps, {**kw, k.arg: w}) for s2, ps, kw in outs for s3, w in self.ev(k.value, fn, s2, raises)]
        return outs

    def call(self, e, fn, s, raises):
        v = self.view(fn)
        f = e.func
        q = v.qual(f)
        res = []
        for s2, ps, kw in self.args(e, fn, s, raises):
            first = ps[0] if ps else next(iter(kw.values()), OTHER)
            if q == "logging.getLogger":
                res.append((s2, ("logger", fn.mod.name + ":" + ast.unparse(e))))
                continue
            if q in SETTERS:
                g = SETTERS[q]
                loc = ("set", q)
                w = first
                if g is not None and w == ("orig", ("ext", g)):
                    w = ("orig", loc)
                raises.append(s2)
                res.append((self.change(s2, loc, w, self.where(e, fn)), OTHER))
                continue
            if q is not None and q in SETTERS.values():
                loc = next(("set", k) for k, g in SETTERS.items() if g == q)
                res.append((s2, self.orig(loc, s2)))
                continue
            if q is not None and (q.startswith("os.environ.") or q in ("os.putenv", "os.unsetenv")):
                if q.split(".")[-1] in ("get", "keys", "items", "values", "copy", "__contains__"):
                    res.append((s2, OTHER))
                else:
                    raises.append(s2)
                    res.append((self.change(s2, ("set", "os.environ"), OTHER, self.where(e, fn)), OTHER))
                continue
            if isinstance(f, ast.Attribute):
                lg = self.logger(f.value, fn, s2)
                if lg is None and q and q.startswith("logging.root."):
                    lg = "root"
                if lg is not None:
                    if f.attr == "setLevel":
                        res.append((self.change(s2, ("logger", lg, "level"), first, self.where(e, fn)), OTHER))
                        continue
                    if f.attr in PAIRS:
                        loc = ("logger", lg, f.attr + " " + (ast.unparse(e.args[0]) if e.args else ""))
                        res.append((self.change(s2, loc, OTHER, self.where(e, fn)), OTHER))
                        continue
                    if f.attr in PAIRS.values():
                        add = next(k for k, x in PAIRS.items() if x == f.attr)
                        loc = ("logger", lg, add + " " + (ast.unparse(e.args[0]) if e.args else ""))
                        n = s2.copy()
                        n.ch = n.ch - {loc} if loc in n.ch else n.ch | {("logger", lg, f.attr)}
                        res.append((n, OTHER))
                        continue
                    if f.attr in QUIET:
                        res.append((s2, OTHER))
                        continue
            if q in ("builtins.setattr",) and len(e.args) == 3 and isinstance(e.args[1], ast.Constant):
                t = ast.Attribute(value=e.args[0], attr=str(e.args[1].value), ctx=ast.Store())
                loc = self.loc_of(t, fn, s2)
                if loc is not None:
                    res.append((self.change(s2, loc, ps[2], self.where(e, fn)), OTHER))
                    continue
            if q in ("builtins.getattr",) and len(e.args) >= 2 and isinstance(e.args[1], ast.Constant):
                t = ast.Attribute(value=e.args[0], attr=str(e.args[1].value), ctx=ast.Load())
                loc = self.loc_of(t, fn, s2)
                if loc is not None:
                    res.append((s2, self.orig(loc, s2)))
                    continue
            b = v.bind(f)
            if b is not None and b[0] == "func" and self.inlinable(b[1]):
                res += self.inline(b[1], e, ps, kw, fn, s2, raises)
                continue
            # anything else: receiver, then it may raise
            if isinstance(f, ast.Attribute):
                for s3, _ in self.ev(f.value, fn, s2, raises):
                    raises.append(s3)
                    res.append((s3, OTHER))
            else:
                raises.append(s2)
                res.append((s2, OTHER))
        return self.dedup2(res)

    def inlinable(self, g):
        return g in self.unbalanced and not g.is_gen and g not in self.stack and len(self.stack) < 6

    unbalanced = frozenset()

    def inline(self, g, e, ps, kw, fn, s, raises):
        n = s.copy()
        names = [p.arg for p in g.node.args.posonlyargs + g.node.args.args]
        for k, w in zip(names, ps):
            n.env[(g.qual, k)] = w
        for k, w in kw.items():
            n.env[(g.qual, k)] = w
        self.stack.append(g)
        try:
            outs = self.block(g.node.body, g, n)
        finally:
            self.stack.pop()
        res = []
        for kind, st, w in outs:
            st = S(st.ch, {k: x for k, x in st.env.items() if k[0] != g.qual}, st.facts)
            if kind == "raise":
                raises.append(st)
            else:
                res.append((st, w if kind == "return" else OTHER))
        return res

    # ---- statements: list of (kind, state, value)
    def block(self, body, fn, s):
        cur = [s]
        out = []
        for st in body:
            nxt = []
            for x in cur:
                for kind, y, w in self.stmt(st, fn, x):
                    if kind == "normal":
                        nxt.append(y)
                    else:
                        out.append((kind, y, w))
            cur = self.dedup(nxt)
            if not cur:
                break
        return self.dedup3(out + [("normal", x, OTHER) for x in cur])

    def dedup(self, xs):
        return list({x.key(): x for x in xs}.values())

    def dedup2(self, xs):
        return list({(x.key(), w): (x, w) for x, w in xs}.values())

    def dedup3(self, xs):
        return list({(k, x.key(), w): (k, x, w) for k, x, w in xs}.values())

    def stmt(self, n, fn, s):
        raises = []
        out = self.stmt_(n, fn, s, raises)
        return self.dedup3(out + [("raise", x, OTHER) for x in self.dedup(raises)])

    def assign(self, t, w, fn, s, node):
        if isinstance(t, ast.Name):
            loc = self.loc_of(t, fn, s)
            if loc is not None:
                return self.change(s, loc, w, self.where(node, fn))
            return self.bind(s, fn, t.id, w)
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                x = w[1][i] if w[0] == "tuple" and len(w[1]) == len(t.elts) else OTHER
                s = self.assign(e, x, fn, s, node)
            return s
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
            n = s.copy()
            n.env[("self", t.attr)] = w
            return n
        loc = self.loc_of(t, fn, s)
        if loc is not None:
            return self.change(s, loc, w, self.where(node, fn))
        return s

    def stmt_(self, n, fn, s, raises):
        if isinstance(n, (ast.Expr,)):
            if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
                return self.do_yield(n, fn, s)
            return [("normal", x, OTHER) for x, _ in self.ev(n.value, fn, s, raises)]
        if isinstance(n, ast.Assign):
            if isinstance(n.value, ast.Yield):
                return self.do_yield(n, fn, s)
            out = []
            for x, w in self.ev(n.value, fn, s, raises):
                for t in n.targets:
                    x = self.assign(t, w, fn, x, n)
                out.append(("normal", x, OTHER))
            return out
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return [("normal", s, OTHER)]
            return [("normal", self.assign(n.target, w, fn, x, n), OTHER) for x, w in self.ev(n.value, fn, s, raises)]
        if isinstance(n, ast.AugAssign):
            return [("normal", self.assign(n.target, OTHER, fn, x, n), OTHER) for x, w in self.ev(n.value, fn, s, raises)]
        if isinstance(n, ast.Delete):
            for t in n.targets:
                loc = self.loc_of(t, fn, s)
                if loc is not None:
                    s = self.change(s, loc, OTHER, self.where(n, fn))
            return [("normal", s, OTHER)]
        if isinstance(n, ast.Return):
            return [("return", x, w) for x, w in self.ev(n.value, fn, s, raises)]
        if isinstance(n, (ast.Raise, ast.Assert)):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    s = self.ev(c, fn, s, raises)[0][0]
            if isinstance(n, ast.Assert):
                raises.append(s)
                return [("normal", s, OTHER)]
            return [("raise", s, OTHER)]
        if isinstance(n, ast.If):
            out = []
            for x, _ in self.ev(n.test, fn, s, raises):
                for y, val in self.cond(n.test, fn, x):
                    out += self.block(n.body if val else n.orelse, fn, y)
            return out
        if isinstance(n, (ast.For, ast.While)):
            return self.loop(n, fn, s, raises)
        if isinstance(n, ast.Break):
            return [("break", s, OTHER)]
        if isinstance(n, ast.Continue):
            return [("continue", s, OTHER)]
        if isinstance(n, ast.Try):
            return self.try_(n, fn, s)
        if isinstance(n, ast.With):
            return self.with_(n, 0, fn, s, raises)
        return [("normal", s, OTHER)]

    def cond(self, test, fn, s):
        neg = False
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            neg = not neg
            t = t.operand
        if any(isinstance(x, (ast.Call, ast.Attribute, ast.Subscript)) for x in ast.walk(t)):
            return [(s, True), (s, False)]
        k = (ast.dump(t), tuple(sorted({x.id for x in ast.walk(t) if isinstance(x, ast.Name)})))
        if k in s.facts:
            return [(s, s.facts[k] != neg)]
        out = []
        for val in (True, False):
            n = s.copy()
            n.facts[k] = val
            out.append((n, val != neg))
        return out

    def loop(self, n, fn, s, raises):
        out = []
        if isinstance(n, ast.For):
            heads = [x for x, _ in self.ev(n.iter, fn, s, raises)]
        else:
            heads = [s]
        seen = {}
        work = list(heads)
        exits = []
        while work:
            x = work.pop()
            if x.key() in seen or len(seen) > 60:
                continue
            seen[x.key()] = x
            if isinstance(n, ast.For):
                raises.append(x)
                exits.append(x)
                y = self.assign(n.target, OTHER, fn, x, n)
                starts = [y]
            else:
                starts = []
                for y, _ in self.ev(n.test, fn, x, raises):
                    exits.append(y)
                    starts.append(y)
            for y in starts:
                for kind, z, w in self.block(n.body, fn, y):
                    if kind in ("normal", "continue"):
                        work.append(z)
                    elif kind == "break":
                        out.append(("normal", z, w))
                    else:
                        out.append((kind, z, w))
        for x in self.dedup(exits):
            out += self.block(n.orelse, fn, x) if n.orelse else [("normal", x, OTHER)]
        return out

    def try_(self, n, fn, s):
        mid = []
        for kind, x, w in self.block(n.body, fn, s):
            if kind == "raise" and n.handlers:
                broad = any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ("BaseException",) for h in n.handlers)
                for h in n.handlers:
                    mid += self.block(h.body, fn, x)
                if not broad:
                    mid.append((kind, x, w))
            elif kind == "normal" and n.orelse:
                mid += self.block(n.orelse, fn, x)
            else:
                mid.append((kind, x, w))
        if not n.finalbody:
            return mid
        out = []
        for kind, x, w in self.dedup3(mid):
            for k2, y, w2 in self.block(n.finalbody, fn, x):
                out.append((kind, y, w) if k2 == "normal" else (k2, y, w2))
        return out

    # ---- context managers
    def with_(self, n, i, fn, s, raises):
        if i == len(n.items):
            return self.block(n.body, fn, s)
        it = n.items[i]
        e = it.context_expr
        v = self.view(fn)
        b = v.bind(e.func) if isinstance(e, ast.Call) else None
        if b is not None and b[0] == "func" and b[1].is_gen and (b[1] in self.direct or b[1] in self.unbalanced) and b[1] not in self.stack:
            g = b[1]
            out = []
            for s2, ps, kw in self.args(e, fn, s, raises):
                m = s2.copy()
                names = [p.arg for p in g.node.args.args]
                for k, w in list(zip(names, ps)) + list(kw.items()):
                    m.env[(g.qual, k)] = w
                self.stack.append(g)
                self.yields.append(lambda x, n=n, i=i, fn=fn, raises=raises: self.with_(n, i + 1, fn, x, raises))
                try:
                    out += self.block(g.node.body, g, m)
                finally:
                    self.stack.pop()
                    self.yields.pop()
            res = []
            for kind, x, w in out:
                x = S(x.ch, {k: y for k, y in x.env.items() if k[0] != g.qual}, x.facts)
                p = x.env.pop(("pend", id(n)), None)
                if kind in ("normal", "return") and p is not None:
                    res.append((p[1], x, OTHER))
                elif kind == "return":
                    res.append(("normal", x, OTHER))
                else:
                    res.append((kind, x, w))
            return res
        if b is not None and b[0] == "cls":
            c = b[1]
            en, ex = self.prog.class_attr(c, "__enter__"), self.prog.class_attr(c, "__exit__")
            if isinstance(en, Func) and isinstance(ex, Func) and (en in self.direct or ex in self.direct):
                return self.with_class(n, i, c, en, ex, e, fn, s, raises)
        if isinstance(e, ast.Call) and v.qual(e.func) == "warnings.catch_warnings":
            out = []
            for kind, x, w in self.with_(n, i + 1, fn, s, raises):
                x = x.copy()
                x.ch = frozenset(c for c in x.ch if not (c[0] == "set" and c[1].startswith("warnings.")))
                out.append((kind, x, w))
            return out
        out = []
        for s2, _ in self.ev(e, fn, s, raises):
            if it.optional_vars is not None:
                s2 = self.assign(it.optional_vars, OTHER, fn, s2, n)
            out += self.with_(n, i + 1, fn, s2, raises)
        return out

    def with_class(self, n, i, c, en, ex, e, fn, s, raises):
        out = []
        init = self.prog.class_attr(c, "__init__")
        cur = [s]
        for g in ([init] if isinstance(init, Func) else []) + [en]:
            nxt = []
            for x in cur:
                m = x.copy()
                if g is init:
                    for s2, ps, kw in self.args(e, fn, x, raises)[:1]:
                        names = [p.arg for p in g.node.args.args][1:]
                        m = s2.copy()
                        for k, w in list(zip(names, ps)) + list(kw.items()):
                            m.env[(g.qual, k)] = w
                for kind, y, w in self.block(g.node.body, g, m):
                    if kind == "raise":
                        raises.append(y)
                    else:
                        nxt.append(y)
            cur = self.dedup(nxt)
        for x in cur:
            for kind, y, w in self.with_(n, i + 1, fn, x, raises):
                for k2, z, w2 in self.block(ex.node.body, ex, y):
                    if k2 == "raise":
                        out.append(("raise", z, w2))
                    else:
                        out.append((kind, z, w))
        return out

    yields = []

    def do_yield(self, n, fn, s):
        if self.yields:
            h = self.yields.pop()
            top = self.stack.pop()
            try:
                outs = h(s)
            finally:
                self.yields.append(h)
                self.stack.append(top)
            res = []
            for kind, x, w in outs:
                if kind in ("normal", "raise"):
                    res.append((kind, x, w))
                else:
                    # return / break out of the with body: the manager is resumed normally, then it happens
                    y = x.copy()
                    y.env[("pend", self.pend_id(h))] = ("kind", kind)
                    res.append(("normal", y, w))
            return res
        # stand-alone analysis of a generator: the consumer may raise into it or simply continue
        return [("normal", s, OTHER), ("raise", s, OTHER)]

    def pend_id(self, h):
        return id(h.__defaults__[0])

    # ---- driver
    def exits(self, fn):
        self.yields = []
        self.stack = [fn]
        s = S()
        return self.block(fn.node.body, fn, s)

    def solve(self):
        """-> list of (function, location or None, exit kind); functions proved balanced too"""
        res = []
        pend = set(self.direct)
        self.unbalanced = set()
        done = set()
        rounds = 0
        todo = sorted(pend, key=lambda f: f.qual)
        while todo and rounds < 8:
            rounds += 1
            nxt = set()
            for f in todo:
                if f in done:
                    continue
                done.add(f)
                bad = {}
                for kind, x, w in self.exits(f):
                    for loc in x.ch:
                        bad.setdefault(loc, set()).add(kind)
                if not bad:
                    res.append((f, None, None))
                    continue
                callers = [c for c in self.reach.callers.get(f, ()) if c is not f]
                special = f.name in ("__enter__", "__exit__", "__init__")
                gen = f.is_gen
                if callers and (not gen) and not special:
                    self.unbalanced.add(f)
                    nxt |= set(callers)
                elif special:
                    # judged where the object is used in a with statement
                    self.unbalanced.add(f)
                    nxt |= {g for g in self.reach.funcs if any(isinstance(n, ast.With) for n in ast.walk(g.node))}
                else:
                    for loc, kinds in bad.items():
                        res.append((f, loc, kinds))
            todo = sorted(nxt - done, key=lambda f: f.qual)
        return res


class _Null:
    """effect sink for name resolution only"""

    def __init__(self, reach):
        self.prog = reach.prog

    def eff(self, *a, **k):
        pass

    def add_binding(self, *a):
        pass
