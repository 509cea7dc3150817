"""Reachability and syntactic effect analysis of the formatting API (names resolved through the package)."""
import ast
import builtins

from .model import Func, Cls

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update",
            "setdefault", "popitem", "appendleft", "popleft", "extendleft", "rotate", "__setitem__", "__delitem__"}
MUTABLE_CALLS = {"list", "dict", "set", "bytearray", "collections.defaultdict", "collections.deque",
                 "collections.OrderedDict", "collections.Counter", "defaultdict", "deque", "OrderedDict", "Counter",
                 "weakref.WeakKeyDictionary", "weakref.WeakValueDictionary"}
STATEFUL_CALLS = {"iter", "map", "filter", "zip", "enumerate", "reversed", "open", "itertools.count", "itertools.cycle",
                  "itertools.chain", "random.Random", "itertools.repeat", "itertools.islice"}


class Effect:
    __slots__ = ("kind", "fn", "node", "what", "extra")

    def __init__(self, kind, fn, node, what, extra=None):
        self.kind, self.fn, self.node, self.what, self.extra = kind, fn, node, what, extra

    @property
    def where(self):
        return f"{self.fn.mod.relpath}:{getattr(self.node, 'lineno', '?')} ({self.fn.qual})"


def local_names(fnode):
    """names bound in this function scope, and those declared global"""
    loc, glob, nonloc = set(), set(), set()
    a = fnode.args
    for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
        loc.add(p.arg)
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonloc |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                loc.add((al.asname or al.name).split(".")[0])
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return loc - glob - nonloc, glob


class Reach:
    """functions and classes the root can reach; effects found in them"""

    def __init__(self, prog, roots):
        self.prog = prog
        self.funcs = []
        self.seen = set()
        self.classes = set()
        self.effects = []
        self.consts = set()
        self.callers = {}
        self.queue = []
        for r in roots:
            self.add(r, None)
        while self.queue:
            f = self.queue.pop(0)
            self.visit(f)

    def add(self, x, by):
        if isinstance(x, Func):
            if by is not None:
                self.callers.setdefault(x, set()).add(by)
            if x not in self.seen:
                self.seen.add(x)
                self.funcs.append(x)
                self.queue.append(x)
        elif isinstance(x, Cls) and x not in self.classes:
            self.classes.add(x)
            for c in self.prog.mro(x):
                self.classes.add(c)
                for a in c.attrs.values():
                    if isinstance(a, Func):
                        self.add(a, by)

    def add_binding(self, b, by):
        if b is None:
            return
        if b[0] in ("func", "cls"):
            self.add(b[1], by)
        elif b[0] == "const" and id(b[1]) not in self.consts:
            self.consts.add(id(b[1]))
            for n in ast.walk(b[1]):
                if isinstance(n, (ast.Name, ast.Attribute)):
                    self.add_binding(self.prog.resolve_expr(b[2], n), by)

    def eff(self, kind, fn, node, what, extra=None):
        self.effects.append(Effect(kind, fn, node, what, extra))

    def visit(self, fn):
        V(self, fn).run()


def const_kind(value, mod, prog):
    """'mutable', 'iterator' or None for a module or class level initialiser"""
    if isinstance(value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return "mutable"
    if isinstance(value, ast.GeneratorExp):
        return "iterator"
    if isinstance(value, ast.Call):
        b = prog.resolve_expr(mod, value.func)
        q = b[1] if b and b[0] == "ext" else (value.func.id if isinstance(value.func, ast.Name) and b is None else None)
        if q in MUTABLE_CALLS:
            return "mutable"
        if q in STATEFUL_CALLS:
            return "iterator"
        if b and b[0] == "func" and b[1].is_gen:
            return "iterator"
        if b and b[0] == "cls":
            return "object"
    return None


class V:
    """one function with its nested scopes"""

    def __init__(self, reach, fn):
        self.r = reach
        self.fn = fn
        self.prog = reach.prog
        self.mod = fn.mod
        self.scopes = []
        self.alias = {}
        self.imports = {}

    def run(self):
        node = self.fn.node
        for d in node.decorator_list:
            q = self.qual(d.func if isinstance(d, ast.Call) else d)
            if q:
                self.r.eff("deco", self.fn, d, q)
            self.expr(d)
        for n in ast.walk(node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                self.imports.update(self.prog.import_bindings(self.mod, n))
        a = node.args
        pos = a.posonlyargs + a.args
        self.defaults = {}
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            k = const_kind(d, self.mod, self.prog)
            if k:
                self.defaults[p.arg] = k
        self.scope(node)

    # scope handling
    def scope(self, node):
        loc, glob = local_names(node)
        self.scopes.append((loc, glob))
        body = node.body if isinstance(node.body, list) else [node.body]
        # simple aliases of module level values
        for n in ast.walk(node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                t = self.target(n.value)
                if t is not None and t[0] in ("const", "classattr", "default"):
                    self.alias[n.targets[0].id] = t
        for s in body:
            self.node(s)
        self.scopes.pop()

    def is_local(self, name):
        for loc, glob in reversed(self.scopes):
            if name in glob:
                return False
            if name in loc:
                return True
        return False

    def bind(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.imports:
                b = self.imports[e.id]
                return self.prog.lookup(b[1], b[2]) if b and b[0] == "lazy" else b
            if self.is_local(e.id):
                return None
            b = self.prog.lookup(self.mod, e.id)
            if b is None and hasattr(builtins, e.id):
                return ("ext", "builtins." + e.id)
            return b
        if isinstance(e, ast.Attribute):
            b = self.bind(e.value)
            if b is None:
                return None
            if b[0] == "mod":
                return self.prog.lookup(b[1], e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "cls":
                a = self.prog.class_attr(b[1], e.attr)
                if isinstance(a, Func):
                    return ("func", a)
                if a is not None:
                    return ("classattr", b[1], e.attr, a)
        return None

    def qual(self, e):
        b = self.bind(e)
        return b[1] if b and b[0] == "ext" else None

    def target(self, e):
        """what shared location an expression denotes, or None"""
        if isinstance(e, ast.Name):
            if self.is_local(e.id):
                if e.id in self.alias:
                    return self.alias[e.id]
                if e.id in getattr(self, "defaults", {}):
                    return ("default", e.id)
                return None
            b = self.bind(e)
            if b and b[0] == "const":
                return ("const", e.id, b[1], b[2])
            if b and b[0] == "ext":
                return ("ext", b[1])
            if b and b[0] in ("func", "cls", "mod"):
                return b
            return None
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id in ("self", "cls") and self.fn.cls is not None:
                return self.self_attr(e.attr, e.value.id)
            if isinstance(e.value, ast.Attribute) and e.value.attr == "__class__" or \
                    isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == "type":
                return ("classattr", self.fn.cls, e.attr, None)
            b = self.bind(e)
            if b and b[0] == "classattr":
                return b
            if b and b[0] == "const":
                return ("const", e.attr, b[1], b[2])
            if b and b[0] == "ext":
                return ("ext", b[1])
            base = self.bind(e.value)
            if base and base[0] in ("func", "cls", "mod"):
                return ("attrof", base, e.attr)
            t = self.target(e.value)
            if t and t[0] == "const":
                return ("constattr", t, e.attr)
            return None
        if isinstance(e, ast.Subscript):
            t = self.target(e.value)
            return t if t and t[0] in ("const", "classattr", "constattr", "default") else None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "globals":
            return ("const", "globals()", e, self.mod)
        return None

    def self_attr(self, name, via):
        cls = self.fn.cls
        a = self.prog.class_attr(cls, name)
        if a is None or isinstance(a, Func):
            return ("classattr", cls, name, None) if via == "cls" and not isinstance(a, Func) else None
        if via == "cls":
            return ("classattr", cls, name, a)
        for c in self.prog.mro(cls):
            for f in c.attrs.values():
                if isinstance(f, Func):
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) \
                                and isinstance(n.value, ast.Name) and n.value.id == "self":
                            return None
        if cls.is_dataclass:
            return None
        return ("classattr", cls, name, a)

    # traversal
    def node(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                self.expr(d)
            self.scope(n)
            return
        if isinstance(n, ast.Lambda):
            self.scope(n)
            return
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete, ast.For)):
            if isinstance(n, (ast.Assign, ast.Delete)):
                ts = n.targets
            else:
                ts = [n.target]
            for t in ts:
                for x in self.flat(t):
                    self.store(x, n)
        if isinstance(n, ast.With):
            for it in n.items:
                if it.optional_vars is not None:
                    for x in self.flat(it.optional_vars):
                        self.store(x, n)
        if isinstance(n, ast.Call):
            self.call(n)
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
            self.load(n)
            if isinstance(n, ast.Attribute) and self.bind(n) is not None:
                return
        for c in ast.iter_child_nodes(n):
            if isinstance(n, (ast.arg, ast.arguments)) or self.is_annotation(n, c):
                continue
            self.node(c)

    def is_annotation(self, n, c):
        return isinstance(n, ast.AnnAssign) and c is n.annotation

    expr = node

    def flat(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                yield from self.flat(e)
        elif isinstance(t, ast.Starred):
            yield from self.flat(t.value)
        else:
            yield t

    def store(self, t, st):
        if isinstance(t, ast.Name):
            if any(t.id in g for _, g in self.scopes):
                self.r.eff("globalstore", self.fn, st, t.id, ("const", t.id, None, self.mod))
            elif isinstance(st, ast.AugAssign):
                x = self.target(t)
                if x is not None and x[0] == "default":
                    self.r.eff("mutate", self.fn, st, f"default argument {t.id}", x)
            return
        if isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == "self":
                return
            b = self.target(t)
            base = self.bind(t.value)
            if b is None and base is None:
                tt = self.target(t.value)
                if tt is None:
                    return
                b = ("constattr", tt, t.attr)
            self.r.eff("attrstore", self.fn, st, ast.unparse(t), b or ("attrof", base, t.attr))
        elif isinstance(t, ast.Subscript):
            b = self.target(t.value)
            if b is not None and b[0] in ("const", "classattr", "constattr", "default"):
                self.r.eff("mutate", self.fn, st, ast.unparse(t.value), b)
            elif b is not None and b[0] == "ext":
                self.r.eff("extmutate", self.fn, st, b[1])

    def call(self, n):
        f = n.func
        q = self.qual(f)
        if q is not None:
            self.r.eff("extcall", self.fn, n, q)
        if isinstance(f, ast.Attribute):
            t = self.target(f.value)
            if f.attr in MUTATORS and t is not None and t[0] in ("const", "classattr", "constattr", "default"):
                self.r.eff("mutate", self.fn, n, ast.unparse(f.value), t)
            if q is None:
                self.r.eff("method", self.fn, n, f.attr, t)
        if q in ("builtins.setattr", "builtins.delattr") and n.args:
            b = self.target(n.args[0]) or self.bind(n.args[0])
            if b is not None:
                self.r.eff("attrstore", self.fn, n, ast.unparse(n), b)

    def load(self, n):
        b = self.bind(n)
        if b is None:
            if isinstance(n, ast.Attribute):
                t = self.target(n)
                if t is not None and t[0] in ("classattr", "constattr"):
                    self.r.eff("read", self.fn, n, ast.unparse(n), t)
                if n.attr in ("level", "handlers", "disabled", "filters", "propagate"):
                    self.r.eff("logattr", self.fn, n, n.attr, self.target(n.value))
            return
        if b[0] == "ext":
            self.r.eff("extref", self.fn, n, b[1])
            return
        if b[0] == "const":
            self.r.eff("read", self.fn, n, getattr(n, "id", getattr(n, "attr", "")), ("const", getattr(n, "id", getattr(n, "attr", "")), b[1], b[2]))
        elif b[0] == "classattr":
            self.r.eff("read", self.fn, n, ast.unparse(n), b)
        self.r.add_binding(b, self.fn)
