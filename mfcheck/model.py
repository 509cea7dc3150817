"""Program model of /repo/markflow built from source: modules, names, classes, call graph."""
import ast
import os

REPO = os.environ.get("MARKFLOW_REPO", "/repo")
PKG = "markflow"


class AnalysisBroken(Exception):
    """an anchor the analysis needs is gone: error exit, never a silent pass"""


class Func:
    def __init__(self, mod, node, qual, cls=None):
        self.mod = mod
        self.node = node
        self.qual = qual          # markflow.x.y.Class.name
        self.cls = cls
        self.name = node.name if hasattr(node, "name") else "<lambda>"
        self.decos = []
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    def __repr__(self):
        return f"<Func {self.qual}>"

    @property
    def loc(self):
        return f"{self.mod.relpath}:{self.node.lineno}"


class Cls:
    def __init__(self, mod, node, qual):
        self.mod = mod
        self.node = node
        self.qual = qual
        self.name = node.name
        self.bases = []      # resolved: Cls or str (external qualname)
        self.attrs = {}      # name -> Func or ast expr
        self.is_dataclass = False

    def __repr__(self):
        return f"<Cls {self.qual}>"


class Module:
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.relpath = os.path.relpath(path, REPO)
        self.tree = tree
        self.src = src
        self.is_pkg = path.endswith("__init__.py")
        self.names = {}      # name -> binding
        self.all = None
        self.ready = False


def walk_own(node):
    """walk a function body without entering nested function/class/lambda/comprehension-generator"""
    body = node.body if isinstance(node.body, list) else [node.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Program:
    """Bindings: ('func',Func) ('cls',Cls) ('mod',Module) ('ext',qualname) ('const', expr, Module)"""

    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        pkg = os.path.join(self.root, PKG)
        if not os.path.isdir(pkg):
            raise AnalysisBroken(f"package directory {pkg} missing")
        for dp, dn, fn in os.walk(pkg):
            dn.sort()
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                name = ".".join(rel)
                src = open(path, encoding="utf-8").read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{path} does not parse: {e}")
                m = Module(name, path, tree, src)
                m.relpath = os.path.relpath(path, self.root)
                self.modules[name] = m
        self.funcs = {}
        self.classes = {}
        for m in self.modules.values():
            self._collect(m)
        for m in list(self.modules.values()):
            self._resolve_imports(m)
        for c in self.classes.values():
            self._resolve_bases(c)

    # -- collection
    def _collect(self, m):
        m.imports = []
        self._collect_block(m, m.tree.body)

    def _collect_block(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Func(m, st, f"{m.name}.{st.name}")
                self.funcs[f.qual] = f
                m.names[st.name] = ("func", f)
            elif isinstance(st, ast.ClassDef):
                c = Cls(m, st, f"{m.name}.{st.name}")
                self.classes[c.qual] = c
                m.names[st.name] = ("cls", c)
                for s in st.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        f = Func(m, s, f"{c.qual}.{s.name}", c)
                        if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                            self.funcs[f.qual + ".setter"] = f
                            continue
                        self.funcs[f.qual] = f
                        c.attrs[s.name] = f
                    elif isinstance(s, ast.Assign):
                        for t in s.targets:
                            if isinstance(t, ast.Name):
                                c.attrs[t.id] = s.value
                    elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        c.attrs[s.target.id] = s.value if s.value is not None else s
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                m.imports.append(st)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        if t.id == "__all__":
                            try:
                                m.all = list(ast.literal_eval(st.value))
                            except Exception:
                                m.all = None
                        m.names[t.id] = ("const", st.value, m)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                m.names[e.id] = ("constidx", st.value, i, m)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    m.names[st.target.id] = ("const", st.value, m)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                m.names[st.target.id] = ("dyn", st.target.id)
            elif isinstance(st, ast.Try):
                self._collect_block(m, st.body)
            elif isinstance(st, ast.If):
                # `if __name__ == "__main__"` bodies do not define names we need
                if not (isinstance(st.test, ast.Compare) and isinstance(st.test.left, ast.Name)
                        and st.test.left.id == "__name__"):
                    self._collect_block(m, st.body)
                    self._collect_block(m, st.orelse)

    def resolve_from(self, m, st):
        """absolute module name of a `from X import` statement"""
        if st.level:
            base = m.name.split(".")
            if not m.is_pkg:
                base = base[:-1]
            if st.level > 1:
                base = base[: len(base) - (st.level - 1)]
            name = ".".join(base + (st.module.split(".") if st.module else []))
        else:
            name = st.module
        return name

    def import_bindings(self, m, st):
        """name -> binding for an import statement found anywhere"""
        out = {}
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    out[a.asname] = self._modbind(a.name)
                else:
                    out[a.name.split(".")[0]] = self._modbind(a.name.split(".")[0])
        else:
            name = self.resolve_from(m, st)
            for a in st.names:
                if a.name == "*":
                    if name in self.modules:
                        out.update(self.star(self.modules[name]))
                else:
                    out[a.asname or a.name] = self._member(name, a.name)
        return out

    def _modbind(self, name):
        if name in self.modules:
            return ("mod", self.modules[name])
        return ("ext", name)

    def _member(self, modname, attr):
        if modname in self.modules:
            sub = f"{modname}.{attr}"
            mod = self.modules[modname]
            if attr in mod.names:
                return ("lazy", mod, attr)
            if sub in self.modules:
                return ("mod", self.modules[sub])
            return ("lazy", mod, attr)
        if not modname:
            return ("ext", attr)
        return ("ext", f"{modname}.{attr}")

    def star(self, mod, seen=()):
        """names exported by `from mod import *`"""
        if mod in seen:
            return {}
        names = dict()
        for st in mod.imports:
            if isinstance(st, ast.ImportFrom) and any(a.name == "*" for a in st.names):
                n = self.resolve_from(mod, st)
                if n in self.modules:
                    names.update(self.star(self.modules[n], seen + (mod,)))
            else:
                for k, v in self.import_bindings(mod, st).items():
                    names[k] = v
        for k in mod.names:
            names[k] = ("lazy", mod, k)
        if mod.all is not None:
            return {k: names.get(k, ("lazy", mod, k)) for k in mod.all}
        return {k: v for k, v in names.items() if not k.startswith("_")}

    def _resolve_imports(self, m):
        for st in m.imports:
            for k, v in self.import_bindings(m, st).items():
                if k not in m.names:
                    m.names[k] = v

    def lookup(self, mod, name, depth=0):
        b = mod.names.get(name)
        if b is None:
            sub = self.modules.get(f"{mod.name}.{name}")
            if sub is not None:
                return ("mod", sub)
            return None
        if b[0] == "lazy":
            if depth > 20:
                return None
            if b[1] is mod and b[2] == name:
                return None
            return self.lookup(b[1], b[2], depth + 1)
        return b

    def _resolve_bases(self, c):
        for b in c.node.bases:
            r = self.resolve_expr(c.mod, b)
            if r and r[0] == "cls":
                c.bases.append(r[1])
            elif r and r[0] == "ext":
                c.bases.append(r[1])
            elif isinstance(b, ast.Name):
                c.bases.append("builtins." + b.id)
            else:
                c.bases.append("?")
        for d in c.node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            r = self.resolve_expr(c.mod, t)
            if r and r[0] == "ext" and r[1].startswith("dataclasses."):
                c.is_dataclass = True
            elif isinstance(t, ast.Name) and t.id == "dataclass":
                c.is_dataclass = True

    def resolve_expr(self, mod, e, local=None):
        """static resolution of Name / Attribute chains to a binding, or None"""
        if isinstance(e, ast.Name):
            if local and e.id in local:
                return local[e.id]
            return self.lookup(mod, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value, local)
            if b is None:
                return None
            if b[0] == "mod":
                return self.lookup(b[1], e.attr)
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
            if b[0] == "cls":
                a = self.class_attr(b[1], e.attr)
                if isinstance(a, Func):
                    return ("func", a)
                return None
        return None

    def class_attr(self, c, name, seen=()):
        if name in c.attrs:
            return c.attrs[name]
        for b in c.bases:
            if isinstance(b, Cls) and b not in seen:
                r = self.class_attr(b, name, seen + (c,))
                if r is not None:
                    return r
        return None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, Cls):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    # -- anchors
    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None:
            raise AnalysisBroken(f"anchor function {qual} not found")
        return f

    def public(self, modname, name, kind="func"):
        """resolve through re-exports; anchors may move between modules"""
        m = self.modules.get(modname)
        b = self.lookup(m, name) if m else None
        if b and b[0] == kind:
            return b[1]
        # moved: unique definition with that name anywhere
        pool = self.funcs if kind == "func" else self.classes
        c = [f for q, f in pool.items() if q.split(".")[-1] == name and (kind == "cls" or f.cls is None)]
        if len(c) == 1:
            return c[0]
        raise AnalysisBroken(f"anchor {kind} {modname}.{name} not found")

    def is_subclass(self, c, name):
        """c: Cls or external qualname; name: Cls or qualname"""
        if c is name:
            return True
        if isinstance(c, Cls):
            return any(self.is_subclass(b, name) for b in c.bases)
        if isinstance(name, Cls):
            return False
        return ext_subclass(c, name)


_EXT_BASES = {
    "argparse.ArgumentTypeError": ("builtins.Exception",),
    "argparse.ArgumentError": ("builtins.Exception",),
    "json.JSONDecodeError": ("builtins.ValueError",),
    "re.error": ("builtins.Exception",),
}


def ext_subclass(a, b):
    import builtins
    a = a if "." in a else "builtins." + a
    b = b if "." in b else "builtins." + b
    if a == b:
        return True
    if a in _EXT_BASES:
        return any(ext_subclass(x, b) for x in _EXT_BASES[a])
    if a.startswith("builtins.") and b.startswith("builtins."):
        x = getattr(builtins, a[9:], None)
        y = getattr(builtins, b[9:], None)
        if isinstance(x, type) and isinstance(y, type):
            return issubclass(x, y)
    return False
