"""C25: only real line endings separate lines."""
import ast
import re

from ..effects import Reach
from ..terms import Term, lin
from ..values import *
from .assembly import Assembly
from .cli import API
from .code import trail
from .content import show
from .effectprops import chain
from .wrapping import MOD as WRAP

ENDS = ("\n", "\r", "\r\n")
OTHERS = "\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"
MEASURES = {"len", "bool", "any", "all", "max", "min", "sum", "enumerate_count", "print", "repr"}
LOGS = {"debug", "info", "warning", "error", "exception", "critical", "log"}


def const_of(prog, mod, e, local, depth=0):
    """the constant an expression stands for"""
    if depth > 8:
        return None
    if isinstance(e, ast.Constant):
        return e
    if isinstance(e, ast.Name) and e.id in local:
        v = local[e.id]
        return const_of(prog, mod, v, {}, depth + 1) if v is not None else None
    if isinstance(e, (ast.Name, ast.Attribute)):
        b = prog.resolve_expr(mod, e)
        if b and b[0] in ("const", "var", "val") and isinstance(b[1], ast.AST):
            return const_of(prog, b[2] if len(b) > 2 and b[2] is not None else mod, b[1], {}, depth + 1)
        return e if b else None
    return e


def text_of(prog, mod, e, local):
    c = const_of(prog, mod, e, local)
    if isinstance(c, ast.Constant) and isinstance(c.value, str):
        return c.value
    if isinstance(c, ast.BinOp) and isinstance(c.op, ast.Add):
        a, b = text_of(prog, mod, c.left, local), text_of(prog, mod, c.right, local)
        return a + b if a is not None and b is not None else None
    return None


# ------------------------------------------------------------------ where text is cut

class Sites:
    """the places of one function where text is cut into pieces"""

    def __init__(self, prog, fn, prose):
        self.prog, self.fn, self.mod, self.prose = prog, fn, fn.mod, prose
        self.parent = {}
        self.local, self.loads = {}, {}
        for n in ast.walk(fn.node):
            for c in ast.iter_child_nodes(n):
                self.parent[c] = n
            if isinstance(n, ast.Name):
                self.loads.setdefault((n.id, isinstance(n.ctx, ast.Load)), []).append(n)
        for n in ast.walk(fn.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                k = n.targets[0].id
                self.local[k] = None if len(self.loads.get((k, False), ())) != 1 else n.value
        for a in ast.walk(fn.node.args):
            if isinstance(a, ast.arg):
                self.local[a.arg] = None

    def text(self, e):
        return text_of(self.prog, self.mod, e, self.local)

    def pattern(self, e):
        """(pattern, flags) of a compiled regular expression"""
        c = const_of(self.prog, self.mod, e, self.local)
        if isinstance(c, ast.Call) and self.ext(c.func) == "re.compile" and c.args:
            mod = self.mod
            b = self.prog.resolve_expr(mod, e) if isinstance(e, (ast.Name, ast.Attribute)) else None
            if b and b[0] == "const" and len(b) > 2 and b[2] is not None:
                mod = b[2]
            p = text_of(self.prog, mod, c.args[0], {} if mod is not self.mod else self.local)
            fl = [*c.args[1:2], *(k.value for k in c.keywords if k.arg == "flags")]
            return None if p is None else (p, fold_flags(fl[0]) if fl else 0)
        return None

    def ext(self, f):
        if isinstance(f, ast.Name) and f.id in self.local:
            return None
        b = self.prog.resolve_expr(self.mod, f) if isinstance(f, (ast.Name, ast.Attribute)) else None
        return b[1] if b and b[0] == "ext" else None

    # -- what a piece is used for
    def measured(self, n, depth=0):
        """the pieces only serve a measurement, a decision or a message"""
        if depth > 6:
            return False
        p = self.parent.get(n)
        if p is None:
            return False
        if isinstance(p, ast.Call):
            if n is p.func:
                return False
            f = p.func
            if isinstance(f, ast.Name) and f.id in MEASURES and f.id not in self.local:
                return True
            if isinstance(f, ast.Attribute) and f.attr in LOGS:
                return True
            if isinstance(f, ast.Attribute) and f.attr in ("startswith", "endswith", "count", "isspace"):
                return True
            if isinstance(f, ast.Name) and f.id in ("list", "tuple", "set", "sorted", "reversed", "map", "filter", "enumerate"):
                return self.measured(p, depth + 1)
            return False
        if isinstance(p, (ast.Compare,)):
            return True
        if isinstance(p, ast.UnaryOp) and isinstance(p.op, ast.Not):
            return True
        if isinstance(p, (ast.If, ast.While, ast.Assert, ast.IfExp)) and n is p.test:
            return True
        if isinstance(p, ast.Raise):
            return True
        if isinstance(p, ast.BoolOp):
            return self.measured(p, depth + 1)
        if isinstance(p, ast.Subscript) and n is p.value:
            return self.measured(p, depth + 1)
        if isinstance(p, ast.Attribute) and isinstance(self.parent.get(p), ast.Call):
            c = self.parent[p]
            if p.attr in ("startswith", "endswith", "count", "isspace", "index", "isdigit"):
                return True
            if p.attr in ("strip", "lstrip", "rstrip"):
                return self.measured(c, depth + 1)
            return False
        if isinstance(p, ast.comprehension) and n is p.iter:
            g = self.parent.get(p)
            return self.measured(g, depth + 1)
        if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            us = self.loads.get((p.targets[0].id, True), ())
            return all(self.measured(u, depth + 1) for u in us)
        if isinstance(p, (ast.FormattedValue, ast.JoinedStr)):
            return self.fn.node.name in ("__repr__", "__str__")
        return isinstance(p, ast.Expr)

    # -- the sites
    def run(self):
        """(node, verdict, what) for every place where text is cut or line ends are made"""
        if self.fn.node.name in ("__repr__", "__str__"):
            return
        for n in ast.walk(self.fn.node):
            if isinstance(n, ast.Attribute) and n.attr == "splitlines" and isinstance(n.ctx, ast.Load):
                c = self.parent.get(n)
                at = c if isinstance(c, ast.Call) and c.func is n else n
                if not self.measured(at):
                    yield n, False, "str.splitlines also cuts at form feeds, vertical tabs and Unicode separators"
                else:
                    yield n, True, "only measured"
            elif isinstance(n, ast.Call):
                yield from self.call(n)

    def call(self, n):
        f = n.func
        q = self.ext(f)
        if q in ("textwrap.wrap", "textwrap.fill", "textwrap.TextWrapper", "textwrap.shorten"):
            yield n, False, f"{q} breaks text at form feeds and vertical tabs too"
            return
        if q in ("re.split", "re.sub", "re.subn") and n.args:
            p = self.text(n.args[0])
            c = None if p is None else (p, 0)
            if c is None:
                c = self.pattern(n.args[0])
            rest = n.args[1:]
            yield from self.regex(n, q[3:], c, rest)
            return
        if not isinstance(f, ast.Attribute):
            return
        if f.attr in ("split", "sub", "subn"):
            c = self.pattern(f.value)
            if c is not None:
                yield from self.regex(n, f.attr, c, n.args)
                return
        if q is not None:
            return
        if f.attr in ("split", "rsplit", "partition", "rpartition"):
            sep = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == "sep"), None)
            if sep is None or isinstance(sep, ast.Constant) and sep.value is None:
                if self.prose and "partition" not in f.attr:
                    ok = self.measured(n)
                    yield n, ok, "prose is broken at every kind of white space" if not ok else "only measured"
                return
            s = self.text(sep)
            if s is not None and any(c in s for c in OTHERS):
                ok = self.measured(n)
                yield n, ok, f"text is cut at {s!r}" if not ok else "only measured"
        if f.attr == "replace" and len(n.args) >= 2:
            a, b = self.text(n.args[0]), self.text(n.args[1])
            if a is not None and b is not None and any(c in a for c in OTHERS) and ("\n" in b or "\r" in b):
                yield n, False, f"{a!r} becomes a line ending"

    def regex(self, n, kind, c, rest):
        if c is None:
            return
        try:
            r = re.compile(*c)
        except Exception:
            return
        cut = [x for x in OTHERS if r.fullmatch(x)]
        if not cut:
            if kind == "split":
                yield n, True, "cuts at none of the other characters"
            return
        if kind == "split":
            if r.fullmatch("\n") and (not r.fullmatch(" ") or self.prose):
                ok = self.measured(n)
                yield n, ok, f"text is cut into lines at {cut[0]!r}" if not ok else "only measured"
        elif rest:
            t = self.text(rest[0])
            if t is not None and ("\n" in t or "\r" in t) and "\\" not in t:
                yield n, False, f"{cut[0]!r} becomes a line ending"


def fold_flags(e):
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
        return fold_flags(e.left) | fold_flags(e.right)
    if isinstance(e, ast.Attribute):
        return int(getattr(re, e.attr, 0) or 0)
    return e.value if isinstance(e, ast.Constant) and isinstance(e.value, int) else 0


# ------------------------------------------------------------------ what the parser gets

def fold_text(seq, root, sample):
    """the constant a text is when the document is the sample"""
    if seq.const is not None:
        return seq.const
    if len(seq.p) != 1 or not isinstance(seq.p[0], Sl) or seq.p[0] != full(seq.p[0].src):
        return None
    return fold_term(seq.p[0].src, root, sample)


def fold_term(t, root, sample):
    if t is root or t == root:
        return sample
    if t.op == "replace" and isinstance(t.args[0], Seq):
        x = fold_text(t.args[0], root, sample)
        a, b = (y.const if isinstance(y, Seq) else None for y in t.args[1:3])
        return None if None in (x, a, b) or len(t.args) > 3 else x.replace(a, b)
    if t.op == "resub" and isinstance(t.args[2], Seq) and len(t.args) == 3:
        x = fold_text(t.args[2], root, sample)
        pat, r = t.args[0], t.args[1]
        r = r if isinstance(r, str) else r.args[0] if isinstance(r, Term) and r.op == "s" else None
        if x is None or not isinstance(pat, tuple) or not isinstance(pat[0], str) or not isinstance(r, str):
            return None
        return re.sub(pat[0], r, x, flags=pat[1])
    return None


def fold_lines(pieces, root, sample):
    """the lines the parser gets for the sample, without a last empty one"""
    if len(pieces) != 1 or not isinstance(pieces[0], Sl) or lin(pieces[0].lo).const != 0:
        return None
    t = pieces[0].src
    if t.op not in ("split", "splitlines", "resplit") or not isinstance(t.args[0], Seq):
        return None
    x = fold_text(t.args[0], root, sample)
    if x is None:
        return None
    if t.op == "splitlines":
        return x.splitlines()
    if t.op == "split":
        if not isinstance(t.args[1], str) or len(t.args) > 2 and t.args[2] is not None:
            return None
        out = x.split(t.args[1])
    else:
        if not isinstance(t.args[1], str) or len(t.args) > 2:
            return None
        out = re.split(t.args[1], x)
    if out and not out[-1]:
        out.pop()
    return out


def reachable(st, root, sample):
    """no decision the path takes about the text contradicts the sample"""
    for t, v in st.facts.items():
        if isinstance(t, Term) and t.op == "in" and isinstance(t.args[0], Term) and t.args[0].op == "s":
            x = t.args[1]
            x = fold_text(x, root, sample) if isinstance(x, Seq) else fold_term(x, root, sample) if isinstance(x, Term) else None
            if x is not None and (t.args[0].args[0] in x) != bool(v):
                return False
    return True


SAMPLES = ["x%sy\n" % c for c in (*OTHERS, *ENDS, "\n\n", "\r\r", "\r\n\r\n", "\n\r", " ", "\t", "\xa0", "\x1f", "\u200b", "\x08")]


def lines_of(text):
    out = re.split("\r\n|\r|\n", text)
    if not out[-1]:
        out.pop()
    return out


def pipeline(rep, A):
    for st, v in A.parsed:
        q = A.I.norm_seq(st.heap[v.id].seq, st) if isinstance(v, Ref) and isinstance(st.heap.get(v.id), LObj) else None
        if q is None:
            rep.ob("C25.document", None, A.where, show(v))
            continue
        if not q.p:
            continue
        bad, unknown = None, None
        for s in SAMPLES:
            if not reachable(st, A.text, s):
                continue
            got = fold_lines(q.p, A.text, s)
            if got is None:
                unknown = show(q)
                break
            if got != lines_of(s):
                bad = f"the document {s!r} is parsed as the lines {got!r}"
                break
        rep.ob("C25.document", False if bad else None if unknown else True, A.where, bad or unknown or "cut at line endings only", trail(st))


def check(prog, rep, prop, tier):
    R = prog.public(API, "reformat_markdown_text", "func")
    r = Reach(prog, [R])
    prose = set(Reach(prog, [prog.public(WRAP, "wrap")]).funcs)
    rep.stats["functions"] |= {f.qual for f in r.funcs}
    n = 0
    for fn in r.funcs:
        for node, ok, what in Sites(prog, fn, fn in prose).run():
            n += 1
            rep.ob("C25.cut", ok, f"{fn.mod.relpath}:{node.lineno} ({fn.qual})", what, chain(r, fn) if ok is False else ())
    rep.ob("C25.sites", True, R.loc, f"{n} places cut text in {len(r.funcs)} functions")
    A = Assembly(prog, ("PARAGRAPH",))
    rep.use(A.I)
    pipeline(rep, A)
    return rep
