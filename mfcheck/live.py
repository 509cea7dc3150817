"""Live variables at loop heads (backward dataflow over structured statements)."""
import ast


def uses(e):
    if e is None:
        return set()
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Store)}


def stores(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


class Live:
    def __init__(self, fn_node):
        self.heads = {}
        body = fn_node.body if isinstance(fn_node.body, list) else []
        # names of nested functions' free variables are always live
        self.always = set()
        for n in ast.walk(fn_node):
            if n is not fn_node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                self.always |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        self.block(body, set(), set(), set())

    def block(self, body, out, brk, cont):
        live = set(out)
        for s in reversed(body):
            live = self.stmt(s, live, brk, cont)
        return live

    def stmt(self, s, out, brk, cont):
        if isinstance(s, (ast.For, ast.AsyncFor)):
            head = set(out) | self.block(s.orelse, out, brk, cont)
            while True:
                b = self.block(s.body, head, out, head)
                new = head | ((b - stores(s.target)) | uses(s.target))
                if new == head:
                    break
                head = new
            self.heads[s] = head | self.heads.get(s, set())
            return head | uses(s.iter)
        if isinstance(s, ast.While):
            head = set(out) | self.block(s.orelse, out, brk, cont) | uses(s.test)
            while True:
                new = head | self.block(s.body, head, out, head)
                if new == head:
                    break
                head = new
            self.heads[s] = head | self.heads.get(s, set())
            return head
        if isinstance(s, ast.If):
            return uses(s.test) | self.block(s.body, out, brk, cont) | self.block(s.orelse, out, brk, cont)
        if isinstance(s, (ast.Try,)):
            fin = self.block(s.finalbody, out, brk, cont)
            hs = set()
            for h in s.handlers:
                hs |= self.block(h.body, fin, brk, cont) | uses(h.type)
            b = self.block(s.body + s.orelse, fin | hs, brk | fin, cont | fin)
            return b | hs | fin
        if isinstance(s, (ast.With, ast.AsyncWith)):
            live = self.block(s.body, out, brk, cont)
            for it in reversed(s.items):
                if it.optional_vars is not None:
                    live = live - (stores(it.optional_vars) if isinstance(it.optional_vars, ast.Name) else set())
                live = live | uses(it.context_expr)
            return live
        if isinstance(s, ast.Return):
            return uses(s.value)
        if isinstance(s, ast.Raise):
            return set(out) | uses(s.exc) | uses(s.cause)
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.Assign):
            kill = set()
            u = uses(s.value)
            for t in s.targets:
                kill |= stores(t)
                u |= uses(t)
            return (out - kill) | u
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return set(out)
            return (out - stores(s.target)) | uses(s.value) | uses(s.target)
        if isinstance(s, ast.AugAssign):
            return set(out) | uses(s.value) | stores(s.target) | uses(s.target)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            return set(out) | {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        return set(out) | uses(s)
