"""C09 (path argument checks), C06.expand (directory arguments), C07.type (the length option's type)."""
from ..interp import Exc, Budget
from ..lib_ext import pc
from ..terms import Term, Lin, lin, Store
from ..values import *
from ..model import Cls, AnalysisBroken
from .cli import Cli, MAIN, contains
from .cliprops import Run, where_of
from .util import walk, ops

R_OK, W_OK = 4, 2


def const_of(a):
    if isinstance(a, Lin):
        return a.const
    if isinstance(a, Term):
        if a.op == "int" and a.args:
            return const_of(a.args[0])
        return None
    return a if isinstance(a, int) else None


def access(st, path, bit):
    """True / False: granted / refused on this path through the code; None: never asked"""
    r = None
    for t, v in st.facts.items():
        if t.op == "access" and t.args[0] is path:
            m = const_of(t.args[1])
            if m is None:
                continue
            if v and int(m) & bit:
                return True
            if not v and int(m) == bit:
                r = False
    return r


def asked_unknown(st, path):
    """a permission question about path whose mode is not understood"""
    return any(t.op == "access" and t.args[0] is path and const_of(t.args[1]) is None for t in st.facts)


def fact(st, op, path):
    for t, v in st.facts.items():
        if t.op == op and t.args and t.args[0] is path:
            return v
    return None


def fresh(o, budget=3):
    st = o["st"].copy()
    st.budget = budget
    st.facts = {}
    st.store = Store()
    st.forall = ()
    return st


def sub(cli):
    """the interpreter of the CLI run, reused for single calls without outcome merging"""
    cli.I.cfg.merge = None
    cli.I.cfg.mode = "peel"
    cli.I.cfg.on_event = lambda I, st, k, d, n, f: [(st, None)]
    return cli.I


def option(cli, role):
    for o in cli.opts:
        d = o["dest"]
        if d is not None and cli.roles.get(role) == d:
            return o
    return None


def call_type(cli, o):
    """outcomes of the option's type= callable on an arbitrary string"""
    I = cli.I
    ty = o["kw"].get("type")
    st = fresh(o)
    t = Term("var", "STRING")
    t.sort = "str"
    st, v = I.value_of(t, st)
    return ty, v, I.call(ty, [v], {}, st, o["node"], I.module_frame(cli.prog.modules[MAIN]))


def check_type(cli, rep, role, rule):
    o = option(cli, role)
    if o is None:
        rep.ob(rule, None, MAIN, f"option for {role} not found")
        return
    w = o["where"]
    ty = o["kw"].get("type")
    name = o["flags"][-1]
    if ty is None or isinstance(ty, ExtV):
        rep.ob(rule, False, w, f"{name}: the value is accepted without any check of the path it names")
        return
    ty, v, res = call_type(cli, o)
    n = 0
    for st, r in res:
        if isinstance(r, Exc):
            continue
        n += 1
        p = cli.I.term(r, st)
        if not (p.op == "path" and cli.I.term(v, st) is p.args[0]):
            if ops(p) <= {"path", "var", "join", "s", "c", "pathop", "cat", "strof"} and p.op != "var":
                rep.ob(rule, False, w, f"{name}: the value becomes {p}, not the path given")
            else:
                rep.ob(rule, None, w, f"{name}: the value becomes {p}")
            continue
        ex, isd, isf = fact(st, "exists", p), fact(st, "is_dir", p), fact(st, "is_file", p)
        known = ", ".join(f"{t}={b}" for t, b in sorted(st.facts.items(), key=lambda x: str(x[0]))) or "nothing"
        shady = any(contains(t, p) and t.op not in ("exists", "is_dir", "is_file", "access", "eq") for t in st.facts) \
            or asked_unknown(st, p)

        def need(ok, what):
            s = True if ok else (None if shady else False)
            rep.ob(rule, s, w, f"{name}: a path is accepted without knowing that {what} (checked: {known})")
        if role == "paths":
            need(ex is True or isd is True or isf is True, "it exists")
            need(access(st, p, R_OK) is True, "it is readable")
        elif role == "odir":
            need(isd is True, "it is an existing directory")
            need(access(st, p, W_OK) is True, "it is writable")
        elif role == "ofiles":
            if ex is True or isf is True or isd is True:
                need(isd is False or isf is True, "it is not a directory")
                need(access(st, p, W_OK) is True, "it is writable")
            else:
                par = None
                for t in st.facts:
                    for x in walk(t):
                        if x.op == "attr" and x.args[0] is p and x.args[1] == "parent":
                            par = x
                need(par is not None and fact(st, "is_dir", par) is True, "its directory exists")
                need(par is not None and access(st, par, W_OK) is True, "its directory is writable")
    if not n:
        rep.ob(rule, False, w, f"{name}: no path is ever accepted")


# ---- the in-place rule

class InPlace(Run):
    def on_read(self, I, st, p, data, w):
        if p.op != "elem" or p.args[0] is not self.paths():
            return
        if self.known("check", st) is not False or self.known("odir", st) or self.known("ofiles", st):
            return
        a = access(st, p, W_OK)
        msg = f"{p} is read for rewriting in place although it is not known to be writable"
        if self.mode == "fix":
            self.ob("C09.inplace", True if a is True else None, w, msg, st)
            return
        shady = self.shady(st)
        self.ob("C09.inplace", True if a is True else (None if shady else False), w, msg, st)
        # all the others must have been checked before the first document is read
        ps = self.paths()
        n = length_of(ps)
        i = const_of(lin(p.args[1]))
        if i == 0:
            for k in (1,):
                s2 = I.with_ge(st, n - k - 1)
                if s2 is None:
                    continue
                q = Term("elem", ps, lin(k))
                b = access(st, q, W_OK)
                if b is None and a is not None and not shady and self.open_end(st, ps, k):
                    self.ob("C09.before", False, w, "a document is read before every input was checked to be writable", s2)
                elif b is True:
                    self.ob("C09.before", True, w, "", st)

    def open_end(self, st, ps, k):
        return True

    def shady(self, st):
        ps = self.paths()
        return any(t.op not in ("exists", "is_dir", "is_file", "access", "eq", "ge", "truthy") and contains(t, ps)
                   for t in st.facts)


def exists_hook(run, t):
    """the inputs were found to exist when the arguments were parsed (C09.paths)"""
    if t.op == "exists" and t.args[0].op == "elem" and t.args[0].args[0] is run.paths():
        return True
    return None


def refused(run):
    """a failed permission question in place must end the run with a nonzero status"""
    for st, v in run.res:
        if run.opt("check", st) is None or run.known("check", st) is not False or run.known("odir", st) or run.known("ofiles", st):
            continue
        ps = run.paths()
        bad = [t for t, b in st.facts.items() if t.op == "access" and not b and t.args[0].op == "elem"
               and t.args[0].args[0] is ps and const_of(t.args[1]) == W_OK]
        if not bad:
            continue
        o = run.outcome(st, v)
        z = None if o == "exc" else run.code_is(st, o[1], 0)
        run.ob("C09.refused", True if o == "exc" else (None if z is None else not z), where_of(run),
               f"{bad[0].args[0]} is not writable but the run ends with status {o[1] if o != 'exc' else ''}", st)


def parsed_cli(prog, rep):
    cli = Cli(prog, mode="peel", budget=0, entry="parse_args" if prog.modules[MAIN].names.get("parse_args") else "main")
    try:
        cli.run()
    except Budget as e:
        rep.note(str(e))
    rep.use(cli.I)
    return cli


def check(prog, rep, prop, tier):
    cli = parsed_cli(prog, rep)
    sub(cli)
    for role in ("paths", "odir", "ofiles"):
        check_type(cli, rep, role, "C09." + role)
    rep.use(cli.I)
    for mode in ("peel", "fix"):
        run = InPlace(prog, rep, mode, budget=2 if tier == "quick" else 3, fail=False)
        run.codecs = {}
        # the arguments have been validated when they were parsed: they exist
        run.I.cfg.atom_hook = lambda I, st, t, run=run: exists_hook(run, t)
        try:
            run.go()
        except (Budget, RecursionError) as e:
            rep.note(f"{mode}: {e}")
            continue
        if mode == "peel":
            refused(run)
        for rule, s, w, msg, tr in run.local:
            if rule.startswith("C09."):
                rep.ob(rule, s, w, msg, tr)
    return rep


# ---- C07: the type of the length option

def check_length_type(cli, rep):
    o = option(cli, "line_length")
    if o is None:
        raise AnalysisBroken("no --line-length option")
    w = o["where"]
    ty = o["kw"].get("type")
    if ty is None:
        rep.ob("C07.type", False, w, "--line-length has no type: the length requested reaches the formatter as a string")
        return
    if isinstance(ty, ExtV):
        rep.ob("C07.type", True if ty.q == "builtins.int" else None, w, f"type {ty.q}")
        return
    I = sub(cli)
    ty, v, res = call_type(cli, o)
    vt = I.term(v, res[0][0]) if res else None
    for st, r in res:
        if isinstance(r, Exc):
            continue
        if isinstance(r, Num):
            ds = list(r.lin.t)
            own = len(ds) == 1 and r.lin == Lin(0, {ds[0]: 1}) and "int" in ds[0].op
            oth = all(contains(d, vt) or d is vt for d in ds)
            rep.ob("C07.type", True if own else (False if oth else None), w,
                   f"--line-length: the string given becomes {r.lin}")
        else:
            rep.ob("C07.type", None, w, f"--line-length: the string given becomes {r}")


# ---- C06: what a directory argument stands for

def check_expand(cli, rep, rule="C06.expand"):
    I = sub(cli)
    o = next((o for o in cli.opts if o["pos"]), None)
    if o is None:
        raise AnalysisBroken("no positional path argument")
    w = o["where"]
    act = o["kw"].get("action")
    if act is None or isinstance(act, Seq):
        rep.ob(rule, False, w, "directories given as arguments are not expanded")
        return
    globs = []

    def ev(I, st, kind, data, node, fid):
        if kind == "opaque" and data["q"] in ("glob.glob", "glob.iglob"):
            return [(st.setghost(globs=st.ghost.get("globs", ()) + (data["term"],)), None)]
        if kind == "setattr" and data.get("nameval") is not None or kind == "setattr" and data.get("obj") is not None:
            return [(st.setghost(set=st.ghost.get("set", ()) + (data["value"],)), None)]
        return [(st, None)]
    I.cfg.on_event = ev
    st = fresh(o, 2)
    f = I.module_frame(cli.prog.modules[MAIN])
    kw = {k: v for k, v in o["kw"].items() if k != "action"}
    kw["option_strings"], kw["dest"] = Tup(()), S(o["dest"])
    for s, obj in I.call(act, [], kw, st, o["node"], f):
        if isinstance(obj, Exc):
            continue
        vt = Term("var", "VALUES")
        vt.sort = ("list", "path")
        s, v = I.value_of(vt, s)
        s = s.setghost(globs=(), set=())
        for s2, r in I.call(obj, [Sym(Term("var", "PARSER")), Sym(Term("var", "NSP")), v], {}, s, o["node"], f):
            expand_outcome(I, rep, rule, w, vt, s2, r)


def expand_outcome(I, rep, rule, w, vt, st, r):
    n = st.store.norm(length_of(vt)).const
    if n is None:
        return
    n = int(n)
    if isinstance(r, Exc):
        rep.ob(rule, None, w, f"expanding the paths may raise {r}")
        return
    vals = [x for x in st.ghost.get("set", ())]
    if len(vals) != 1:
        rep.ob(rule, None if vals else (False if n else None), w, "the expanded paths are never stored")
        return
    seq = vals[0]
    if isinstance(seq, Ref) and isinstance(st.heap.get(seq.id), LObj):
        seq = st.heap[seq.id].seq
    if isinstance(seq, Seq):
        pieces = list(seq.p)
    else:
        rep.ob(rule, None, w, f"stored value {seq}")
        return
    ts = [I.term(p.v, st) if isinstance(p, Item) else None for p in pieces]
    odd = any(isinstance(p, (Img, Rep, Ext)) for p in pieces)
    last = -1
    for i in range(n):
        e = Term("elem", vt, lin(i))
        isf, isd = fact(st, "is_file", e), fact(st, "is_dir", e)
        if isf is None and isd is None:
            hit = any(p is not None and contains(p, e) for p in ts)
            rep.ob(rule, None if hit or odd else False, w, f"input {i + 1} is dropped on some path")
            continue
        if isf is True or isd is False:
            at = [k for k, t in enumerate(ts) if t is e]
            ok = len(at) == 1 and at[0] > last
            rep.ob(rule, True if ok else (None if odd and not at else False), w,
                   f"a file given as input {i + 1} of {n} yields {[str(t) for t in ts]}")
            last = at[0] if at else last
            continue
        gl = [g for g in st.ghost.get("globs", ()) if any(x is e for x in walk(g))]
        if not gl:
            shady = any(x is e for p in pieces for x in walk(p)) or odd
            rep.ob(rule, None if shady else False, w, f"a directory given as input {i + 1} is not searched")
            continue
        for g in gl:
            glob_ok(rep, rule, w, g, e)
            results_kept(rep, rule, w, g, ts, odd, st)


def results_kept(rep, rule, w, g, ts, odd, st):
    """every path the search found is among the stored ones"""
    L = Term("iterof", g)
    m = st.store.norm(length_of(L)).const
    for i in range(int(m or 0)):
        x = Term("elem", L, lin(i))
        if any(t is not None and contains(t, x) for t in ts):
            rep.ob(rule + ".found", True, w, "")
            continue
        about = [(t, b) for t, b in st.facts.items() if contains(t, x)]
        if odd or any(t is None for t in ts) or any(t is not None and contains(t, L) for t in ts):
            rep.ob(rule + ".found", None, w, f"result {i + 1} of {g} not found among what is stored")
        elif any(excused(t, b, x) for t, b in about):
            # a directory of that name, a file given twice: nothing to reformat is lost
            rep.ob(rule + ".found", None, w, f"result {i + 1} of {g} left out after {[str(t)[-40:] for t, _ in about]}")
        else:
            rep.ob(rule + ".found", False, w, "a Markdown file found in the directory is left out")


def excused(t, b, x):
    """nothing to reformat is lost by leaving x out when the test t came out as b"""
    if t.op in ("is_file", "exists"):
        return not b
    if t.op in ("is_dir", "is_symlink"):
        return b
    if t.op == "truthy":
        return isinstance(t.args[0], Term) and excused(t.args[0], b, x)
    if t.op == "in":           # the path among others, not something in the path
        return b and not (len(t.args) > 1 and isinstance(t.args[1], Term) and contains(t.args[1], x))
    return b and t.op == "eq"


def glob_ok(rep, rule, w, g, e):
    text = " ".join(str(x.args[0]) for x in walk(g) if x.op == "s")
    rec = any(x.op == "kw" and x.args[0] == "recursive" and repr(x.args[1]) == "c('True')" for x in g.args[1:]
              if isinstance(x, Term))
    deep = "**" in text and rec
    rep.ob(rule, True if deep else False, w, f"{g}: only part of the directory tree is searched")
    esc = any(x.op == "ecall" and x.args[0] == "glob.escape" and any(y is e for y in walk(x)) for x in walk(g))
    rep.ob(rule + ".name", esc, w, f"{g}: a directory whose name contains glob characters is not searched")
