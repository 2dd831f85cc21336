"""C21: debug printing never changes results."""
import ast
from .terms import *
from .gridctx import *
from .modelctx import Model
from .check import where
from .interp import Diverge
from .rules_eqs import Case, settings
from .rules_grid import RC, cellvars, interior
from .rules_step import attempt, HIST, Bounded, args, DEFAULT
from .effects import Effects
from .scan import MUTATORS
from .src import mangle
from . import models as M

PARALLEL = ("C21",)
BO, FDM = "BlackOil", "FDM"
ATTRS = ("verbose",)


def c21(ck):
    src = ck.src
    if ck.part():
        flow(ck, src)
    quick = ck.tier == "quick"
    for d in ALLDIMS:
        if ck.part():
            attempt(ck, "printing changes nothing", where(src, RC, "__init__"), f"dims={d or 'none'}; grid", lambda case: grid(ck, src, d, quick, case))
    for d in ("", "x", "xy") if quick else ALLDIMS:
        for comp in (True, False):
            if ck.part():
                attempt(ck, "printing changes nothing", where(src, BO, "__init__"), f"dims={d or 'none'} compressible={comp}; model", lambda case: model(ck, src, d, comp, case))
        for sparse in (True, False):
            names = settings(d, ck.tier, True) if d else [("no conditions", (), ())]
            for n, (name, bounds, wells) in enumerate(names):
                if quick and n not in (0, len(names) - 1) and len(d) > 1:
                    continue
                for how in ("get_cell_eq", "get_cells_eq", "get_matrices_symb", "get_matrices_vect"):
                    if how in ("get_cell_eq", "get_cells_eq") and sparse:
                        continue
                    if ck.part():
                        attempt(ck, "printing changes nothing", where(src, FDM, how), f"dims={d} sparse={sparse}; {name}; {how}", lambda case: assembled(ck, src, d, sparse, bounds, wells, how, case))
    for d in ("x", "xy") if quick else ("x", "y", "z", "xy", "xyz"):
        for sparse in (False, True):
            for kinds in ((), ("pressure",), ("pressure", "rate")):
                for comp in (True, False):
                    if quick and len(d) > 1 and (comp or len(kinds) == 1):
                        continue
                    if ck.part():
                        attempt(ck, "printing changes nothing", where(src, FDM, "solve"), f"dims={d} sparse={sparse} compressible={comp} boundaries={'+'.join(kinds) or 'none'}; step", lambda case: step(ck, src, d, sparse, comp, kinds, case))
                    if ck.part():
                        attempt(ck, "verbose is put back", where(src, FDM, "run"), f"dims={d} sparse={sparse} compressible={comp} boundaries={'+'.join(kinds) or 'none'}; run", lambda case: restored(ck, src, d, sparse, comp, kinds, case))
    for d in "xyz":
        if ck.part():
            attempt(ck, "verbose is put back", where(src, "D1P1", "run"), f"dims={d}; analytical", lambda case: exact(ck, src, d, case))


# --------------------------------------------------------------------- values
def everything(ip, st, objs):
    """attributes of the objects, as values"""
    out = {}
    for o in objs:
        for key in list(st.heap):
            if key[0] == "a" and key[1] is o and isinstance(key[2], str) and key[2] not in ("solution", "solutions", "compiler", "model", "grid", "fluid", "ctime", "run_ctime") + ATTRS:
                out[o, key[2]] = ip.freeze(ip.getattr(o, key[2], st), st)
    return out


def twice(ck, wh, ip, base, flags, act, objs, facts, case, skip=()):
    """the act with verbose on and off: same answer, same refusals, same state"""
    rule = "printing changes nothing"
    res = []
    for v in (TRUE, FALSE):
        st = base.copy()
        for o in flags:
            ip.setattr(o, "verbose", v, st)
        n = len(ip.raises)
        try:
            r = act(st)
            r = ip.freeze(r, st) if r is not None else NONE
        except Diverge:
            r = NONE
        g = bor(*[e.guard for e in ip.raises[n:]])
        del ip.raises[n:]
        res.append((r, g, everything(ip, st, objs), st))
    (r1, g1, h1, s1), (r0, g0, h0, s0) = res
    ck.note(ip)
    ck.same("printing refuses nothing", wh, g1, g0, facts=facts, case=case)
    ck.same(rule, wh, r1, r0, facts=facts, case=f"{case}; result", sizes=(0, 2))
    n = 0
    for key in dict.fromkeys([*h1, *h0]):
        if key[1] in skip:
            continue
        a, b = h1.get(key), h0.get(key)
        if a is b or a is not None and b is not None and a.op == b.op == "obj" and a.args[0] is b.args[0]:
            n += 1
        elif a is None or b is None:
            if (key[0], key[1]) not in everything(ip, base, objs):
                ck.bad(rule, wh, f"attribute {key[1]} exists only with verbose {'on' if b is None else 'off'}", case)
        else:
            ck.same(rule, wh, a, b, facts=facts, case=f"{case}; {key[1]}", sizes=(0, 2))
    ck.ok(rule, wh, f"{n} attributes identical", case)
    return res


FLAGS = ("boundary", "fshape", "sparse", "points", "scale", "vectorize")
SKIP = {"get_pyvista_grid", "get_corners", "show", "plot", "plot_grid", "copy", "get_df", "get_domain", "get_centers", "get_time", "update_scalers", "set_scalers", "set_unit", "set_units", "allow_synonyms", "create_model", "create_model_example_7_1", "report", "solve", "run", "compile", "set_solution", "get_solutions"}


def methods(src, cls, eff):
    """public methods that may print under the flag, directly or through what they call"""
    out = []
    c = src.cls(cls)
    for k in src.mro(c):
        for name, f in k.methods.items():
            if name.startswith("_") or name in SKIP or name in [n for n, _ in out] or f.kind in ("static", "class"):
                continue
            if any(r.attr in ATTRS for h in eff.reach([f]) for r in eff.reads.get(h, ())):
                out.append((name, f))
    return out


def variants(f, given, dims, quick):
    """keyword arguments to call a method with: the defaults, and each two-valued option turned"""
    a = f.node.args
    names = [x.arg for x in a.args[1:]]
    dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    base = {}
    dirs = [None]
    for n in names:
        if n == "dir":
            dirs = list(dims or "x")
        elif n in given:
            base[n] = given[n]
        elif n not in dflt:
            return
    for d in dirs:
        b = dict(base, **({"dir": string(d)} if d else {}))
        yield "", b
        for n in names:
            v = dflt.get(n)
            if n in FLAGS and isinstance(v, ast.Constant) and isinstance(v.value, bool):
                yield f" {n}={not v.value}", dict(b, **{n: boolc(not v.value)})


_eff = {}


def effects(src):
    if src not in _eff:
        _eff[src] = Effects(src)
    return _eff[src]


def grid(ck, src, d, quick, case):
    g = Grid(src, d)
    ip = g.ip
    kw = dict(g.args)

    def build(st):
        return ip.call_method(g.obj, "__init__", [], dict(kw, verbose=ip.getattr(g.obj, "verbose", st)), st)
    twice(ck, where(src, RC, "__init__"), ip, g.st, [g.obj], build, [g.obj], [], case + "; __init__")
    c, f = cellvars(g)
    facts = f + [interior(g, c)]
    g.st.pc = tuple(facts)
    given = {"id": g.cid(c)}
    for name, fn in methods(src, RC, effects(src)):
        for word, a in variants(fn, given, d, quick):
            one = f"{case}; {name}{word}"
            attempt(ck, "printing changes nothing", where(src, RC, name), one, lambda one: twice(ck, where(src, RC, name), ip, g.st, [g.obj], lambda st: ip.call_method(g.obj, name, [], a, st), [g.obj], facts, one))


def model(ck, src, d, comp, case):
    m = Model(src, d, comp=comp)
    ip, g = m.ip, m.g
    objs = [m.obj, g.obj, m.fluid, m.sol]

    def build(st):
        return ip.call_method(m.obj, "__init__", [g.obj, m.fluid], dict(dt=sym("DT", "num"), pi=sym("PI", "num"), verbose=ip.getattr(m.obj, "verbose", st)), st)
    twice(ck, where(src, BO, "__init__"), ip, m.st, [m.obj], build, objs, [], case + "; __init__")
    c, f = cellvars(g)
    facts = f + [interior(g, c)]
    b, fb = cellvars(g, "b")
    m.st.pc = tuple(facts + fb + [bnot(interior(g, b))])
    facts = list(m.st.pc)
    wells = [("q", dict(q=mul(num(-1), sym("Q", "num")))), ("pwf", dict(pwf=sym("PWF", "num"))), ("both", dict(q=mul(num(-1), sym("Q", "num")), pwf=sym("PWF", "num")))]
    acts = []
    for w, kw in wells:
        acts.append(("set_well", w, dict(cell_id=g.cid(c), r=sym("RW", "num"), s=sym("SKIN", "num"), **kw)))
    if d:
        for k in ("pressure", "rate", "gradient"):
            acts.append(("set_boundary", k, dict(cell_b_id=g.cid(b), cond=string(k), v=sym("VB", "num"))))
            acts.append(("set_all_boundaries", k, dict(cond=string(k), v=sym("VB", "num"))))
    acts += [(n, "".join(w), a) for n, fn in methods(src, BO, effects(src)) if not n.startswith("set_") for w, a in variants(fn, {"id": g.cid(c), "cell_id": g.cid(c)}, d, True)]
    for name, word, kw in acts:
        one = f"{case}; {name} {word}"
        attempt(ck, "printing changes nothing", where(src, BO, name), one, lambda one: twice(ck, where(src, BO, name), ip, m.st, [m.obj, g.obj], lambda st: ip.call_method(m.obj, name, [], kw, st), objs, facts, one))


def assembled(ck, src, d, sparse, bounds, wells, how, case):
    k = Case(src, d, True, "arr", "arr", True, sparse, bounds=bounds, wells=wells, factors=True)
    m, ip = k.m, k.m.ip
    kw = dict(cell_id=k.g.cid(k.c)) if how == "get_cell_eq" else {}
    st = m.st.copy()
    if how == "get_cell_eq":
        st.pc = (*st.pc, *k.facts, *k.cfacts)
    twice(ck, where(src, FDM, how), ip, st, [m.obj], lambda s: ip.call_method(m.sol, how, [], kw, s), [m.obj, k.g.obj, m.fluid, m.sol], k.facts + (k.cfacts if how == "get_cell_eq" else []), case)


def step(ck, src, d, sparse, comp, kinds, case):
    for conv in (True, False):
        k = Bounded(src, d, kinds, sparse=sparse, comp=comp, converges=conv)
        ip, m, wh = k.ip, k.m, where(src, FDM, "solve")
        objs = [m.obj, m.g.obj, m.fluid, m.sol]
        for o in ((sparse, "cgs", True, False), (sparse, None, False, True)):
            for kw in (dict(check_MB=TRUE), dict(check_MB=FALSE, update=FALSE)):
                one = f"{case}; {'any exit code' if not conv else 'converging'}; {o} {kw}"
                twice(ck, wh, ip, k.st, [m.obj], lambda s: k.run("solve", st=s, **args(o, **kw)), objs, k.facts, one)
                if not conv:
                    continue
                # printing the arrays of a step
                rule = "printing arrays changes nothing"
                res = []
                own = {}
                for form, names in (("get_matrices_symb", ("A", "d")), ("get_matrices_vect", ("A_", "d_"))):
                    own[FDM, form] = kept(k, names)
                con, had = m.ip.contracts, {x: m.ip.contracts[x] for x in own}
                con.update(own)
                for p in (TRUE, FALSE):
                    s = k.st.copy()
                    k.run("solve", st=s, **args(o, print_arrays=p, **kw))
                    res.append((bor(*[e.guard for e in m.raises]), {n: k.get(n, s) for n in (*HIST, "tstep", "nsteps")}, everything(ip, s, [m.obj, m.g.obj, m.fluid])))
                con.update(had)
                ck.same("printing refuses nothing", wh, res[0][0], res[1][0], facts=k.facts, case=one)
                for n in res[0][1]:
                    ck.same(rule, wh, res[0][1][n], res[1][1][n], facts=k.facts, case=f"{one}; {n}", sizes=(0, 2))
                for key, v in res[0][2].items():
                    if res[1][2].get(key) is not v:
                        ck.same(rule, wh, v, res[1][2][key], facts=k.facts, case=f"{one}; {key[1]}", sizes=(0, 2))


def kept(k, names):
    """assembly hands out the arrays the solution keeps"""
    def f(ip, selfv, a, st):
        r = k.system(ip, st)
        for n, v in zip(names, r.args):
            ip.setattr(selfv, n, v, st)
        return r
    return f


def restored(ck, src, d, sparse, comp, kinds, case):
    rule, wh = "verbose is put back", where(src, FDM, "run")
    for conv in (True, False):
        for kw in ({}, dict(print_arrays=TRUE), dict(check_MB=FALSE, vectorize=FALSE)):
            k = Bounded(src, d, kinds, sparse=sparse, comp=comp, converges=conv)
            put_back(ck, rule, wh, k.ip, k.m, k.st, k.facts, kw, f"{case}; {'any exit code' if not conv else 'converging'} {', '.join(kw)}")


def put_back(ck, rule, wh, ip, m, base, facts, kw, case, failing=True):
    con, key = m.ip.contracts, (FDM, "solve")
    had = con.get(key)
    fails = sym("a step fails", "bool")

    def solve(ip_, selfv, a, st):
        s2 = st.copy()
        s2.pc = (*st.pc, fails)
        ip.raise_(s2, "StepError", "", None)
        st.pc = (*st.pc, bnot(fails))
        return NONE
    for v in (sym("Verbose", "bool"), TRUE, FALSE):
        for inject in (True, False) if failing else (False,):
            if inject:
                con[key] = solve
            st = base.copy()
            ip.setattr(m.obj, "verbose", v, st)
            n0 = len(ip.raises)
            one = f"{case}; verbose={show(v)}{' failing step' if inject else ''}"
            try:
                ip.call_method(m.sol, "run", [], dict(nsteps=sym("Steps", "int", 1), **kw), st)
                ck.same(rule, wh, ip.freeze(ip.getattr(m.obj, "verbose", st), st), v, facts=facts, case=one)
            except Diverge:
                ck.undecided(rule, wh, "no normal end", one)
            for e in ip.raises[n0:]:
                if e.state is not None:
                    ck.same(rule, wh, ip.freeze(ip.getattr(m.obj, "verbose", e.state), e.state), v, facts=facts + [e.guard], case=f"{one}; ends with {e.value.args[0] if e.value.op == 'exc' else 'an error'}")
            del ip.raises[n0:]
            if had is None:
                con.pop(key, None)
            else:
                con[key] = had
    ck.note(ip)


def exact(ck, src, d, case):
    from .rules_exact import Exact
    rule, wh = "verbose is put back", where(src, "D1P1", "run")
    k = Exact(src, d, True, "arr", "arr")
    put_back(ck, rule, wh, k.ip, _With(k.m, k.sol), k.st, [], {}, case, False)
    twice(ck, wh, k.ip, k.st, [k.m.obj], lambda s: k.ip.call_method(k.sol, "run", [], dict(nsteps=sym("Steps", "int", 1)), s), [k.m.obj, k.g.obj, k.m.fluid, k.sol], [], f"{case}; run")


class _With:
    def __init__(self, m, sol):
        self.obj, self.sol, self.ip = m.obj, sol, m.ip


# --------------------------------------------------------------------- information flow
class Flow:
    """levels of names inside one function: True = depends on whether printing is on"""

    def carries(self, attr):
        return flagname(attr)

    def named(self, param):
        return flagname(param)

    def start(self, body):
        return {n for n in body.names if flagname(n)}

    def source(self, body, call):
        return False

    def sink(self, body, node, why, attr=None):
        self.found[body.f, node.lineno, why] = attr

    def lowered(self, body, node, attr, value):
        pass

    def __init__(self, eff, src):
        self.eff, self.src = eff, src
        self.params = {}      # function -> parameters that carry the flag
        self.returns = set()  # functions whose answer depends on the flag
        self.found = {}
        self.changed = True
        self.stats = [0, 0]
        while self.changed:
            self.changed = False
            self.found = {}
            self.stats = [0, 0]
            for f in eff.funcs:
                Body(self, f).go()

    def mark(self, f, name):
        if name not in self.params.setdefault(f, set()):
            self.params[f].add(name)
            self.changed = True

    def ret(self, f):
        if f not in self.returns:
            self.returns.add(f)
            self.changed = True


SINKS = {"print", "warn", "info", "debug", "warning", "write", "flush", "log", "pprint"}


def base(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def flagname(n):
    return "verbose" in n


class Body:
    def __init__(self, fl, f):
        self.fl, self.f = fl, f
        self.env = fl.eff._env(f)
        self.names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]

    def go(self):
        hi = self.fl.start(self) | self.fl.params.get(self.f, set())
        self.block(self.f.node.body, hi, False)

    def level(self, e, hi):
        """does the value depend on the flag?"""
        if e is None or isinstance(e, ast.Constant):
            return False
        if isinstance(e, ast.Name):
            return e.id in hi
        if isinstance(e, ast.Attribute):
            return self.fl.carries(e.attr) and isinstance(e.ctx, ast.Load) and not self.method(e) or self.level(e.value, hi)
        if isinstance(e, ast.Call):
            return self.call(e, hi, False)
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return False
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set(hi)
            for g in e.generators:
                if self.level(g.iter, inner):
                    inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            parts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            return any(self.level(x, inner) for x in parts + [g.iter for g in e.generators] + [i for g in e.generators for i in g.ifs])
        return any([self.level(c, hi) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.slice if hasattr(ast, "slice") else ast.expr, ast.keyword, ast.FormattedValue))])

    def method(self, e):
        o = self.fl.eff.owner(e.value, self.f, self.env)
        return bool(o) and any(self.src_method(c, e.attr) for c in o)

    def src_method(self, c, n):
        return self.fl.src.find_method(c, mangle(n, self.f.cls.name if self.f.cls else None))

    def call(self, n, hi, quiet):
        fl = self.fl
        fn = n.func
        name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        tg = fl.eff.targets(n, self.f, self.env)
        lv = [self.level(a.value if isinstance(a, ast.Starred) else a, hi) for a in n.args]
        kv = {k.arg: self.level(k.value, hi) for k in n.keywords}
        if name in SINKS:
            return False
        if fl.source(self, n):
            return True
        if name == "tqdm":
            return bool(lv and lv[0])
        for g in tg:
            a = g.node.args
            ps = [x.arg for x in a.posonlyargs + a.args]
            if g.cls is not None and g.kind not in ("static",) and ps:
                ps = ps[1:]
            for i, x in enumerate(lv):
                if x and i < len(ps) and not self.fl.named(ps[i]):
                    fl.mark(g, ps[i])
            for k, x in kv.items():
                if x and k and not self.fl.named(k):
                    fl.mark(g, k)
        if tg:
            return any(g in fl.returns for g in tg) and not all(g.name == "__init__" for g in tg)
        if isinstance(fn, ast.Name) and fn.id in ("setattr",) and len(n.args) == 3 and (lv[2] or lv[1]):
            s = n.args[1]
            if not (isinstance(s, ast.Constant) and isinstance(s.value, str) and self.fl.carries(s.value)):
                self.bad(n, "sets an attribute to a value that depends on the flag")
        return any(lv) or any(kv.values()) or isinstance(fn, ast.Attribute) and self.level(fn.value, hi)

    def bad(self, node, why, attr=None):
        self.fl.sink(self, node, why, attr)

    def store(self, t, h, hi, node):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, h, hi, node)
        elif isinstance(t, ast.Starred):
            self.store(t.value, h, hi, node)
        elif isinstance(t, ast.Name):
            (hi.add if h else hi.discard)(t.id)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            if isinstance(t, ast.Subscript):
                h = h or self.level(t.slice, hi)
            if not h:
                q = self.fl.eff.place(t, self.f, self.env)
                if q is not None:
                    self.fl.lowered(self, node, q[1], getattr(node, "value", None))
                return
            p = self.fl.eff.place(t, self.f, self.env)
            if p is not None:
                if not self.fl.carries(p[1]):
                    self.bad(node, f"{p[1]} is set to a value, or at a place, that depends on the flag", p[1])
            else:
                b = t
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name):
                    hi.add(b.id)

    def effects(self, e, hi):
        """an expression evaluated only when the flag says so"""
        for n in ast.walk(e):
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS and not self.fl.eff.targets(n, self.f, self.env):
                p = self.fl.eff.place(fn.value, self.f, self.env)
                if p is not None and not self.fl.carries(p[1]):
                    self.bad(n, f"{p[1]} is changed in place only under the flag", p[1])
                elif p is None and base(fn.value):
                    hi.add(base(fn.value))
            elif isinstance(fn, ast.Name) and fn.id == "setattr" or isinstance(fn, ast.Attribute) and fn.attr == "seed":
                self.bad(n, "state is changed only under the flag")
            elif isinstance(fn, ast.Name) and fn.id in ("next",) and n.args and isinstance(n.args[0], ast.Name):
                hi.add(n.args[0].id)

    def block(self, body, hi, h):
        """runs the statements; returns (falls through, continues under the flag's control)"""
        for s in body:
            self.fl.stats[0] += 1
            h = self.stmt(s, hi, h) or h
        return h

    def leaves(self, body):
        return any(isinstance(x, (ast.Return, ast.Raise, ast.Continue, ast.Break)) for s in body for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)))

    def stmt(self, s, hi, h):
        """whether what follows runs only under the flag's control"""
        if h:
            self.fl.stats[1] += 1
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.effects(e, hi)
        if isinstance(s, ast.Assign):
            l = self.level(s.value, hi) or h
            for t in s.targets:
                self.store(t, l, hi, s)
        elif isinstance(s, ast.AugAssign):
            l = self.level(s.value, hi) or self.level(s.target, hi) or h
            self.store(s.target, l, hi, s)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.store(s.target, self.level(s.value, hi) or h, hi, s)
        elif isinstance(s, ast.Expr):
            self.level(s.value, hi)
            if isinstance(s.value, ast.Call):
                self.grow(s.value, hi)
        elif isinstance(s, ast.Return):
            l = self.level(s.value, hi)
            empty = s.value is None or isinstance(s.value, ast.Constant) and s.value.value is None
            if l or h and not (empty and self.nothing()):
                self.fl.ret(self.f)
        elif isinstance(s, ast.Raise):
            if h:
                self.bad(s, "raises only under the flag")
        elif isinstance(s, ast.Assert):
            if h or self.level(s.test, hi):
                self.bad(s, "asserts only under the flag")
        elif isinstance(s, (ast.Break, ast.Continue)):
            if h and isinstance(s, ast.Break):
                self.bad(s, "leaves a loop only under the flag")
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.store(t, h, hi, s)
        elif isinstance(s, ast.If):
            l = self.level(s.test, hi)
            for x in ast.walk(s.test):
                if isinstance(x, ast.NamedExpr):
                    self.store(x.target, self.level(x.value, hi) or h, hi, s)
            a, b = set(hi), set(hi)
            ha = self.block(s.body, a, h or l)
            hb = self.block(s.orelse, b, h or l)
            hi.clear()
            hi |= a | b
            if l and not h:
                return self.leaves(s.body) or self.leaves(s.orelse)
            return h or (ha or hb) and not l
        elif isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            for _ in range(2):
                l = self.level(s.iter if not isinstance(s, ast.While) else s.test, hi)
                if not isinstance(s, ast.While):
                    self.store(s.target, l or h, hi, s)
                a = set(hi)
                self.block(s.body, a, h or l)
                hi |= a
            self.block(s.orelse, hi, h or l)
        elif isinstance(s, ast.Try):
            for b in (s.body, *[x.body for x in s.handlers], s.orelse, s.finalbody):
                a = set(hi)
                r = self.block(b, a, h)
                if b is s.body and r:
                    h = r
                hi |= a
            return h
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                l = self.level(i.context_expr, hi)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, l or h, hi, s)
            return self.block(s.body, hi, h)
        elif isinstance(s, ast.FunctionDef):
            self.block(s.body, set(hi), h)
        return h

    def grow(self, n, hi):
        """container.append(value that depends on the flag)"""
        fn = n.func
        if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS and not self.fl.eff.targets(n, self.f, self.env):
            if any(self.level(a, hi) for a in [*n.args, *[k.value for k in n.keywords]]):
                p = self.fl.eff.place(fn.value, self.f, self.env)
                if p is not None and not self.fl.carries(p[1]):
                    self.bad(n, f"{p[1]} receives a value that depends on the flag", p[1])
                elif base(fn.value):
                    hi.add(base(fn.value))

    def nothing(self):
        """the function never answers anything"""
        return not any(isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None) for x in ast.walk(self.f.node))


def flow(ck, src):
    rule = "no value depends on the verbose flag"
    eff = effects(src)
    fl = Flow(eff, src)
    reads = {}
    for f in eff.funcs:
        for r in eff.reads.get(f, ()):
            reads.setdefault(r.attr, []).append(r)
    flagged = set()
    for (f, line, why), attr in fl.found.items():
        wh = f"{f.mod.name}:{f.qual}"
        if attr is not None and not any(r.node.lineno != line or r.func is not f for r in reads.get(attr, ())):
            continue
        flagged.add(f)
        ck.bad(rule, wh, f"line {line}: {why}", "information flow")
    for f in fl.returns:
        wh = f"{f.mod.name}:{f.qual}"
        if not f.name.startswith("_") and not flagname(f.name):
            ck.bad(rule, wh, "what a public function answers depends on the flag", "information flow")
            flagged.add(f)
    n = 0
    for f in eff.funcs:
        if f not in flagged and any(flagname(r.attr) for r in eff.reads.get(f, ())):
            ck.ok(rule, f"{f.mod.name}:{f.qual}", "nothing flows from the flag to a result", "information flow")
            n += 1
    ck.ok(rule, "package", f"{len(eff.funcs)} functions, {fl.stats[0]} statements, {fl.stats[1]} of them under the flag's control, {n} functions read the flag", "information flow")
    suspended(ck, eff)


# --------------------------------------------------------------------- suspension and restoring
def flagwrite(s):
    ts = s.targets if isinstance(s, ast.Assign) else []
    return any(isinstance(t, ast.Attribute) and t.attr in ATTRS for t in ts)


def harmless(s):
    """cannot fail"""
    if isinstance(s, ast.Assign):
        return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Tuple, ast.Load, ast.Store, ast.UnaryOp, ast.Not)) for x in ast.walk(s) if x is not s)
    if isinstance(s, ast.If):
        return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.UnaryOp, ast.Not)) for x in ast.walk(s.test)) and all(harmless(x) for x in s.body + s.orelse)
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "print":
        return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.Load, ast.JoinedStr, ast.FormattedValue, ast.Call)) for x in ast.walk(s.value)) and sum(isinstance(x, ast.Call) for x in ast.walk(s.value)) == 1
    return isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def suspended(ck, eff):
    """after a function has switched the flag, nothing that can fail stands outside a try whose finally switches it back"""
    rule = "verbose is put back"
    for f in eff.funcs:
        if f.name == "__init__" or not any(flagwrite(s) for s in ast.walk(f.node)):
            continue
        finals = [t for t in ast.walk(f.node) if isinstance(t, ast.Try) and any(flagwrite(x) for b in t.finalbody for x in ast.walk(b))]
        wh = f"{f.mod.name}:{f.qual}"
        firsts = [s for s in ast.walk(f.node) if flagwrite(s) and not any(s is x for t in finals for b in t.finalbody for x in ast.walk(b))]
        if not firsts or not any(flagwrite(s) for s in ast.walk(f.node) if s not in firsts) and len(firsts) < 2:
            continue
        first = min(firsts, key=lambda s: s.lineno)
        last = max((s for s in ast.walk(f.node) if flagwrite(s)), key=lambda s: s.lineno)
        bad = []

        def walk(body, after):
            for s in body:
                if after and s is not last and s not in finals and s.lineno <= last.lineno and not harmless(s):
                    if isinstance(s, (ast.If, ast.With)) and any(last is x for x in ast.walk(s)):
                        walk(s.body, True)
                        walk(getattr(s, "orelse", []), True)
                    elif isinstance(s, ast.Try) and any(t is x for t in finals for x in ast.walk(s)):
                        walk(s.body, True)
                    else:
                        bad.append(s)
                elif not after and any(first is x for x in ast.walk(s)):
                    if s is not first and isinstance(s, ast.Try) and s in finals:
                        after = True
                        continue
                    for b in ("body", "orelse", "finalbody"):
                        walk(getattr(s, b, []) or [], False) if s is not first else None
                    after = True
            return after
        walk(f.node.body, False)
        for s in bad[:3]:
            ck.bad(rule, wh, f"line {s.lineno} can fail while the flag is suspended, outside the try whose finally puts it back", "exception edges")
        if not bad:
            ck.ok(rule, wh, f"flag switched at line {first.lineno}, {len(finals)} finally clauses put it back", "exception edges")
