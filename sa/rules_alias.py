"""C17: who shares mutable state with whom."""
import ast
from .terms import *
from .gridctx import *
from .modelctx import Model
from .check import where
from .interp import Diverge
from .rules_grid import RC, cellvars, interior
from .rules_step import attempt, HIST
from .rules_memo import memo_decorators, memoised
from .rules_verbose import effects
from .scan import MUTATORS, loc
from .src import mangle
from . import models as M

PARALLEL = ("C17",)
BO, FDM = "BlackOil", "FDM"
VIEWS = {"reshape", "ravel", "squeeze", "transpose", "view", "swapaxes", "diagonal"}
NPVIEWS = {"asarray", "asanyarray", "ravel", "reshape", "squeeze", "transpose", "atleast_1d", "atleast_2d", "atleast_3d", "broadcast_to", "expand_dims", "swapaxes", "moveaxis", "flip", "flipud", "fliplr", "diagonal"}
ELEMENT = {"get", "setdefault", "pop"}
INPLACE = {"fill", "sort", "partition", "resize", "itemset", "put", "setfield", "setflags", "setdiag", "eliminate_zeros", "sum_duplicates"}
NPINPLACE = {"fill_diagonal", "put", "copyto", "place", "putmask", "shuffle"}
COMPONENTS = {"grid", "fluid", "model", "solution", "well", "self", "cls", "scaler", "compiler", "executor", "pbar"}


# arrays given to these to be changed
OUT = {("set_cell_value", "array"), ("get_cells_G_diag_2", "diag_1"), ("get_cells_G_diag_3", "diag_2")}


class Regions:
    """what an expression may share storage with: ("param", f, p), ("default", f, p), ("attr", a), ("memo", f), ("global", n)"""

    def __init__(self, src, eff):
        self.src, self.eff = src, eff
        names = memo_decorators(src)
        self.memo = {f for f in eff.funcs if memoised(src, f, names)}
        self.returns, self.mutates = {}, {}
        self.stored = {}       # attribute -> {(owner class name, regions, function, line)}
        self.writes = {}       # (function, line) -> regions written in place
        # attributes that hold dictionaries: their values are part of them
        self.dicts = {t.attr for f in eff.funcs for n in ast.walk(f.node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and (isinstance(n.value, (ast.Dict, ast.DictComp)) or isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id in ("dict", "defaultdict", "OrderedDict"))
                      for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Attribute)}
        for _ in range(8):
            before = (sum(len(x) for r in self.returns.values() for x in r), sum(map(len, self.mutates.values())), sum(len(r) for s in self.stored.values() for r in s.values()))
            for f in eff.funcs:
                Fun(self, f).go()
            if before == (sum(len(x) for r in self.returns.values() for x in r), sum(map(len, self.mutates.values())), sum(len(r) for s in self.stored.values() for r in s.values())):
                break

    def closure(self, regs):
        """with what the attributes themselves may share storage"""
        out, todo = {}, [(r, ()) for r in regs]
        while todo:
            r, via = todo.pop()
            if r in out:
                continue
            out[r] = via
            if r[0] == "attr":
                for at, s in self.stored.get(r[1:], {}).items():
                    for q in s:
                        todo.append((q, via + (at,)))
        return out


class Fun:
    def __init__(self, R, f):
        self.R, self.f = R, f
        self.alias = R.eff._env(f)
        a = f.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        pos = a.posonlyargs + a.args
        dflt = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        self.env = {}
        for p in self.params:
            if p in COMPONENTS:
                continue
            self.env[p] = {("param", f, p)}
            if isinstance(dflt.get(p), (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.Call)):
                self.env[p].add(("default", f, p))
        self.local = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))} | set(self.params)
        self.glob = {g for n in ast.walk(f.node) if isinstance(n, ast.Global) for g in n.names}

    def go(self):
        self.block(self.f.node.body)

    def block(self, body):
        for s in body:
            self.stmt(s)

    # ------------------------------------------------------------ expressions
    def attr(self, e):
        """node of an attribute"""
        o = self.R.eff.owner(e.value, self.f, self.alias)
        nm = mangle(e.attr, self.f.cls.name if self.f.cls else None)
        top = sorted({self.root(c) for c in o}) if o else None
        return ("attr", "|".join(top) if top else "?", nm)

    def root(self, c):
        for k in reversed(self.R.src.mro(c)):
            if k.name in ("Grid", "Fluid", "Model", "Solution", "Scaler", "Well", "Compiler", "Backend"):
                return k.name
        return c.name

    def module_name(self, e):
        return isinstance(e, ast.Name) and e.id not in self.local and self.R.eff._module(e.id, self.f)

    def global_obj(self, e):
        """a module-level mutable object"""
        if not isinstance(e, (ast.Name, ast.Attribute)):
            return None
        parts = ast.unparse(e).split(".")
        if parts[0] in self.local and parts[0] not in self.glob:
            return None
        if len(parts) == 1 and parts[0] in self.f.mod.assigns:
            v = self.f.mod.assigns[parts[0]]
            return ("global", self.f.mod.name + "." + parts[0]) if isinstance(v, (ast.Dict, ast.List, ast.Set, ast.Call, ast.ListComp, ast.DictComp)) else None
        r = self.R.src.resolve(self.f.mod.name, parts[0])
        for p in parts[1:]:
            if r is None or r[0] != "pkg":
                return None
            r = self.R.src.resolve(r[1], p)
        return ("global", ".".join(parts)) if r is not None and r[0] in ("const", "assign", "var", "value") else None

    def regs(self, e):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare, ast.BinOp, ast.UnaryOp, ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.List, ast.Dict, ast.Set)):
            return set()
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return set(self.env[e.id])
            g = self.global_obj(e)
            return {g} if g else set()
        if isinstance(e, ast.Attribute):
            if e.attr in ("T", "flat", "real"):
                return self.regs(e.value)
            if e.attr in ("shape", "size", "ndim", "dtype", "name"):
                return set()
            g = self.global_obj(e)
            if g:
                return {g}
            if self.module_name(e.value):
                return set()
            o = self.R.eff.owner(e.value, self.f, self.alias)
            if o and any(self.R.src.find_method(c, mangle(e.attr, self.f.cls.name if self.f.cls else None)) for c in o):
                return set()
            return {self.attr(e)}
        if isinstance(e, ast.Subscript):
            b = self.regs(e.value)
            if b and (self.viewing(e.slice) or isinstance(e.value, ast.Attribute) and e.value.attr in self.R.dicts):
                return b
            return {r for r in b if r[0] in ("global",)}
        if isinstance(e, ast.IfExp):
            return self.regs(e.body) | self.regs(e.orelse)
        if isinstance(e, ast.BoolOp):
            return set().union(*[self.regs(v) for v in e.values])
        if isinstance(e, (ast.Starred, ast.NamedExpr, ast.Await)):
            return self.regs(e.value)
        if isinstance(e, ast.Tuple):
            return set().union(*[self.regs(v) for v in e.elts], set())
        if isinstance(e, ast.Call):
            return self.call(e)
        return set()

    def viewing(self, i):
        """numpy basic indexing by slices: a view"""
        parts = i.elts if isinstance(i, ast.Tuple) else [i]
        ok = lambda x: isinstance(x, (ast.Slice,)) or isinstance(x, ast.Constant) and (x.value is None or x.value is Ellipsis or isinstance(x.value, int) and not isinstance(x.value, bool)) or isinstance(x, ast.UnaryOp) and isinstance(x.operand, ast.Constant) or isinstance(x, ast.Attribute) and x.attr == "newaxis"
        return all(ok(x) for x in parts)

    def bind(self, n, g):
        """(parameter, argument) pairs"""
        a = g.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if g.cls is not None and g.kind != "static" and ps:
            ps = ps[1:]
        out = [(p, x) for p, x in zip(ps, n.args) if not isinstance(x, ast.Starred)]
        return out + [(k.arg, k.value) for k in n.keywords if k.arg]

    def call(self, n):
        fn = n.func
        name = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
        tg = self.R.eff.targets(n, self.f, self.alias)
        if tg:
            out = set()
            for g in tg:
                if g.name == "__init__":
                    continue
                if g in self.R.memo:
                    out.add(("memo", g))
                    continue
                for p in self.R.returns.get(g, ()):
                    for r in p:
                        if r[0] in ("param", "default") and r[1] is g:
                            out |= set().union(*[self.regs(x) for q, x in self.bind(n, g) if q == r[2]], set())
                            if r[0] == "default" and not any(q == r[2] for q, _ in self.bind(n, g)):
                                out.add(r)
                        else:
                            out.add(r)
            return out
        if isinstance(fn, ast.Attribute):
            if self.module_name(fn.value) or isinstance(fn.value, ast.Attribute) and self.module_name(fn.value.value) and not self.global_obj(fn.value):
                if name in NPVIEWS and n.args:
                    return self.regs(n.args[0])
                if name == "array" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in n.keywords) and n.args:
                    return self.regs(n.args[0])
                return set()
            if name in VIEWS or name == "astype" and any(k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False for k in n.keywords):
                return self.regs(fn.value)
            if name in ELEMENT:
                whole = isinstance(fn.value, ast.Attribute) and fn.value.attr in self.R.dicts
                return {r for r in self.regs(fn.value) if r[0] == "global" or whole}
        return set()

    # ------------------------------------------------------------ statements
    def write(self, e, node, regs=None):
        """the storage of e is changed in place"""
        r = self.regs(e) if regs is None else regs
        if isinstance(e, ast.Subscript) and regs is None:
            b = e
            while isinstance(b, ast.Subscript):
                b = b.value
            r = r | self.regs(b)
        if not r:
            return
        self.R.writes.setdefault((self.f, node.lineno), set()).update(r)
        for x in r:
            if x[0] == "param" and x[1] is self.f:
                self.R.mutates.setdefault(self.f, set()).add(x[2])

    def store(self, t, value, node):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for x, v in zip(t.elts, value.elts):
                    self.store(x, v, node)
                return
            pos = self.positions(value, len(t.elts))
            for i, x in enumerate(t.elts):
                self.put(x, pos[i] if pos else self.regs(value), node)
            return
        self.put(t, self.regs(value), node)

    def positions(self, v, n):
        """regions of each part of a returned tuple"""
        if not isinstance(v, ast.Call):
            return None
        tg = self.R.eff.targets(v, self.f, self.alias)
        if len(tg) != 1 or tg[0] in self.R.memo or len(self.R.returns.get(tg[0], ())) != n:
            return None
        g, out = tg[0], []
        for p in self.R.returns[g]:
            s = set()
            for r in p:
                if r[0] == "param" and r[1] is g:
                    s |= set().union(*[self.regs(x) for q, x in self.bind(v, g) if q == r[2]], set())
                else:
                    s.add(r)
            out.append(s)
        return out

    def put(self, t, regs, node):
        if isinstance(t, ast.Starred):
            t = t.value
        if isinstance(t, ast.Name):
            self.env[t.id] = set(regs)
        elif isinstance(t, ast.Attribute):
            a = self.attr(t)
            self.R.stored.setdefault(a[1:], {}).setdefault((self.f, node.lineno), set()).update(r for r in regs if r != a)
        elif isinstance(t, ast.Subscript):
            self.write(t.value, node)
            # what is put into a container of an object is part of it
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Attribute) and not self.module_name(b.value):
                a = self.attr(b)
                self.R.stored.setdefault(a[1:], {}).setdefault((self.f, node.lineno), set()).update(r for r in regs if r != a and r[0] in ("memo", "global"))

    def stmt(self, s):
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.inside(n)
        if isinstance(s, ast.Assign):
            for t in s.targets:
                self.store(t, s.value, s)
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            self.store(s.target, s.value, s)
        elif isinstance(s, ast.AugAssign):
            t = s.target
            if isinstance(t, ast.Subscript):
                self.write(t.value, s)
            elif isinstance(t, ast.Name):
                if t.id in self.env and self.arraylike(t.id):
                    self.write(t, s)
            elif isinstance(t, ast.Attribute):
                r = {x for x in self.regs(t)}
                self.write(t, s, {x for q in r for x in self.R.closure([q]) if x[0] in ("memo", "global") or x[0] == "attr" and x != q})
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.write(t.value, s)
        elif isinstance(s, ast.Return):
            parts = s.value.elts if isinstance(s.value, ast.Tuple) else [s.value]
            old = self.R.returns.get(self.f)
            new = [self.regs(p) for p in parts]
            if old is None:
                self.R.returns[self.f] = new
            elif len(old) == len(new):
                for a, b in zip(old, new):
                    a |= b
            else:
                self.R.returns[self.f] = [set().union(*old, *new)]
        elif isinstance(s, (ast.If, ast.While)):
            e0 = {k: set(v) for k, v in self.env.items()}
            self.block(s.body)
            e1, self.env = self.env, e0
            self.block(s.orelse)
            self.join(e1)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            for _ in range(2):
                e0 = {k: set(v) for k, v in self.env.items()}
                self.put(s.target, set(), s) if isinstance(s.target, ast.Name) else [self.put(x, set(), s) for x in getattr(s.target, "elts", []) if isinstance(x, ast.Name)]
                self.block(s.body)
                self.join(e0)
            self.block(s.orelse)
        elif isinstance(s, ast.Try):
            self.block(s.body)
            for h in s.handlers:
                self.block(h.body)
            self.block(s.orelse)
            self.block(s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            self.block(s.body)
        elif isinstance(s, ast.FunctionDef):
            self.block(s.body)

    def join(self, other):
        for k, v in other.items():
            self.env[k] = self.env.get(k, set()) | v

    def arraylike(self, name):
        """the function treats the name as a container"""
        for n in ast.walk(self.f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == name and n.attr in ("shape", "size", "flatten", "reshape", "sum", "max", "min", "ndim", "append", "items", "keys"):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "len" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == name:
                return True
        return any(r[0] in ("memo",) for r in self.env.get(name, ()))

    def inside(self, e):
        """in-place changes made by calls in an expression"""
        for n in ast.walk(e):
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            tg = self.R.eff.targets(n, self.f, self.alias)
            for g in tg:
                ms = self.R.mutates.get(g, ())
                for p, x in self.bind(n, g):
                    if p in ms:
                        r = self.regs(x)
                        if r:
                            self.R.writes.setdefault((self.f, n.lineno), set()).update(r)
                            for q in r:
                                if q[0] == "param" and q[1] is self.f:
                                    self.R.mutates.setdefault(self.f, set()).add(q[2])
            if isinstance(fn, ast.Attribute) and not tg:
                if fn.attr in MUTATORS or fn.attr in INPLACE:
                    if not self.module_name(fn.value):
                        self.write(fn.value, n)
                if fn.attr in NPINPLACE and n.args and self.module_name(fn.value):
                    self.write(n.args[0], n)
            for k in n.keywords:
                if k.arg == "out":
                    self.write(k.value, n)


def spelled(r):
    k = r[0]
    if k == "memo":
        return f"the remembered result of {r[1].qual}"
    if k == "global":
        return f"the module-level object {r[1]}"
    if k == "attr":
        return f"{r[1]}.{r[2]}"
    if k == "param":
        return f"argument {r[2]} of {r[1].qual}"
    return f"default value of {r[2]} of {r[1].qual}"


def sharing(ck, src):
    eff = effects(src)
    R = Regions(src, eff)
    n = 0
    given = {r[1:]: g for g in R.memo for p in R.returns.get(g, ()) for r in p if r[0] == "attr"}
    for (f, line), regs in R.writes.items():
        wh = f"{f.mod.name}:{f.qual}"
        own = Fun(R, f).root(f.cls) if f.cls is not None else None
        clean = True
        for r, via in R.closure(regs).items():
            n += 1
            how = (" through " + " <- ".join(f"{g.qual}:{l}" for g, l in via)) if via else ""
            if r[0] == "memo":
                ck.bad("remembered results are never changed in place", wh, f"line {line} changes {spelled(r)} in place{how}", "storage")
            elif r[0] == "global":
                ck.bad("no module-level object is changed", wh, f"line {line} changes {spelled(r)} in place{how}", "storage")
            elif r[0] == "default":
                ck.bad("no mutable default is changed", wh, f"line {line} changes the {spelled(r)} in place{how}", "storage")
            elif r[0] == "attr" and r[1:] in given and f not in R.memo and not via:
                ck.bad("remembered results are never changed in place", wh, f"line {line} changes {spelled(r)} in place, which {given[r[1:]].qual} remembers", "storage")
            elif r[0] == "param" and (r[1].name, r[2]) in OUT:
                continue
            elif r[0] == "param" and not (r[1].name.startswith("_") and r[1].name != "__init__") and (r[1] is f or via):
                ck.bad("objects passed in are not modified", wh, f"line {line} changes {spelled(r)} in place{how}", "storage")
            elif r[0] == "attr" and r[1] in ("Grid", "Fluid", "Well") and own not in (None, r[1]) :
                ck.bad("objects passed in are not modified", wh, f"line {line} changes {spelled(r)} in place{how}", "storage")
            else:
                continue
            clean = False
        if clean:
            ck.ok("storage changed in place is the object's own", f"{wh}:{line}", ", ".join(sorted(spelled(r) for r in regs))[:150], "storage")
    # arrays kept that are views of arrays another object changes in place
    changed = {}
    for (f, line), regs in R.writes.items():
        for r in regs:
            if r[0] == "attr":
                changed.setdefault(r[1:], []).append((f, line))
    kept = 0
    for a, at in R.stored.items():
        for (f, line), regs in at.items():
            for r, via in R.closure(regs).items():
                if r[0] != "attr" or r[1:] == a or r[1] == a[0] or r[1] == "?" or a[0] == "?":
                    continue
                kept += 1
                w = changed.get(r[1:])
                if w:
                    ck.bad("kept arrays are not views of what another object changes", f"{f.mod.name}:{f.qual}", f"line {line}: {a[0]}.{a[1]} shares storage with {spelled(r)}, which {w[0][0].qual}:{w[0][1]} changes in place", "storage")
                else:
                    ck.ok("kept arrays are not views of what another object changes", f"{f.mod.name}:{f.qual}:{line}", f"{a[0]}.{a[1]} shares storage with {spelled(r)}, which nothing changes in place", "storage")
            for r in regs:
                if r[0] == "default":
                    ck.bad("no mutable default is kept", f"{f.mod.name}:{f.qual}", f"line {line}: {a[0]}.{a[1]} keeps the {spelled(r)}", "storage")
    ck.ok("storage changed in place is the object's own", "package", f"{len(eff.funcs)} functions, {len(R.writes)} in-place changes, {n} places they may reach, {sum(map(len, R.stored.values()))} attribute stores, {len(R.memo)} memoised functions", "storage")
    return R


# --------------------------------------------------------------------- values
# what the grid's queries leave behind of the last answer (every reader asks
# again before using it: C16 and C22 decide that)
LAST = {"RegularCartesian": ("shape",)}


def everything(ip, st, objs, skip=()):
    out = {}
    for o in objs:
        last = LAST.get(o.args[0], ())
        for key in list(st.heap):
            if key[0] == "a" and key[1] is o and isinstance(key[2], str) and key[2] not in ("solution", "solutions", "compiler", "compilers", "model", "grid", "fluid", "ctime", "run_ctime", "solve", "run", "verbose") + tuple(skip) and key[2] not in last:
                out[o, key[2]] = ip.freeze(ip.getattr(o, key[2], st), st)
    return out


def unchanged(ck, rule, wh, ip, a, b, facts, case):
    """nothing of a differs in b"""
    n = 0
    for key, v in a.items():
        w = b.get(key)
        if w is v or w is not None and v.op == w.op == "obj":
            n += 1
        elif w is None:
            ck.bad(rule, wh, f"{key[1]} is gone", case)
        else:
            ck.same(rule, wh, w, v, facts=facts, case=f"{case}; {key[1]}", sizes=(0, 2))
    ck.ok(rule, wh, f"{n} attributes identical", case)


def attempted(ip, f):
    n = len(ip.raises)
    try:
        f()
        return True
    except Diverge:
        return False
    finally:
        del ip.raises[n:]


def c17(ck):
    src = ck.src
    quick = ck.tier == "quick"
    if ck.part():
        sharing(ck, src)
    for d in ("", "x", "y", "xy", "xyz") if quick else ALLDIMS:
        for comp in (True, False):
            if quick and comp and len(d) > 1:
                continue
            for sparse in (True, False):
                if ck.part():
                    attempt(ck, "models on one grid are independent", where(src, BO, "__init__"), f"dims={d or 'none'} compressible={comp} sparse={sparse}; two models", lambda case: models(ck, src, d, comp, sparse, case))
                if d and ck.part():
                    attempt(ck, "solutions of one model are independent", where(src, FDM, "solve"), f"dims={d} compressible={comp} sparse={sparse}; two solutions", lambda case: solutions(ck, src, d, comp, sparse, case))
    for d in ALLDIMS:
        if ck.part():
            attempt(ck, "arguments stay the caller's", where(src, RC, "__init__"), f"dims={d or 'none'}; arguments", lambda case: arguments(ck, src, d, case))


def models(ck, src, d, comp, sparse, case):
    """two models on one grid and fluid: whatever is done with one leaves the other, the grid and the fluid alone"""
    from .rules_eqs import Summaries
    m = Model(src, d, comp=comp, compiled=False)
    ip, g, st = m.ip, m.g, m.st
    ip.memo = {}
    new = lambda s, n: ip.instantiate(src.cls(BO), [g.obj, m.fluid], dict(dt=sym("DT" + n, "num"), pi=sym("PI" + n, "num")), s)
    a, b = new(st, "1"), new(st, "2")
    for o in (a, b):
        ip.call_method(o, "compile", [string("numerical"), string("FDM")], {"sparse": boolc(sparse)}, st)
    sa, sb = [ip.getattr(o, "solution", st) for o in (a, b)]
    c, f = cellvars(g)
    e, fe = cellvars(g, "b")
    facts = f + [interior(g, c)] + (fe + [bnot(interior(g, e))] if d else [])
    st.pc = tuple(facts)
    num_ = lambda n: sym(n, "num")
    acts = [("set_well", dict(cell_id=g.cid(c), q=mul(num(-1), num_("Q")), pwf=num_("PWF"), r=num_("RW"), s=num_("SKIN")), a),
            ("set_well", dict(cell_id=g.cid(c), pwf=num_("PWF"), r=num_("RW")), a)]
    if d:
        for k in ("pressure", "rate", "gradient"):
            acts.append(("set_boundary", dict(cell_b_id=g.cid(e), cond=string(k), v=num_("VB")), a))
        acts.append(("set_all_boundaries", dict(cond=string("pressure"), v=num_("VB")), a))
    acts.append(("compile", dict(stype=string("numerical"), method=string("FDM"), sparse=boolc(not sparse)), a))
    others = [b, sb, g.obj, m.fluid]
    # what the model configured computes on demand is computed beforehand
    for who, name in ((a, "get_cells_trans"), (b, "get_cells_trans")):
        attempted(ip, lambda: ip.call_method(who, name, [], {}, st))
    before = everything(ip, st, others, ("cells_terms",))
    rule = "models on one grid are independent"
    for name, kw, o in acts:
        s = st.copy()
        attempted(ip, lambda: ip.call_method(o, name, [], kw, s))
        ck.note(ip)
        unchanged(ck, rule, where(src, BO, name), ip, before, everything(ip, s, others, ("cells_terms",)), facts, f"{case}; {name} {kw.get('cond').args[0] if 'cond' in kw else ''}")
    # a step of one model with a well and a condition
    system = lambda ip_, selfv, a_, s: mk("tup", ip.alloc(s, M.mkarr((g.n, g.n), lambda x: mk("at", sym("MA", "arr"), *x))), ip.alloc(s, M.mkarr((g.n, ONE), lambda x: mk("at", sym("Md", "arr"), *x))))
    ip.contracts[FDM, "get_matrices_vect"] = ip.contracts[FDM, "get_matrices_symb"] = system
    ip.converges = ip.any_solution = True
    s = st.copy()
    attempted(ip, lambda: ip.call_method(a, "set_well", [], acts[1][1], s))
    for wells in (False, True):
        s1 = (s if wells else st).copy()
        for nm in ("solve",):
            ok = attempted(ip, lambda: ip.call_method(sa, nm, [], dict(check_MB=TRUE, isolver=NONE if not sparse else string("cgs")), s1))
            if not ok:
                ck.undecided(rule, where(src, FDM, nm), "the step never ends normally", case)
            ck.note(ip)
            unchanged(ck, rule, where(src, FDM, nm), ip, before, everything(ip, s1, others, ("cells_terms",)), facts, f"{case}; {nm} {'with' if wells else 'without'} a well")


def solutions(ck, src, d, comp, sparse, case):
    """two compiled solutions of one model keep their own histories"""
    m = Model(src, d, comp=comp, compiled=False)
    ip, g, st = m.ip, m.g, m.st
    ip.memo = {}
    sols = []
    for sp in (sparse, not sparse):
        ip.call_method(m.obj, "compile", [string("numerical"), string("FDM")], {"sparse": boolc(sp)}, st)
        sols.append(ip.getattr(m.obj, "solution", st))
    system = lambda ip_, selfv, a_, s: mk("tup", ip.alloc(s, M.mkarr((g.n, g.n), lambda x: mk("at", sym("MA", "arr"), *x))), ip.alloc(s, M.mkarr((g.n, ONE), lambda x: mk("at", sym("Md", "arr"), *x))))
    ip.contracts[FDM, "get_matrices_vect"] = ip.contracts[FDM, "get_matrices_symb"] = system
    ip.converges = ip.any_solution = True
    rule = "solutions of one model are independent"
    c, f = cellvars(g)
    facts = f + [interior(g, c)]
    st.pc = tuple(facts)
    for well in (False, True):
        s0 = st.copy()
        if well:
            attempted(ip, lambda: ip.call_method(m.obj, "set_well", [], dict(cell_id=g.cid(c), pwf=sym("PWF", "num"), r=sym("RW", "num")), s0))
        for i, (one, other) in enumerate((sols, sols[::-1])):
            # the solution run is the active one or was compiled earlier
            before = everything(ip, s0, [other, g.obj, m.fluid])
            init = everything(ip, s0, [m.obj])
            s = s0.copy()
            if not attempted(ip, lambda: ip.call_method(one, "solve", [], dict(check_MB=TRUE, isolver=string("cgs")), s)):
                ck.undecided(rule, where(src, FDM, "solve"), "the step never ends normally", case)
                continue
            ck.note(ip)
            unchanged(ck, rule, where(src, FDM, "solve"), ip, before, everything(ip, s, [other, g.obj, m.fluid]), facts, f"{case}; {'earlier' if i == 0 else 'active'} solution {'with' if well else 'without'} a well")
            # and the model's initial state is not used up
            keep = {k: v for k, v in init.items() if k[1] in ("init_pressures", "init_rates", "pi", "bdict", "bdict_update", "cells_id", "cells_i", "cells_i_dict", "boundaries_id", "n", "dt")}
            unchanged(ck, rule, where(src, FDM, "solve"), ip, keep, everything(ip, s, [m.obj]), facts, f"{case}; the model's own settings")


def arguments(ck, src, d, case):
    rule, wh = "arguments stay the caller's", where(src, RC, "__init__")
    g = Grid(src, d)
    ip, st = g.ip, g.st
    ip.memo = {}
    refs = {n: v for n, v in g.args.items() if v.op == "ref"}
    own(ck, rule, wh, ip, st, refs, [g.obj], [], case + "; __init__")
    n = g.nb
    arr = lambda name: ip.alloc(st, M.mkarr((n,), lambda x: mk("at", sym(name, "arr"), *x)))
    c, f = cellvars(g)
    for k in ("kx", "ky", "kz", "phi", "z"):
        st2 = st.copy()
        r = ip.alloc(st2, M.mkarr((n,), lambda x: mk("at", sym("NEW", "arr"), *x)))
        held = ip.content(r, st2)
        for meth, kw in (("set_props", {k: r}), ("set_prop", dict(name=string(k), value=r))):
            s = st2.copy()
            if not attempted(ip, lambda: ip.call_method(g.obj, meth, [], kw, s)):
                continue
            one = f"{case}; {meth} {k}"
            ck.same(rule, where(src, RC, meth), ip.content(r, s), held, case=one)
            own(ck, rule, where(src, RC, meth), ip, s, {k: r}, [g.obj], [], one)
    if not d:
        return
    # conditions as a table
    m = Model(src, d)
    ip, st = m.ip, m.st
    ip.memo = {}
    e, fe = cellvars(m.g, "b")
    st.pc = tuple(fe + [bnot(interior(m.g, e))])
    t = ip.newdict(st, [])
    ip.setitem(t, m.g.cid(e), mk("tup", string("rate"), sym("VB", "num")), st)
    held = ip.freeze(t, st)
    if attempted(ip, lambda: ip.call_method(m.obj, "set_boundaries", [t], {}, st)):
        one = f"{case}; set_boundaries"
        ck.same(rule, where(src, BO, "set_boundaries"), ip.freeze(t, st), held, facts=list(st.pc), case=one)
        own(ck, rule, where(src, BO, "set_boundaries"), ip, st, {"bdict": t}, [m.obj, m.sol], list(st.pc), one)
    # scaling settings as a table
    t = ip.newdict(st, [])
    ip.setitem(t, string("pressure"), ip.newlist(st, [string("minmax"), mk("tup", num(-2), num(3))]), st)
    held = ip.freeze(t, st)
    if attempted(ip, lambda: ip.call_method(m.obj, "set_scalers", [t], {}, st)):
        one = f"{case}; set_scalers"
        ck.same(rule, where(src, BO, "set_scalers"), ip.freeze(t, st), held, facts=list(st.pc), case=one)
        own(ck, rule, where(src, BO, "set_scalers"), ip, st, {"scalers_dict": t}, [m.obj], list(st.pc), one)
    # initial arrays are handed out as copies
    v = ip.call_method(m.obj, "get_init_arrays", [], {}, st)
    rs = ip.refs_of(v)
    own(ck, "arrays handed out are copies", where(src, BO, "get_init_arrays"), ip, st, {f"part {i}": r for i, r in enumerate(rs)}, [m.obj, m.sol], list(st.pc), f"{case}; get_init_arrays")
    ck.note(ip)


def own(ck, rule, wh, ip, st, refs, objs, facts, case):
    """the object keeps nothing of the caller's: changing an argument afterwards changes none of its attributes"""
    before = everything(ip, st, objs)
    for name, r in refs.items():
        s = st.copy()
        c = ip.content(r, s)
        if c.op == "arr":
            ip.setcontent(r, s, lambda c: M.mkarr(c.args[0], lambda x: mk("at", sym("CHANGED", "arr"), *x)))
        elif c.op == "dict":
            ip.setcontent(r, s, lambda c: mk("dict", NONE))
        else:
            continue
        after = everything(ip, s, objs)
        bad = [k for k, v in before.items() if after.get(k) is not v]
        for k in bad:
            ck.same(rule, wh, after[k], before[k], facts=facts, case=f"{case}; {k[1]} after the caller changes {name}", sizes=(0, 2))
        ck.ok(rule, wh, f"{len(before) - len(bad)} attributes do not follow {name}", case)
