"""C22: assembling with a pool of threads."""
import ast
from .terms import *
from .gridctx import *
from .check import where
from .rules_eqs import Case, settings, split, content, symbols, dense
from .rules_grid import cellvars, interior
from .rules_step import attempt
from .effects import Effects
from .scan import MUTATORS
from .src import mangle
from . import models as M

PARALLEL = ("C22",)
FDM = "FDM"


def c22(ck):
    src = ck.src
    shared(ck, src)
    for d in ALLDIMS:
        for sparse in (True, False):
            names = settings(d, ck.tier, True) if d else [("no conditions", (), ())]
            for n, (name, bounds, wells) in enumerate(names):
                last = n == len(names) - 1
                if ck.tier == "quick" and (d == "yz" or len(d) == 3 and (last or n) or len(d) == 2 and n % 4 and not last):
                    continue
                deep = n in (0, len(names) - 1) if len(d) < 2 or ck.tier != "quick" else not n and d == "xy"
                for how in ("get_cells_eq", "get_matrices_symb", "get_matrices_vect"):
                    if how == "get_cells_eq" and sparse:
                        continue
                    if ck.part():
                        attempt(ck, "threads give the same result", where(src, FDM, how), f"dims={d} sparse={sparse}; {name}; {how}", lambda case: same(ck, src, d, sparse, bounds, wells, how, deep and bool(d), case))
                    if deep and ck.part():
                        attempt(ck, "a failing worker is reported", where(src, FDM, how), f"dims={d} sparse={sparse}; {name}; {how}", lambda case: failing(ck, src, d, sparse, bounds, wells, how, case))


def same(ck, src, d, sparse, bounds, wells, how, alone, case):
    rule, wh = "threads give the same result", where(src, FDM, how)
    k = Case(src, d, True, "arr", "arr", True, sparse, bounds=bounds, wells=wells, factors=True)
    m, ip = k.m, k.m.ip
    a, b = m.st.copy(), m.st.copy()
    n = len(ip.workers)
    va = m.run(m.sol, how, st=a, threading=TRUE)
    ra = bor(*[e.guard for e in m.raises])
    jobs = ip.workers[n:]
    vb = m.run(m.sol, how, st=b, threading=FALSE)
    rb = bor(*[e.guard for e in m.raises])
    ck.note(ip)
    facts = k.facts
    ck.same("threads give the same result (answered)", wh, ra, rb, facts=facts, case=case)
    if how == "get_cells_eq":
        j = sym("Job", "int", 0)
        c, f = k.g.icoords(j), [lt(j, k.g.n)]
        k.F.know(c)
        if va is None or vb is None:
            ck.bad(rule, wh, "no result", case)
            return
        ea, eb = M.getitem(ip, va, k.g.cid(c), a), M.getitem(ip, vb, k.g.cid(c), b)
        ea, eb = [entry_of(ck, ip.freeze(e, s), j, k.g.n, wh, facts, f"{case}; {w}") for e, s, w in ((ea, a, "threads"), (eb, b, "no threads"))]
        for side in (0, 1):
            x, y = split(ea, side), split(eb, side)
            if x is None or y is None:
                ck.undecided(rule, wh, f"equation is {show(ea)[:60]}", case)
                continue
            x, y = (content(x), content(y)) if side == 0 else (symbols(x), symbols(y))
            ck.same(rule, wh, x, y, facts=facts + f, case=f"{case}; {'left' if side == 0 else 'right'} side")
    else:
        for side, what in enumerate(("matrix", "right-hand side")):
            x = split(va, side) if va is not None else None
            y = split(vb, side) if vb is not None else None
            ck.same(rule, wh, x, y, facts=facts, case=f"{case}; {what}", rewrite=dense, sizes=(0, 1) if len(d) > 1 else (0, 2))
    for i, (f, seqs, st) in enumerate(jobs if alone else ()):
        own_entries(ck, src, k, f, seqs, st, f"{case}; pool {i}")
    if how != "get_matrices_vect":
        ck.ok("workers found", wh, f"{len(jobs)} pool calls", case)


def entry_of(ck, e, j, n, wh, facts, case):
    """the entry of a table at the key of cell number j, given as a search through all entries"""
    while e.op in ("ite", "pick"):
        if e.op == "ite" and e.args[0].op == "exists" and len(e.args) == 3:
            e = e.args[1]
        elif e.op == "pick" and len(e.args) == 4:
            bv, dom, cnd, v = e.args
            i = sym("Other", "int", 0)
            here, there = subst(cnd, {bv: j}), subst(cnd, {bv: i})
            ck.same("an equation is stored under its cell", wh, here, TRUE, facts=facts + [lt(j, n)], case=case)
            ck.same("an equation is stored under its cell", wh, there, FALSE, facts=facts + [lt(j, n), lt(i, n), bnot(eq(i, j))], case=case)
            e = subst(v, {bv: j})
        else:
            break
    return e


def failing(ck, src, d, sparse, bounds, wells, how, case):
    rule, wh = "a failing worker is reported", where(src, FDM, how)
    k = Case(src, d, True, "arr", "arr", True, sparse, bounds=bounds, wells=wells, factors=True)
    m, ip = k.m, k.m.ip
    seen = []

    def fails(f):
        seen.append(sym(f"worker {fname(ip, f)} fails", "bool"))
        return seen[-1]
    ip.worker_fails = fails
    n = len(ip.workers)
    m.run(m.sol, how, st=m.st.copy(), threading=TRUE)
    ip.worker_fails = None
    ck.note(ip)
    r = bor(*[e.guard for e in m.raises])
    ck.same(rule, wh, r, bor(*dict.fromkeys(seen)), facts=k.facts, case=case)
    ck.ok("pools whose workers may fail", wh, f"{len(ip.workers) - n} pool calls", case)


def fname(ip, f):
    try:
        return ip.funcs[f][0].qual
    except Exception:
        return show(f)[:60]


def locations(ip, st):
    """everything a worker could change: (key, what)"""
    return {key: v for key, v in st.heap.items()}


def own_entries(ck, src, k, f, seqs, st, case):
    """a worker's changes are confined to places no worker of another cell changes, and the order of workers is immaterial"""
    rule = "workers write only to their own entries"
    g, ip = k.g, k.m.ip
    if seqs is None:
        ck.undecided(rule, "concurrent worker " + fname(ip, f), "handed over one by one", case)
        return
    if len(seqs) != 1:
        ck.undecided(rule, "concurrent worker " + fname(ip, f), "more than one argument", case)
        return
    js = [sym(f"Job{i}", "int", 0) for i in range(2)]
    ids = [element(ip, seqs[0], j, st) for j in js]
    if ids[0] is None:
        ck.undecided(rule, "concurrent worker " + fname(ip, f), "the jobs are not the cells one by one", case)
        return
    a, b = ids
    for j in js:
        k.F.know(g.icoords(j))
    facts = k.facts + [lt(j, g.n) for j in js] + [bnot(eq(*js))]
    wh = "concurrent worker " + fname(ip, f)
    before = st.copy()
    before.pc = tuple(facts)
    ip.frames.append(ip.frames[-1]) if ip.frames else None
    runs = {}
    for name, order in (("a", (a,)), ("b", (b,)), ("ab", (a, b)), ("ba", (b, a))):
        s = before.copy()
        for c in order:
            if not work(ip, f, c, s):
                ck.undecided(rule, wh, "the worker never ends normally", case)
                return
            s.pc = before.pc
        runs[name] = s
    n = 0
    for key, old in before.heap.items():
        va, vb = runs["a"].heap.get(key), runs["b"].heap.get(key)
        if va is old and vb is old:
            continue
        n += 1
        what = place_name(ip, before, key)
        if key[0] == "a":
            # an attribute of a shared object is bound anew: only harmless when every worker binds the same
            x, y = ip.freeze(va, runs["a"]), ip.freeze(vb, runs["b"])
            if x is not y:
                ck.same(rule, wh, x, y, facts=facts, case=f"{case}; {what}")
            continue
        olds, xa, xb, xab, xba = [M.up(ip, ip.freeze(v, s)) if v is not None else None for v, s in ((old, before), (va, runs["a"]), (vb, runs["b"]), (runs["ab"].heap.get(key), runs["ab"]), (runs["ba"].heap.get(key), runs["ba"]))]
        if olds.op in ("arr", "dmat") and all(x is not None and x.op in ("arr", "dmat") for x in (xa, xb, xab, xba)):
            o, x, y, p, q = [M.dmat2arr(v) if v.op == "dmat" else v for v in (olds, xa, xb, xab, xba)]
            idx = [sym(f"Place{i}", "int", 0) for i in range(len(o.args[0]))]
            inside = [lt(i, s) for i, s in zip(idx, o.args[0])]
            idx = [ZERO if s is ONE else i for i, s in zip(idx, o.args[0])]
            inside = [c for c in inside if c is not TRUE]
            e = [M.aget(v, idx) for v in (o, x, y, p, q)]
            both = band(bnot(eq(e[0], e[1])), bnot(eq(e[0], e[2])))
            ck.same(rule, wh, both, FALSE, facts=facts + inside, case=f"{case}; {what}")
            ck.same("the order of workers does not matter", wh, e[3], e[4], facts=facts + inside, case=f"{case}; {what}")
        elif olds.op == "dict":
            for s, c, o in (("a", a, b), ("b", b, a)):
                i, pi = M.dict_get(ip, olds, o, before)
                j, pj = M.dict_get(ip, ip.freeze(runs[s].heap[key], runs[s]), o, runs[s])
                i, j = i if i is not None else NONE, j if j is not None else NONE
                i, j = ite(pi, i, NONE) if pi is not None else i, ite(pj, j, NONE) if pj is not None else j
                if i is not j:
                    ck.same(rule, wh, j, i, facts=facts, case=f"{case}; {what}")
        elif olds.op in ("list", "set"):
            ck.bad(rule, wh, f"workers change a shared {olds.op}: {what}", case)
        else:
            ck.undecided(rule, wh, f"{what} is {olds.op}", case)
    ck.ok(rule, wh, f"{len(before.heap)} places compared, {n} changed by a worker", case)


def element(ip, seq, j, st):
    """the j-th of the jobs"""
    l = M.sequence(ip, seq, st)
    if not isinstance(l, list) or len(l) != 1:
        return None
    x = l[0]
    if x[0] == "mseg" and x[3] is TRUE:
        return subst(x[4], {x[1]: j})
    return x[2] if x[0] == "el" and x[1] is TRUE else None


def work(ip, f, id, st):
    from .interp import Diverge
    n = len(ip.raises)
    try:
        ip.apply(f, [id], {}, st)
        return True
    except Diverge:
        return False
    finally:
        del ip.raises[n:]


def place_name(ip, st, key):
    if key[0] == "a":
        return f"attribute {key[2]}"
    for k, v in st.heap.items():
        if k[0] == "a" and v is key[1]:
            return f"contents of {k[2]}"
    return "contents of " + show(key[1])[:40]


# --------------------------------------------------------------------- structure
POOLS = ("ThreadPoolExecutor", "ProcessPoolExecutor", "Thread", "Pool", "ThreadPool", "Process", "Timer")


def spawned(src, eff):
    """(function, call, worker) for every hand-over of a function to another thread"""
    out = []
    for f in eff.funcs:
        env = eff._env(f)
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            fn = n.func
            nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", "")
            cands = []
            if isinstance(fn, ast.Attribute) and nm in ("map", "submit", "imap", "imap_unordered", "apply_async", "starmap", "map_async") and n.args:
                cands = [n.args[0]]
            elif nm in POOLS:
                cands = [k.value for k in n.keywords if k.arg == "target"]
            for e in cands:
                if isinstance(e, ast.Lambda):
                    out += [(f, n, g) for c in ast.walk(e.body) if isinstance(c, ast.Call) for g in eff.targets(c, f, env)]
                elif isinstance(e, ast.Attribute):
                    o = eff.owner(e.value, f, env)
                    out += [(f, n, m) for c in o or () for m in [src.find_method(c, mangle(e.attr, f.cls.name if f.cls else None))] if m]
                elif isinstance(e, ast.Name):
                    g = eff._funcref(e, f.mod)
                    out += [(f, n, g)] if g else [(f, n, h) for h in eff.funcs if h.name == e.id and h.mod is f.mod]
    seen, res = set(), []
    for f, n, g in out:
        if (f, g) not in seen:
            seen.add((f, g))
            res.append((f, n, g))
    return res


def tainted(f):
    """names of f that depend on its arguments (other than self)"""
    a = f.node.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
    names.discard("self")
    for _ in range(4):
        n0 = len(names)
        for n in ast.walk(f.node):
            pairs = []
            if isinstance(n, ast.Assign):
                pairs = [(t, n.value) for t in n.targets]
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                pairs = [(n.target, n.value)]
            elif isinstance(n, (ast.For, ast.comprehension)):
                pairs = [(n.target, n.iter)]
            elif isinstance(n, (ast.If, ast.While)):
                if depends(n.test, names):
                    pairs = [(t, n.test) for m in ast.walk(n) if isinstance(m, ast.Assign) for t in m.targets]
            for t, v in pairs:
                if depends(v, names):
                    names |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and x.id != "self"}
        if len(names) == n0:
            break
    return names


def depends(e, names):
    return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(e))


def target_of(w):
    """the assignment target (or receiver) of a write, with its keys"""
    n = w.node
    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
    out = []
    for t in ts:
        for x in ast.walk(t):
            if isinstance(x, ast.Subscript):
                out.append(x.slice)
    if isinstance(n, ast.Call):
        out += list(n.args)
        x = n.func
        while isinstance(x, (ast.Attribute, ast.Subscript, ast.Call)):
            if isinstance(x, ast.Subscript):
                out.append(x.slice)
            x = x.func if isinstance(x, ast.Call) else x.value
    return out


def branches(w, names):
    """the branches of tests on the function's arguments that a write is in"""
    out = set()
    for i in w.ctx or ():
        if isinstance(i, (ast.If, ast.While)) and depends(i.test, names):
            out.add((id(i), any(w.node is x for s in i.body for x in ast.walk(s))))
    return frozenset(out)


def shared(ck, src):
    rule = "workers share no scratch variables"
    if not ck.part():
        return
    eff = Effects(src)
    for f, call, w in spawned(src, eff):
        seen = eff.reach([w])
        reads = {}
        for h in seen:
            for r in eff.reads.get(h, ()):
                reads.setdefault(r.attr, []).append(r)
        n = 0
        for h in seen:
            names = tainted(h)
            for x in eff.writes.get(h, ()):
                n += 1
                wh = f"{h.mod.path if hasattr(h.mod, 'path') else h.mod.name}:{h.qual}"
                case = f"worker {w.qual} handed over in {f.qual}; {x.owner and '|'.join(sorted(c.name for c in x.owner))}.{x.attr} at line {x.node.lineno}"
                keys = target_of(x)
                if any(depends(k, names) for k in keys):
                    ck.ok(rule, wh, "entry selected by the worker's own argument", case)
                    continue
                if isinstance(x.node, ast.Call) or keys:
                    ck.bad(rule, wh, f"{eff.path(seen, h)} changes {x.attr} in place at a place that is the same for every worker", case)
                    continue
                value = x.node.value if isinstance(x.node, (ast.Assign, ast.AugAssign, ast.AnnAssign)) else None
                own = isinstance(x.node, ast.AugAssign)
                mates = [y for y in eff.writes.get(h, ()) if y.attr == x.attr]
                varies = own or value is None or depends(value, names) or len({branches(y, names) for y in mates}) > 1
                if not varies:
                    ck.ok(rule, wh, "every worker stores the same value", case)
                    continue
                users = [r for r in reads.get(x.attr, ()) if r.owner and x.owner and r.owner & x.owner]
                if own or users:
                    at = f"{users[0].func.qual} line {users[0].node.lineno}" if users else "the same statement"
                    ck.bad(rule, wh, f"{eff.path(seen, h)} stores a value that differs between calls in {x.attr}, which workers read again ({at})", case)
                else:
                    ck.ok(rule, wh, "no worker reads it", case)
        ck.ok("functions a worker reaches", f.qual, f"{len(seen)} functions, {n} writes", f"worker {w.qual}")
