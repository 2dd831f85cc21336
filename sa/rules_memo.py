"""C16: remembered results depend only on their arguments and on immutable state."""
import ast
from .effects import Effects, printing_only
from .scan import loc, params
from .src import mangle

SETUP = ("__init__", "__initialize__", "__new__", "__post_init__")
MEMO = ("lru_cache", "cache", "cached_property", "memoize", "memoise")


def memo_decorators(src):
    """names of package functions that return memoising wrappers"""
    out = set(MEMO)
    for _ in range(3):
        for m in src.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.FunctionDef) and n.name not in out:
                    for c in ast.walk(n):
                        if isinstance(c, ast.Call):
                            f = c.func
                            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
                            if nm in out and any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(n) if x is not n) or nm in out and any(isinstance(x, ast.Return) and x.value is c for x in ast.walk(n)):
                                out.add(n.name)
    return out


def memoised(src, f, names):
    for d in f.node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        nm = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None
        if nm in names:
            return True
    return False


def table_memo(f):
    """hand-written memo: `if key not in self.X: ... self.X[key] = v` with the stored value used afterwards"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and len(n.test.ops) == 1 and isinstance(n.test.ops[0], (ast.NotIn, ast.In)):
            tab = n.test.comparators[0]
            if not isinstance(tab, ast.Attribute):
                continue
            miss = n.body if isinstance(n.test.ops[0], ast.NotIn) else n.orelse
            s = ast.dump(tab).replace("Store()", "Load()")
            for b in miss:
                for x in ast.walk(b):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Subscript) and ast.dump(t.value).replace("Store()", "Load()") == s and ast.dump(t.slice) == ast.dump(n.test.left):
                                out.append((n, tab, miss))
    return out


def exposed(ef, f):
    """reads of state that are not preceded by the function's own write, and not only printed"""
    first = {}
    for w in ef.writes[f]:
        if not (isinstance(w.node, ast.Assign) and any(isinstance(t, ast.Subscript) for t in w.node.targets)) and not isinstance(w.node, (ast.AugAssign, ast.Call)):
            first.setdefault(w.attr, w.node.lineno)
    out = []
    for r in ef.reads[f]:
        if r.attr in first and first[r.attr] < r.node.lineno:
            continue
        if any(isinstance(c, ast.If) and printing_only(c) for c in r.ctx):
            continue
        if any(isinstance(n, ast.If) and printing_only(n) and any(x is r.node for x in ast.walk(n.test)) for n in ast.walk(f.node)):
            continue
        out.append(r)
    return out


def entries(ef):
    for f in ef.funcs:
        if not f.name.startswith("_") or f.name.startswith("__") and f.name.endswith("__") and f.name not in SETUP:
            yield f


def stable_writes(ef, reach):
    """attributes written after construction, and the writes that make them changeable"""
    writes = {}
    for f in reach:
        for w in ef.writes[f]:
            for c in w.owner or (None,):
                writes.setdefault((c.name if c else None, w.attr), []).append(w)
    mutable = dict(writes)
    changed = True
    while changed:
        changed = False
        for k in list(mutable):
            if all(derived(ef, w, mutable) for w in mutable[k]):
                del mutable[k]
                changed = True
    return mutable


def derived(ef, w, mutable):
    """the value written is a function of state that cannot change"""
    f = w.func
    if not isinstance(w.node, ast.Assign) or any(isinstance(t, ast.Subscript) for t in w.node.targets):
        if not (isinstance(w.node, ast.Assign) and all(isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Constant) or isinstance(t, ast.Attribute) for t in w.node.targets)):
            return False
    ps = set(sum(params(f.node), [])) - {"self"}
    for v in (f.node.args.vararg, f.node.args.kwarg):
        if v:
            ps.add(v.arg)
    seen = set()

    def ok(e):
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                if x.id in ps:
                    return False
                if x.id in seen:
                    continue
                seen.add(x.id)
                for n in ast.walk(f.node):
                    if isinstance(n, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Name) and t.id == x.id for tt in (n.targets if isinstance(n, ast.Assign) else [n.target]) for t in ast.walk(tt)):
                        if not ok(n.value):
                            return False
                    elif isinstance(n, ast.For) and any(isinstance(t, ast.Name) and t.id == x.id for t in ast.walk(n.target)) and not ok(n.iter):
                        return False
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                o = ef.owner(x.value, f, {})
                a = mangle(x.attr, f.cls.name if f.cls else None)
                if o:
                    if any((c.name, a) in mutable and not self_write(w, c.name, a) for c in o):
                        return False
                    for c in o:
                        m = ef.src.find_method(c, a)
                        if m is not None:
                            for g in ef.reach([m]):
                                for r in exposed(ef, g):
                                    if any((cc.name, r.attr) in mutable for cc in r.owner or ()):
                                        return False
        return True

    def self_write(w, c, a):
        return False
    val = w.value if isinstance(w.value, ast.AST) else w.node
    if not ok(val):
        return False
    for c in w.ctx:
        t = getattr(c, "test", None) or getattr(c, "iter", None)
        if t is not None and not ok(t):
            return False
    return True


def c16(ck):
    ef = Effects(ck.src)
    names = memo_decorators(ck.src)
    memo = [f for f in ef.funcs if memoised(ck.src, f, names)]
    roots = list(entries(ef))
    reach = ef.reach(roots, stop=lambda f: f.name in SETUP)
    # a memoised query runs once per set of arguments: what it records on the side is a result, not a setting
    mutable = stable_writes(ef, [f for f in reach if f.name not in SETUP and f not in memo])
    rule = "a remembered result reads only its arguments and immutable state"
    for f in memo:
        ck.funcs.add(f.qual)
        seen = ef.reach([f], stop=lambda g: g.name in SETUP)
        bad = {}
        n = 0
        for g in seen:
            for r in exposed(ef, g):
                n += 1
                for c in r.owner or ():
                    k = (c.name, r.attr)
                    if k in mutable and k not in bad:
                        w = mutable[k][0]
                        bad[k] = f"reads {r.attr} at {loc(g, r.node)} ({ef.path(seen, g)}), which {loc(w.func, w.node)} changes"
        ck.truth(rule, loc(f), not bad, "; ".join(list(bad.values())[:4]) if bad else f"{n} reads in {len(seen)} functions", f.qual)
    ck.truth("memoised functions found", "reservoirflow", True if memo else None, f"{len(memo)} functions, {len(roots)} entry points, {len(mutable)} changeable attributes")
    for f in ef.funcs:
        for n, tab, miss in table_memo(f):
            bad = {}
            own = mangle(tab.attr, f.cls.name if f.cls else None)
            lines = (miss[0].lineno, miss[-1].end_lineno)
            sub = [g for g, c in ef.calls[f] if lines[0] <= c.lineno <= lines[1]]
            rs = [r for r in exposed(ef, f) if lines[0] <= r.node.lineno <= lines[1]]
            for g in ef.reach(sub, stop=lambda g: g.name in SETUP) if sub else ():
                rs += exposed(ef, g)
            for r in rs:
                for c in r.owner or ():
                    k = (c.name, r.attr)
                    if k in mutable and r.attr != own and k not in bad:
                        # changed together with dropping the table?
                        ws = [w for w in mutable[k] if not any(x.attr == own for x in ef.writes[w.func])]
                        if ws:
                            bad[k] = f"reads {r.attr} at {loc(r.func, r.node)}, which {loc(ws[0].func, ws[0].node)} changes without dropping {tab.attr}"
            ck.truth("a remembered table is dropped when what it was computed from changes", loc(f), not bad, "; ".join(list(bad.values())[:5]) if bad else "", ast.unparse(tab))
