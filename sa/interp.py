"""Abstract interpreter: flow- and context-sensitive value numbering over the package's syntax trees.

State = (variable values, heap contents, path facts).  Both arms of an undecided branch are analysed and joined with a
gated phi; loops over data are summarised (map / sum / scatter / last / exists) after one symbolic iteration; nothing is
executed.  Unknown constructs give `unk` terms, which can never produce a verdict.
"""
import ast
import os
import time
from .terms import *
from . import terms as tm
from .src import mangle


class Diverge(Exception):
    """every path of the expression being evaluated raises"""


class Budget(Exception):
    pass


class St:
    __slots__ = ("env", "heap", "pc")

    def __init__(self, env=None, heap=None, pc=()):
        self.env, self.heap, self.pc = env or {}, heap or {}, pc

    def copy(self):
        return St({k: dict(v) for k, v in self.env.items()}, dict(self.heap), self.pc)

    def become(self, o):
        self.env, self.heap, self.pc = o.env, o.heap, o.pc


class Frame:
    def __init__(self, fid, fi, cls, pcbase, selfv=None, parent=None):
        self.fid, self.fi, self.cls, self.pcbase, self.selfv, self.parent = fid, fi, cls, pcbase, selfv, parent
        self.exits = []


class Exit:
    __slots__ = ("guard", "kind", "value", "state", "node", "fi")

    def __init__(self, guard, kind, value, state, node, fi):
        self.guard, self.kind, self.value, self.state, self.node, self.fi = guard, kind, value, state, node, fi


UNDEF = mk("undef")
PURE_DECOR = ("_lru_cache", "lru_cache", "functools", "cache", "property", "staticmethod", "classmethod", "abstractmethod", "utils.helpers._lru_cache")


class Interp:
    def __init__(self, src, typemap=None, contracts=None, max_steps=400000):
        from . import models
        self.src = src
        self.models = models
        self.typemap = dict(typemap or {})
        self.contracts = dict(contracts or {})
        self.workers = []
        self.memo = None
        self.funcs = {}        # id -> (Func, closure frame id)
        self.objcls = {}       # T(obj) -> Cls
        self.events = []
        self.unboxed = set()
        self.visited = {}
        self.frames = []
        self.nid = 0
        self.steps = 0
        self.max_steps = max_steps
        self.until = time.time() + (150 if os.environ.get("VERIF_TIER", "quick") == "quick" else 900)
        self.facts = {}
        self.unknowns = []
        self.raises = []       # (guard, exc name, message, func, lineno) reaching the top call
        self.globcache = {}
        self.shapes = {}       # opaque array term -> shape tuple
        self.attrshapes = {}   # attribute name -> shape tuple
        self.extcalls = []
        self.assumed = []
        self.cur = None

    # ------------------------------------------------------------ small helpers
    def new(self):
        self.nid += 1
        return self.nid

    def alloc(self, st, content):
        r = mk("ref", self.new())
        st.heap[("c", r)] = content
        return r

    def newlist(self, st, vals):
        return self.alloc(st, mk("list", *[mk("el", TRUE, v) for v in vals]))

    def newset(self, st, vals):
        return self.alloc(st, mk("set", *[mk("el", TRUE, v) for v in vals]))

    def newdict(self, st, pairs):
        return self.alloc(st, mk("dict", NONE, *[mk("de", TRUE, k, v) for k, v in pairs]))

    def newarr(self, st, shape, body):
        return self.alloc(st, mk("arr", tuple(shape), body))

    def content(self, v, st):
        if v.op == "ite":
            return ite(v.args[0], self.content(v.args[1], st), self.content(v.args[2], st))
        c = st.heap.get(("c", v))
        if c is not None:
            return c
        if v.op == "box":
            return v.args[0]
        if v.op in ("attr", "item", "sym", "at", "call", "undef", "keys") or v.op in OPAQUE:
            return mk("opq", v)
        return v

    def setcontent(self, v, st, f, guard=TRUE):
        """strong update of the container(s) v may denote"""
        if v.op == "ite":
            self.setcontent(v.args[1], st, f, band(guard, v.args[0]))
            self.setcontent(v.args[2], st, f, band(guard, bnot(v.args[0])))
            return
        old = self.content(v, st)
        if v in self.unboxed:
            self.unk("change of a container stored by a loop")
            f = lambda _: self.unk("change of a container stored by a loop")
        new = self.map_ite(f, old)
        st.heap[("c", v)] = ite(guard, new, old)

    def box(self, v, heap, old):
        """contents of containers allocated by one loop iteration, as values (the generic iteration's variable is inside)"""
        memo = {}

        def bx(t, d=0):
            if not isinstance(t, T) or d > 12 or not tm_has_ref(t):
                return t
            if t.op == "ref":
                if ("c", t) in old or ("c", t) not in heap:
                    return t
                if t not in memo:
                    memo[t] = t
                    memo[t] = mk("box", bx(heap[("c", t)], d + 1))
                return memo[t]
            if t.op == "rat":
                return t
            return tm.rebuild(t.op, tuple(bx(a, d + 1) if isinstance(a, T) else tuple(bx(x, d + 1) for x in a) if isinstance(a, tuple) else a for a in t.args))
        return bx(v)

    def unbox(self, v, st):
        if v.op not in ("box", "tup", "ite"):
            return v
        v = self.fuse(v)
        if v.op == "box":
            r = self.alloc(st, v.args[0])
            self.unboxed.add(r)
            return r
        if v.op == "tup":
            return mk("tup", *[self.unbox(a, st) for a in v.args])
        if v.op == "ite":
            return ite(v.args[0], self.unbox(v.args[1], st), self.unbox(v.args[2], st))
        return v

    def fuse(self, v):
        """one box (or tuple of boxes) for a choice between boxes"""
        if v.op == "tup":
            return mk("tup", *[self.fuse(a) for a in v.args])
        if v.op != "ite":
            return v
        c, a, b = v.args[0], self.fuse(v.args[1]), self.fuse(v.args[2])
        if a.op == "box" and b.op == "box":
            return mk("box", ite(c, a.args[0], b.args[0]))
        if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args) and any(x.op in ("box", "tup") for x in a.args):
            return mk("tup", *[self.fuse(ite(c, x, y)) for x, y in zip(a.args, b.args)])
        return ite(c, a, b)

    def map_ite(self, f, c):
        if c.op == "ite":
            return ite(c.args[0], self.map_ite(f, c.args[1]), self.map_ite(f, c.args[2]))
        return f(c)

    def unk(self, why, node=None):
        u = unk(why)
        self.unknowns.append((why, self.where(node)))
        return u

    def assume_note(self, t):
        self.assumed.append(t)

    def nonzero(self, d):
        """d is certainly non-zero (two sizes differ whatever the inputs)"""
        return prove_pos(d) or prove_pos(neg(d))

    def where(self, node=None):
        fr = self.frames[-1] if self.frames else None
        f = fr.fi.qual if fr and fr.fi else "?"
        return f"{fr.fi.file if fr and fr.fi else '?'}:{getattr(node, 'lineno', '?')} {f}"

    def event(self, st, kind, *info, node=None):
        self.events.append((st.pc, kind, info, self.where(node)))

    def feasible(self, st, tries=400):
        """some point tried reaches the current path"""
        from . import rand
        pc = band(*st.pc)
        if pc is TRUE or pc.unk:
            return True
        return rand.reached(pc, tries)

    def decide(self, c, st):
        if c in (TRUE, FALSE):
            return c
        m = {}
        for f, v in self.facts.items():
            m[f] = boolc(v) if isinstance(v, bool) else v
        for f in st.pc:
            self._addfact(m, f, True)
        c2 = subst(c, m) if m else c
        return c2

    def _addfact(self, m, f, v):
        if f.op == "not":
            self._addfact(m, f.args[0], not v)
        elif f.op == "and" and v:
            for x in f.args:
                self._addfact(m, x, True)
        elif f.op == "or" and not v:
            for x in f.args:
                self._addfact(m, x, False)
        else:
            m[f] = boolc(v)
            if f.op in ("eq", "isnone") and v:
                for a, b in implied(f, True).items():
                    if b.op in CONSTOPS and a.op in ("sym", "attr", "item"):
                        m[a] = b
                m[f] = TRUE

    # ------------------------------------------------------------ truth / types
    def truth(self, v, st):
        if v.op == "ite":
            return ite(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
        if isbool(v):
            return v
        if v is NONE:
            return FALSE
        if v.op == "num":
            return boolc(v.args[0] != 0)
        if v.op == "str":
            return boolc(bool(v.args[0]))
        if v.op == "tup":
            return boolc(bool(v.args))
        if v.op in ("obj", "fn", "bm", "cls", "ext", "module", "slice", "fmt"):
            return TRUE
        if v.op == "ref":
            c = self.content(v, st)
            if c.op in ("list", "set"):
                if all(s.op == "el" and s.args[0] is TRUE for s in c.args):
                    return boolc(bool(c.args))
            if c.op == "dict" and c.args[0] is NONE and all(e.op == "de" and e.args[0] is TRUE for e in c.args[1:]):
                return boolc(len(c.args) > 1)
            return mk("truthy", c) if c.op != "arr" else mk("truthy", v)
        if is_numeric(v) and (v.isint or v.op in ("rat",) or (v.op == "sym" and v.args[1] == "num")):
            return bnot(eq0(v))
        return mk("truthy", v)

    def pytypes(self, v, st):
        """possible python type names of a value, or None when unknown"""
        op = v.op
        if op == "ite":
            a, b = self.pytypes(v.args[1], st), self.pytypes(v.args[2], st)
            return a | b if a and b else None
        if op == "num":
            return {"int"} if v.args[0].denominator == 1 else {"float"}
        if op == "bool":
            return {"bool"}
        if op in ("str", "fmt"):
            return {"str"}
        if op == "none":
            return {"NoneType"}
        if op == "tup":
            return {"tuple"}
        if op == "ref":
            c = self.content(v, st)
            return {{"list": "list", "set": "set", "dict": "dict", "arr": "ndarray", "dmat": "matrix", "df": "DataFrame"}.get(c.op, "?")} if c.op != "ite" else None
        if op == "sym":
            k = v.args[1]
            return {"int": {"int"}, "num": {"int", "float"}, "str": {"str"}, "bool": {"bool"}, "arr": {"ndarray"}, "tuple": {"tuple"}, "list": {"list"},
                    "dict": {"dict"}, "set": {"set"}}.get(k)
        if op in ("rat", "ax", "ix", "div", "mod", "Sum", "Max", "Min", "at", "bv", "len"):
            return {"int"} if v.isint else {"int", "float"}
        if isbool(v):
            return {"bool"}
        if op == "obj":
            c = self.objcls.get(v)
            return {k.name for k in self.src.mro(c)} | {"object"} if c else None
        return None

    def isinstance_(self, v, names, st):
        if v.op == "ite":
            return ite(v.args[0], self.isinstance_(v.args[1], names, st), self.isinstance_(v.args[2], names, st))
        ts = self.pytypes(v, st)
        if ts is None or "?" in ts:
            return mk("isinst", v, tuple(sorted(names)))
        if v.op == "obj":
            return boolc(bool(ts & set(names)))
        nm = set(names)
        if "int" in nm:
            nm.add("bool")
        if all(t in nm for t in ts):
            return TRUE
        if not any(t in nm for t in ts):
            return FALSE
        return mk("isinst", v, tuple(sorted(names)))

    # ------------------------------------------------------------ function calls
    def mkfn(self, fi, closure=None):
        k = ("fn", fi.qual, id(fi.node), closure)
        t = mk("fn", fi.qual + ("#" + str(closure) if closure is not None else "") + "@" + str(id(fi.node)))
        self.funcs[t] = (fi, closure)
        return t

    def bind(self, fi, args, kwargs, st, node=None):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        extra = []
        for i, v in enumerate(args):
            if i < len(names):
                out[names[i]] = v
            else:
                extra.append(v)
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                if n in out:
                    return None
                out[n] = kw.pop(n)
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                if n in defaults:
                    out[n] = self.eval_const(fi, defaults[n], st)
                elif "**" in kw:
                    out[n] = self.unk("star-kwargs argument")
                else:
                    return None
        if a.vararg:
            out[a.vararg.arg] = mk("tup", *extra)
        elif extra:
            return None
        if a.kwarg:
            out[a.kwarg.arg] = self.newdict(st, [(string(k), v) for k, v in kw.items()])
        elif kw and "**" not in kw:
            return None
        return out

    def eval_const(self, fi, expr, st):
        """default argument: evaluated in module scope; shared object per function (as in Python)"""
        key = ("default", fi.qual, id(expr))
        if isinstance(expr, (ast.List, ast.Dict, ast.Set)):
            r = self.globcache.get(key)
            if r is not None and ("c", r) in st.heap:
                return r
        fr = Frame(self.new(), fi, fi.cls, len(st.pc))
        self.frames.append(fr)
        st.env[fr.fid] = {}
        try:
            v = self.eval(expr, st)
        finally:
            self.frames.pop()
            st.env.pop(fr.fid, None)
        self.globcache[key] = v
        return v

    def call_func(self, fi, args, kwargs, st, node=None, closure=None, selfv=None, cls=None):
        """inline a package function; st is updated in place; returns the value"""
        b = self.bind(fi, args, kwargs, st, node)
        if b is None:
            self.raise_(st, "TypeError", string("bad arguments for " + fi.qual), node)
            raise Diverge()
        if fi.cls is not None and selfv is not None:
            for k in self.src.mro(cls or fi.cls):
                c = self.contracts.get((k.name, fi.name))
                if c is not None:
                    r = c(self, selfv, b, st)
                    if r is not None:
                        return r
        else:
            c = self.contracts.get((None, fi.name))
            if c is not None:
                r = c(self, None, b, st)
                if r is not None:
                    return r
        if self.memo is not None and fi.cached and fi.name != "__init__":
            # a remembered result is the same object every time
            key = (fi, selfv, tuple((k, self.freeze(v, st)) for k, v in sorted(b.items()) if k != "self"))
            r = self.memo.get(key)
            if r is not None and all(("c", x) in st.heap or ("a", x) in st.heap for x in self.refs_of(r)):
                return r
            r = self._call_func(fi, b, st, node, closure, selfv, cls)
            if r is not None and self.refs_of(r):
                self.memo[key] = r
            return r
        return self._call_func(fi, b, st, node, closure, selfv, cls)

    def refs_of(self, v):
        if v.op == "ref":
            return [v]
        if v.op in ("tup", "ite"):
            return [r for a in v.args if isinstance(a, T) for r in self.refs_of(a)]
        return []

    def _call_func(self, fi, b, st, node, closure, selfv, cls):
        depth = sum(1 for f in self.frames if f.fi is fi)
        if depth >= 7 or len(self.frames) > 60 or (depth >= 2 and not self.feasible(st)):
            # not followed any further: anything may have been changed
            for k in list(st.heap):
                if k[0] in ("a", "c"):
                    st.heap[k] = self.unk(f"after recursion into {fi.qual}", node)
            return self.unk(f"recursion into {fi.qual}", node)
        if isinstance(fi.node, ast.AsyncFunctionDef) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fi.node)):
            return self.unk("generator", node)
        fr = Frame(self.new(), fi, fi.cls, len(st.pc), selfv, closure)
        self.visited[fi.qual] = self.visited.get(fi.qual, 0) + 1
        self.frames.append(fr)
        st.env[fr.fid] = b
        try:
            if isinstance(fi.node, ast.Lambda):
                try:
                    v = self.eval(fi.node.body, st)
                    fr.exits.append(Exit(self.guard(st, fr), "ret", v, st.copy(), fi.node, fi))
                except Diverge:
                    pass
            else:
                alive = self.exec_block(fi.node.body, st)
                if alive:
                    fr.exits.append(Exit(self.guard(st, fr), "ret", NONE, st.copy(), fi.node, fi))
        finally:
            self.frames.pop()
        return self.finish(fr, st, node)

    def guard(self, st, fr):
        return band(*st.pc[fr.pcbase:])

    def finish(self, fr, st, node):
        base_pc = st.pc[: fr.pcbase]
        rets = [e for e in fr.exits if e.kind == "ret"]
        rs = [e for e in fr.exits if e.kind == "raise"]
        # raises propagate to the caller, guarded
        for e in rs:
            g = e.guard
            self.propagate(base_pc, g, e)
        if not rets:
            raise Diverge()
        # fold returns in program order
        v = rets[-1].value
        s = rets[-1].state
        for e in reversed(rets[:-1]):
            c = self.decide(e.guard, St(pc=base_pc))
            v = ite(c, e.value, v)
            s = self.merge(c, e.state, s)
        s = s.copy() if len(rets) == 1 else s
        s.env.pop(fr.fid, None)
        st.env, st.heap = s.env, s.heap
        st.pc = base_pc
        if rs:
            st.pc = base_pc + tuple(x for x in (bnot(e.guard) for e in rs) if x is not TRUE and x is not FALSE)
        return v

    def propagate(self, base_pc, g, e):
        if self.frames:
            fr = self.frames[-1]
            rel = band(*base_pc[fr.pcbase:])
            fr.exits.append(Exit(band(rel, g), "raise", e.value, e.state, e.node, e.fi))
        else:
            self.raises.append(Exit(band(*base_pc, g), "raise", e.value, e.state, e.node, e.fi))

    def raise_(self, st, exc, msg, node):
        fr = self.frames[-1] if self.frames else None
        v = mk("exc", exc, msg if isinstance(msg, T) else string(str(msg)))
        if fr is None:
            self.raises.append(Exit(band(*st.pc), "raise", v, st.copy(), node, None))
        else:
            fr.exits.append(Exit(self.guard(st, fr), "raise", v, st.copy(), node, fr.fi))

    def merge(self, c, s1, s2):
        """phi join"""
        out = St()
        out.pc = s2.pc
        for fid in set(s1.env) | set(s2.env):
            e1, e2 = s1.env.get(fid), s2.env.get(fid)
            if e1 is None or e2 is None:
                out.env[fid] = dict(e1 or e2)
                continue
            d = {}
            for n in set(e1) | set(e2):
                a, b = e1.get(n, UNDEF), e2.get(n, UNDEF)
                d[n] = a if a is b else self.phi(c, a, b)
            out.env[fid] = d
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is b:
                out.heap[k] = a
                continue
            if a is None or b is None:
                if k[0] == "c" and k[1].op == "ref":
                    out.heap[k] = a if a is not None else b
                    continue
                if k[0] == "c":
                    dflt = mk("opq", k[1])
                elif k[0] == "a" and k[1].op == "obj":
                    if ("fresh", k[1]) in s1.heap and ("fresh", k[1]) in s2.heap:
                        dflt = UNDEF
                    else:
                        out.heap[k] = a if a is not None else b
                        continue
                elif k[0] == "a":
                    dflt = mk("attr", k[1], k[2])
                else:
                    out.heap[k] = a if a is not None else b
                    continue
                a = dflt if a is None else a
                b = dflt if b is None else b
            out.heap[k] = a if a is b else self.phi(c, a, b)
        return out

    def phi(self, c, a, b):
        if a is b:
            return a
        if a.op in ("num", "rat") and b.op in ("num", "rat") and sub(a, b) is ZERO:
            return a
        if a.op in ("list", "set") and a.op == b.op:
            k = 0
            while k < len(a.args) and k < len(b.args) and a.args[k] is b.args[k]:
                k += 1
            ea, eb = a.args[k:], b.args[k:]
            if (not ea or not eb) and all(e.op in ("el", "mseg") for e in ea + eb):
                return mk(a.op, *a.args[:k], *[self.models.guard_seg(c, e) for e in ea], *[self.models.guard_seg(bnot(c), e) for e in eb])
        if a.op == "dict" and b.op == "dict" and a.args and b.args and a.args[0] is b.args[0]:
            ea, eb = a.args[1:], b.args[1:]
            if all(e.op in ("de", "dm") for e in ea + eb):
                if len(ea) == len(eb) and all(x.op == y.op == "de" and x.args[1] is y.args[1] for x, y in zip(ea, eb)):
                    return mk("dict", a.args[0], *[x if x is y else mk("de", ite(c, x.args[0], y.args[0]), x.args[1], self.phi(c, x.args[2], y.args[2])) for x, y in zip(ea, eb)])
                k = 0
                while k < len(ea) and k < len(eb) and ea[k] is eb[k]:
                    k += 1
                return mk("dict", a.args[0], *ea[:k], *[self.models.guard_ent(c, e) for e in ea[k:]], *[self.models.guard_ent(bnot(c), e) for e in eb[k:]])
        return ite(c, a, b)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        for s in stmts:
            self.steps += 1
            if self.steps > self.max_steps or time.time() > self.until:
                raise Budget()
            try:
                if not self.exec(s, st):
                    return False
            except Diverge:
                return False
        return True

    def exec(self, s, st):
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.unk("statement " + type(s).__name__, s)
            return True
        return m(s, st)

    def x_Pass(self, s, st):
        return True

    x_Import = x_Pass
    x_Global = x_Pass
    x_Nonlocal = x_Pass

    def x_Import(self, s, st):
        for a in s.names:
            self.setvar(st, a.asname or a.name.split(".")[0], self.modval(a.name if a.asname else a.name.split(".")[0]))
        return True

    def modval(self, name):
        return mk("module", name) if name in self.src.mods else mk("ext", name)

    def x_ImportFrom(self, s, st):
        fr = self.frames[-1]
        base = self.src._rel(fr.fi.mod, s)
        for a in s.names:
            if base in self.src.mods:
                r = self.src.resolve(base, a.name)
                v = self.resolved(r, st) if r else self.unk("import")
            else:
                v = mk("ext", base + "." + a.name)
            self.setvar(st, a.asname or a.name, v)
        return True

    def x_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return True
        self.eval(s.value, st)
        return True

    def x_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return True

    def x_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)
        return True

    def x_AugAssign(self, s, st):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.getvar(st, t.id, t)
            v = self.eval(s.value, st)
            if cur.op == "ref" and self.content(cur, st).op in ("list", "arr", "dmat"):
                c = self.content(cur, st)
                if c.op == "list" and op == "Add":
                    self.models.list_extend(self, cur, v, st)
                    return True
                if c.op == "arr":
                    r = self.binop(op, cur, v, st, s)
                    self.setcontent(cur, st, lambda _: self.content(r, st))
                    return True
            self.setvar(st, t.id, self.binop(op, cur, v, st, s))
            return True
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            nm = self.mname(t.attr)
            cur = self.getattr(o, nm, st, t)
            v = self.eval(s.value, st)
            if cur.op == "ref" and self.content(cur, st).op == "list" and op == "Add":
                self.models.list_extend(self, cur, v, st)
                return True
            r = self.binop(op, cur, v, st, s)
            if cur.op == "ref" and self.content(cur, st).op == "arr":
                self.setcontent(cur, st, lambda _: self.content(r, st))
            else:
                self.setattr(o, nm, r, st)
            return True
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.evalslice(t.slice, st)
            cur = self.getitem(o, i, st, t)
            v = self.eval(s.value, st)
            self.setitem(o, i, self.binop(op, cur, v, st, s), st, t)
            return True
        self.unk("augassign", s)
        return True

    def x_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(st, t.id, UNDEF)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st)
                st.heap[("a", o, self.mname(t.attr))] = UNDEF
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st)
                i = self.evalslice(t.slice, st)
                self.models.dict_del(self, o, i, st)
        return True

    def x_Return(self, s, st):
        v = NONE if s.value is None else self.eval(s.value, st)
        fr = self.frames[-1]
        fr.exits.append(Exit(self.guard(st, fr), "ret", v, st.copy(), s, fr.fi))
        return False

    def x_Raise(self, s, st):
        name, msg = "Exception", NONE
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func)
                try:
                    msg = mk("tup", *[self.eval(a, st) for a in e.args])
                except Diverge:
                    pass
            else:
                name = ast.unparse(e)
                if isinstance(e, ast.Name):
                    v = st.env.get(self.frames[-1].fid, {}).get(e.id)
                    if v is not None and v.op == "exc":
                        name = v.args[0]
        else:
            name = "reraise"
        self.raise_(st, name.split(".")[-1], msg, s)
        return False

    def x_Assert(self, s, st):
        c = self.decide(self.truth(self.eval(s.test, st), st), st)
        if c is TRUE:
            return True
        s2 = st.copy()
        if c is not FALSE:
            s2.pc = s2.pc + (bnot(c),)
        self.raise_(s2, "AssertionError", NONE, s)
        if c is FALSE:
            return False
        st.pc = st.pc + (c,)
        return True

    def x_If(self, s, st):
        c = self.decide(self.truth(self.eval(s.test, st), st), st)
        if c is TRUE:
            return self.exec_block(s.body, st)
        if c is FALSE:
            return self.exec_block(s.orelse, st)
        return self.branch(c, lambda x: self.exec_block(s.body, x), lambda x: self.exec_block(s.orelse, x), st)

    def branch(self, c, f1, f2, st):
        s1 = st.copy()
        s1.pc = st.pc + (c,)
        s2 = st.copy()
        s2.pc = st.pc + (bnot(c),)
        pc = st.pc
        a1 = f1(s1)
        a2 = f2(s2)
        if a1 and a2:
            m = self.merge(c, s1, s2)
            m.pc = pc
            st.become(m)
            return True
        if a1:
            st.become(s1)
            return True
        if a2:
            st.become(s2)
            return True
        return False

    def x_Try(self, s, st):
        fr = self.frames[-1]
        if s.finalbody:
            outer, fr.exits = fr.exits, []
            alive = self.x_TryBody(s, st, fr)
            pend, fr.exits = fr.exits, outer
            for e in pend:
                es = e.state.copy()
                n0 = len(fr.exits)
                if self.exec_block(s.finalbody, es):
                    e.state = es
                    fr.exits.append(e)
                for x in fr.exits[n0:]:
                    if x is not e:
                        x.guard = band(e.guard, x.guard)
            return self.exec_block(s.finalbody, st) if alive else False
        return self.x_TryBody(s, st, fr)

    def x_TryBody(self, s, st, fr):
        saved, fr.exits = fr.exits, []
        before = st.copy()
        alive = self.exec_block(s.body, st)
        if alive and s.orelse:
            alive = self.exec_block(s.orelse, st)
        body_exits, fr.exits = fr.exits, saved
        conts = []
        for e in body_exits:
            if e.kind != "raise":
                fr.exits.append(e)
                continue
            h = self.match_handler(s.handlers, e.value)
            if h is None:
                fr.exits.append(e)
                continue
            hs = e.state.copy()
            if h.name:
                hs.env.setdefault(fr.fid, {})[h.name] = e.value
            self.event(hs, "caught", e.value, node=h)
            n0 = len(fr.exits)
            ok = self.exec_block(h.body, hs)
            for x in fr.exits[n0:]:
                if x.value.op == "exc" and x.value.args[0] == "reraise":
                    x.value = e.value
            if ok:
                conts.append((e.guard, hs))
        for h in s.handlers:
            self.event(before, "handler", ast.unparse(h.type) if h.type else "*", h, node=h)
        if not alive and not conts:
            return False
        cur = st if alive else None
        for g, hs in reversed(conts):
            if cur is None:
                cur = hs
            else:
                m = self.merge(g, hs, cur)
                m.pc = before.pc
                cur = m
        st.become(cur)
        st.pc = before.pc if alive and conts else st.pc
        return True

    x_TryStar = x_Try

    def match_handler(self, handlers, exc):
        name = exc.args[0] if exc.op == "exc" else None
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            for t in ts:
                n = ast.unparse(t).split(".")[-1]
                if n in ("Exception", "BaseException") or n == name or (n == "LookupError" and name in ("KeyError", "IndexError")):
                    return h
        return None

    def x_With(self, s, st):
        pools = []
        for i in s.items:
            v = self.eval(i.context_expr, st)
            if self.content(v, st).op == "pool":
                pools.append(v)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st)
        fr = self.frames[-1]
        n = len(fr.exits)
        alive = self.exec_block(s.body, st)
        for p in reversed(pools):
            for e in fr.exits[n:]:
                if e.kind != "raise":
                    self.models.pool_join(self, p, e.state, s)
            if alive:
                self.models.pool_join(self, p, st, s)
        return alive

    def x_FunctionDef(self, s, st):
        fr = self.frames[-1]
        fi = self.src._func(s, fr.fi.mod, None)
        fi.cls = None
        fi.qual = fr.fi.qual + ".<locals>." + s.name
        fi.closure = True
        f2 = fi
        self.clsctx = getattr(self, "clsctx", {})
        t = self.mkfn(fi, fr.fid)
        self.clsctx[t] = fr
        self.setvar(st, s.name, t)
        return True

    def x_ClassDef(self, s, st):
        self.setvar(st, s.name, self.unk("local class", s))
        return True

    def x_Break(self, s, st):
        fr = self.frames[-1]
        fr.exits.append(Exit(self.guard(st, fr), "brk", NONE, st.copy(), s, fr.fi))
        return False

    def x_Continue(self, s, st):
        fr = self.frames[-1]
        fr.exits.append(Exit(self.guard(st, fr), "cont", NONE, st.copy(), s, fr.fi))
        return False

    # ------------------------------------------------------------ loops
    def x_For(self, s, st):
        it = self.eval(s.iter, st)
        alive = self.loop(s.target, it, s.body, st, s)
        if alive and s.orelse:
            return self.exec_block(s.orelse, st)
        return alive

    def x_While(self, s, st):
        # counting idiom:  i = a ; while i < e: body ; i += c
        r = self.counted(s, st)
        if r is not None:
            name, start, stop, step, body = r
            it = self.models.make_range(self, start, stop, step, st)
            alive = self.loop(ast.Name(id=name, ctx=ast.Store()), it, body, st, s)
            if alive:
                self.setvar(st, name, stop if step is ONE else self.unk("loop counter"))
            return alive
        c = self.decide(self.truth(self.eval(s.test, st), st), st)
        if c is FALSE:
            return True
        self.havoc(s.body, st, s)
        self.unk("while loop", s)
        return True

    def counted(self, s, st):
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.ops[0], (ast.Lt, ast.LtE))):
            return None
        nm = t.left.id
        if not s.body or s.orelse:
            return None
        last = s.body[-1]
        inc = None
        if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == nm and isinstance(last.op, ast.Add):
            inc = last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == nm and isinstance(last.value, ast.BinOp) \
                and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == nm:
            inc = last.value.right
        if inc is None:
            return None
        for n in s.body[:-1]:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Store):
                    return None
                if isinstance(x, (ast.Continue,)):
                    return None
        start = self.getvar(st, nm, s)
        stop = self.eval(t.comparators[0], st)
        if isinstance(t.ops[0], ast.LtE):
            stop = add(stop, ONE)
        return nm, start, stop, self.eval(inc, st), s.body[:-1]

    def havoc(self, body, st, node):
        fr = self.frames[-1]
        body_nodes = []
        for n in body:
            while isinstance(n, _CompBody):
                body_nodes += n.ifs + [g.target for g in n.gens[n.i:]]
                n = None
            if n is not None:
                body_nodes.append(n)
        for n in body_nodes:
            for x in ast.walk(n):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.setvar(st, x.id, self.unk("havoc"))
        # heap: run once to find which locations change
        probe = st.copy()
        saved = fr.exits
        fr.exits = []
        try:
            self.exec_block(body, probe)
        except Diverge:
            pass
        ex, fr.exits = fr.exits, saved
        keys = set(k for k in probe.heap if probe.heap.get(k) is not st.heap.get(k))
        for e in ex:
            keys |= set(k for k in e.state.heap if e.state.heap.get(k) is not st.heap.get(k))
        for k in keys:
            if k[0] == "c" and ("c", k[1]) not in st.heap and k[1].op == "ref":
                continue
            st.heap[k] = self.unk("havoc heap")
        for e in ex:
            if e.kind in ("ret", "raise"):
                fr.exits.append(Exit(band(self.guard(st, fr), self.unk("loop exit")), e.kind, e.value, e.state, e.node, e.fi))

    def loop(self, target, it, body, st, node):
        """for target in it: body"""
        seq = self.models.sequence(self, it, st)
        if seq is None:
            self.havoc_loop(target, body, st, node, "iterable " + it.op)
            return True
        if it.op == "ite" and seq == "ite":
            c = it.args[0]
            return self.branch(c, lambda x: self.loop(target, it.args[1], body, x, node), lambda x: self.loop(target, it.args[2], body, x, node), st)
        if all(x[0] == "el" for x in seq):
            return self.unrolled(target, seq, body, st, node)
        alive = True
        for seg in seq:
            if seg[0] == "el":
                alive = self.unrolled(target, [seg], body, st, node)
            else:
                alive = self.summarise(target, seg, body, st, node)
            if not alive:
                return False
        return alive

    def havoc_loop(self, target, body, st, node, why):
        self.unk("loop over " + why, node)
        for x in ast.walk(target):
            if isinstance(x, ast.Name):
                self.setvar(st, x.id, self.unk("loop var"))
        self.havoc(body, st, node)

    def unrolled(self, target, seq, body, st, node):
        fr = self.frames[-1]
        broken = []
        pc0 = st.pc
        for _, g, v in seq:
            saved, fr.exits = fr.exits, []

            def one(x):
                self.assign(target, v, x)
                return self.exec_block(body, x)
            g = self.decide(g, st)
            if g is FALSE:
                fr.exits = saved
                continue
            if g is TRUE:
                alive = one(st)
            else:
                alive = self.branch(g, one, lambda x: True, st)
            ex, fr.exits = fr.exits, saved
            conts = []
            for e in ex:
                if e.kind in ("ret", "raise"):
                    fr.exits.append(e)
                elif e.kind == "cont":
                    conts.append(e)
                else:
                    broken.append(e)
            if not alive:
                if not conts:
                    if broken:
                        return self._rejoin(None, broken, st, pc0)
                    return False
                self._rejoin(None, conts, st, pc0)
            elif conts:
                self._rejoin(st, conts, st, pc0)
        if broken:
            return self._rejoin(st, broken, st, pc0)
        return True

    def _rejoin(self, cur, exits, st, pc0):
        fr = self.frames[-1]
        for e in reversed(exits):
            g = e.guard
            base = band(*pc0[fr.pcbase:])
            if cur is None:
                cur = e.state.copy()
            else:
                cur = self.merge(g, e.state, cur)
        cur.pc = pc0
        st.become(cur)
        return True

    def summarise(self, target, seg, body, st, node):
        """one symbolic iteration; loop-carried locations are generalised to map/sum/scatter/last/exists"""
        _, bv, dom, guard, elem = seg
        fr = self.frames[-1]
        if bv.args[0] < 10 ** 6:
            nb = fresh_bv(bv.args[1] if len(bv.args) > 1 else None)
            guard, elem = subst(guard, {bv: nb}), subst(elem, {bv: nb})
            bv = nb
        if dom.op == "range" and (dom.args[0].op == "num" and dom.args[0].args[0] == 0):
            return True

        def iterate(start):
            s = start.copy()
            saved, fr.exits = fr.exits, []
            ev0, un0 = len(self.events), len(self.unknowns)
            if guard is not TRUE:
                s.pc = s.pc + (guard,)
            self.assign(target, self.unbox(elem, s), s)
            try:
                alive = self.exec_block(body, s)
            except Diverge:
                alive = False
            ex, fr.exits = fr.exits, saved
            conts = [e for e in ex if e.kind == "cont"]
            if conts:
                pc0 = start.pc
                tmp = start.copy()
                self._rejoin(s if alive else None, conts, tmp, pc0)
                s, alive = tmp, True
            return s, alive, [e for e in ex if e.kind != "cont"]

        # discover carried keys
        carried = {}
        start = st.copy()
        tnames = {x.id for x in ast.walk(target) if isinstance(x, ast.Name)}
        for rnd in range(4):
            evn = len(self.events)
            unn = len(self.unknowns)
            s, alive, ex = iterate(start)
            after = [s] if alive else []
            after += [e.state for e in ex if e.kind == "brk"]
            if not alive and not ex:
                return False
            newk = {}
            for a in after:
                for n, v in a.env.get(fr.fid, {}).items():
                    if start.env.get(fr.fid, {}).get(n) is not v and n not in tnames:
                        newk[("v", n)] = start.env.get(fr.fid, {}).get(n, UNDEF)
                for k, v in a.heap.items():
                    if start.heap.get(k) is not v:
                        if k[0] == "c" and k[1].op == "ref" and k not in start.heap:
                            continue  # allocated inside the body
                        if k[0] == "a" and k[1].op == "obj" and k not in start.heap and ("fresh", k[1]) not in start.heap:
                            continue
                        newk[k] = start.heap.get(k)
            add_ = {k: v for k, v in newk.items() if k not in carried}
            if rnd > 0 and not add_:
                break
            del self.events[evn:]
            del self.unknowns[unn:]
            for k in add_:
                init = newk[k]
                carried[k] = (init, mk("carry", self.new()))
            start = st.copy()
            for k, (init, cy) in carried.items():
                cc = self.carry_value(k, init, cy)
                if k[0] == "v":
                    if init is not UNDEF:
                        start.env[fr.fid][k[1]] = cc
                else:
                    start.heap[k] = cc
        brk = [e for e in ex if e.kind == "brk"]
        out_ex = [e for e in ex if e.kind in ("ret", "raise")]
        res = st.copy()
        fresh = self.fresh_keys(carried, s if alive else None, bv, elem, dom, st)
        # exits inside the loop happen when some iteration satisfies the guard
        for e in out_ex:
            g = subst(e.guard, fresh)
            base = set(st.pc[fr.pcbase:])
            rel = band(*[x for x in (g.args if g.op == "and" else (g,)) if x not in base])
            if any(contains(rel, cy) for _, cy in carried.values()):
                rel = self.unk("loop exit depends on carried state")
                eg = rel
            else:
                eg = self.exists(bv, dom, rel)
            v = e.value
            if contains(v, bv) or any(contains(v, cy) for _, cy in carried.values()):
                v = mk("pick", *close(bv, dom, rel, v)) if not v.unk and v.op != "exc" else v
            s2 = e.state.copy()
            for k, (init, cy) in carried.items():
                self._setkey(s2, fr, k, self.unk("state at loop exit") if True else init, init)
            fr.exits.append(Exit(band(band(*st.pc[fr.pcbase:]), eg), e.kind, v, s2, e.node, e.fi))
            if e.kind == "ret":
                res.pc = res.pc + (bnot(eg),)
        if brk:
            for k, (init, cy) in carried.items():
                val = self.break_summary(k, init, cy, s if alive else None, brk, bv, dom, fr, st)
                self._setkey(res, fr, k, val, init)
        elif alive:
            for k, (init, cy) in carried.items():
                new = s.env.get(fr.fid, {}).get(k[1], UNDEF) if k[0] == "v" else s.heap.get(k)
                if new is not None and k[0] == "c" and new.op != "arr":
                    new = self.box(new, s.heap, st.heap)
                if fresh and new is not None and new is not UNDEF:
                    new = subst(new, fresh)
                val = self.generalise(k, init, cy, new, bv, dom, guard, {c for _, c in carried.values()})
                if k[0] == "v" and init is UNDEF and (val is None or val.op == "undef"):
                    continue
                self._setkey(res, fr, k, val, init)
            # objects allocated in the body may be referenced from map entries: keep their contents (generic instance)
            for k, v in s.heap.items():
                if k not in res.heap:
                    res.heap[k] = v
        else:
            for k, (init, cy) in carried.items():
                self._setkey(res, fr, k, self.unk("loop body always exits"), init)
        st.become(res)
        for n in tnames:
            st.env.setdefault(fr.fid, {})[n] = mk("last", *close(bv, dom, elem)) if alive else self.unk("loop var")
        return True

    def fresh_keys(self, carried, s, bv, elem, dom, st):
        """a dictionary written only at the loop element, which differs in every iteration: what an iteration finds there is what the loop started with"""
        out = {}
        if s is None or elem is not bv or dom.op != "range":
            return out
        for k, (init, cy) in carried.items():
            new = s.heap.get(k) if k[0] == "c" else None
            if new is None or init is None or init.op != "dict":
                continue

            def own(t):
                if t.op == "ite":
                    return own(t.args[1]) and own(t.args[2])
                return t.op == "dict" and t.args[0].op in ("opq", "copq") and t.args[0].args[0] is cy and all(x.op == "de" and x.args[1] is bv for x in t.args[1:])
            if own(new):
                from . import models as M
                v, p = M.dict_get(self, init, bv, st)
                out[mk("in", bv, mk("keys", cy))] = p
                if v is not None:
                    out[mk("item", cy, bv)] = v
        return out

    def break_summary(self, k, init, cy, s, brk, bv, dom, fr, st):
        return self.unk("loop with break")

    def exists(self, bv, dom, g):
        if g is TRUE and dom.op == "range":
            return bnot(eq0(dom.args[0])) if not prove_pos(dom.args[0]) else TRUE
        if not contains(g, bv) and g is not TRUE:
            return band(g, mk("exists", *close(bv, dom, TRUE)))
        if g is FALSE:
            return FALSE
        if g.op == "and":
            inn = [x for x in g.args if contains(x, bv)]
            out = [x for x in g.args if not contains(x, bv)]
            if out:
                return band(*out, self.exists(bv, dom, band(*inn)))
        if dom.op == "range":
            sol = self.solve_gate(g, bv, dom)
            if sol is not None:
                return sol[1]
        return mk("exists", *close(bv, dom, g))

    def _setkey(self, st, fr, k, val, init):
        if k[0] == "v":
            st.env.setdefault(fr.fid, {})[k[1]] = val
        elif val is not None:
            st.heap[k] = val

    def carry_value(self, k, init, cy):
        """generic loop-entry value of a carried location, keeping its kind"""
        if k[0] == "c":
            c = init
            if c is not None and c.op == "arr":
                return mk("arr", c.args[0], mk("cat", cy, tuple(mk("ax", i, s) for i, s in enumerate(c.args[0]))))
            if c is not None and c.op in ("list", "set"):
                return mk(c.op, mk("base", cy))
            if c is not None and c.op == "dict":
                return mk("dict", mk("opq", cy))
            if c is None or c.op == "opq":
                return mk("dict", mk("copq", cy, k[1]))
            return cy
        return cy

    def generalise(self, k, init, cy, new, bv, dom, guard, allcy):
        if new is None:
            return init
        cv = self.carry_value(k, init, cy)
        if new is cv:
            return init
        others = [c for c in allcy if c is not cy]

        def tainted(t):
            return any(contains(t, c) for c in allcy)

        if guard is not TRUE and (init is not None and init is not UNDEF):
            # iterations for which the guard fails leave the location as it was
            if k[0] != "c" and is_numeric(new) and is_numeric(init):
                d = sub(new, cy)
                if not tainted(d):
                    return add(init, bigsum(bv, dom, guard, d))
            new = ite(guard, new, cv)
        if k[0] == "c":
            if new.op == "ite":
                # guarded update: try per-arm
                c, a, b = new.args
                if not tainted(c):
                    r = self.generalise_guarded(k, init, cy, new, bv, dom, allcy)
                    if r is not None:
                        return r
                return self.unk("loop container")
            return self.gen_container(k, init, cy, new, bv, dom, allcy)
        # scalar
        if init is UNDEF or init is None:
            if not tainted(new) and UNDEF not in (new,):
                return mk("last", *close(bv, dom, new)) if contains(new, bv) else new
            return self.unk("loop-local")
        if isbool(new) or new.op == "ite" or True:
            # flag set under a gate: new = g ? const : carry
            r = self.flag(init, cy, new, bv, dom, allcy)
            if r is not None:
                return r
        if is_numeric(new) and (new.op in ("rat",) or new.op == "ite"):
            d = sub(new, cy)
            if not tainted(d):
                return add(init, bigsum(bv, dom, TRUE, d))
        if not tainted(new):
            if not contains(new, bv):
                return new
            return mk("last", *close(bv, dom, new))
        # list concatenation by +: handled as opaque
        return self.unk("loop-carried scalar")

    def flag(self, init, cy, new, bv, dom, allcy):
        """new == ite(g, v, carry) (any nesting) with v loop-invariant"""
        conds = []

        def walk(t, g):
            if t is cy:
                return True
            if t.op == "ite" and not any(contains(t.args[0], c) for c in allcy):
                return walk(t.args[1], band(g, t.args[0])) and walk(t.args[2], band(g, bnot(t.args[0])))
            if t.op == "or" and cy in t.args:
                rest = bor(*[x for x in t.args if x is not cy])
                if not any(contains(rest, c) for c in allcy):
                    conds.append((band(g, rest), TRUE))
                    return True
            if t.op == "and" and cy in t.args:
                rest = band(*[x for x in t.args if x is not cy])
                if not any(contains(rest, c) for c in allcy):
                    conds.append((band(g, bnot(rest)), FALSE))
                    return True
            if any(contains(t, c) for c in allcy) or contains(t, bv):
                return False
            conds.append((g, t))
            return True
        if not walk(new, TRUE) or not conds:
            return None
        vals = {v for _, v in conds}
        if len(vals) != 1:
            return None
        v = vals.pop()
        g = bor(*[c for c, _ in conds])
        return ite(self.exists(bv, dom, g), v, init)

    def generalise_guarded(self, k, init, cy, new, bv, dom, allcy):
        def guarded_segs(t, g):
            """collect appended segments per arm; None if not append-like"""
            if t.op == "ite":
                if any(contains(t.args[0], c) for c in allcy):
                    return None
                a = guarded_segs(t.args[1], band(g, t.args[0]))
                b = guarded_segs(t.args[2], band(g, bnot(t.args[0])))
                return None if a is None or b is None else a + b
            if t.op in ("list", "set") and t.args and t.args[0].op == "base" and t.args[0].args[0] is cy:
                return [(g, x) for x in t.args[1:]]
            if t.op == "dict" and t.args[0].op in ("opq", "copq") and t.args[0].args[0] is cy:
                return [(g, x) for x in t.args[1:]]
            return None
        segs = guarded_segs(new, TRUE)
        if segs is not None:
            flat = []
            for g, x in segs:
                if x.op == "el":
                    flat.append(mk("el", band(g, x.args[0]), x.args[1]))
                elif x.op == "de":
                    flat.append(mk("de", band(g, x.args[0]), x.args[1], x.args[2]))
                else:
                    return None
            kind = init.op if init is not None and init.op in ("list", "set", "dict") else "dict"
            head = mk("base", cy) if kind in ("list", "set") else mk("opq", cy)
            return self.gen_container(k, init, cy, mk(kind, head, *flat), bv, dom, allcy)
        # arrays: push gate into body
        if init is not None and init.op == "arr":
            def bodyof(t):
                if t.op == "ite":
                    a, b = bodyof(t.args[1]), bodyof(t.args[2])
                    return None if a is None or b is None else ite(t.args[0], a, b)
                if t.op == "arr" and t.args[0] == init.args[0]:
                    return t.args[1]
                return None
            b = bodyof(new)
            if b is not None:
                return self.gen_container(k, init, cy, mk("arr", init.args[0], b), bv, dom, allcy)
        return None

    def gen_container(self, k, init, cy, new, bv, dom, allcy):
        def tainted(t):
            return any(contains(t, c) for c in allcy)
        if new.op in ("list", "set") and new.args and new.args[0].op == "base" and new.args[0].args[0] is cy:
            segs = []
            for x in new.args[1:]:
                if tainted(x) or x.op != "el":
                    return self.unk("loop list")
                segs.append(x)
            old = init.args if init.op in ("list", "set") else (mk("base", init),)
            if len(segs) == 1:
                g, v = segs[0].args
                return mk(new.op, *old, self.mkseg(bv, dom, g, v))
            # several appends per iteration: keep as multi segment
            out = list(old)
            for x in segs:
                g, v = x.args
                out.append(self.mkseg(bv, dom, g, v))
            return mk(new.op, *out) if len(segs) <= 1 else mk(new.op, *out)
        if new.op == "dict" and new.args[0].op in ("opq", "copq") and new.args[0].args[0] is cy:
            ents = []
            for x in new.args[1:]:
                if x.op != "de":
                    return self.unk("loop dict")
                g, kk, v = x.args
                # accumulation  d[k] += e   (read of the carried dict at the same key)
                if tainted(v):
                    prev = mk("item", cy, kk)
                    e = sub(v, prev) if is_numeric(v) else None
                    if e is None or tainted(e):
                        return self.unk("loop dict value")
                    ents.append(mk("dacc", *close(bv, dom, g, kk, e)))
                    continue
                if tainted(g) or tainted(kk):
                    return self.unk("loop dict key")
                ents.append(mk("dm", *close(bv, dom, g, kk, v)))
            if init is None or init.op == "opq":
                return mk("dict", init if init is not None else mk("opq", k[1]), *ents)
            if init.op == "dict":
                return mk("dict", *init.args, *ents)
            return self.unk("loop dict init")
        if new.op == "arr" and init.op == "arr":
            axs = tuple(mk("ax", i, s) for i, s in enumerate(init.args[0]))
            cat = mk("cat", cy, axs)
            body = new.args[1]
            ib = init.args[1]
            return self.gen_arr(cat, cy, body, ib, init.args[0], bv, dom, allcy)
        return self.unk("loop container " + new.op)

    def gen_arr(self, cat, cy, body, ib, shape, bv, dom, allcy):
        """array updated once per iteration: body = gate(bv, axes) ? value : old"""
        if body.op == "ite":
            c, a, b = body.args
            if b is cat and not any(contains(c, x) for x in allcy):
                d = sub(a, cat) if is_numeric(a) else None
                if not any(contains(a, x) for x in allcy):
                    sol = self.solve_gate(c, bv, dom)
                    if sol is not None:
                        val, g = sol
                        return mk("arr", shape, ite(g, subst(a, {bv: val}), ib))
                    if not contains(a, bv):
                        return mk("arr", shape, ite(self.range_gate(c, bv, dom), a, ib))
                elif d is not None and not any(contains(d, x) for x in allcy):
                    sol = self.solve_gate(c, bv, dom)
                    if sol is not None:
                        val, g = sol
                        return mk("arr", shape, add(ib, ite(g, subst(d, {bv: val}), ZERO)))
                    return mk("arr", shape, add(ib, bigsum(bv, dom, c, d)))
            if a is cat:
                return self.gen_arr(cat, cy, ite(bnot(c), b, a) if c.op != "not" else body, ib, shape, bv, dom, allcy) if False else self.unk("array loop gate")
        if is_numeric(body):
            d = sub(body, cat)
            if not any(contains(d, x) for x in allcy):
                return mk("arr", shape, add(ib, bigsum(bv, dom, TRUE, d)))
        # several writes per iteration: an element keeps the value of the last iteration that writes it
        w = self.write_gate(body, cat, allcy)
        if w is not None and not any(contains(w, x) for x in allcy):
            val = self.written(body, cat)
            cs = [self.conjuncts(g) for g in self.write_conds(body, cat)]
            common = [x for x in cs[0] if all(x in o for o in cs[1:])] if cs else []
            for x in common:
                sol = self.solve_gate(x, bv, dom)
                if sol is not None:
                    v0, g = sol
                    m = {bv: v0}
                    return mk("arr", shape, ite(band(g, subst(w, m)), subst(val, m), ib))
            return mk("arr", shape, ite(mk("exists", *close(bv, dom, w)), mk("pick", *close(bv, dom, w, val)), ib))
        return self.unk("array loop")

    @staticmethod
    def conjuncts(c):
        return list(c.args) if c.op == "and" else [c]

    def write_conds(self, t, cat, g=TRUE):
        if t is cat:
            return []
        if t.op == "ite" and contains(t, cat):
            return self.write_conds(t.args[1], cat, band(g, t.args[0])) + self.write_conds(t.args[2], cat, band(g, bnot(t.args[0])))
        return [g]

    def write_gate(self, t, cat, allcy):
        """condition under which this iteration writes the element (None: not understood)"""
        if t is cat:
            return FALSE
        if t.op == "ite" and contains(t, cat):
            a, b = self.write_gate(t.args[1], cat, allcy), self.write_gate(t.args[2], cat, allcy)
            return None if a is None or b is None else ite(t.args[0], a, b)
        return None if any(contains(t, x) for x in allcy) else TRUE

    def written(self, t, cat):
        if t.op == "ite" and contains(t, cat):
            if t.args[1] is cat:
                return self.written(t.args[2], cat)
            if t.args[2] is cat:
                return self.written(t.args[1], cat)
            return ite(t.args[0], self.written(t.args[1], cat), self.written(t.args[2], cat))
        return t


    def solve_gate(self, c, bv, dom):
        """gate containing  bv + e == 0  -> (value of bv, remaining gate with range condition)"""
        cs = list(c.args) if c.op == "and" else [c]
        for i, x in enumerate(cs):
            if x.op != "eq0":
                continue
            n, d = rat(x.args[0])
            key = ((bv, tm.Fr(1)),)
            if n.get(key) in (1, -1) and not any(bv in dict(m) for m in n if m != key):
                k = n[key]
                val = mk_rat({m: -cc / k for m, cc in n.items() if m != key}, d) if len(n) > 1 else ZERO
                if contains(val, bv):
                    continue
                rest = [subst(y, {bv: val}) for j, y in enumerate(cs) if j != i]
                if dom.op == "range":
                    rest += [bnot(lt0(val)), lt(val, dom.args[0])]
                else:
                    rest.append(mk("in", val, dom))
                return val, band(*rest)
        return None

    def range_gate(self, c, bv, dom):
        """exists bv in [0,N): a*bv + lo <= f < a*bv + hi   as a residue test on f"""
        cs = list(c.args) if c.op == "and" else [c]
        lo = hi = None
        if len(cs) == 2 and dom.op == "range":
            for x in cs:
                negd = x.op == "not"
                y = x.args[0] if negd else x
                if y.op != "lt0":
                    break
                n, d = rat(y.args[0])
                ks = {m: cc for m, cc in n.items() if bv in dict(m)}
                if not ks:
                    break
                if negd:  # p >= 0
                    lo = y.args[0]
                else:
                    hi = y.args[0]
            if lo is not None and hi is not None:
                fs = [a for a in find_all(lo, lambda t: t.op == "ax")]
                if len(fs) == 1:
                    f = fs[0]
                    L = sub(f, lo)          # a*bv + l0
                    H = sub(f, hi)          # a*bv + h0
                    l0 = subst(L, {bv: ZERO})
                    a = sub(subst(L, {bv: ONE}), l0)
                    h0 = subst(H, {bv: ZERO})
                    if sub(sub(subst(H, {bv: ONE}), h0), a) is ZERO:
                        # f in [a v + l0, a v + h0), v in [0,N)
                        w = sub(h0, l0)
                        r = imod(sub(f, l0), a) if prove_nonneg(sub(f, l0)) else imod(add(sub(f, l0), a), a)
                        N = dom.args[0]
                        g = lt(r, w)
                        # lower/upper end of the covered range
                        first = bnot(lt0(sub(f, l0)))
                        last = lt(f, add(mul(a, sub(N, ONE)), h0))
                        return band(g, first, last)
        return mk("exists", *close(bv, dom, c))

    def mkseg(self, bv, dom, g, v):
        return mk("mseg", *close(bv, dom, g, v))

    # ------------------------------------------------------------ variables and attributes
    def mname(self, name):
        fr = self.frames[-1]
        cls = fr.cls
        f = fr
        while cls is None and f.parent is not None:
            pf = next((x for x in self.frames if x.fid == f.parent), None)
            if pf is None:
                break
            f, cls = pf, pf.cls
        return mangle(name, cls.name if cls else None)

    def setvar(self, st, name, v):
        st.env.setdefault(self.frames[-1].fid, {})[name] = v

    def getvar(self, st, name, node=None):
        fr = self.frames[-1]
        e = st.env.get(fr.fid, {})
        if name in e:
            return e[name]
        p = fr.parent
        while p is not None:
            e = st.env.get(p, {})
            if name in e:
                return e[name]
            pf = next((x for x in self.frames if x.fid == p), None)
            p = pf.parent if pf else None
        if fr.fi is not None:
            r = self.src.resolve(fr.fi.mod.name, name)
            if r:
                return self.resolved(r, st)
        return mk("ext", "builtins." + name)

    def resolved(self, r, st):
        k, p = r
        if k == "func":
            return self.mkfn(p)
        if k == "class":
            return mk("cls", p.qual)
        if k == "pkg":
            return mk("module", p)
        if k == "ext":
            return mk("ext", p)
        if k == "assign":
            m, expr = p
            key = ("glob", m.name, id(expr))
            v = self.globcache.get(key)
            if v is not None and (v.op != "ref" or ("c", v) in st.heap):
                return v
            fi = type("F", (), {})()
            fi.qual, fi.mod, fi.file, fi.cls, fi.name, fi.node = m.name, m, m.file, None, m.name, None
            fr = Frame(self.new(), fi, None, len(st.pc))
            self.frames.append(fr)
            st.env[fr.fid] = {}
            try:
                v = self.eval(expr, st)
            finally:
                self.frames.pop()
                st.env.pop(fr.fid, None)
            self.globcache[key] = v
            return v
        return self.unk("resolve")

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            self.setvar(st, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st), self.mname(t.attr), v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.evalslice(t.slice, st)
            self.setitem(o, i, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                for x in t.elts:
                    self.assign(x.value if isinstance(x, ast.Starred) else x, self.unk("starred"), st)
                return
            vs = self.models.unpack(self, v, len(t.elts), st, t)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def clsof(self, o):
        if o.op == "obj":
            return self.objcls.get(o)
        if o in self.objcls:
            return self.objcls[o]
        if o.op == "attr":
            n = self.typemap.get(o.args[1])
            if n:
                return self.src.cls(n)
        if o.op == "sym":
            n = self.typemap.get("sym:" + o.args[0])
            if n:
                return self.src.cls(n)
        return None

    def setattr(self, o, name, v, st, guard=TRUE):
        if o.op == "ite":
            self.setattr(o.args[1], name, v, st, band(guard, o.args[0]))
            self.setattr(o.args[2], name, v, st, band(guard, bnot(o.args[0])))
            return
        if o.op in ("obj", "attr", "sym", "item", "at", "call", "cls", "module") or o.op in OPAQUE:
            k = ("a", o, name)
            c = self.clsof(o)
            if guard is not TRUE:
                v = ite(guard, v, self.getattr(o, name, st))
            st.heap[k] = v
            self.event(st, "setattr", o, name, v)
        elif o.op == "unk":
            pass
        else:
            self.unk("setattr on " + o.op)

    def getattr(self, o, name, st, node=None):
        if o.op == "ite":
            c = self.decide(o.args[0], st)
            if c is TRUE:
                return self.getattr(o.args[1], name, st, node)
            if c is FALSE:
                return self.getattr(o.args[2], name, st, node)
            return ite(c, self.getattr(o.args[1], name, st, node), self.getattr(o.args[2], name, st, node))
        k = ("a", o, name)
        if k in st.heap:
            v = st.heap[k]
            if v is not UNDEF:
                return v
        if o.op == "module":
            r = self.src.resolve(o.args[0], name)
            return self.resolved(r, st) if r else self.unk(f"{o.args[0]}.{name}", node)
        if o.op == "ext":
            return self.models.ext_attr(self, o, name, st)
        if o.op == "cls":
            c = self.src.classes[o.args[0]]
            a = self.src.find_attr(c, name)
            if a is None:
                return self.unk(f"class attr {name}", node)
            if a[0] == "method":
                return self.mkfn(a[1])
            return self.class_attr(a[1], st)
        c = self.clsof(o)
        if c is not None:
            a = self.src.find_attr(c, name)
            if a is not None:
                if a[0] == "method":
                    m = a[1]
                    if m.kind == "property":
                        r = self.contract_prop(c, m, o, st)
                        if r is not None:
                            return r
                        return self.call_func(m, [o], {}, st, node, selfv=o, cls=c)
                    if m.kind == "static":
                        return self.mkfn(m)
                    return mk("bm", o, self.mkfn(m))
                if o.op == "obj" or not self.assigned_attr(c, name):
                    return self.class_attr(a[1], st)
            if o.op == "obj" and ("fresh", o) in st.heap:
                if name == "__dict__":
                    return mk("vars", o)
                if name == "__class__":
                    return mk("cls", c.qual)
                self.raise_(st, "AttributeError", string(name), node)
                raise Diverge()
            return mk("attr", o, name)
        if o.op in ("attr", "item", "sym", "at", "call", "undef", "vars") or o.op in OPAQUE:
            r = self.models.opaque_attr(self, o, name, st)
            return r if r is not None else mk("attr", o, name)
        r = self.models.value_attr(self, o, name, st, node)
        if r is not None:
            return r
        return self.unk(f"attribute {name} of {o.op}", node)

    def contract_prop(self, c, m, o, st):
        for k in self.src.mro(c):
            f = self.contracts.get((k.name, m.name))
            if f is not None:
                return f(self, o, {}, st)
        return None

    def class_attr(self, a, st):
        k, expr = a
        return self.resolved(("assign", (_ClsScope(self.src, k), expr)), st) if False else self._cls_eval(k, expr, st)

    def _cls_eval(self, k, expr, st):
        key = ("clsattr", k.qual, id(expr))
        v = self.globcache.get(key)
        if v is not None and (v.op != "ref" or ("c", v) in st.heap):
            return v
        fi = type("F", (), {})()
        fi.qual, fi.mod, fi.file, fi.cls, fi.name, fi.node = k.qual, k.mod, k.file, None, k.name, None
        fr = Frame(self.new(), fi, k, len(st.pc))
        self.frames.append(fr)
        env = {}
        st.env[fr.fid] = env
        try:
            # class scope: names may refer to earlier class attributes
            for x in ast.walk(expr):
                if isinstance(x, ast.Name) and x.id in k.attrs and k.attrs[x.id] is not expr:
                    env[x.id] = self._cls_eval(k, k.attrs[x.id], st)
                    st.env[fr.fid] = env
            v = self.eval(expr, st)
        finally:
            self.frames.pop()
            st.env.pop(fr.fid, None)
        self.globcache[key] = v
        return v

    def assigned_attr(self, c, name):
        key = ("assigned", c.qual)
        s = self.globcache.get(key)
        if s is None:
            s = set()
            for k in self.src.mro(c):
                for n in ast.walk(k.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        s.add(mangle(n.attr, k.name))
            self.globcache[key] = s
        return name in s

    # ------------------------------------------------------------ expressions
    def eval(self, e, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.unk("expression " + type(e).__name__, e)
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return boolc(v)
        if isinstance(v, (int, float)):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return mk("ellipsis")
        return self.unk("constant", e)

    def e_Name(self, e, st):
        v = self.getvar(st, e.id, e)
        if v is UNDEF:
            return self.unk("maybe undefined " + e.id, e)
        return v

    def e_Attribute(self, e, st):
        return self.getattr(self.eval(e.value, st), self.mname(e.attr), st, e)

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            vs = self._elts(e, st)
            return mk("tup", *vs) if vs is not None else self.unk("starred", e)
        return mk("tup", *[self.eval(x, st) for x in e.elts])

    def _elts(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                vs = self.models.explicit(self, self.eval(x.value, st), st)
                if vs is None:
                    return None
                out.extend(vs)
            else:
                out.append(self.eval(x, st))
        return out

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            segs = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    c = self.models.aslist(self, self.eval(x.value, st), st)
                    if c is None:
                        return self.unk("starred", e)
                    segs.extend(c.args)
                else:
                    segs.append(mk("el", TRUE, self.eval(x, st)))
            return self.alloc(st, mk("list", *segs))
        return self.newlist(st, [self.eval(x, st) for x in e.elts])

    def e_Set(self, e, st):
        return self.newset(st, [self.eval(x, st) for x in e.elts])

    def e_Dict(self, e, st):
        r = self.newdict(st, [])
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, st)
                self.models.dict_update(self, r, o, st)
            else:
                kk = self.eval(k, st)
                vv = self.eval(v, st)
                self.setitem(r, kk, vv, st, e)
        return r

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(string(x.value))
            else:
                v = self.eval(x.value, st)
                if x.format_spec is not None:
                    parts.append(mk("fmtspec", v, ast.unparse(x.format_spec)))
                else:
                    parts.append(v)
        return self.models.fmt(parts)

    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        return self.binop(type(e.op).__name__, a, b, st, e)

    def e_UnaryOp(self, e, st):
        v = self.eval(e.operand, st)
        o = type(e.op).__name__
        if o == "Not":
            return bnot(self.decide(self.truth(v, st), st))
        if o == "USub":
            return self.models.elementwise1(self, neg, v, st)
        if o == "UAdd":
            return v
        if o == "Invert":
            return self.models.elementwise1(self, lambda x: bnot(x) if isbool(x) else mk("invert", x), v, st)
        return self.unk("unary", e)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)

        def go(i, st):
            v = self.eval(e.values[i], st)
            if i == len(e.values) - 1:
                return v
            c = self.decide(self.truth(v, st), st)
            if c is TRUE:
                return go(i + 1, st) if isand else v
            if c is FALSE:
                return v if isand else go(i + 1, st)
            box = {}
            s1 = st.copy()
            s1.pc = st.pc + ((c,) if isand else (bnot(c),))
            s2 = st.copy()
            pc = st.pc
            try:
                box["v"] = go(i + 1, s1)
            except Diverge:
                st.pc = st.pc + ((bnot(c),) if isand else (c,))
                return v
            m = self.merge(c if isand else bnot(c), s1, s2)
            m.pc = pc
            st.become(m)
            if isbool(v) and isbool(box["v"]):
                return band(v, box["v"]) if isand else bor(v, box["v"])
            return ite(c, box["v"], v) if isand else ite(c, v, box["v"])
        return go(0, st)

    def e_IfExp(self, e, st):
        c = self.decide(self.truth(self.eval(e.test, st), st), st)
        if c is TRUE:
            return self.eval(e.body, st)
        if c is FALSE:
            return self.eval(e.orelse, st)
        out = {}

        def f(key, node):
            def g(x):
                try:
                    out[key] = self.eval(node, x)
                    return True
                except Diverge:
                    return False
            return g
        ok = self.branch(c, f(1, e.body), f(2, e.orelse), st)
        if not ok:
            raise Diverge()
        if 1 in out and 2 in out:
            return self.phi(c, out[1], out[2])
        return out.get(1) or out.get(2)

    def e_Compare(self, e, st):
        l = self.eval(e.left, st)
        res = TRUE
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, st)
            res2 = self.compare(type(op).__name__, l, rv, st, e)
            if res is TRUE:
                res = res2
            elif isbool(res) and isbool(res2):
                res = band(res, res2)
            else:
                res = self.unk("chained compare", e)
            l = rv
        return res

    def compare(self, op, a, b, st, node=None):
        return self.models.compare(self, op, a, b, st, node)

    def binop(self, op, a, b, st, node=None):
        return self.models.binop(self, op, a, b, st, node)

    def e_Subscript(self, e, st):
        o = self.eval(e.value, st)
        i = self.evalslice(e.slice, st)
        return self.getitem(o, i, st, e)

    def evalslice(self, s, st):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.eval(x, st)
            return mk("slice", f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return mk("tup", *[self.evalslice(x, st) for x in s.elts])
        return self.eval(s, st)

    e_Slice = lambda self, e, st: self.evalslice(e, st)

    def getitem(self, o, i, st, node=None):
        return self.models.getitem(self, o, i, st, node)

    def setitem(self, o, i, v, st, node=None):
        self.event(st, "setitem", o, i, v, node=node)
        return self.models.setitem(self, o, i, v, st, node)

    def e_Starred(self, e, st):
        return self.eval(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.eval(e.value, st)
        self.assign(e.target, v, st)
        return v

    def e_Lambda(self, e, st):
        fr = self.frames[-1]
        from .src import Func
        fi = Func()
        fi.name, fi.node, fi.mod, fi.cls, fi.file = "<lambda>", e, fr.fi.mod, None, fr.fi.file
        fi.qual, fi.kind, fi.cached, fi.closure, fi.decorators = fr.fi.qual + ".<lambda>", "func", False, True, []
        return self.mkfn(fi, fr.fid)

    def e_ListComp(self, e, st):
        r = self.newlist(st, [])
        self.comp(e.generators, 0, lambda s: self.models.list_append(self, r, self.eval(e.elt, s), s), st, e)
        return r

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st)

    def e_SetComp(self, e, st):
        r = self.newset(st, [])
        self.comp(e.generators, 0, lambda s: self.models.list_append(self, r, self.eval(e.elt, s), s), st, e)
        return r

    def e_DictComp(self, e, st):
        r = self.newdict(st, [])

        def f(s):
            k = self.eval(e.key, s)
            self.setitem(r, k, self.eval(e.value, s), s, e)
        self.comp(e.generators, 0, f, st, e)
        return r

    def comp(self, gens, i, leaf, st, node):
        """comprehension = nested loops; variables get their own scope"""
        if i == 0:
            fr = self.frames[-1]
            saved = {}
            names = [x.id for g in gens for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            for n in names:
                saved[n] = st.env.get(fr.fid, {}).get(n)
        g = gens[i]
        it = self.eval(g.iter, st)
        body = [_CompBody(g.ifs, gens, i, leaf)]
        self.loop(g.target, it, body, st, node)
        if i == 0:
            for n, v in saved.items():
                if v is None:
                    st.env.get(fr.fid, {}).pop(n, None)
                else:
                    st.env[fr.fid][n] = v

    def x__CompBody(self, b, st):
        def rest(s):
            if b.i + 1 < len(b.gens):
                self.comp_inner(b, s)
            else:
                b.leaf(s)
            return True

        def conds(k, s):
            if k == len(b.ifs):
                return rest(s)
            c = self.decide(self.truth(self.eval(b.ifs[k], s), s), s)
            if c is TRUE:
                return conds(k + 1, s)
            if c is FALSE:
                return True
            return self.branch(c, lambda x: conds(k + 1, x), lambda x: True, s)
        return conds(0, st)

    def comp_inner(self, b, st):
        g = b.gens[b.i + 1]
        it = self.eval(g.iter, st)
        self.loop(g.target, it, [_CompBody(g.ifs, b.gens, b.i + 1, b.leaf)], st, None)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st):
        f = e.func
        # super().method(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
            return self.super_call(e, f, st)
        fv = self.eval(f, st)
        args, kwargs = self.eval_args(e, st)
        return self.apply(fv, args, kwargs, st, e)

    def eval_args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                vs = self.models.explicit(self, v, st)
                if vs is None:
                    args.append(mk("star", v))
                else:
                    args.extend(vs)
            else:
                args.append(self.eval(a, st))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, st)
                c = self.content(d, st)
                ok = False
                if c.op == "dict" and c.args[0] is NONE:
                    ok = True
                    for x in c.args[1:]:
                        if x.op == "de" and x.args[0] is TRUE and x.args[1].op == "str":
                            kwargs[x.args[1].args[0]] = x.args[2]
                        else:
                            ok = False
                if not ok:
                    kwargs["**"] = d
            else:
                kwargs[k.arg] = self.eval(k.value, st)
        return args, kwargs

    def super_call(self, e, f, st):
        fr = self.frames[-1]
        selfv = fr.selfv
        c = self.clsof(selfv) if selfv is not None else None
        args, kwargs = self.eval_args(e, st)
        if c is None:
            return self.unk("super", e)
        mro = self.src.mro(c)
        if fr.cls in mro:
            mro = mro[mro.index(fr.cls) + 1:]
        # Base classes listed later in this package's MRO (cooperative order)
        for k in mro:
            if f.attr in k.methods:
                m = k.methods[f.attr]
                return self.call_func(m, [selfv] + args, kwargs, st, e, selfv=selfv, cls=c)
        return NONE

    def apply(self, fv, args, kwargs, st, node=None):
        op = fv.op
        if op == "ite":
            c = self.decide(fv.args[0], st)
            if c is TRUE:
                return self.apply(fv.args[1], args, kwargs, st, node)
            if c is FALSE:
                return self.apply(fv.args[2], args, kwargs, st, node)
            out = {}

            def f(k, g):
                def h(x):
                    try:
                        out[k] = self.apply(g, args, kwargs, x, node)
                        return True
                    except Diverge:
                        return False
                return h
            if not self.branch(c, f(1, fv.args[1]), f(2, fv.args[2]), st):
                raise Diverge()
            if 1 in out and 2 in out:
                return self.phi(c, out[1], out[2])
            return out.get(1) or out.get(2)
        if op == "fn":
            fi, closure = self.funcs[fv]
            if fi.decorators and not all(any(p in d for p in PURE_DECOR) for d in fi.decorators):
                self.unk("decorator " + ",".join(fi.decorators), node)
            if fi.cls is not None and args and self.clsof(args[0]) is not None and fi.kind == "func":
                return self.call_func(fi, args, kwargs, st, node, selfv=args[0], cls=self.clsof(args[0]))
            return self.call_func(fi, args, kwargs, st, node, closure=closure)
        if op == "bm":
            o, fn = fv.args
            fi, closure = self.funcs[fn]
            return self.call_func(fi, [o] + list(args), kwargs, st, node, selfv=o, cls=self.clsof(o) if o.op != "cls" else None)
        if op == "cls":
            return self.instantiate(self.src.classes[fv.args[0]], args, kwargs, st, node)
        if op == "ext":
            return self.models.call_ext(self, fv.args[0], args, kwargs, st, node)
        if op == "meth":
            return self.models.call_method(self, fv.args[0], fv.args[1], args, kwargs, st, node)
        if op == "attr":
            return self.models.call_method(self, fv.args[0], fv.args[1], args, kwargs, st, node)
        if op == "partial":
            return self.apply(fv.args[0], list(fv.args[1]) + list(args), dict(fv.args[2]) | kwargs, st, node)
        if op == "unk":
            for a in args:
                pass
            return self.unk("call of unknown", node)
        if op == "exc":
            return fv
        if op in OPAQUE or op in ("sym", "item", "call"):
            self.event(st, "opaquecall", fv, tuple(args), node=node)
            return mk("ucall", "apply", fv, tuple(args), tuple(sorted((k, v) for k, v in kwargs.items())))
        return self.unk("call of " + op, node)

    def abstract_missing(self, c):
        mro = self.src.mro(c)
        isabc = any(b.split(".")[-1] == "ABC" for b in self.src.ext_bases(c)) or any("ABCMeta" in ast.unparse(k.value) for m in mro for k in m.node.keywords)
        out = []
        seen = set()
        for k in mro:
            for n, m in k.methods.items():
                if n in seen:
                    continue
                seen.add(n)
                if any("abstract" in d for d in m.decorators):
                    out.append(n)
        return out if isabc else []

    def instantiate(self, c, args, kwargs, st, node=None):
        miss = self.abstract_missing(c)
        if miss:
            self.raise_(st, "TypeError", string(f"abstract {c.name}: {miss}"), node)
            raise Diverge()
        if any("dataclass" in ast.unparse(d) for d in c.node.decorator_list):
            return self.unk("dataclass", node)
        o = mk("obj", c.name, self.new())
        self.objcls[o] = c
        st.heap[("fresh", o)] = TRUE
        ctr = None
        for k in self.src.mro(c):
            ctr = self.contracts.get((k.name, "__new__"))
            if ctr:
                break
        if ctr:
            r = ctr(self, o, {"args": args, "kwargs": kwargs}, st)
            if r is not None:
                return r
        m = self.src.find_method(c, "__init__")
        if m is not None:
            self.call_func(m, [o] + list(args), kwargs, st, node, selfv=o, cls=c)
        return o

    # ------------------------------------------------------------ top level
    def call_method(self, obj, name, args=(), kwargs=None, st=None):
        """analyse obj.name(*args) from the top; returns value (or None when every path raises)"""
        self.raises = []
        f = self.getattr_top(obj, name, st)
        try:
            return self.apply(f, list(args), dict(kwargs or {}), st, None)
        except Diverge:
            return None

    def getattr_top(self, obj, name, st):
        c = self.clsof(obj)
        a = self.src.find_attr(c, name) if c else None
        if a and a[0] == "method":
            if a[1].kind == "property":
                fi = a[1]
                return mk("partial", self.mkfn(fi), (obj,), ())
            return mk("bm", obj, self.mkfn(a[1]))
        return self.getattr(obj, name, st)

    def freeze(self, v, st, depth=0):
        """replace references by their contents (structural value)"""
        if depth > 30:
            return self.unk("deep structure")
        memo = {}

        def fr(t, d):
            if d > 30:
                return self.unk("deep structure")
            if t.op == "box":
                return fr(t.args[0], d + 1)
            if t.op == "ref":
                if t in memo:
                    return memo[t]
                c = st.heap.get(("c", t))
                if c is None:
                    return t
                memo[t] = mk("cyclic")
                r = fr(c, d + 1)
                memo[t] = r
                return r
            if not tm_has_ref(t):
                return t
            if t.op == "rat":
                return t
            na = tuple(fa(a, d) for a in t.args)
            return tm.rebuild(t.op, na)

        def fa(a, d):
            if isinstance(a, T):
                return fr(a, d + 1)
            if isinstance(a, tuple):
                return tuple(fa(x, d) for x in a)
            return a
        return fr(v, 0)


_refmemo = {}


def tm_has_ref(t):
    r = _refmemo.get(t)
    if r is None:
        r = t.op in ("ref", "box") or any(tm_has_ref(s) for s in subterms(t.args))
        _refmemo[t] = r
    return r


class _CompBody:
    def __init__(self, ifs, gens, i, leaf):
        self.ifs, self.gens, self.i, self.leaf = ifs, gens, i, leaf
        self.lineno = 0


OPAQUE = {"opaque", "nbrs", "bnds", "tmap", "symbol", "coeffs", "Eq", "vstack", "store", "mcall", "matrix", "varpart", "dfcol", "rowslice", "append", "carry", "last", "pick", "ucall",
          "solver", "Sum", "Max", "Min", "at"}
