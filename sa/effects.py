"""Read/write/call effects of every function of the package, by class and attribute (flow-insensitive apart from
own writes that precede a read)."""
import ast
from .scan import functions, MUTATORS, Consts
from .src import mangle

INPLACE = {"fill_diagonal", "put", "copyto", "place", "putmask", "shuffle"}


class Access:
    __slots__ = ("owner", "attr", "func", "node", "value", "ctx")

    def __init__(self, owner, attr, func, node, value=None, ctx=None):
        self.owner, self.attr, self.func, self.node, self.value, self.ctx = owner, attr, func, node, value, ctx

    def __repr__(self):
        o = "|".join(sorted(c.name for c in self.owner)) if self.owner else "?"
        return f"{o}.{self.attr}"


class Effects:
    def __init__(self, src):
        self.src = src
        self.consts = Consts(src)
        self.funcs = list(functions(src))
        self.roles = {}
        for c in src.classes.values():
            if not any(src.class_expr(c.mod, b) for b in c.bases) or c.name in ("Grid", "Fluid", "Model", "Solution", "Well", "Scaler", "Compiler", "Base"):
                self.roles[c.name.lower()] = frozenset([c] + src.subclasses(c))
        self.attrtype = {}
        self._attr_types()
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
        self.writes, self.reads, self.calls = {}, {}, {}
        self.stores = {}
        for f in self.funcs:
            self._scan(f)
        self._closure = {}

    # ------------------------------------------------------------ classes of expressions
    def _attr_types(self):
        for f in self.funcs:
            if f.cls is None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Call):
                            c = self.src.class_expr(f.mod, ast.unparse(n.value.func)) if isinstance(n.value.func, (ast.Name, ast.Attribute)) else None
                            if c is not None:
                                self.attrtype.setdefault(t.attr, set()).add(c)

    def family(self, c):
        return frozenset([c] + self.src.subclasses(c))

    def role(self, name):
        if name in self.roles:
            return self.roles[name]
        if name.endswith("_scaler") or name == "scaler":
            return self.roles.get("scaler")
        return None

    def owner(self, e, f, env):
        """set of classes the expression may denote, None when unknown"""
        if isinstance(e, ast.Name):
            if e.id == "self" and f.cls is not None and f.kind != "static":
                return self.family(f.cls)
            if e.id in env:
                return env[e.id][1]
            return self.role(e.id)
        if isinstance(e, ast.Attribute):
            r = self.role(e.attr)
            if r:
                return r
            t = self.attrtype.get(e.attr)
            return frozenset(t) if t else None
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super":
                return self.family(f.cls) if f.cls else None
            c = self.src.class_expr(f.mod, ast.unparse(e.func)) if isinstance(e.func, (ast.Name, ast.Attribute)) else None
            return frozenset([c]) if c else None
        return None

    def place(self, e, f, env):
        """the attribute whose object an (in-place) operation on e changes: (owner, attr) or None"""
        while isinstance(e, (ast.Subscript, ast.Starred)):
            e = e.value
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and self._module(e.value.id, f):
                return None
            if e.attr in ("flat", "T", "values") and self.place(e.value, f, env):
                return self.place(e.value, f, env)
            return (self.owner(e.value, f, env), mangle(e.attr, f.cls.name if f.cls else None))
        if isinstance(e, ast.Name) and e.id in env:
            return env[e.id][0]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "setdefault", "items", "values", "reshape", "ravel", "view", "transpose"):
            return self.place(e.func.value, f, env)
        return None

    def _module(self, name, f):
        r = f.mod.names.get(name)
        return r is not None and r[0] == "mod"

    def _env(self, f):
        """local aliases: name -> (place, classes)"""
        env = {}
        for _ in range(2):
            for n in ast.walk(f.node):
                pairs = []
                if isinstance(n, ast.Assign):
                    pairs = [(t, n.value) for t in n.targets]
                elif isinstance(n, (ast.For, ast.comprehension)):
                    pairs = [(n.target, n.iter)]
                elif isinstance(n, ast.NamedExpr):
                    pairs = [(n.target, n.value)]
                for t, v in pairs:
                    if isinstance(t, ast.Name):
                        p, o = self.place(v, f, env), self.owner(v, f, env)
                        if p or o:
                            env[t.id] = (p, o)
        return env

    # ------------------------------------------------------------ one function
    def _scan(self, f):
        env = self._env(f)
        W, R, C, S = [], [], [], []
        self.writes[f], self.reads[f], self.calls[f] = W, R, C
        stack = []

        def write(t, node, value=None, deep=False):
            if isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    write(x, node, value)
                return
            if isinstance(t, ast.Starred):
                t = t.value
            if isinstance(t, ast.Name) and not deep:
                return
            p = self.place(t, f, env)
            if p:
                W.append(Access(p[0], p[1], f, node, value, list(stack)))

        def visit(n):
            push = isinstance(n, (ast.If, ast.While, ast.For, ast.Try, ast.With, ast.IfExp))
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    write(t, n, n.value)
            elif isinstance(n, ast.AugAssign):
                write(n.target, n, n)
                if isinstance(n.target, ast.Attribute):
                    R.append(Access(self.owner(n.target.value, f, env), mangle(n.target.attr, f.cls.name if f.cls else None), f, n, None, list(stack)))
                elif isinstance(n.target, ast.Name) and n.target.id in env and env[n.target.id][0]:
                    p = env[n.target.id][0]
                    W.append(Access(p[0], p[1], f, n, n, list(stack)))
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                write(n.target, n, n.value)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    write(t, n, None)
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr in MUTATORS:
                    p = self.place(fn.value, f, env)
                    if p and not self._has_method(p, fn.attr, fn.value, f, env):
                        W.append(Access(p[0], p[1], f, n, n, list(stack)))
                if isinstance(fn, ast.Attribute) and fn.attr in INPLACE and n.args:
                    write(n.args[0], n, n, deep=True)
                for k in n.keywords:
                    if k.arg == "out":
                        write(k.value, n, n, deep=True)
                if isinstance(fn, ast.Name) and fn.id in ("setattr", "delattr") and len(n.args) >= 2:
                    o = self.owner(n.args[0], f, env)
                    names = self.consts.strings(n.args[1], f)
                    if names is None and isinstance(n.args[1], ast.Subscript):
                        names = self._values(n.args[1].value, f)
                    for a in sorted(names) if names is not None else ["*"]:
                        W.append(Access(o, a, f, n, n.args[2] if len(n.args) > 2 else None, list(stack)))
                C.extend((g, n) for g in self.targets(n, f, env))
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if not (isinstance(n.value, ast.Name) and self._module(n.value.id, f)):
                    R.append(Access(self.owner(n.value, f, env), mangle(n.attr, f.cls.name if f.cls else None), f, n, None, list(stack)))
            if push:
                stack.append(n)
            for c in ast.iter_child_nodes(n):
                visit(c)
            if push:
                stack.pop()
        for s in f.node.body:
            visit(s)

    def _values(self, e, f):
        """string values of a local dict literal"""
        if isinstance(e, ast.Name):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and isinstance(n.value, ast.Dict):
                    return self.consts.elements(ast.Tuple(elts=n.value.values, ctx=ast.Load()), f, 0)
        return None

    def _has_method(self, p, name, e, f, env):
        o = self.owner(e, f, env)
        return bool(o) and any(self.src.find_method(c, name) for c in o)

    def targets(self, n, f, env):
        """package functions a call may reach"""
        fn = n.func
        out = []
        if isinstance(fn, ast.Attribute):
            nm = mangle(fn.attr, f.cls.name if f.cls else None)
            o = self.owner(fn.value, f, env)
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and f.cls:
                for k in self.src.mro(f.cls)[1:]:
                    if nm in k.methods:
                        return [k.methods[nm]]
                return []
            if o:
                for c in o:
                    m = self.src.find_method(c, nm)
                    if m:
                        out.append(m)
                    a = self.src.find_attr(c, nm)
                    if a and a[0] == "attr":
                        g = self._funcref(a[1][1], a[1][0].mod)
                        if g:
                            out.append(g)
                if out:
                    return list(dict.fromkeys(out))
                if nm in ("solve", "run") and any(c.name in ("Model", "BlackOil") for c in o):
                    return [m for c in self.roles.get("solution", ()) for m in [self.src.find_method(c, nm)] if m]
                c = self.src.class_expr(f.mod, ast.unparse(fn))
                if c is not None:
                    return [m for m in [self.src.find_method(c, "__init__")] if m]
                return []
            g = self._funcref(fn, f.mod)
            if g:
                return [g]
            c = self.src.class_expr(f.mod, ast.unparse(fn)) if isinstance(fn.value, (ast.Name, ast.Attribute)) else None
            if c is not None:
                m = self.src.find_method(c, "__init__")
                return [m] if m else []
            if isinstance(fn.value, ast.Name) and self._module(fn.value.id, f):
                return []
            # unknown receiver: every method of that name that is not also a method of builtin containers
            if nm in MUTATORS or nm in ("get", "items", "keys", "values", "copy", "index", "count", "transform", "fit", "sum", "max", "min", "report", "update"):
                return []
            return [g for g in self.byname.get(fn.attr, []) if g.cls is not None]
        if isinstance(fn, ast.Name):
            g = self._funcref(fn, f.mod)
            if g:
                return [g]
            c = self.src.class_expr(f.mod, fn.id)
            if c is not None:
                m = self.src.find_method(c, "__init__")
                return [m] if m else []
        return out

    def _funcref(self, e, mod):
        if not isinstance(e, (ast.Name, ast.Attribute)):
            return None
        parts = ast.unparse(e).split(".")
        r = self.src.resolve(mod.name, parts[0])
        for p in parts[1:]:
            if r is None or r[0] != "pkg":
                return None
            r = self.src.resolve(r[1], p)
        return r[1] if r and r[0] == "func" else None

    # ------------------------------------------------------------ method references (executor.map(self.f, ...))
    def refs(self, f):
        out = []
        env = self._env(f)
        called = {id(n.func) for n in ast.walk(f.node) if isinstance(n, ast.Call)}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and id(n) not in called and isinstance(n.ctx, ast.Load):
                o = self.owner(n.value, f, env)
                for c in o or ():
                    m = self.src.find_method(c, mangle(n.attr, f.cls.name if f.cls else None))
                    if m:
                        out.append(m)
        return out

    def reach(self, roots, stop=lambda f: False):
        seen, todo = {}, [(r, None) for r in roots]
        while todo:
            f, via = todo.pop()
            if f in seen or stop(f) and via is not None:
                continue
            seen[f] = via
            for g, n in self.calls.get(f, ()):
                todo.append((g, f))
            for g in self.refs(f):
                todo.append((g, f))
        return seen

    def path(self, seen, f):
        out = []
        while f is not None:
            out.append(f.qual)
            f = seen.get(f)
        return " <- ".join(out)


def printing_only(test_owner):
    """is this `if` there to print only: its body has nothing but calls of print / warnings and assignments used nowhere else"""
    def pure(s, names):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            n = s.value.func
            return isinstance(n, ast.Name) and n.id == "print" or isinstance(n, ast.Attribute) and n.attr in ("warn", "info", "debug")
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
            return True
        if isinstance(s, ast.Assign):
            return all(isinstance(x, ast.Name) for t in s.targets for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts))
        if isinstance(s, (ast.If, ast.For)):
            return all(pure(x, names) for x in s.body + s.orelse)
        return False
    return all(pure(s, set()) for s in test_owner.body) and not test_owner.orelse
