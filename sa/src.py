"""Source model: modules, classes, functions and constants of the package, read from the working tree with `ast`."""
import ast, os, hashlib

ROOT = os.environ.get("SA_REPO", "/repo")
PKG = "reservoirflow"


class Func:
    __slots__ = ("name", "node", "mod", "cls", "qual", "file", "kind", "cached", "closure", "decorators", "defaults")

    def __repr__(self):
        return f"<{self.qual}>"


class Cls:
    __slots__ = ("name", "node", "mod", "bases", "methods", "attrs", "qual", "file", "abstract")

    def __repr__(self):
        return f"<class {self.qual}>"


class Mod:
    __slots__ = ("name", "file", "tree", "names", "assigns", "ispkg", "text")


class Source:
    def __init__(self, root=None):
        self.root = root or ROOT
        self.mods, self.classes, self.funcs = {}, {}, {}
        self.by_name = {}
        self.errors = []
        base = os.path.join(self.root, PKG)
        for d, ds, fs in sorted(os.walk(base)):
            ds.sort()
            ds[:] = [x for x in ds if x not in ("__pycache__", "tests")]
            for f in sorted(fs):
                if f.endswith(".py"):
                    self._load(os.path.join(d, f))
        for m in self.mods.values():
            self._index(m)

    def digest(self):
        h = hashlib.sha256()
        for m in sorted(self.mods.values(), key=lambda m: m.name):
            h.update(m.text.encode())
        return h.hexdigest()[:16]

    def _load(self, path):
        rel = os.path.relpath(path, self.root)
        parts = rel[:-3].split(os.sep)
        ispkg = parts[-1] == "__init__"
        if ispkg:
            parts = parts[:-1]
        m = Mod()
        m.name, m.file, m.ispkg = ".".join(parts), rel, ispkg
        m.text = open(path, encoding="utf-8").read()
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.tree = ast.parse(m.text)
        m.names, m.assigns = {}, {}
        self.mods[m.name] = m

    def _index(self, m):
        def scan(body):
            for n in body:
                if isinstance(n, ast.ImportFrom):
                    base = self._rel(m, n)
                    for a in n.names:
                        m.names[a.asname or a.name] = ("from", base, a.name)
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        if a.asname:
                            m.names[a.asname] = ("mod", a.name)
                        else:
                            m.names[a.name.split(".")[0]] = ("mod", a.name.split(".")[0])
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = self._func(n, m, None)
                    m.names[n.name] = ("func", f)
                elif isinstance(n, ast.ClassDef):
                    c = self._class(n, m)
                    m.names[n.name] = ("class", c)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.names[t.id] = ("assign", n.value)
                            m.assigns[t.id] = n.value
                elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                    m.names[n.target.id] = ("assign", n.value)
                    m.assigns[n.target.id] = n.value
                elif isinstance(n, ast.If):
                    t = n.test
                    if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
                        continue
                    scan(n.body)
                    scan(n.orelse)
                elif isinstance(n, ast.Try):
                    scan(n.body)
        scan(m.tree.body)

    def _rel(self, m, n):
        if not n.level:
            return n.module
        parts = m.name.split(".")
        if not m.ispkg:
            parts = parts[:-1]
        parts = parts[: len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

    def _func(self, n, m, cls, closure=None):
        f = Func()
        f.name, f.node, f.mod, f.cls, f.file, f.closure = n.name, n, m, cls, m.file, closure
        f.qual = (cls.name + "." if cls else m.name + ":") + n.name
        f.kind, f.cached, f.decorators = "func", False, []
        for d in n.decorator_list:
            s = ast.unparse(d)
            f.decorators.append(s)
            if s in ("property", "functools.cached_property", "cached_property") or s.endswith(".getter"):
                f.kind = "property"
            elif s == "staticmethod":
                f.kind = "static"
            elif s == "classmethod":
                f.kind = "class"
            if "cache" in s:
                f.cached = True
        self.funcs.setdefault(f.qual, f)
        return f

    def _class(self, n, m):
        c = Cls()
        c.name, c.node, c.mod, c.file = n.name, n, m, m.file
        c.qual = m.name + "." + n.name
        c.bases = [ast.unparse(b) for b in n.bases]
        c.methods, c.attrs = {}, {}
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(ast.unparse(d).endswith(".setter") for d in s.decorator_list):
                    continue
                c.methods[mangle(s.name, c.name)] = self._func(s, m, c)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[mangle(t.id, c.name)] = s.value
            elif isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, ast.Name):
                c.attrs[mangle(s.target.id, c.name)] = s.value
        self.classes[c.qual] = c
        self.by_name.setdefault(c.name, c)
        return c

    # -- resolution
    def resolve(self, modname, name, depth=0):
        """(kind, payload) for a name in a module namespace; None if unknown"""
        m = self.mods.get(modname)
        if m is None or depth > 12:
            return None
        e = m.names.get(name)
        if e is None:
            sub = modname + "." + name
            if sub in self.mods:
                return ("pkg", sub)
            return None
        k = e[0]
        if k == "from":
            base, nm = e[1], e[2]
            if base in self.mods:
                if base + "." + nm in self.mods and self.mods[base].names.get(nm) is None:
                    return ("pkg", base + "." + nm)
                r = self.resolve(base, nm, depth + 1)
                if r:
                    return r
                if base + "." + nm in self.mods:
                    return ("pkg", base + "." + nm)
                return None
            return ("ext", base + "." + nm)
        if k == "mod":
            if e[1] in self.mods:
                return ("pkg", e[1])
            return ("ext", e[1])
        if k == "func":
            return ("func", e[1])
        if k == "class":
            return ("class", e[1])
        return ("assign", (m, e[1]))

    def cls(self, name):
        return self.by_name.get(name)

    def mro(self, c):
        out, todo = [], [c]
        seen = set()

        def lin(c):
            if c.qual in seen:
                return
            seen.add(c.qual)
            out.append(c)
            for b in c.bases:
                bc = self.class_expr(c.mod, b)
                if bc is not None:
                    lin(bc)
        # depth-first with shared roots moved last (sufficient for this package)
        lin(c)
        return out

    def class_expr(self, mod, expr):
        parts = expr.split(".")
        r = self.resolve(mod.name, parts[0])
        for p in parts[1:]:
            if r is None or r[0] != "pkg":
                return None
            r = self.resolve(r[1], p)
        if r and r[0] == "class":
            return r[1]
        return None

    def ext_bases(self, c):
        """names of base expressions that are not package classes"""
        out = []
        for k in self.mro(c):
            for b in k.bases:
                if self.class_expr(k.mod, b) is None:
                    out.append(b)
        return out

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return ("method", k.methods[name])
            if name in k.attrs:
                return ("attr", (k, k.attrs[name]))
        return None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k) and k is not c]


def mangle(name, cls):
    if name.startswith("__") and not name.endswith("__") and cls:
        return "_" + cls.lstrip("_") + name
    return name
