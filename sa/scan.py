"""Syntax-tree utilities over the whole package: functions, constant-string resolution, aliases of attributes, call graph."""
import ast
from .src import mangle


def functions(src):
    """every function and method (nested ones are part of their owner)"""
    for m in src.mods.values():
        for c in src.classes.values():
            if c.mod is m:
                for f in c.methods.values():
                    yield f
        for k, e in m.names.items():
            if e[0] == "func" and e[1].mod is m:
                yield e[1]


def loc(f, node=None):
    return f"{f.file}:{f.qual}" + (f":{node.lineno}" if node is not None and hasattr(node, "lineno") else "")


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs]


def default_of(fn, name):
    a = fn.args
    pos = a.posonlyargs + a.args
    off = len(pos) - len(a.defaults)
    for i, x in enumerate(pos):
        if x.arg == name:
            return a.defaults[i - off] if i >= off else None
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


class Consts:
    """strings an expression may evaluate to, or None when unknown"""

    def __init__(self, src):
        self.src = src
        self.funcs = list(functions(src))
        self.calls = {}
        for f in self.funcs:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if nm:
                        self.calls.setdefault(nm, []).append((n, f))

    def strings(self, e, f, depth=0):
        if depth > 6 or e is None:
            return None
        if isinstance(e, ast.Constant):
            return {e.value} if isinstance(e.value, str) else (set() if e.value is None else None)
        if isinstance(e, ast.IfExp):
            a, b = self.strings(e.body, f, depth + 1), self.strings(e.orelse, f, depth + 1)
            return None if a is None or b is None else a | b
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.strings(e.left, f, depth + 1), self.strings(e.right, f, depth + 1)
            return None if a is None or b is None else {x + y for x in a for y in b}
        if isinstance(e, ast.JoinedStr):
            out = {""}
            for v in e.values:
                s = self.strings(v.value if isinstance(v, ast.FormattedValue) else v, f, depth + 1)
                if s is None:
                    return None
                out = {x + y for x in out for y in s}
            return out
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice):
            b = self.strings(e.value, f, depth + 1)
            if b is None:
                return None
            try:
                lo = ast.literal_eval(e.slice.lower) if e.slice.lower else None
                hi = ast.literal_eval(e.slice.upper) if e.slice.upper else None
                return {x[lo:hi] for x in b}
            except Exception:
                return None
        if isinstance(e, ast.Name):
            return self.name(e.id, f, depth + 1)
        return None

    def elements(self, e, f, depth):
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            out = set()
            for x in e.elts:
                s = self.strings(x, f, depth + 1)
                if s is None:
                    return None
                out |= s
            return out
        if isinstance(e, ast.Dict):
            return self.elements(ast.Tuple(elts=e.keys, ctx=ast.Load()), f, depth)
        if isinstance(e, ast.Name):
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    return self.elements(n.value, f, depth + 1)
            v = f.mod.assigns.get(e.id)
            if v is not None:
                return self.elements(v, f, depth + 1)
        return None

    def name(self, nm, f, depth):
        out, found = set(), False
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == nm for t in n.targets):
                s = self.strings(n.value, f, depth)
                if s is None:
                    return None
                out |= s
                found = True
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name) and n.target.id == nm:
                return None
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name) and n.target.id == nm:
                s = self.elements(n.iter, f, depth)
                if s is None:
                    return None
                out |= s
                found = True
        if found:
            return out
        pos, kwo = params(f.node)
        if nm in pos + kwo:
            i = pos.index(nm) if nm in pos else None
            if i is not None and f.cls is not None and f.kind != "static":
                i -= 1
            res, any_ = set(), False
            nmz = f.name if f.name != "__init__" else None
            if nmz is None or not nmz.startswith("_") and self.public(f):
                return None  # callers outside the package decide
            for c, g in self.calls.get(f.name, []):
                arg = None
                if i is not None and i < len(c.args) and not any(isinstance(a, ast.Starred) for a in c.args):
                    arg = c.args[i]
                for k in c.keywords:
                    if k.arg == nm:
                        arg = k.value
                    elif k.arg is None:
                        return None
                if arg is None:
                    arg = default_of(f.node, nm)
                s = self.strings(arg, g, depth + 1)
                if s is None:
                    return None
                res |= s
                any_ = True
            return res if any_ else None
        v = f.mod.assigns.get(nm)
        return self.strings(v, f, depth) if v is not None else None

    @staticmethod
    def public(f):
        return not f.name.startswith("_")


def attr_aliases(fn, attrs, names=()):
    """local names that stand for `<anything>.<attr>` (attr in attrs) or a module-level name, and those expressions themselves"""
    al = {}

    def kind(e):
        if isinstance(e, ast.Attribute) and e.attr in attrs:
            return e.attr
        if isinstance(e, ast.Name):
            if e.id in al:
                return al[e.id]
            if e.id in names:
                return e.id
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and e.value.id in names:
            return e.value.id + "[]"
        return None
    for _ in range(3):
        for n in ast.walk(fn):
            if isinstance(n, ast.Assign):
                k = kind(n.value)
                if k:
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            al[t.id] = k
    return kind


MUTATORS = {"update", "pop", "popitem", "clear", "setdefault", "append", "extend", "insert", "remove", "add", "discard", "sort", "reverse", "fill", "put", "resize", "itemset", "__setitem__", "__delitem__",
            "move_to_end", "partition"}
