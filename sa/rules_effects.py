"""C26: no hidden inputs, no hidden outputs, queries that only look."""
import ast
from .terms import *
from .gridctx import *
from .modelctx import Model
from .check import where
from .rules_grid import RC, cellvars, interior
from .rules_step import attempt
from .rules_verbose import Flow, Body, effects, variants, SKIP
from .rules_alias import Regions, unchanged, attempted, everything as heap
from .src import mangle

PARALLEL = ("C26",)
BO, FDM = "BlackOil", "FDM"
TOP = object()

RANDOM = ("random.", "numpy.random.", "secrets.", "uuid.", "os.urandom", "os.getrandom", "scipy.stats.", "jax.random.", "torch.rand", "tensorflow.random.")
PROCESS = ("subprocess.", "os.system", "os.popen", "os.exec", "os.spawn", "os.fork", "os.kill", "multiprocessing.", "ctypes.", "pty.", "signal.")
NETWORK = ("socket.", "urllib.", "http.", "requests.", "ftplib.", "smtplib.", "ssl.", "asyncio.open_connection", "aiohttp.")
ENVIRONMENT = ("os.environ", "os.getenv", "os.putenv", "os.getpid", "os.getlogin", "os.getcwd", "os.uname", "os.cpu_count", "os.listdir", "os.scandir", "os.stat", "os.walk", "os.path.exists", "os.path.getmtime", "platform.", "sys.argv", "sys.stdin", "getpass.", "locale.", "glob.", "numpy.load", "numpy.genfromtxt", "numpy.fromfile", "pandas.read_", "pickle.load", "json.load", "psutil.", "resource.", "gc.", "builtins.input", "builtins.id", "builtins.hash")
CLOCK = ("time.time", "time.perf_counter", "time.monotonic", "time.process_time", "time.thread_time", "time.localtime", "time.gmtime", "time.ctime", "time.asctime", "time.strftime", "time.clock_gettime", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today", "timeit.default_timer", "pandas.Timestamp.now", "pandas.Timestamp.today")
FILES = ("numpy.save", "numpy.savetxt", "numpy.savez", "pickle.dump", "json.dump", "os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.chdir", "os.truncate", "shutil.", "tempfile.", "sqlite3.", "zipfile.", "tarfile.", "logging.FileHandler", "matplotlib.pyplot.savefig", "scipy.io.savemat", "scipy.sparse.save_npz")
WRITERS = {"to_csv", "to_excel", "to_pickle", "to_json", "to_parquet", "to_hdf", "to_feather", "to_sql", "to_markdown", "savefig", "tofile", "write_text", "write_bytes", "mkdir", "unlink", "touch", "screenshot", "export_html", "export_gltf", "export_vtkjs", "save_graphic", "open_gif", "open_movie"}
TOOLS = ("reservoirflow.utils.profme", "reservoirflow.__main__")


def begins(name, table):
    return any(name == t or name.startswith(t if t.endswith((".", "_")) else t + ".") or t.endswith(("rand", "getpid", "exec", "spawn", "read_", "savez", "dump", "load")) and name.startswith(t) for t in table)


class External:
    """what a call outside of the package is"""

    def __init__(self, eff):
        self.eff, self.src = eff, eff.src
        self.locals = {}

    def names(self, f):
        if f not in self.locals:
            imp, own = {}, set()
            for n in ast.walk(f.node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        imp[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom) and n.module:
                    for a in n.names:
                        imp[a.asname or a.name] = n.module + "." + a.name
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    own.add(n.id)
                elif isinstance(n, ast.arg):
                    own.add(n.arg)
            self.locals[f] = imp, own
        return self.locals[f]

    def dotted(self, e, f):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        imp, own = self.names(f)
        if e.id in imp:
            head = imp[e.id]
        elif e.id in own:
            return None
        else:
            r = self.src.resolve(f.mod.name, e.id)
            if r is None:
                head = "builtins." + e.id if e.id in dir(__builtins__) or e.id in __builtins__ else None
            elif r[0] == "ext":
                head = r[1]
            else:
                return None
        return None if head is None else ".".join([head] + parts[::-1])

    def kind(self, n, f):
        """(kind, spelled) of an effect of the expression node, None when there is none"""
        if isinstance(n, ast.Call):
            d = self.dotted(n.func, f)
            if d == "builtins.open" or d in ("io.open", "os.fdopen", "os.open", "gzip.open", "bz2.open") or isinstance(n.func, ast.Attribute) and n.func.attr == "open" and d is None and not self.eff.targets(n, f, self.eff._env(f)):
                return ("file", d or "open")
            if d is None:
                if isinstance(n.func, ast.Attribute) and n.func.attr in WRITERS and not self.eff.targets(n, f, self.eff._env(f)):
                    return ("file", "." + n.func.attr)
                return None
            if begins(d, FILES):
                return ("file", d)
            if isinstance(n.func, ast.Attribute) and n.func.attr in WRITERS:
                return ("file", d)
        else:
            d = self.dotted(n, f) if isinstance(n, (ast.Attribute, ast.Name)) else None
            if d is None:
                return None
        for k, t in (("randomness", RANDOM), ("a process", PROCESS), ("the network", NETWORK), ("the environment", ENVIRONMENT), ("the clock", CLOCK)):
            if begins(d, t):
                return (k, d)
        return None


def templates(n):
    """source text handed to eval/exec, with the parts filled in at run time replaced by a name"""
    if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("eval", "exec") and n.args):
        return None
    a = n.args[0]
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return a.value
    if isinstance(a, ast.JoinedStr):
        return "".join(v.value if isinstance(v, ast.Constant) else "X" for v in a.values)
    return ""


# --------------------------------------------------------------------- hidden inputs
def inputs(ck, src, eff, X):
    rule = "nothing outside of the arguments decides a result"
    n = seen = 0
    for f in eff.funcs:
        if f.mod.name in TOOLS:
            continue
        n += 1
        wh = f"{f.mod.name}:{f.qual}"
        clean = True
        for e in ast.walk(f.node):
            if not isinstance(e, ast.expr):
                continue
            t = templates(e)
            if t is not None:
                try:
                    inner = [x for x in ast.walk(ast.parse(t)) if isinstance(x, ast.expr)]
                except SyntaxError:
                    inner = None
                if not inner:
                    ck.undecided(rule, wh, f"line {e.lineno}: evaluates text built at run time", "effects")
                    clean = False
                    continue
            else:
                inner = [e]
            for x in inner:
                seen += 1
                k = X.kind(x, f)
                if k and k[0] not in ("file", "the clock"):
                    ck.bad(rule, wh, f"line {e.lineno}: {k[1]} brings in {k[0]}", "effects")
                    clean = False
        if clean:
            ck.ok(rule, wh, "no randomness, process, network or environment", "effects")
    ck.ok(rule, "package", f"{n} functions, {seen} expressions", "effects")


# --------------------------------------------------------------------- the clock
class Clock(Flow):
    """where readings of the clock flow to"""

    def __init__(self, eff, src, X):
        self.X = X
        self.timers, self.at, self.mixed, self.used = {}, {}, {}, set()
        self.dflt = {}
        super().__init__(eff, src)

    def named(self, p):
        return False

    def start(self, body):
        return set()

    def carries(self, attr):
        return attr in self.timers

    def defaulted(self, f):
        """expressions evaluated only in place of an omitted argument"""
        if f not in self.dflt:
            params = {x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}
            out = set()

            def omitted(t):
                return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id in params and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Is, ast.Eq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None or isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name) and t.operand.id in params

            def given(t):
                return isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id in params and len(t.ops) == 1 and isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None or isinstance(t, ast.Name) and t.id in params

            def leaves(b):
                return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise))

            def add(nodes):
                for s in nodes:
                    out.update(id(x) for x in ast.walk(s))

            def walk(body):
                for i, s in enumerate(body):
                    if isinstance(s, ast.If):
                        if omitted(s.test):
                            add(s.body)
                        elif given(s.test):
                            add(s.orelse)
                            if leaves(s.body):
                                add(body[i + 1:])
                    for b in ("body", "orelse", "finalbody"):
                        if isinstance(getattr(s, b, None), list):
                            walk(getattr(s, b))
            walk(f.node.body)
            for e in ast.walk(f.node):
                if isinstance(e, ast.IfExp):
                    if omitted(e.test):
                        add([e.body])
                    elif given(e.test):
                        add([e.orelse])
                elif isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and given(e.values[0]):
                    add(e.values[1:])
            self.dflt[f] = out
        return self.dflt[f]

    def source(self, body, call):
        if id(call) in self.defaulted(body.f):
            k = self.X.kind(call, body.f)
            if k and k[0] == "the clock":
                self.used.add((body.f, call.lineno, k[1]))
            return False
        k = self.X.kind(call, body.f)
        return bool(k and k[0] == "the clock")

    def ret(self, f):
        super().ret(f)

    def sink(self, body, node, why, attr=None):
        if attr is None:
            self.found[body.f, node.lineno, why] = None
        elif attr not in self.timers:
            self.timers[attr] = True
            self.at[attr] = (body.f, node.lineno)
            self.changed = True

    def lowered(self, body, node, attr, value):
        if isinstance(node, ast.AugAssign) or isinstance(value, ast.Constant):
            return
        self.mixed.setdefault(attr, set()).add((body.f, node.lineno))


class ClockBody(Body):
    pass


def clock(ck, src, eff, X):
    rule = "clock readings reach timers and messages only"
    fl = Clock(eff, src, X)
    tool = lambda f: f.mod.name in TOOLS
    for (f, line, why), _ in fl.found.items():
        if not tool(f):
            ck.bad(rule, f"{f.mod.name}:{f.qual}", f"line {line}: {why}".replace("the flag", "the clock"), "clock flow")
    for f in fl.returns:
        if not f.name.startswith("_") and not tool(f) and not X.src.mods[f.mod.name].name.startswith("reservoirflow.utils"):
            ck.bad(rule, f"{f.mod.name}:{f.qual}", "what a public function answers depends on the clock", "clock flow")
    for a, (f, line) in fl.at.items():
        if tool(f):
            continue
        other = [x for x in fl.mixed.get(a, ())]
        if other:
            g, l = sorted(other, key=lambda x: (x[0].qual, x[1]))[0]
            ck.bad(rule, f"{f.mod.name}:{f.qual}", f"line {line}: {a} is set to a value that depends on the clock; {g.qual}:{l} keeps a result there", "clock flow")
        else:
            ck.ok(rule, f"{f.mod.name}:{f.qual}:{line}", f"{a} holds nothing but clock readings, and nothing else is computed from it", "clock flow")
    for f, line, d in sorted(fl.used, key=lambda x: (x[0].qual, x[1])):
        ck.ok(rule, f"{f.mod.name}:{f.qual}:{line}", f"{d} stands in for an omitted argument only", "clock flow")
    ck.ok(rule, "package", f"{len(eff.funcs)} functions, {fl.stats[0]} statements, timers: {', '.join(sorted(fl.at)) or 'none'}", "clock flow")


# --------------------------------------------------------------------- files
class Reach:
    """effects reached from a function when its options keep their default values"""

    def __init__(self, eff, X):
        self.eff, self.X = eff, X
        self.done, self.hits, self.calls = set(), {}, 0

    def enter(self, f, env, via):
        key = (f, tuple(sorted((k, repr(v)) for k, v in env.items() if v is not TOP)))
        if key in self.done or len(via) > 60:
            return
        self.done.add(key)
        self.alias = self.eff._env(f)
        Run(self, f, dict(env), via + (f,)).block(f.node.body)


class Run:
    def __init__(self, R, f, env, via):
        self.R, self.f, self.env, self.via = R, f, env, via
        self.alias = R.eff._env(f)

    def ev(self, e):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            return self.env.get(e.id, TOP)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.ev(e.operand)
            return v if v is TOP else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.ev(x) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            for v in vs:
                if v is not TOP and bool(v) is stop:
                    return v
            return TOP if any(v is TOP for v in vs) else vs[-1]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.ev(e.left), self.ev(e.comparators[0])
            if a is TOP or b is TOP:
                return TOP
            o = e.ops[0]
            if isinstance(o, (ast.Is, ast.Eq)):
                return a == b and type(a) is type(b)
            if isinstance(o, (ast.IsNot, ast.NotEq)):
                return not (a == b and type(a) is type(b))
            return TOP
        if isinstance(e, ast.IfExp):
            t = self.ev(e.test)
            return TOP if t is TOP else self.ev(e.body if t else e.orelse)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "bool" and len(e.args) == 1:
            v = self.ev(e.args[0])
            return v if v is TOP else bool(v)
        return TOP

    def look(self, e):
        """calls in an expression that may be evaluated"""
        if isinstance(e, ast.IfExp):
            self.look(e.test)
            t = self.ev(e.test)
            if t is TOP or t:
                self.look(e.body)
            if t is TOP or not t:
                self.look(e.orelse)
            return
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                self.look(x)
                v = self.ev(x)
                if v is not TOP and bool(v) is isinstance(e.op, ast.Or):
                    return
            return
        if isinstance(e, ast.Call):
            self.call(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.comprehension)):
                self.look(c)

    def call(self, n):
        R = self.R
        R.calls += 1
        k = R.X.kind(n, self.f)
        if k and k[0] == "file":
            R.hits[self.f, n.lineno, k[1]] = self.via
        for g in R.eff.targets(n, self.f, self.alias):
            a = g.node.args
            pos = a.posonlyargs + a.args
            env = {x.arg: TOP for x in pos + a.kwonlyargs}
            for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if isinstance(d, ast.Constant):
                    env[x.arg] = d.value
            names = [x.arg for x in pos]
            if g.cls is not None and g.kind != "static" and names:
                names = names[1:]
            if any(isinstance(x, ast.Starred) for x in n.args):
                env = {x: TOP for x in env}
            else:
                for p, x in zip(names, n.args):
                    env[p] = self.ev(x)
            for kw in n.keywords:
                if kw.arg is None:
                    ks = self.keys(kw.value, self.f)
                    for x in list(env):
                        if ks is None or x in ks:
                            env[x] = TOP if ks is None else ks[x]
                elif kw.arg in env:
                    env[kw.arg] = self.ev(kw.value)
            R.enter(g, env, self.via)

    def keys(self, e, f, depth=0):
        """names and values a dictionary spread over the arguments may give; None when not known"""
        lit = lambda x: x.value if isinstance(x, ast.Constant) else TOP

        def both(p, q):
            return {k: p[k] if k in p and k in q and repr(p[k]) == repr(q[k]) else TOP for k in {*p, *q}}
        if depth > 4:
            return None
        if isinstance(e, ast.Dict):
            out = {}
            for k, v in zip(e.keys, e.values):
                if isinstance(k, ast.Constant):
                    out[k.value] = lit(v)
                else:
                    more = self.keys(v, f, depth + 1) if k is None else None
                    if more is None:
                        return None
                    out.update(more)
            return out
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "dict" and not e.args and all(k.arg for k in e.keywords):
                return {k.arg: lit(k.value) for k in e.keywords}
            tg = self.R.eff.targets(e, f, self.R.eff._env(f))
            rs = [self.keys(x.value, g, depth + 1) for g in tg for x in ast.walk(g.node) if isinstance(x, ast.Return)]
            if not rs or any(r is None for r in rs):
                return None
            out = rs[0]
            for r in rs[1:]:
                out = both(out, r)
            return out
        if isinstance(e, ast.Name):
            out = None
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name) and t.id == e.id:
                            r = self.keys(x.value, f, depth + 1)
                            if r is None:
                                return None
                            out = r if out is None else both(out, r)
            if out is None:
                return None
            for x in ast.walk(f.node):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == e.id:
                            if not isinstance(t.slice, ast.Constant):
                                return None
                            k = t.slice.value
                            out[k] = lit(x.value) if k not in out or repr(out[k]) == repr(lit(x.value)) else TOP
            return out
        return None

    def forget(self, nodes):
        for s in nodes:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    self.env.pop(x.id, None)

    def join(self, other):
        for k in list(self.env):
            if k not in other or repr(other[k]) != repr(self.env[k]):
                self.env[k] = TOP

    def block(self, body):
        """False when what follows is not reached"""
        for s in body:
            if not self.stmt(s):
                return False
        return True

    def stmt(self, s):
        if isinstance(s, ast.If):
            self.look(s.test)
            t = self.ev(s.test)
            if t is not TOP:
                return self.block(s.body if t else s.orelse)
            e0 = dict(self.env)
            a = self.block(s.body)
            e1, self.env = self.env, e0
            b = self.block(s.orelse)
            if a and b:
                self.join(e1)
            elif a:
                self.env = e1
            return a or b
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            self.look(s.iter if not isinstance(s, ast.While) else s.test)
            self.forget([s])
            if not isinstance(s, ast.While) or self.ev(s.test) is TOP or self.ev(s.test):
                self.block(s.body)
            self.forget([s])
            self.block(s.orelse)
            return True
        if isinstance(s, ast.Try):
            e0 = dict(self.env)
            a = self.block(s.body)
            self.forget([s])
            for h in s.handlers:
                a = self.block(h.body) or a
                self.forget([h])
            self.block(s.orelse)
            self.block(s.finalbody)
            return True
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.look(i.context_expr)
            return self.block(s.body)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            inner = Run(self.R, self.f, {k: v for k, v in self.env.items() if k not in {x.arg for x in s.args.args}}, self.via)
            inner.block(s.body)
            return True
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.look(e)
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.env[t.id] = v
                else:
                    self.forget([t])
        elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            self.forget([s.target])
        elif isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        return True


ASKS = ("save", "export", "write", "dump", "to_")


def files(ck, src, eff, X):
    rule = "files are written only when asked for"
    R = Reach(eff, X)
    n = 0
    for f in eff.funcs:
        if f.mod.name in TOOLS or f.name.startswith("_") and f.name not in ("__init__", "__repr__", "__str__", "__call__"):
            continue
        if f.name.startswith(ASKS):
            ck.ok(rule, f"{f.mod.name}:{f.qual}", "asks for a file by its name", "reachability with default options")
            continue
        n += 1
        a = f.node.args
        pos = a.posonlyargs + a.args
        env = {x.arg: TOP for x in pos + a.kwonlyargs}
        for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, ast.Constant) and (d.value is None or d.value is False):
                env[x.arg] = d.value
        before = len(R.hits)
        R.enter(f, env, ())
        if len(R.hits) == before:
            ck.ok(rule, f"{f.mod.name}:{f.qual}", "reaches no file operation while its options are left off", "reachability with default options")
    for (f, line, d), via in R.hits.items():
        ck.bad(rule, f"{f.mod.name}:{f.qual}", f"line {line}: {d} is reached from {' -> '.join(g.qual for g in via)} though no file was asked for", "reachability with default options")
    ck.ok(rule, "package", f"{n} public functions, {len(R.done)} function and option pairs, {R.calls} calls", "reachability with default options")


# --------------------------------------------------------------------- queries
QUERY = ("get_", "is_", "show", "plot", "report", "save_gif", "__repr__", "__str__", "__len__")
ASSEMBLY = ("get_cell_eq", "get_cells_eq", "get_matrices")
OWNERS = ("Grid", "Fluid", "Model", "Solution", "Well")


def queries(ck, src, eff):
    """nothing a query reaches changes settings or simulation state"""
    rule = "queries only look"
    fam = {}
    for o in OWNERS:
        c = src.cls(o)
        for k in [c] + list(src.subclasses(c)):
            fam[k] = o
    isq = lambda f: f.name.startswith(QUERY)
    state = {}
    for f in eff.funcs:
        if f.cls is None or isq(f) or f.name.startswith("_") and f.name != "__init__":
            continue
        for w in eff.writes.get(f, ()):
            for c in w.owner or ():
                if c in fam:
                    state.setdefault((fam[c], w.attr), f)
    # what is written only by helpers counts when the helper belongs to a method that is no query
    roots = [f for f in eff.funcs if f.cls is not None and not isq(f) and not f.name.startswith("_")]
    helper = {g for g in eff.reach(roots, stop=isq) if not isq(g)}
    qs = [f for f in eff.funcs if f.cls in fam and isq(f) and not f.name.startswith(ASSEMBLY)]
    rq = eff.reach(qs)
    for g in helper:
        for w in eff.writes.get(g, ()):
            for c in w.owner or ():
                if c in fam:
                    state.setdefault((fam[c], w.attr), g)
    R = Regions(src, eff)
    lines = {}
    for (f, line), regs in R.writes.items():
        lines.setdefault(f, []).append((line, regs))
    n = 0
    for q in qs:
        r = eff.reach([q], stop=lambda f: f.name.startswith(ASSEMBLY))
        clean = True
        for g in r:
            for w in eff.writes.get(g, ()):
                n += 1
                own = {fam[c] for c in w.owner or () if c in fam}
                hit = next((k for o in own for k in [(o, w.attr)] if k in state), None)
                if hit and not w.attr.endswith(("_scaler",)) and not answer(src, w, g):
                    clean = False
                    ck.bad(rule, f"{q.mod.name}:{q.qual}", f"{g.qual}:{w.node.lineno} changes {hit[0]}.{hit[1]} ({eff.path(r, g)}), which {state[hit].qual} sets", "effects")
            for line, regs in lines.get(g, ()):
                for x in R.closure(regs):
                    n += 1
                    if x[0] == "attr" and (x[1], x[2]) in state and not (x[1] == "Grid" and last(src, x[2])):
                        if any(w.node.lineno == line and w.attr == x[2] for w in eff.writes.get(g, ())):
                            continue
                        clean = False
                        ck.bad(rule, f"{q.mod.name}:{q.qual}", f"{g.qual}:{line} changes {x[1]}.{x[2]} in place ({eff.path(r, g)}), which {state[x[1], x[2]].qual} sets", "effects")
        if clean:
            ck.ok(rule, f"{q.mod.name}:{q.qual}", f"{len(r)} functions reached, none changes settings or state", "effects")
    ck.ok(rule, "package", f"{len(qs)} queries, {n} writes, {len(state)} attributes are settings or state", "effects")


def last(src, attr):
    """does the attribute keep the last answer of a query with options of the same name?"""
    for c in [src.cls(o) for o in OWNERS] + [k for o in OWNERS for k in src.subclasses(src.cls(o))]:
        m = src.find_method(c, "get_" + attr) if c is not None else None
        if m is not None and len(m.node.args.args) > 1:
            return True
    return False


def answer(src, w, g):
    return last(src, w.attr)


# --------------------------------------------------------------------- values
def looked(ck, rule, wh, ip, st, act, objs, facts, case, skip=()):
    """the heap before and after a query"""
    s = st.copy()
    before = {k: v for k, v in heap(ip, st, objs).items() if k[1] not in skip}
    if not attempted(ip, lambda: act(s)):
        # a query may refuse; it must not have changed anything by then either
        ck.ok(rule, wh, "refuses", case)
        return
    ck.note(ip)
    unchanged(ck, rule, wh, ip, before, {k: v for k, v in heap(ip, s, objs).items() if k[1] not in skip}, facts, case)


def asked(ip, o, name, fn, kw, st):
    return ip.getattr(o, name, st) if fn.kind == "property" else ip.call_method(o, name, [], kw, st)


def queried(src, cls):
    c = src.cls(cls)
    seen = set()
    for k in src.mro(c):
        for name, f in k.methods.items():
            if name.startswith(("get_", "is_")) and not name.startswith(ASSEMBLY) and name not in SKIP and name not in seen and f.kind not in ("static", "class"):
                seen.add(name)
                yield name, f


def answers(src, cls):
    return tuple(sorted({n[4:] for k in src.mro(src.cls(cls)) for n in k.methods if n.startswith("get_") and last(src, n[4:])}))


def grid(ck, src, d, quick, case):
    g = Grid(src, d)
    ip = g.ip
    c, f = cellvars(g)
    facts = f + [interior(g, c)]
    g.st.pc = tuple(facts)
    skip = answers(src, RC)
    for name, fn in queried(src, RC):
        for word, a in variants(fn, {"id": g.cid(c)}, d, quick):
            attempt(ck, "queries only look", where(src, RC, name), f"{case}; {name}{word}", lambda one: looked(ck, "queries only look", where(src, RC, name), ip, g.st, lambda st: asked(ip, g.obj, name, fn, a, st), [g.obj], facts, one, skip))


def model(ck, src, d, comp, quick, case):
    m = Model(src, d, comp=comp)
    ip, g = m.ip, m.g
    c, f = cellvars(g)
    facts = f + [interior(g, c)]
    m.st.pc = tuple(facts)
    attempted(ip, lambda: ip.call_method(m.obj, "set_well", [], dict(cell_id=g.cid(c), pwf=sym("PWF", "num"), r=sym("RW", "num")), m.st))
    skip = answers(src, RC) + answers(src, BO)
    objs = [m.obj, g.obj, m.fluid, m.sol]
    given = {"id": g.cid(c), "cell_id": g.cid(c)}
    for cls, o in ((BO, m.obj), (m.fluid.args[0], m.fluid), (RC, g.obj)):
        for name, fn in queried(src, cls):
            if cls == RC and not name.startswith(("get_cells_", "get_cell_", "get_prop")):
                continue
            for word, a in variants(fn, given, d, True):
                attempt(ck, "queries only look", where(src, cls, name), f"{case}; model with a well; {name}{word}", lambda one: looked(ck, "queries only look", where(src, cls, name), ip, m.st, lambda st: asked(ip, o, name, fn, a, st), objs, facts, one, skip))


def c26(ck):
    src = ck.src
    quick = ck.tier == "quick"
    eff = effects(src)
    X = External(eff)
    if ck.part():
        inputs(ck, src, eff, X)
    if ck.part():
        clock(ck, src, eff, X)
    if ck.part():
        files(ck, src, eff, X)
    if ck.part():
        queries(ck, src, eff)
    for d in ("", "x", "y", "xz", "xyz") if quick else ALLDIMS:
        if ck.part():
            attempt(ck, "queries only look", where(src, RC, "__init__"), f"dims={d or 'none'}", lambda case: grid(ck, src, d, quick, case))
        for comp in (False, True):
            if (not quick or not comp or len(d) == 1) and ck.part():
                attempt(ck, "queries only look", where(src, BO, "__init__"), f"dims={d or 'none'} compressible={comp}", lambda case: model(ck, src, d, comp, quick, case))
