"""C18, C19, C23: which name selects what, refusals, and all-or-nothing compiling and switching."""
from .terms import *
from .gridctx import Grid
from .modelctx import Model
from .harness import H
from .interp import Diverge
from .check import where
from . import scan

SIX = ("solution", "compiler", "solutions", "compilers", "solve", "run")
CLS = {"fdm": "FDM", "fvm": "FVM", "fem": "FEM", "pinn": "PINN", "deeponet": "DeepONet"}
METHODS = {
    "numerical": {"FDM": ["fdm", "finite difference method", "finite-difference-method"], "FVM": ["fvm", "finite volume method", "finite-volume-method"],
                  "FEM": ["fem", "finite element method", "finite-element-method"]},
    "analytical": {f"D{d}P{p}": [f"d{d}p{p}", f"{d}d{p}p", f"{d}-dimension-{p}-phase", f"{d}dimension{p}phase"] for d in (1, 2, 3) for p in (1, 2, 3)},
    "neurical": {"PINN": ["pinn", "physics informed neural network", "physics-informed-neural-network"], "DeepONet": ["deeponet", "deep operator network", "deep-operator-network"]},
}
STYPES = {"numerical": ["n", "num", "numerical"], "analytical": ["a", "ana", "analytical"], "neurical": ["nn", "neu", "neurical"]}
READY = {"FDM", "D1P1"}
ISOLVERS = ["bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"]
SCALED = {"time": "time_scaler", "space": "space_scaler", "pressure": "pressures_scaler", "rate": "rates_scaler"}
SCALER_COLS = {"time": {"time"}, "t": {"time"}, "space": {"space"}, "pressure": {"pressure"}, "pressures": {"pressure"}, "p": {"pressure"}, "rate": {"rate"}, "rates": {"rate"}, "q": {"rate"},
               "spatial": {"space"}, "xyz": {"space"}, "x": {"space"}, "y": {"space"}, "z": {"space"}, "all": set(SCALED)}


class Out:
    """one outcome of a run: refused with a kind of error, or the label it selected"""

    def __init__(self, refused=None, label=None, kept=True, why=""):
        self.refused, self.label, self.kept, self.why = refused, label, kept, why


def variants(n):
    return {n, n.upper(), n.capitalize(), "".join(c.upper() if i % 2 else c for i, c in enumerate(n))}


def nearmiss(n):
    return {n + "x", "x" + n, n[1:], n[:-1], " " + n, n + " ", n.replace("-", "_") + ("_" if "-" not in n else "")}


def attempt(ck, rule, wh, case, f):
    try:
        return f()
    except Exception as e:
        ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)


def constants(guard, S):
    """string constants a symbolic name is compared with; None when it is used in another way"""
    atoms = find_all(guard, lambda t: t.op == "eq" and contains(t, S))
    consts = set()
    for a in atoms:
        k = [x for x in a.args if x.op == "str"]
        o = [x for x in a.args if x.op != "str"]
        if len(k) != 1 or len(o) != 1:
            return None, atoms
        if o[0] is S or (o[0].op in ("lower", "upper", "strip", "casefold") and o[0].args[0] is S):
            consts.add(k[0].args[0])
        elif o[0].op != "fmt" and o[0].op != "concat":  # text built around the name equals a constant for few names only
            return None, atoms
    rest = assume(guard, {a: False for a in atoms})
    return (None if contains(rest, S) else consts), atoms


def names(ck, rule, wh, case, run, documented, fold=True, exact=True):
    """run(term) -> (refusal guard, error kinds, outcome()) where outcome() describes a run with a constant name"""
    S = sym("name", "str")
    pool = set()
    r = attempt(ck, rule + ": any other name is refused", wh, case, lambda: run(S))
    if r is not None:
        g, kinds, _ = r
        cs, atoms = constants(g, S)
        if cs is None:
            ck.undecided(rule + ": any other name is refused", wh, "the name is not only compared with constants", case)
        else:
            rest = settle(assume(g, {a: False for a in atoms}))
            ck.truth(rule + ": any other name is refused", wh, True if rest is TRUE else False if rest is FALSE else None, f"for a name equal to none of {len(cs)} constants the refusal condition is {rest}", case)
        pool |= cs or set()
    exp = {}
    for n, lab in documented.items():
        for v in (variants(n) if fold else {n}):
            exp[v] = lab
    pool |= set(exp)
    for n in documented:
        pool |= {m for m in nearmiss(n)}
    pool.add("")
    for n in sorted(pool):
        lab = exp.get(n, exp.get(n.lower()) if fold else None)
        if n not in exp and not fold and n.lower() in exp:
            continue
        r = attempt(ck, rule, wh, f"{case} name={n!r}", lambda: run(string(n)))
        if r is None:
            continue
        g, kinds, outcome = r
        cs = f"{case} name={n!r}"
        if g is not TRUE and g is not FALSE:
            ck.undecided(rule, wh, f"refusal condition {g}", cs)
            continue
        o = attempt(ck, rule, wh, cs, outcome)
        if o is None:
            continue
        if lab is None:
            if o.refused is None:
                ck.bad(rule + ": unknown names are refused", wh, f"{n!r} is not a documented name but selects {o.label}", cs)
            elif o.refused != {"ValueError"}:
                ck.bad(rule + ": unknown names are refused", wh, f"{n!r} is refused with {sorted(o.refused)} instead of ValueError", cs)
            elif not o.kept:
                ck.bad(rule + ": a refused name changes nothing", wh, f"{n!r}: {o.why}", cs)
            else:
                ck.ok(rule + ": unknown names are refused", wh, "ValueError, nothing changed", cs)
        else:
            ck.truth(rule, wh, o.label == lab, f"{n!r} selects {o.label if o.label is not None else 'nothing: refused with ' + str(sorted(o.refused or ()))}, documented as {lab}", cs)


# ------------------------------------------------------------------------- models
def spied(ck, **kw):
    m = Model(ck.src, "x", compiled=False, **kw)
    m.made = []
    orig = m.ip.instantiate

    def inst(c, *a, **k):
        m.made.append(c)
        return orig(c, *a, **k)
    m.ip.instantiate = inst
    return m


def snap(m, st, names=SIX):
    return {n: m.ip.freeze(m.ip.getattr(m.obj, n, st), st) for n in names}


def changed(m, before, st, names=SIX):
    """attributes that differ from before (list), None entries when not comparable"""
    out = []
    after = snap(m, st, names)
    for n in names:
        if after[n] is not before[n]:
            out.append(n)
    return out


def issol(ck, c):
    return any(k.name == "Solution" for k in ck.src.mro(c))


def compiling(ck, m, args):
    """compile with the given arguments; (refusal guard, kinds, outcome)"""
    m.made.clear()
    before = snap(m, m.st)
    m.call("compile", *args)
    g, kinds = m.refusal()
    made = [c.name for c in m.made if issol(ck, c)]
    raises, last = list(m.raises), m.last

    def outcome():
        if g is TRUE:
            bad = []
            for e in raises:
                bad += changed(m, before, e.state)
            lab = made[0] if len(set(made)) == 1 and kinds == {"NotImplementedError"} else None
            return Out(refused=kinds, label=lab, kept=not bad, why=f"changed {sorted(set(bad))}")
        s = m.ip.getattr(m.obj, "solution", last)
        return Out(label=m.ip.clsof(s).name if m.ip.clsof(s) else str(s))
    return g, kinds, outcome


def c19(ck):
    src = ck.src
    wh = where(src, "BlackOil", "compile")
    m = attempt(ck, "construct", wh, "", lambda: spied(ck))
    if m is not None:
        ck.note(m.ip)
        meth = {"numerical": ("fdm", "FDM"), "analytical": ("1d1p", "D1P1"), "neurical": ("pinn", "PINN")}
        for st, (mn, lab) in meth.items():
            # the solution type: the same method name under every spelling of the type
            doc = {n: lab for n in STYPES[st]}
            others = {n for s2 in STYPES if s2 != st for n in STYPES[s2]}

            def run(x, mn=mn, others=others):
                return compiling(ck, m, (x, string(mn)))
            names(ck, "a solution type's names select it", wh, f"type={st}", lambda x: run(x), dict(doc), True)
            doc = {n: c for c, ns in METHODS[st].items() for n in ns}
            for spelled in STYPES[st][-1:]:
                names(ck, "a solution method's names select it", wh, f"type={spelled}", lambda x: compiling(ck, m, (string(spelled), x)), doc, True)
        for v, ok in ((TRUE, True), (FALSE, True), (ONE, False), (ZERO, False), (NONE, False), (string("True"), False), (string(""), False)):
            r = attempt(ck, "the storage option is a bool", wh, str(v), lambda: compiling(ck, m, (string("numerical"), string("fdm"), v)))
            if r is None or r[0] not in (TRUE, FALSE):
                ck.undecided("the storage option is a bool", wh, "", str(v))
                continue
            o = attempt(ck, "the storage option is a bool", wh, str(v), r[2])
            if o:
                ck.truth("the storage option is a bool", wh, (o.refused is None) if ok else (o.refused == {"ValueError"} and o.kept), f"{v}: refused={o.refused} {o.why}", str(v))
        scalers(ck, m)
    isolvers(ck)
    options(ck)
    tables(ck)


def scalers(ck, m):
    wh = where(ck.src, "BlackOil", "set_scalers")
    attrs = tuple(SCALED.values()) + ("scalers_dict",)
    OUT = mk("tup", sym("lo", "num"), sym("hi", "num"))

    def go(d):
        before = snap(m, m.st, attrs)
        m.call("set_scalers", d)
        g, kinds = m.refusal()
        raises, last = list(m.raises), m.last

        def outcome():
            if g is TRUE:
                bad = sum((changed(m, before, e.state, attrs) for e in raises), [])
                return Out(refused=kinds, kept=not bad, why=f"changed {sorted(set(bad))}")
            return Out(label=frozenset(k for k, a in SCALED.items() if m.ip.getattr(m.obj, a, last) is not m.ip.getattr(m.obj, a, m.st)))
        return g, kinds, outcome
    doc = {n: frozenset(v) for n, v in SCALER_COLS.items()}
    names(ck, "a scaler column's names configure it and no other", wh, "MinMax", lambda x: go({x: mk("tup", string("MinMax"), OUT)}), doc, True)
    names(ck, "a scaler column's names configure it and no other", wh, "no scaling", lambda x: go({x: mk("tup", NONE, NONE)}), doc, True)
    for first in ("time", "rate"):
        names(ck, "a scaler column's names configure it and no other", wh, f"after {first}", lambda x: go({string(first): mk("tup", string("MinMax"), OUT), x: mk("tup", string("MinMax"), OUT)}),
              {n: frozenset(v | {first}) for n, v in SCALER_COLS.items()}, True)

    def kind(x):
        def run():
            before = snap(m, m.st, attrs)
            m.call("set_scalers", {"pressure": mk("tup", string("MinMax"), OUT), "space": mk("tup", x, OUT)})
            g, kinds = m.refusal()
            raises, last = list(m.raises), m.last

            def outcome():
                if g is TRUE:
                    bad = sum((changed(m, before, e.state, attrs) for e in raises), [])
                    return Out(refused=kinds, kept=not bad, why=f"changed {sorted(set(bad))}")
                s = m.ip.getattr(m.obj, SCALED["space"], last)
                c = m.ip.clsof(s)
                return Out(label=c.name if c else str(s))
            return g, kinds, outcome
        return run()
    names(ck, "a scaler's names select it", wh, "", kind, {"minmax": "MinMax", "minmaxscaler": "MinMax"}, True)


def isolvers(ck):
    r = ck.src.resolve("reservoirflow.solutions.numerical.solvers", "get_isolver")
    wh = "reservoirflow/solutions/numerical/solvers.py:get_isolver"
    if not r or r[0] != "func":
        ck.undecided("a linear solver's name selects it", wh, "function not found")
        return

    def run(x):
        h = H(ck.src)
        f = h.ip.resolved(r, h.st)
        try:
            v = h.ip.apply(f, [x], {}, h.st)
        except Diverge:
            v = None
        ck.note(h.ip)
        g = bor(*[e.guard for e in h.ip.raises])
        kinds = {e.value.args[0] for e in h.ip.raises if e.value.op == "exc"}

        def outcome():
            if g is TRUE:
                return Out(refused=kinds)
            return Out(label=str(v.args[0]) if v.op == "ext" else str(v))
        return g, kinds, outcome
    names(ck, "a linear solver's name selects it", wh, "", run, {n: "scipy.sparse.linalg." + n for n in ISOLVERS}, False)


FMTS = ["array", "list", "tuple", "set"]
OPTIONS = [  # method, option, documented values, other arguments
    ("get_cells_d", "dir", ["x", "y", "z", "-", "all", "dict"], {}),
    ("get_cells_A", "dir", ["x", "y", "z", "-", "all", "dict"], {}),
    ("get_cells_k", "dir", ["x", "y", "z"], {}),
    ("get_order", "type", ["natural"], {}),
    ("get_boundaries", "by", ["id", "coords"], {}),
    ("get_boundaries", "fmt", FMTS, {}),
    ("get_prop", "name", ["kx", "ky", "kz", "phi", "z"], {}),
    ("get_prop", "fmt", FMTS, dict(name="phi", fshape=False)),
    ("get_cells_id", "fmt", FMTS, dict(fshape=False)),
    ("get_cells_coords", "fmt", FMTS, dict(fshape=False)),
    ("get_cell_neighbors", "fmt", FMTS + ["dict"], dict(id=sym("c", "int", 0), boundary=True)),
    ("get_cell_boundaries", "fmt", FMTS + ["dict"], dict(id=sym("c", "int", 0))),
]


def settle(c):
    """TRUE / FALSE when the condition is a propositional tautology / contradiction of its atoms"""
    if c is TRUE or c is FALSE:
        return c
    atoms = []

    def walk(t):
        if t.op in ("and", "or", "not"):
            for x in t.args:
                walk(x)
        elif t is not TRUE and t is not FALSE and t not in atoms:
            atoms.append(t)
    walk(c)
    if len(atoms) > 12:
        return c

    def ev(t, env):
        if t.op == "and":
            return all(ev(x, env) for x in t.args)
        if t.op == "or":
            return any(ev(x, env) for x in t.args)
        if t.op == "not":
            return not ev(t.args[0], env)
        return t is TRUE or (t is not FALSE and env[t])
    seen = set()
    for k in range(1 << len(atoms)):
        seen.add(ev(c, {a: bool(k >> i & 1) for i, a in enumerate(atoms)}))
        if len(seen) == 2:
            return c
    return TRUE if True in seen else FALSE


def query(g, name, kw):
    s = g.st.copy()
    v = g.ip.call_method(g.obj, name, [], {k: g.val(x, s) for k, x in kw.items()}, s)
    ex = [e for e in g.ip.raises if not any(k.op == "sym" and k.args[0] == "c" for k in find_all(e.guard, lambda t: t.op == "sym")) or e.value.args[0] != "AssertionError"]
    return v, settle(bor(*[e.guard for e in g.ip.raises])), {e.value.args[0] for e in ex if e.value.op == "exc"}


def options(ck):
    for dims in ("x", "xy", "xyz"):
        g = attempt(ck, "construct", where(ck.src, "RegularCartesian", "__init__"), dims, lambda: Grid(ck.src, dims))
        if g is None:
            continue
        ck.note(g.ip)
        S = sym("name", "str")
        for name, opt, doc, kw in OPTIONS:
            wh = where(ck.src, "RegularCartesian", name)
            rule = f"option {opt}: exactly the documented values are accepted"
            if ck.src.find_method(ck.src.cls("RegularCartesian"), name) is None:
                continue
            base = None
            for v in [None] + doc + ["bogus"] + sorted({n for d in doc for n in (d + "s", d[:-1], d.upper() + "?")} - set(doc)):
                x = S if v is None else string(v)
                case = f"dims={dims} {opt}={'any other' if v is None else repr(v)}"
                try:
                    r, ref, kinds = query(g, name, {**kw, opt: x})
                except Exception as e:
                    ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)
                    continue
                if v is None:
                    cs, atoms = constants(ref, S)
                    if cs is None:
                        ck.undecided(rule, wh, "the value is not only compared with constants", case)
                        continue
                    rest = settle(assume(ref, {a: False for a in atoms}))
                    ck.truth(rule, wh, True if rest is TRUE and kinds <= {"ValueError", "AssertionError"} else False if rest is FALSE else None, f"refusal condition for other values: {rest}", case)
                    for c in sorted(cs - set(doc)):
                        ck.note(g.ip)
                        try:
                            _, r2, k2 = query(g, name, {**kw, opt: string(c)})
                            ck.truth(rule, wh, True if r2 is TRUE else False if r2 is FALSE else None, f"{c!r} is not documented for {opt} but is accepted", f"dims={dims} {opt}={c!r}")
                        except Exception as e:
                            ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)
                elif v in doc:
                    ck.truth(rule, wh, False if ref is TRUE else None if r is None else True, f"documented value refused: {sorted(kinds)}", case)
                else:
                    ck.truth(rule, wh, (kinds == {"ValueError"}) if ref is TRUE else False if ref is FALSE else None, f"{v!r}: refusal condition {ref}, {sorted(kinds)}", case)
        # removing and setting
        wh = where(ck.src, "RegularCartesian", "remove_boundaries")
        rule = "option remove: exactly the documented values are accepted"
        for v in (None, "both", "left", "right", "Both", "lef", "leftt", "", "none"):
            x = S if v is None else string(v)
            case = f"dims={dims} remove={v!r}"

            def go():
                a = g.call("get_cells_id", True, True, "array")
                a = g.ip.call_method(g.obj, "get_cells_id", [TRUE, TRUE, string("array")], {}, g.st)
                st = g.st.copy()
                rv = g.ip.call_method(g.obj, "remove_boundaries", [a, FALSE, x], {}, st)
                ref = bor(*[e.guard for e in g.ip.raises])
                kinds = {e.value.args[0] for e in g.ip.raises if e.value.op == "exc"}
                if v is None:
                    cs, atoms = constants(ref, S)
                    if cs is None:
                        ck.undecided(rule, wh, "the value is not only compared with constants", case)
                        return
                    rest = settle(assume(ref, {t: False for t in atoms}))
                    ck.truth(rule, wh, True if rest is TRUE else False if rest is FALSE else None, f"refusal condition for other values: {rest}", case)
                    ck.truth(rule, wh, not (cs - {"both", "left", "right"}), f"compared with {sorted(cs)}", case)
                elif v in ("both", "left", "right"):
                    ck.truth(rule, wh, False if ref is TRUE else None if rv is None else True, f"documented value refused: {sorted(kinds)}", case)
                else:
                    ck.truth(rule, wh, (kinds == {"ValueError"}) if ref is TRUE else False if ref is FALSE else None, f"{v!r}: refusal condition {ref}, {sorted(kinds)}", case)
            attempt(ck, rule, wh, case, go)
        wh = where(ck.src, "RegularCartesian", "set_prop")
        rule = "an unknown property is refused and nothing is set"
        for n in ("perm", "k", "kX", "porosity", "", "phi ", "dx"):
            def go():
                st = g.st.copy()
                b = g.ip.freeze(g.ip.getattr(g.obj, "__props__", st), st)
                g.ip.call_method(g.obj, "set_prop", [string(n), sym("val", "num")], {}, st)
                ref = bor(*[e.guard for e in g.ip.raises])
                kinds = {e.value.args[0] for e in g.ip.raises if e.value.op == "exc"}
                same = all(g.ip.freeze(g.ip.getattr(g.obj, "__props__", e.state), e.state) is b for e in g.ip.raises)
                ck.truth(rule, wh, (kinds == {"ValueError"} and same) if ref is TRUE else False if ref is FALSE else None, f"{n!r}: refusal condition {ref}, {sorted(kinds)}, properties kept: {same}", f"dims={dims} {n!r}")
            attempt(ck, rule, wh, f"dims={dims} {n!r}", go)


def tables(ck):
    """no name appears under two entries of a name table written as a literal"""
    import ast
    n = 0
    for name, mod in ck.src.mods.items():
        for node in ast.walk(mod.tree):
            if not isinstance(node, ast.Dict) or len(node.keys) < 2:
                continue
            rows = [(k, v) for k, v in zip(node.keys, node.values) if isinstance(k, ast.Constant) and isinstance(v, (ast.List, ast.Tuple, ast.Set)) and v.elts and all(isinstance(e, ast.Constant) and isinstance(e.value, str) for e in v.elts)]
            if len(rows) < 2 or len(rows) != len(node.keys):
                continue
            n += 1
            own = {}
            for k, v in rows:
                for e in v.elts:
                    own.setdefault(e.value, set()).add(k.value)
            keys = {k.value for k, _ in rows}
            # group words ("all", "cells") name several entries on purpose: they are not an entry's own key
            dup = {w: ks for w, ks in own.items() if len(ks) > 1 and w in {str(x).lower() for x in keys}}
            ck.truth("an entry's own name is listed under no other entry", f"{mod.rel if hasattr(mod, 'rel') else name}:{node.lineno}", not dup, f"{dup}", "")


# ------------------------------------------------------------------------- C18
def belongs(m, st, sol):
    """the current functions are those of the solution sol"""
    out = []
    for n in ("solve", "run"):
        f = m.ip.getattr(m.obj, n, st)
        w = m.ip.getattr(sol, n, st)
        if f is not w:
            out.append(n)
    return out


def dget(d, k):
    for e in reversed(d.args[1:]):
        if e.op == "de" and e.args[1] is k:
            return e.args[2] if e.args[0] is TRUE else None
    return None


def c18(ck):
    src = ck.src
    wh = where(src, "BlackOil", "compile")
    whs = where(src, "BlackOil", "set_solution")
    S0 = [("numerical", "FDM", TRUE), ("numerical", "FDM", FALSE), ("analytical", "1D1P", TRUE), ("analytical", "1D1P", FALSE)]
    histories = [[]] + [[a] for a in S0] + [[a, b] for a in S0 for b in S0] + [S0]
    if ck.tier != "quick":
        histories += [[a, b, c] for a in S0 for b in S0 for c in S0]
    fails = [("numerical", "bogus", TRUE), ("bogus", "FDM", TRUE), ("numerical", "FVM", TRUE), ("numerical", "FEM", FALSE), ("analytical", "2D1P", TRUE), ("analytical", "1D3P", TRUE), ("neurical", "PINN", TRUE), ("neurical", "DeepONet", TRUE), ("numerical", "FDM", ONE),
             ("numerical", "FDM", NONE), ("numerical", "FDM", string("yes")), ("numerical", "1D1P", TRUE), ("", "", TRUE), ("analytical", "FDM", FALSE)]
    for hist in histories:
        m = attempt(ck, "construct", wh, str(hist), lambda: spied(ck))
        if m is None:
            continue
        hc = "after " + (", ".join(f"{a}/{b}/{c}" for a, b, c in hist) or "nothing")

        def build():
            for a in hist:
                m.ip.call_method(m.obj, "compile", [string(a[0]), string(a[1]), a[2]], {}, m.st)
        try:
            build()
        except Exception as e:
            ck.undecided("construct", wh, f"{type(e).__name__}: {e}", hc)
            continue
        ck.note(m.ip)
        before = snap(m, m.st)
        # a successful compile
        for a in (S0 if len(hist) < 2 else S0[:1]):
            case = hc + f"; compile {a[0]}/{a[1]}/{a[2]}"

            def good():
                st = m.st.copy()
                m.ip.call_method(m.obj, "compile", [string(a[0]), string(a[1]), a[2]], {}, st)
                if m.ip.raises:
                    ck.undecided("compiling makes solution, compiler, step and run current together", wh, "refusals on some path", case)
                    return
                sol, comp = m.ip.getattr(m.obj, "solution", st), m.ip.getattr(m.obj, "compiler", st)
                new = sol is not before["solution"] and m.ip.clsof(sol) is not None
                ck.truth("compiling makes solution, compiler, step and run current together", wh, new and not belongs(m, st, sol), f"new solution {new}; not its own: {belongs(m, st, sol)}", case)
                ck.truth("compiling makes solution, compiler, step and run current together", wh, comp is not before["compiler"] and m.ip.clsof(comp) is not None, "the compiler is not the new one", case)
                ss, cc = m.ip.freeze(m.ip.getattr(m.obj, "solutions", st), st), m.ip.freeze(m.ip.getattr(m.obj, "compilers", st), st)
                mine = [e.args[1] for e in ss.args[1:] if e.op == "de" and e.args[2] is sol]
                minec = [e.args[1] for e in cc.args[1:] if e.op == "de" and e.args[2] is comp]
                ck.truth("compiling registers solution and compiler under one name", wh, len(mine) == 1 and mine == minec, f"solution under {mine}, compiler under {minec}", case)
                keep = {e.args[1]: e.args[2] for e in before["solutions"].args[1:]}
                lost = [k for k, v in keep.items() if k not in mine and dget(ss, k) is not v]
                ck.truth("other registered solutions stay registered", wh, not lost, f"lost or replaced: {lost}", case)
                other = [(b, [e.args[1] for e in before["solutions"].args[1:]]) for b in hist if b[:1] + (b[1].upper(),) + b[2:] != a[:1] + (a[1].upper(),) + a[2:]]
                ck.truth("different solutions have different names", wh, len(ss.args) - 1 == len({(x[0], x[1], x[2]) for x in hist + [a]}), f"{len(ss.args) - 1} names for {len({(x[0], x[1], x[2]) for x in hist + [a]})} solutions", case)
            attempt(ck, "compiling makes solution, compiler, step and run current together", wh, case, good)
        # refused compiles
        for a in fails:
            case = hc + f"; compile {a[0]}/{a[1]}/{a[2]}"

            def bad():
                st = m.st.copy()
                m.ip.call_method(m.obj, "compile", [string(a[0]), string(a[1]), a[2]], {}, st)
                ref = bor(*[e.guard for e in m.ip.raises])
                if ref is not TRUE:
                    ck.undecided("a compile that fails changes nothing", wh, f"not refused on every path: {ref}", case)
                    return
                ch = sorted({n for e in m.ip.raises for n in changed(m, before, e.state)})
                ck.truth("a compile that fails changes nothing", wh, not ch, f"changed after the refusal: {ch}", case)
            attempt(ck, "a compile that fails changes nothing", wh, case, bad)
        # a solution constructor that fails half-way
        for cls in ("FDM", "D1P1"):
            a = next(x for x in S0 if CLS.get(x[1].lower(), "D1P1") == cls)
            case = hc + f"; the constructor of {cls} raises"

            def boom():
                def ctr(ip, o, b, st2):
                    ip.raise_(st2, "MemoryError", "boom", None)
                    raise Diverge("MemoryError")
                m.ip.contracts[(cls, "__init__")] = ctr
                m.ip.contracts[("Solution", "__init__")] = ctr
                try:
                    st = m.st.copy()
                    m.ip.call_method(m.obj, "compile", [string(a[0]), string(a[1]), a[2]], {}, st)
                finally:
                    m.ip.contracts.pop((cls, "__init__"), None)
                    m.ip.contracts.pop(("Solution", "__init__"), None)
                ref = bor(*[e.guard for e in m.ip.raises])
                if ref is not TRUE:
                    ck.undecided("a compile that fails changes nothing", wh, f"not refused on every path: {ref}", case)
                    return
                ch = sorted({n for e in m.ip.raises for n in changed(m, before, e.state)})
                ck.truth("a compile that fails changes nothing", wh, not ch, f"changed after the error: {ch}", case)
            attempt(ck, "a compile that fails changes nothing", wh, case, boom)
        # switching
        ss, cc = before["solutions"], before["compilers"]
        for e in ss.args[1:]:
            case = hc + f"; switch to {e.args[1]}"

            def sw():
                st = m.st.copy()
                m.ip.call_method(m.obj, "set_solution", [e.args[1]], {}, st)
                if m.ip.raises:
                    ck.bad("switching makes the named solution current", whs, "a registered name is refused", case)
                    return
                sol = m.ip.getattr(m.obj, "solution", st)
                ck.truth("switching makes the named solution current", whs, sol is e.args[2], f"current solution is {sol}", case)
                ck.truth("switching makes the named solution current", whs, m.ip.getattr(m.obj, "compiler", st) is dget(cc, e.args[1]), "the compiler is another one", case)
                ck.truth("switching makes the named solution current", whs, not belongs(m, st, e.args[2]), f"{belongs(m, st, e.args[2])} belong to another solution", case)
                ck.truth("switching keeps the registries", whs, m.ip.freeze(m.ip.getattr(m.obj, "solutions", st), st) is ss and m.ip.freeze(m.ip.getattr(m.obj, "compilers", st), st) is cc, "the registries changed", case)
            attempt(ck, "switching makes the named solution current", whs, case, sw)
        S = sym("name", "str")

        def unknown():
            st = m.st.copy()
            m.ip.call_method(m.obj, "set_solution", [S], {}, st)
            ref = bor(*[x.guard for x in m.ip.raises])
            want = band(*[bnot(eq(S, e.args[1])) for e in ss.args[1:]])
            ck.same("exactly the unregistered names are refused", whs, ref, want, case=hc)
            ch = sorted({n for x in m.ip.raises for n in changed(m, before, x.state)})
            atoms = [t for x in m.ip.raises for t in find_all(x.guard, lambda t: t.op == "eq" and contains(t, S))]
            ck.truth("a refused switch changes nothing", whs, not ch, f"changed: {ch}", hc)
        attempt(ck, "exactly the unregistered names are refused", whs, hc, unknown)


# ------------------------------------------------------------------------- C23
UNFINISHED = {
    "solutions": ["FVM", "FEM", "D1P2", "D1P3", "D2P1", "D2P2", "D2P3", "D3P1", "D3P2", "D3P3", "PINN", "DeepONet"],
    "grids": ["IrregularCartesian", "Radial"], "fluids": ["TwoPhase", "ThreePhase", "MultiPhase"], "models": ["Compositional", "Thermal"], "wells": ["MultiCell", "Directional"],
}
SIBLING = {"solutions": "FDM", "grids": "RegularCartesian", "fluids": "SinglePhase", "models": "BlackOil", "wells": "SingleCell"}
ABSTRACT = ["Grid", "Fluid", "Model", "Well", "Solution", "Scaler", "Backend"]
FINISHED = ["RegularCartesian", "SinglePhase", "BlackOil", "SingleCell", "FDM", "D1P1", "MinMax", "Dummy"]


def c23(ck):
    src = ck.src
    for kind, cs in UNFINISHED.items():
        sib = src.cls(SIBLING[kind])
        fi = src.find_method(sib, "__init__") if sib else None
        ps = scan.params(fi.node.args and fi.node)[0][1:] if fi is not None else []
        for cn in cs:
            c = src.cls(cn)
            wh = where(src, cn, "__init__") if c else cn
            rule = "an unfinished component refuses with NotImplementedError"
            if c is None:
                ck.undecided(rule, cn, "class not found")
                continue
            ways = [("no arguments", [], {})]
            ways += [(f"{n} positional", [sym(f"a{i}", "any") for i in range(n)], {}) for n in (1, 2, 3, len(ps))]
            ways += [("sibling's keywords", [], {p: sym(p, "any") for p in ps}), ("one keyword", [], {p: sym(p, "any") for p in ps[:1]}), ("positional and keyword", [sym("a0", "any")], {p: sym(p, "any") for p in ps[1:2]})]
            for how, a, k in ways:
                def go():
                    h = H(src)
                    o = None
                    try:
                        o = h.ip.instantiate(c, list(a), dict(k), h.st)
                    except Diverge:
                        pass
                    ck.note(h.ip)
                    ref, kinds = bor(*[e.guard for e in h.ip.raises]), {e.value.args[0] if e.value.op == "exc" else "?" for e in h.ip.raises}
                    ck.truth(rule, wh, kinds == {"NotImplementedError"} if ref is TRUE else None if contains_op(ref, ("unk",)) else False, f"constructed with {how}: refusal condition {ref}, {sorted(kinds)}", how)
                attempt(ck, rule, wh, how, go)
    # selecting an unfinished solution method
    wh = where(src, "BlackOil", "compile")
    rule = "selecting an unfinished solution method refuses with NotImplementedError"
    m = attempt(ck, rule, wh, "", lambda: spied(ck))
    if m is not None:
        for st in METHODS:
            for cn, ns in METHODS[st].items():
                if cn in READY:
                    continue
                for n in ns:
                    for sp in (TRUE, FALSE):
                        def go():
                            g, kinds, outcome = compiling(ck, m, (string(st), string(n), sp))
                            ck.truth(rule, wh, kinds == {"NotImplementedError"} if g is TRUE else False if g is FALSE else None, f"refusal condition {g}, {sorted(kinds)}", f"{st}/{n}/{sp}")
                        attempt(ck, rule, wh, f"{st}/{n}", go)
        wh1 = where(src, "D1P1", "solve")
        for kw in ({}, ):
            def go():
                st = m.st.copy()
                m.ip.call_method(m.obj, "compile", [string("analytical"), string("1D1P")], {}, st)
                s = m.ip.getattr(m.obj, "solution", st)
                m.ip.call_method(s, "solve", [], {}, st)
                ref, kinds = bor(*[e.guard for e in m.ip.raises]), {e.value.args[0] for e in m.ip.raises}
                ck.truth("the analytical solution has no single step and says so", wh1, kinds == {"NotImplementedError"} if ref is TRUE else False if ref is FALSE else None, f"refusal condition {ref}, {sorted(kinds)}", "")
            attempt(ck, "the analytical solution has no single step and says so", wh1, "", go)
    for cn in ABSTRACT:
        c = src.cls(cn)
        if c is None:
            ck.undecided("an abstract interface cannot be instantiated", cn, "class not found")
            continue
        h = H(src)
        miss = h.ip.abstract_missing(c)
        ck.truth("an abstract interface cannot be instantiated", where(src, cn, "__init__"), bool(miss), f"no abstract member keeps {cn} from being instantiated", cn)
    for cn in FINISHED:
        c = src.cls(cn)
        if c is None:
            ck.undecided("an implemented component is complete", cn, "class not found")
            continue
        miss = H(src).ip.abstract_missing(c)
        ck.truth("an implemented component is complete", where(src, cn, "__init__"), not miss, f"abstract members left: {sorted(miss) if miss else ''}", cn)
