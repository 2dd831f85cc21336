"""C13: boundary conditions."""
from .terms import *
from .gridctx import *
from .modelctx import Model
from .interp import Diverge
from .check import where
from .rules_grid import RC, cellvars, interior
from .rules_eqs import Summaries, gsym, same_cell
from . import models as M

BO = "BlackOil"
PARALLEL = ("C13",)
NAMES = {"rate": ("rate", "q", "Rate", "RATE", "rAtE", "Q"), "pressure": ("pressure", "press", "p", "Pressure", "PRESS", "pReSs", "P", "PRESSURE"), "gradient": ("gradient", "grad", "g", "Gradient", "GRAD", "gRaD", "G", "GRADIENT")}
UNKNOWN = ("flux", "", "pp", "rates", "pre", "gra", "gradients", "none", "x", "pressure ", " q", "pressurerate", "r", "qq", "neumann")


class Bound:
    """a model with a symbolic grid; compiled at any time level, or not compiled yet"""

    def __init__(self, src, dims, unify=True, compiled=True, widths="arr", props="arr", factors=True):
        self.F = F = Summaries() if factors else None
        self.m = m = Model(src, dims, unify, compiled=compiled, widths=widths, props=props, contracts=F.contracts() if F else None, prepare=self.prepare)
        self.g, self.ip, self.st = m.g, m.ip, m.st
        self.b, self.facts = cellvars(m.g, "b")
        self.v = sym("V", "num")
        if F:
            F.know(self.b)

    def prepare(self, m):
        if self.F:
            self.F.g = m.g

    def set(self, st, name, cond, v=None, id=None):
        return self.m.run(self.m.obj, "set_boundary", self.g.cid(self.b) if id is None else id, cond, self.v if v is None else v, st=st)

    def T(self, a, c, n):
        return divide(gsym(self.g, a, c, n), mul(self.m.mu, self.m.B))

    def refused(self):
        return bor(*[e.guard for e in self.m.raises])

    def held(self, name, st):
        """the array of a compiled solution, or the one a solution would start with"""
        if self.m.sol is not None:
            return self.m.get(self.m.sol, name, st)
        v = self.ip.call_method(self.m.obj, "get_init_arrays", [], {}, st)
        v = self.ip.freeze(v, st)
        return v.args[{"pressures": 0, "rates": 1}[name]]

    def old(self, name):
        return self.held(name, self.st.copy())

    def level(self):
        return self.m.tstep if self.m.sol is not None else ZERO

    def gradient(self, c, v, old):
        """rate at the boundary cell c: each interior neighbour (at most one) gives transmissibility x width along the face x value"""
        g, r = self.g, old
        for a in g.dims:
            for s in (-1, 1):
                n = dict(c)
                n[a] = add(c[a], num(s))
                r = ite(interior(g, n), mul(mul(self.T(a, c, n), g.width(a, n[a])), v), r)
        return r

    def after(self, name, kind, at=None, v=None):
        """expected content of an array after conditions of that kind were set at one cell (at) or all boundary cells (None)"""
        g, v, old = self.g, self.v if v is None else v, self.old(name)
        t = self.level()

        def f(ix):
            o = M.aget(old, ix)
            here = eq(ix[0], t)
            c = g.coords(ix[1])
            here = band(here, eq(ix[1], g.cid(at)) if at is not None else bnot(interior(g, c)))
            if name == "pressures":
                return ite(here, v, o) if kind == "pressure" else o
            if kind == "rate":
                return ite(here, v, o)
            if kind == "gradient":
                return ite(here, self.gradient(at if at is not None else c, v, o), o)
            return o
        return M.mkarr(old.args[0], f)


def cases(ck, quick):
    for d in ALLDIMS[1:]:
        for compiled in (True, False):
            for unify in (True, False) if ck.tier != "quick" or d in ("x", "xy") else (True,):
                yield d, compiled, unify


def entry(k, st, id):
    ip = k.ip
    bd = ip.getattr(k.m.obj, "bdict", st)
    v = M.getitem(ip, bd, id, st)
    return ip.freeze(v, st)


def c13(ck):
    src = ck.src
    wh, wa, wm = where(src, BO, "set_boundary"), where(src, BO, "set_all_boundaries"), where(src, BO, "set_boundaries")
    only = "only boundary cells can be given a condition"
    known = "only the documented kinds are accepted"
    for d, compiled, unify in cases(ck, True):
        cs = f"dims={d} unify={unify} {'compiled' if compiled else 'not compiled'}"

        def fresh():
            k = Bound(src, d, unify, compiled)
            return k
        for kind, names in NAMES.items():
            for name in names:
                if not ck.part():
                    continue
                case = f"{cs}; {name!r}"
                try:
                    k = fresh()
                    st = k.st.copy()
                    k.set(st, "set_boundary", name)
                    ck.note(k.ip)
                    outside = bnot(interior(k.g, k.b))
                    ck.same(only, wh, k.refused(), interior(k.g, k.b), facts=k.facts, case=case)
                    for arr in ("pressures", "rates"):
                        ck.same(f"{arr} after the condition", wh, k.held(arr, st), k.after(arr, kind, k.b), facts=k.facts + [outside], case=case, sizes=(0, 1))
                    ck.same("the condition is recorded", wh, entry(k, st, k.g.cid(k.b)), mk("tup", string(kind), k.v), facts=k.facts + [outside], case=case)
                except Exception as e:
                    ck.undecided(only, wh, f"{type(e).__name__}: {e}", case)
        # names and cells outside the grid, kinds outside the documented ones
        for id, name in ((lambda g: num(-1), "-1"), (lambda g: g.nb, "the cell count"), (lambda g: add(g.nb, sym("J", "int", 0)), "beyond the last")):
            if ck.part():
                k = fresh()
                k.set(k.st.copy(), "set_boundary", "rate", id=id(k.g))
                ck.same(only, wh, k.refused(), TRUE, case=f"{cs}; cell id {name}")
        for name in UNKNOWN:
            if ck.part():
                k = fresh()
                st = k.st.copy()
                k.set(st, "set_boundary", name)
                ck.same(known, wh, k.refused(), TRUE, facts=k.facts, case=f"{cs}; {name!r}")
        # all at once
        for kind, names in NAMES.items():
            for name in names[:2]:
                if not ck.part():
                    continue
                case = f"{cs}; all {name!r}"
                try:
                    k = fresh()
                    st = k.st.copy()
                    k.m.run(k.m.obj, "set_all_boundaries", name, k.v, st=st)
                    ck.note(k.ip)
                    ck.same("setting all boundaries is accepted", wa, k.refused(), FALSE, case=case)
                    for arr in ("pressures", "rates"):
                        ck.same(f"{arr} after setting all boundaries", wa, k.held(arr, st), k.after(arr, kind), case=case, sizes=(0, 1))
                    ck.same("every boundary cell's condition is recorded", wa, entry(k, st, k.g.cid(k.b)), mk("tup", string(kind), k.v), facts=k.facts + [bnot(interior(k.g, k.b))], case=case)
                except Exception as e:
                    ck.undecided("setting all boundaries equals setting each", wa, f"{type(e).__name__}: {e}", case)
        if not (unify and ck.part()):
            continue
        overwriting(ck, src, d, compiled, cs)
        together(ck, src, d, compiled, cs)


def count(ip, lst, x, st):
    """how often x stands in a list, as a term"""
    lst = ip.freeze(lst, st)
    if lst.op == "ite":
        return ite(lst.args[0], count(ip, lst.args[1], x, st), count(ip, lst.args[2], x, st))
    if lst.op not in ("list", "tup"):
        raise Diverge("list " + lst.op)
    n = ZERO
    for e in lst.args:
        if lst.op == "tup":
            n = add(n, ite(eq(e, x), ONE, ZERO))
        elif e.op == "el":
            n = add(n, ite(band(e.args[0], eq(e.args[1], x)), ONE, ZERO))
        else:
            raise Diverge("list segment " + e.op)
    return n


def overwriting(ck, src, d, compiled, cs):
    """a second condition at the same cell replaces the first, at another cell leaves it alone"""
    wh = where(src, BO, "set_boundary")
    for k1 in NAMES:
        for k2 in NAMES:
            for k3 in ("rate",) if ck.tier == "quick" else NAMES:
                if not ck.part():
                    continue
                case = f"{cs}; {k1} then {k2} then {k3}"
                try:
                    k = Bound(src, d, True, compiled)
                    ip, st = k.ip, k.st.copy()
                    outside = [bnot(interior(k.g, k.b))]
                    id = k.g.cid(k.b)
                    vs = [sym(f"V{i}", "num") for i in range(3)]
                    for kind, v in zip((k1, k2, k3), vs):
                        k.set(st, "set_boundary", kind, v)
                        ck.same("a condition at a boundary cell is accepted again", wh, bor(*[band(*outside, e.guard) for e in k.m.raises]), FALSE, facts=k.facts + outside, case=case)
                        upd = ip.getattr(k.m.obj, "bdict_update", st)
                        ck.same("exactly the pressure conditions are updated each step", wh, count(ip, upd, id, st), ONE if kind == "pressure" else ZERO, facts=k.facts + outside, case=case)
                        ck.same("the last condition counts", wh, entry(k, st, id), mk("tup", string(kind), v), facts=k.facts + outside, case=case)
                except Exception as e:
                    ck.undecided("the last condition counts", wh, f"{type(e).__name__}: {e}", case)


def together(ck, src, d, compiled, cs):
    """set_boundaries: the same as setting each on a model without conditions; the caller's dictionary stays as it was"""
    wh = where(src, BO, "set_boundaries")
    rule = "setting several boundaries equals setting each"
    for k1, n1 in (("rate", "Q"), ("pressure", "Press"), ("gradient", "g")):
        for k2, n2 in (("rate", "rate"), ("pressure", "p"), ("gradient", "GRAD")):
            for first in (None, "rate", "pressure"):
                if not ck.part():
                    continue
                case = f"{cs}; {n1} and {n2} after {first}"
                try:
                    k = Bound(src, d, True, compiled)
                    ip, st = k.ip, k.st.copy()
                    c, cf = cellvars(k.g, "c")
                    if len(d) == 1:  # the two boundary cells of a line
                        k.b, k.facts = {a: ZERO for a in AX}, []
                        c, cf = {a: sub(k.g.NB[a], ONE) if a == d else ZERO for a in AX}, []
                    if k.F:
                        k.F.know(k.b)
                        k.F.know(c)
                    ib, ic = k.g.cid(k.b), k.g.cid(c)
                    facts = k.facts + cf + [bnot(interior(k.g, k.b)), bnot(interior(k.g, c)), bnot(eq(ib, ic))]
                    v, w = sym("V", "num"), sym("W", "num")
                    if first:
                        k.set(st, "set_boundary", first, sym("V0", "num"))
                    given = mk("dict", mk("none"), mk("de", TRUE, ib, mk("tup", string(n1), v)), mk("de", TRUE, ic, mk("tup", string(n2), w)))
                    d1 = ip.unbox(given, st)
                    one = st.copy()
                    k.m.run(k.m.obj, "set_boundaries", d1, st=st)
                    ck.note(ip)
                    ck.same("valid conditions are accepted", wh, bor(*[e.guard for e in k.m.raises]), FALSE, facts=facts, case=case)
                    ck.same("the caller's dictionary is not changed", wh, ip.freeze(d1, st), given, facts=facts, case=case)
                    k.set(one, "set_boundary", n1, v)
                    k.set(one, "set_boundary", n2, w, id=ic)
                    for arr in ("pressures", "rates"):
                        ck.same(f"{rule}: {arr}", wh, k.held(arr, st), k.held(arr, one), facts=facts, case=case, sizes=(0, 1))
                    for id, kind, x in ((ib, k1, v), (ic, k2, w)):
                        ck.same(f"{rule}: recorded condition", wh, entry(k, st, id), mk("tup", string(kind), x), facts=facts, case=case)
                        ck.same(f"{rule}: exactly the pressure conditions are updated each step", wh, count(ip, ip.getattr(k.m.obj, "bdict_update", st), id, st), ONE if kind == "pressure" else ZERO, facts=facts, case=case)
                except Exception as e:
                    ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)
    for bad, id in (("an unknown kind", None), ("an inner cell", None)):
        if not ck.part():
            continue
        case = f"{cs}; {bad} given last"
        try:
            k = Bound(src, d, True, compiled)
            ip, st = k.ip, k.st.copy()
            c, cf = cellvars(k.g, "c")
            if k.F:
                k.F.know(c)
            facts = k.facts + cf + [bnot(interior(k.g, k.b)), bnot(eq(k.g.cid(k.b), k.g.cid(c)))]
            facts.append(interior(k.g, c) if bad == "an inner cell" else bnot(interior(k.g, c)))
            given = mk("dict", mk("none"), mk("de", TRUE, k.g.cid(k.b), mk("tup", string("rate"), k.v)), mk("de", TRUE, k.g.cid(c), mk("tup", string("flux" if bad == "an unknown kind" else "rate"), k.v)))
            k.m.run(k.m.obj, "set_boundaries", ip.unbox(given, st), st=st)
            ck.note(ip)
            ck.same("anything else is refused", wh, bor(*[e.guard for e in k.m.raises]), TRUE, facts=facts, case=case)
        except Exception as e:
            ck.undecided("anything else is refused", wh, f"{type(e).__name__}: {e}", case)
