"""C25: compressibility, storage, gravity and diffusivity."""
from .terms import *
from .gridctx import *
from .harness import H
from .interp import Diverge
from .modelctx import Model
from .check import where
from . import models as M

BO = "BlackOil"
UNITS = ("field", "metric", "lab")
IN, CO = string("incompressible"), string("compressible")


def factor(m, o, name):
    f = m.ip.freeze(m.ip.getattr(o, "factors", m.st), m.st)
    return next(e.args[2] for e in f.args[1:] if e.op == "de" and e.args[1] is string(name))


class Mix(Model):
    """rock and fluid compressibility given (a term) or left alone (None)"""

    def __init__(self, src, dims, unify, rock, fluid, **kw):
        self.rock = rock
        self.fl = fluid
        super().__init__(src, dims, unify, comp=False, compiled=False, prepare=self.prepare, **kw)

    def prepare(self, m):
        if self.rock is not None:
            self.ip.call_method(self.g.obj, "set_comp", [self.rock], {}, self.st)
        self.ip.call_method(self.fluid, "set_comp", [self.fl], {}, self.st)


def makers(src):
    """objects with a compressibility: (name, class that says how, builder)"""
    def grid(h):
        return h.new("RegularCartesian", nx=2, ny=1, nz=1, dx=sym("DX", "num"), dy=sym("DY", "num"), dz=sym("DZ", "num"), kx=sym("KX", "num"), phi=sym("PHI", "num"), z=sym("Z", "num"))

    def fluid(h):
        return h.new("SinglePhase", mu=sym("MU", "num"), B=sym("B", "num"), rho=sym("RHO", "num"), comp=sym("C0", "num"))

    def model(h):
        g, f = grid(h), fluid(h)
        h.call(g, "set_comp", sym("C1", "num"))
        return h.new("BlackOil", g, f, dt=sym("DT", "num"), pi=sym("PI", "num"))
    return (("grid", "RegularCartesian", grid), ("fluid", "SinglePhase", fluid), ("model", BO, model))


def storage(m, comp):
    g = m.g
    vc = factor(m, m.obj, "volume conversion")

    def at(i):
        c = g.coords(i)
        return divide(mul(mul(g.vol(c), g.prop("phi", i)), comp), mul(mul(vc, m.B), sym("DT", "num")))
    return M.mkarr((g.nb,), lambda ix: at(ix[0]))


def flat(t):
    return t


def c25(ck):
    src = ck.src
    X = sym("X", "num")
    for what, cls, make in makers(src):
        wh = where(src, cls, "set_comp")
        for name, before in (("fresh", ()), ("after zero", (ZERO,)), ("after positive", (sym("Y", "num"),)), ("after both", (sym("Y", "num"), ZERO))):
            for v, kind in ((ZERO, IN), (X, CO), (mul(num(-1), X), None), (num(0.5), CO), (num(-1), None)):
                h = H(src)
                o = make(h)
                for b in before:
                    h.call(o, "set_comp", b)
                try:
                    h.call(o, "set_comp", v)
                except Diverge:
                    pass
                ck.note(h.ip)
                case = f"{what} {name}, set_comp({show(v)})"
                new = list(h.ip.raises)
                g = bor(*[e.guard for e in new])
                if kind is None:
                    # random numbers are positive: the refusal must hold for all of them
                    ck.same("a negative compressibility is refused", wh, g, TRUE, case=case)
                    ck.truth("a negative compressibility is refused", wh, {e.value.args[0] for e in new} == {"ValueError"}, "ValueError", case)
                    continue
                ck.same("a compressibility of zero or more is accepted", wh, g, FALSE, case=case)
                ck.same("compressibility type follows the value", wh, h.fz(h.get(o, "comp_type")), kind, case=case)
                ck.same("compressibility is the value set", wh, h.fz(h.get(o, "comp")), v, case=case)

    # through constructors and set_props
    for v, kind in ((ZERO, IN), (X, CO), (mul(num(-1), X), None)):
        h = H(src)
        wh = where(src, "SinglePhase", "__init__")
        try:
            o = h.new("SinglePhase", mu=sym("MU", "num"), B=sym("B", "num"), rho=sym("RHO", "num"), comp=v)
        except Diverge:
            o = None
        g = bor(*[e.guard for e in h.ip.raises])
        case = f"fluid built with comp={show(v)}"
        if kind is None:
            ck.same("a negative compressibility is refused", wh, g, TRUE, case=case)
        elif o is not None:
            ck.same("a compressibility of zero or more is accepted", wh, g, FALSE, case=case)
            ck.same("compressibility type follows the value", wh, h.fz(h.get(o, "comp_type")), kind, case=case)
            ck.same("compressibility is the value set", wh, h.fz(h.get(o, "comp")), v, case=case)
        else:
            ck.bad("a compressibility of zero or more is accepted", wh, "construction fails", case)

    # gravity of the fluid
    for u in UNITS:
        h = H(src)
        o = h.new("SinglePhase", mu=sym("MU", "num"), B=sym("B", "num"), rho=sym("RHO", "num"), comp=sym("C0", "num"), unit=u)
        steps = (("built", None), ("set_rho", ("set_rho", [sym("RHO1", "num")])), ("set_props", ("set_props", [NONE, NONE, sym("RHO2", "num")])), ("set_mu", ("set_mu", [sym("MU1", "num")])))
        rho = sym("RHO", "num")
        for name, how in steps:
            if how:
                h.call(o, how[0], *how[1])
                rho = {"set_rho": sym("RHO1", "num"), "set_props": sym("RHO2", "num")}.get(name, rho)
            gravity(ck, h, o, rho, f"unit={u}, after {name}")
        for u2 in UNITS:
            h.call(o, "set_units", u2)
            gravity(ck, h, o, rho, f"unit={u}, then set_units({u2})")
        ck.note(h.ip)

    # the model: total compressibility, storage, diffusivity
    rules = {"total": "model compressibility is rock plus fluid", "type": "model compressibility type follows the sum", "rhs": "storage is pore volume times compressibility over conversion, volume factor and step"}
    R, F = sym("CR", "int", 1), sym("CF", "int", 1)
    wh, wr, wa = where(src, BO, "__init__"), where(src, BO, "RHS"), where(src, BO, "get_alpha")
    for d in ALLDIMS[1:]:
        for unify in (True, False):
            for widths, props in (("arr", "arr"), ("num", "num")):
                for rock, fluid in ((R, F), (R, ZERO), (ZERO, F), (ZERO, ZERO)):
                    if (rock, fluid) != (R, F) and (widths == "num" or not unify) and ck.tier == "quick":
                        continue
                    case = f"dims={d} unify={unify} widths={widths} rock={props}; rock {show(rock)} fluid {show(fluid)}"
                    try:
                        m = Mix(src, d, unify, rock, fluid, widths=widths, props=props)
                    except Diverge:
                        ck.bad("a compressibility of zero or more is accepted", wh, "construction fails", case)
                        continue
                    total = add(rock, fluid)
                    kind = IN if total is ZERO else CO
                    ck.note(m.ip)
                    ck.same(rules["total"], wh, m.get(m.obj, "comp"), total, case=case)
                    ck.same(rules["type"], wh, m.get(m.obj, "comp_type"), kind, case=case)
                    ck.same(rules["rhs"], wr, m.get(m.obj, "RHS"), storage(m, total), case=case)
                    if d == "x" and total is not ZERO:
                        alpha(ck, m, wa, total, case)
                    # the model's own setting, then a changed formation volume factor and rock
                    m.ip.call_method(m.obj, "set_comp", [X], {}, m.st)
                    ck.same(rules["rhs"], wr, m.get(m.obj, "RHS"), storage(m, X), case=case + ", then set_comp(X)")
                    if d == "x":
                        alpha(ck, m, wa, X, case + ", then set_comp(X)")
                    m.ip.call_method(m.fluid, "set_B", [sym("B2", "num")], {}, m.st)
                    m.B = sym("B2", "num")
                    ck.same(rules["rhs"], wr, m.get(m.obj, "RHS"), storage(m, X), case=case + ", then set_B")
                    m.ip.call_method(m.obj, "set_comp", [ZERO], {}, m.st)
                    ck.same(rules["rhs"], wr, m.get(m.obj, "RHS"), storage(m, ZERO), case=case + ", then set_comp(0)")
    for u in UNITS:
        m = Mix(src, "x", True, R, F, unit=string(u))
        case = f"dims=x unit={u}"
        ck.same(rules["rhs"], wr, m.get(m.obj, "RHS"), storage(m, add(R, F)), case=case)
        alpha(ck, m, wa, add(R, F), case)


def gravity(ck, h, o, rho, case):
    f = h.fz(h.get(o, "factors"))
    val = {e.args[1].args[0]: e.args[2] for e in f.args[1:] if e.op == "de"}
    ck.same("fluid gravity is conversion times density times acceleration", where(ck.src, "SinglePhase", "set_rho"), h.fz(h.get(o, "g")), mul(mul(val["gravity conversion"], rho), val["gravitational acceleration"]), case=case)


def alpha(ck, m, wh, comp, case):
    g = m.g
    tc, vc = factor(m, m.obj, "transmissibility conversion"), factor(m, m.obj, "volume conversion")
    mob = lambda k: divide(mul(tc, k), mul(m.mu, m.B))
    sto = lambda phi: divide(mul(phi, comp), mul(vc, m.B))
    v = m.run(m.obj, "get_alpha")
    k = "k" + (g.dims[:1] or "x")
    e = M.mkarr((g.nb,), lambda ix: divide(mob(g.prop(k, ix[0])), sto(g.prop("phi", ix[0]))))
    if v is not None and v.op != "arr":
        e = divide(mob(g.prop(k, ZERO)), sto(g.prop("phi", ZERO)))
    ck.same("diffusivity is mobility over storage per volume", wh, v, e, case=case)
