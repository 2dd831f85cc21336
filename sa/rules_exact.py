"""C24: the exact one-dimensional single-phase solution."""
from .terms import *
from .gridctx import *
from .modelctx import Model
from .check import where
from .rules_comp import factor
from .rules_step import attempt
from . import models as M

PARALLEL = ("C24",)
D = "D1P1"


def least(*v):
    r = v[0]
    for x in v[1:]:
        r = ite(lt(x, r), x, r)
    return r


def most(*v):
    r = v[0]
    for x in v[1:]:
        r = ite(lt(r, x), x, r)
    return r


class Exact:
    """a compiled analytical solution with pressures at both ends"""

    def __init__(self, src, dims, unify, widths, props, unit=None, verbose=None):
        self.m = m = Model(src, dims, unify, compiled=False, widths=widths, props=props, unit=None if unit is None else string(unit), verbose=verbose)
        self.g, self.ip, self.st = m.g, m.ip, m.st
        ip, st, g = self.ip, self.st, self.g
        self.a = dims
        self.last = sub(g.NB[dims], ONE)
        self.L, self.R, self.I = sym("PL", "num"), sym("PR", "num"), sym("PI", "num")
        for id, v in ((ZERO, self.L), (self.last, self.R)):
            ip.call_method(m.obj, "set_boundary", [id, string("pressure"), v], {}, st)
        ip.call_method(m.obj, "compile", [string("analytical"), string("1D1P")], {}, st)
        self.sol = ip.getattr(m.obj, "solution", st)

    def levels(self, t, st):
        self.ip.setattr(self.sol, "tstep", t, st)
        self.ip.setattr(self.sol, "nsteps", add(t, ONE), st)

    def alpha(self, i):
        m, g = self.m, self.g
        mob = divide(mul(factor(m, m.obj, "transmissibility conversion"), g.prop("k" + self.a, i)), mul(m.mu, m.B))
        return divide(mob, divide(mul(g.prop("phi", i), add(sym("CR", "int", 1), sym("CF", "int", 1))), mul(factor(m, m.obj, "volume conversion"), m.B)))

    def position(self, i):
        g = self.g
        at = lambda i: g.center(self.a, g.coords(i))
        return divide(sub(at(i), at(ZERO)), sub(at(self.last), at(ZERO)))

    def length(self):
        g = self.g
        return sub(g.center(self.a, g.coords(self.last)), g.center(self.a, g.coords(ZERO)))

    def scaled(self, N, clean):
        """scaled pressure at a time level and a cell"""
        lo, hi = least(self.L, self.R, self.I), most(self.L, self.R, self.I)
        sc = lambda p: divide(sub(p, lo), sub(hi, lo))
        l, r, i0 = sc(self.L), sc(self.R), sc(self.I)
        pi = mk("sym", "pi", "num", None)
        len2 = mul(self.length(), self.length())

        def at(t, i):
            x = self.position(i)
            td = divide(mul(self.alpha(i), mul(sym("DT", "num"), t)), len2)
            v = fresh_bv(N)
            n = add(v, ONE)
            sgn = ite(eq(imod(n, num(2)), ZERO), ONE, num(-1))
            c = add(divide(sub(i0, l), n), mul(divide(sub(r, i0), n), sgn))
            body = mul(mul(c, call_("sin", mul(mul(n, pi), x))), call_("exp", mul(num(-1), mul(mul(mul(n, n), mul(pi, pi)), td))))
            p = add(add(l, mul(sub(r, l), x)), mul(divide(num(2), pi), bigsum(v, mk("range", N), TRUE, body)))
            if clean:
                p = ite(lt(p, ZERO), ZERO, ite(lt(ONE, p), ONE, p))
            return p
        return at, lo, hi


def call_(name, x):
    return mk(name, x)


def c24(ck):
    src = ck.src
    wh, wr = where(src, D, "calc_solution"), where(src, D, "run")
    rule = "the pressure is the series solution"
    T, N = sym("tstep", "int", 0), sym("NT", "int", 1)
    for d in "xyz":
        for u in (True, False):
            for widths, props in (("arr", "arr"), ("num", "num")):
                for unit in (None, "metric", "lab"):
                    if unit and ck.tier == "quick" and (not u or widths == "num"):
                        continue
                    for scale in (False, True):
                        for clean in (False, True):
                            if ck.part():
                                attempt(ck, rule, wh, f"dims={d} unify={u} widths={widths} unit={unit} scale={scale} clean={clean}", lambda case: direct(ck, src, wh, rule, d, u, widths, props, unit, scale, clean, T, N, case))
                    if ck.part():
                        attempt(ck, "a run gives the same pressures as direct evaluation", wr, f"dims={d} unify={u} widths={widths} unit={unit}", lambda case: through(ck, src, wr, d, u, widths, props, unit, case))


def direct(ck, src, wh, rule, d, u, widths, props, unit, scale, clean, T, N, case):
    k = Exact(src, d, u, widths, props, unit)
    st = k.st.copy()
    k.levels(T, st)
    kw = dict(N=N, scale=boolc(scale), clean=boolc(clean))
    a, b = sym("OA", "num"), sym("OB", "num")
    if scale:
        kw["output_range"] = mk("tup", a, add(a, b))
    v = k.m.run(k.sol, "calc_solution", st=st, **kw)
    ck.note(k.ip)
    at, lo, hi = k.scaled(N, clean)
    f = (lambda p: add(a, mul(p, b))) if scale else (lambda p: add(lo, mul(p, sub(hi, lo))))
    if v is None or v.op != "tup" or len(v.args) != 2:
        ck.undecided(rule, wh, f"result is {show(v)[:80] if v is not None else 'an exception'}", case)
        return
    i, j = sym("Level", "int", 0), sym("Cell", "int", 0)
    facts = [lt(i, add(T, ONE)), lt(j, k.g.nb)]
    e = M.mkarr((add(T, ONE), k.g.nb), lambda x: f(at(x[0], x[1])))
    ck.same(rule, wh, v.args[1], e, case=case, sizes=(0, 2))
    if not scale:
        g = k.g
        e = M.mkarr((add(T, ONE), g.nb, num(2)), lambda x: ite(eq(x[2], ZERO), mul(sym("DT", "num"), x[0]), g.center(d, g.coords(x[1]))))
        ck.same("times and positions are those of the pressures", wh, v.args[0], e, case=case, sizes=(0, 2))


def through(ck, src, wr, d, u, widths, props, unit, case):
    rule = "a run gives the same pressures as direct evaluation"
    k = Exact(src, d, u, widths, props, unit)
    n = sym("NS", "int", 0)
    st = k.st.copy()
    k.m.run(k.sol, "run", st=st, nsteps=n)
    ck.note(k.ip)
    got = k.m.get(k.sol, "pressures", st)
    ck.same("a run of n steps ends at level n", wr, k.m.get(k.sol, "tstep", st), n, case=case)
    ck.same("a run of n steps ends at level n", wr, k.m.get(k.sol, "nsteps", st), add(n, ONE), case=case)
    s2 = k.st.copy()
    k.levels(n, s2)
    v = k.m.run(k.sol, "calc_solution", st=s2)
    ck.same(rule, wr, got, v.args[1] if v is not None and v.op == "tup" else None, case=case, sizes=(0, 2))
