"""One time step of the finite-difference solution with a symbolic history.

The assembled system of a step is replaced by a symbol that depends on everything the system may depend on between two calls
(time level, last pressures and rates, well controls); C10 and C11 decide what the system is."""
from .terms import *
from .modelctx import Model
from .rules_eqs import Summaries
from .rules_grid import cellvars, interior
from . import models as M

FDM = "FDM"


class Step:
    def __init__(self, src, dims="x", unify=True, comp=True, sparse=False, factors=True, extra=None, verbose=None, matrices=True, wells=(), props="arr", widths="arr"):
        self.F = F = Summaries() if factors else None
        self.src = src
        con = F.contracts() if F else {}
        if matrices:
            con.update({(FDM, "get_matrices_vect"): self.assembly("vect"), (FDM, "get_matrices_symb"): self.assembly("symb")})
        con.update(extra or {})
        self.m = m = Model(src, dims, unify, comp=comp, sparse=boolc(sparse), contracts=con, prepare=self.prepare, verbose=verbose, props=props, widths=widths)
        self.g, self.ip, self.st, self.t = m.g, m.ip, m.st, m.tstep
        ip, st, g = m.ip, m.st, m.g
        self.sparse = sparse
        ip.setattr(m.sol, "nsteps", add(self.t, ONE), st)
        n = g.n
        self.put("As", (add(self.t, ONE), mul(n, n)), st)
        self.put("ds", (add(self.t, ONE), n), st)
        for k in ("A", "d", "A_", "d_"):
            self.put(k, (n, n) if k[0] == "A" else (n, ONE), st)
        self.probe, self.pf = cellvars(g, "probe")
        self.ids = []

    def put(self, name, shape, st):
        self.ip.setattr(self.m.sol, name, self.ip.alloc(st, M.mkarr(shape, lambda x: mk("at", sym(name, "arr"), *x))), st)

    def prepare(self, m):
        if self.F:
            self.F.g = m.g

    def get(self, name, st):
        return self.m.get(self.m.sol, name, st)

    def assembly(self, form):
        def f(ip, selfv, a, st):
            ip.event(st, "assembly", string(form), a.get("threading", FALSE))
            return self.system(ip, st)
        return f

    def system(self, ip, st):
        g, key = self.g, self.key(st)
        n = g.n
        A = M.mkarr((n, n), lambda x: mk("at", sym("MA", "fun"), *key, *x))
        d = M.mkarr((n, ONE), lambda x: mk("at", sym("Md", "fun"), *key, x[0]))
        return mk("tup", ip.alloc(st, A), ip.alloc(st, d))

    def rec(self, id, st):
        """record of the well in the cell"""
        ip = self.ip
        return ip.freeze(M.getitem(ip, ip.getattr(self.m.obj, "wells", st), id, st), st)

    def key(self, st):
        t = self.get("tstep", st)
        id = self.g.cid(self.probe)
        key = [t, at(self.get("pressures", st), [t, id]), at(self.get("rates", st), [t, id])]
        for w in self.ids:
            r = self.rec(w, st)
            q = eq(field(self.ip, r, "constrain", st), string("q"))
            key += [ite(q, ONE, ZERO), ite(q, field(self.ip, r, "q", st), field(self.ip, r, "pwf", st))]
        return key

    def x(self, key, i):
        """solved pressure of the i-th interior cell"""
        return mk("at", sym("solve MA Md", "fun"), *key, i)

    def run(self, name, *args, st=None, **kw):
        return self.m.run(self.m.sol, name, *args, st=st, **kw)


def at(c, idx):
    """entry of an array that may be one of several"""
    if c.op == "ite":
        return ite(c.args[0], at(c.args[1], idx), at(c.args[2], idx))
    return M.aget(c, idx) if c.op == "arr" else c


def field(ip, rec, name, st, default=None):
    if rec.op == "ite":
        return ite(rec.args[0], field(ip, rec.args[1], name, st), field(ip, rec.args[2], name, st))
    v, p = M.dict_get(ip, rec, string(name), st)
    return v if v is not None else ZERO
