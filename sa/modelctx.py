"""Abstract simulation models: a symbolic grid, fluid, BlackOil model and (optionally) a compiled finite-difference solution."""
from .terms import *
from .gridctx import *
from .interp import Interp, St, Diverge
from . import models as M


class Model:
    def __init__(self, src, dims, unify=True, comp=True, compiled=True, sparse=FALSE, contracts=None, props="arr", widths="arr", unit=None, well=None, pi="PI", prepare=None, verbose=None, grid=None, state=True):
        self.src, self.dims, self.unify = src, dims, unify
        self.g = g = grid or Grid(src, dims, unify, widths=widths, props=props, unit=unit, contracts=contracts)
        self.ip = ip = g.ip
        self.st = st = g.st
        self.mu, self.B = sym("MU", "num"), sym("B", "num")
        if comp:
            ip.call_method(g.obj, "set_comp", [sym("CR", "int", 1)], {}, st)
        kw = {} if unit is None else {"unit": unit}
        self.fluid = ip.instantiate(src.cls("SinglePhase"), [], dict(mu=self.mu, B=self.B, rho=sym("RHO", "num"), comp=sym("CF", "int", 1) if comp else ZERO, **kw), st)
        if prepare:
            prepare(self)
        kw = dict(kw)
        if pi is not None:
            kw["pi"] = sym(pi, "num")
        if verbose is not None:
            kw["verbose"] = boolc(verbose)
        self.obj = ip.instantiate(src.cls("BlackOil"), [g.obj, self.fluid], dict(dt=sym("DT", "num"), **kw), st)
        self.sol = None
        if compiled:
            ip.call_method(self.obj, "compile", [string("numerical"), string("FDM")], {"sparse": sparse}, st)
            self.sol = ip.getattr(self.obj, "solution", st)
            self.tstep = t = sym("tstep", "int", 0)
            if state:
                for n in ("pressures", "rates"):
                    ip.setattr(self.sol, n, ip.alloc(st, M.mkarr((add(t, ONE), g.nb), lambda x, n=n: mk("at", sym(n, "arr"), *x))), st)
                ip.setattr(self.sol, "tstep", t, st)

    @property
    def case(self):
        return self.g.case

    def run(self, o, name, *args, st=None, **kw):
        """call o.name in state st (default: a copy); returns value, keeps .last, .raises"""
        s = st if st is not None else self.st.copy()
        v = self.ip.call_method(o, name, [self.g.val(x, s) for x in args], {k: self.g.val(x, s) for k, x in kw.items()}, s)
        self.last = s
        self.raises = list(self.ip.raises)
        return self.ip.freeze(v, s) if v is not None else None

    def call(self, name, *args, **kw):
        return self.run(self.obj, name, *args, **kw)

    def get(self, o, name, st=None):
        s = st or self.st
        return self.ip.freeze(self.ip.getattr(o, name, s), s)

    def refusal(self):
        return bor(*[e.guard for e in self.raises]), {e.value.args[0] for e in self.raises if e.value.op == "exc"}
