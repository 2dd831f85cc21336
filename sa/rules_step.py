"""C14: time stepping and its histories; C15: the material balance error."""
from .terms import *
from .gridctx import *
from .modelctx import Model
from .stepctx import Step, field, at
from .interp import Diverge
from .check import where
from .rules_grid import RC, cellvars, interior
from .rules_eqs import gsym, WELLDIMS
from .rules_well import Controlled, STATES1
from .rules_dispatch import settle
from .rules_comp import factor
from . import models as M

BO, FDM = "BlackOil", "FDM"
PARALLEL = ("C14", "C15")
HIST = ("pressures", "rates", "As", "ds")
ISOLVERS = M.ISOLVERS


def symarr(name):
    return lambda *x: mk("at", sym(name, "arr"), *x)


def leaves(t):
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


def order(k, c):
    """place of an interior cell among the interior cells"""
    N = k.g.N
    i = [sub(c[a], ONE) if a in k.g.dims else ZERO for a in "xyz"]
    return add(i[0], mul(N["x"], add(i[1], mul(N["y"], i[2]))))


class Bounded(Step):
    """a step of a model with conditions of every kind at boundary cells"""

    def __init__(self, src, dims, kinds=(), last=False, converges=True, **kw):
        super().__init__(src, dims, **kw)
        st, g = self.st, self.g
        self.ip.converges = converges
        self.b, self.facts = [], list(self.pf)
        for i, kind in enumerate(kinds):
            c, f = cellvars(g, f"b{i}")
            if len(dims) == 1:
                c, f = {a: (ZERO if (i == 0) != last else sub(g.NB[a], ONE)) if a == dims else ZERO for a in AX}, []
            self.F.know(c)
            self.facts += f + [bnot(interior(g, c))] + [bnot(eq(g.cid(c), g.cid(o[0]))) for o in self.b]
            self.b.append((c, kind, sym(f"VB{i}", "num")))
        st.pc = tuple(self.facts)
        for c, kind, v in self.b:
            self.ip.call_method(self.m.obj, "set_boundary", [g.cid(c), string(kind), v], {}, st)
        # what the conditions wrote into the last row is part of the past
        self.start = {n: self.get(n, st) for n in HIST}
        self.prior = self.key(st)

    def grav(self):
        return self.m.get(self.m.fluid, "g")

    def flow(self, c, v, P):
        """rate through a boundary cell held at pressure v"""
        g, r = self.g, None
        gr = self.grav()
        old = at(self.start["rates"], [self.t, g.cid(c)])
        r = old
        for a in g.dims:
            for s in (-1, 1):
                n = dict(c)
                n[a] = add(c[a], num(s))
                T = divide(gsym(g, a, c, n), mul(self.m.mu, self.m.B))
                dz = sub(g.prop("z", g.cid(c)), g.prop("z", g.cid(n)))
                r = ite(interior(g, n), mul(mul(num(2), T), sub(sub(v, P(n)), mul(gr, dz))), r)
        return r

    def expected(self, st):
        g, t = self.g, self.t
        t1, t2 = add(t, ONE), add(t, num(2))
        P = lambda c: self.x(self.prior, order(self, c))
        past, n = self.start, g.n

        def pressures(ix):
            c = g.coords(ix[1])
            return ite(lt(ix[0], t1), at(past["pressures"], ix), ite(interior(g, c), P(c), at(past["pressures"], [t, ix[1]])))

        def rates(ix):
            r = at(past["rates"], [t, ix[1]])
            for c, kind, v in self.b:
                if kind == "pressure":
                    r = ite(eq(ix[1], g.cid(c)), self.flow(c, v, P), r)
            return ite(lt(ix[0], t1), at(past["rates"], ix), r)

        def As(ix):
            return ite(lt(ix[0], t1), symarr("As")(*ix), mk("at", sym("MA", "fun"), *self.prior, idiv(ix[1], n), imod(ix[1], n)))

        def ds(ix):
            return ite(lt(ix[0], t1), symarr("ds")(*ix), mk("at", sym("Md", "fun"), *self.prior, ix[1]))
        return {"pressures": M.mkarr((t2, g.nb), pressures), "rates": M.mkarr((t2, g.nb), rates), "As": M.mkarr((t2, mul(n, n)), As), "ds": M.mkarr((t2, n), ds)}


def attrs(k, st):
    """values of everything the model, its grid and its fluid hold"""
    out = {}
    for o in (k.m.obj, k.g.obj, k.m.fluid):
        for key in k.st.heap:
            if key[0] == "a" and key[1] is o and isinstance(key[2], str) and key[2] not in ("solution", "solutions", "compiler"):
                out[(o, key[2])] = k.ip.freeze(k.ip.getattr(o, key[2], st), st)
    return out


def options(ck, quick):
    for sparse in (False, True):
        for iso in (None,) + (ISOLVERS if sparse else ("cgs",)):
            for vect in (True, False):
                for th in (True, False):
                    yield sparse, iso, vect, th


def args(o, **kw):
    sparse, iso, vect, th = o
    return dict(isolver=NONE if iso is None else string(iso), vectorize=boolc(vect), threading=boolc(th), **kw)


def word(o):
    sparse, iso, vect, th = o
    return f"sparse={sparse} isolver={iso} vectorize={vect} threading={th}"


DEFAULT = (False, None, True, False)


def used(ck, wh, k, o, case):
    """the options of the caller reach every assembly and every solver call"""
    sparse, iso, vect, th = o
    want = "dense" if not sparse else iso or "spsolve"
    seen = {e[2][0].args[0] for e in k.ip.events if e[1] == "linsolve"}
    ck.truth("the caller's solver is used", wh, seen == {want}, f"solvers called: {sorted(seen)}, asked for {want}", case)
    seen = {e[2][0].args[0] for e in k.ip.events if e[1] == "assembly"}
    ck.truth("the caller's way of assembly is used", wh, seen == {"vect" if vect else "symb"}, f"assembly: {sorted(seen)}", case)
    seen = {e[2][1] for e in k.ip.events if e[1] == "assembly"}
    ck.truth("the caller's threading option is used", wh, seen == {boolc(th)}, f"threading: {[show(x) for x in seen]}", case)


def past_is_kept(ck, wh, k, st, case, facts, rule="earlier rows are never altered"):
    i, j = sym("Row", "int", 0), sym("Col", "int", 0)
    w = {"pressures": k.g.nb, "rates": k.g.nb, "As": mul(k.g.n, k.g.n), "ds": k.g.n}
    for h in HIST:
        now = k.get(h, st)
        old = k.start[h] if hasattr(k, "start") else k.get(h, k.st)
        ck.same(rule, wh, at(now, [i, j]), at(old, [i, j]), facts=list(facts) + [lt(i, add(k.t, ONE)), lt(j, w[h])], case=f"{case}; {h}", sizes=(0, 3))


def rows(ck, wh, k, st, n, case, facts):
    for h in HIST:
        bad = [l.args[0] for l in leaves(k.get(h, st)) if l.op == "arr" and not (l.args[0][0] is n or sub(l.args[0][0], n) is ZERO)]
        if all(l.op == "arr" or l.unk for l in leaves(k.get(h, st))):
            ck.truth("one row per time level", wh, not bad, f"{h} has {[show(b[0]) for b in bad]} rows", f"{case}; {h}")
    ck.same("the step counter names the last row", wh, k.get("tstep", st), sub(n, ONE), facts=facts, case=case)
    ck.same("the number of steps counts the rows", wh, k.get("nsteps", st), n, facts=facts, case=case)


def unchanged(ck, rule, wh, k, st, case, facts):
    past_is_kept(ck, wh, k, st, case, facts, rule)
    t1 = add(k.t, ONE)
    for h in HIST:
        bad = [l.args[0] for l in leaves(k.get(h, st)) if l.op == "arr" and sub(l.args[0][0], t1) is not ZERO]
        if all(l.op == "arr" for l in leaves(k.get(h, st))):
            ck.truth(rule, wh, not bad, f"{h} has {[show(b[0]) for b in bad]} rows", f"{case}; {h}")
    ck.same(rule, wh, k.get("tstep", st), k.t, facts=facts, case=case + "; tstep")
    ck.same(rule, wh, k.get("nsteps", st), t1, facts=facts, case=case + "; nsteps")


KINDSETS = ((), ("pressure",), ("rate",), ("gradient",), ("pressure", "rate"), ("pressure", "pressure"))


def c14(ck):
    src = ck.src
    wh = where(src, FDM, "solve")
    start(ck, src)
    for d in ALLDIMS[1:]:
        for u in (True, False):
            for kinds in KINDSETS:
                for o in (DEFAULT, (True, "cgs", True, False), (True, None, False, True)):
                    if ck.tier == "quick" and (not u and d not in ("x", "xyz")):
                        continue
                    for last in (False, True)[: 2 if len(d) == 1 and kinds else 1]:
                        if ck.part():
                            attempt(ck, "the new row", wh, f"dims={d} unify={u} boundaries={'+'.join(kinds) or 'none'}{' last first' if last else ''} {word(o)}", lambda case: committed(ck, src, wh, d, u, kinds, o, case, last))
    for o in options(ck, True):
        for d in ("x", "xyz"):
            if not ck.part():
                continue
            attempt(ck, "a step that is not committed changes nothing", wh, f"dims={d} {word(o)}", lambda case: dropped(ck, src, wh, d, o, case))
            attempt(ck, "a step whose linear solve fails changes nothing", wh, f"dims={d} {word(o)}", lambda case: failing(ck, src, wh, d, o, case))
    for d in WELLDIMS:
        for o in options(ck, True):
            if ck.tier == "quick" and o[1] not in (None, "cgs", "gmres"):
                continue
            for kinds in [(s,) for s in STATES1] + [(STATES1[0], STATES1[2])]:
                if len(kinds) > 1 and (o != DEFAULT or d != "x"):
                    continue
                if not ck.part():
                    continue
                name = " and ".join(f"{c}-controlled ({'rate ' if q else ''}{'pressure' if p else ''})" for c, q, p in kinds)
                attempt(ck, "a step solved again leaves one row", wh, f"dims={d} {word(o)} {name}", lambda case: again(ck, src, wh, d, kinds, o, case))
    runs(ck, src)


def attempt(ck, rule, wh, case, f):
    try:
        f(case)
    except Exception as e:
        ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)


def committed(ck, src, wh, d, u, kinds, o, case, last):
    k = Bounded(src, d, kinds, last, unify=u, sparse=o[0])
    before = attrs(k, k.st)
    st = k.st.copy()
    k.run("solve", st=st, **args(o, check_MB=FALSE))
    ck.note(k.ip)
    ck.same("the step is solved", wh, bor(*[e.guard for e in k.m.raises]), FALSE, facts=k.facts, case=case)
    for h, e in k.expected(st).items():
        ck.same(f"{h}: new row and earlier rows", wh, k.get(h, st), e, facts=k.facts, case=case, sizes=(0, 1))
    rows(ck, wh, k, st, add(k.t, num(2)), case, k.facts)
    used(ck, wh, k, o, case)
    after = attrs(k, st)
    for (obj, n), v in before.items():
        if v is not after[obj, n]:
            ck.same("a step changes nothing but its histories", wh, after[obj, n], v, facts=k.facts, case=f"{case}; {n}")
    ck.ok("a step changes nothing but its histories", wh, f"{len(before)} attributes of model, grid and fluid compared", case)


def dropped(ck, src, wh, d, o, case):
    k = Bounded(src, d, ("pressure",), sparse=o[0])
    st = k.st.copy()
    k.run("solve", st=st, **args(o, update=FALSE, check_MB=FALSE))
    ck.note(k.ip)
    unchanged(ck, "a step that is not committed changes nothing", wh, k, st, case, k.facts)
    after = attrs(k, st)
    bad = [n for (obj, n), v in attrs(k, k.st).items() if after[obj, n] is not v]
    ck.truth("a step that is not committed changes nothing", wh, not bad, f"changed: {bad}", case + "; model, grid, fluid")


def failing(ck, src, wh, d, o, case):
    rule = "a step whose linear solve fails changes nothing"
    k = Bounded(src, d, ("pressure",), sparse=o[0], converges=False)
    k.ip.solver_fails = lambda: sym("fails", "bool")
    st = k.st.copy()
    k.run("solve", st=st, **args(o, check_MB=FALSE))
    k.ip.solver_fails = None
    raises = list(k.m.raises)
    ck.same("a failing solver is reported", wh, bor(*[e.guard for e in raises]), bor(sym("fails", "bool"), bnot(eq(M.exit_code(o[1]), ZERO))) if o[0] and o[1] else sym("fails", "bool"), facts=k.facts, case=case)
    for n, e in enumerate(raises):
        unchanged(ck, rule, wh, k, e.state, f"{case}; exit {n}", k.facts + [e.guard])


def again(ck, src, wh, d, kinds, o, case):
    """wells may make the step be solved again, with the caller's options, and any of the solves may fail"""
    for fail in (False, True):
        k = Controlled(src, d, kinds, o[0], -1)
        k.start = {n: k.get(n, k.st) for n in HIST}
        k.ip.converges = not fail
        if fail:
            calls = []

            def fails():
                calls.append(1)
                return sym(f"fails{len(calls)}", "bool")
            k.ip.solver_fails = fails
        st = k.st.copy()
        k.run("solve", st=st, **args(o, check_MB=FALSE))
        raises = list(k.m.raises)
        k.ip.solver_fails = None
        ck.note(k.ip)
        if fail:
            for n, e in enumerate(raises):
                unchanged(ck, "a step whose linear solve fails changes no history", wh, k, e.state, f"{case}; exit {n}", k.facts + [e.guard])
            continue
        past_is_kept(ck, wh, k, st, case, k.facts)
        rows(ck, wh, k, st, add(k.t, num(2)), case, k.facts)
        used(ck, wh, k, o, case)
        # the system kept for the step is the one that gave its pressures
        n, j = k.g.n, sym("Col", "int", 0)
        key = [lambda h: at(k.get(h, st), [add(k.t, ONE), j])]
        ctrls = []
        for w in k.w:
            rec = k.rec(w["id"], st)
            q = eq(field(k.ip, rec, "constrain", st), string("q"))
            ctrls += [ite(q, ONE, ZERO), ite(q, w["Q"], w["P"])]
        tie = [bnot(eq(field(k.ip, k.rec(w["id"], st), "pwf", st), w["P"])) for w in k.w if w["hasq"]]
        full = list(k.prior) + ctrls
        facts = list(k.facts)
        dj = at(k.get("ds", st), [add(k.t, ONE), j])
        isq = [eq(field(k.ip, k.rec(w["id"], st), "constrain", st), string("q")) for w in k.w if w["hasq"]]
        tie = [bnot(eq(add(at(k.get("pressures", st), [add(k.t, ONE), w["id"]]), divide(w["Q"], k.J(w))), w["P"])) for w in k.w if w["hasq"]]
        ck.same("the right-hand side kept for the step is that of its controls", wh, dj, mk("at", sym("Md", "fun"), *full, j), facts=facts + tie + [lt(j, n)], case=case)
        dA = at(k.get("As", st), [add(k.t, ONE), j])
        ck.same("the matrix kept for the step is that of its controls", wh, dA, mk("at", sym("MA", "fun"), *full, idiv(j, n), imod(j, n)), facts=facts + tie + [lt(j, mul(n, n))], case=case)


def start(ck, src):
    """a compiled solution starts with one row: the initial pressures, the boundary values set so far, no rates"""
    wh = where(src, FDM, "__init__")
    rule = "a new solution has the initial row"
    for d in ALLDIMS:
        for u in (True, False):
            for kinds in ((), ("pressure",), ("rate",)):
                if kinds and d == "0" or not ck.part():
                    continue
                case = f"dims={d} unify={u} {'+'.join(kinds) or 'no conditions'}"
                try:
                    for pi in ("PI", None):
                        m = Model(src, d, u, compiled=False, pi=pi)
                        g, ip, st = m.g, m.ip, m.st
                        b, facts = cellvars(g, "b")
                        if not d:
                            kinds = ()
                        facts = facts + ([bnot(interior(g, b))] if kinds else [])
                        st.pc = tuple(facts)
                        for kd in kinds:
                            ip.call_method(m.obj, "set_boundary", [g.cid(b), string(kd), sym("V", "num")], {}, st)
                        ip.call_method(m.obj, "compile", [string("numerical"), string("FDM")], {"sparse": FALSE}, st)
                        sol = ip.getattr(m.obj, "solution", st)
                        nan = mk("fconst", "nan")

                        def p(ix):
                            v = sym("PI", "num") if pi else nan
                            v = ite(interior(g, g.coords(ix[1])), v, nan)
                            return ite(eq(ix[1], g.cid(b)), sym("V", "num"), v) if kinds == ("pressure",) else v

                        def q(ix):
                            return ite(eq(ix[1], g.cid(b)), sym("V", "num"), ZERO) if kinds == ("rate",) else ZERO
                        c2 = f"{case} pi={pi}"
                        ck.same(rule, wh, m.get(sol, "pressures", st), M.mkarr((ONE, g.nb), p), facts=facts, case=c2, sizes=(0, 1))
                        ck.same(rule, wh, m.get(sol, "rates", st), M.mkarr((ONE, g.nb), q), facts=facts, case=c2, sizes=(0, 1))
                        for n, w in (("As", mul(g.n, g.n)), ("ds", g.n)):
                            v = m.get(sol, n, st)
                            ck.truth(rule, wh, v.op == "arr" and len(v.args[0]) == 2 and v.args[0][0] is ONE and sub(v.args[0][1], w) is ZERO if v.op == "arr" else None, f"{n}: {show(v)[:80]}", c2)
                        ck.same(rule, wh, m.get(sol, "tstep", st), ZERO, case=c2)
                        ck.same(rule, wh, m.get(sol, "nsteps", st), ONE, case=c2)
                        ck.note(ip)
                except Exception as e:
                    ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)


def runs(ck, src):
    wh = where(src, FDM, "run")
    rule = "a run of n steps solves exactly n steps with the caller's options"
    names = ("threading", "vectorize", "check_MB", "print_arrays", "isolver")
    for n in ("N", 0, 1, 2, 5):
        if not ck.part():
            continue
        case = f"n={n}"
        try:
            seen = []

            def solve(ip, selfv, a, st):
                seen.append((st.pc, dict(a)))
                ip.setattr(selfv, "error", sym("ERR", "num"), st)
                ip.setattr(selfv, "tstep", add(ip.getattr(selfv, "tstep", st), ONE), st)
                return NONE
            k = Step(src, "x", extra={(FDM, "solve"): solve})
            st = k.st.copy()
            vals = dict(threading=sym("TH", "bool"), vectorize=sym("VE", "bool"), check_MB=sym("MB", "bool"), print_arrays=sym("PA", "bool"), isolver=sym("IS", "str"))
            N = sym("N", "int", 0) if n == "N" else num(n)
            k.run("run", nsteps=N, st=st, **vals)
            ck.note(k.ip)
            ck.same(rule, wh, k.get("tstep", st), add(k.t, N), case=case)
            ck.same("a run ends normally", wh, bor(*[e.guard for e in k.m.raises]), FALSE, case=case)
            if seen:
                for v in names:
                    bad = [show(a.get(v, NONE)) for _, a in seen if a.get(v) is not vals[v]]
                    ck.truth(rule, wh, not bad, f"{v} given to solve: {bad[:2]}", f"{case}; {v}")
                bad = [show(a.get("update", NONE)) for _, a in seen if a.get("update", TRUE) is not TRUE]
                ck.truth("a run commits every step", wh, not bad, f"update: {bad[:2]}", case)
        except Exception as e:
            ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)
    rule = "a run continues from the previous state"
    for d in ("x", "xy", "xyz"):
        for o in (DEFAULT, (True, "cgs", True, False), (True, None, False, True)):
            for n in (1, 2, 3):
                if not ck.part():
                    continue
                case = f"dims={d} {word(o)} n={n}"
                try:
                    k = Bounded(src, d, ("pressure",), sparse=o[0])
                    a, b = k.st.copy(), k.st.copy()
                    k.run("run", nsteps=num(n), st=a, **args(o, check_MB=FALSE))
                    for _ in range(n):
                        k.run("solve", st=b, **args(o, check_MB=FALSE))
                    for h in HIST + ("tstep", "nsteps"):
                        ck.same(rule, wh, k.get(h, a), k.get(h, b), facts=k.facts, case=f"{case}; {h}", sizes=(0, 1))
                    ck.note(k.ip)
                except Exception as e:
                    ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)


# ------------------------------------------------------------------------- C15
def size(x):
    return ite(lt(x, ZERO), mul(num(-1), x), x)


def signed(name):
    """entries of either sign"""
    return lambda x: sub(mk("at", sym(name, "arr"), *x), mk("at", sym(name + " less", "arr"), *x))


def balance(k, st, comp):
    """the material balance error of the last step, from the histories"""
    g, m = k.g, k.m
    t, p, q = k.get("tstep", st), k.get("pressures", st), k.get("rates", st)
    v = fresh_bv(g.nb)
    total = bigsum(v, mk("range", g.nb), TRUE, at(q, [t, v]))
    if not comp:
        return total
    v = fresh_bv(g.n)
    c = g.icoords(v)
    i = g.cid(c)
    stored = divide(mul(mul(g.vol(c), g.prop("phi", i)), add(sym("CR", "int", 1), sym("CF", "int", 1))), mul(mul(factor(m, m.obj, "volume conversion"), m.B), sym("DT", "num")))
    change = bigsum(v, mk("range", g.n), TRUE, mul(stored, sub(at(p, [t, i]), at(p, [sub(t, ONE), i]))))
    return size(sub(divide(change, total), ONE))


def c15(ck):
    src = ck.src
    wh = where(src, FDM, "check_MB")
    for d in ALLDIMS:
        for u in (True, False):
            for comp in (True, False):
                for how in ("default", "threshold", "verbose", "verbose model"):
                    if ck.part():
                        attempt(ck, "the error is that of the step", wh, f"dims={d} unify={u} {'compressible' if comp else 'incompressible'} {how}", lambda case: checked(ck, src, wh, d, u, comp, how, case))
    ws = where(src, FDM, "solve")
    for d in ALLDIMS[1:]:
        for comp in (True, False):
            for kinds in KINDSETS if d == "x" else ((), ("pressure", "rate")):
                for o in (DEFAULT, (True, "cgs", True, False), (True, None, False, True)):
                    if ck.part():
                        attempt(ck, "each committed step checks its own error", ws, f"dims={d} {'compressible' if comp else 'incompressible'} boundaries={'+'.join(kinds) or 'none'} {word(o)}",
                                lambda case: own(ck, src, ws, Bounded(src, d, kinds, sparse=o[0], comp=comp), o, case))
    for d in WELLDIMS:
        for comp in (True, False):
            for kinds in [(s,) for s in STATES1] + [(STATES1[0], STATES1[2])]:
                for o in (DEFAULT, (True, "cgs", True, False)):
                    if len(kinds) > 1 and (o != DEFAULT or d != "x"):
                        continue
                    name = " and ".join(f"{c}-controlled ({'rate ' if q else ''}{'pressure' if p else ''})" for c, q, p in kinds)
                    if ck.part():
                        attempt(ck, "each committed step checks its own error", ws, f"dims={d} {'compressible' if comp else 'incompressible'} {word(o)} {name}",
                                lambda case: own(ck, src, ws, Controlled(src, d, kinds, o[0], -1, comp=comp), o, case))


def warned(ip):
    return bor(*[band(*e[0]) for e in ip.events if e[1] == "warn"])


def checked(ck, src, wh, d, u, comp, how, case):
    k = Step(src, d, u, comp=comp, verbose=how == "verbose model")
    facts = []
    if comp:
        facts = [lt(ZERO, k.t)]
        k.st.pc = tuple(facts)
    for h in ("pressures", "rates"):
        k.ip.setattr(k.m.sol, h, k.ip.alloc(k.st, M.mkarr((add(k.t, ONE), k.g.nb), signed(h))), k.st)
    before, start = attrs(k, k.st), {h: k.get(h, k.st) for h in HIST + ("tstep", "nsteps")}
    e = balance(k, k.st, comp)
    th, kw = sym("TH", "num"), {}
    if how != "default":
        kw["error_threshold"] = th
    if how == "verbose":
        kw["verbose"] = TRUE
    st = k.st.copy()
    n = len(k.ip.events)
    k.run("check_MB", st=st, **kw)
    ck.note(k.ip)
    ck.same("the error is that of the step", wh, k.get("error", st), e, facts=facts, case=case, sizes=(0, 2))
    ck.same("checking ends normally", wh, bor(*[x.guard for x in k.m.raises]), FALSE, facts=facts, case=case)
    if how != "default":
        ck.same("a warning exactly when the error exceeds the threshold", wh, bor(*[band(*x[0]) for x in k.ip.events[n:] if x[1] == "warn"]), lt(th, size(e)), facts=facts, case=case, sizes=(0, 2))
    after = attrs(k, st)
    bad = [f"{obj.args[0] if obj.args else ''}.{a}" for (obj, a), v in before.items() if after[obj, a] is not v] + [h for h, v in start.items() if k.get(h, st) is not v]
    for (obj, a), v in before.items():
        if after[obj, a] is not v:
            ck.same("checking only reads", wh, after[obj, a], v, facts=facts, case=f"{case}; {a}")
    for h, v in start.items():
        if k.get(h, st) is not v:
            ck.same("checking only reads", wh, k.get(h, st), v, facts=facts, case=f"{case}; {h}")
    ck.ok("checking only reads", wh, f"{len(before) + len(start)} attributes compared, {len(bad)} not identical terms", case)


def own(ck, src, wh, k, o, case):
    """a step with checking on is checked when its row is complete; what a check computes is decided for any state"""
    rule = "each committed step checks its own error"
    facts = list(k.facts)
    k.ip.converges = True
    names = ("pressures", "rates", "tstep")
    seen = []

    def check(ip, selfv, a, st):
        seen.append((band(*st.pc), {n: k.get(n, st) for n in names}))
        ip.setattr(selfv, "error", sym("ERR", "num"), st)
        return NONE
    k.m.ip.contracts[FDM, "check_MB"] = check
    st = k.st.copy()
    k.run("solve", st=st, **args(o, check_MB=TRUE))
    ck.note(k.ip)
    ck.same(rule, wh, bor(*[c for c, _ in seen]), TRUE, facts=facts, case=case)
    i, j = sub(add(k.t, ONE), sym("Back", "int", 0)), sym("Col", "int", 0)
    for c, then in seen:
        ck.same("the step checked is the one just made", wh, then["tstep"], add(k.t, ONE), facts=facts + [c], case=case)
        for h in ("pressures", "rates"):
            ck.same("the step checked is complete", wh, at(then[h], [i, j]), at(k.get(h, st), [i, j]), facts=facts + [c, lt(num(-1), i), lt(j, k.g.nb)], case=f"{case}; {h}", sizes=(0, 2))
    # with checking off, and for a step that is not committed, nothing is checked
    for kw in (dict(check_MB=FALSE), dict(check_MB=TRUE, update=FALSE)):
        s, n = k.st.copy(), len(seen)
        k.run("solve", st=s, **args(o, **kw))
        c = bor(*[c for c, _ in seen[n:]])
        ck.same("no check unless one is asked for and committed", wh, c, FALSE, facts=facts, case=f"{case} {', '.join(kw)}")
