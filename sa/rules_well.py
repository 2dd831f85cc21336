"""C12: wells (placement, recorded controls, geometric factor, switching of controls within a step)."""
from .terms import *
from .gridctx import *
from .modelctx import Model
from .stepctx import Step, field, at
from .interp import Diverge
from .check import where
from .rules_grid import RC, cellvars, interior
from .rules_trans import conv
from .rules_eqs import Summaries, WELLDIMS
from . import models as M

BO, FDM = "BlackOil", "FDM"
PARALLEL = ("C12",)
HALF, QUARTER = num(Fr(1, 2)), num(Fr(1, 4))


class Wells:
    def __init__(self, src, dims, unify=True, unit=None, compiled=True, widths="arr", props="arr"):
        self.m = m = Model(src, dims, unify, compiled=compiled, unit=None if unit is None else string(unit), widths=widths, props=props)
        self.g, self.ip, self.st, self.unit = m.g, m.ip, m.st, unit
        self.w, self.facts = cellvars(m.g, "w")
        self.id = m.g.cid(self.w)

    def set(self, st, **kw):
        self.m.run(self.m.obj, "set_well", st=st, **kw)
        return bor(*[e.guard for e in self.m.raises])

    def rec(self, st):
        ip = self.ip
        return ip.freeze(M.getitem(ip, ip.getattr(self.m.obj, "wells", st), self.id, st), st)

    # ---- specification
    def req(self):
        g, c = self.g, self.w
        dx, dy = g.width("x", c["x"]), g.width("y", c["y"])
        kx, ky = g.prop("kx", self.id), g.prop("ky", self.id)
        if g.dims == "x":
            return mul(num(Fr(14, 100)), power(add(mul(dx, dx), mul(dy, dy)), HALF))
        a, b = divide(ky, kx), divide(kx, ky)
        top = power(add(mul(power(a, HALF), mul(dx, dx)), mul(power(b, HALF), mul(dy, dy))), HALF)
        return divide(mul(num(Fr(28, 100)), top), add(power(a, QUARTER), power(b, QUARTER)))

    def G(self, r, s):
        g, c = self.g, self.w
        kx, ky = g.prop("kx", self.id), g.prop("ky", self.id)
        kh = kx if g.dims == "x" else power(mul(kx, ky), HALF)
        f = {None: num(Fr(1127, 10 ** 6)), "field": num(Fr(1127, 10 ** 6)), "metric": num(Fr(864, 10 ** 4)), "lab": ONE}[self.unit]
        # the well radius is in inches where lengths are in feet
        inch = num(12) if self.unit in (None, "field") else ONE
        top = mul(mul(mul(num(2), PI), f), mul(kh, g.width("z", c["z"])))
        return divide(top, add(log(divide(mul(self.req(), inch), r)), s if s is not None else ZERO))


PI = mk("sym", "pi", "num", None)


# arguments of successive calls
CALLS = {
    "q": ("q", "r"), "q s": ("q", "r", "s"), "pwf": ("pwf", "r", "s"), "q pwf": ("q", "pwf", "r", "s"), "r": ("r",),
}
LATER = {"q": ("q",), "pwf": ("pwf",), "q pwf": ("q", "pwf"), "r": ("r",), "s": ("s",), "q r s": ("q", "r", "s"), "none": ()}


def spec(state, given):
    """what the record of a well says after a call giving these values"""
    n = dict(state)
    if "q" in given:
        n.update(q=given["q"], q_sp=given["q"], constrain=string("q"))
    if "pwf" in given:
        n.update(pwf=given["pwf"], pwf_sp=given["pwf"])
        if "q" not in n:
            n["constrain"] = string("pwf")
    for k in ("r", "s"):
        if k in given:
            n[k] = given[k]
    n.setdefault("constrain", NONE)
    n.setdefault("pwf", ZERO)
    n.setdefault("pwf_sp", ZERO)
    return n


def c12(ck):
    src = ck.src
    placement(ck, src)
    records(ck, src)
    factors(ck, src)
    steps(ck, src)


def routes(k, how, given, id=None):
    """keyword arguments that set the well: directly, through a well object, through a well object placed elsewhere"""
    id = k.id if id is None else id
    if how == "cell_id":
        return dict(cell_id=id, **given), FALSE
    o = k.ip.instantiate(k.m.src.cls("SingleCell"), [], {**{n: v for n, v in given.items() if n != "pwf"}, "cell_id": id if how == "well" else ZERO}, k.st)
    if "pwf" in given:
        k.ip.setattr(o, "pwf", given["pwf"], k.st)
    return (dict(well=o), FALSE) if how == "well" else (dict(well=o, cell_id=id), FALSE)


def placement(ck, src):
    wh = where(src, BO, "set_well")
    rule = "a well is placed in an interior cell or refused"
    for d in WELLDIMS:
        for u in (True, False):
            for compiled in (True, False):
                for how in ("cell_id", "well", "well and cell_id"):
                    for spot in ("any cell", "-1", "count", "beyond"):
                        if not ck.part():
                            continue
                        case = f"dims={d} unify={u} {'compiled' if compiled else 'not compiled'}; {how}; {spot}"
                        try:
                            k = Wells(src, d, u, compiled=compiled)
                            id = {"any cell": k.id, "-1": num(-1), "count": k.g.nb, "beyond": add(k.g.nb, sym("J", "int", 0))}[spot]
                            kw, _ = routes(k, how, dict(q=sym("Q", "num"), r=sym("RW", "num"), s=sym("SK", "num")), id)
                            r = k.set(k.st.copy(), **kw)
                            ck.note(k.ip)
                            ck.same(rule, wh, r, bnot(interior(k.g, k.w)) if spot == "any cell" else TRUE, facts=k.facts, case=case)
                        except Exception as e:
                            ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)


def histories(ck):
    for a in CALLS:
        yield (a,)
        for b in LATER:
            yield a, b
            if ck.tier != "quick":
                for c in LATER:
                    yield a, b, c


def records(ck, src):
    wh = where(src, BO, "set_well")
    rule = "a control is recorded as current value and as target"
    for d in WELLDIMS:
        for compiled in (True, False):
            for how in ("cell_id", "well"):
                for h in histories(ck):
                    if not ck.part():
                        continue
                    case = f"dims={d} {'compiled' if compiled else 'not compiled'}; {how}; {' then '.join(h)}"
                    try:
                        k = Wells(src, d, True, compiled=compiled)
                        inside = k.facts + [interior(k.g, k.w)]
                        state = {}
                        st = k.st
                        st.pc = tuple(inside)
                        for i, c in enumerate(h):
                            given = {n: sym(f"{n.upper()}{i}", "num") for n in (CALLS if i == 0 else LATER)[c]}
                            kw, _ = routes(k, how, given)
                            r = k.set(st, **kw)
                            state = spec(state, given)
                            ck.same("the call is accepted", wh, r, FALSE, facts=inside, case=case)
                            rec = k.rec(st)
                            for n in ("q", "q_sp", "pwf", "pwf_sp", "r", "s", "constrain"):
                                v, p = M.dict_get(k.ip, rec, string(n), st)
                                if n not in state:
                                    ck.same(rule, wh, p, FALSE, facts=inside, case=f"{case}; {n} not given")
                                else:
                                    ck.same(rule, wh, ite(p, v, string("missing")) if v is not None else string("missing"), state[n], facts=inside, case=f"{case}; {n}")
                        ck.note(k.ip)
                    except Exception as e:
                        ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)
    # bottom-hole pressures before the well was set
    rule = "bottom-hole pressures have one row per time level"
    for d in WELLDIMS:
        for compiled in (True, False):
            for h in histories(ck):
                if len(h) > 2 or not ck.part():
                    continue
                case = f"dims={d} {'compiled' if compiled else 'not compiled'}; {' then '.join(h)}"
                try:
                    k = Wells(src, d, True, compiled=compiled)
                    inside = k.facts + [interior(k.g, k.w)]
                    st = k.st
                    st.pc = tuple(inside)
                    for i, c in enumerate(h):
                        given = {n: sym(f"{n.upper()}{i}", "num") for n in (CALLS if i == 0 else LATER)[c]}
                        k.set(st, cell_id=k.id, **given)
                    ip = k.ip
                    v = M.getitem(ip, ip.getattr(k.m.obj, "w_pressures", st), k.id, st)
                    n = M.CALLS["builtins.len"](ip, [v], {}, st, None)
                    ck.same(rule, wh, n, add(k.m.tstep, ONE) if compiled else ONE, facts=inside, case=case)
                except Exception as e:
                    ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)


def factors(ck, src):
    wh = where(src, BO, "set_well")
    rq, rg = "equivalent radius is Peaceman's", "geometric factor uses the mean horizontal permeability, the height, both radii and the skin"
    for d in WELLDIMS:
        for u in (True, False):
            for unit in (None, "field", "metric", "lab"):
                for skin in (True, False):
                    for w in ("arr", "num"):
                        if not ck.part():
                            continue
                        case = f"dims={d} unify={u} unit={unit} skin={skin} widths={w}"
                        try:
                            k = Wells(src, d, u, unit=unit, widths=w)
                            inside = k.facts + [interior(k.g, k.w)]
                            st = k.st
                            st.pc = tuple(inside)
                            r, s = sym("RW", "num"), sym("SK", "num") if skin else None
                            k.set(st, cell_id=k.id, q=sym("Q", "num"), r=r, **({"s": s} if skin else {}))
                            rec = k.rec(st)
                            ck.same(rq, wh, field(k.ip, rec, "r_eq", st), k.req(), facts=inside, case=case)
                            ck.same(rg, wh, field(k.ip, rec, "G", st), k.G(r, s), facts=inside, case=case)
                            # a new radius or skin renews it
                            r2, s2 = sym("RW2", "num"), sym("SK2", "num")
                            k.set(st, cell_id=k.id, r=r2)
                            ck.same(rg, wh, field(k.ip, k.rec(st), "G", st), k.G(r2, s), facts=inside, case=case + "; new radius")
                            k.set(st, cell_id=k.id, s=s2)
                            ck.same(rg, wh, field(k.ip, k.rec(st), "G", st), k.G(r2, s2), facts=inside, case=case + "; new skin")
                            ck.note(k.ip)
                        except Exception as e:
                            ck.undecided(rg, wh, f"{type(e).__name__}: {e}", case)


# ---------------------------------------------------------------------------- switching controls
def one_append(ip, lst, old, st):
    """(number, value) of what was appended to old"""
    lst = ip.freeze(lst, st)
    if lst.op == "ite":
        a, b = one_append(ip, lst.args[1], old, st), one_append(ip, lst.args[2], old, st)
        return ite(lst.args[0], a[0], b[0]), ite(lst.args[0], a[1], b[1])
    n, v = ZERO, ZERO
    if lst.op == "list" and lst.args and lst.args[0].op == "mseg" and lst.args[0] is not old:
        return mk("str", "another well's history"), v  # (where the two wells are one cell)
    if lst.op != "list" or not lst.args or lst.args[0] is not old or any(e.op != "el" for e in lst.args[1:]):
        u = ip.unk("bottom-hole pressure history")
        return u, u
    for e in lst.args[1:]:
        n = add(n, ite(e.args[0], ONE, ZERO))
        v = add(v, ite(e.args[0], e.args[1], ZERO))
    return n, v


class Controlled(Step):
    """a step with wells in any state"""

    def __init__(self, src, dims, kinds, sparse=False, sign=1, comp=True):
        super().__init__(src, dims, True, sparse=sparse, comp=comp)
        ip, st, g = self.ip, self.st, self.g
        self.w, self.facts = [], list(self.pf)
        for i, (ctrl, q, p) in enumerate(kinds):
            c, f = cellvars(g, f"w{i}")
            self.F.know(c)
            id = g.cid(c)
            self.facts += f + [interior(g, c)] + [bnot(eq(id, o["id"])) for o in self.w]
            self.w.append(dict(id=id, c=c, ctrl=ctrl, hasq=q, j=self.index(c)))
        st.pc = tuple(self.facts)
        for i, ((ctrl, q, p), w) in enumerate(zip(kinds, self.w)):
            kw = dict(cell_id=w["id"], r=sym("RW", "int", 1))
            Q, P = mul(num(sign), sym(f"Q{i}", "num")), sym(f"PWF{i}", "num")
            if q:
                kw["q"] = Q
            if p:
                kw["pwf"] = P
            ip.call_method(self.m.obj, "set_well", [], kw, st)
            r = M.getitem(ip, ip.getattr(self.m.obj, "wells", st), w["id"], st)
            w.update(Q=Q, P=P if p else ZERO, G=sym(f"GW{i}", "num"))
            put = dict(G=w["G"], constrain=string(ctrl))
            # the value that is not controlled comes from the step before
            if ctrl == "q":
                put["pwf"] = sym(f"OLDP{i}", "num")
            else:
                put["q"] = sym(f"OLDQ{i}", "num")
            for n, v in put.items():
                M.setitem(ip, r, string(n), v, st)
            v = fresh_bv(add(self.t, ONE))
            w["hist"] = mk("mseg", *close(v, mk("range", add(self.t, ONE)), TRUE, mk("at", sym(f"WP{i}", "arr"), v)))
            M.setitem(ip, ip.getattr(self.m.obj, "w_pressures", st), w["id"], ip.alloc(st, mk("list", w["hist"])), st)
        self.ids = [w["id"] for w in self.w]
        self.prior = self.key(st)[:3]

    def index(self, c):
        g = self.g
        N = g.N
        i = [sub(c[a], ONE) if a in g.dims else ZERO for a in "xyz"]
        return add(i[0], mul(N["x"], add(i[1], mul(N["y"], i[2]))))

    def J(self, w):
        return divide(w["G"], mul(self.m.mu, self.m.B))

    def sol(self, ctrls, i):
        """solved pressure of interior cell i under the controls [(is rate, value)]"""
        key = list(self.prior)
        for q, v in ctrls:
            key += [ite(q, ONE, ZERO), v]
        return self.x(key, i)

    def needed(self, w, ctrls):
        return add(self.sol(ctrls, w["j"]), divide(w["Q"], self.J(w)))


STATES1 = [("q", True, True), ("q", True, False), ("pwf", True, True), ("pwf", False, True)]


def steps(ck, src):
    wh = where(src, FDM, "solve")
    pairs = [((a,), s) for a in STATES1 for s in (1, -1)]
    pairs += [((a, b), -1) for a in STATES1 for b in STATES1]
    for d in WELLDIMS:
        for sparse in (False, True):
            for kinds, sign in pairs:
                if len(kinds) > 1 and (sparse or d == "xyz") and ck.tier == "quick":
                    continue
                if not ck.part():
                    continue
                name = " and ".join(f"{c}-controlled ({'rate ' if q else ''}{'pressure' if p else ''})" for c, q, p in kinds)
                case = f"dims={d} sparse={sparse} {name} {'injection' if sign > 0 else 'production'}"
                try:
                    k = Controlled(src, d, kinds, sparse, sign)
                    st = k.st.copy()
                    kw = {"isolver": NONE} if sparse else {}
                    k.run("solve", st=st, check_MB=FALSE, **kw)
                    ck.note(k.ip)
                    ck.same("the step is solved", wh, bor(*[e.guard for e in k.m.raises]), FALSE, facts=k.facts, case=case)
                    controls(ck, wh, k, st, case)
                    if len(kinds) == 1:
                        outcome(ck, wh, k, k.w[0], st, case)
                except Exception as e:
                    ck.undecided("the relation between rate and bottom-hole pressure", wh, f"{type(e).__name__}: {e}", case)


def final(k, w, st):
    ip, rec = k.ip, k.rec(w["id"], st)
    t1 = add(k.t, ONE)
    return dict(p=at(k.get("pressures", st), [t1, w["id"]]), rate=at(k.get("rates", st), [t1, w["id"]]), pwf=field(ip, rec, "pwf", st), q=field(ip, rec, "q", st), isq=eq(field(ip, rec, "constrain", st), string("q")), ctrl=field(ip, rec, "constrain", st))


def controls(ck, wh, k, st, case):
    """whatever happened in the step: the recorded values fit together and the system solved is that of the recorded controls"""
    ctrls = []
    ends = [final(k, w, st) for w in k.w]
    for w, e in zip(k.w, ends):
        rel = mul(num(-1), mul(k.J(w), sub(e["p"], e["pwf"])))
        one = f"{case}; well {k.w.index(w) + 1}"
        ck.same("rate = -G/(mu B) (cell pressure - bottom-hole pressure)", wh, e["rate"], rel, facts=k.facts, case=one)
        ck.same("the recorded rate is the rate of the step", wh, e["q"], e["rate"], facts=k.facts, case=one)
        if w["hasq"]:
            ck.same("a rate-controlled well has its target rate", wh, ite(e["isq"], e["rate"], w["Q"]), w["Q"], facts=k.facts, case=one)
            ck.same("a rate-controlled well stays above its limit pressure", wh, band(e["isq"], lt(e["pwf"], w["P"])), FALSE, facts=k.facts, case=one)
        else:
            ck.same("a well without rate target is controlled by pressure", wh, e["isq"], FALSE, facts=k.facts, case=one)
        ck.same("a pressure-controlled well has its limit pressure", wh, ite(e["isq"], w["P"], e["pwf"]), w["P"], facts=k.facts, case=one)
        n, v = one_append(k.ip, M.getitem(k.ip, k.ip.getattr(k.m.obj, "w_pressures", st), w["id"], st), w["hist"], st)
        ck.same("the bottom-hole pressure of the step is recorded once", wh, mk("tup", n, v), mk("tup", ONE, e["pwf"]), facts=k.facts, case=one)
        ctrls.append((e["isq"], ite(e["isq"], w["Q"], w["P"])))
    # (a rate that needs exactly the limit pressure is the same system under either control)
    tie = [bnot(eq(add(e["p"], divide(w["Q"], k.J(w))), w["P"])) for w, e in zip(k.w, ends) if w["hasq"]]
    i, f = cellvars(k.g, "i")
    t1 = add(k.t, ONE)
    ck.same("the step was solved with the controls it records", wh, at(k.get("pressures", st), [t1, k.g.cid(i)]), k.sol(ctrls, k.index(i)), facts=k.facts + f + tie + [interior(k.g, i)], case=case)
    # the rates of the other cells are carried on
    ck.same("only wells' rates change", wh, at(k.get("rates", st), [t1, k.g.cid(i)]), mk("at", sym("rates", "arr"), k.t, k.g.cid(i)), facts=k.facts + f + [bnot(eq(k.g.cid(i), x)) for x in k.ids], case=case)


def outcome(ck, wh, k, w, st, case):
    """which control a single well ends up with"""
    e = final(k, w, st)
    q, p = (TRUE, w["Q"]), (FALSE, w["P"])
    if not w["hasq"]:
        keep = FALSE
    elif w["ctrl"] == "q":
        keep = lt(w["P"], k.needed(w, [q]))
    else:
        # the target is taken up again when the limit leaves room, and dropped when it turns out that it does not
        keep = band(lt(w["P"], k.needed(w, [p])), lt(w["P"], k.needed(w, [q])))
    ck.same("the rate target holds as long as the pressure it needs is above the limit, else the limit pressure", wh, e["ctrl"], ite(keep, string("q"), string("pwf")), facts=k.facts, case=case)
