"""C10, C11, C22: cell equations, assembled systems, threaded assembly."""
from .terms import *
from .gridctx import *
from .modelctx import Model
from .check import where
from .rules_grid import RC, cellvars, interior
from .rules_trans import face, conv, adjacency, dense
from . import models as M

BO, FDM = "BlackOil", "FDM"
PARALLEL = ("C10", "C11")
RATE, PRES, GRAD = "rate", "pressure", "gradient"


def same_cell(g, c, m):
    return band(*[eq(c[a], m[a]) for a in g.dims])


def gsym(g, a, c, m):
    """the geometric factor of the face between the cells c and m adjacent along a, held by the lower of the two"""
    G = sym("G" + a.upper(), "arr")
    return ite(lt(c[a], m[a]), mk("at", G, g.cid(c)), mk("at", G, g.cid(m)))


FORMATS = ("dict", "list", "tuple", "set", "array")


class Summaries:
    """summaries of grid queries that other properties decide: geometric factors as one symbol per face (C01, C02),
    neighbours and boundary neighbours of a cell (C05, C06); anything not covered is analysed as written"""

    def __init__(self):
        self.g, self.known = None, {}

    def contracts(self):
        return {(RC, "get_cell_G"): self.cell, (RC, "get_cells_G"): self.cells, (RC, "get_cell_neighbors"): self.neighbors, (RC, "get_cell_boundaries"): self.boundaries, (RC, "get_boundaries"): self.allbounds}

    def know(self, c):
        self.known[self.g.cid(c)] = c

    def inner(self, id):
        """coordinates of an interior cell named by its place among the interior cells"""
        for v in find_all(id, lambda t: t.op == "bv"):
            c = self.g.icoords(v)
            if self.g.cid(c) is id:
                return c

    def where(self, a):
        """the queried cell: coordinates and the way to name a cell (None: not covered)"""
        g = self.g
        if g is None:
            return None, None
        id, co = a.get("id", NONE), a.get("coords", NONE)
        if id is not NONE and id.isint:
            return self.known.get(id) or self.inner(id) or g.coords(id), g.cid
        if id is NONE and co.op == "tup" and len(co.args) == 3:
            return dict(zip("xyz", co.args)), lambda m: mk("tup", m["x"], m["y"], m["z"])
        return None, None

    def around(self, c, a):
        out = []
        for x in a if a else self.g.dims:
            for s in (-1, 1):
                m = dict(c)
                m[x] = add(c[x], num(s))
                self.know(m)
                out.append((x, m))
        return out

    def cell(self, ip, selfv, a, st):
        c, f = self.where(a)
        if c is None:
            return None
        g, b = self.g, a.get("boundary", TRUE)
        ents = [mk("de", band(exists(g, m, x), ite(b, TRUE, interior(g, m))), f(m), gsym(g, x, c, m)) for x, m in self.around(c, None)]
        return ip.alloc(st, mk("dict", NONE, *ents))

    def cells(self, ip, selfv, a, st):
        b = a.get("boundary", FALSE)
        g = self.g
        if b not in (TRUE, FALSE) or g is None:
            return None
        ent, n = adjacency(g, b is TRUE), g.size(b is TRUE)
        return ip.alloc(st, M.mkarr((n, n), lambda ix: ent(ix[0], ix[1], lambda x, c, m: gsym(g, x, c, m))))

    def refuse(self, ip, st, guard):
        if guard is not FALSE:
            s2 = st.copy()
            s2.pc = (*st.pc, guard)
            ip.raise_(s2, "AssertionError", "", None)

    def listed(self, ip, st, per, fmt):
        if fmt.args[0] == "dict":
            return ip.newdict(st, [(string(x), ip.alloc(st, mk("list", *per.get(x, [])))) for x in "xyz"])
        flat = [e for x in "xyz" for e in per.get(x, [])]
        return ip.alloc(st, mk("set" if fmt.args[0] == "set" else "list", *flat))

    def neighbors(self, ip, selfv, a, st):
        c, f = self.where(a)
        b, fmt = a.get("boundary", FALSE), a.get("fmt", string("dict"))
        if c is None or b not in (TRUE, FALSE) or fmt.op != "str" or fmt.args[0] not in FORMATS:
            return None
        g = self.g
        if b is TRUE:
            self.refuse(ip, st, bnot(interior(g, c)))
        per = {}
        for x, m in self.around(c, None):
            per.setdefault(x, []).append(el(exists(g, m, x) if b is TRUE else interior(g, m), f(m)))
        return self.listed(ip, st, per, fmt)

    def allbounds(self, ip, selfv, a, st):
        """every cell that is not inside, in the order of the cell ids"""
        g, by, fmt = self.g, a.get("by", string("id")), a.get("fmt", string("tuple"))
        if g is None or by is not string("id") or fmt not in (string("tuple"), string("list"), string("set")):
            return None
        kind = "set" if fmt.args[0] == "set" else "list"
        if len(g.dims) == 1:
            return ip.alloc(st, mk(kind, el(TRUE, ZERO), el(TRUE, sub(g.nb, ONE))))
        v = fresh_bv(g.nb)
        return ip.alloc(st, mk(kind, mk("mseg", *close(v, mk("range", g.nb), bnot(interior(g, g.coords(v))), v))))

    def boundaries(self, ip, selfv, a, st):
        c, f = self.where(a)
        fmt = a.get("fmt", string("dict"))
        if c is None or fmt.op != "str" or fmt.args[0] not in FORMATS:
            return None
        g = self.g
        self.refuse(ip, st, bnot(interior(g, c)))
        per = {}
        for x, m in self.around(c, None):
            per.setdefault(x, []).append(el(band(exists(g, m, x), bnot(interior(g, m))), f(m)))
        return self.listed(ip, st, per, fmt)


def exists(g, m, x):
    return band(bnot(lt(m[x], ZERO)), lt(m[x], g.NB[x]))


def el(g, v):
    return mk("el", g, v)


class Case:
    """a compiled model with symbolic boundary conditions and wells set through the public interface"""

    def __init__(self, src, dims, unify, widths="arr", props="arr", comp=True, sparse=False, bounds=(), wells=(), factors=True):
        self.F = F = Summaries() if factors else None
        self.m = m = Model(src, dims, unify, comp=comp, sparse=boolc(sparse), widths=widths, props=props, contracts=F.contracts() if F else None, prepare=self.prepare)
        self.g = g = m.g
        self.comp = comp
        self.cv = conv(None, g)
        self.facts = []
        self.bounds, self.wells = [], []
        ip = m.ip
        self.setup = []
        self.c, f = cellvars(g)
        self.cfacts = f + [interior(g, self.c)]
        for k, (kind, name, place) in enumerate(bounds):
            if place == "elsewhere":
                b, f = cellvars(g, f"b{k}")
                f = f + [bnot(interior(g, b))]
            else:
                # next to the cell of interest: on the low or the high side along an axis
                ax, side = place
                self.c = dict(self.c)
                self.c[ax] = ONE if side < 0 else sub(g.NB[ax], num(2))
                b = dict(self.c)
                b[ax] = add(self.c[ax], num(side))
                f = []
            if F:
                F.know(b)
            v = sym(f"VB{k}", "num")
            self.facts += f
            for o, _, _ in self.bounds:
                self.facts.append(bnot(same_cell(g, o, b)))
            self.bounds.append((b, kind, v))
            ip.call_method(m.obj, "set_boundary", [g.cid(b), string(name), v], {}, m.st)
        for k, (q, pwf, place) in enumerate(wells):
            if place == "here":
                w, f = self.c, self.cfacts
            elif place == "next":
                w = dict(self.c)
                w[g.dims[0]] = add(w[g.dims[0]], ONE)
                f = [interior(g, w)]
            else:
                w, f = cellvars(g, f"w{k}")
                f = f + [interior(g, w)]
            if F:
                F.know(w)
            self.facts += f
            for o in self.wells:
                self.facts.append(bnot(same_cell(g, o[0], w)))
            Q = sym(f"Q{k}", "num") if q else None
            P = sym(f"PWF{k}", "num") if pwf else None
            self.wells.append((w, Q, P if pwf else ZERO, k))
            kw = {"cell_id": g.cid(w), "r": sym(f"RW{k}", "int", 1), "s": sym(f"SK{k}", "num")}
            if q:
                kw["q"] = Q
            if pwf:
                kw["pwf"] = P
            ip.call_method(m.obj, "set_well", [], kw, m.st)
            # the stored geometric factor of the well is any number here (C12 decides how it is set)
            rec = M.getitem(ip, ip.getattr(m.obj, "wells", m.st), g.cid(w), m.st)
            M.setitem(ip, rec, string("G"), sym(f"GW{k}", "num"), m.st)
        # the cell of interest may have been moved to a face
        self.cfacts = [subst(x, {cellvars(g)[0][a]: self.c[a] for a in g.dims}) for x in self.cfacts]
        self.facts = [subst(x, {cellvars(g)[0][a]: self.c[a] for a in g.dims}) for x in self.facts]
        if F:
            F.know(self.c)
        self.setup = list(ip.raises)

    def prepare(self, m):
        if self.F:
            self.F.g = m.g

    # ---- specification pieces
    def G(self, a, c, m):
        return gsym(self.g, a, c, m) if self.F else face(self.g, a, c, m, self.cv)

    def T(self, a, c, m):
        return divide(self.G(a, c, m), mul(self.m.mu, self.m.B))

    def z(self, c):
        return self.g.prop("z", self.g.cid(c))

    def grav(self):
        return self.m.get(self.m.fluid, "g")

    def p_old(self, c):
        """pressure of the last level, as set up (boundary pressures were written into it)"""
        return mk("at", sym("pressures", "arr"), self.m.tstep, self.g.cid(c))

    def rhs(self, c):
        """storage of the model at a cell"""
        if not self.comp:
            return ZERO
        f = self.m.ip.freeze(self.m.ip.getattr(self.m.obj, "factors", self.m.st), self.m.st)
        vc = next(e.args[2] for e in f.args[1:] if e.op == "de" and e.args[1] is string("volume conversion"))
        g = self.g
        return divide(mul(mul(g.vol(c), g.prop("phi", g.cid(c))), add(sym("CR", "int", 1), sym("CF", "int", 1))), mul(mul(vc, self.m.B), sym("DT", "num")))

    def rate(self, b, kind, v):
        """face rate of a rate-held or gradient-held boundary cell"""
        if kind == RATE:
            return v
        g, r = self.g, mk("at", sym("rates", "arr"), self.m.tstep, self.g.cid(b))
        for a in g.dims:
            for s in (-1, 1):
                n = dict(b)
                n[a] = add(b[a], num(s))
                inr = interior(g, n)
                r = ite(inr, mul(mul(self.T(a, b, n), g.width(a, n[a])), v), r)
        return r

    def J(self, k):
        """well geometric factor over viscosity and formation volume factor"""
        return divide(sym(f"GW{k}", "num"), mul(self.m.mu, self.m.B))

    def equation(self, c, P):
        """sum of all terms of cell c's balance with pressures P(coords): flows in minus storage change"""
        g, E, pc, gr = self.g, ZERO, P(c), self.grav()
        for a in g.dims:
            for s in (-1, 1):
                n = dict(c)
                n[a] = add(c[a], num(s))
                T = self.T(a, c, n)
                dz = sub(self.z(n), self.z(c))
                flow = mul(T, sub(sub(P(n), pc), mul(gr, dz)))
                bt = ZERO
                for b, kind, v in self.bounds:
                    if kind == PRES:
                        t = mul(mul(num(2), T), sub(sub(v, pc), mul(gr, dz)))
                    else:
                        t = self.rate(b, kind, v)
                    bt = ite(same_cell(g, b, n), t, bt)
                E = add(E, ite(interior(g, n), flow, bt))
        for k, (w, Q, pwf, _) in enumerate(self.wells):
            t = Q if Q is not None else mul(num(-1), mul(self.J(k), sub(pc, pwf)))
            E = add(E, ite(same_cell(g, w, c), t, ZERO))
        return sub(E, mul(self.rhs(c), sub(pc, self.p_old(c))))

    def row(self, c):
        """(left side, right side) of cell c's equation, left side in pressures P[id]"""
        P = lambda m: mk("at", sym("P", "arr"), self.g.cid(m))
        E = self.equation(c, P)
        k = self.equation(c, lambda m: ZERO)
        return sub(E, k), mul(num(-1), k)

    def matrix(self):
        g = self.g
        ent = adjacency(g, False)
        base = M.mkarr((g.n, g.n), lambda ix: ent(ix[0], ix[1], lambda a, c, m: self.T(a, c, m)))

        def at(ix):
            i, j = ix
            ci = g.icoords(i)
            diag = sub(self.equation(ci, lambda m: ite(same_cell(g, m, ci), ONE, ZERO)), self.equation(ci, lambda m: ZERO))
            return ite(eq(i, j), diag, M.aget(base, [i, j]))
        return M.mkarr((g.n, g.n), at)

    def vector(self):
        g = self.g
        return M.mkarr((g.n, ONE), lambda ix: mul(num(-1), self.equation(g.icoords(ix[0]), lambda m: ZERO)))

    def answered(self, ck, rule, wh, case, facts=(), raises=None):
        r = bor(*[e.guard for e in (self.m.raises if raises is None else raises)])
        if r is not FALSE:
            ck.same(rule + " (answered)", wh, r, FALSE, facts=list(facts) + self.facts, case=case, sizes=(0, 2))


# the simulator refuses wells (ValueError) in grids flowing along other axes
WELLDIMS = ("x", "xy", "xyz")
DIMKEY = {"xz": 0, "yz": 1, "xyz": 2}
KINDS = ((PRES, "pressure"), (RATE, "rate"), (GRAD, "gradient"))


def settings(dims, tier, full):
    """boundary conditions and wells: every kind alone on either side, elsewhere, at corners, and mixed"""
    lo, hi = (dims[-1], -1), (dims[-1], 1)
    wells = dims in WELLDIMS
    out = [("no conditions", (), ())]
    if wells:
        out.append(("pressure low, well pressure", ((PRES, "P", lo),), ((False, True, "here"),)))
    else:
        out.append(("pressure low", ((PRES, "P", lo),), ()))
    if not full:
        return out
    for kind, name in KINDS:
        out.append((kind + " on the low side", ((kind, name, lo),), ()))
        out.append((kind + " on the high side", ((kind, name, hi),), ()))
        if len(dims) > 1:
            out.append((kind + " along the first axis", ((kind, name, (dims[0], -1)),), ()))
    out.append(("pressure elsewhere", ((PRES, "press", "elsewhere"),), ()))
    if len(dims) > 1:
        out.append(("two faces", ((PRES, "pressure", (dims[0], -1)), (RATE, "q", (dims[-1], 1))), ()))
    if not wells:
        return out
    out.append(("well rate", (), ((True, False, "here"),)))
    out.append(("well pressure", (), ((False, True, "here"),)))
    out.append(("well rate and pressure", (), ((True, True, "here"),)))
    out.append(("well elsewhere", (), ((False, True, "elsewhere"),)))
    out.append(("two wells", (), ((True, False, "here"), (False, True, "next"))))
    return out


def plan(tier):
    """(dims, unify, widths, props, compressible, settings)"""
    for d in ALLDIMS[1:]:
        big = len(d) > 1
        for u in (True, False):
            for w, p, comp in (("arr", "arr", True), ("num", "num", True), ("arr", "num", False)):
                if not u and (w, p) != ("arr", "arr"):
                    continue
                full = tier != "quick" or ((w, p) == ("arr", "arr") and u)
                yield d, u, w, p, comp, full


def symbols(t):
    """write the pressure symbols as entries of P"""
    ps = find_all(t, lambda x: x.op == "symbol")
    return subst(t, {p: mk("at", sym("P", "arr"), p.args[0]) for p in ps})


def content(v):
    """expression of a coefficient table (with choices pushed inside)"""
    if v.op == "ite":
        a, b = content(v.args[1]), content(v.args[2])
        return None if a is None or b is None else ite(v.args[0], a, b)
    return symbols(v.args[0]) if v.op == "coeffs" else None


def split(v, k):
    if v.op == "ite":
        a, b = split(v.args[1], k), split(v.args[2], k)
        return None if a is None or b is None else ite(v.args[0], a, b)
    return v.args[k] if v.op == "tup" and len(v.args) == 2 else None


def raw(*ts):
    """permeabilities show up: the code did not ask the grid for its factors"""
    return any(find_all(t, lambda x: x.op == "sym" and x.args[0] in ("KX", "KY", "KZ")) for t in ts if t is not None)


def cell_system(ck, d, u, w, p, comp, bounds, wells, factors=True):
    k = Case(ck.src, d, u, w, p, comp, bounds=bounds, wells=wells, factors=factors)
    g, m = k.g, k.m
    st = m.st.copy()
    v = m.run(m.sol, "get_cell_eq", g.cid(k.c), st=st)
    raises = list(m.raises)
    v2 = m.run(m.sol, "get_cell_eq", g.cid(k.c), st=st)
    out = []
    for vv, again in ((v, ""), (v2, " (asked again)")):
        if not again or vv is not v:
            L, R = split(vv, 0), split(vv, 1)
            out.append((content(L) if L is not None else None, symbols(R) if R is not None else None, again))
    if factors and raw(*[t for o in out for t in o[:2]]):
        return cell_system(ck, d, u, w, p, comp, bounds, wells, False)
    return k, raises, out


def c10(ck):
    wh = where(ck.src, FDM, "get_cell_eq")
    rule = "cell equation is the sum of neighbour, boundary and well flows minus storage change"
    for d, u, w, p, comp, full in plan(ck.tier):
        for name, bounds, wells in settings(d, ck.tier, full):
            case = f"dims={d} unify={u} widths={w} rock={p} {'' if comp else 'in'}compressible; {name}"
            if not ck.part():
                continue
            try:
                k, raises, out = cell_system(ck, d, u, w, p, comp, bounds, wells)
                lhs, rhs = k.row(k.c)
            except Exception as e:
                ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)
                continue
            ck.note(k.g.ip)
            k.answered(ck, "conditions and wells are accepted", where(ck.src, BO, "set_boundary"), case, raises=k.setup)
            facts = k.cfacts + k.facts
            k.answered(ck, rule, wh, case, facts, raises)
            for L, R, again in out:
                ck.same(rule, wh, L, lhs, facts=facts, case=case + again + " left side", sizes=(0, 2))
                ck.same(rule, wh, R, rhs, facts=facts, case=case + again + " right side", sizes=(0, 2))


def assembled(ck, d, u, w, p, comp, sparse, bounds, wells, how, twice, factors=True):
    k = Case(ck.src, d, u, w, p, comp, sparse, bounds=bounds, wells=wells, factors=factors)
    st = k.m.st.copy()
    v = k.m.run(k.m.sol, how, st=st)
    raises = list(k.m.raises)
    v2 = k.m.run(k.m.sol, how, st=st) if twice else v
    out = [(split(vv, 0), split(vv, 1), again) for vv, again in ((v, ""), (v2, " (built again)")) if not again or vv is not v]
    if factors and raw(*[t for o in out for t in o[:2]]):
        return assembled(ck, d, u, w, p, comp, sparse, bounds, wells, how, twice, False)
    return k, raises, out


def c11(ck):
    rule = "assembled system equals the system of the cell equations"
    for d, u, w, p, comp, full in plan(ck.tier):
        for nth, (name, bounds, wells) in enumerate(settings(d, ck.tier, full)):
            for sparse in (True, False):
                if sparse and not full and ck.tier == "quick":
                    continue
                case = f"dims={d} unify={u} widths={w} rock={p} {'' if comp else 'in'}compressible sparse={sparse}; {name}"
                for how in ("get_matrices_vect", "get_matrices_symb"):
                    # quick: the symbolic assembly alternates between sparse and dense, and between the settings
                    symb = how == "get_matrices_symb"
                    if symb and ck.tier == "quick" and full and sparse == (nth % 2 == 0):
                        continue
                    if symb and ck.tier == "quick" and full and len(d) > 1 and d != "xy" and nth > 1 and nth % 3 != DIMKEY[d]:
                        continue
                    if not ck.part():
                        continue
                    wh = where(ck.src, FDM, how)
                    try:
                        k, raises, out = assembled(ck, d, u, w, p, comp, sparse, bounds, wells, how, full and not (symb and ck.tier == "quick"))
                        A, dv = k.matrix(), k.vector()
                    except Exception as e:
                        ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)
                        continue
                    ck.note(k.g.ip)
                    k.answered(ck, rule, wh, case, raises=raises)
                    for a, b, again in out:
                        for what, v, e in (("matrix", a, A), ("right-hand side", b, dv)):
                            ck.same(rule, wh, v, e, facts=k.facts, case=f"{case}{again} {what}", rewrite=dense, sizes=(0, 1) if len(d) > 1 else (0, 2))
