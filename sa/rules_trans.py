"""C01, C02: the face transmissibility law and the matrices built from it."""
from fractions import Fraction
from .terms import *
from .gridctx import *
from .modelctx import Model
from .check import where
from .rules_grid import RC, cellvars, neighbours, interior, tup3, dct, q2, refused
from . import models as M

CONV = {"field": Fraction("0.001127"), "metric": Fraction("0.0864"), "lab": Fraction(1)}
BO = "BlackOil"
PARALLEL = ("C01", "C02")
MIX = [("widths vary, rock varies", "arr", "arr"), ("widths and rock uniform", "num", "num"), ("widths vary, rock uniform", "arr", "num"),
       ("widths uniform, rock varies", "num", "arr"), ("interior uniform, boundary different", "num", "inner"), ("interior widths uniform, boundary widths different", "inner", "num"),
       ("only kx varies", "num", dict(kx="arr", ky="num", kz="num", phi="num", z="num")), ("only ky varies", "num", dict(kx="num", ky="arr", kz="num", phi="num", z="num")),
       ("only kz varies", "num", dict(kx="num", ky="num", kz="arr", phi="num", z="num"))]


def conv(ck, g):
    """transmissibility conversion of the grid's unit system, as the source's table has it (C09 checks the table)"""
    d = g.ip.freeze(g.ip.getattr(g.obj, "factors", g.st), g.st)
    for e in d.args[1:]:
        if e.op == "de" and e.args[1] is string("transmissibility conversion"):
            return e.args[2]
    raise ValueError("no transmissibility conversion")


def face(g, a, c, m, cv):
    """series-flow factor between adjacent cells c and m along axis a"""
    k1, k2 = g.prop("k" + a, g.cid(c)), g.prop("k" + a, g.cid(m))
    A1, A2 = g.area(a, c), g.area(a, m)
    d1, d2 = g.width(a, c[a]), g.width(a, m[a])
    return divide(mul(num(2), cv), add(divide(d1, mul(A1, k1)), divide(d2, mul(A2, k2))))


def gdict(g, c, keyf, incl, cv, f=lambda v: v):
    ents = []
    for a in g.dims:
        for s in (-1, 1):
            m = dict(c)
            m[a] = add(c[a], num(s))
            inr = band(bnot(lt(m[a], ZERO)), lt(m[a], g.NB[a]), incl(m))
            ents.append(mk("de", inr, keyf(m), f(face(g, a, c, m, cv))))
    return mk("dict", NONE, *ents)


def mixes(ck, dims):
    for name, w, p in MIX:
        if isinstance(p, dict) and len(dims) > 1 and ck.tier == "quick" and name[5:7] != "k" + dims[-1]:
            continue
        yield name, w, p


def c01(ck):
    for d in ALLDIMS[1:]:
        for u in (True, False):
            for name, w, p in mixes(ck, d):
                if not u and name != MIX[0][0] and ck.tier == "quick":
                    continue
                if not ck.part():
                    continue
                try:
                    m = Model(ck.src, d, u, compiled=False, widths=w, props=p)
                except Exception as e:
                    ck.undecided("construct", where(ck.src, BO, "__init__"), f"{type(e).__name__}: {e}", f"dims={d}")
                    continue
                g = m.g
                ck.note(g.ip)
                cv = conv(ck, g)
                c, facts = cellvars(g)
                inn = [interior(g, c)]
                muB = mul(m.mu, m.B)
                for how, me, f in (("id", g.cid(c), g.cid), ("coords", tup3(c), tup3)):
                    for b in (True, False):
                        incl = (lambda x: TRUE) if b else (lambda x: interior(g, x))
                        fs = facts + (inn if b else [])
                        q2(ck, g, "factor to each neighbour is the series-flow law", "get_cell_G", gdict(g, c, f, incl, cv), facts=fs, boundary=b, case=f"{name}; by {how}", **{how: me})
                        case = f"{g.case} {name}; by {how} boundary={b}"
                        wh = where(ck.src, BO, "get_cell_trans")
                        try:
                            v = m.call("get_cell_trans", **{"cell_" + how: me, "boundary": b})
                            ck.same("transmissibility is the factor over viscosity times formation volume factor", wh, v, gdict(g, c, f, incl, cv, lambda x: divide(x, muB)), facts=fs, case=case, sizes=(0, 3))
                        except Exception as e:
                            ck.undecided("transmissibility is the factor over viscosity times formation volume factor", wh, f"{type(e).__name__}: {e}", case)
                for b in (True, False):
                    only = lambda t, b=b: masked(g, b, t)
                    q2(ck, g, "matrix entry of two adjacent cells is the series-flow law", "get_cells_G", tmatrix(g, b, cv), boundary=b, sparse=False, case=name, rewrite=only)
                    wh = where(ck.src, BO, "get_cells_trans")
                    rule = "matrix transmissibility of two adjacent cells is the factor over viscosity times formation volume factor"
                    try:
                        v = m.call("get_cells_trans", b, False, True)
                        ck.same(rule, wh, v, tmatrix(g, b, cv, lambda x: divide(x, muB)), case=f"{g.case} {name} boundary={b}", rewrite=only, sizes=(0, 1))
                    except Exception as e:
                        ck.undecided(rule, wh, f"{type(e).__name__}: {e}", name)
    for unit in ("field", "metric", "lab"):
        if not ck.part():
            continue
        try:
            g = Grid(ck.src, "x", unit=string(unit))
            c, facts = cellvars(g)
            cv = conv(ck, g)
            q2(ck, g, "factor uses the unit system's transmissibility conversion", "get_cell_G", gdict(g, c, g.cid, lambda x: TRUE, cv), facts=facts + [interior(g, c)], id=g.cid(c), boundary=True, case=f"unit={unit}")
        except Exception as e:
            ck.undecided("factor uses the unit system's transmissibility conversion", where(ck.src, RC, "get_cell_G"), f"{type(e).__name__}: {e}", unit)


def adjacency(g, boundary):
    """matrix value f(i, j) for the cells with (interior) numbers i, j"""
    def entry(i, j, face):
        r = ZERO
        ci = g.coords(i) if boundary else g.icoords(i)
        cj = g.coords(j) if boundary else g.icoords(j)
        N = g.NB if boundary else g.N
        for a in g.dims:
            same = [eq(ci[b], cj[b]) for b in g.dims if b != a]
            for s in (-1, 1):
                cond = band(eq(sub(cj[a], ci[a]), num(s)), *same)
                r = ite(cond, face(a, ci, cj), r)
        return r
    return entry


def tmatrix(g, boundary, cv, f=lambda v: v):
    n = g.size(boundary)
    ent = adjacency(g, boundary)
    return M.mkarr((n, n), lambda ix: ent(ix[0], ix[1], lambda a, c, m: f(face(g, a, c, m, cv))))


def masked(g, boundary, t):
    """keeps the entries of adjacent cells only (C02 decides the others)"""
    if t.op != "arr":
        return t
    n, ent = g.size(boundary), adjacency(g, boundary)
    return M.mkarr((n, n), lambda ix: ite(eq(ent(ix[0], ix[1], lambda a, c, m: ONE), ONE), M.aget(t, list(ix)), ZERO))


def diagonal(g, boundary, cv, which, f=lambda v: v):
    """the which-th off-diagonal: couples cell i to the cell one step along the which-th flow axis"""
    ax = [a for a in "xyz" if a in g.dims][which - 1]
    N = g.NB if boundary else g.N
    off = ONE
    for a in "xyz":
        if a == ax:
            break
        off = mul(off, N[a])
    n = sub(g.size(boundary), off)

    def at(ix):
        i = ix[0]
        ci = g.coords(i) if boundary else g.icoords(i)
        j = add(i, off)
        cj = g.coords(j) if boundary else g.icoords(j)
        same = [eq(ci[b], cj[b]) for b in g.dims if b != ax]
        return ite(band(eq(sub(cj[ax], ci[ax]), ONE), *same), f(face(g, ax, ci, cj, cv)), ZERO)
    return M.mkarr((n,), at)


def c02(ck):
    for d in ALLDIMS[1:]:
        for u in (True, False):
            for name, w, p in mixes(ck, d):
                if not u and name != MIX[0][0] and ck.tier == "quick":
                    continue
                case0 = f"dims={d} unify={u} {name}"
                if not ck.part():
                    continue
                try:
                    m = Model(ck.src, d, u, compiled=False, widths=w, props=p)
                except Exception as e:
                    ck.undecided("construct", where(ck.src, BO, "__init__"), f"{type(e).__name__}: {e}", case0)
                    continue
                g = m.g
                ck.note(g.ip)
                cv = conv(ck, g)
                muB = mul(m.mu, m.B)
                for b in (True, False):
                    for sp in (True, False):
                        q2(ck, g, "matrix couples exactly the adjacent cells", "get_cells_G", tmatrix(g, b, cv), boundary=b, sparse=sp, case=name, rewrite=dense)
                        for vec in (True, False):
                            wh = where(ck.src, BO, "get_cells_trans")
                            case = f"{case0} boundary={b} sparse={sp} vectorize={vec}"
                            try:
                                v = m.call("get_cells_trans", b, sp, vec)
                                r, _ = m.refusal()
                                if r is not FALSE:
                                    ck.same("matrix couples exactly the adjacent cells (answered)", wh, r, FALSE, case=case)
                                if v is None and r is TRUE:
                                    continue
                                exp = tmatrix(g, b, cv, lambda x: divide(x, muB))
                                if b and not vec:
                                    # documented separately (known finding): the loop visits interior cells only
                                    inner = tmatrix(g, b, cv, lambda x: divide(x, muB))
                                    ok = lambda i: interior(g, g.coords(i))
                                    sub_ = lambda t: M.mkarr((g.nb, g.nb), lambda ix: ite(band(ok(ix[0]), ok(ix[1])), M.aget(t, list(ix)), ZERO)) if t.op == "arr" else t
                                    ck.same("couplings between interior cells", wh, v, exp, case=case, rewrite=lambda t: sub_(dense(t)), sizes=(0, 1))
                                rule = "couplings with boundary cells, cell by cell" if b and not vec else "matrix couples exactly the adjacent cells"
                                ck.same(rule, wh, v, exp, case=case, rewrite=dense, sizes=(0, 1))
                            except Exception as e:
                                ck.undecided("matrix couples exactly the adjacent cells", wh, f"{type(e).__name__}: {e}", case)
                    for w_ in range(1, len(d) + 1):
                        wh = where(ck.src, BO, "get_cells_trans_diag")
                        case = f"{case0} boundary={b} diag_n={w_}"
                        try:
                            v = m.call("get_cells_trans_diag", b, w_)
                            ck.same("each diagonal couples cells one step along its axis", wh, v, diagonal(g, b, cv, w_, lambda x: divide(x, muB)), case=case, sizes=(0, 2))
                        except Exception as e:
                            ck.undecided("each diagonal couples cells one step along its axis", wh, f"{type(e).__name__}: {e}", case)


def dense(t):
    return t
