"""C03-C07: geometry, shapes, neighbours, boundaries and single-cell queries of the grid."""
from .terms import *
from .gridctx import *
from .check import where
import traceback

RC = "RegularCartesian"
PARALLEL = ("C03", "C04", "C05", "C06", "C07")


def grids(ck, dims=ALLDIMS, unify=(True, False), **kw):
    for d in dims:
        for u in unify:
            if not ck.part():
                continue
            try:
                g = Grid(ck.src, d, u, **kw)
            except Exception as e:  # the analysis, not the property
                ck.undecided("construct", where(ck.src, RC, "__init__"), f"{type(e).__name__}: {e}", f"dims={d} unify={u}")
                continue
            yield g
            ck.note(g.ip)


def q(ck, g, rule, name, expected, *args, case="", **kw):
    """query g.name(*args, **kw) and compare with expected"""
    c = g.case + "".join(f" {k}={v}" for k, v in kw.items()) + (" " + case if case else "")
    wh = where(ck.src, RC, name)
    try:
        v = g.call(name, *args, **kw)
    except Exception as e:
        ck.undecided(rule, wh, f"{type(e).__name__}: {e}", c)
        return
    if v is None:
        r, ex = g.refusal()
        ck.bad(rule, wh, f"refused ({', '.join(sorted(ex))}) for every input", c) if r is TRUE and not any(e.value.unk for e in g.raises) else ck.undecided(rule, wh, "no returning path", c)
        return
    ck.same(rule, wh, v, expected, case=c)


def c03(ck):
    for widths in ("arr", "num"):
        for g in grids(ck, widths=widths):
            cs = f"widths={widths}"
            for b in (True, False):
                for a in AX:
                    for fs in (False, True):
                        q(ck, g, "cell width is the given width at the cell's position", "get_cells_d" + a, g.cells(g.W(a), b, fs), boundary=b, fshape=fs, case=cs)
                        q(ck, g, "cell width is the given width at the cell's position", "get_cells_d", g.cells(g.W(a), b, fs), dir=a, boundary=b, fshape=fs, case=cs)
                        q(ck, g, "face area is the product of the two other widths", "get_cells_A" + a, g.cells(lambda c: g.area(a, c), b, fs), boundary=b, fshape=fs, case=cs)
                        q(ck, g, "face area is the product of the two other widths", "get_cells_A", g.cells(lambda c: g.area(a, c), b, fs), dir=a, boundary=b, fshape=fs, case=cs)
                for fs in (False, True):
                    q(ck, g, "volume is the product of the three widths", "get_cells_V", g.cells(g.vol, b, fs), boundary=b, fshape=fs, case=cs)
                    q(ck, g, "centre is the sum of preceding widths plus half its own", "get_cells_center",
                      g.cells(lambda c, k: vec3(k, [g.center(a, c) for a in AX]), b, fs, comps=3), boundary=b, fshape=fs, case=cs)
                v = fresh_bv(g.size(b))
                vol = g.vol(g.coords(v) if b else g.icoords(v))
                q(ck, g, "total volume is the sum over the cells asked for", "get_Vt", bigsum(v, mk("range", g.size(b)), TRUE, vol), boundary=b, case=cs)
                q(ck, g, "corners lie at the running sums of the widths", "get_corners", corners(g, b), boundary=b, case=cs)


def corners(g, b):
    N = g.NB if b else g.N
    n = mul(num(8), g.size(b))

    def f(a):
        i = a[0]
        # eight points per cell, two per cell along each axis, x fastest
        i2 = {"x": imod(i, mul(num(2), N["x"])), "y": imod(idiv(i, mul(num(2), N["x"])), mul(num(2), N["y"])), "z": idiv(i, mul(num(4), mul(N["x"], N["y"])))}
        vals = []
        for k in AX:
            cell = idiv(add(i2[k], ONE), num(2))  # 0,1,1,2,2,3,... -> index of the corner
            # corners of interior cells start at the outer edge of the first interior cell
            lo = ONE if (not b and k in g.dims) else ZERO
            vals.append(g.prefix(k, add(cell, lo)))
        return vec3(a[1], vals)
    return M.mkarr((n, num(3)), f)



# ---------------------------------------------------------------- helpers for collections
def S(*els):
    return mk("set", *els)


def el(g, v):
    return mk("el", g, v)


def dct(pairs):
    return mk("dict", NONE, *[mk("de", TRUE, string(k), v) for k, v in pairs])


def tup3(c):
    return mk("tup", *[c[a] for a in AX])


def cellset(g, f, cond=None, boundary=True):
    """collection (each once) of f(coords) over all cells fulfilling cond(coords)"""
    n = g.size(boundary)
    b = fresh_bv(n)
    c = g.coords(b) if boundary else g.icoords(b)
    return mk("bag", mk("mseg", *close(b, mk("range", n), cond(c) if cond else TRUE, f(c))))


def interior(g, c, lo=True, hi=True):
    r = []
    for a in g.dims:
        if lo:
            r.append(bnot(lt(c[a], ONE)))
        if hi:
            r.append(lt(c[a], sub(g.NB[a], ONE)))
    return band(*r)


def neighbours(g, c, f, which, incl):
    """per direction: set of the f(neighbour) satisfying incl(neighbour coords)"""
    out = []
    for a in AX:
        es = []
        if a in g.dims:
            for d in (-1, 1):
                m = dict(c)
                m[a] = add(c[a], num(d))
                inr = band(bnot(lt(m[a], ZERO)), lt(m[a], g.NB[a]))
                es.append(el(band(inr, incl(m)), f(m)))
        out.append((a, S(*es)))
    if which == "dict":
        return dct(out)
    return S(*[e for _, s in out for e in s.args])


def cellvars(g, tag=""):
    """a cell given by its position (symbols), the facts that it exists, its id"""
    c, facts = {}, []
    for a in AX:
        if a in g.dims:
            c[a] = sym("c" + a + tag, "int", 0)
            facts.append(lt(c[a], g.NB[a]))
        else:
            c[a] = ZERO
    return c, facts


def q2(ck, g, rule, name, expected, *args, facts=(), case="", rewrite=None, nonref=True, **kw):
    """like q, with facts and a demand that the query is not refused under them"""
    c = g.case + "".join(f" {k}={v}" for k, v in kw.items() if isinstance(v, (str, bool))) + (" " + case if case else "")
    wh = where(ck.src, RC, name)
    try:
        v = g.call(name, *args, **kw)
    except Exception as e:
        ck.undecided(rule, wh, f"{type(e).__name__}: {e}", c)
        return None
    r, ex = g.refusal()
    if nonref and r is not FALSE:
        ck.same(rule + " (answered)", wh, r, FALSE, facts=facts, case=c)
    if v is None:
        if r is not TRUE:
            ck.undecided(rule, wh, "no returning path", c)
        return None
    ck.same(rule, wh, v, expected, facts=facts, case=c, rewrite=rewrite, sizes=(0, 3))
    return v


def refused(ck, g, rule, name, *args, facts=(), case="", kinds=None, when=TRUE, **kw):
    """the call is refused exactly when `when` (with one of the exception kinds)"""
    c = g.case + "".join(f" {k}={v}" for k, v in kw.items() if isinstance(v, (str, bool))) + (" " + case if case else "")
    wh = where(ck.src, RC, name)
    try:
        g.call(name, *args, **kw)
    except Exception as e:
        ck.undecided(rule, wh, f"{type(e).__name__}: {e}", c)
        return
    r, ex = g.refusal()
    if g.ip.escaped(g.raises) if hasattr(g.ip, "escaped") else False:
        ck.undecided(rule, wh, "not understood", c)
        return
    ck.same(rule, wh, r, when, facts=facts, case=c)
    if kinds and ex - set(kinds):
        ck.bad(rule, wh, f"refused with {sorted(ex)}", c)


# ---------------------------------------------------------------- C04
def c04(ck):
    for g in grids(ck, props=None):
        D = len(g.dims)
        fdir = g.dims or "-"
        q(ck, g, "flow dimension is the number of axes with more than one cell", "get_D", num(D))
        q(ck, g, "flow directions are those axes in x, y, z order", "get_fdir", string(fdir))
        for b in (True, False):
            N = g.NB if b else g.N
            q(ck, g, "boundary cells add two cells along flow axes only", "get_shape", mk("tup", *[N[a] for a in AX]), boundary=b)
            q(ck, g, "cell count is the product of the shape", "get_n", g.size(b), boundary=b)
            for p in (False, True):
                fs = g.fshape(b, p)
                q(ck, g, "flow shape is the shape in z, y, x order", "get_fshape", mk("tup", *fs), boundary=b, points=p)
            for fs in (False, True):
                idf = lambda c: g.cid(c)
                q(ck, g, "cell ids are the natural numbering", "get_cells_id", g.cells(idf, b, fs), boundary=b, fshape=fs, fmt="array")
                q(ck, g, "natural order counts the cells", "get_order", g.cells(idf, b, fs), "natural", boundary=b, fshape=fs)
                q(ck, g, "array of ones has the grid's shape", "get_ones", g.cells(lambda c: ONE, b, fs), b, fs, False, case=f"boundary={b} fshape={fs}")
                q(ck, g, "array of zeros has the grid's shape", "get_zeros", g.cells(lambda c: ZERO, b, fs), b, fs, False, case=f"boundary={b} fshape={fs}")
                q(ck, g, "cell coordinates invert the numbering", "get_cells_coords", g.cells(lambda c, k: vec3(k, [c[a] for a in AX]), b, fs, comps=3), boundary=b, fshape=fs, fmt="array")
            for fmt in ("list", "tuple", "set"):
                n = g.size(b)
                q(ck, g, "cell ids are the natural numbering", "get_cells_id", cellset(g, g.cid, boundary=b), boundary=b, fshape=False, fmt=fmt)
                q(ck, g, "cell coordinates invert the numbering", "get_cells_coords", cellset(g, tup3, boundary=b), boundary=b, fshape=False, fmt=fmt)
        c, facts = cellvars(g)
        q2(ck, g, "id and coordinates of a cell are inverse", "get_cell_id", g.cid(c), tup3(c), facts=facts)
        q2(ck, g, "id and coordinates of a cell are inverse", "get_cell_coords", tup3(c), g.cid(c), facts=facts)
        q2(ck, g, "array position of a cell is its coordinates reversed", "get_cell_icoords", mk("tup", *[c[a] for a in g.faxes()] or [ZERO]), tup3(c), facts=facts)
        for name, args in (("get_order", ("bogus",)),):
            refused(ck, g, "unknown ordering is refused", name, *args, kinds={"ValueError"})


# ---------------------------------------------------------------- C05
def c05(ck):
    for g in grids(ck, props=None):
        c, facts = cellvars(g)
        inn = [interior(g, c)]
        isb = lambda m: bnot(interior(g, m))
        for how, me, f in (("id", g.cid(c), g.cid), ("coords", tup3(c), tup3)):
            kw = {how: me}
            for b in (True, False):
                fs = facts + (inn if b else [])
                incl = (lambda m: TRUE) if b else (lambda m: interior(g, m))
                for fmt in ("dict", "list", "tuple", "set", "array"):
                    if not g.dims and fmt != "dict":
                        continue
                    q2(ck, g, "neighbours are the cells one step away along one flow axis", "get_cell_neighbors", neighbours(g, c, f, fmt, incl),
                       facts=fs, boundary=b, fmt=fmt, case="by " + how, **kw)
            if g.dims:
                refused(ck, g, "outer neighbours of a boundary cell are refused", "get_cell_neighbors", facts=facts, boundary=True, when=bnot(interior(g, c)), case="by " + how, **kw)
            for fmt in ("dict", "list", "tuple", "set", "array"):
                if not g.dims and fmt != "dict":
                    continue
                q2(ck, g, "boundary cells of a cell are its neighbours that are boundary cells", "get_cell_boundaries", neighbours(g, c, f, fmt, isb),
                   facts=facts + inn, fmt=fmt, case="by " + how, **kw)
        for m in ("get_cell_neighbors", "get_cell_boundaries"):
            refused(ck, g, "naming no cell is refused", m, kinds={"ValueError"})
            if g.dims:
                refused(ck, g, "unknown output format is refused", m, id=g.cid(c), fmt="bogus", facts=facts + inn, kinds={"ValueError", "AssertionError"})


# ---------------------------------------------------------------- C06
def c06(ck):
    for g in grids(ck, props=None):
        val = lambda c: mk("at", sym("DATA", "arr"), g.cid(c))
        ptv = lambda c, k: mk("at", sym("DATA3", "arr"), g.cid(c), k)
        isb = lambda c: bnot(interior(g, c))
        for fs in (False, True):
            data = g.ip.alloc(g.st, g.cells(val, True, fs))
            pts = g.ip.alloc(g.st, g.cells(ptv, True, fs, comps=3))
            tag = "shaped input" if fs else "flat input"
            for rm, lo, hi in (("both", 1, 1), ("left", 1, 0), ("right", 0, 1)):
                q2(ck, g, "stripping keeps exactly the other cells", "remove_boundaries", stripped(g, val, fs, lo, hi), data, False, rm, case=f"{tag} remove={rm}")
                q2(ck, g, "stripping keeps exactly the other cells", "remove_boundaries", stripped(g, ptv, fs, lo, hi, 3), pts, True, rm, case=f"{tag} points remove={rm}")
                if not fs:
                    q2(ck, g, "stripping keeps exactly the other cells", "remove_boundaries", stripped(g, val, fs, lo, hi), data, None, rm, case=f"{tag} remove={rm} automatic points")
                    d = g.ip.newdict(g.st, [(string("k"), data)])
                    q2(ck, g, "stripping a dictionary strips each array", "remove_boundaries", dct([("k", stripped(g, val, fs, lo, hi))]), d, False, rm, case=f"dictionary remove={rm}")
            for fmt in ("tuple", "list", "array"):
                q2(ck, g, "extraction returns each boundary cell exactly once", "extract_boundaries", cellset(g, val, isb), data, False, fmt, case=f"{tag} fmt={fmt}")
                q2(ck, g, "extraction returns each boundary cell exactly once", "extract_boundaries", cellset(g, lambda c: mk("tup", *[ptv(c, num(i)) for i in range(3)]), isb), pts, True, fmt, case=f"{tag} points fmt={fmt}",
                   rewrite=rows)
        for by, f in (("id", g.cid), ("coords", tup3)):
            for fmt in ("tuple", "list", "set", "array"):
                q2(ck, g, "boundary cells are those first or last along a flow axis", "get_boundaries", cellset(g, f, isb), by, fmt, case=f"by={by} fmt={fmt}", rewrite=rows)
        q2(ck, g, "interior ids are the cells that are not boundary cells", "get_cells_id", cellset(g, g.cid, lambda c: interior(g, c)), False, False, "set")
        refused(ck, g, "unknown boundary selection is refused", "get_boundaries", "bogus", kinds={"ValueError"})
        data = g.ip.alloc(g.st, g.cells(val, True, False))
        refused(ck, g, "unknown side is refused", "remove_boundaries", data, False, "bogus", kinds={"ValueError"})
        m = sym("M", "int", 1)
        wrong = g.ip.alloc(g.st, M.mkarr((m,), lambda a: a[0]))
        for name in ("remove_boundaries", "extract_boundaries"):
            refused(ck, g, "input of the wrong size is refused", name, wrong, False, facts=[bnot(eq(m, g.nb))], kinds={"ValueError"})
            refused(ck, g, "input that is no array is refused", name, "text", False, kinds={"ValueError"})


def rows(t):
    """a two-dimensional array of three columns is a collection of points"""
    if t.op == "arr" and len(t.args[0]) == 2 and t.args[0][1] is num(3):
        b = fresh_bv(t.args[0][0])
        return mk("bag", mk("mseg", *close(b, mk("range", t.args[0][0]), TRUE, mk("tup", *[M.aget(t, [b, num(i)]) for i in range(3)]))))
    return t


def stripped(g, f, fs, lo, hi, comps=None):
    N = {a: (sub(g.NB[a], num(lo + hi)) if a in g.dims else ONE) for a in AX}
    sh = (N["z"], N["y"], N["x"]) if g.unify else tuple(N[a] for a in "zyx" if a in g.dims) or (ONE,)
    ax = g.faxes()

    def at(ix, r):
        c = {k: ZERO for k in AX}
        for i, k in enumerate(ax):
            c[k] = add(ix[i], num(lo)) if k in g.dims else ix[i]
        return f(c, *r)
    if fs or len(sh) == 1:
        return M.mkarr(sh + ((num(comps),) if comps else ()), lambda a: at(a[:len(sh)], a[len(sh):]))
    n = mul(mul(N["x"], N["y"]), N["z"])

    def flat(a):
        j = a[0]
        c = {}
        c["x"] = imod(j, N["x"])
        r = idiv(j, N["x"])
        c["y"] = imod(r, N["y"])
        c["z"] = idiv(r, N["y"])
        for k in AX:
            c[k] = add(c[k], num(lo)) if k in g.dims else ZERO
        return f(c, *a[1:])
    return M.mkarr((n,) + ((num(comps),) if comps else ()), flat)


# ---------------------------------------------------------------- C07
def c07(ck):
    for g in grids(ck):
        c, facts = cellvars(g)
        i = g.cid(c)
        quants = []
        for a in AX:
            quants += [("get_cell_d" + a, (), g.width(a, c[a])), ("get_cell_d", (a,), g.width(a, c[a])), ("get_cell_A" + a, (), g.area(a, c)), ("get_cell_A", (a,), g.area(a, c)),
                       ("get_cell_k" + a, (), g.prop("k" + a, i)), ("get_cell_k", (a,), g.prop("k" + a, i))]
        quants += [("get_cell_V", (), g.vol(c)), ("get_cell_center", (), M.mkarr((num(3),), lambda k: vec3(k[0], [g.center(a, c) for a in AX])))]
        for name, args, exp in quants:
            q2(ck, g, "value asked for one cell is that cell's", name, exp, *args, id=i, facts=facts, case="by id " + "".join(args))
            q2(ck, g, "value asked for one cell is that cell's", name, exp, *args, coords=tup3(c), facts=facts, case="by coords " + "".join(args))
            refused(ck, g, "asking without naming a cell is refused", name, *args, kinds={"ValueError"})
        for a in ("d", "A", "k"):
            refused(ck, g, "unknown direction is refused", "get_cell_" + a, "w", id=i, facts=facts, kinds={"ValueError", "KeyError", "AssertionError"})
            refused(ck, g, "unknown direction is refused", "get_cells_" + a, "w", kinds={"ValueError", "KeyError", "AssertionError"})
        for name in ("set_prop", "get_prop"):
            args = ("bogus",) if name == "get_prop" else ("bogus", ONE)
            refused(ck, g, "unknown property is refused", name, *args, kinds={"ValueError"})
        setters(ck, g, c, facts)


def setters(ck, g, c, facts):
    i = g.cid(c)
    v = sym("VALUE", "num")
    for name in ("kx", "ky", "kz", "phi", "z"):
        for how, kw in (("id", {"id": i}), ("coords", {"coords": tup3(c)}), ("all", {})):
            for setter in ("set_prop", "set_props"):
                if setter == "set_prop" and name not in ("kx", "z"):
                    continue
                wh = where(ck.src, RC, setter)
                case = f"{g.case} {name} by {how}"
                s0 = g.st
                try:
                    if setter == "set_prop":
                        g.call("set_prop", name, v, **kw)
                    else:
                        g.call("set_props", **{name: v}, **kw)
                    r, ex = g.refusal()
                    if r is not FALSE:
                        ck.same("setting a property of one cell changes it there only (accepted)", wh, r, FALSE, facts=facts, case=case)
                        if r is TRUE:
                            continue
                    g.st = g.last
                    for other in ("kx", "ky", "z"):
                        exp = lambda cc, k=other: g.prop(k, g.cid(cc)) if k != name else (v if how == "all" else ite(eq(g.cid(cc), i), v, g.prop(k, g.cid(cc))))
                        got = g.call("get_prop", other, True, False, "array")
                        ck.same("setting a property of one cell changes it there only", wh, got, g.cells(exp, True, False), facts=facts, case=case + " reading " + other, sizes=(0, 2))
                    if name[0] == "k":
                        exp = lambda cc: v if how == "all" else ite(eq(g.cid(cc), i), v, g.prop(name, g.cid(cc)))
                        got = g.call("get_cells_k", name[1], True, False)
                        ck.same("setting a property of one cell changes it there only", wh, got, g.cells(exp, True, False), facts=facts, case=case + " read by get_cells_k", sizes=(0, 2))
                except Exception as e:
                    ck.undecided("setting a property of one cell changes it there only", wh, f"{type(e).__name__}: {e}", case)
                finally:
                    g.st = s0
