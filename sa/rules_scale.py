"""C08: scalers are exactly invertible and fitted to the data given."""
from .terms import *
from .harness import H
from .check import where
from . import models as M

LO, HI, OLO, OHI = sym("v_lo", "num"), sym("v_hi", "num"), sym("out_lo", "num"), sym("out_hi", "num")
FACTS = [bnot(eq(LO, HI)), bnot(eq(OLO, OHI))]


def lin(x, a, b, A, B):
    return add(A, divide(mul(sub(B, A), sub(x, a)), sub(b, a)))


def attempt(ck, rule, wh, case, f):
    try:
        f()
    except Exception as e:
        ck.undecided(rule, wh, f"{type(e).__name__}: {e}", case)


def answered(ck, h, wh, rule, facts, case):
    r, ex = h.refusal()
    if r is not FALSE:
        ck.same(rule + " (answered)", wh, r, FALSE, facts=facts, case=case)


def data(h, name, kind):
    n, m = sym("rows", "int", 2), sym("cols", "int", 2)
    if kind == "scalar":
        return sym(name, "num"), (), lambda *ix: sym(name, "num")
    sh = {"vector": (n,), "table": (n, m), "cube": (n, m, sym("planes", "int", 2))}[kind]
    return h.arr(name, *sh), sh, lambda *ix: mk("at", sym(name, "arr"), *ix)


def maker(cls):
    def mkr(ck, rng="given", out=None):
        h = H(ck.src)
        o = h.new(cls, (OLO, OHI), **({"input_range": (LO, HI)} if rng == "given" else {}))
        ck.note(h.ip)
        return h, o
    return mkr


def spec(h, sh, f):
    return M.mkarr(sh, lambda ix: f(*ix)) if sh else f()


def ext(op, at, sh, axis):
    """extreme of the data along the axis, as a function of the element's index"""
    def f(*ix):
        ix = list(ix)
        bvs = []
        for i in range(len(sh)):
            if axis is None or i == axis:
                b = fresh_bv(sh[i])
                ix[i] = b
                bvs.append((b, sh[i]))
        v = at(*ix)
        for b, n in reversed(bvs):
            v = mk(op, *close(b, mk("range", n), v))
        return v
    return f


def c08(ck):
    mm = maker("MinMax")
    w = lambda n, c="MinMax": where(ck.src, c, n)
    for kind in ("scalar", "vector", "table", "cube"):
        def go():
            h, o = mm(ck)
            x, sh, at = data(h, "X", kind)
            before = h.fz(x)
            t = h.call(o, "transform", x)
            answered(ck, h, w("transform"), "transform is the linear map between the ranges", FACTS, kind)
            ck.same("transform is the linear map between the ranges", w("transform"), h.fz(t), spec(h, sh, lambda *ix: lin(at(*ix), LO, HI, OLO, OHI)), facts=FACTS, case=kind)
            ck.same("a transform does not alter its argument", w("transform"), h.fz(x), before, facts=FACTS, case=kind)
            tz = h.fz(t)
            b = h.call(o, "inverse_transform", t)
            answered(ck, h, w("inverse_transform"), "inverse undoes transform", FACTS, kind)
            ck.same("inverse undoes transform", w("inverse_transform"), h.fz(b), before, facts=FACTS, case=kind)
            ck.same("a transform does not alter its argument", w("inverse_transform"), h.fz(t), tz, facts=FACTS, case=kind)
            h, o = mm(ck)
            x, sh, at = data(h, "X", kind)
            u = h.call(o, "inverse_transform", x)
            ck.same("inverse is the linear map back", w("inverse_transform"), h.fz(u), spec(h, sh, lambda *ix: lin(at(*ix), OLO, OHI, LO, HI)), facts=FACTS, case=kind)
            t = h.call(o, "transform", u)
            ck.same("transform undoes inverse", w("transform"), h.fz(t), before, facts=FACTS, case=kind)
        attempt(ck, "inverse undoes transform", w("inverse_transform"), kind, go)
    # ends of the ranges, also after the output range is changed
    for change in (False, True):
        def go():
            h, o = mm(ck)
            A, B = OLO, OHI
            fs = list(FACTS)
            if change:
                A, B = sym("new_lo", "num"), sym("new_hi", "num")
                fs.append(bnot(eq(A, B)))
                h.call(o, "set_output_range", (A, B))
            for v, e in ((LO, A), (HI, B)):
                case = ("new output range " if change else "") + ("minimum" if v is LO else "maximum")
                ck.same("range ends map to range ends in order", w("transform"), h.fz(h.call(o, "transform", v)), e, facts=fs, case=case)
                ck.same("range ends map to range ends in order", w("inverse_transform"), h.fz(h.call(o, "inverse_transform", e)), v, facts=fs, case=case)
            x = sym("X", "num")
            ck.same("inverse undoes transform", w("inverse_transform"), h.fz(h.call(o, "inverse_transform", h.call(o, "transform", x))), x, facts=fs, case="new output range" if change else "same range")
        attempt(ck, "range ends map to range ends in order", w("transform"), str(change), go)
    # fitting
    for kind, axes in (("vector", (0, None, "default")), ("table", (0, 1, None, "default")), ("cube", (None,))):
        for ax in axes:
            for how in ("fit", "fit after another fit", "fit_transform", "fit over a given range"):
                def go():
                    h, o = mm(ck, "given" if how == "fit over a given range" else "none")
                    x, sh, at = data(h, "X", kind)
                    kw = {} if ax == "default" else {"axis": ax}
                    k = 0 if ax == "default" else ax
                    before = h.fz(x)
                    case = f"{kind} axis={ax} {how}"
                    if how == "fit after another fit":
                        h.call(o, "fit", data(h, "OLD", kind)[0], **kw)
                    wh = w("fit_transform" if how == "fit_transform" else "fit")
                    r = h.call(o, "fit_transform" if how == "fit_transform" else "fit", x, **kw)
                    answered(ck, h, wh, "fit uses the data's extremes along the axis", FACTS, case)
                    lo, hi = ext("Min", at, sh, k), ext("Max", at, sh, k)
                    exp = spec(h, sh, lambda *ix: lin(at(*ix), lo(*ix), hi(*ix), OLO, OHI))
                    ck.same("fitting does not alter its argument", wh, h.fz(x), before, facts=FACTS, case=case)
                    if how == "fit_transform":
                        ck.same("fit uses the data's extremes along the axis", wh, h.fz(r), exp, facts=FACTS, case=case, sizes=(0, 2))
                    t = h.call(o, "transform", x)
                    ck.same("fit uses the data's extremes along the axis", wh, h.fz(t), exp, facts=FACTS, case=case, sizes=(0, 2))
                    b = h.call(o, "inverse_transform", t)
                    ck.same("inverse undoes transform", w("inverse_transform"), h.fz(b), before, facts=FACTS, case="after " + case)
                attempt(ck, "fit uses the data's extremes along the axis", w("fit"), f"{kind} {ax} {how}", go)

    def refuse():
        for cls, name in (("MinMax", "transform"), ("MinMax", "inverse_transform")):
            h, o = mm(ck, "none")
            h.call(o, name, sym("X", "num"))
            r, ex = h.refusal()
            ck.truth("transforming before a range is known is refused", w(name), True if r is TRUE else None if r.unk else False, f"refused when {r}", "no input range")
            h, o = mm(ck, "none")
            h.call(o, "set_output_range", (sym("new_lo", "num"), sym("new_hi", "num")))
            h.call(o, name, sym("X", "num"))
            r, ex = h.refusal()
            ck.truth("transforming before a range is known is refused", w(name), True if r is TRUE else None if r.unk else False, f"refused when {r}", "only output range set")
    attempt(ck, "transforming before a range is known is refused", w("transform"), "", refuse)

    def dummy():
        for out in ((OLO, OHI), None):
            h = H(ck.src)
            o = h.new("Dummy", out)
            ck.note(h.ip)
            for kind in ("scalar", "vector", "table", "cube"):
                x, sh, at = data(h, "X" + kind, kind)
                before = h.fz(x)
                for name in ("transform", "inverse_transform", "fit_transform"):
                    v = h.call(o, name, x)
                    answered(ck, h, w(name, "Dummy"), "pass-through scaler returns values unchanged", (), kind)
                    ck.same("pass-through scaler returns values unchanged", w(name, "Dummy"), h.fz(v), before, case=f"{kind} output_range={'given' if out else 'none'}")
                    ck.same("a transform does not alter its argument", w(name, "Dummy"), h.fz(x), before, case=kind)
            h.call(o, "set_output_range", (OLO, OHI))
            h.call(o, "fit", h.arr("Y", sym("rows", "int", 2)))
            ck.same("pass-through scaler returns values unchanged", w("transform", "Dummy"), h.fz(h.call(o, "transform", sym("X", "num"))), sym("X", "num"), case="after fit")
    attempt(ck, "pass-through scaler returns values unchanged", w("transform", "Dummy"), "", dummy)
