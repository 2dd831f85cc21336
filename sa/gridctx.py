"""Abstract regular Cartesian grids (symbolic sizes) and the specification terms for them."""
from .terms import *
from .interp import Interp, St, Diverge
from . import models as M

ALLDIMS = ("", "x", "y", "z", "xy", "xz", "yz", "xyz")
AX = "xyz"
PROPS = ("kx", "ky", "kz", "phi", "z")


class Grid:
    """a grid built by abstractly running RegularCartesian.__init__ on symbolic arguments"""

    def __init__(self, src, dims, unify=True, widths="arr", props="arr", unit=None, typemap=None, contracts=None):
        self.src, self.dims, self.unify = src, dims, unify
        self.ip = ip = Interp(src, typemap, contracts)
        self.st = st = St()
        self.NB, self.N = {}, {}
        args = {}
        self.widths = widths
        for a in AX:
            if a in dims:
                self.NB[a] = sym("N" + a.upper() + "B", "int", 4)
                self.N[a] = sub(self.NB[a], num(2))
                if widths != "num":
                    d = ip.alloc(st, M.mkarr((self.NB[a],), lambda x, a=a: self.width(a, x[0])))
                else:
                    d = sym("D" + a.upper(), "num")
            else:
                self.NB[a] = self.N[a] = ONE
                d = sym("D" + a.upper(), "num")
            args["n" + a], args["d" + a] = self.N[a], d
        self.nb = mul(mul(self.NB["x"], self.NB["y"]), self.NB["z"])
        self.n = mul(mul(self.N["x"], self.N["y"]), self.N["z"])
        self.props = props = props if isinstance(props, dict) or props is None else {k: props for k in PROPS}
        for k in PROPS:
            if props is None or props.get(k) is None:
                continue
            if props[k] == "num":
                args[k] = sym(k.upper(), "num")
            else:
                args[k] = ip.alloc(st, M.mkarr((self.nb,), lambda x, k=k: self.prop(k, x[0])))
        args["unify"] = boolc(unify)
        if unit is not None:
            args["unit"] = unit
        self.args = args
        self.obj = ip.instantiate(src.cls("RegularCartesian"), [], args, st)

    @property
    def case(self):
        return f"dims={self.dims or 'none'} unify={self.unify}"

    # ---- running methods
    def call(self, name, *args, **kw):
        """(value frozen or None, state, raises)"""
        s = self.st.copy()
        a = [self.val(x, s) for x in args]
        k = {q: self.val(x, s) for q, x in kw.items()}
        v = self.ip.call_method(self.obj, name, a, k, s)
        self.last = s
        self.raises = list(self.ip.raises)
        return self.ip.freeze(v, s) if v is not None else None

    def val(self, x, s):
        if isinstance(x, T):
            return x
        if isinstance(x, bool):
            return boolc(x)
        if isinstance(x, str):
            return string(x)
        if isinstance(x, int):
            return num(x)
        if x is None:
            return NONE
        if isinstance(x, tuple):
            return mk("tup", *[self.val(y, s) for y in x])
        if isinstance(x, list):
            return self.ip.newlist(s, [self.val(y, s) for y in x])
        if isinstance(x, dict):
            return self.ip.newdict(s, [(self.val(k, s), self.val(v, s)) for k, v in x.items()])
        raise TypeError(x)

    def refusal(self):
        """condition under which the last call is refused, and exception names"""
        return bor(*[e.guard for e in self.raises]), {e.value.args[0] for e in self.raises if e.value.op == "exc"}

    # ---- specification pieces
    def width(self, a, i):
        if a in self.dims and self.widths == "arr":
            return mk("at", sym("D" + a.upper(), "arr"), i)
        if a in self.dims and self.widths == "inner":
            return ite(band(bnot(lt(i, ONE)), lt(i, sub(self.NB[a], ONE))), sym("DI" + a.upper(), "num"), mk("at", sym("D" + a.upper(), "arr"), i))
        return sym("D" + a.upper(), "num")

    def isin(self, c):
        """the cell at these coordinates is an interior cell"""
        return band(*[band(bnot(lt(c[a], ONE)), lt(c[a], sub(self.NB[a], ONE))) for a in self.dims])

    def prop(self, k, f):
        """value of a property at cell id f: 'arr' anything, 'num' one value, 'inner' one value in the interior, anything on the boundary"""
        how = self.props[k]
        at = mk("at", sym(k.upper(), "arr"), f)
        if how == "inner":
            return ite(self.isin(self.coords(f)), sym(k.upper() + "I", "num"), at)
        return at if how == "arr" else sym(k.upper(), "num")

    def coords(self, f):
        """position of the cell with (boundary-including) id f"""
        if len(self.dims) == 1:
            return {a: f if a == self.dims else ZERO for a in "xyz"}
        nx, ny = self.NB["x"], self.NB["y"]
        x = imod(f, nx) if nx is not ONE else ZERO
        r = idiv(f, nx) if nx is not ONE else f
        y = imod(r, ny) if ny is not ONE else ZERO
        z = idiv(r, ny) if ny is not ONE else r
        if self.NB["z"] is ONE:
            z = ZERO
        return {"x": x, "y": y, "z": z}

    def cid(self, c):
        return add(c["x"], mul(self.NB["x"], add(c["y"], mul(self.NB["y"], c["z"]))))

    def icoords(self, j):
        """position (in boundary-including coordinates) of the j-th interior cell"""
        nx, ny = self.N["x"], self.N["y"]
        x = imod(j, nx) if nx is not ONE else ZERO
        r = idiv(j, nx) if nx is not ONE else j
        y = imod(r, ny) if ny is not ONE else ZERO
        z = idiv(r, ny) if ny is not ONE else r
        if self.N["z"] is ONE:
            z = ZERO
        c = {"x": x, "y": y, "z": z}
        return {a: add(c[a], ONE) if a in self.dims else c[a] for a in AX}

    def fshape(self, boundary, points=False):
        N = self.NB if boundary else self.N
        if self.unify:
            s = (N["z"], N["y"], N["x"])
        else:
            s = tuple(N[a] for a in "zyx" if a in self.dims) or (ONE,)
        return s + (num(3),) if points else s

    def faxes(self):
        return "zyx" if self.unify else "".join(a for a in "zyx" if a in self.dims)

    def size(self, boundary):
        return self.nb if boundary else self.n

    def cells(self, f, boundary=True, fshape=False, comps=None):
        """array over the cells: entry f(coords) (or f(coords, component axis term))"""
        if not fshape:
            n = self.size(boundary)

            def g(a):
                c = self.coords(a[0]) if boundary else self.icoords(a[0])
                return f(c, *a[1:])
            return M.mkarr((n,) + ((num(comps),) if comps else ()), g)
        sh = self.fshape(boundary) + ((num(comps),) if comps else ())
        fa = self.faxes()

        def g(a):
            c = {k: ZERO for k in AX}
            for i, k in enumerate(fa):
                c[k] = add(a[i], ONE) if (not boundary and k in self.dims) else a[i]
            return f(c, *a[len(fa) if fa else 1:])
        return M.mkarr(sh, g)

    def W(self, a):
        return lambda c, *r: self.width(a, c[a])

    def area(self, a, c):
        r = ONE
        for b in AX:
            if b != a:
                r = mul(r, self.width(b, c[b]))
        return r

    def vol(self, c):
        return mul(mul(self.width("x", c["x"]), self.width("y", c["y"])), self.width("z", c["z"]))

    def prefix(self, a, i):
        """sum of the widths before position i along a"""
        if a not in self.dims:
            return mul(i, self.width(a, i))
        if self.widths == "num":
            return mul(i, self.width(a, ZERO))
        b = fresh_bv(i)
        return bigsum(b, mk("range", i), TRUE, self.width(a, b))

    def center(self, a, c):
        return add(self.prefix(a, c[a]), mul(num(0.5), self.width(a, c[a])))


def vec3(t, vals):
    """component selected by the axis term t"""
    return ite(eq(t, ZERO), vals[0], ite(eq(t, ONE), vals[1], vals[2]))
