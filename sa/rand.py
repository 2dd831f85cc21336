"""Random interpretation of terms (Gulwani-Necula): a *distinguishing valuation* separates two terms.

Terms are the abstract values computed from the source.  Nothing of the repository is executed here: every symbol,
uninterpreted application and array entry is assigned a pseudo-random value and the two terms are evaluated.  Two
terms that differ under some valuation satisfying the recorded facts are different functions of their inputs.
"""
import hashlib
import math
from .terms import *


class NoInfo(Exception):
    pass


class Op:
    """uninterpreted value identified by its key"""
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Op) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "?" + repr(self.key)[:60]


class Arr:
    def __init__(self, shape, get):
        self.shape, self.fn, self.memo = tuple(shape), get, {}

    def __getitem__(self, ix):
        if ix not in self.memo:
            if len(ix) != len(self.shape):
                raise NoInfo("rank")
            for i, s in zip(ix, self.shape):
                if not (0 <= i < s):
                    raise NoInfo("index out of range")
            self.memo[ix] = self.fn(ix)
        return self.memo[ix]

    def indices(self):
        n = 1
        for s in self.shape:
            n *= s
        if n > 6000:
            raise NoInfo("array too large")
        out = [()]
        for s in self.shape:
            out = [o + (i,) for o in out for i in range(s)]
        return out

    def plain(self):
        return ("arr", self.shape, [self[i] for i in self.indices()])


class Lst:
    def __init__(self, kind, vals):
        self.kind, self.vals = kind, vals


class Dct:
    def __init__(self, pairs):
        self.d = {}
        for k, v in pairs:
            self.d[k] = v


_free = {}


def free(t):
    """set of ax / bv atoms occurring free (approximation: all occurring, minus those bound at this node)"""
    r = _free.get(t)
    if r is not None:
        return r
    acc = set()
    if t.op in ("bv", "ax"):
        acc.add((t.op, t.args[0]))
    for s in subterms(t.args):
        acc |= free(s)
    if t.op in BINDERS:
        acc.discard(("bv", t.args[0].args[0]))
    elif t.op == "arr":
        acc -= {("ax", i) for i in range(len(t.args[0]))}
    elif t.op == "cat":
        pass
    r = frozenset(acc)
    _free[t] = r
    return r


# genuinely free (uninterpreted) constructors; anything else without an evaluator yields no information
FREE = {"sym", "attr", "item", "at", "call", "obj", "symbol", "cls", "ext", "mod_", "fn", "bm", "hasattr", "isinst", "kw", "exc", "dtype", "ref", "meth", "matrix", "solver", "tmap",
        "nbrs", "bnds", "mcall", "free1", "range", "slice", "partial", "ellipsis"}

_freel = {}


def freel(t):
    r = _freel.get(t)
    if r is None:
        r = _freel[t] = tuple(sorted(free(t)))
    return r


BINDERS = {"Sum", "Max", "Min", "exists", "pick", "pickix", "last", "first", "mseg", "dm", "psum", "dacc"}


class Valuation:
    def __init__(self, seed, strings=(), palette=None, presets=None, ufuncs=None, sizes=(0, 3), rules=None):
        self.seed = seed
        self.strings = list(strings)
        self.palette = palette
        self.presets = presets or {}
        self.ufuncs = ufuncs or {}
        self.sizes = sizes
        self.memo = {}
        self.inputs = {}
        self.steps = 0
        self.none = {}

    # -------------------------------------------------- randomness
    def h(self, *key):
        s = repr((self.seed, key)).encode()
        return int.from_bytes(hashlib.blake2b(s, digest_size=8).digest(), "big")

    def rfloat(self, key):
        x = self.h("f", key)
        if self.palette == "const":
            # one value per base symbol, so array entries coincide
            b = key
            while isinstance(b, tuple) and len(b) > 1 and b[0] in ("at", "item"):
                b = b[1]
            x = self.h("f", b)
            return 0.5 + (x % 10007) / 6007.0
        if self.palette == "two":
            return (1.0, 2.0)[x % 2]
        if self.palette == "one":
            return 1.5
        return 0.5 + (x % 1000003) / 660001.0

    def rint(self, key, lo=0, hi=3):
        return lo + self.h("i", key) % (hi - lo + 1)

    def rbool(self, key):
        return self.h("b", key) % 2 == 0

    def rstr(self, key):
        ss = self.strings + ["zz_other"]
        return ss[self.h("s", key) % len(ss)]

    # -------------------------------------------------- coercions
    def numv(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Op):
            if self.none.get(v.key):
                raise NoInfo("arithmetic on None")
            r = self.rfloat(v.key)
            return r
        raise NoInfo("not a number: %r" % (type(v).__name__,))

    def intv(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, float) and abs(v - round(v)) < 1e-9:
            return int(round(v))
        if isinstance(v, Op):
            return self.rint(v.key)
        raise NoInfo("not an integer")

    def boolv(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, Op):
            return self.rbool(v.key)
        if isinstance(v, (int, float)):
            return v != 0
        if v is None:
            return False
        raise NoInfo("not a boolean")

    def key(self, v):
        if isinstance(v, Op):
            return v.key
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return v
        if isinstance(v, float):
            if abs(v - round(v)) < 1e-12:
                return int(round(v))
            return float("%.9g" % v)
        if isinstance(v, tuple):
            return tuple(self.key(x) for x in v)
        if isinstance(v, Arr):
            return ("arr", v.shape, tuple(self.key(v[i]) for i in v.indices()))
        if isinstance(v, Lst):
            return (v.kind, tuple(self.key(x) for x in v.vals))
        if isinstance(v, Dct):
            return ("dict", tuple((self.key(k), self.key(x)) for k, x in v.d.items()))
        raise NoInfo("key")

    # -------------------------------------------------- evaluation
    def ev(self, t, env=None):
        env = env or {}
        op = t.op
        if op == "num":
            c = t.args[0]
            return c.numerator if c.denominator == 1 else float(c)
        if op == "ax" or op == "bv":
            k = (op, t.args[0])
            if k not in env:
                raise NoInfo("unbound")
            return env[k]
        fr = freel(t)
        k = (t,) + tuple([env.get(x) for x in fr]) if fr else t
        r = self.memo.get(k, self)
        if r is not self:
            if isinstance(r, NoInfo):
                raise r
            return r
        self.steps += 1
        if self.steps > 400000:
            raise NoInfo("budget")
        try:
            r = self._ev(t, env)
        except NoInfo as e:
            self.memo[k] = e
            raise
        except (OverflowError, ZeroDivisionError, ValueError):
            e = NoInfo("arithmetic")
            self.memo[k] = e
            raise e
        self.memo[k] = r
        return r

    def num(self, t, env):
        return self.numv(self.ev(t, env))

    def dom(self, d, env):
        """elements of a domain term"""
        if d.op == "range":
            n = self.intv(self.ev(d.args[0], env))
            if n > 5000:
                raise NoInfo("domain too large")
            return range(max(0, n))
        if d.op == "iter":
            return self.elements(d.args[0], env)
        return self.elements(d, env)

    def elements(self, t, env):
        f = self.ufuncs.get("iter")
        if f:
            r = f(self, t, env)
            if r is not None:
                return r
        v = self.ev(t, env)
        if isinstance(v, Lst):
            return v.vals
        if isinstance(v, Dct):
            return list(v.d)
        if isinstance(v, Arr) and len(v.shape) == 1:
            return [v[(i,)] for i in range(v.shape[0])]
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Op):
            return self.opaque_elems(v.key)
        raise NoInfo("domain")

    def opaque_elems(self, key):
        while isinstance(key, tuple) and key and key[0] in ("keys", "keysv", "items"):
            key = key[1]
        n = self.rint(("n", key), 0, 3)
        out = []
        for i in range(n):
            e = self.rint(("e", key, i), 0, 6)
            if e not in out:
                out.append(e)
        return out

    def bind(self, env, bv, v):
        e = dict(env)
        e[("bv", bv.args[0])] = v
        return e

    def _ev(self, t, env):
        if t in self.presets:
            p = self.presets[t]
            return p(self) if callable(p) else p
        f = self.ufuncs.get(t.op)
        if f is not None:
            r = f(self, t, env)
            if r is not NotImplemented:
                return r
        m = getattr(self, "o_" + t.op, None)
        if m is None:
            return self.default(t, env)
        return m(t, env)

    def default(self, t, env):
        if t.op in ("unk", "ucall", "cat", "carry", "cyclic", "undef", "dacc", "store", "copq", "vstack", "valuesv", "zip", "items"):
            raise NoInfo("no interpretation for " + t.op + " " + show(t)[:80])
        if t.op not in FREE:
            raise NoInfo("no interpretation for " + t.op)
        return Op((t.op,) + tuple(self.arg(a, env) for a in t.args))

    def arg(self, a, env):
        if isinstance(a, T):
            return self.key(self.ev(a, env))
        if isinstance(a, tuple):
            return tuple(self.arg(x, env) for x in a)
        return repr(a) if not isinstance(a, (int, str, bool, type(None))) else a

    def o_num(self, t, env):
        c = t.args[0]
        return int(c) if c.denominator == 1 else float(c)

    def o_fconst(self, t, env):
        return Op(("fconst", t.args[0]))

    def o_bool(self, t, env):
        return t.args[0]

    def o_str(self, t, env):
        return t.args[0]

    def o_none(self, t, env):
        return None

    def o_sym(self, t, env):
        name, kind, lb = t.args
        if kind == "int":
            v = (lb or 0) + self.rint(name, *self.sizes)
        elif kind == "num":
            v = self.rfloat(name)
            if lb is not None and v < lb:
                v = lb + v
        elif kind == "bool":
            v = self.rbool(name)
        elif kind == "str":
            v = self.rstr(name)
        else:
            v = Op(("sym", name, kind))
        self.inputs[name] = v
        return v

    def o_bv(self, t, env):
        k = ("bv", t.args[0])
        if k not in env:
            raise NoInfo("unbound")
        return env[k]

    def o_ax(self, t, env):
        k = ("ax", t.args[0])
        if k not in env:
            raise NoInfo("unbound axis")
        return env[k]

    def o_rat(self, t, env):
        n = self.poly(t.args[0], env)
        d = self.poly(t.args[1], env)
        if d == 1:
            return n
        if abs(d) < 1e-12:
            raise NoInfo("division by zero")
        return n / d

    def poly(self, items, env):
        s = 0
        mag = 0.0
        for m, c in items:
            x = int(c) if c.denominator == 1 else float(c)
            for a, e in m:
                v = self.num(a, env)
                if e == 1:
                    x = x * v
                elif e.denominator == 1 and e > 0:
                    x = x * v ** int(e)
                else:
                    if v == 0 or (v < 0 and e.denominator != 1):
                        raise NoInfo("power")
                    x = x * v ** float(e)
            s = s + x
            mag = max(mag, abs(x))
        if isinstance(s, float) and abs(s) < 1e-10 * mag:
            return 0
        return s

    def o_pow(self, t, env):
        b, e = self.num(t.args[0], env), self.num(t.args[1], env)
        if b < 0 and e != int(e) or b == 0 and e <= 0:
            raise NoInfo("power")
        return b ** e

    def o_log(self, t, env):
        x = self.num(t.args[0], env)
        if x <= 0:
            raise NoInfo("log")
        return math.log(x)

    def o_P(self, t, env):
        return self.ev(t.args[0], env)

    def o_abs(self, t, env):
        return abs(self.num(t.args[0], env))

    def o_div(self, t, env):
        b = self.intv(self.ev(t.args[1], env))
        if b == 0:
            raise NoInfo("division by zero")
        return self.intv(self.ev(t.args[0], env)) // b

    def o_mod(self, t, env):
        b = self.intv(self.ev(t.args[1], env))
        if b == 0:
            raise NoInfo("division by zero")
        return self.intv(self.ev(t.args[0], env)) % b

    def o_floordiv(self, t, env):
        return self.num(t.args[0], env) // self.num(t.args[1], env)

    def o_fmod(self, t, env):
        return self.num(t.args[0], env) % self.num(t.args[1], env)

    def o_toint(self, t, env):
        return int(self.num(t.args[0], env))

    def o_floor(self, t, env):
        return math.floor(self.num(t.args[0], env))

    def o_ceil(self, t, env):
        return math.ceil(self.num(t.args[0], env))

    def o_round(self, t, env):
        return round(self.num(t.args[0], env), *[self.intv(self.ev(a, env)) for a in t.args[1:]])

    def o_exp(self, t, env):
        return math.exp(self.num(t.args[0], env))

    def o_sin(self, t, env):
        return math.sin(self.num(t.args[0], env))

    def o_cos(self, t, env):
        return math.cos(self.num(t.args[0], env))

    def o_sqrt(self, t, env):
        return math.sqrt(self.num(t.args[0], env))

    def o_np(self, t, env):
        name = t.args[0]
        if name in ("exp", "sin", "cos", "sqrt", "tan", "log10", "log2", "log1p", "expm1", "sinh", "cosh", "tanh"):
            return getattr(math, name)(self.num(t.args[1], env))
        return self.default(t, env)

    def o_ite(self, t, env):
        c = self.boolv(self.ev(t.args[0], env))
        return self.ev(t.args[1] if c else t.args[2], env)

    def o_not(self, t, env):
        return not self.boolv(self.ev(t.args[0], env))

    def o_and(self, t, env):
        return self.junct(t, env, False)

    def o_or(self, t, env):
        return self.junct(t, env, True)

    def junct(self, t, env, stop):
        bad = None
        for a in t.args:
            try:
                if self.boolv(self.ev(a, env)) is stop:
                    return stop
            except NoInfo as e:
                bad = e
        if bad:
            raise bad
        return not stop

    def o_lt0(self, t, env):
        return self.num(t.args[0], env) < 0

    def o_eq0(self, t, env):
        return abs(self.num(t.args[0], env)) < 1e-11

    def o_eq(self, t, env):
        a, b = self.ev(t.args[0], env), self.ev(t.args[1], env)
        return self.same(a, b)

    def same(self, a, b):
        if isinstance(b, Op):
            a, b = b, a
        if isinstance(a, Op):
            if isinstance(b, Op):
                return a.key == b.key
            if isinstance(b, str):
                return self.rstr(a.key) == b
            if isinstance(b, bool):
                return self.rbool(a.key) == b
            if isinstance(b, (int, float)):
                return abs(self.numv(a) - b) < 1e-9
            raise NoInfo("equality")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return abs(a - b) < 1e-9
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, (str, type(None), tuple, int, float)) and isinstance(b, (str, type(None), tuple, int, float)):
            return type(a) is type(b) and a == b
        raise NoInfo("equality")

    def o_isnone(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Op):
            r = self.h("none", v.key) % 3 == 0
            self.none[v.key] = r
            return r
        return v is None

    def o_truthy(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Op):
            return self.rbool(("truthy", v.key))
        if isinstance(v, Arr):
            raise NoInfo("truth of array")
        if isinstance(v, Lst):
            return bool(v.vals)
        if isinstance(v, Dct):
            return bool(v.d)
        return bool(v)

    def o_len(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Lst):
            return len(v.vals)
        if isinstance(v, Dct):
            return len(v.d)
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, Arr):
            return v.shape[0]
        if isinstance(v, Op):
            return len(self.opaque_elems(v.key))
        raise NoInfo("len")

    def o_at(self, t, env):
        b = self.ev(t.args[0], env)
        if isinstance(b, Op) and b.key[0] == "sym" and b.key[2] == "fun":
            # a function of any numbers
            xs = [self.num(a, env) for a in t.args[1:]]
            return self.rfloat(("at", b.key, tuple(int(x) if x == int(x) else float("%.9g" % x) for x in xs)))
        ix = tuple(self.intv(self.ev(a, env)) for a in t.args[1:])
        if isinstance(b, Arr):
            ix = tuple(i + s if i < 0 else i for i, s in zip(ix, b.shape))
            return b[ix]
        if isinstance(b, Op):
            if b.key[0] == "sym" and b.key[2] == "intarr":
                return self.rint(("at", b.key, ix), 0, 6)
            return self.rfloat(("at", b.key, ix))
        raise NoInfo("at")

    def o_item(self, t, env):
        b = self.ev(t.args[0], env)
        k = tuple(self.ev(a, env) for a in t.args[1:])
        if isinstance(b, Dct):
            kk = self.hk(k[0])
            if kk in b.d:
                return b.d[kk]
            raise NoInfo("missing key")
        if isinstance(b, Lst) and len(k) == 1:
            i = self.intv(k[0])
            if -len(b.vals) <= i < len(b.vals):
                return b.vals[i]
            raise NoInfo("list index")
        if isinstance(b, tuple):
            return b[self.intv(k[0])]
        if isinstance(b, Arr):
            return b[tuple(self.intv(x) for x in k)]
        if isinstance(b, Op):
            return Op(("item", b.key) + tuple(self.key(x) for x in k))
        raise NoInfo("item")

    def hk(self, v):
        if isinstance(v, float) and abs(v - round(v)) < 1e-12:
            return int(round(v))
        return v

    def o_in(self, t, env):
        k, d = t.args
        kv = self.ev(k, env)
        try:
            el = self.elements(d if d.op != "keys" else d.args[0], env)
        except NoInfo:
            raise
        if isinstance(kv, Op) or isinstance(kv, str) and el and not any(isinstance(x, str) for x in el):
            return self.rbool(("in", self.key(kv), self.arg(d, env)))
        return any(self.same(kv, x) for x in el)

    def o_tup(self, t, env):
        return tuple(self.ev(a, env) for a in t.args)

    def o_arr(self, t, env):
        shape = tuple(self.intv(self.ev(s, env)) for s in t.args[0])
        body = t.args[1]

        def g(ix):
            e = {k: v for k, v in env.items() if k[0] == "bv"}
            for i, x in enumerate(ix):
                e[("ax", i)] = x
            return self.ev(body, e)
        return Arr(shape, g)

    def o_dmat(self, t, env):
        n = self.intv(self.ev(t.args[0], env))
        ds = []
        for k, v in t.args[1]:
            ds.append((self.intv(self.ev(k, env)), self.ev(v, env)))

        def g(ix):
            i, j = ix
            r = 0
            for k, v in ds:
                if j - i == k:
                    p = min(i, j)
                    if len(v.shape) != 1 or p >= v.shape[0]:
                        raise NoInfo("diagonal length")
                    r = r + self.numv(v[(p,)])
            return r
        return Arr((n, n), g)

    def o_list(self, t, env):
        return self.coll("list", t, env)

    def o_set(self, t, env):
        return self.coll("set", t, env)

    def o_bag(self, t, env):
        return self.coll("bag", t, env)

    def coll(self, kind, t, env):
        out = []
        for s in t.args:
            if s.op == "el":
                if self.boolv(self.ev(s.args[0], env)):
                    out.append(self.ev(s.args[1], env))
            elif s.op == "mseg":
                bv, dom, g, v = s.args
                for x in self.dom(dom, env):
                    e = self.bind(env, bv, x)
                    if self.boolv(self.ev(g, e)):
                        out.append(self.ev(v, e))
            elif s.op == "base":
                v = self.ev(s.args[0], env)
                if isinstance(v, Lst):
                    out.extend(v.vals)
                else:
                    raise NoInfo("list base")
            else:
                raise NoInfo("list segment")
        if kind == "set":
            u = []
            for x in out:
                if x not in u:
                    u.append(x)
            out = u
        return Lst(kind, out)

    def o_dict(self, t, env):
        pairs = []
        base = t.args[0]
        if base is not NONE and base.op not in ("dd",):
            raise NoInfo("dict base")
        for e in t.args[1:]:
            if e.op == "de":
                if self.boolv(self.ev(e.args[0], env)):
                    pairs.append((self.hk(self.ev(e.args[1], env)), self.ev(e.args[2], env)))
            elif e.op == "dm":
                bv, dom, g, k, v = e.args
                for x in self.dom(dom, env):
                    en = self.bind(env, bv, x)
                    if self.boolv(self.ev(g, en)):
                        pairs.append((self.hk(self.ev(k, en)), self.ev(v, en)))
            else:
                raise NoInfo("dict entry")
        return Dct(pairs)

    def o_keysv(self, t, env):
        return self.keysof(t, env)

    def o_keys(self, t, env):
        return self.keysof(t, env)

    def keysof(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Dct):
            return Lst("list", list(v.d))
        if isinstance(v, Op):
            return Op(("keys", v.key))
        if isinstance(v, Lst):
            return v
        raise NoInfo("keys")

    def o_sorted(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Lst) and all(isinstance(x, (int, float)) for x in v.vals):
            return Lst("list", sorted(v.vals))
        raise NoInfo("sorted")

    def o_Sum(self, t, env):
        bv, dom, body = t.args
        s, mag = 0, 0.0
        for x in self.dom(dom, env):
            v = self.num(body, self.bind(env, bv, x))
            s = s + v
            mag = max(mag, abs(v))
        if isinstance(s, float) and abs(s) < 1e-10 * mag:
            return 0
        return s

    def extremum(self, t, env, f):
        bv, dom, body = t.args
        vals = [self.num(body, self.bind(env, bv, x)) for x in self.dom(dom, env)]
        if not vals:
            raise NoInfo("extremum of nothing")
        return f(vals)

    def o_Max(self, t, env):
        return self.extremum(t, env, max)

    def o_Min(self, t, env):
        return self.extremum(t, env, min)

    def o_exists(self, t, env):
        bv, dom, c = t.args
        return any(self.boolv(self.ev(c, self.bind(env, bv, x))) for x in self.dom(dom, env))

    def o_pick(self, t, env):
        bv, dom, c, v = t.args
        r = None
        for x in self.dom(dom, env):
            e = self.bind(env, bv, x)
            if self.boolv(self.ev(c, e)):
                r = e
        if r is None:
            raise NoInfo("pick from nothing")
        return self.ev(v, r)

    def o_pickix(self, t, env):
        bv, dom, c = t.args
        r = None
        for x in self.dom(dom, env):
            if self.boolv(self.ev(c, self.bind(env, bv, x))):
                r = x
        if r is None:
            raise NoInfo("pick from nothing")
        return r

    def o_first(self, t, env):
        bv, dom, c, v = t.args
        for x in self.dom(dom, env):
            e = self.bind(env, bv, x)
            if self.boolv(self.ev(c, e)):
                return self.ev(v, e)
        raise NoInfo("first of nothing")

    def o_last(self, t, env):
        if len(t.args) != 3:
            raise NoInfo("last")
        bv, dom, v = t.args
        d = list(self.dom(dom, env))
        if not d:
            raise NoInfo("last of nothing")
        return self.ev(v, self.bind(env, bv, d[-1]))

    def o_only(self, t, env):
        d = self.elements(t.args[0], env)
        if len(d) != 1:
            raise NoInfo("only")
        return d[0]

    def o_sorted_at(self, t, env):
        a = self.ev(t.args[0], env)
        if not isinstance(a, Arr) or len(a.shape) != 1:
            raise NoInfo("sorted array")
        vals = sorted(self.numv(a[(i,)]) for i in range(a.shape[0]))
        return vals[self.intv(self.ev(t.args[1], env))]

    def npext(self, t, env, f):
        a = self.ev(t.args[0], env)
        if not isinstance(a, Arr):
            return self.default(t, env)
        ax, keep = t.args[1], t.args[2]
        if ax is NONE:
            return f(self.numv(a[i]) for i in a.indices())
        k = self.intv(self.ev(ax, env)) % len(a.shape)
        kp = self.boolv(self.ev(keep, env))
        sh = tuple(s for i, s in enumerate(a.shape) if i != k or kp)
        if kp:
            sh = tuple(1 if i == k else s for i, s in enumerate(sh))

        def g(ix):
            def at(j):
                l = list(ix)
                if kp:
                    l[k] = j
                else:
                    l.insert(k, j)
                return self.numv(a[tuple(l)])
            return f(at(j) for j in range(a.shape[k]))
        return Arr(sh, g)

    def o_npmax(self, t, env):
        return self.npext(t, env, max)

    def o_npmin(self, t, env):
        return self.npext(t, env, min)

    def o_fmt(self, t, env):
        out = ""
        for a in t.args:
            v = self.ev(a.args[0] if a.op == "strv" else a, env)
            out += v if isinstance(v, str) else str(self.key(v))
        return out

    def o_strv(self, t, env):
        v = self.ev(t.args[0], env)
        return v if isinstance(v, str) else str(self.key(v))

    def o_lower(self, t, env):
        v = self.ev(t.args[0], env)
        if isinstance(v, Op):
            return self.rstr(v.key)
        if not isinstance(v, str):
            raise NoInfo("lower")
        return v.lower()

    def o_symbol(self, t, env):
        return Op(("symbol", self.key(self.ev(t.args[0], env))))

    def o_Eq(self, t, env):
        return ("Eq", self.num(t.args[0], env), self.num(t.args[1], env))

    # -------------------------------------------------- structural comparison
    def sampled(self, a, limit=700):
        """indices to compare: all, or for large matrices whole rows picked at random"""
        n = 1
        for s in a.shape:
            n *= s
        if n <= limit or len(a.shape) < 2:
            return a.indices()
        rows = a.shape[0]
        per = n // rows
        k = max(2, limit // per)
        pick = sorted({self.h("row", r) % rows for r in range(k)} | {0, rows - 1})
        tails = [()]
        for s in a.shape[1:]:
            tails = [t + (i,) for t in tails for i in range(s)]
        return [(r,) + t for r in pick for t in tails]

    def differs(self, a, b, path=""):
        """None if equal, else a description.  Values only."""
        if isinstance(a, Arr) and isinstance(b, Lst) or isinstance(a, Lst) and isinstance(b, Arr):
            a, b = self.plainlist(a), self.plainlist(b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.shape != b.shape:
                return f"{path} shape {a.shape} expected {b.shape}"
            for i in self.sampled(a):
                d = self.differs(a[i], b[i], f"{path}[{','.join(map(str, i))}]")
                if d:
                    return d
            return None
        if isinstance(a, (Lst, tuple)) and isinstance(b, (Lst, tuple)):
            x = a.vals if isinstance(a, Lst) else list(a)
            y = b.vals if isinstance(b, Lst) else list(b)
            if isinstance(a, Lst) and a.kind in ("set", "bag") or isinstance(b, Lst) and b.kind in ("set", "bag"):
                kx, ky = sorted(repr(self.key(q)) for q in x), sorted(repr(self.key(q)) for q in y)
                if kx != ky:
                    return f"{path} elements {{{', '.join(kx)[:120]}}} expected {{{', '.join(ky)[:120]}}}"
                return None
            if len(x) != len(y):
                return f"{path} length {len(x)} expected {len(y)}"
            for i, (p, q) in enumerate(zip(x, y)):
                d = self.differs(p, q, f"{path}[{i}]")
                if d:
                    return d
            return None
        if isinstance(a, Dct) and isinstance(b, Dct):
            if set(a.d) != set(b.d):
                return f"{path} keys {sorted(map(repr, a.d))} expected {sorted(map(repr, b.d))}"
            for k in b.d:
                d = self.differs(a.d[k], b.d[k], f"{path}[{k!r}]")
                if d:
                    return d
            return None
        if isinstance(a, Op) and isinstance(b, (int, float)) and not isinstance(b, bool) or isinstance(b, Op) and isinstance(a, (int, float)) and not isinstance(a, bool):
            a, b = self.numv(a), self.numv(b)
        if isinstance(a, Op) or isinstance(b, Op):
            if isinstance(a, Op) and isinstance(b, Op):
                return None if a.key == b.key else f"{path} is {a!r}, expected {b!r}"
            if isinstance(a, bool) or isinstance(b, bool):
                x, y = self.boolv(a), self.boolv(b)
                return None if x == y else f"{path} is {x}, expected {y}"
            return f"{path} is {a!r}, expected {b!r}"
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if abs(a - b) <= 1e-7 * max(1e-3, abs(a), abs(b)):
                return None
            return f"{path} is {a:.8g}, expected {b:.8g}"
        if type(a) is type(b):
            return None if a == b else f"{path} is {a!r}, expected {b!r}"
        if isinstance(a, (Arr, Lst, tuple, Dct)) != isinstance(b, (Arr, Lst, tuple, Dct)) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return f"{path} is {short(a)}, expected {short(b)}"
        raise NoInfo("incomparable")

    def plainlist(self, a):
        if isinstance(a, Arr):
            if len(a.shape) == 1:
                return Lst("list", [a[(i,)] for i in range(a.shape[0])])
            return Lst("list", [Arr(a.shape[1:], lambda ix, i=i: a[(i,) + ix]) for i in range(a.shape[0])])
        return a


def short(v):
    if isinstance(v, Arr):
        return f"array{v.shape}"
    if isinstance(v, Lst):
        return f"{v.kind} of {len(v.vals)}"
    if isinstance(v, Dct):
        return f"dict of {len(v.d)}"
    return repr(v)


def strings_in(*ts):
    out = set()
    for t in ts:
        for s in find_all(t, lambda q: q.op == "str"):
            if len(s.args[0]) < 40:
                out.add(s.args[0])
    return sorted(out)


class Witness:
    def __init__(self, why, inputs, seed):
        self.why, self.inputs, self.seed = why, inputs, seed

    def __str__(self):
        ins = ", ".join(f"{k}={self.fmt(v)}" for k, v in sorted(self.inputs.items()) if not isinstance(v, Op))
        return f"{self.why} (for {ins})" if ins else self.why

    @staticmethod
    def fmt(v):
        return f"{v:.4g}" if isinstance(v, float) else str(v)


PALETTES = (None, None, "const", None, "two", None, "const", "one")


def reached(c, tries, seed=1):
    """the condition holds at some point tried"""
    ss = strings_in(c)
    for k in range(tries):
        v = Valuation((seed, k), ss, PALETTES[k % len(PALETTES)], None, None, (0, 2))
        try:
            if v.boolv(v.ev(c)):
                return True
        except NoInfo:
            pass
        except RecursionError:
            return True
    return False


def distinguish(a, b, facts=(), presets=None, ufuncs=None, n=24, seed=1, sizes=(0, 2), where=None, note=None, differ=None):
    """(witness or None, number of informative valuations).  `facts` are boolean terms that must hold."""
    ss = strings_in(a, b, *facts)
    good = 0
    tries = 0
    bad = {}
    for k in range(n * 60):
        if good >= n or tries >= 6 * n:
            break
        v = Valuation((seed, k), ss, PALETTES[k % len(PALETTES)], presets, ufuncs, sizes)
        try:
            if not all(v.boolv(v.ev(f)) for f in facts):
                bad["fact"] = bad.get("fact", 0) + 1
                continue
            tries += 1
            # facts about "None"-ness are resolved on first test, so evaluate twice
            d = differ(v) if differ else v.differs(v.ev(a), v.ev(b))
        except NoInfo as e:
            tries += 1
            bad[str(e)[:60]] = bad.get(str(e)[:60], 0) + 1
            if len(bad) == 1 and tries > 3 * n and good == 0:
                break
            continue
        except RecursionError:
            bad["recursion"] = bad.get("recursion", 0) + 1
            break
        good += 1
        if d:
            return Witness(d, dict(v.inputs), k), good
    if note is not None:
        note.update(bad)
    return None, good
