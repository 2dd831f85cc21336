"""Abstract values: hash-consed terms with canonical normal forms.

Numeric terms are rational functions (Laurent polynomials with rational exponents over atoms, divided by a
polynomial).  Joins of control flow are `ite` terms (gated phi).  Nothing here is ever evaluated on data: equality
is equality of normal forms.
"""
from fractions import Fraction as Fr
import sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "args", "id", "unk", "_s", "bvh", "isint")

    def __repr__(self):
        return show(self)


_tab = {}
UNINT = {"unk", "ucall"}


def mk(op, *args):
    key = (op,) + tuple((type(a).__name__, a) if isinstance(a, (bool, int, float, str, Fr)) else a for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(_tab)
        t._s = None
        unk = op in UNINT
        h = args[0] + 1 if op == "bv" else 0
        for s in subterms(args):
            if s.unk:
                unk = True
            if s.bvh > h:
                h = s.bvh
        t.unk = unk
        t.bvh = h
        t.isint = _isint(t)
        _tab[key] = t
    return t


def subterms(args):
    for a in args:
        if isinstance(a, T):
            yield a
        elif isinstance(a, tuple):
            yield from subterms(a)


_unkc = [0]


def unk(why=""):
    _unkc[0] += 1
    return mk("unk", _unkc[0], str(why)[:160])




def num(v):
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return mk("fconst", repr(v))
        v = Fr(repr(v))
    return mk("num", Fr(v))




def string(s):
    return mk("str", s)


def boolc(b):
    return TRUE if b else FALSE


def sym(name, kind="any", lb=None):
    """opaque input; kind in int|num|str|bool|arr|any ; lb = known lower bound of an int"""
    return mk("sym", name, kind, lb)


INTOPS = {"ix", "ax", "div", "mod", "len", "bv"}


def _isint(t):
    op = t.op
    if op == "num":
        return t.args[0].denominator == 1
    if op == "sym":
        return t.args[1] == "int"
    if op in INTOPS:
        return True
    if op == "rat":
        n, d = t.args
        if d != (((), Fr(1)),):
            return False
        for m, c in n:
            if c.denominator != 1:
                return False
            for a, e in m:
                if not a.isint or e.denominator != 1 or e < 0:
                    return False
        return True
    if op == "ite":
        return t.args[1].isint and t.args[2].isint
    if op in ("Sum", "Max", "Min"):
        return t.args[2].isint
    if op == "at":
        return isinstance(t.args[0], T) and t.args[0].op == "sym" and t.args[0].args[1] == "intarr"
    return False


TRUE = mk("bool", True)
FALSE = mk("bool", False)
NONE = mk("none")
ZERO = num(0)
ONE = num(1)


# ----------------------------------------------------------------- polynomials
def p_const(c):
    return {(): Fr(c)} if c else {}


def mono_key(m):
    return tuple((a.id, e) for a, e in m)


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        x = d.get(a, 0) + e
        if x:
            d[a] = x
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda p: p[0].id))


def p_add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + c * k
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


class TooBig(Exception):
    pass


def p_mul(a, b):
    if len(a) * len(b) > 40000:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            x = r.get(m, 0) + c1 * c2
            if x:
                r[m] = x
            else:
                r.pop(m, None)
    return r


def p_key(p):
    return tuple(sorted(p.items(), key=lambda mc: mono_key(mc[0])))


P1 = (((), Fr(1)),)


def is_numeric(t):
    return t.op not in ("str", "none", "tup", "ref", "obj", "fn", "bm", "cls", "module", "ext", "slice", "list", "dict", "set", "arr", "fmt")


def rat(t):
    if t.op == "num":
        return p_const(t.args[0]), {(): Fr(1)}
    if t.op == "rat":
        return dict(t.args[0]), dict(t.args[1])
    if t.op == "bool":
        return p_const(1 if t.args[0] else 0), {(): Fr(1)}
    return {((t, Fr(1)),): Fr(1)}, {(): Fr(1)}


def _lead(p):
    """leading monomial under lexicographic order on (atom id -> exp)"""
    def k(m):
        return [(-a.id, e) for a, e in m]
    best = None
    for m in p:
        if best is None or _mono_gt(m, best):
            best = m
    return best


def _mono_gt(m1, m2):
    d1, d2 = dict(m1), dict(m2)
    for a in sorted(set(d1) | set(d2), key=lambda a: a.id):
        e1, e2 = d1.get(a, 0), d2.get(a, 0)
        if e1 != e2:
            return e1 > e2
    return False


def _mono_gcd(p):
    it = iter(p)
    d = dict(next(it))
    for m in it:
        dm = dict(m)
        for a in list(d):
            d[a] = min(d[a], dm.get(a, Fr(0)))
        for a in dm:
            if a not in d and dm[a] < 0:
                d[a] = dm[a]
    # atoms with negative exponent somewhere but absent elsewhere -> min(neg,0)
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda p: p[0].id))


def m_inv(m):
    return tuple((a, -e) for a, e in m)


def p_divide(a, b, limit=400):
    """polynomial division a = q*b + r (deterministic); exponents must be non-negative for termination"""
    q, r = {}, {}
    lb = _lead(b)
    cb = b[lb]
    work = dict(a)
    n = 0
    while work:
        n += 1
        if n > limit:
            return None
        m = _lead(work)
        c = work[m]
        qm = m_mul(m, m_inv(lb))
        if all(e >= 0 for _, e in qm):
            qc = c / cb
            q = p_add(q, {qm: qc})
            work = p_add(work, {m_mul(qm, mb): cb2 * qc for mb, cb2 in b.items()}, -1)
            work.pop(m, None)
        else:
            r[m] = c
            del work[m]
    return q, r


def mk_rat(n, d):
    if not n:
        return ZERO
    n, d = _expand_pows(n, d)
    if len(d) == 1:
        (m, c), = d.items()
        if m or c != 1:
            im = m_inv(m)
            n = {m_mul(mm, im): cc / c for mm, cc in n.items()}
        d = {(): Fr(1)}
        n, d = _expand_pows(n, d) if _has_intpow(n) else (n, d)
        if not n:
            return ZERO
    if len(d) > 1:
        g = _mono_gcd(d)
        if g:
            ig = m_inv(g)
            d = {m_mul(m, ig): c for m, c in d.items()}
            n = {m_mul(m, ig): c for m, c in n.items()}
        # normalise leading coefficient
        lc = d[_lead(d)]
        if lc != 1:
            d = {m: c / lc for m, c in d.items()}
            n = {m: c / lc for m, c in n.items()}
        # exact cancellation
        gn = _mono_gcd(n)
        nn = {m_mul(m, m_inv(gn)): c for m, c in n.items()}
        if len(nn) >= len(d) or True:
            qr = p_divide(nn, d, 200)
            if qr and not qr[1]:
                n = {m_mul(m, gn): c for m, c in qr[0].items()}
                d = {(): Fr(1)}
            elif len(nn) > 1:
                qr = p_divide(d, nn, 200)
                if qr and not qr[1]:
                    # n/d = gn / q
                    return mk_rat({gn: Fr(1)}, qr[0])
    if len(d) == 1 and d.get(()) == 1 and len(n) == 1:
        (m, c), = n.items()
        if not m:
            return mk("num", c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("rat", p_key(n), p_key(d))


def _has_intpow(p):
    return any(a.op == "P" and e.denominator == 1 for m in p for a, e in m)


def _expand_pows(n, d):
    if not (_has_intpow(n) or _has_intpow(d)):
        return n, d

    def expand(p):
        tn, td = {}, {(): Fr(1)}
        for m, c in p.items():
            rn, rd = {(): c}, {(): Fr(1)}
            rest = []
            for a, e in m:
                if a.op == "P" and e.denominator == 1:
                    bn, bd = rat(a.args[0])
                    k = int(e)
                    if k < 0:
                        bn, bd, k = bd, bn, -k
                    for _ in range(k):
                        rn, rd = p_mul(rn, bn), p_mul(rd, bd)
                else:
                    rest.append((a, e))
            rn = p_mul(rn, {tuple(rest): Fr(1)})
            tn, td = p_add(p_mul(tn, rd), p_mul(rn, td)), p_mul(td, rd)
        return tn, td
    n1, d1 = expand(n)
    n2, d2 = expand(d)
    return _expand_pows(p_mul(n1, d2), p_mul(d1, n2))


ITE_LIMIT = 4000


def lift(f, *ts):
    """apply f distributing over ite arguments"""
    for i, t in enumerate(ts):
        if t.op == "ite":
            c, a, b = t.args
            l = list(ts)
            l[i] = a
            x = lift(f, *[assume_top(y, c, True) for y in l])
            l[i] = b
            y = lift(f, *[assume_top(y, c, False) for y in l])
            return ite(c, x, y)
    return f(*ts)


def assume_top(t, c, v):
    while t.op == "ite" and t.args[0] is c:
        t = t.args[1] if v else t.args[2]
    if t.op == "ite":
        a = assume_top(t.args[1], c, v)
        b = assume_top(t.args[2], c, v)
        if a is not t.args[1] or b is not t.args[2]:
            return ite(t.args[0], a, b)
    return t


def _safe(f):
    def g(*a):
        try:
            return f(*a)
        except TooBig:
            return unk("polynomial too large")
    return g


# a sum of choices is spread out into a choice of sums only while it stays small
SPREAD = 8
_leaves = {}


def leaves(t):
    if t.op != "ite":
        return 1
    n = _leaves.get(t)
    if n is None:
        n = _leaves[t] = leaves(t.args[1]) + leaves(t.args[2])
    return n


@_safe
def add(a, b):
    if a.op == "num" and b.op == "num":
        return mk("num", a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == "ite" or b.op == "ite":
        if a.op == "num" or b.op == "num" or leaves(a) * leaves(b) <= SPREAD:
            return lift(add, a, b)
    n1, d1 = rat(a)
    n2, d2 = rat(b)
    if d1 == d2:
        return mk_rat(p_add(n1, n2), d1)
    return mk_rat(p_add(p_mul(n1, d2), p_mul(n2, d1)), p_mul(d1, d2))


@_safe
def mul(a, b):
    if a.op == "num" and b.op == "num":
        return mk("num", a.args[0] * b.args[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == "ite" or b.op == "ite":
        return lift(mul, a, b)
    n1, d1 = rat(a)
    n2, d2 = rat(b)
    return mk_rat(p_mul(n1, n2), p_mul(d1, d2))


def neg(a):
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


@_safe
def divide(a, b):
    if b.op == "num" and b.args[0] == 0:
        return mk("ucall", "div0", a)
    if a.op == "ite" or b.op == "ite":
        return lift(divide, a, b)
    n1, d1 = rat(a)
    n2, d2 = rat(b)
    return mk_rat(p_mul(n1, d2), p_mul(d1, n2))


def _frac_root(c, e):
    """c**e for rational c>0 and rational e when exact, else None"""
    if c <= 0:
        return None
    q = e.denominator
    def root(x):
        r = round(x ** (1.0 / q)) if x < 10**15 else None
        return r if r is not None and r ** q == x else None
    a, b = root(c.numerator), root(c.denominator)
    if a is None or b is None:
        return None
    return Fr(a, b) ** e.numerator


@_safe
def power(a, e):
    if a.op == "ite" or e.op == "ite":
        return lift(power, a, e)
    if e.op != "num":
        if a is ONE:
            return ONE
        return mk("pow", a, e)
    k = e.args[0]
    if k == 0:
        return ONE
    if k.denominator == 1:
        n, d = rat(a)
        k = int(k)
        if k < 0:
            if not n:
                return mk("ucall", "div0", a)
            n, d, k = d, n, -k
        rn, rd = {(): Fr(1)}, {(): Fr(1)}
        if k > 12:
            return mk("pow", a, e)
        for _ in range(k):
            rn, rd = p_mul(rn, n), p_mul(rd, d)
        return mk_rat(rn, rd)
    n, d = rat(a)
    if not n:
        return ZERO

    def frac(p):
        if len(p) == 1:
            (m, c), = p.items()
            r = _frac_root(c, k)
            if r is None:
                if c < 0:
                    return None
                out = {((mk("P", mk("num", c)), k),): Fr(1)}
            else:
                out = {(): r}
            mm = tuple((at, ex * k) for at, ex in m)
            return p_mul(out, {mm: Fr(1)})
        g = _mono_gcd(p)
        pp = {m_mul(m, m_inv(g)): c for m, c in p.items()}
        lc = pp[_lead(pp)]
        if lc < 0:
            return None
        r = _frac_root(lc, k)
        if r is not None:
            pp = {m: c / lc for m, c in pp.items()}
            out = {(): r}
        else:
            pp = {m: c / lc for m, c in pp.items()}
            out = {((mk("P", mk("num", lc)), k),): Fr(1)}
        base = mk("P", mk_rat(pp, {(): Fr(1)}))
        out = p_mul(out, {tuple((at, ex * k) for at, ex in g): Fr(1)})
        return p_mul(out, {((base, k),): Fr(1)})
    fn, fd = frac(n), frac(d)
    if fn is None or fd is None:
        return mk("pow", a, e)
    return mk_rat(fn, fd)


def log(a):
    if a.op == "ite":
        return lift(log, a)
    if a is ONE:
        return ZERO
    n, d = rat(a)
    if len(n) == 1 and len(d) == 1 and d.get(()) == 1:
        (m, c), = n.items()
        if c > 0:
            r = ZERO
            if c != 1:
                # log of integers: split numerator / denominator
                r = add(r, sub(_lognum(c.numerator), _lognum(c.denominator)))
            for at, e in m:
                r = add(r, mul(mk("num", e), mk("log", at)))
            return r
    return mk("log", a)


def _lognum(k):
    if k == 1:
        return ZERO
    r, p = ZERO, 2
    while p * p <= k and p < 1000:
        while k % p == 0:
            r = add(r, mk("log", mk("num", Fr(p))))
            k //= p
        p += 1
    if k > 1:
        r = add(r, mk("log", mk("num", Fr(k))))
    return r


# ----------------------------------------------------------------- integer index arithmetic
def lower_bound(atom):
    if atom.op == "sym" and atom.args[2] is not None:
        return atom.args[2]
    if atom.op in ("ix", "ax", "len", "mod"):
        return 0
    if atom.op == "div":
        return 0
    if atom.op == "bv" and len(atom.args) > 1:
        return 0
    return None


def upper_bound(atom):
    """symbolic inclusive upper bound or None"""
    if atom.op in ("ix", "ax"):
        s = atom.args[1]
        return sub(s, ONE) if s is not None else None
    if atom.op == "bv" and len(atom.args) > 1 and isinstance(atom.args[1], T):
        return sub(atom.args[1], ONE)
    if atom.op == "mod":
        return sub(atom.args[1], ONE)
    if atom.op == "div" and atom.args[0].op != "num":
        # x < b*q, so x // b < q
        u = upper_bound(atom.args[0])
        q = _divides(atom.args[1], add(u, ONE)) if u is not None else None
        return sub(q, ONE) if q is not None else None
    return None


def prove_nonneg(t, depth=0):
    """sufficient syntactic test: t >= 0 given the bounds carried by index atoms"""
    if t.op == "num":
        return t.args[0] >= 0
    if t.op == "ite":
        if depth > 3:
            return False
        return _nn_under(t.args[1], t.args[0], True, depth) and _nn_under(t.args[2], t.args[0], False, depth)
    n, d = rat(t)
    if d != {(): Fr(1)}:
        return False
    if depth > 6:
        return False
    # shift atoms to their lower bounds
    shift = {}
    for m in n:
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            shift[a] = lower_bound(a)
    # first eliminate atoms with an upper bound that occur negatively and linearly
    for a in shift:
        ub = upper_bound(a)
        if ub is None:
            continue
        negs = any(c < 0 and dict(m).get(a) for m, c in n.items())
        lin = all(dict(m).get(a, 0) <= 1 for m in n)
        if negs and lin:
            # t = A + a*Bq ; monotone decreasing if -Bq >= 0
            A = {m: c for m, c in n.items() if a not in dict(m)}
            Bq = {m_mul(m, ((a, Fr(-1)),)): c for m, c in n.items() if a in dict(m)}
            Bt = mk_rat(Bq, {(): Fr(1)})
            if prove_nonneg(neg(Bt), depth + 1):
                return prove_nonneg(add(mk_rat(A, {(): Fr(1)}) if A else ZERO, mul(ub, Bt)), depth + 1)
    tot = {(): Fr(0)}
    tot = {}
    for m, c in n.items():
        term = {(): c}
        for a, e in m:
            lb = shift[a]
            if lb is None:
                if int(e) % 2 == 0:
                    f = {((a, e),): Fr(1)}
                else:
                    f = {((mk("free", a), e),): Fr(1)}
                term = p_mul(term, f)
                continue
            base = p_add({((mk("sh", a), Fr(1)),): Fr(1)}, p_const(lb))
            for _ in range(int(e)):
                term = p_mul(term, base)
        tot = p_add(tot, term)
    for m, c in tot.items():
        if c < 0:
            return False
        if any(a.op == "free" for a, e in m):
            return False
    return True


def _nn_under(t, c, val, depth):
    """t >= 0 when condition c has the given value"""
    if prove_nonneg(t, depth + 1):
        return True
    if c.op == "not":
        return _nn_under(t, c.args[0], not val, depth)
    if c.op != "lt0":
        return False
    p = c.args[0]
    if p.op == "ite" or t.op == "ite":
        return False
    # val: p < 0, so -p > 0 ; not val: p >= 0
    k = neg(p) if val else p
    if val and p.isint:
        k = sub(k, ONE)
    return prove_nonneg(sub(t, k), depth + 1)


def prove_pos(t):
    if t.op == "ite":
        return prove_pos(t.args[1]) and prove_pos(t.args[2])
    if t.op == "num":
        return t.args[0] > 0
    if t.isint:
        return prove_nonneg(sub(t, ONE))
    return False


def _divmod_parts(a, b):
    na, da = rat(a)
    nb, db = rat(b)
    if da != {(): Fr(1)} or db != {(): Fr(1)}:
        return None
    return p_divide(na, nb)


def idiv(a, b):
    return _dm(a, b)[0]


def imod(a, b):
    return _dm(a, b)[1]


def _dm(a, b):
    if b is ZERO:
        return ZERO, ZERO  # only met for empty arrays
    if a.op == "ite" or b.op == "ite":
        return lift(idiv, a, b) if False else (lift(lambda x, y: _dm(x, y)[0], a, b), lift(lambda x, y: _dm(x, y)[1], a, b))
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        q = a.args[0] // b.args[0]
        return mk("num", Fr(q)), mk("num", a.args[0] - q * b.args[0])
    if b is ONE and a.isint:
        return a, ZERO
    if not (a.isint and b.isint):
        return mk("floordiv", a, b), mk("fmod", a, b)
    qr = _divmod_parts(a, b)
    q, r = ZERO, a
    if qr is not None:
        qp, rp = qr
        if all(c.denominator == 1 for c in qp.values()):
            q = mk_rat(qp, {(): Fr(1)}) if qp else ZERO
            r = mk_rat(rp, {(): Fr(1)}) if rp else ZERO
        else:
            qi = {m: Fr(c.numerator // c.denominator) for m, c in qp.items() if c.numerator // c.denominator}
            q = mk_rat(qi, {(): Fr(1)}) if qi else ZERO
            r = sub(a, mul(q, b))
    if prove_nonneg(r) and prove_nonneg(sub(sub(b, ONE), r)):
        return q, r
    # split r = r1 + c where the constant is reduced
    dv = _mkdiv(r, b)
    md = _mkmod(r, b)
    return add(q, dv), md


def _divides(b, s):
    """s = b*q exactly -> q else None"""
    qr = _divmod_parts(s, b)
    if qr and not qr[1] and all(c.denominator == 1 for c in qr[0].values()):
        return mk_rat(qr[0], {(): Fr(1)}) if qr[0] else ZERO
    return None


def _mkdiv(a, b):
    if a.op == "div":  # div(div(x,s),b) = div(x,s*b)
        return idiv(a.args[0], mul(a.args[1], b))
    if a.op == "mod":  # div(mod(x,s),b), b | s -> mod(div(x,b), s/b)
        q = _divides(b, a.args[1])
        if q is not None:
            return imod(idiv(a.args[0], b), q)
    return mk("div", a, b)


def _mkmod(a, b):
    if a.op == "mod":
        if _divides(b, a.args[1]) is not None:
            return imod(a.args[0], b)
    # mod(div(x,s),b): if x < s*b known then plain (handled by range proof of div upper bound)
    if a.op == "div":
        x, s = a.args
        if prove_nonneg(sub(sub(mul(s, b), ONE), x)):
            return a
    return mk("mod", a, b)


# ----------------------------------------------------------------- booleans
def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return bor(*[bnot(x) for x in c.args])
    if c.op == "ite":
        return ite(c.args[0], bnot(c.args[1]), bnot(c.args[2]))
    if c.op == "or":
        return mk("not", c)
    return mk("not", c)


def band(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            out.extend(c.args)
        elif c.op == "not" and c.args[0].op == "or":
            out.extend(bnot(x) for x in c.args[0].args)
        else:
            out.append(c)
    s = []
    for c in out:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in s:
            continue
        if bnot(c) in s:
            return FALSE
        s.append(c)
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return mk("and", *s)


def bor(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == "or":
            out.extend(c.args)
        else:
            out.append(c)
    s = []
    for c in out:
        if c is TRUE:
            return TRUE
        if c in s:
            continue
        if bnot(c) in s:
            return TRUE
        s.append(c)
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    s.sort(key=lambda t: t.id)
    return mk("or", *s)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == "ite":
        a = assume_top(a, c, True)
    if b.op == "ite":
        b = assume_top(b, c, False)
    if a is b:
        return a
    if c.op == "ite":
        return ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return bnot(c)
    if b is FALSE and isbool(a):
        return band(c, a)
    if a is TRUE and isbool(b):
        return bor(c, b)
    if a is FALSE and isbool(b):
        return band(bnot(c), b)
    if b is TRUE and isbool(a):
        return bor(bnot(c), a)
    return mk("ite", c, a, b)


BOOLOPS = {"bool", "not", "and", "or", "lt0", "eq0", "eq", "in", "isnone", "truthy", "isinst", "exists", "hasattr", "forall"}


def isbool(t):
    if t.op in BOOLOPS:
        return True
    if t.op == "sym" and t.args[1] == "bool":
        return True
    if t.op == "ite":
        return isbool(t.args[1]) and isbool(t.args[2])
    return False


def _content(n):
    """positive rational content of a polynomial"""
    from math import gcd
    g = 0
    l = 1
    for c in n.values():
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    return Fr(g, l)


def lt0(p):
    """p < 0"""
    if p.op == "ite":
        return ite(p.args[0], lt0(p.args[1]), lt0(p.args[2]))
    if p.op == "num":
        return boolc(p.args[0] < 0)
    if not is_numeric(p):
        return mk("ucall", "lt0", p)
    if prove_nonneg(p):
        return FALSE
    if prove_pos(neg(p)):
        return TRUE
    n, d = rat(p)
    if d == {(): Fr(1)}:
        k = _content(n)
        if k and k != 1:
            p = mk_rat({m: c / k for m, c in n.items()}, d)
            n, d = rat(p)
        if p.isint:
            lead = [c for m, c in sorted(n.items(), key=lambda mc: mono_key(mc[0])) if m]
            if lead and lead[-1] < 0:
                # p<0  <=>  not(-p-1 < 0)
                return bnot(lt0i(sub(neg(p), ONE)))
    return mk("lt0", p)


def lt0i(p):
    if prove_nonneg(p):
        return FALSE
    if prove_pos(neg(p)):
        return TRUE
    return mk("lt0", p)


def lt(a, b):
    return lt0(sub(a, b))


def le(a, b):
    return bnot(lt0(sub(b, a)))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "ite" or b.op == "ite":
        return lift(eq, a, b)
    ca, cb = a.op in CONSTOPS, b.op in CONSTOPS
    if a.op == "num" and b.op == "bool":
        b = num(1 if b.args[0] else 0)
    if b.op == "num" and a.op == "bool":
        a = num(1 if a.args[0] else 0)
    if ca and cb:
        return boolc(a is b)
    if a.op == "bool":
        a, b = b, a
    if b.op == "bool" and isbool(a):
        return a if b.args[0] else bnot(a)
    if a.op == "tup" and b.op == "tup":
        if len(a.args) != len(b.args):
            return FALSE
        return band(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "str" or b.op == "str":
        x, s = (b, a) if a.op == "str" else (a, b)
        if x.op in ("lower",) and s.args[0] != s.args[0].lower():
            return FALSE
        if x.op == "none" or x.op == "num" or x.op == "rat" or x.isint:
            return FALSE
        return mk("eq", x, s)
    if a.op == "none" or b.op == "none":
        x = b if a.op == "none" else a
        return isnone(x)
    if a.op in ("num", "rat") or b.op in ("num", "rat") or (numlike(a) and numlike(b)):
        if is_numeric(a) and is_numeric(b):
            return eq0(sub(a, b))
        return FALSE
    x, y = (a, b) if a.id < b.id else (b, a)
    return mk("eq", x, y)


CONSTOPS = {"num", "bool", "str", "none", "cls", "ext", "module"}


def numlike(t):
    return t.isint or (t.op == "sym" and t.args[1] in ("num", "int")) or t.op in ("num", "rat", "Sum", "Max", "Min", "pow", "log", "exp", "S", "item", "at", "attr")


def eq0(p):
    if p.op == "ite":
        return ite(p.args[0], eq0(p.args[1]), eq0(p.args[2]))
    if p.op == "num":
        return boolc(p.args[0] == 0)
    if prove_pos(p) or prove_pos(neg(p)):
        return FALSE
    n, d = rat(p)
    if d == {(): Fr(1)}:
        k = _content(n)
        lead = sorted(n.items(), key=lambda mc: mono_key(mc[0]))[-1][1]
        if lead < 0:
            k = -k
        p = mk_rat({m: c / k for m, c in n.items()}, d)
    else:
        return eq0(mk_rat(n, {(): Fr(1)}))
    return mk("eq0", p)


def isnone(x):
    if x.op == "ite":
        return ite(x.args[0], isnone(x.args[1]), isnone(x.args[2]))
    if x is NONE:
        return TRUE
    if x.op == "sym" and x.args[1] not in ("any", "opt"):
        return FALSE
    if x.op in ("num", "str", "bool", "rat", "tup", "ref", "obj", "fn", "bm", "cls", "module", "ext", "slice", "fmt", "Sum", "Max", "Min", "log", "exp", "ax", "ix", "bv",
                "div", "mod", "at", "len", "symbol", "lower", "upper", "and", "or", "not", "lt0", "eq0", "call", "nbrs"):
        return FALSE
    return mk("isnone", x)


# ----------------------------------------------------------------- sums
def bvar(h, size=None):
    return mk("bv", h, size) if size is not None else mk("bv", h)


_fresh = [10 ** 6]


def fresh_bv(size=None):
    _fresh[0] += 1
    return bvar(_fresh[0], size)


def close(bv, *bodies):
    """alpha-canonicalise the bound variable: pick height above any closed bv inside"""
    h = 0
    for b in bodies:
        h = max(h, _bvmax(b, bv))
    nb = bvar(h, bv.args[1] if len(bv.args) > 1 else None)
    return (nb,) + tuple(subst(b, {bv: nb}) for b in bodies)


def _bvmax(t, bv):
    m = 0
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "bv" and x is not bv and x.args[0] < 10 ** 6:
            m = max(m, x.args[0] + 1)
        if x.bvh:
            st.extend(subterms(x.args))
    return m


def contains(t, s, _seen=None):
    if t is s:
        return True
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x is s:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(subterms(x.args))
    return False


def contains_op(t, ops):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.op in ops:
            return x
        if x in seen:
            continue
        seen.add(x)
        st.extend(subterms(x.args))
    return None


def find_all(t, pred):
    seen = set()
    st = [t]
    out = []
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            out.append(x)
        st.extend(subterms(x.args))
    return out


def bigsum(bv, dom, guard, body):
    """Sum over bv in dom (with guard) of body, in canonical form (linear, factored)"""
    if guard is not TRUE:
        body = ite(guard, body, ZERO)
    if body is ZERO:
        return ZERO
    if body.op == "ite":
        c, a, b = body.args
        if not contains(c, bv):
            return ite(c, bigsum(bv, dom, TRUE, a), bigsum(bv, dom, TRUE, b))
        nb, d2, bd = close(bv, dom, body)
        return mk("Sum", nb, d2, bd)
    n, d = rat(body)
    if d == {(): Fr(1)} and len(n) > 1:
        r = ZERO
        for m, c in sorted(n.items(), key=lambda mc: mono_key(mc[0])):
            r = add(r, bigsum(bv, dom, TRUE, mk_rat({m: c}, d)))
        return r
    if d == {(): Fr(1)}:
        (m, c), = n.items()
        out = tuple((a, e) for a, e in m if not contains(a, bv))
        inn = tuple((a, e) for a, e in m if contains(a, bv))
        inner = mk_rat({inn: Fr(1)}, d)
        if not inn and dom.op == "range":
            return mk_rat({out: c}, d) if dom.args[0] is ONE else mul(dom.args[0], mk_rat({out: c}, d))
        nb, d2, bd = close(bv, dom, inner)
        s = mk("Sum", nb, d2, bd)
        return mul(s, mk_rat({out: c}, {(): Fr(1)}))
    nb, d2, bd = close(bv, dom, body)
    return mk("Sum", nb, d2, bd)


# ----------------------------------------------------------------- substitution
_REB = {}


def rebuild(op, args):
    f = _REB.get(op)
    if f:
        return f(*args)
    return mk(op, *args)


def _reb_rat(n, d):
    raise AssertionError


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if not t.args:
        return t
    if t.op == "rat":
        chg = False
        cache = {}
        for part in t.args:
            for mono, c in part:
                for a, e in mono:
                    if a not in cache:
                        cache[a] = subst(a, m, memo)
                        if cache[a] is not a:
                            chg = True
        if not chg:
            memo[t] = t
            return t
        r = divide(_sub_poly(t.args[0], cache), _sub_poly(t.args[1], cache))
        memo[t] = r
        return r
    if t.op == "P":
        # handled through its exponent in _sub_poly; standalone
        b = subst(t.args[0], m, memo)
        r = t if b is t.args[0] else mk("P", b)
        memo[t] = r
        return r
    na = tuple(_sub_arg(a, m, memo) for a in t.args)
    if all(x is y or x == y for x, y in zip(na, t.args)):
        memo[t] = t
        return t
    r = rebuild(t.op, na)
    memo[t] = r
    return r


def _sub_arg(a, m, memo):
    if isinstance(a, T):
        return subst(a, m, memo)
    if isinstance(a, tuple):
        na = tuple(_sub_arg(x, m, memo) for x in a)
        return a if all(x is y for x, y in zip(na, a)) else na
    return a


def _sub_poly(items, cache):
    r = ZERO
    for mono, c in items:
        t = mk("num", c)
        for a, e in mono:
            b = cache[a]
            if b.op == "P":
                b = b.args[0]
            elif a.op == "P":
                b = b if b.op != "P" else b.args[0]
            t = mul(t, power(b, mk("num", e)))
        r = add(r, t)
    return r


_REB.update({
    "ite": ite, "and": band, "or": bor, "not": bnot, "lt0": lt0, "eq0": eq0, "eq": eq, "div": idiv, "mod": imod,
    "log": log, "pow": power, "isnone": isnone,
    "Sum": lambda bv, dom, body: bigsum(bv, dom, TRUE, body),
})


def assume(t, facts, memo=None):
    """simplify t under facts: dict cond-term -> bool"""
    m = {}
    for c, v in facts.items():
        m[c] = boolc(v)
    return subst(t, m)


# ----------------------------------------------------------------- decision comparison
def conds_of(t, acc, seen):
    if t in seen:
        return
    seen.add(t)
    if t.op == "ite":
        _cond_atoms(t.args[0], acc)
    elif t.op in ("and", "or", "not") or (t.op in BOOLOPS and t.op not in ("bool",)):
        _cond_atoms(t, acc)
    for s in subterms(t.args):
        conds_of(s, acc, seen)


def _cond_atoms(c, acc):
    if c.op in ("and", "or", "not"):
        for x in c.args:
            _cond_atoms(x, acc)
    elif c.op == "ite":
        for x in c.args:
            _cond_atoms(x, acc)
    elif c.op != "bool":
        if c not in acc:
            acc.append(c)


def feasible(assign):
    """reject assignments that are contradictory on their face"""
    eqs = {}
    for c, v in assign.items():
        if c.op == "eq" and v:
            for x, s in (c.args, c.args[::-1]):
                if s.op in ("str", "num"):
                    if x in eqs and eqs[x] is not s:
                        return False
                    eqs[x] = s
        if c.op == "lt0" and v:
            n = mk("lt0", neg(c.args[0]))
            if assign.get(n) is True:
                return False
            p = c.args[0]
            for q in (p, neg(p)):
                if assign.get(mk("eq0", q)) is True:
                    return False
        if c.op == "eq0" and v:
            p = c.args[0]
            if assign.get(mk("lt0", p)) is True or assign.get(mk("lt0", neg(p))) is True:
                return False
    # lt0(p), lt0(-p), eq0(p) all false is impossible
    for c, v in assign.items():
        if c.op == "lt0" and not v:
            p = c.args[0]
            if assign.get(mk("lt0", neg(p))) is False:
                e = eq0(p)
                if assign.get(e) is False:
                    return False
    return True


class Cmp:
    """result of comparing two abstract values"""

    def __init__(self, verdict, witness=None, left=None, right=None):
        self.verdict, self.witness, self.left, self.right = verdict, witness, left, right

    def __bool__(self):
        return self.verdict == "eq"


def leaf_eq(a, b):
    if a is b:
        return "eq"
    if a.op == "tup" and b.op == "tup" and len(a.args) == len(b.args):
        rs = [leaf_eq(x, y) for x, y in zip(a.args, b.args)]
        return "ne" if "ne" in rs else ("?" if "?" in rs else "eq")
    if a.unk or b.unk:
        return "?"
    if is_numeric(a) and is_numeric(b):
        d = sub(a, b)
        if d is ZERO:
            return "eq"
        n, _ = rat(d)
        if not n:
            return "eq"
        return "ne"
    return "ne"


def compare(a, b, infeasible=None, limit=6000, extra_facts=None):
    """decide a == b for all valuations of the atoms; case split on gates (decision diagram), no solver"""
    budget = [limit]

    def go(a, b, asg):
        if a is b:
            return Cmp("eq")
        budget[0] -= 1
        if budget[0] < 0:
            return Cmp("?", dict(asg), a, b)
        acc = []
        seen = set()
        conds_of(a, acc, seen)
        conds_of(b, acc, seen)
        acc = [c for c in acc if not c.bvh or not _has_bound(c)]
        if not acc:
            r = leaf_eq(a, b)
            return Cmp(r, dict(asg), a, b)
        c = min(acc, key=lambda c: (len(str_size(c)), c.id))
        res = Cmp("eq")
        for v in (True, False):
            asg2 = dict(asg)
            asg2[c] = v
            if not feasible(asg2) or (infeasible and infeasible(asg2)):
                continue
            f = implied(c, v)
            r = go(subst(a, f), subst(b, f), asg2)
            if r.verdict == "ne":
                return r
            if r.verdict == "?":
                res = r
        return res
    return go(a, b, dict(extra_facts or {}))


def str_size(c):
    return ""


def _has_bound(c):
    """contains a *closed* bound variable (inside a Sum etc.)"""
    return contains_op(c, ("bv",)) is not None


def implied(c, v):
    f = {c: boolc(v)}
    if v and c.op == "eq":
        x, y = c.args
        if y.op in CONSTOPS and x.op not in CONSTOPS:
            f[x] = y
        elif x.op in CONSTOPS:
            f[y] = x
    if v and c.op == "isnone":
        f[c.args[0]] = NONE
    if v and c.op == "eq0":
        # solve for an atom that occurs linearly with unit coefficient
        n, d = rat(c.args[0])
        for m, k in n.items():
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op in ("sym", "ax", "ix", "attr", "item"):
                a = m[0][0]
                rest = {mm: cc for mm, cc in n.items() if mm != m}
                if not any(contains(x, a) for mm in rest for x, _ in mm):
                    f[a] = mk_rat({mm: -cc / k for mm, cc in rest.items()}, d) if rest else ZERO
                    break
    if v and c.op == "lt0":
        # 0 <= i < 1  ->  i = 0 for index atoms
        p = add(c.args[0], ONE)
        if p.op in ("ax", "ix", "mod", "div"):
            f[p] = ZERO
    if not v and c.op == "lt0":
        p = c.args[0]  # p>=0 and p<=0 known by bounds -> p = 0
        n, d = rat(p)
        if p.isint and prove_nonneg(neg(p)):
            for m, k in n.items():
                if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0].op in ("ax", "ix"):
                    a = m[0][0]
                    rest = {mm: cc for mm, cc in n.items() if mm != m}
                    if not any(contains(x, a) for mm in rest for x, _ in mm):
                        f[a] = mk_rat({mm: -cc / k for mm, cc in rest.items()}, d) if rest else ZERO
                        break
    return f


# ----------------------------------------------------------------- printing
def show(t, depth=0):
    if t._s is not None:
        return t._s
    s = _show(t, depth)
    if len(s) > 1500:
        s = s[:1500] + "..."
    t._s = s
    return s


def _fr(f):
    return str(f.numerator) if f.denominator == 1 else (str(float(f)) if f.denominator > 9 else f"{f.numerator}/{f.denominator}")


def _poly(items):
    if not items:
        return "0"
    out = []
    for m, c in items:
        fs = []
        for a, e in m:
            s = show(a)
            if e != 1:
                s += f"^{_fr(e)}" if e > 0 else f"^({_fr(e)})"
            fs.append(s)
        if c != 1 or not fs:
            fs.insert(0, _fr(c))
        out.append("*".join(fs))
    return " + ".join(out)


def _a(x):
    if isinstance(x, T):
        return show(x)
    if isinstance(x, tuple):
        return "(" + ",".join(_a(y) for y in x) + ")"
    return str(x)


def _show(t, depth):
    op, a = t.op, t.args
    if op == "num":
        return _fr(a[0])
    if op in ("bool",):
        return str(a[0])
    if op == "str":
        return repr(a[0])
    if op == "none":
        return "None"
    if op == "sym":
        return a[0]
    if op == "rat":
        n, d = a
        s = _poly(n)
        if d != P1:
            return f"({s})/({_poly(d)})"
        return f"({s})" if len(n) > 1 else s
    if op == "ite":
        return f"[{show(a[0])} ? {show(a[1])} : {show(a[2])}]"
    if op == "lt0":
        return f"({show(a[0])} < 0)"
    if op == "eq0":
        return f"({show(a[0])} == 0)"
    if op == "eq":
        return f"({show(a[0])} == {show(a[1])})"
    if op == "not":
        return f"not {show(a[0])}"
    if op in ("and", "or"):
        return "(" + f" {op} ".join(show(x) for x in a) + ")"
    if op == "attr":
        return f"{_a(a[0])}.{a[1]}"
    if op == "item":
        return f"{_a(a[0])}[{', '.join(_a(x) for x in a[1:])}]"
    if op == "at":
        return f"{_a(a[0])}[{', '.join(_a(x) for x in a[1:])}]"
    if op == "P":
        return f"({_a(a[0])})"
    if op == "bv":
        return f"v{a[0]}"
    if op == "ax":
        return f"i{a[0]}"
    if op == "Sum":
        return f"SUM[{_a(a[0])} in {_a(a[1])}]({_a(a[2])})"
    return f"{op}({', '.join(_a(x) for x in a)})"
