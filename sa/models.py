"""Summaries of builtins, numpy, scipy.sparse, sympy, pandas and pyvista used by the package (values as terms)."""
import ast
from fractions import Fraction as Fr
from .terms import *
from . import terms as tm

HALF = num(0.5)


# ================================================================ helpers
def axs(shape):
    return [ZERO if s is ONE else mk("ax", i, s) for i, s in enumerate(shape)]


def mkarr(shape, f):
    shape = tuple(shape)
    return mk("arr", shape, f(axs(shape)))


def aget(c, idx):
    """body of array content c at index terms"""
    m = {}
    for i, (s, v) in enumerate(zip(c.args[0], idx)):
        if s is not ONE:
            m[mk("ax", i, s)] = v
    return subst(c.args[1], m)


def up(ip, c):
    if c.op == "opq":
        t = c.args[0]
        s = ip.shapes.get(t)
        if s is None and t.op == "attr":
            s = ip.attrshapes.get(t.args[1])
        if s is not None:
            return mkarr(s, lambda a: mk("at", t, *a))
    if c.op == "ite":
        a, b = up(ip, c.args[1]), up(ip, c.args[2])
        if a.op == "arr" and b.op == "arr" and a.args[0] == b.args[0]:
            return mk("arr", a.args[0], ite(c.args[0], a.args[1], b.args[1]))
        if a.op == "coeffs" and b.op == "coeffs":
            return mk("coeffs", ite(c.args[0], a.args[0], b.args[0]))
        return ite(c.args[0], a, b)
    return c


def cont(ip, v, st):
    return up(ip, ip.content(v, st))


def prod(ts):
    r = ONE
    for t in ts:
        r = mul(r, t)
    return r


def explicit(ip, v, st):
    """python list of element values when fully known, else None"""
    if v.op == "tup":
        return list(v.args)
    if v.op == "str":
        return [string(ch) for ch in v.args[0]]
    if v.op == "ref":
        force(ip, v, st)
    c = cont(ip, v, st)
    if c.op in ("list", "set"):
        if all(s.op == "el" and s.args[0] is TRUE for s in c.args):
            return [s.args[1] for s in c.args]
        return None
    if c.op == "dict" and c.args[0] is NONE and all(e.op == "de" and e.args[0] is TRUE for e in c.args[1:]):
        return [e.args[1] for e in c.args[1:]]
    if c.op == "arr" and c.args[0][0].op == "num" and c.args[0][0].args[0] <= 16:
        n = int(c.args[0][0].args[0])
        return [subarr(ip, c, num(i), st) for i in range(n)]
    return None


def subarr(ip, c, i, st):
    shape = c.args[0]
    if len(shape) == 1:
        return aget(c, [i])
    return ip.alloc(st, mkarr(shape[1:], lambda a: aget(c, [i] + a)))


def aslist(ip, v, st):
    """content of kind list for any iterable"""
    seq = sequence(ip, v, st)
    if seq is None or seq == "ite":
        return None
    out = []
    for s in seq:
        if s[0] == "el":
            out.append(mk("el", s[1], s[2]))
        else:
            out.append(mk("mseg", *close(s[1], s[2], s[3], s[4])))
    return mk("list", *out)


def sequence(ip, it, st):
    if it.op == "ref":
        force(ip, it, st)
    if it.op == "ite":
        a = sequence(ip, it.args[1], st)
        b = sequence(ip, it.args[2], st)
        if a is None or b is None:
            return None
        return "ite"
    if it.op in ("tup", "str"):
        return [("el", TRUE, v) for v in explicit(ip, it, st)]
    if it.op == "range":
        n = it.args[0]
        start, step = it.args[1], it.args[2]
        if n.op == "num" and n.args[0] <= 12:
            return [("el", TRUE, add(start, mul(num(i), step))) for i in range(max(0, int(n.args[0])))]
        b = fresh_bv(n)
        return [("mseg", b, mk("range", n), TRUE, add(start, mul(b, step)))]
    if it.op == "zip":
        return seq_zip(ip, it.args, st)
    if it.op == "enum":
        s = sequence(ip, it.args[0], st)
        if s is None or s == "ite":
            return None
        out = []
        off = it.args[1]
        for x in s:
            if x[0] == "el" and x[1] is TRUE:
                out.append(("el", TRUE, mk("tup", off, x[2])))
                off = add(off, ONE)
            elif x[0] == "mseg" and x[2].op == "range" and x[3] is TRUE:
                out.append(("mseg", x[1], x[2], x[3], mk("tup", add(off, x[1]), x[4])))
                off = add(off, x[2].args[0])
            else:
                return None
        return out
    if it.op == "items":
        c = cont(ip, it.args[0], st)
        return dict_seq(ip, c, lambda k, v: mk("tup", k, v))
    if it.op == "keysv":
        return dict_seq(ip, cont(ip, it.args[0], st), lambda k, v: k)
    if it.op == "valuesv":
        return dict_seq(ip, cont(ip, it.args[0], st), lambda k, v: v)
    if it.op in ("mapped",):
        return None
    c = cont(ip, it, st)
    if c.op == "ite":
        c = flat_list(c)
        if c is None:
            return None
    if c.op in ("list", "set"):
        out = []
        for s in c.args:
            if s.op == "el":
                out.append(("el", s.args[0], s.args[1]))
            elif s.op == "mseg":
                bv, dom, g, v = s.args
                nb = fresh_bv(bv.args[1] if len(bv.args) > 1 else None)
                out.append(("mseg", nb, dom, subst(g, {bv: nb}), subst(v, {bv: nb})))
            else:
                b = fresh_bv()
                out.append(("mseg", b, mk("iter", s.args[0]), TRUE, b))
        return out
    if c.op == "dict":
        return dict_seq(ip, c, lambda k, v: k)
    if c.op == "arr":
        n = c.args[0][0]
        if n.op == "num" and n.args[0] <= 12:
            return [("el", TRUE, subarr(ip, c, num(i), st)) for i in range(int(n.args[0]))]
        b = fresh_bv(n)
        return [("mseg", b, mk("range", n), TRUE, subarr(ip, c, b, st))]
    if c.op == "opq":
        b = fresh_bv()
        return [("mseg", b, mk("iter", c.args[0]), TRUE, b)]
    if c.op in ("nbrs", "bnds"):
        b = fresh_bv()
        return [("mseg", b, mk("iter", c), TRUE, b)]
    return None


def dict_seq(ip, c, f):
    if c.op == "coeffs":
        c = mk("dict", NONE, *coeff_entries(c.args[0]))
    if c.op == "opq":
        t = c.args[0]
        b = fresh_bv()
        return [("mseg", b, mk("iter", t), TRUE, f(b, mk("item", t, b)))]
    if c.op != "dict":
        return None
    if c.args[0] is not NONE and not (c.args[0].op == "dd"):
        if len(c.args) > 1 or c.args[0].op != "opq":
            return None
        t = c.args[0].args[0]
        b = fresh_bv()
        return [("mseg", b, mk("iter", t), TRUE, f(b, mk("item", t, b)))]
    out = []
    for e in c.args[1:]:
        if e.op == "de":
            out.append(("el", e.args[0], f(e.args[1], e.args[2])))
        elif e.op == "dm":
            bv, dom, g, k, v = e.args
            nb = fresh_bv(bv.args[1] if len(bv.args) > 1 else None)
            m = {bv: nb}
            out.append(("mseg", nb, dom, subst(g, m), f(subst(k, m), subst(v, m))))
        else:
            return None
    return out


def seq_zip(ip, its, st):
    ss = [sequence(ip, x, st) for x in its]
    if any(s is None or s == "ite" for s in ss):
        return None
    if all(all(x[0] == "el" and x[1] is TRUE for x in s) for s in ss):
        return [("el", TRUE, mk("tup", *[x[2] for x in row])) for row in zip(*ss)]
    if all(all(x[0] == "el" for x in s) for s in ss) and len({len(s) for s in ss}) == 1 and all(len({x[1] for x in row}) == 1 for row in zip(*ss)):
        # the same entries are present on both sides
        return [("el", row[0][1], mk("tup", *[x[2] for x in row])) for row in zip(*ss)]
    if all(len(s) == 1 and s[0][0] == "mseg" and s[0][3] is TRUE for s in ss):
        doms = [s[0][2] for s in ss]
        if all(d is doms[0] for d in doms) or all(d.op == "range" and sub(d.args[0], doms[0].args[0]) is ZERO for d in doms if d.op == "range" and doms[0].op == "range"):
            if all(d.op == doms[0].op for d in doms):
                b = ss[0][0][1]
                return [("mseg", b, doms[0], TRUE, mk("tup", *[subst(s[0][4], {s[0][1]: b}) for s in ss]))]
    return None


def unpack(ip, v, n, st, node=None):
    if v.op == "ite":
        a, b = unpack(ip, v.args[1], n, st), unpack(ip, v.args[2], n, st)
        return [ite(v.args[0], x, y) for x, y in zip(a, b)]
    if v.op == "valuesv":
        c = cont(ip, v.args[0], st)
        if c.op == "coeffs":
            e = c.args[0]
            ps = find_all(e, lambda t: t.op == "symbol")
            if n == 2 and len(ps) == 1:
                ip.event(st, "coeff_unpack", e, node=node)
                return [constpart(e), coeff(e, ps[0])]
            return [ip.unk("coefficients unpack", node) for _ in range(n)]
    vs = explicit(ip, v, st)
    if vs is not None and len(vs) == n:
        return vs
    if vs is None:
        seq = sequence(ip, v, st) if v.op in ("items", "keysv", "valuesv", "zip", "range") else None
        if seq is not None and seq != "ite":
            if all(s[0] == "el" and s[1] is TRUE for s in seq) and len(seq) == n:
                return [s[2] for s in seq]
            if n == 1 and len(seq) == 1 and seq[0][0] == "mseg" and seq[0][2].op == "iter":
                # (x,) = single-entry container
                one = mk("only", seq[0][2].args[0])
                return [subst(seq[0][4], {seq[0][1]: one})]
        c = cont(ip, v, st)
        if c.op in ("opq",):
            return [mk("item", c.args[0], num(i)) for i in range(n)]
        if c.op == "arr" and len(c.args[0]) >= 1:
            return [subarr(ip, c, num(i), st) for i in range(n)]
        if c.op == "only":
            return [mk("item", c, num(i)) for i in range(n)]
    if vs is not None:
        ip.raise_(st, "ValueError", "unpack", node)
        from .interp import Diverge
        raise Diverge()
    return [ip.unk("unpack " + v.op, node) for _ in range(n)]


def constpart(e):
    ps = find_all(e, lambda t: t.op == "symbol")
    return subst(e, {p: ZERO for p in ps})


def coeff(e, p):
    """coefficient of p in an expression linear in the symbols: every symbol q counts as [q is p]"""
    ps = find_all(e, lambda t: t.op == "symbol")
    return sub(subst(e, {q: ite(eq(q.args[0], p.args[0]), ONE, ZERO) for q in ps}), constpart(e))


def occurs(e, p, memo):
    """condition under which p occurs in e (numeric cancellation of a coefficient is not considered)"""
    if e is p or (e.op == "symbol" and eq(e.args[0], p.args[0]) is TRUE):
        return TRUE
    if e not in memo:
        if e.op == "ite":
            memo[e] = ite(e.args[0], occurs(e.args[1], p, memo), occurs(e.args[2], p, memo))
        else:
            memo[e] = bor(*[occurs(x, p, memo) for x in subterms(e.args)]) if contains(e, p) else FALSE
    return memo[e]


def coeff_entries(e):
    """what sympy's as_coefficients_dict holds: the symbols that occur, and a constant other than zero"""
    out, seen = [], []
    k = constpart(e)
    if k is not ZERO:
        out.append(mk("de", bnot(eq(k, ZERO)), ONE, k))
    for p in find_all(e, lambda t: t.op == "symbol"):
        if any(eq(p.args[0], q.args[0]) is TRUE for q in seen):
            continue
        first = band(*[bnot(eq(p.args[0], q.args[0])) for q in seen])
        seen.append(p)
        v = coeff(e, p)
        out.append(mk("de", band(first, occurs(e, p, {})), p, v))
    return out


# ================================================================ lists and dicts
def list_append(ip, r, v, st):
    def f(c):
        if c.op in ("list", "set"):
            return mk(c.op, *c.args, mk("el", TRUE, v))
        if c.op == "opq":
            return mk("list", mk("base", c.args[0]), mk("el", TRUE, v))
        return ip.unk("append to " + c.op)
    ip.event(st, "append", r, v)
    ip.setcontent(r, st, f)


def list_extend(ip, r, v, st):
    l = aslist(ip, v, st)

    def f(c):
        if c.op in ("list", "set") and l is not None:
            return mk(c.op, *c.args, *l.args)
        return ip.unk("extend")
    ip.setcontent(r, st, f)


def dict_del(ip, o, i, st):
    def f(c):
        if c.op == "dict" and all(e.op == "de" for e in c.args[1:]) and c.args[0] is NONE:
            out = [e for e in c.args[1:] if eq(e.args[1], i) is FALSE]
            if all(eq(e.args[1], i) in (TRUE, FALSE) for e in c.args[1:]):
                return mk("dict", NONE, *out)
        return ip.unk("dict delete")
    ip.event(st, "delitem", o, i)
    ip.setcontent(o, st, f)


def dict_update(ip, r, o, st):
    c2 = cont(ip, o, st)
    if c2.op == "dict" and c2.args[0] is NONE:
        for e in c2.args[1:]:
            if e.op == "de" and e.args[0] is TRUE:
                ip.setitem(r, e.args[1], e.args[2], st)
            else:
                ip.setcontent(r, st, lambda c: mk("dict", *c.args, e) if c.op == "dict" else ip.unk("update"))
        return
    if c2.op in ("opq", "dict"):
        c = ip.content(r, st)
        if c.op == "dict" and len(c.args) == 1 and c.args[0] is NONE:
            ip.setcontent(r, st, lambda _: c2 if c2.op == "dict" else mk("dict", c2))
            return
    ip.setcontent(r, st, lambda _: ip.unk("dict update"))


def dict_get(ip, c, k, st, default=None, node=None):
    """(value, present condition)"""
    val, present = None, FALSE
    base = c.args[0] if c.op == "dict" else c
    ents = c.args[1:] if c.op == "dict" else ()
    if base is NONE:
        pass
    elif base.op == "dd":
        pass
    elif base.op in ("opq", "copq"):
        t = base.args[0]
        val = mk("item", t, k)
        present = mk("in", k, mk("keys", t))
    else:
        return ip.unk("dict base"), ip.unk("dict base")
    for e in ents:
        if e.op == "de":
            g, kk, v = e.args
            cnd = band(g, eq(kk, k))
        elif e.op == "dm":
            bv, dom, g, kk, v = e.args
            sol = match_key(ip, kk, k, bv, dom)
            if sol is None:
                cnd = mk("exists", *close(bv, dom, band(g, eq(kk, k))))
                v = mk("pick", *close(bv, dom, band(g, eq(kk, k)), v))
            else:
                x, rc = sol
                m = {bv: x}
                cnd, v = band(subst(g, m), rc), subst(v, m)
        elif e.op == "dacc":
            bv, dom, g, kk, v = e.args
            sol = match_key(ip, kk, k, bv, dom)
            if sol is None or val is None:
                return ip.unk("accumulated dict"), ip.unk("accumulated dict")
            x, rc = sol
            val = ite(band(subst(g, {bv: x}), rc), add(val, subst(v, {bv: x})), val)
            continue
        else:
            return ip.unk("dict entry"), ip.unk("dict entry")
        if cnd is FALSE:
            continue
        val = v if val is None or cnd is TRUE else ite(cnd, v, val)
        present = bor(cnd, present)
    if base.op == "dd" if base is not NONE else False:
        if present is not TRUE:
            d = ip.apply(base.args[0], [], {}, st, node)
            val = d if val is None else ite(present, val, d)
            present = TRUE
    return val, present


def match_key(ip, kk, k, bv, dom):
    """value x of bv such that kk[bv:=x] == k (kk injective in bv), with the range condition"""
    if kk is bv:
        if dom.op == "range":
            return k, band(bnot(lt0(k)), lt(k, dom.args[0]))
        if k.op == "bv" or (dom.op == "iter" and inside(k, dom)):
            return k, TRUE
        return k, mk("in", k, mk("keys", dom.args[0]))
    r = unify(kk, k, bv)
    if r is not None:
        if dom.op == "range":
            return r, band(bnot(lt0(r)), lt(r, dom.args[0]))
        return r, TRUE
    return None


def inside(k, dom):
    return False


def unify(pat, t, bv):
    """x with pat[bv:=x] is t (syntactically), or None"""
    if pat is bv:
        return t
    if not contains(pat, bv):
        return None
    if pat.op == t.op and pat.op in ("at", "item", "tup", "symbol") and len(pat.args) == len(t.args):
        x = None
        for a, b in zip(pat.args, t.args):
            if a is b:
                continue
            if not isinstance(a, T) or not isinstance(b, T):
                return None
            y = unify(a, b, bv)
            if y is None or (x is not None and x is not y):
                return None
            x = y
        return x
    if is_numeric(pat) and is_numeric(t) and pat.op == "rat":
        # linear in bv with unit coefficient
        c = sub(subst(pat, {bv: ONE}), subst(pat, {bv: ZERO}))
        if c is ONE and not contains(sub(pat, bv), bv):
            return sub(t, sub(pat, bv))
        # same shape under digits: pat = P(bv); t = P(y) when t contains mod/div of one candidate
        cands = set()
        for a in find_all(t, lambda q: q.op in ("mod", "div", "ax", "bv", "ix", "sym")):
            cands.add(a)
            if a.op in ("mod", "div"):
                cands.add(a.args[0])
        for y in cands:
            if sub(subst(pat, {bv: y}), t) is ZERO:
                return y
    return None


def setdict(ip, o, k, v, st):
    def f(c):
        if c.op == "opq":
            c = mk("dict", c)
        if c.op != "dict":
            return ip.unk("setitem on " + c.op)
        ents = list(c.args[1:])
        out = []
        done = False
        for e in ents:
            if e.op == "de":
                q = eq(e.args[1], k)
                if q is TRUE and e.args[0] is TRUE and not done:
                    out.append(mk("de", TRUE, k, v))
                    done = True
                    continue
                if q is TRUE:
                    out.append(e)
                    continue
            out.append(e)
        if not done:
            out.append(mk("de", TRUE, k, v))
        return mk("dict", c.args[0], *out)
    ip.setcontent(o, st, f)


# ================================================================ formatting
def fmt(parts):
    out = []
    for p in parts:
        if p.op == "num" and p.args[0].denominator == 1:
            p = string(str(p.args[0]))
        elif p.op == "str_of":
            p = p.args[0] if p.args[0].op != "str" else p.args[0]
        if p.op == "fmt":
            for q in p.args:
                _push(out, q)
            continue
        if p.op == "none":
            p = string("None")
        if p.op == "bool":
            p = string(str(p.args[0]))
        _push(out, p)
    if not out:
        return string("")
    if len(out) == 1 and out[0].op == "str":
        return out[0]
    for i, p in enumerate(out):
        if p.op == "ite":
            c, a, b = p.args
            return ite(c, fmt(out[:i] + [a] + out[i + 1:]), fmt(out[:i] + [b] + out[i + 1:]))
    return mk("fmt", *out)


def _push(out, q):
    if q.op == "str" and out and out[-1].op == "str":
        out[-1] = string(out[-1].args[0] + q.args[0])
    elif q.op == "str" and q.args[0] == "":
        pass
    else:
        out.append(q)


# ================================================================ arithmetic
OPS = {"Add": add, "Sub": sub, "Mult": mul, "Div": divide, "Pow": power, "FloorDiv": idiv, "Mod": imod}


def scalar_op(op, a, b):
    if op in OPS and is_numeric(a) and is_numeric(b):
        if a.op == "fconst" or b.op == "fconst":
            n = a if a.op == "fconst" else b
            if n.args[0] == "nan" and op in ("Add", "Sub", "Mult", "Div"):
                return n
        if op in ("FloorDiv", "Mod") and b is ZERO:
            return mk("ucall", "div0", a)
        return OPS[op](a, b)
    return None


def binop(ip, op, a, b, st, node=None):
    if a.op == "ite" and not is_numeric_deep(a):
        return ite(a.args[0], binop(ip, op, a.args[1], b, st, node), binop(ip, op, a.args[2], b, st, node))
    if b.op == "ite" and not is_numeric_deep(b):
        return ite(b.args[0], binop(ip, op, a, b.args[1], st, node), binop(ip, op, a, b.args[2], st, node))
    if op == "MatMult":
        c = cont(ip, a, st)
        c = dmat2arr(c) if c.op == "dmat" else c
        return matmul(ip, c, b, st, node) if c.op == "arr" else ip.unk("matmul", node)
    if op == "Add":
        if a.op in ("str", "fmt", "strv") or b.op in ("str", "fmt", "strv"):
            return fmt([a, b])
        if a.op == "tup" and b.op == "tup":
            return mk("tup", *a.args, *b.args)
        ca, cb = ip.content(a, st), ip.content(b, st)
        if a.op == "ref" and ca.op == "ite":
            ca = flat_list(ca) or ca
        if b.op == "ref" and cb.op == "ite":
            cb = flat_list(cb) or cb
        if ca.op == "list" and cb.op == "list":
            return ip.alloc(st, mk("list", *ca.args, *cb.args))
        if ca.op == "list" or cb.op == "list":
            if (ca.op == "opq" or cb.op == "opq") and (ca if cb.op == "list" else cb).op == "opq":
                o = ca if ca.op == "opq" else cb
                if up(ip, o).op != "arr" and not (o.args[0].op == "carry"):
                    la = ca.args if ca.op == "list" else (mk("base", ca.args[0]),)
                    lb = cb.args if cb.op == "list" else (mk("base", cb.args[0]),)
                    return ip.alloc(st, mk("list", *la, *lb))
    if op == "Mod" and a.op in ("str", "fmt"):
        return mk("fmt", a, mk("strv", b))
    if op == "Mult":
        for x, y in ((a, b), (b, a)):
            if y.op == "num":
                if x.op == "str":
                    return string(x.args[0] * int(y.args[0]))
                if x.op == "tup":
                    return mk("tup", *(x.args * int(y.args[0])))
            if x.op == "ref" and ip.content(x, st).op == "list":
                c = ip.content(x, st)
                n = y
                if all(s.op == "el" and s.args[0] is TRUE for s in c.args):
                    if n.op == "num":
                        return ip.alloc(st, mk("list", *(c.args * int(n.args[0]))))
                    if len(c.args) == 1:
                        bv = fresh_bv(n)
                        return ip.alloc(st, mk("list", mk("mseg", *close(bv, mk("range", n), TRUE, c.args[0].args[1]))))
                return ip.unk("list repetition", node)
    if op in ("BitAnd", "BitOr", "BitXor", "Sub"):
        r = setop(ip, op, a, b, st)
        if r is not None:
            return r
    return elementwise2(ip, lambda x, y: op2(ip, op, x, y, node), a, b, st, node, op)


def is_numeric_deep(t):
    if t.op == "ite":
        return is_numeric_deep(t.args[1]) and is_numeric_deep(t.args[2])
    return is_numeric(t)


def op2(ip, op, x, y, node=None):
    if op in ("BitAnd", "BitOr"):
        if isbool(x) and isbool(y):
            return band(x, y) if op == "BitAnd" else bor(x, y)
    if op == "MatMult":
        return ip.unk("matmul", node)
    if not (is_numeric_deep(x) and is_numeric_deep(y)):
        if x.unk or y.unk:
            return ip.unk("operand", node)
        if x.op == "none" or y.op == "none":
            return mk("ucall", "TypeError", op)
        return mk("ucall", op, x, y)
    if op not in OPS:
        return mk("ucall", op, x, y)
    if op in ("FloorDiv", "Mod") and y is ZERO:
        return mk("ucall", "div0", x)
    if isbool(x) and x.op != "bool":
        x = ite(x, ONE, ZERO)
    if isbool(y) and y.op != "bool":
        y = ite(y, ONE, ZERO)
    nan = [t for t in (x, y) if t.op == "fconst" and t.args[0] == "nan"]
    if nan:
        return nan[0]
    return OPS[op](x, y)


def setop(ip, op, a, b, st):
    ca, cb = ip.content(a, st), ip.content(b, st)
    if ca.op == "set" and cb.op == "set":
        if op == "BitOr":
            return ip.alloc(st, mk("set", *ca.args, *cb.args))
        return set_filter(ip, a, b, st, keep=(op == "BitAnd")) if op != "BitXor" else ip.unk("set xor")
    return None


def set_filter(ip, a, b, st, keep, kind="set"):
    ca = aslist(ip, a, st)
    if ca is None:
        return ip.unk("set operation")
    out = []
    for s in ca.args:
        if s.op == "el":
            m = contains_(ip, b, s.args[1], st)
            out.append(mk("el", band(s.args[0], m if keep else bnot(m)), s.args[1]))
        elif s.op == "mseg":
            bv, dom, g, v = s.args
            nb = fresh_bv(bv.args[1] if len(bv.args) > 1 else None)
            g, v = subst(g, {bv: nb}), subst(v, {bv: nb})
            m = contains_(ip, b, v, st)
            out.append(mk("mseg", *close(nb, dom, band(g, m if keep else bnot(m)), v)))
        else:
            b2 = fresh_bv()
            m = contains_(ip, b, b2, st)
            out.append(mk("mseg", *close(b2, mk("iter", s.args[0]), m if keep else bnot(m), b2)))
    return ip.alloc(st, mk(kind, *[x for x in out if not (x.op == "el" and x.args[0] is FALSE)]))


def toarr(ip, v, st):
    """array content for array-like values; scalars give None"""
    if v.op in ("tup",):
        return list2arr(ip, [("el", TRUE, x) for x in v.args], st)
    if v.op in ("range", "zip", "keysv", "valuesv"):
        s = sequence(ip, v, st)
        return list2arr(ip, s, st) if s not in (None, "ite") else None
    c = cont(ip, v, st)
    if c.op == "arr":
        return c
    if c.op == "list":
        s = sequence(ip, v, st)
        if s in (None, "ite"):
            return None
        return list2arr(ip, s, st)
    return None


def list2arr(ip, seq, st):
    if not seq:
        return mkarr((ZERO,), lambda a: ZERO)
    if all(s[0] == "el" and s[1] is TRUE for s in seq):
        subs = [toarr(ip, s[2], st) if s[2].op in ("tup", "ref") or s[2] in ip.shapes else None for s in seq]
        n = num(len(seq))
        if all(s is None for s in subs):
            def f(a):
                r = seq[-1][2]
                for i in range(len(seq) - 2, -1, -1):
                    r = ite(eq(a[0], num(i)), seq[i][2], r)
                return r
            return mkarr((n,), f)
        if any(s is None for s in subs):
            return None
        sh = subs[0].args[0]
        if any(s.args[0] != sh for s in subs):
            return None

        def f(a):
            r = aget(subs[-1], a[1:])
            for i in range(len(subs) - 2, -1, -1):
                r = ite(eq(a[0], num(i)), aget(subs[i], a[1:]), r)
            return r
        return mkarr((n,) + sh, f)
    if len(seq) == 1 and seq[0][0] == "mseg" and seq[0][2].op == "range" and seq[0][3] is TRUE:
        _, bv, dom, g, v = seq[0]
        n = dom.args[0]
        s = toarr(ip, v, st) if v.op in ("tup", "ref") else None
        if v.op in ("tup", "ref") and s is None:
            return None
        if s is None:
            return mkarr((n,), lambda a: subst(v, {bv: a[0]}))
        return mkarr((n,) + s.args[0], lambda a: subst(aget(s, a[1:]), {bv: a[0]}))
    return None


def bshape(s1, s2):
    n = max(len(s1), len(s2))
    a = (ONE,) * (n - len(s1)) + tuple(s1)
    b = (ONE,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if x is y or sub(x, y) is ZERO:
            out.append(x)
        elif x is ONE:
            out.append(y)
        elif y is ONE:
            out.append(x)
        else:
            return None
    return tuple(out)


def bget(c, shape, a):
    s = c.args[0]
    off = len(shape) - len(s)
    return aget(c, [ZERO if s[i] is ONE else a[off + i] for i in range(len(s))])


def elementwise2(ip, f, a, b, st, node=None, op=None):
    ca, cb = cont(ip, a, st), cont(ip, b, st)
    if ca.op == "ite" and any(x.op in ("arr", "dmat") for x in (ca.args[1], ca.args[2])):
        ra, rb = ip.alloc(st, ca.args[1]), ip.alloc(st, ca.args[2])
        return ite(ca.args[0], elementwise2(ip, f, ra, b, st, node, op), elementwise2(ip, f, rb, b, st, node, op))
    if cb.op == "ite" and any(x.op in ("arr", "dmat") for x in (cb.args[1], cb.args[2])):
        ra, rb = ip.alloc(st, cb.args[1]), ip.alloc(st, cb.args[2])
        return ite(cb.args[0], elementwise2(ip, f, a, ra, st, node, op), elementwise2(ip, f, a, rb, st, node, op))
    if ca.op == "dmat" or cb.op == "dmat":
        return dmat_op(ip, op, ca, cb, a, b, st, node)
    if ca.op in ("list",) and cb.op == "arr":
        ca = toarr(ip, a, st) or ca
    if cb.op in ("list",) and ca.op == "arr":
        cb = toarr(ip, b, st) or cb
    if ca.op == "arr" and cb.op == "arr":
        sh = bshape(ca.args[0], cb.args[0])
        if sh is None:
            return ip.unk(f"broadcast {ca.args[0]} {cb.args[0]}", node)
        return ip.alloc(st, mkarr(sh, lambda x: f(bget(ca, sh, x), bget(cb, sh, x))))
    if ca.op == "arr":
        if b.op in ("ref", "none", "str"):
            return ip.unk("array with " + b.op, node)
        return ip.alloc(st, mkarr(ca.args[0], lambda x: f(aget(ca, x), b)))
    if cb.op == "arr":
        if a.op in ("ref", "none", "str"):
            return ip.unk("array with " + a.op, node)
        return ip.alloc(st, mkarr(cb.args[0], lambda x: f(a, aget(cb, x))))
    if a.op == "ref" or b.op == "ref":
        if ca.unk or cb.unk:
            return ip.unk("operand", node)
        return ip.unk(f"{op} on {ca.op},{cb.op}", node)
    return f(a, b)


def elementwise1(ip, f, v, st):
    c = cont(ip, v, st)
    if c.op == "arr":
        return ip.alloc(st, mkarr(c.args[0], lambda x: f(aget(c, x))))
    if c.op == "dmat":
        return ip.alloc(st, mk("dmat", c.args[0], tuple((k, mkarr(w.args[0], lambda x: f(aget(w, x)))) for k, w in c.args[1])))
    if c.op == "ite" and v.op == "ref":
        return ite(c.args[0], elementwise1(ip, f, ip.alloc(st, c.args[1]), st), elementwise1(ip, f, ip.alloc(st, c.args[2]), st))
    if v.op == "ite":
        return ite(v.args[0], elementwise1(ip, f, v.args[1], st), elementwise1(ip, f, v.args[2], st))
    if v.op == "ref":
        return ip.unk("elementwise on " + c.op)
    return f(v)


# ---------------------------------------------------------------- band matrices
def dmat_body(c, i, j):
    """entry (i,j) of a matrix given by its diagonals"""
    r = ZERO
    for k, v in c.args[1]:
        n = v.args[0][0]
        row0 = ite(lt0(k), neg(k), ZERO)
        t = sub(i, row0)
        g = band(eq(sub(j, i), k), bnot(lt0(t)), lt(t, n))
        r = add(r, ite(g, aget(v, [t]), ZERO))
    return r


def dmat2arr(c):
    n = c.args[0]
    return mkarr((n, n), lambda a: dmat_body(c, a[0], a[1]))


def dmat_op(ip, op, ca, cb, a, b, st, node):
    if ca.op == "dmat" and cb.op == "dmat" and op in ("Add", "Sub"):
        ds = list(ca.args[1])
        for k, v in cb.args[1]:
            if op == "Sub":
                v = mkarr(v.args[0], lambda x, v=v: neg(aget(v, x)))
            ds.append((k, v))
        return ip.alloc(st, mk("dmat", ca.args[0], tuple(ds)))
    if ca.op == "dmat" and cb.op not in ("arr", "dmat") and b.op != "ref" and op in ("Mult", "Div"):
        f = OPS[op]
        return ip.alloc(st, mk("dmat", ca.args[0], tuple((k, mkarr(v.args[0], lambda x, v=v: f(aget(v, x), b))) for k, v in ca.args[1])))
    if cb.op == "dmat" and ca.op not in ("arr", "dmat") and a.op != "ref" and op == "Mult":
        return dmat_op(ip, op, cb, ca, b, a, st, node)
    if op in ("Add", "Sub", "Mult", "Div"):
        xa = ip.alloc(st, dmat2arr(ca)) if ca.op == "dmat" else a
        xb = ip.alloc(st, dmat2arr(cb)) if cb.op == "dmat" else b
        return elementwise2(ip, lambda x, y: op2(ip, op, x, y, node), xa, xb, st, node, op)
    return ip.unk("matrix operation", node)


# ================================================================ comparison
def compare(ip, op, a, b, st, node=None):
    if op in ("Is", "IsNot"):
        if a is b:
            r = TRUE
        elif b is NONE or a is NONE:
            x = a if b is NONE else b
            r = FALSE if (x.op in ("ref",)) else isnone(x)
        elif b.op == "bool" and (isbool(a) or a.op == "bool"):
            r = a if b is TRUE else bnot(a)
        elif b.op == "bool":
            r = eq(a, b) if a.op in CONSTOPS else mk("eq", *sorted((a, b), key=lambda t: t.id))
            if a.op in ("num", "str", "tup", "ref"):
                r = FALSE
        else:
            r = boolc(False) if a.op in CONSTOPS and b.op in CONSTOPS else mk("ucall", "is", a, b)
        return r if op == "Is" else bnot(r)
    if op in ("In", "NotIn"):
        r = contains_(ip, b, a, st)
        return r if op == "In" else bnot(r)

    def f(x, y):
        if op == "Eq":
            return eqv(ip, x, y, st)
        if op == "NotEq":
            return bnot(eqv(ip, x, y, st))
        if x.unk or y.unk:
            return ip.unk("compare", node)
        if not (is_numeric_deep(x) and is_numeric_deep(y)):
            return mk("ucall", op, x, y)
        if op == "Lt":
            return lt(x, y)
        if op == "LtE":
            return le(x, y)
        if op == "Gt":
            return lt(y, x)
        return le(y, x)
    ca, cb = cont(ip, a, st), cont(ip, b, st)
    if (ca.op == "arr" or cb.op == "arr") and a.op not in ("none", "str") and b.op not in ("none", "str"):
        if (a.op in ("tup",) and cb.op != "arr") or (b.op == "tup" and ca.op != "arr"):
            return FALSE
        return elementwise2(ip, f, a, b, st, node, op)
    return f(a, b)


def eqv(ip, x, y, st):
    if x.op == "ref" or y.op == "ref":
        if x is y:
            return TRUE
        ex, ey = explicit(ip, x, st), explicit(ip, y, st)
        if ex is not None and ey is not None and x.op == y.op:
            if len(ex) != len(ey):
                return FALSE
            return band(*[eqv(ip, p, q, st) for p, q in zip(ex, ey)])
        if y.op in CONSTOPS or x.op in CONSTOPS:
            return FALSE
        return ip.unk("container equality")
    if x.unk or y.unk:
        return ip.unk("equality")
    if x.op == "tup" and y.op == "tup":
        if len(x.args) != len(y.args):
            return FALSE
        return band(*[eqv(ip, p, q, st) for p, q in zip(x.args, y.args)])
    return eq(x, y)


def contains_(ip, b, a, st):
    """a in b"""
    if b.op == "ite":
        return ite(b.args[0], contains_(ip, b.args[1], a, st), contains_(ip, b.args[2], a, st))
    if b.op == "str":
        if a.op == "str":
            return boolc(a.args[0] in b.args[0])
        return mk("in", a, b)
    if b.op in ("strv", "fmt") or (b.op == "sym" and b.args[1] == "str"):
        return mk("in", a, b)
    if b.op == "keysv":
        b = b.args[0]
    if b.op == "valuesv":
        s = sequence(ip, b, st)
    if b.op == "range":
        n, s0, step = b.args
        if step is ONE:
            x = sub(a, s0)
            return band(bnot(lt0(x)), lt(x, n))
    vs = explicit(ip, b, st)
    if vs is not None:
        return bor(*[eqv(ip, v, a, st) for v in vs])
    c = cont(ip, b, st)
    if c.op == "ite":
        return ite(c.args[0], contains_(ip, ip.alloc(st, c.args[1]), a, st), contains_(ip, ip.alloc(st, c.args[2]), a, st))
    if c.op == "dict":
        return dict_get(ip, c, a, st)[1]
    if c.op in ("list", "set", "arr"):
        seq = sequence(ip, b, st)
        if seq is None:
            return ip.unk("membership")
        r = FALSE
        for s in seq:
            if s[0] == "el":
                r = bor(r, band(s[1], eqv(ip, s[2], a, st)))
            else:
                _, bv, dom, g, v = s
                if v is bv and dom.op == "iter":
                    r = bor(r, band(subst(g, {bv: a}), mk("in", a, mk("keys", dom.args[0]))))
                    continue
                if v.op == "ref":
                    cv = cont(ip, v, st)
                    if cv.op == "arr" and a.op == "tup" and cv.args[0][0].op == "num" and len(cv.args[0]) == 1:
                        v = mk("tup", *[aget(cv, [num(i)]) for i in range(int(cv.args[0][0].args[0]))])
                    else:
                        return ip.unk("membership")
                r = bor(r, exists_eq(ip, bv, dom, g, v, a))
        return r
    if c.op == "opq":
        return mk("in", a, mk("keys", c.args[0]))
    if c.op in ("nbrs", "bnds"):
        return mk("in", a, mk("keys", c))
    if c.op == "coeffs":
        return ip.unk("coefficients membership")
    return ip.unk("membership in " + c.op)


def exists_eq(ip, bv, dom, g, v, a):
    """exists bv in dom with g and v == a"""
    if g is TRUE and dom.op == "range":
        if v.op == "tup" and a.op == "tup" and len(v.args) == len(a.args):
            r = digits_exists(v, a, bv, dom.args[0])
            if r is not None:
                return r
        elif is_numeric(v) and is_numeric(a):
            x = unify(v, a, bv)
            if x is not None:
                if contains(v, bv) and v is not bv and v.op == "rat" and not _unit_affine(v, bv):
                    if x.op in ("ax", "ix", "bv") or True:
                        return band(bnot(lt0(x)), lt(x, dom.args[0]))
                return band(bnot(lt0(x)), lt(x, dom.args[0]))
            r = radix_exists(v, a, bv, dom.args[0])
            if r is not None:
                return r
    return mk("exists", *close(bv, dom, band(g, eq(v, a))))


def _unit_affine(v, bv):
    return not contains(sub(v, bv), bv)


def digit_parts(bv, n):
    return None


def digits_exists(v, a, bv, n):
    """v = tuple of (digit of bv + offset); digits independent and covering: exists <=> each a_i in its digit range"""
    rngs = []
    prodn = ONE
    for x in v.args:
        ds = find_all(x, lambda t: t.op in ("mod", "div") and contains(t, bv)) if x is not bv else []
        off = None
        if not contains(x, bv):
            rngs.append((x, None))
            continue
        if x is bv:
            rngs.append((ZERO, n))
            prodn = mul(prodn, n)
            continue
        top = [d for d in ds if not any(d is not e and contains(e, d) for e in ds)]
        if len(top) > 1 or (not top):
            if not top and _unit_affine(x, bv):
                rngs.append((sub(x, bv), n))
                prodn = mul(prodn, n)
                continue
            return None
        d = top[0]
        off = sub(x, d)
        if contains(off, bv):
            return None
        size = d.args[1] if d.op == "mod" else idiv(n, d.args[1])
        rngs.append((off, size))
        prodn = mul(prodn, size)
    if sub(prodn, n) is not ZERO:
        return None
    cs = []
    for (off, size), ai in zip(rngs, a.args):
        if not is_numeric(ai):
            return None
        if size is None:
            cs.append(eq(ai, off))
        else:
            cs += [bnot(lt0(sub(ai, off))), lt(ai, add(off, size))]
    return band(*cs)


def radix_exists(v, a, bv, n):
    """v = sum_k stride_k * (digit_k(bv) + off_k): mixed radix number -> conditions on the digits of a"""
    if v.op != "rat":
        return None
    ds = find_all(v, lambda t: t.op in ("mod", "div") and contains(t, bv))
    top = [d for d in ds if not any(d is not e and contains(e, d) for e in ds)]
    if not top:
        return None
    rest = v
    strides = []
    for d in top:
        s = sub(subst(v, {d: ONE}), subst(v, {d: ZERO}))
        if contains(s, bv):
            return None
        size = d.args[1] if d.op == "mod" else idiv(n, d.args[1])
        strides.append((s, size))
    base = subst(v, {d: ZERO for d in top})
    if contains(base, bv):
        return None
    if sub(prod([s for _, s in strides]), n) is not ZERO:
        return None
    # sort strides: increasing, provably
    import functools

    def cmp(x, y):
        if prove_nonneg(sub(x[0], y[0])):
            return 1
        if prove_nonneg(sub(y[0], x[0])):
            return -1
        raise ArithmeticError
    try:
        strides.sort(key=functools.cmp_to_key(cmp))
    except ArithmeticError:
        return None
    # require each digit block to fit below the next stride so that digits of (a) are well defined
    cs = []
    x = a
    offs = []
    b = base
    for k in range(len(strides) - 1, -1, -1):
        s = strides[k][0]
        q, r = idiv(b, s), imod(b, s)
        if q.op in ("div", "floordiv"):
            return None
        offs.insert(0, q)
        b = r
    if b is not ZERO:
        return None
    for k in range(len(strides)):
        s, size = strides[k]
        nxt = strides[k + 1][0] if k + 1 < len(strides) else None
        if nxt is None:
            dig = idiv(a, s)
        else:
            per = idiv(nxt, s)
            if sub(mul(per, s), nxt) is not ZERO:
                return None
            dig = imod(idiv(a, s), per)
            if not prove_nonneg(sub(per, add(offs[k], size))):
                return None
        cs += [bnot(lt0(sub(dig, offs[k]))), lt(dig, add(offs[k], size))]
    if not prove_nonneg(a):
        cs.append(bnot(lt0(a)))
    return band(*cs)


# ================================================================ indexing
def norm_index(i, n):
    if i.op == "num" and i.args[0] < 0:
        return add(n, i)
    if i.op == "neg1":
        return sub(n, ONE)
    return i


def slice_parts(ip, s, n, node=None):
    """(start, step, length) of a slice over an axis of size n"""
    lo, hi, stp = s.args
    step = ONE if stp is NONE else stp
    if step.op == "num" and step.args[0] < 0:
        start = sub(n, ONE) if lo is NONE else norm_index(lo, n)
        if hi is NONE:
            ln = idiv(add(start, neg(step)), neg(step))
        else:
            h = norm_index(hi, n)
            ln = idiv(sub(sub(start, h), add(step, ONE)), neg(step))
        return start, step, ln
    start = ZERO if lo is NONE else norm_index(lo, n)
    stop = n if hi is NONE else norm_index(hi, n)
    if start.unk or stop.unk or step.unk:
        return None
    if not prove_nonneg(start):
        # negative symbolic start such as [-n:]
        if prove_pos(neg(start)):
            start = add(n, start)
        else:
            ip.assume_note(start)
    if hi is not NONE and not prove_nonneg(sub(n, stop)):
        if prove_nonneg(sub(stop, n)):
            stop = n
        elif prove_pos(neg(stop)):
            stop = add(n, stop)
        else:
            stop = ite(lt(n, stop), n, stop)
    ln = sub(stop, start)
    if step is not ONE:
        ln = idiv(add(ln, sub(step, ONE)), step)
    elif not prove_nonneg(ln):
        if prove_nonneg(neg(ln)):
            ln = ZERO
    return start, step, ln


def index_plan(ip, c, idx, st, node=None):
    """parse an index into per-axis parts"""
    parts = list(idx.args) if idx.op == "tup" else [idx]
    shape = c.args[0]
    n_real = sum(1 for p in parts if p is not NONE and p.op != "ellipsis")
    if any(p.op == "ellipsis" for p in parts):
        k = [p.op for p in parts].index("ellipsis")
        parts = parts[:k] + [mk("slice", NONE, NONE, NONE)] * (len(shape) - n_real) + parts[k + 1:]
    else:
        parts = parts + [mk("slice", NONE, NONE, NONE)] * (len(shape) - n_real)
    if sum(1 for p in parts if p is not NONE) != len(shape):
        return None
    plan = []
    d = 0
    for p in parts:
        if p is NONE:
            plan.append(("new",))
            continue
        n = shape[d]
        if p.op == "slice":
            sp = slice_parts(ip, p, n, node)
            if sp is None:
                return None
            plan.append(("slice", n) + sp)
        elif p.op in ("ref", "tup", "range") or (p in ip.shapes) or cont(ip, p, st).op in ("arr", "list"):
            a = toarr(ip, p, st)
            if a is None:
                return None
            if isbool(a.args[1]):
                plan.append(("mask", n, a))
            else:
                plan.append(("fancy", n, a))
        elif is_numeric_deep(p) and not p.unk:
            plan.append(("int", n, norm_index(p, n)))
        else:
            return None
        d += 1
    return plan


def too_many(ip, c, idx, st, node):
    """more indices than axes: IndexError"""
    if idx.op == "tup" and all(is_numeric(p) and not p.unk for p in idx.args) and len(idx.args) > len(c.args[0]):
        ip.raise_(st, "IndexError", "too many indices", node)
        from .interp import Diverge
        raise Diverge()


def arr_get(ip, c, idx, st, node=None):
    plan = index_plan(ip, c, idx, st, node)
    if plan is None:
        too_many(ip, c, idx, st, node)
        return ip.unk("index", node)
    if any(p[0] == "mask" for p in plan):
        return ip.unk("mask read", node)
    fans = [p for p in plan if p[0] == "fancy"]
    shape, fshape = [], None
    if fans:
        fshape = ()
        for p in fans:
            fshape = bshape(fshape, p[2].args[0])
            if fshape is None:
                return ip.unk("fancy broadcast", node)
    pos = {}
    fpos = None
    adv = [i for i, p in enumerate(plan) if p[0] in ("fancy", "int")] if fans else []
    contiguous = not adv or adv == list(range(adv[0], adv[-1] + 1))
    if fans and not contiguous:
        fpos = 0
        shape.extend(fshape)
    for i, p in enumerate(plan):
        if p[0] == "new":
            shape.append(ONE)
        elif p[0] == "slice":
            pos[i] = len(shape)
            shape.append(p[4])
        elif fans and fpos is None and i == adv[0]:
            fpos = len(shape)
            shape.extend(fshape)

    def f(a):
        ix = []
        for i, p in enumerate(plan):
            if p[0] == "slice":
                j = a[pos[i]]
                ix.append(add(p[2], mul(p[3], j)))
            elif p[0] == "int":
                ix.append(p[2])
            elif p[0] == "fancy":
                v = bget(p[2], fshape, a[fpos:fpos + len(fshape)])
                ix.append(norm_fancy(v, p[1]))
        return aget(c, ix)
    if not shape:
        return f([])
    return ip.alloc(st, mkarr(shape, f))


def norm_fancy(v, n):
    if v.op == "ite":
        return ite(v.args[0], norm_fancy(v.args[1], n), norm_fancy(v.args[2], n))
    return norm_index(v, n)


def either(ip, g, f1, f2, st):
    """a choice of reads; a side that always raises is left out (the raise is recorded under its condition)"""
    from .interp import Diverge
    k = ip.decide(g, st)
    if k in (TRUE, FALSE):
        return f1() if k is TRUE else f2()
    pc, out = st.pc, []
    for c, f in ((g, f1), (bnot(g), f2)):
        st.pc = (*pc, c)
        try:
            out.append(f())
        except Diverge:
            out.append(None)
        finally:
            st.pc = pc
    a, b = out
    if a is None and b is None:
        raise Diverge()
    return b if a is None else a if b is None else ite(g, a, b)


def getitem(ip, o, i, st, node=None):
    if o.op == "ite":
        return either(ip, o.args[0], lambda: getitem(ip, o.args[1], i, st, node), lambda: getitem(ip, o.args[2], i, st, node), st)
    if i.op == "ite" and o.op in ("tup", "str", "ref"):
        c = cont(ip, o, st)
        if c.op != "arr" or i.args[1].op in ("str", "tup", "ref"):
            return either(ip, i.args[0], lambda: getitem(ip, o, i.args[1], st, node), lambda: getitem(ip, o, i.args[2], st, node), st)
    if o.unk or i.unk:
        if o.op != "ref":
            return ip.unk("item", node)
    if o.op in ("tup", "str"):
        vs = explicit(ip, o, st)
        w = lambda l: mk("tup", *l) if o.op == "tup" else string("".join(x.args[0] for x in l))
        if i.op == "num":
            k = int(i.args[0])
            if -len(vs) <= k < len(vs):
                return vs[k]
            ip.raise_(st, "IndexError", "index", node)
            from .interp import Diverge
            raise Diverge()
        if i.op == "slice" and all(x is NONE or x.op == "num" for x in i.args):
            s = slice(*[None if x is NONE else int(x.args[0]) for x in i.args])
            return w(vs[s])
        r = ip.unk("tuple index", node) if not vs else vs[-1]
        if vs and is_numeric(i):
            for k in range(len(vs) - 2, -1, -1):
                r = ite(eq(i, num(k)), vs[k], r)
            return r
        return ip.unk("tuple index", node)
    if o.op in ("keysv", "valuesv", "items"):
        return ip.unk("view index", node)
    if o.op == "strv" and o.args[0].op == "symbol" and i.op == "slice" and i.args[0] is ONE and i.args[1] is NONE and i.args[2] in (NONE, ONE):
        return mk("symsuffix", o.args[0].args[0])     # the symbol's name is "p" followed by the cell id
    if o.op == "attr" and o.args[1] == "name" and o.args[0].op == "symbol":
        return getitem(ip, mk("strv", o.args[0]), i, st, node)
    if o.op == "pvcells":
        return ip.unk("pv", node)
    c = cont(ip, o, st)
    return ip.unbox(content_get(ip, c, i, st, node, o), st)


def content_get(ip, c, i, st, node, o):
    if c.op == "ite":
        return either(ip, c.args[0], lambda: content_get(ip, c.args[1], i, st, node, o), lambda: content_get(ip, c.args[2], i, st, node, o), st)
    if c.op == "arr":
        return arr_get(ip, c, i, st, node)
    if c.op == "list":
        vs = explicit(ip, o, st) if o is not None else None
        if c.op == "list" and all(s.op == "el" and s.args[0] is TRUE for s in c.args):
            vs = [s.args[1] for s in c.args]
        if vs is not None:
            if i.op == "num":
                k = int(i.args[0])
                if -len(vs) <= k < len(vs):
                    return vs[k]
                ip.raise_(st, "IndexError", "index", node)
                from .interp import Diverge
                raise Diverge()
            if i.op == "slice" and all(x is NONE or x.op == "num" for x in i.args):
                s = slice(*[None if x is NONE else int(x.args[0]) for x in i.args])
                return ip.newlist(st, vs[s])
        if len(c.args) == 1 and c.args[0].op == "mseg" and c.args[0].args[1].op == "range" and c.args[0].args[2] is TRUE:
            bv, dom, g, v = c.args[0].args
            if is_numeric(i):
                return subst(v, {bv: norm_index(i, dom.args[0])})
        if i.op == "num":
            k = int(i.args[0])
            if k >= 0:
                # first matching guarded elements
                return nth_guarded(ip, c, k, node)
            if k == -1 and c.args and c.args[-1].op == "el" and c.args[-1].args[0] is TRUE:
                return c.args[-1].args[1]
        return mk("ucall", "listitem", c, i)
    if c.op == "dict":
        if c.args[0] is not NONE and c.args[0].op == "dd" and o is not None:
            # a defaultdict keeps the value it makes up for a missing key
            there, p = dict_get(ip, mk("dict", NONE, *c.args[1:]), i, st, None, node)
            p = ip.decide(p, st)
            if p is TRUE and there is not None:
                return there
            new = ip.apply(c.args[0].args[0], [], {}, st, node)
            if p is FALSE or there is None:
                ip.setcontent(o, st, lambda x: mk("dict", *x.args, mk("de", TRUE, i, new)) if x.op == "dict" else ip.unk("defaultdict"))
                return new
            ip.setcontent(o, st, lambda x: mk("dict", *x.args, mk("de", bnot(p), i, new)) if x.op == "dict" else ip.unk("defaultdict"))
            return ite(p, there, new)
        v, p = dict_get(ip, c, i, st, None, node)
        if p is not TRUE and c.args[0] is NONE:
            p = ip.decide(p, st)
            if p is FALSE or v is None:
                ip.raise_(st, "KeyError", i, node)
                from .interp import Diverge
                raise Diverge()
            if p is not TRUE:
                s2 = st.copy()
                s2.pc = s2.pc + (bnot(p),)
                ip.raise_(s2, "KeyError", i, node)
                ip.event(st, "keyerror?", i, p, node=node)
        return v
    if c.op == "opq":
        t = c.args[0]
        if i.op == "slice":
            return mk("rowslice", t, i)
        if i.op == "tup":
            return mk("item", t, *i.args)
        ci = cont(ip, i, st)
        if ci.op == "arr":
            return ip.alloc(st, mkarr(ci.args[0], lambda a: mk("item", t, aget(ci, a))))
        return mk("item", t, i)
    if c.op == "df":
        return ip.unk("df item", node)
    if c.op == "dmat":
        return content_get(ip, dmat2arr(c), i, st, node, o)
    if c.op == "coeffs":
        if i.op == "symbol":
            return coeff(c.args[0], i)
        if i is ONE:
            return constpart(c.args[0])
        return ip.unk("coeff", node)
    if c.op in ("nbrs", "bnds", "tmap", "only"):
        return mk("item", c, i)
    if is_numeric(c) and c.op in ("rat",):
        return mk("item", c, i)
    return ip.unk("getitem on " + c.op, node)


def nth_guarded(ip, c, k, node):
    if k == 0 and all(s.op == "el" for s in c.args) and c.args:
        r = mk("ucall", "IndexError")
        for s in reversed(c.args):
            r = ite(s.args[0], s.args[1], r)
        return r
    if k == 0 and len(c.args) == 1 and c.args[0].op == "mseg":
        bv, dom, g, v = c.args[0].args
        return mk("first", bv, dom, g, v)
    return mk("ucall", "listitem", c, num(k))


def store_value(ip, v, st):
    c = cont(ip, v, st)
    if c.op == "list":
        a = toarr(ip, v, st)
        return a if a is not None else c
    if v.op == "tup":
        return toarr(ip, v, st)
    return c


def guarded_store(ip, c, idx, v, st, node):
    """store through a list some of whose entries are conditional: one store per entry, under its condition"""
    parts = list(idx.args) if idx.op == "tup" else [idx]
    gl = []
    for k, p in enumerate(parts):
        if p.op in ("ref", "box"):
            pc = cont(ip, p, st)
            if pc.op == "list" and all(s.op == "el" for s in pc.args) and any(s.args[0] is not TRUE for s in pc.args):
                gl.append((k, pc))
    if len(gl) != 1:
        return None
    k, pc = gl[0]
    vals = [v] * len(pc.args)
    if v.op in ("ref", "box", "keysv", "valuesv"):
        vc = cont(ip, v, st) if v.op in ("ref", "box") else aslist(ip, v, st)
        if vc is None or vc.op != "list" or len(vc.args) != len(pc.args) or any(x.op != "el" or x.args[0] is not y.args[0] for x, y in zip(vc.args, pc.args)):
            return None
        vals = [x.args[1] for x in vc.args]
    for x, val in zip(pc.args, vals):
        parts2 = list(parts)
        parts2[k] = x.args[1]
        n = arr_store(ip, c, mk("tup", *parts2) if idx.op == "tup" else parts2[0], val, st, node)
        if n.op != "arr":
            return n
        c = mk("arr", c.args[0], ite(x.args[0], n.args[1], c.args[1]))
    return c


def arr_store(ip, c, idx, v, st, node=None):
    r = guarded_store(ip, c, idx, v, st, node)
    if r is not None:
        return r
    if idx.op in ("ref", "arr", "box") and len(c.args[0]) > 1:
        m = cont(ip, idx, st)
        if m.op == "arr" and isbool(m.args[1]) and len(m.args[0]) == len(c.args[0]):
            v1 = store_value(ip, v, st)
            if v1 is not None and v1.op not in ("arr", "list", "dmat", "opq"):
                return mk("arr", c.args[0], ite(m.args[1], v, c.args[1]))
    plan = index_plan(ip, c, idx, st, node)
    if plan is None:
        too_many(ip, c, idx, st, node)
        return ip.unk("store index", node)
    vc = store_value(ip, v, st)
    if vc is not None and vc.op == "dmat":
        vc = dmat2arr(vc)
    shape = c.args[0]
    fans = [p for p in plan if p[0] == "fancy"]
    masks = [p for p in plan if p[0] == "mask"]
    A = axs(shape)
    if masks:
        if len(plan) == 1 and vc.op != "arr":
            m = masks[0][2]
            return mk("arr", shape, ite(aget(m, A), v, c.args[1]))
        return ip.unk("mask store", node)
    gates = []
    oshape, oidx = [], []      # broadcast target for the stored value
    d = 0
    fidx = None
    fshape = ()
    for p in fans:
        fshape = bshape(fshape, p[2].args[0])
        if fshape is None:
            return ip.unk("fancy store", node)
    pick = None
    for p in plan:
        if p[0] == "new":
            oshape.append(ONE)
            oidx.append(ZERO)
            continue
        a = A[d]
        if p[0] == "int":
            gates.append(eq(a, p[2]))
        elif p[0] == "slice":
            _, n, start, step, ln = p
            off = sub(a, start)
            if step is ONE:
                if start is not ZERO:
                    gates.append(bnot(lt0(off)))
                gates.append(lt(off, ln))
                oidx.append(off)
            else:
                gates += [bnot(lt0(off)), eq(imod(off, step), ZERO) if prove_nonneg(off) else eq(imod(add(off, step), step), ZERO), lt(idiv(off, step), ln)]
                oidx.append(idiv(off, step))
            oshape.append(ln)
        else:
            if len(fshape) != 1:
                return ip.unk("fancy store", node)
            fa = p[2]
            m = fshape[0]
            j = mk("ax", 0, fa.args[0][0]) if fa.args[0][0] is not ONE else None
            body = norm_fancy(fa.args[1], p[1])
            if fidx is None:
                if j is None:
                    gates.append(eq(a, body))
                    fidx = ZERO
                else:
                    b = fresh_bv(m)
                    inv = invert(ip, subst(body, {j: b}), b, a, m)
                    if inv is not None:
                        fidx = inv[0]
                        gates.append(inv[1])
                    else:
                        cond = eq(subst(body, {j: b}), a)
                        gates.append(mk("exists", *close(b, mk("range", m), cond)))
                        fidx = mk("pickix", *close(b, mk("range", m), cond))
                oshape.append(m)
                oidx.append(fidx)
            else:
                gates.append(eq(a, subst(body, {j: fidx}) if j is not None else body))
        d += 1
    g = band(*gates)
    if vc is not None and vc.op == "arr":
        vs = vc.args[0]
        # align from the right; allow size-one and flattening of size-one axes
        if len(vs) > len(oshape):
            return ip.unk("store shape", node)
        off = len(oshape) - len(vs)
        ix = [ZERO if vs[k] is ONE else oidx[off + k] for k in range(len(vs))]
        for k in range(len(vs)):
            if vs[k] is not ONE and sub(vs[k], oshape[off + k]) is not ZERO:
                return ip.unk(f"store shape {vs} {oshape}", node)
        val = aget(vc, ix)
    elif v.op == "ref":
        return ip.unk("store value " + (vc.op if vc is not None else "?"), node)
    else:
        val = v
    return mk("arr", shape, ite(g, val, c.args[1]))


def invert(ip, body, b, a, m):
    """b with body(b) == a and the condition for its existence"""
    if body is b:
        return a, band(bnot(lt0(a)), lt(a, m))
    if is_numeric(body) and _unit_affine(body, b):
        x = sub(a, sub(body, b))
        return x, band(bnot(lt0(x)), lt(x, m))
    # affine with a stride:  body = c0 + s*b
    if is_numeric(body):
        c0 = subst(body, {b: ZERO})
        s = sub(subst(body, {b: ONE}), c0)
        if not contains(s, b) and sub(body, add(c0, mul(s, b))) is ZERO:
            off = sub(a, c0)
            return idiv(off, s), band(bnot(lt0(off)), eq(imod(off, s), ZERO), lt(idiv(off, s), m))
    return None


def setitem(ip, o, i, v, st, node=None):
    if o.op == "unk":
        return
    if o.op == "ite":
        for g, x in ((o.args[0], o.args[1]), (bnot(o.args[0]), o.args[2])):
            if x is NONE:
                continue
            old = ip.content(x, st)
            s2 = st.copy()
            setitem(ip, x, i, v, s2, node)
            st.heap[("c", x)] = ite(g, s2.heap.get(("c", x), old), old)
        return

    def f(c):
        c = up(ip, c)
        if c.op == "arr":
            return arr_store(ip, c, i, v, st, node)
        if c.op == "dmat":
            return arr_store(ip, dmat2arr(c), i, v, st, node)
        if c.op == "list":
            if all(s.op == "el" and s.args[0] is TRUE for s in c.args) and i.op == "num":
                k = int(i.args[0])
                l = list(c.args)
                if -len(l) <= k < len(l):
                    l[k] = mk("el", TRUE, v)
                    return mk("list", *l)
            if i.op == "num" and int(i.args[0]) == -1 and c.args and c.args[-1].op == "el" and c.args[-1].args[0] is TRUE:
                return mk("list", *c.args[:-1], mk("el", TRUE, v))
            return ip.unk("list store", node)
        if c.op == "df":
            return df_setcol(ip, c, i, v, st)
        if c.op == "dict":
            return None
        if c.op == "opq":
            return None
        return ip.unk("store on " + c.op, node)
    c0 = ip.content(o, st)

    def kindof(c):
        c = up(ip, c)
        return c.op
    if c0.op == "ite":
        ks = set()
        stk = [c0]
        while stk:
            x = stk.pop()
            if x.op == "ite":
                stk += [x.args[1], x.args[2]]
            else:
                ks.add(kindof(x))
        k = ks.pop() if len(ks) == 1 else "mixed"
    else:
        k = kindof(c0)
    if k in ("dict", "opq"):
        if k == "opq" and i.op in ("tup", "slice") and False:
            pass
        if i.op == "slice" or (i.op == "ref") or (k == "opq" and i.op == "tup"):
            ip.setcontent(o, st, lambda c: mk("opq", mk("store", c, ip.freeze(i, st) if i.op == "ref" else i, ip.freeze(v, st))))
            return
        setdict(ip, o, i, v, st)
        return
    if k == "mixed":
        ip.setcontent(o, st, lambda c: ip.unk("mixed store", node))
        return
    ip.setcontent(o, st, f)


# ================================================================ attributes of external things
def ext_attr(ip, o, name, st):
    full = o.args[0] + "." + name
    if full in ("numpy.pi", "math.pi"):
        return mk("sym", "pi", "num", None)
    if full in ("numpy.nan", "numpy.NaN", "math.nan"):
        return mk("fconst", "nan")
    if full in ("numpy.newaxis",):
        return NONE
    if full in ("numpy.inf", "math.inf"):
        return mk("fconst", "inf")
    if full.startswith("reservoirflow"):
        pass
    return mk("ext", full)


def opaque_attr(ip, o, name, st):
    c = up(ip, mk("opq", o))
    if c.op == "arr":
        return value_attr(ip, o, name, st)
    return None


ARR_METHODS = {"reshape", "flatten", "ravel", "transpose", "sum", "cumsum", "copy", "toarray", "tocsc", "tocsr", "max", "min", "astype", "mean", "prod", "tolist", "all", "any",
               "fill", "dot", "round", "clip", "argmax", "argmin", "sort", "repeat", "todense", "tolil", "item", "squeeze", "multiply", "diagonal", "nonzero", "view", "std"}


def value_attr(ip, v, name, st, node=None):
    c = cont(ip, v, st)
    if c.op == "arr":
        if name == "shape":
            return mk("tup", *c.args[0])
        if name == "ndim":
            return num(len(c.args[0]))
        if name == "size":
            return prod(c.args[0])
        if name == "T":
            s = c.args[0]
            n = len(s)
            return ip.alloc(st, mkarr(tuple(reversed(s)), lambda a: aget(c, list(reversed(a)))))
        if name == "dtype":
            return mk("dtype", v)
        if name == "values":
            return v
    if c.op in ("list", "ite") and name in ("shape", "ndim"):
        l = flat_list(c)
        if l is not None and l.args:
            es = [e.args[1] if e.op == "el" else e.args[3] for e in l.args]
            if all(is_numeric_deep(e) and e.op != "tup" for e in es):
                return mk("tup", mk("lcount", l)) if name == "shape" else ONE
            if all(e.op == "tup" and len(e.args) == len(es[0].args) for e in es):
                return mk("tup", mk("lcount", l), num(len(es[0].args))) if name == "shape" else num(2)
    if c.op == "dmat" and name == "shape":
        return mk("tup", c.args[0], c.args[0])
    if c.op == "df":
        if name == "values":
            return mk("dfvalues", c)
        if name == "columns":
            return mk("dfcolumns", c)
    if v.op == "pvgrid":
        if name == "volume":
            return mk("ucall", "pvvolume", v)
        return mk("meth", v, name)
    if v.op == "Eq":
        if name == "lhs":
            return v.args[0]
        if name == "rhs":
            return v.args[1]
    if v.op == "fn" and name in ("__name__",):
        return string(ip.funcs[v][0].name)
    if v.op == "cls" and name == "__name__":
        return string(v.args[0].split(".")[-1])
    if v.op == "unk":
        return None
    return mk("meth", v, name)


# ================================================================ calls
def dispatch(table, key):
    return table.get(key)


CALLS = {}
METHODS = {}


def ext(*names):
    def d(f):
        for n in names:
            CALLS[n] = f
        return f
    return d


def meth(*names):
    def d(f):
        for n in names:
            METHODS[n] = f
        return f
    return d


def argn(args, kw, i, name, default=None):
    if len(args) > i:
        return args[i]
    return kw.get(name, default)


EFFECTS = ("print", "warnings.warn")


def call_ext(ip, dotted, args, kw, st, node):
    for a in args:
        if a.op == "star":
            return ip.unk("star args to " + dotted, node)
    out = kw.get("out")
    if out is not None and dotted.startswith("numpy.") and out is not NONE:
        # the result lands in an array that is there already
        r = call_ext(ip, dotted, args, {k: v for k, v in kw.items() if k != "out"}, st, node)
        if out.op != "ref":
            return ip.unk("out=", node)
        new = ip.content(r, st) if r.op == "ref" else r
        old = ip.content(out, st)
        same = old.op == new.op == "arr" and len(old.args[0]) == len(new.args[0])
        ip.setcontent(out, st, lambda _: new if same else ip.unk("out="))
        return out
    ip.extcalls.append((dotted, ip.where(node)))
    f = CALLS.get(dotted)
    if f is not None:
        r = f(ip, args, kw, st, node)
        return NONE if r is None else r
    short = dotted.split(".")[-1]
    if dotted.startswith("builtins.") and (short.endswith("Error") or short.endswith("Exception") or short.endswith("Warning")):
        return mk("exc", short, mk("tup", *args))
    for a in args:
        if a.unk:
            return ip.unk("call " + dotted, node)
    ip.event(st, "extcall", dotted, tuple(args), node=node)
    return mk("ucall", dotted, *[ip.freeze(a, st) for a in args], *[mk("kw", k, ip.freeze(v, st)) for k, v in sorted(kw.items()) if isinstance(v, T)])


@ext("builtins.print")
def _print(ip, args, kw, st, node):
    ip.event(st, "print", tuple(args), node=node)
    return NONE


@ext("warnings.warn")
def _warn(ip, args, kw, st, node):
    ip.event(st, "warn", tuple(args), node=node)
    return NONE


@ext("builtins.len")
def _len(ip, args, kw, st, node):
    return length(ip, args[0], st, node)


def length(ip, v, st, node=None):
    if v.op == "ite":
        return ite(v.args[0], length(ip, v.args[1], st), length(ip, v.args[2], st))
    vs = explicit(ip, v, st)
    if vs is not None:
        return num(len(vs))
    c = cont(ip, v, st)
    if c.op == "ite":
        return ite(c.args[0], length(ip, ip.alloc(st, c.args[1]), st), length(ip, ip.alloc(st, c.args[2]), st))
    if c.op == "arr":
        return c.args[0][0]
    if v.op == "range":
        return v.args[0]
    if v.op in ("keysv", "valuesv", "items"):
        c2 = cont(ip, v.args[0], st)
        if c2.op == "coeffs":
            return mk("len", c2)
        v = v.args[0]
        c = c2
    if c.op in ("list", "set"):
        n = ZERO
        for s in c.args:
            if s.op == "el":
                n = add(n, ite(s.args[0], ONE, ZERO))
            elif s.op == "mseg" and s.args[1].op == "range":
                n = add(n, bigsum(s.args[0], s.args[1], s.args[2], ONE))
            else:
                return mk("len", c)
        return n
    if c.op == "opq":
        return mk("len", c.args[0])
    if c.op in ("dict", "nbrs", "bnds", "coeffs"):
        return mk("len", c)
    return ip.unk("len of " + c.op, node)


@ext("builtins.range")
def _range(ip, args, kw, st, node):
    if len(args) == 1:
        return make_range(ip, ZERO, args[0], ONE, st)
    if len(args) == 2:
        return make_range(ip, args[0], args[1], ONE, st)
    return make_range(ip, args[0], args[1], args[2], st)


def make_range(ip, start, stop, step, st):
    if any(x.unk or not is_numeric_deep(x) for x in (start, stop, step)):
        return ip.unk("range")
    n = sub(stop, start)
    if step is ONE:
        pass
    elif step.op == "num" and step.args[0] == -1:
        n = neg(n)
    elif prove_pos(step):
        n = idiv(add(n, sub(step, ONE)), step)
    else:
        return ip.unk("range step")
    if not prove_nonneg(n):
        if n.op == "num":
            n = ZERO
    return mk("range", n, start, step)


@ext("builtins.isinstance")
def _isinstance(ip, args, kw, st, node):
    v, t = args
    ts = list(t.args) if t.op == "tup" else [t]
    names = []
    for x in ts:
        if x.op == "ext":
            names.append(x.args[0].split(".")[-1])
        elif x.op == "cls":
            names.append(ip.src.classes[x.args[0]].name)
        else:
            return mk("ucall", "isinstance", v, t)
    m = {"integer": "int", "floating": "float", "number": "float"}
    names = [m.get(n, n) for n in names]
    return ip.isinstance_(v, names, st)


@ext("builtins.hasattr")
def _hasattr(ip, args, kw, st, node):
    o, n = args
    if n.op != "str":
        return ip.unk("hasattr", node)
    nm = ip.mname(n.args[0]) if False else n.args[0]
    if ("a", o, nm) in st.heap:
        v = st.heap[("a", o, nm)]
        if v is UNDEF_():
            return FALSE
        if v.op == "ite":
            def h(x):
                if x.op == "ite":
                    return ite(x.args[0], h(x.args[1]), h(x.args[2]))
                return FALSE if x.op == "undef" else TRUE
            return h(v)
        return TRUE
    c = ip.clsof(o)
    if c is not None and ip.src.find_attr(c, nm) is not None:
        return TRUE
    if o.op == "obj" and ("fresh", o) in st.heap:
        return FALSE
    return mk("hasattr", o, nm)


def UNDEF_():
    return mk("undef")


@ext("builtins.getattr")
def _getattr(ip, args, kw, st, node):
    if args[1].op != "str":
        return ip.unk("getattr", node)
    if len(args) > 2:
        h = _hasattr(ip, args[:2], {}, st, node)
        if h is FALSE:
            return args[2]
        v = ip.getattr(args[0], args[1].args[0], st, node)
        return ite(h, v, args[2])
    return ip.getattr(args[0], args[1].args[0], st, node)


@ext("builtins.setattr")
def _setattr(ip, args, kw, st, node):
    if args[1].op != "str":
        ip.unk("setattr", node)
        return NONE
    ip.setattr(args[0], args[1].args[0], args[2], st)
    return NONE


@ext("builtins.vars")
def _vars(ip, args, kw, st, node):
    o = args[0]
    if o.op == "obj" and ("fresh", o) in st.heap:
        ip.event(st, "vars", o, node=node)
        return ip.newdict(st, [(string(k[2]), v) for k, v in st.heap.items() if k[0] == "a" and k[1] is o and v.op != "undef"])
    ip.event(st, "vars", o, node=node)
    return mk("vars", o)


@ext("builtins.list")
def _list(ip, args, kw, st, node):
    if not args:
        return ip.newlist(st, [])
    return tolist(ip, args[0], st, "list", node)


@ext("builtins.set", "builtins.frozenset")
def _set(ip, args, kw, st, node):
    if not args:
        return ip.newset(st, [])
    return tolist(ip, args[0], st, "set", node)


def guard_seg(c, e):
    if e.op == "el":
        return mk("el", band(c, e.args[0]), e.args[1])
    bv, dom, g, v = e.args
    if c.bvh > bv.args[0]:
        nb = fresh_bv(bv.args[1] if len(bv.args) > 1 else None)
        return mk("mseg", *close(nb, dom, band(c, subst(g, {bv: nb})), subst(v, {bv: nb})))
    return mk("mseg", bv, dom, band(c, g), v)


def guard_ent(c, e):
    """a dictionary entry present only under c"""
    if e.op == "de":
        return mk("de", band(c, e.args[0]), e.args[1], e.args[2])
    bv, dom, g, k, v = e.args
    nb = fresh_bv(bv.args[1] if len(bv.args) > 1 else None)
    m = {bv: nb}
    return mk("dm", *close(nb, dom, band(c, subst(g, m)), subst(k, m), subst(v, m)))


def flat_list(c):
    """a list content without gates at the top: gates become guards of the elements"""
    if c.op == "ite":
        a, b = flat_list(c.args[1]), flat_list(c.args[2])
        if a is None or b is None or a.op != b.op:
            return None
        return mk(a.op, *[guard_seg(c.args[0], e) for e in a.args], *[guard_seg(bnot(c.args[0]), e) for e in b.args])
    if c.op in ("list", "set") and all(e.op in ("el", "mseg") for e in c.args):
        return c
    return None


def tolist(ip, v, st, kind, node=None):
    if v.op == "ite":
        return ite(v.args[0], tolist(ip, v.args[1], st, kind, node), tolist(ip, v.args[2], st, kind, node))
    c = cont(ip, v, st)
    if c.op == "opq" and kind == "list":
        return ip.alloc(st, mk("list", mk("base", c.args[0])))
    l = flat_list(c) if c.op == "ite" else aslist(ip, v, st)
    if l is None:
        return ip.unk("to list " + c.op, node)
    return ip.alloc(st, mk(kind, *l.args))


@ext("builtins.tuple")
def _tuple(ip, args, kw, st, node):
    if not args:
        return mk("tup")
    v = args[0]
    if v.op == "ite":
        return ite(v.args[0], _tuple(ip, [v.args[1]], kw, st, node), _tuple(ip, [v.args[2]], kw, st, node))
    vs = explicit(ip, v, st)
    if vs is not None:
        return mk("tup", *vs)
    return tolist(ip, v, st, "list", node)


@ext("builtins.dict")
def _dict(ip, args, kw, st, node):
    r = ip.newdict(st, [(string(k), v) for k, v in kw.items() if k != "**"])
    if "**" in kw:
        return ip.unk("dict", node)
    if args:
        v = args[0]
        c = cont(ip, v, st)
        if c.op == "dict":
            st.heap[("c", r)] = mk("dict", *c.args, *ip.content(r, st).args[1:])
            return r
        if c.op == "opq":
            st.heap[("c", r)] = mk("dict", c)
            return r
        seq = sequence(ip, v, st)
        if seq is None or seq == "ite":
            return ip.unk("dict()", node)
        ents = []
        for s in seq:
            if s[0] == "el":
                k, x = unpack(ip, s[2], 2, st)
                ents.append(mk("de", s[1], k, x))
            else:
                k, x = unpack(ip, s[4], 2, st)
                ents.append(mk("dm", *close(s[1], s[2], s[3], k, x)))
        st.heap[("c", r)] = mk("dict", NONE, *ents)
    return r


@ext("collections.defaultdict")
def _defaultdict(ip, args, kw, st, node):
    return ip.alloc(st, mk("dict", mk("dd", args[0]))) if args else ip.newdict(st, [])


@ext("builtins.zip")
def _zip(ip, args, kw, st, node):
    return mk("zip", *args)


@ext("builtins.enumerate")
def _enum(ip, args, kw, st, node):
    return mk("enum", args[0], args[1] if len(args) > 1 else ZERO)


@ext("builtins.map")
def _map(ip, args, kw, st, node):
    if len(args) != 2:
        return ip.unk("map", node)
    vs = explicit(ip, args[1], st)
    if vs is not None:
        return ip.newlist(st, [ip.apply(args[0], [v], {}, st, node) for v in vs])
    return map_seq(ip, args[0], args[1], st, node)


def map_seq(ip, f, it, st, node):
    r = ip.newlist(st, [])
    import ast as _a
    t = _a.Name(id="$map", ctx=_a.Store())
    from .interp import _CompBody
    gens = [type("G", (), {})()]
    gens[0].ifs, gens[0].target = [], t
    body = [_CompBody([], gens, 0, lambda s: list_append(ip, r, ip.apply(f, [ip.getvar(s, "$map")], {}, s, node), s))]
    ip.loop(t, it, body, st, node)
    return r


# ---- thread pools: the work is done when its results are used, at the latest when the pool is left
@ext("concurrent.futures.ThreadPoolExecutor", "concurrent.futures.thread.ThreadPoolExecutor")
def _pool(ip, args, kw, st, node):
    n = argn(args, kw, 0, "max_workers", NONE)
    ip.event(st, "pool", n, node=node)
    if n is not NONE:
        c = ip.decide(lt(n, ONE), st)
        if c is TRUE:
            ip.raise_(st, "ValueError", "max_workers must be greater than 0", node)
            from .interp import Diverge
            raise Diverge()
        if c is not FALSE:
            s2 = st.copy()
            s2.pc = st.pc + (c,)
            ip.raise_(s2, "ValueError", "max_workers must be greater than 0", node)
            st.pc = st.pc + (bnot(c),)
    return ip.alloc(st, mk("pool"))


@ext("concurrent.futures.as_completed")
def _completed(ip, args, kw, st, node):
    # whatever the order, every job appears once; users of the order are not told apart
    return args[0]


@ext("concurrent.futures.wait")
def _wait(ip, args, kw, st, node):
    return mk("tup", args[0], ip.newlist(st, []))


def pool_method(ip, o, c, name, args, kw, st, node):
    if name == "submit" and args:
        return future(ip, args, kw, st, node)
    if name == "map" and args:
        if kw or len(args) < 2:
            return ip.unk("pool " + name, node)
        t = ip.alloc(st, mk("lazy", *args))
        ip.setcontent(o, st, lambda c: mk("pool", *c.args, t))
        return t
    if name == "shutdown":
        if kw.get("wait", args[0] if args else TRUE) is TRUE:
            pool_join(ip, o, st, node)
        return NONE
    if name == "__enter__":
        return o
    if name == "__exit__":
        pool_join(ip, o, st, node)
        return NONE
    return ip.unk("pool method " + name, node)


def force(ip, v, st, node=None):
    """do the work of a pool that was asked for"""
    c = st.heap.get(("c", v))
    if c is None or c.op != "lazy":
        return
    f, seqs = c.args[0], c.args[1:]
    ip.workers.append((f, seqs, st.copy()))
    fails = getattr(ip, "worker_fails", None)
    if fails is not None:
        # a worker of this pool may fail
        g = fails(f)
        s2 = st.copy()
        s2.pc = (*st.pc, g)
        ip.raise_(s2, "WorkerError", "", node)
        st.pc = (*st.pc, bnot(g))
    if len(seqs) == 1:
        r = _map(ip, [f, seqs[0]], {}, st, node)
    else:
        it = mk("zip", *seqs)
        vs = explicit(ip, it, st)
        if vs is not None:
            r = ip.newlist(st, [ip.apply(f, list(x.args), {}, st, node) for x in vs])
        else:
            r = ip.newlist(st, [])
            from .interp import _CompBody
            g = type("G", (), {})()
            g.ifs, g.target = [], ast.Tuple(elts=[ast.Name(id=f"$map{i}", ctx=ast.Store()) for i in range(len(seqs))], ctx=ast.Store())
            ip.loop(g.target, it, [_CompBody([], [g], 0, lambda s: list_append(ip, r, ip.apply(f, [ip.getvar(s, f"$map{i}") for i in range(len(seqs))], {}, s, node), s))], st, node)
    st.heap["c", v] = ip.content(r, st)


def future(ip, args, kw, st, node):
    """one job: done when handed over, its failure shows when the result is asked for"""
    from .interp import Diverge
    ip.workers.append((args[0], None, st.copy()))
    fails = getattr(ip, "worker_fails", None)
    bad = [fails(args[0])] if fails is not None else []
    sink = ip.frames[-1].exits if ip.frames else ip.raises
    n, before = len(sink), st.copy()
    try:
        v = ip.apply(args[0], list(args[1:]), kw, st, node)
    except Diverge:
        st.become(before)
        v = NONE
    st.pc = before.pc
    for e in sink[n:]:
        if e.kind == "raise":
            g = [c for c in (e.guard.args if e.guard.op == "and" else (e.guard,)) if c not in before.pc]
            bad.append(band(*g))
    sink[n:] = [e for e in sink[n:] if e.kind != "raise"]
    return mk("future", v, bor(*bad) if bad else FALSE)


def future_result(ip, o, st, node):
    v, bad = o.args
    bad = ip.decide(bad, st) if bad is not FALSE else bad
    if bad is not FALSE:
        s2 = st.copy()
        s2.pc = (*st.pc, bad)
        ip.raise_(s2, "WorkerError", "", node)
        if bad is TRUE:
            from .interp import Diverge
            raise Diverge()
        st.pc = (*st.pc, bnot(bad))
    return v


def pool_join(ip, o, st, node=None):
    """wait for the work nobody asked the result of: its failures are lost"""
    from .interp import Diverge
    c = ip.content(o, st)
    for t in c.args if c.op == "pool" else ():
        k = st.heap.get(("c", t))
        if k is None or k.op != "lazy":
            continue
        sink = ip.frames[-1].exits if ip.frames else ip.raises
        n, before = len(sink), st.copy()
        try:
            force(ip, t, st, node)
        except Diverge:
            st.become(before)
        st.pc = before.pc
        lost = [e for e in sink[n:] if e.kind == "raise"]
        if lost:
            ip.event(st, "lost failure", bor(*[e.guard for e in lost]), node=node)
            sink[n:] = [e for e in sink[n:] if e.kind != "raise"]


@ext("builtins.all", "numpy.all", "numpy.any", "builtins.any")
def _all(ip, args, kw, st, node):
    return ip.unk("all", node)


def quant(isall):
    def f(ip, args, kw, st, node):
        v = args[0]
        if isbool(v):
            return v
        vs = explicit(ip, v, st)
        if vs is not None and all(isbool(ip.truth(x, st)) for x in vs):
            ts = [ip.truth(x, st) for x in vs]
            return band(*ts) if isall else bor(*ts)
        a = cont(ip, v, st)
        if a.op == "arr":
            b = a.args[1]
            bvs = []
            for i, s in enumerate(a.args[0]):
                if s is not ONE:
                    x = fresh_bv(s)
                    bvs.append((x, s))
                    b = subst(b, {mk("ax", i, s): x})
            for x, s in reversed(bvs):
                if b.unk:
                    return ip.unk("all", node)
                b = forall(x, mk("range", s), b) if isall else ip.exists(x, mk("range", s), b)
            return b
        seq = sequence(ip, v, st)
        if seq not in (None, "ite"):
            r = TRUE if isall else FALSE
            for s in seq:
                if s[0] == "el":
                    t = ip.truth(s[2], st)
                    r = band(r, bor(bnot(s[1]), t)) if isall else bor(r, band(s[1], t))
                else:
                    t = ip.truth(s[4], st)
                    q = bnot(ip.exists(s[1], s[2], band(s[3], bnot(t)))) if isall else ip.exists(s[1], s[2], band(s[3], t))
                    r = band(r, q) if isall else bor(r, q)
            return r
        if v.unk or a.unk:
            return ip.unk("all", node)
        return mk("ucall", "all" if isall else "any", v)
    return f


CALLS["builtins.all"] = CALLS["numpy.all"] = quant(True)
CALLS["builtins.any"] = CALLS["numpy.any"] = quant(False)


def forall(bv, dom, b):
    if b is TRUE or b is FALSE:
        return b
    if not contains(b, bv):
        return b
    return bnot(mk("exists", *close(bv, dom, bnot(b))))


@ext("builtins.sum")
def _sum(ip, args, kw, st, node):
    v = args[0]
    start = args[1] if len(args) > 1 else kw.get("start", ZERO)
    if start.op == "ref":
        # sum of lists
        vs = explicit(ip, v, st)
        if vs is None and v.op == "valuesv":
            s = sequence(ip, v, st)
            if s not in (None, "ite") and all(x[0] == "el" and x[1] is TRUE for x in s):
                vs = [x[2] for x in s]
        if vs is None:
            return ip.unk("sum of lists", node)
        r = start
        for x in vs:
            r = binop(ip, "Add", r, x, st, node)
        return r
    if v.op == "ite":
        return ite(v.args[0], _sum(ip, [v.args[1]], kw, st, node), _sum(ip, [v.args[2]], kw, st, node))
    c = cont(ip, v, st)
    if c.op == "ite":
        return ite(c.args[0], _sum(ip, [ip.alloc(st, c.args[1])], kw, st, node), _sum(ip, [ip.alloc(st, c.args[2])], kw, st, node))
    seq = sequence(ip, v, st)
    if seq is None or seq == "ite":
        return ip.unk("sum", node)
    r = start
    for s in seq:
        if s[0] == "el":
            r = binop(ip, "Add", r, s[2] if s[1] is TRUE else ite(s[1], s[2], ZERO), st, node)
        else:
            if s[4].op == "ref" or not is_numeric_deep(s[4]):
                return ip.unk("sum elements", node)
            x = s[4]
            if isbool(x):
                x = ite(x, ONE, ZERO)
            r = add(r, bigsum(s[1], s[2], s[3], x))
    return r


def minmax(ismax):
    def pick(ip, vs):
        r = vs[0]
        for v in vs[1:]:
            d = sub(v, r) if ismax else sub(r, v)
            if prove_nonneg(d):
                r = v
            elif prove_nonneg(neg(d)):
                pass
            else:
                r = ite(lt(r, v) if ismax else lt(v, r), v, r)
        return r

    def f(ip, args, kw, st, node):
        vs = list(args) if len(args) > 1 else explicit(ip, args[0], st)
        if vs and all(is_numeric_deep(v) and not v.unk for v in vs):
            return pick(ip, vs)
        if len(args) == 1:
            c = cont(ip, args[0], st)
            ax = kw.get("axis", NONE)
            return ip.unk("max", node) if c.unk else mk("ucall", "max" if ismax else "min", c, ax)
        return ip.unk("max", node)
    return f


CALLS["builtins.max"] = minmax(True)
CALLS["builtins.min"] = minmax(False)


def npminmax(ismax):
    nm = "max" if ismax else "min"

    def f(ip, args, kw, st, node):
        v = args[0]
        ax = argn(args, kw, 1, "axis", NONE)
        if v.op == "ite":
            return ite(v.args[0], f(ip, [v.args[1]] + list(args[1:]), kw, st, node), f(ip, [v.args[2]] + list(args[1:]), kw, st, node))
        if v.op == "tup":
            return CALLS["builtins." + nm](ip, [v], {}, st, node)
        c = cont(ip, v, st)
        keep = kw.get("keepdims", FALSE)
        if c.unk:
            return ip.unk(nm, node)
        if c.op == "arr" and (ax is NONE or ax.op == "num"):
            op = "Max" if ismax else "Min"
            sh = c.args[0]
            k = None if ax is NONE else int(ax.args[0]) % len(sh) if -len(sh) <= ax.args[0] < len(sh) else "bad"
            if k == "bad":
                return ip.unk("axis", node)

            def red(i, ix):
                """fold the reduced axes; ix holds the index of every other axis"""
                if i == len(sh):
                    return aget(c, ix)
                if k is not None and i != k:
                    return red(i + 1, ix)
                b = fresh_bv(sh[i])
                ix = list(ix)
                ix[i] = b if sh[i] is not ONE else ZERO
                body = red(i + 1, ix)
                return body if sh[i] is ONE else mk(op, *close(b, mk("range", sh[i]), body))
            keepb = keep is TRUE
            if k is None:
                v = red(0, [None] * len(sh))
                return v if not keepb else mkarr((ONE,) * len(sh), lambda a: v)
            osh = tuple(ONE if i == k else s for i, s in enumerate(sh)) if keepb else tuple(s for i, s in enumerate(sh) if i != k)
            if not osh:
                return red(0, [None])

            def at(a):
                ix = list(a)
                if not keepb:
                    ix.insert(k, None)
                return red(0, ix)
            return ip.alloc(st, mkarr(osh, at))
        return mk("np" + nm, ip.freeze(c, st), ax, keep)
    return f


for _n in ("max", "amax"):
    CALLS["numpy." + _n] = npminmax(True)
for _n in ("min", "amin"):
    CALLS["numpy." + _n] = npminmax(False)


def argext(ismax):
    def f(ip, args, kw, st, node):
        v = args[0]
        vs = explicit(ip, v, st)
        if vs is None:
            return ip.unk("argmax", node)
        best, bi = vs[0], num(0)
        for i, x in enumerate(vs[1:], 1):
            d = sub(x, best) if ismax else sub(best, x)
            if prove_pos(d):
                best, bi = x, num(i)
            elif prove_nonneg(neg(d)):
                pass
            else:
                c = lt(best, x) if ismax else lt(x, best)
                best, bi = ite(c, x, best), ite(c, num(i), bi)
        return bi
    return f


CALLS["numpy.argmax"] = argext(True)
CALLS["numpy.argmin"] = argext(False)


@ext("builtins.abs", "numpy.abs", "numpy.absolute", "math.fabs")
def _abs(ip, args, kw, st, node):
    def f(x):
        if x.op == "num":
            return mk("num", abs(x.args[0]))
        if x.op == "ite":
            return ite(x.args[0], f(x.args[1]), f(x.args[2]))
        if x.unk:
            return ip.unk("abs", node)
        if prove_nonneg(x):
            return x
        n, d = rat(x)
        lead = sorted(n.items(), key=lambda mc: mono_key(mc[0]))[-1][1]
        return mk("abs", neg(x) if lead < 0 else x)
    return elementwise1(ip, f, args[0], st)


@ext("builtins.round")
def _round(ip, args, kw, st, node):
    return ip.unk("round", node) if args[0].unk else mk("round", *args)


@ext("builtins.int")
def _int(ip, args, kw, st, node):
    v = args[0]
    if v.isint:
        return v
    if v.op == "num":
        return num(int(v.args[0]))
    if v.op in ("symsuffix",):
        return v.args[0]
    if v.op == "bool":
        return ONE if v.args[0] else ZERO
    if isbool(v):
        return ite(v, ONE, ZERO)
    if v.op == "ite":
        return ite(v.args[0], _int(ip, [v.args[1]], kw, st, node), _int(ip, [v.args[2]], kw, st, node))
    if v.op == "bv":
        return v
    return ip.unk("int", node) if v.unk else mk("toint", v)


@ext("builtins.float", "numpy.float64", "numpy.double")
def _float(ip, args, kw, st, node):
    return args[0] if args else ZERO


@ext("builtins.bool")
def _bool(ip, args, kw, st, node):
    return ip.truth(args[0], st) if args else FALSE


@ext("builtins.str", "builtins.repr")
def _str(ip, args, kw, st, node):
    v = args[0]
    if v.op in ("str", "fmt"):
        return v
    if v.op == "num" and v.args[0].denominator == 1:
        return string(str(v.args[0]))
    if v.op in ("none", "bool"):
        return string(str(v.args[0]) if v.op == "bool" else "None")
    if v.op == "obj":
        c = ip.clsof(v)
        m = ip.src.find_method(c, "__str__") if c else None
        if m is not None:
            return ip.call_func(m, [v], {}, st, node, selfv=v, cls=c)
    return mk("strv", v)


@ext("builtins.type")
def _type(ip, args, kw, st, node):
    c = ip.clsof(args[0])
    if c is not None and args[0].op == "obj":
        return mk("cls", c.qual)
    ts = ip.pytypes(args[0], st)
    if ts and len(ts) == 1 and "?" not in ts:
        t = next(iter(ts))
        return mk("ext", {"ndarray": "numpy.ndarray"}.get(t, "builtins." + t))
    return mk("ucall", "type", args[0])


@ext("builtins.id")
def _id(ip, args, kw, st, node):
    return mk("ucall", "id", args[0])


@ext("builtins.callable")
def _callable(ip, args, kw, st, node):
    return boolc(args[0].op in ("fn", "bm", "cls", "partial")) if args[0].op in ("fn", "bm", "cls", "num", "str", "none", "partial", "tup") else mk("ucall", "callable", args[0])


@ext("builtins.sorted")
def _sorted(ip, args, kw, st, node):
    vs = explicit(ip, args[0], st)
    if vs is not None and not kw and all(v.op in ("num", "str") for v in vs):
        return ip.newlist(st, sorted(vs, key=lambda t: t.args[0]))
    c = cont(ip, args[0], st)
    if c.unk or kw:
        return ip.unk("sorted", node)
    if args[0].op in ("keysv", "valuesv"):
        c = mk(args[0].op, c)
    return ip.alloc(st, mk("list", mk("base", mk("sorted", c))))


@ext("builtins.reversed")
def _reversed(ip, args, kw, st, node):
    vs = explicit(ip, args[0], st)
    if vs is not None:
        return ip.newlist(st, vs[::-1])
    return ip.unk("reversed", node)


@ext("builtins.super")
def _super(ip, args, kw, st, node):
    return ip.unk("super", node)


@ext("builtins.next", "builtins.iter")
def _next(ip, args, kw, st, node):
    return ip.unk("next", node)


@ext("builtins.eval")
def _eval(ip, args, kw, st, node):
    s = args[0]
    if s.op in ("fmt", "str"):
        parts = s.args if s.op == "fmt" else (s,)
        text, holes = "", []
        for p in parts:
            if p.op == "str":
                text += p.args[0]
            else:
                holes.append(p)
                text += f"HOLE{len(holes) - 1}Z"
        try:
            e = ast.parse(text, mode="eval").body
        except SyntaxError:
            return ip.unk("eval", node)
        if isinstance(e, ast.Call) and len(e.args) == 1 and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str) and ast.unparse(e.func).split(".")[-1] == "Symbol":
            return symbol_of(ip, e.args[0].value, holes, node)
    return ip.unk("eval", node)


def symbol_of(ip, text, holes, node):
    import re
    m = re.fullmatch(r"p(?:HOLE(\d+)Z|(\d+))", text)
    if not m:
        return ip.unk("symbol " + text, node)
    return mk("symbol", holes[int(m.group(1))] if m.group(1) else num(int(m.group(2))))


@ext("sympy.Symbol", "sympy.symbols")
def _Symbol(ip, args, kw, st, node):
    s = args[0]
    parts = s.args if s.op == "fmt" else (s,)
    text, holes = "", []
    for p in parts:
        if p.op == "str":
            text += p.args[0]
        else:
            holes.append(p.args[0] if p.op == "strv" else p)
            text += f"HOLE{len(holes) - 1}Z"
    return symbol_of(ip, text, holes, node)


@ext("sympy.expand", "sympy.simplify", "sympy.collect", "sympy.factor", "sympy.expand_mul", "sympy.sympify", "sympy.S")
def _same_expression(ip, args, kw, st, node):
    """rewriting an expression keeps its value; the terms here are normal forms already"""
    if not args or not is_numeric_deep(args[0]):
        return ip.unk("sympy rewriting", node)
    return args[0]


@ext("sympy.Eq")
def _Eq(ip, args, kw, st, node):
    if args[0].unk or args[1].unk:
        return ip.unk("Eq", node)
    ip.event(st, "Eq", args[0], args[1], node=node)
    return mk("Eq", args[0], args[1])


# ---------------------------------------------------------------- numpy construction
def shape_of(ip, v, st):
    if v.op in ("tup",):
        return tuple(v.args)
    if v.op == "ref":
        vs = explicit(ip, v, st)
        return tuple(vs) if vs is not None else None
    if v.op == "ite":
        l, r = shape_of(ip, v.args[1], st), shape_of(ip, v.args[2], st)
        if l is None or r is None or len(l) != len(r):
            return None
        return tuple(ite(v.args[0], x, y) for x, y in zip(l, r))
    if is_numeric(v) or v.isint:
        return (v,)
    return None


def filler(val):
    def f(ip, args, kw, st, node):
        s = shape_of(ip, args[0] if args else kw.get("shape"), st)
        if s is None or any(x.unk for x in s):
            return ip.unk("array shape", node)
        v = val if val is not None else argn(args, kw, 1, "fill_value", ZERO)
        return ip.alloc(st, mkarr(s, lambda a: v))
    return f


CALLS["numpy.ones"] = filler(ONE)
CALLS["numpy.zeros"] = filler(ZERO)
CALLS["numpy.full"] = filler(None)


@ext("numpy.empty")
def _empty(ip, args, kw, st, node):
    s = shape_of(ip, args[0], st)
    if s is None:
        return ip.unk("empty", node)
    t = ip.unk("uninitialised")
    return ip.alloc(st, mkarr(s, lambda a: t))


def filler_like(val):
    def f(ip, args, kw, st, node):
        c = toarr(ip, args[0], st)
        if c is None:
            return val if is_numeric(args[0]) and args[0].op != "ref" and args[0].op not in ("attr",) else ip.unk("like", node)
        v = val if val is not None else argn(args, kw, 1, "fill_value", ZERO)
        return ip.alloc(st, mkarr(c.args[0], lambda a: v))
    return f


CALLS["numpy.ones_like"] = filler_like(ONE)
CALLS["numpy.zeros_like"] = filler_like(ZERO)
CALLS["numpy.full_like"] = filler_like(None)


@ext("numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.ascontiguousarray", "numpy.copy")
def _array(ip, args, kw, st, node):
    v = args[0]
    c = toarr(ip, v, st)
    if c is None:
        cc = cont(ip, v, st)
        if cc.op == "dmat":
            return ip.alloc(st, dmat2arr(cc))
        if cc.op == "ite" and flat_list(cc) is not None:
            cc = flat_list(cc)
        if cc.op == "list" or cc.unk:
            # keep ragged / guarded lists as lists (used as 1-D collections)
            return ip.alloc(st, cc) if cc.op == "list" else ip.unk("array", node)
        if cc.op == "opq":
            return ip.alloc(st, cc)
        return v
    if node is not None and v.op == "ref" and ip.extcalls and ip.extcalls[-1][0] in ("numpy.asarray",) and cont(ip, v, st).op == "arr":
        return v
    return ip.alloc(st, c)


@ext("numpy.arange")
def _arange(ip, args, kw, st, node):
    a = list(args)
    if len(a) == 1:
        start, stop, step = ZERO, a[0], ONE
    elif len(a) == 2:
        start, stop, step = a[0], a[1], ONE
    else:
        start, stop, step = a[:3]
    if "step" in kw:
        step = kw["step"]
    if any(x.unk or not is_numeric_deep(x) for x in (start, stop, step)):
        return ip.unk("arange", node)
    span = sub(stop, start)
    if step.isint and span.isint:
        n = span if step is ONE else idiv(add(span, sub(step, ONE)), step)
    else:
        q = divide(span, step)
        # length = ceil(span/step): exact only when the step is exactly representable
        ip.event(st, "float-arange", start, stop, step, q, node=node)
        n = q if q.isint else mk("ucall", "ceil", q)
    return ip.alloc(st, mkarr((n,), lambda x: add(start, mul(step, x[0]))))


@ext("numpy.linspace")
def _linspace(ip, args, kw, st, node):
    n = argn(args, kw, 2, "num", num(50))
    a, b = args[0], args[1]
    if a.unk or b.unk or n.unk or "endpoint" in kw:
        return ip.unk("linspace", node)
    return ip.alloc(st, mkarr((n,), lambda x: add(a, divide(mul(sub(b, a), x[0]), sub(n, ONE)))))


@ext("numpy.meshgrid")
def _meshgrid(ip, args, kw, st, node):
    idx = kw.get("indexing", string("xy"))
    vs = []
    for v in args:
        c = toarr(ip, v, st) if v.op in ("ref", "tup") or v in ip.shapes or cont(ip, v, st).op == "arr" else None
        if c is None and v.op == "ref":
            return ip.unk("meshgrid", node)
        if c is None:
            c = mkarr((ONE,), lambda a, v=v: v)
        vs.append(c)
    n = len(vs)
    order = list(range(n))
    if idx.args[0] == "xy" and n >= 2:
        order[0], order[1] = 1, 0
    shape = tuple(vs[o].args[0][0] for o in order)
    out = []
    for k in range(n):
        p = order.index(k)
        out.append(ip.alloc(st, mkarr(shape, lambda a, k=k, p=p: aget(vs[k], [a[p]]))))
    return ip.newlist(st, out)


@ext("numpy.transpose")
def _transpose(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    ax = argn(args, kw, 1, "axes", NONE)
    return transpose(ip, c, ax, st, node)


def transpose(ip, c, ax, st, node):
    if c is None:
        return ip.unk("transpose", node)
    n = len(c.args[0])
    if ax is NONE:
        perm = list(range(n))[::-1]
    else:
        vs = explicit(ip, ax, st)
        if vs is None or any(x.op != "num" for x in vs):
            return ip.unk("transpose axes", node)
        perm = [int(x.args[0]) % n for x in vs]
    shape = tuple(c.args[0][p] for p in perm)

    def f(a):
        src = [None] * n
        for i, p in enumerate(perm):
            src[p] = a[i]
        return aget(c, src)
    return ip.alloc(st, mkarr(shape, f))


def flat_index(shape, idx):
    r = ZERO
    for s, i in zip(shape, idx):
        r = add(mul(r, s), i)
    return r


def unflat(shape, f):
    out = []
    rem = f
    for s in reversed(shape):
        if s is ONE:
            out.append(ZERO)
            continue
        out.append(rem)
        rem = None if False else rem
        q, r = idiv(out[-1], s), imod(out[-1], s)
        out[-1] = r
        rem = q
    return list(reversed(out))


def recombine(t):
    """div(x,s)*s + mod(x,s) -> x"""
    if t.op == "ite":
        return ite(t.args[0], recombine(t.args[1]), recombine(t.args[2]))
    for _ in range(12):
        if t.op != "rat":
            return t
        n, d = rat(t)
        done = True
        for m in find_atoms(n, "mod"):
            x, s = m.args
            c = sub(subst1(t, m, ONE), subst1(t, m, ZERO))
            q = idiv(x, s)
            cand = sub(t, add(mul(c, m), mul(c, mul(s, q))))
            cand = add(cand, mul(c, x))
            if size_of(cand) < size_of(t):
                t = cand
                done = False
                break
        if done:
            return t
    return t


def find_atoms(n, op):
    out = []
    for mono in n:
        for a, e in mono:
            if a.op == op and a not in out:
                out.append(a)
    return out


def subst1(t, a, v):
    return subst(t, {a: v})


def size_of(t):
    if t.op != "rat":
        return 1 + sum(size_of(x) for x in subterms(t.args))
    return sum(len(m) + 1 + sum(size_of(a) for a, e in m if a.op in ("mod", "div")) for m, c in t.args[0]) + len(t.args[1])


def reshape(ip, c, shape, st, node=None, force=False):
    old = c.args[0]
    total = prod(old)
    shape = list(shape)
    for i, s in enumerate(shape):
        if s.op == "num" and s.args[0] == -1:
            rest = prod([x for j, x in enumerate(shape) if j != i])
            q = idiv(total, rest)
            shape[i] = q
    if sub(prod(shape), total) is not ZERO and not force:
        ip.raise_reshape = True
        return None
    shape = tuple(shape)
    if shape == tuple(old):
        return c

    def f(a):
        fi = recombine(flat_index(shape, a))
        if len(old) == 1:
            return aget(c, [fi])
        return simp_digits(aget(c, unflat(old, fi)))
    return mkarr(shape, f)


def simp_digits(t):
    return t


def do_reshape(ip, v, c, s, st, node):
    if s is None or any(x.unk for x in s):
        return ip.unk("reshape", node)
    r = reshape(ip, c, s, st, node)
    if r is None:
        ss = prod([x for x in s])
        d = sub(ss, prod(c.args[0]))
        if ip.nonzero(d):
            ip.raise_(st, "ValueError", string("cannot reshape"), node)
            from .interp import Diverge
            raise Diverge()
        if any(x.op == "num" and x.args[0] == -1 for x in s):
            return ip.unk(f"reshape {c.args[0]} to {s}", node)
        ok = ip.decide(eq(d, ZERO), st)
        if ok is not TRUE:
            s1 = st.copy()
            s1.pc = st.pc + (bnot(ok),)
            ip.raise_(s1, "ValueError", string("cannot reshape"), node)
            if ok is FALSE:
                from .interp import Diverge
                raise Diverge()
            st.pc = st.pc + (ok,)
        r = reshape(ip, c, s, st, node, force=True)
    return ip.alloc(st, r)


@ext("numpy.reshape")
def _npreshape(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    if c is None:
        return ip.unk("reshape", node)
    return do_reshape(ip, args[0], c, shape_of(ip, argn(args, kw, 1, "newshape", kw.get("shape")), st), st, node)


@ext("numpy.ravel")
def _ravel(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    if c is None:
        return ip.unk("ravel", node)
    return do_reshape(ip, args[0], c, (prod(c.args[0]),), st, node)


@ext("numpy.cumsum")
def _cumsum(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    if c is None:
        return ip.unk("cumsum", node)
    return cumsum(ip, c, st, node)


def cumsum(ip, c, st, node):
    if len(c.args[0]) != 1:
        c = reshape(ip, c, (prod(c.args[0]),), st)
    n = c.args[0][0]

    def f(a):
        b = fresh_bv(n)
        return add(psum(b, a[0], aget(c, [b])), aget(c, [a[0]]))
    return ip.alloc(st, mkarr((n,), f))


def psum(b, upto, body):
    """sum_{b<upto} body(b)"""
    if upto is ZERO:
        return ZERO
    return bigsum(b, mk("range", upto), TRUE, body)


@ext("numpy.insert")
def _insert(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    if c is None or len(c.args[0]) != 1 or args[1].op != "num" or args[2].op == "ref":
        return ip.unk("insert", node)
    k, v = args[1], args[2]
    n = c.args[0][0]
    if k.args[0] < 0:
        k = add(n, k)
    return ip.alloc(st, mkarr((add(n, ONE),), lambda a: ite(eq(a[0], k), v, ite(lt(a[0], k), aget(c, [a[0]]), aget(c, [sub(a[0], ONE)])))))


def gtail(c, a, off):
    return aget(c, [sub(a, off)])


@ext("numpy.append")
def _npappend(ip, args, kw, st, node):
    return concat(ip, [args[0], args[1]], ZERO, st, node, flat=("axis" not in kw and len(args) < 3))


@ext("numpy.concatenate", "numpy.hstack", "numpy.vstack")
def _concatenate(ip, args, kw, st, node):
    dotted = ip.extcalls[-1][0] if ip.extcalls else ""
    ax = argn(args, kw, 1, "axis", ZERO)
    v = args[0]
    c = cont(ip, v, st)
    if c.op == "arr" and len(c.args[0]) >= 2 and c.args[0][0].op != "num":
        # concatenate(A, axis=k): merges axis 0 into axis k of the sub-arrays
        k = int(ax.args[0]) if ax.op == "num" else None
        if k is None:
            return ip.unk("concatenate", node)
        sub_sh = c.args[0][1:]
        n0 = c.args[0][0]
        k %= len(sub_sh)
        shape = tuple(mul(n0, s) if i == k else s for i, s in enumerate(sub_sh))

        def f(a):
            w = sub_sh[k]
            i0 = idiv(a[k], w) if w is not ONE else a[k]
            ik = imod(a[k], w) if w is not ONE else ZERO
            return aget(c, [i0] + [ik if i == k else x for i, x in enumerate(a)])
        return ip.alloc(st, mkarr(shape, f))
    vs = explicit(ip, v, st)
    if vs is None:
        return ip.unk("concatenate", node)
    if dotted.endswith("vstack"):
        cs = []
        for x in vs:
            cx = toarr(ip, x, st)
            if cx is None:
                return mk("vstack", *[ip.freeze(y, st) for y in vs]) if not any(y.unk for y in vs) else ip.unk("vstack", node)
            if len(cx.args[0]) == 1:
                cx = mkarr((ONE,) + cx.args[0], lambda a, cx=cx: aget(cx, a[1:]))
            cs.append(cx)
        return ip.alloc(st, concat_c(ip, cs, 0)) if concat_c(ip, cs, 0) is not None else ip.unk("vstack", node)
    if dotted.endswith("hstack"):
        c0 = toarr(ip, vs[0], st)
        ax = ZERO if c0 is None or len(c0.args[0]) == 1 else ONE
    return concat(ip, vs, ax, st, node)


def concat(ip, vs, ax, st, node, flat=False):
    cs = []
    for v in vs:
        c = toarr(ip, v, st) if v.op in ("ref", "tup", "range") or v in ip.shapes or cont(ip, v, st).op == "arr" else None
        if c is None:
            if flat and v.op != "ref" and is_numeric_deep(v):
                c = mkarr((ONE,), lambda a, v=v: v)
            else:
                return ip.unk("concatenate", node)
        if flat and len(c.args[0]) > 1:
            c = reshape(ip, c, (prod(c.args[0]),), st)
        cs.append(c)
    if ax.op != "num":
        return ip.unk("concatenate axis", node)
    r = concat_c(ip, cs, int(ax.args[0]))
    return ip.alloc(st, r) if r is not None else ip.unk("concatenate shapes", node)


def concat_c(ip, cs, k):
    nd = len(cs[0].args[0])
    if any(len(c.args[0]) != nd for c in cs):
        return None
    k %= nd
    for i in range(nd):
        if i != k and any(sub(c.args[0][i], cs[0].args[0][i]) is not ZERO for c in cs):
            return None
    tot = ZERO
    offs = []
    for c in cs:
        offs.append(tot)
        tot = add(tot, c.args[0][k])
    shape = tuple(tot if i == k else s for i, s in enumerate(cs[0].args[0]))

    def f(a):
        r = None
        for c, off in reversed(list(zip(cs, offs))):
            j = sub(a[k], off)
            v = aget(c, [j if i == k and c.args[0][k] is not ONE else (ZERO if c.args[0][i] is ONE else x) for i, x in enumerate(a)])
            r = v if r is None else ite(lt(a[k], add(off, c.args[0][k])), v, r)
        return r
    return mkarr(shape, f)


@ext("numpy.stack")
def _stack(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    ax = argn(args, kw, 1, "axis", ZERO)
    if c is None or ax.op != "num":
        return ip.unk("stack", node)
    k = int(ax.args[0])
    if k == 0:
        return ip.alloc(st, c)
    n = len(c.args[0])
    k %= n
    perm = list(range(1, n))
    perm.insert(k, 0)
    return transpose(ip, c, mk("tup", *[num(p) for p in perm]), st, node)


@ext("numpy.column_stack")
def _colstack(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    if c is None or len(c.args[0]) != 2:
        return ip.unk("column_stack", node)
    return transpose(ip, c, NONE, st, node)


@ext("numpy.repeat")
def _repeat(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    n = argn(args, kw, 1, "repeats")
    if c is None or n.op == "ref" or ("axis" in kw):
        return ip.unk("repeat", node)
    if len(c.args[0]) != 1:
        c = reshape(ip, c, (prod(c.args[0]),), st)
    return ip.alloc(st, mkarr((mul(c.args[0][0], n),), lambda a: aget(c, [idiv(a[0], n)])))


@ext("numpy.tile")
def _tile(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    r = argn(args, kw, 1, "reps")
    if c is None:
        return ip.unk("tile", node)
    reps = list(r.args) if r.op == "tup" else [r]
    nd = max(len(reps), len(c.args[0]))
    reps = [ONE] * (nd - len(reps)) + reps
    cs = (ONE,) * (nd - len(c.args[0])) + c.args[0]
    shape = tuple(mul(s, k) for s, k in zip(cs, reps))

    def f(a):
        ix = []
        for i, s in enumerate(cs):
            ix.append(ZERO if s is ONE else (a[i] if reps[i] is ONE else imod(a[i], s)))
        return aget(c, ix[nd - len(c.args[0]):])
    return ip.alloc(st, mkarr(shape, f))


def npsum(ip, c, axis, st, node):
    if axis is NONE:
        b = c.args[1]
        for i, s in reversed(list(enumerate(c.args[0]))):
            if s is ONE:
                continue
            x = fresh_bv(s)
            b = bigsum(x, mk("range", s), TRUE, subst(b, {mk("ax", i, s): x}))
        return b
    if axis.op != "num":
        return ip.unk("sum axis", node)
    k = int(axis.args[0]) % len(c.args[0])
    s = c.args[0][k]
    shape = c.args[0][:k] + c.args[0][k + 1:]

    def f(a):
        if s is ONE:
            return aget(c, a[:k] + [ZERO] + a[k:])
        x = fresh_bv(s)
        return bigsum(x, mk("range", s), TRUE, aget(c, a[:k] + [x] + a[k:]))
    return ip.alloc(st, mkarr(shape, f)) if shape else f([])


@ext("numpy.sum", "numpy.nansum")
def _npsum(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    if c is None:
        cc = cont(ip, args[0], st)
        if cc.op == "dmat":
            c = dmat2arr(cc)
        elif args[0].op != "ref" and is_numeric(args[0]) and not args[0].unk:
            return mk("ucall", "npsum", args[0])
        else:
            return ip.unk("sum", node)
    return npsum(ip, c, argn(args, kw, 1, "axis", NONE), st, node)


@ext("numpy.prod", "math.prod", "numpy.product")
def _prod(ip, args, kw, st, node):
    vs = explicit(ip, args[0], st)
    if vs is None:
        return ip.unk("prod", node)
    return prod(vs)


@ext("numpy.sort")
def _sort(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    if c is None:
        return ip.unk("sort", node)
    fc = ip.freeze(c, st)
    return ip.alloc(st, mkarr(c.args[0], lambda a: mk("sorted_at", fc, *a)))


def fn1(name, f=None):
    def g(ip, args, kw, st, node):
        def h(x):
            if x.unk:
                return ip.unk(name, node)
            if x.op == "ite":
                return ite(x.args[0], h(x.args[1]), h(x.args[2]))
            return f(x) if f else mk(name, x)
        return elementwise1(ip, h, args[0], st)
    return g


CALLS["numpy.log"] = CALLS["math.log"] = fn1("log", lambda x: log(x))
CALLS["numpy.sqrt"] = CALLS["math.sqrt"] = fn1("sqrt", lambda x: power(x, HALF))
CALLS["numpy.exp"] = CALLS["math.exp"] = fn1("exp")
CALLS["numpy.sin"] = CALLS["math.sin"] = fn1("sin")
CALLS["numpy.cos"] = CALLS["math.cos"] = fn1("cos")
CALLS["numpy.floor"] = CALLS["math.floor"] = fn1("floor", lambda x: x if x.isint else mk("floor", x))
CALLS["numpy.ceil"] = CALLS["math.ceil"] = fn1("ceil", lambda x: x if x.isint else mk("ceil", x))
CALLS["numpy.round"] = CALLS["numpy.around"] = CALLS["numpy.rint"] = fn1("round")
CALLS["numpy.isnan"] = fn1("isnan", lambda x: TRUE if x.op == "fconst" and x.args[0] == "nan" else (FALSE if x.op == "num" else mk("truthy", mk("isnan", x))))
CALLS["numpy.nan_to_num"] = fn1("nan_to_num", lambda x: ZERO if x.op == "fconst" and x.args[0] == "nan" else x)
CALLS["numpy.square"] = fn1("square", lambda x: mul(x, x))
CALLS["numpy.flip"] = lambda ip, args, kw, st, node: getitem(ip, args[0], mk("slice", NONE, NONE, num(-1)), st, node)


@ext("numpy.clip", "numpy.maximum", "numpy.minimum", "numpy.diff", "numpy.unique", "numpy.isclose", "numpy.allclose", "numpy.mean", "numpy.average")
def _np_unint(ip, args, kw, st, node):
    name = ip.extcalls[-1][0]
    if name in ("numpy.maximum", "numpy.minimum"):
        mx = name.endswith("maximum")
        return elementwise2(ip, lambda x, y: ite(lt(x, y), y, x) if mx else ite(lt(y, x), y, x), args[0], args[1], st, node)
    if name == "numpy.clip":
        lo, hi = argn(args, kw, 1, "a_min", NONE), argn(args, kw, 2, "a_max", NONE)
        r = args[0]
        if r.unk:
            return ip.unk("clip", node)
        if lo is not NONE:
            r = elementwise2(ip, lambda x, y: ite(lt(x, y), y, x), r, lo, st, node)
        if hi is not NONE:
            r = elementwise2(ip, lambda x, y: ite(lt(y, x), y, x), r, hi, st, node)
        return r
    if name == "numpy.diff":
        c = toarr(ip, args[0], st)
        if c is not None and len(c.args[0]) == 1 and len(args) == 1:
            return ip.alloc(st, mkarr((sub(c.args[0][0], ONE),), lambda a: sub(aget(c, [add(a[0], ONE)]), aget(c, [a[0]]))))
    if any(a.unk or cont(ip, a, st).unk for a in args):
        return ip.unk(name, node)
    return mk("ucall", name, *[ip.freeze(a, st) for a in args])


@ext("numpy.where")
def _where(ip, args, kw, st, node):
    if len(args) != 3:
        return ip.unk("where", node)
    c, a, b = args
    cc = toarr(ip, c, st)
    if cc is None:
        return ip.unk("where", node)
    ca, cb = toarr(ip, a, st) if a.op == "ref" else None, toarr(ip, b, st) if b.op == "ref" else None
    sh = cc.args[0]
    for x in (ca, cb):
        if x is not None:
            sh = bshape(sh, x.args[0])
            if sh is None:
                return ip.unk("where", node)
    return ip.alloc(st, mkarr(sh, lambda i: ite(bget(cc, sh, i), bget(ca, sh, i) if ca is not None else a, bget(cb, sh, i) if cb is not None else b)))


@ext("numpy.isin", "numpy.in1d")
def _isin(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    if c is None:
        return ip.unk("isin", node)
    inv = kw.get("invert", FALSE)
    return ip.alloc(st, mkarr(c.args[0], lambda a: bnot(contains_(ip, args[1], aget(c, a), st)) if inv is TRUE else contains_(ip, args[1], aget(c, a), st)))


@ext("numpy.logical_and", "numpy.logical_or")
def _logical(ip, args, kw, st, node):
    isand = ip.extcalls[-1][0].endswith("and")
    return elementwise2(ip, lambda x, y: band(x, y) if isand else bor(x, y), args[0], args[1], st, node)


CALLS["numpy.logical_not"] = fn1("not", lambda x: bnot(x) if isbool(x) else mk("ucall", "not", x))

for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("true_divide", "Div"), ("power", "Pow")):
    CALLS["numpy." + _n] = (lambda o: lambda ip, args, kw, st, node: ip.binop(o, args[0], args[1], st, node))(_o)


@ext("numpy.errstate", "contextlib.nullcontext")
def _ctx(ip, args, kw, st, node):
    return NONE


@ext("numpy.diag")
def _diag(ip, args, kw, st, node):
    c = toarr(ip, args[0], st)
    k = argn(args, kw, 1, "k", ZERO)
    if c is None or len(c.args[0]) > 2 or k.unk:
        return ip.unk("diag", node)
    if len(c.args[0]) == 2:
        n = c.args[0][0]
        if k is not ZERO:
            return ip.unk("diag", node)
        return ip.alloc(st, mkarr((n,), lambda a: aget(c, [a[0], a[0]])))
    m = c.args[0][0]
    ak = k if prove_nonneg(k) else neg(k)
    return ip.alloc(st, mk("dmat", add(m, ak), ((k, c),)))


@ext("scipy.sparse.diags", "scipy.sparse.diags_array")
def _diags(ip, args, kw, st, node):
    ds, offs = explicit(ip, args[0], st), argn(args, kw, 1, "offsets")
    os_ = explicit(ip, offs, st) if offs is not None else [ZERO]
    if ds is None or os_ is None:
        if toarr(ip, args[0], st) is not None and offs is not None and offs.op == "num":
            ds, os_ = [args[0]], [offs]
        else:
            return ip.unk("diags", node)
    out = []
    n = None
    for d, k in zip(ds, os_):
        c = toarr(ip, d, st)
        if c is None or len(c.args[0]) != 1:
            return ip.unk("diags", node)
        ak = k if prove_nonneg(k) else neg(k)
        nn = add(c.args[0][0], ak)
        if n is not None and sub(nn, n) is not ZERO:
            return ip.unk("diags sizes", node)
        n = nn
        out.append((k, c))
    return ip.alloc(st, mk("dmat", n, tuple(out)))


@ext("numpy.eye", "numpy.identity", "scipy.sparse.eye", "scipy.sparse.identity")
def _eye(ip, args, kw, st, node):
    n = args[0]
    return ip.alloc(st, mk("dmat", n, ((ZERO, mkarr((n,), lambda a: ONE)),)))


@ext("scipy.sparse.lil_matrix", "scipy.sparse.csc_matrix", "scipy.sparse.csr_matrix", "scipy.sparse.coo_matrix", "scipy.sparse.lil_array", "scipy.sparse.csr_array", "scipy.sparse.csc_array")
def _sparse(ip, args, kw, st, node):
    v = args[0]
    if v.op == "tup":
        return ip.alloc(st, mkarr(tuple(v.args), lambda a: ZERO))
    c = cont(ip, v, st)
    if c.op in ("dmat", "arr"):
        if c.op == "arr" and len(c.args[0]) == 1:
            return ip.alloc(st, mkarr((ONE,) + c.args[0], lambda a: aget(c, [a[1]])))
        return ip.alloc(st, c)
    if c.op == "list":
        a = toarr(ip, v, st)
        return ip.alloc(st, a) if a is not None else ip.unk("sparse", node)
    if is_numeric(v) and v.isint:
        return ip.alloc(st, mkarr((ONE, ONE), lambda a: v))
    if c.op == "opq":
        return v
    return ip.unk("sparse", node)


@ext("tqdm.tqdm")
def _tqdm(ip, args, kw, st, node):
    return args[0]


@ext("time.time", "time.perf_counter")
def _time(ip, args, kw, st, node):
    ip.event(st, "clock", node=node)
    return mk("call", "clock", ip.new())


@ext("pyvista.ExplicitStructuredGrid")
def _pvgrid(ip, args, kw, st, node):
    dims = explicit(ip, args[0], st)
    if dims is None or len(dims) != 3:
        return ip.unk("pyvista grid", node)
    return mk("pvgrid", mk("tup", *[sub(d, ONE) for d in dims]), ip.freeze(args[1], st) if len(args) > 1 else NONE)


@ext("copy.copy", "copy.deepcopy")
def _copy(ip, args, kw, st, node):
    v = args[0]
    c = ip.content(v, st)
    if v.op == "ref" or c.op != "opq":
        if v.op == "ref":
            return ip.alloc(st, c)
        return v
    u = up(ip, c)
    return ip.alloc(st, u if u.op == "arr" else c)


# ================================================================ methods of values
def call_method(ip, o, name, args, kw, st, node):
    if o.op == "ite":
        c = ip.decide(o.args[0], st)
        if c is TRUE or c is FALSE:
            return call_method(ip, o.args[1] if c is TRUE else o.args[2], name, args, kw, st, node)
        out = {}
        from .interp import Diverge

        def f(k, x):
            def h(s):
                try:
                    fv = ip.getattr(x, name, s, node)
                    out[k] = ip.apply(fv, args, kw, s, node)
                    return True
                except Diverge:
                    return False
            return h
        if not ip.branch(c, f(1, o.args[1]), f(2, o.args[2]), st):
            raise Diverge()
        if 1 in out and 2 in out:
            return ip.phi(c, out[1], out[2])
        return out.get(1) or out.get(2)
    for a in args:
        if a.op == "star":
            return ip.unk("star args", node)
    c = cont(ip, o, st)
    if c.op == "ite":
        return ite(c.args[0], call_method_c(ip, o, c.args[1], name, args, kw, st, node), call_method_c(ip, o, c.args[2], name, args, kw, st, node)) if name in PURE_METHODS else \
            mutate_ite(ip, o, c, name, args, kw, st, node)
    return call_method_c(ip, o, c, name, args, kw, st, node)


PURE_METHODS = {"reshape", "flatten", "ravel", "sum", "keys", "values", "items", "get", "copy", "tolist", "toarray", "tocsc", "transpose", "astype", "cumsum", "lower", "upper", "strip",
                "intersection", "union", "difference", "max", "min", "index", "count", "all", "any"}


def mutate_ite(ip, o, c, name, args, kw, st, node):
    if name == "append":
        list_append(ip, o, args[0], st)
        return NONE
    return ip.unk("method on joined container " + name, node)


PROGRESS = ("set_description", "set_description_str", "set_postfix", "set_postfix_str", "refresh", "close")


def call_method_c(ip, o, c, name, args, kw, st, node):
    if name in PROGRESS and c.op in ("arr", "list", "range", "tup"):
        return NONE  # tqdm stands for what it iterates over
    if c.op == "pool":
        return pool_method(ip, o, c, name, args, kw, st, node)
    if c.op == "future":
        if name == "result":
            return future_result(ip, c, st, node)
        return TRUE if name == "done" else ip.unk("future method " + name, node)
    if o.op in ("str", "fmt", "strv", "lower") or (o.op in ("sym", "item", "attr", "bv", "at") and name in ("lower", "upper", "strip", "startswith", "endswith", "split", "replace")):
        return str_method(ip, o, name, args, kw, st, node)
    if c.op in ("list", "set"):
        return list_method(ip, o, c, name, args, kw, st, node)
    if c.op == "dict" or (o.op in ("vars",)):
        return dict_method(ip, o, c, name, args, kw, st, node)
    if c.op == "arr":
        return arr_method(ip, o, c, name, args, kw, st, node)
    if c.op == "dmat":
        if name in ("toarray", "todense"):
            return ip.alloc(st, dmat2arr(c))
        if name in ("tocsc", "tocsr", "tolil", "copy", "astype"):
            return ip.alloc(st, c)
        return arr_method(ip, o, dmat2arr(c), name, args, kw, st, node)
    if c.op == "df" or c.op in ("series",):
        return ip.unk("dataframe method " + name, node)
    if o.op == "pvgrid":
        return pv_method(ip, o, name, args, kw, st, node)
    if o.op == "Eq":
        if name == "simplify":
            return mk("Eq", varpart(ip, o.args[0], o.args[1]), constside(o.args[0], o.args[1]))
        return ip.unk("Eq." + name, node)
    if o.op == "tup":
        if name == "index" and args[0].op in CONSTOPS:
            for i, x in enumerate(o.args):
                if x is args[0]:
                    return num(i)
        if name == "count":
            r = ZERO
            for x in o.args:
                r = add(r, ite(eq(x, args[0]), ONE, ZERO))
            return r
        return ip.unk("tuple method", node)
    if o.op == "unk" or o.unk:
        return ip.unk("method of unknown", node)
    if name == "as_coefficients_dict" and is_numeric_deep(o):
        return ip.alloc(st, mk("coeffs", o))
    if c.op == "coeffs":
        if name in ("pop", "get") and args:
            k = args[0]
            e = c.args[0]
            if k is ONE or k.op == "symbol":
                v = constpart(e) if k is ONE else coeff(e, k)
                if name == "pop":
                    if len(args) < 2:
                        missing = eq(v, ZERO)
                        if missing is not FALSE:
                            s2 = st.copy()
                            s2.pc = st.pc + [missing] if isinstance(st.pc, list) else (*st.pc, missing)
                            ip.raise_(s2, "KeyError", "1", node)
                    ip.event(st, "delitem", o, k)
                    ip.setcontent(o, st, lambda old: mk("coeffs", sub(e, v if k is ONE else mul(v, k))))
                return v if len(args) > 1 or name == "pop" else ite(eq(v, ZERO), NONE, v)
        if name == "copy":
            return ip.alloc(st, c)
        if name == "values":
            return mk("valuesv", o)
        if name == "keys":
            return mk("keysv", o)
        if name == "items":
            return mk("items", o)
        return ip.unk("coeffs", node)
    if is_numeric(o) and name in ("item", "copy", "flatten", "conjugate") and not args:
        return o
    if c.op == "opq":
        return opaque_method(ip, o, c, name, args, kw, st, node)
    if o.op == "module":
        r = ip.src.resolve(o.args[0], name)
        if r:
            return ip.apply(ip.resolved(r, st), args, kw, st, node)
    if o.op in ("rat",) or is_numeric(o):
        ip.event(st, "methcall", o, name, tuple(args), node=node)
        return mk("ucall", "." + name, o, *[ip.freeze(a, st) for a in args])
    return ip.unk(f"method {name} of {o.op}", node)


def varpart(ip, l, r):
    e = sub(l, r)
    return sub(e, constpart(e))


def constside(l, r):
    return neg(constpart(sub(l, r)))


def opaque_method(ip, o, c, name, args, kw, st, node):
    t = c.args[0]
    if name == "keys":
        return mk("keysv", o)
    if name == "items":
        return mk("items", o)
    if name == "values":
        return mk("valuesv", o)
    if name == "get" and args:
        d = args[1] if len(args) > 1 else NONE
        return ite(mk("in", args[0], mk("keys", t)), mk("item", t, args[0]), d)
    if name in ("copy",) and not args:
        return ip.alloc(st, c)
    if name == "append":
        list_append(ip, o, args[0], st)
        return NONE
    ip.event(st, "methcall", o, name, tuple(args), tuple(sorted(kw)), node=node)
    if any(a.unk for a in args):
        return ip.unk("call " + name, node)
    return mk("ucall", "." + name, o, *[ip.freeze(a, st) for a in args], *[mk("kw", k, ip.freeze(v, st)) for k, v in sorted(kw.items())])


def str_method(ip, o, name, args, kw, st, node):
    if o.op == "str" and all(a.op in ("str", "num") for a in args):
        s = o.args[0]
        try:
            r = getattr(s, name)(*[a.args[0] if a.op == "str" else int(a.args[0]) for a in args])
        except Exception:
            return ip.unk("string method", node)
        if isinstance(r, bool):
            return boolc(r)
        if isinstance(r, str):
            return string(r)
        if isinstance(r, int):
            return num(r)
        if isinstance(r, list):
            return ip.newlist(st, [string(x) for x in r])
        return ip.unk("string method", node)
    if name == "lower":
        return o if o.op == "lower" else mk("lower", o)
    if name == "join" and o.op == "str":
        vs = explicit(ip, args[0], st)
        if vs is not None and all(v.op == "str" for v in vs):
            return string(o.args[0].join(v.args[0] for v in vs))
    if name == "format":
        return mk("fmt", o, *[mk("strv", a) for a in args])
    if o.op == "strv" and o.args[0].op == "symbol":
        return ip.unk("symbol text", node)
    return mk("ucall", "str." + name, o, *[ip.freeze(a, st) for a in args]) if not any(a.unk for a in args) else ip.unk("str", node)


def list_method(ip, o, c, name, args, kw, st, node):
    if name == "append" or name == "add":
        list_append(ip, o, args[0], st)
        return NONE
    if name == "extend":
        list_extend(ip, o, args[0], st)
        return NONE
    if name in ("copy",):
        return ip.alloc(st, c)
    if name == "intersection":
        return set_filter(ip, o, args[0], st, True)
    if name == "difference":
        return set_filter(ip, o, args[0], st, False)
    if name == "union":
        l = aslist(ip, args[0], st)
        return ip.alloc(st, mk("set", *c.args, *l.args)) if l is not None else ip.unk("union", node)
    if name in ("index",):
        vs = explicit(ip, o, st)
        if vs is not None and args[0].op in CONSTOPS and all(v.op in CONSTOPS for v in vs):
            for i, x in enumerate(vs):
                if x is args[0]:
                    return num(i)
        return ip.unk("index", node)
    if name == "pop" and not args and c.args and c.args[-1].op == "el" and c.args[-1].args[0] is TRUE:
        v = c.args[-1].args[1]
        ip.setcontent(o, st, lambda x: mk(x.op, *x.args[:-1]))
        return v
    if name in ("sort", "reverse", "insert", "remove", "clear", "update", "discard"):
        if name == "clear":
            ip.setcontent(o, st, lambda x: mk(x.op))
            return NONE
        if name == "update" and c.op == "set":
            list_extend(ip, o, args[0], st)
            return NONE
        if name == "insert" and args[0] is ZERO:
            ip.setcontent(o, st, lambda x: mk(x.op, mk("el", TRUE, args[1]), *x.args))
            return NONE
        if name in ("remove", "discard") and len(args) == 1 and all(x.op == "el" for x in c.args):
            x = ip.freeze(args[0], st)
            out, found = [], FALSE
            for e in c.args:
                here = band(e.args[0], eq(e.args[1], x))
                g = band(e.args[0], bnot(band(here, bnot(found))))
                found = bor(found, here)
                if g is not FALSE:
                    out.append(mk("el", g, e.args[1]))
            if name == "remove":
                fail = ip.decide(bnot(found), st)
                if fail is TRUE:
                    ip.raise_(st, "ValueError", "remove", node)
                    from .interp import Diverge
                    raise Diverge()
                if fail is not FALSE:
                    s2 = st.copy()
                    s2.pc = s2.pc + (fail,)
                    ip.raise_(s2, "ValueError", "remove", node)
            ip.setcontent(o, st, lambda y: mk(y.op, *out))
            return NONE
        ip.setcontent(o, st, lambda x: ip.unk("list." + name, node))
        return NONE
    if name in ARR_METHODS:
        a = toarr(ip, o, st)
        if a is not None:
            return arr_method(ip, o, a, name, args, kw, st, node)
    return ip.unk("list method " + name, node)


def dict_method(ip, o, c, name, args, kw, st, node):
    if name == "keys":
        return mk("keysv", o)
    if name == "values":
        return mk("valuesv", o)
    if name == "items":
        return mk("items", o)
    if name == "get":
        d = args[1] if len(args) > 1 else NONE
        v, p = dict_get(ip, c, args[0], st)
        if p is FALSE or v is None:
            return d
        return ite(p, v, d)
    if name == "copy":
        return ip.alloc(st, c)
    if name == "update":
        if args:
            dict_update(ip, o, args[0], st)
        for k, v in kw.items():
            ip.setitem(o, string(k), v, st, node)
        return NONE
    if name == "setdefault":
        v, p = dict_get(ip, c, args[0], st)
        d = args[1] if len(args) > 1 else NONE
        if p is TRUE:
            return v
        nv = d if v is None else ite(p, v, d)
        setdict(ip, o, args[0], nv, st)
        return nv
    if name == "pop":
        v, p = dict_get(ip, c, args[0], st)
        dict_del(ip, o, args[0], st)
        return v if v is not None else (args[1] if len(args) > 1 else ip.unk("pop", node))
    if name == "clear":
        ip.setcontent(o, st, lambda _: mk("dict", NONE))
        return NONE
    if name == "fromkeys":
        return ip.unk("fromkeys", node)
    return ip.unk("dict method " + name, node)


@ext("builtins.dict.fromkeys")
def _fromkeys(ip, args, kw, st, node):
    vs = explicit(ip, args[0], st)
    if vs is None:
        return ip.unk("fromkeys", node)
    d = args[1] if len(args) > 1 else NONE
    return ip.newdict(st, [(k, d) for k in vs])


def arr_method(ip, o, c, name, args, kw, st, node):
    if name == "reshape":
        if len(args) == 1 and args[0].op in ("tup", "ref", "ite"):
            if args[0].op == "ite":
                return ite(args[0].args[0], arr_method(ip, o, c, name, [args[0].args[1]], kw, st, node), arr_method(ip, o, c, name, [args[0].args[2]], kw, st, node))
            s = shape_of(ip, args[0], st)
        else:
            s = tuple(args)
        if kw:
            return ip.unk("reshape order", node)
        return do_reshape(ip, o, c, s, st, node)
    if name in ("flatten", "ravel"):
        if kw or args:
            return ip.unk("flatten order", node)
        return do_reshape(ip, o, c, (prod(c.args[0]),), st, node)
    if name == "transpose":
        ax = NONE if not args else (args[0] if len(args) == 1 and args[0].op in ("tup", "ref") else mk("tup", *args))
        return transpose(ip, c, ax, st, node)
    if name == "sum":
        return npsum(ip, c, argn(args, kw, 0, "axis", NONE), st, node)
    if name == "cumsum":
        return cumsum(ip, c, st, node)
    if name in ("copy", "toarray", "todense", "tocsc", "tocsr", "tolil", "view"):
        return ip.alloc(st, c)
    if name == "astype":
        t = args[0] if args else kw.get("dtype", NONE)
        if t.op == "ext" and t.args[0].split(".")[-1] in ("int", "int32", "int64") or (t.op == "str" and t.args[0].startswith("int")):
            return ip.alloc(st, mkarr(c.args[0], lambda a: aget(c, a) if aget(c, a).isint else mk("toint", aget(c, a))))
        return ip.alloc(st, c)
    if name in ("max", "min"):
        return CALLS["numpy." + name](ip, [ip.alloc(st, c)] + list(args), kw, st, node)
    if name in ("all", "any"):
        return CALLS["numpy." + name](ip, [ip.alloc(st, c)], kw, st, node)
    if name == "tolist":
        return tolist(ip, ip.alloc(st, c), st, "list", node)
    if name == "prod":
        return prod(explicit(ip, ip.alloc(st, c), st) or [ip.unk("prod", node)])
    if name == "repeat":
        return _repeat(ip, [ip.alloc(st, c)] + list(args), kw, st, node)
    if name == "squeeze":
        keep = [i for i, s in enumerate(c.args[0]) if s is not ONE]
        return ip.alloc(st, mkarr(tuple(c.args[0][i] for i in keep), lambda a: aget(c, [a[keep.index(i)] if i in keep else ZERO for i in range(len(c.args[0]))])))
    if name == "fill":
        ip.setcontent(o, st, lambda _: mkarr(c.args[0], lambda a: args[0]))
        return NONE
    if name == "diagonal":
        return ip.alloc(st, mkarr((c.args[0][0],), lambda a: aget(c, [a[0], a[0]])))
    if name == "multiply":
        return ip.binop("Mult", ip.alloc(st, c), args[0], st, node)
    if name == "dot":
        return matmul(ip, c, args[0], st, node)
    if name == "item" and not args:
        return aget(c, [ZERO] * len(c.args[0]))
    if name in ("argmax", "argmin"):
        return CALLS["numpy." + name](ip, [o], {}, st, node)
    return ip.unk("array method " + name, node)


def matmul(ip, c, b, st, node):
    cb = cont(ip, b, st)
    if cb.op == "dmat":
        cb = dmat2arr(cb)
    if cb.op != "arr" or len(c.args[0]) != 2:
        return ip.unk("matmul", node)
    n = c.args[0][1]
    x = fresh_bv(n)
    if len(cb.args[0]) == 1:
        return ip.alloc(st, mkarr((c.args[0][0],), lambda a: bigsum(x, mk("range", n), TRUE, mul(aget(c, [a[0], x]), aget(cb, [x])))))
    return ip.alloc(st, mkarr((c.args[0][0], cb.args[0][1]), lambda a: bigsum(x, mk("range", n), TRUE, mul(aget(c, [a[0], x]), aget(cb, [x, a[1]])))))


def pv_method(ip, o, name, args, kw, st, node):
    nx, ny, nz = o.args[0].args
    if name == "cell_coords":
        v = args[0]
        c = toarr(ip, v, st) if v.op in ("ref", "tup") or v in ip.shapes or cont(ip, v, st).op == "arr" else None

        def dig(i):
            return [imod(i, nx) if nx is not ONE else ZERO, imod(idiv(i, nx), ny) if ny is not ONE else ZERO, idiv(i, mul(nx, ny))]
        if c is None:
            if v.op == "ref" or v.unk:
                return ip.unk("cell_coords", node)
            d = dig(v)
            return ip.alloc(st, mkarr((num(3),), lambda a: ite(eq(a[0], ZERO), d[0], ite(eq(a[0], ONE), d[1], d[2]))))
        n = c.args[0][0]

        def f(a):
            d = dig(aget(c, [a[0]]))
            return ite(eq(a[1], ZERO), d[0], ite(eq(a[1], ONE), d[1], d[2]))
        return ip.alloc(st, mkarr((n, num(3)), f))
    if name == "cell_id":
        v = args[0]
        vs = explicit(ip, v, st)
        if vs is not None and len(vs) == 3 and all(is_numeric_deep(x) for x in vs):
            i, j, k = vs
            return add(i, mul(nx, add(j, mul(ny, k))))
        return ip.unk("cell_id", node)
    return mk("ucall", "pv." + name, o, *args)


def df_setcol(ip, c, i, v, st):
    return ip.unk("df")


# ---------------------------------------------------------------------------- linear solvers
def linsolve(ip, A, d, i, node):
    """entry i of the solution of A x = d: the same for equal systems; known for systems given as one symbol each"""
    def go(a, b):
        if a.op == "ite":
            return ite(a.args[0], go(a.args[1], b), go(a.args[2], b))
        if b.op == "ite":
            return ite(b.args[0], go(a, b.args[1]), go(a, b.args[2]))
        if a.op == "at" and b.op == "at" and a.args[1:-2] == b.args[1:-1]:
            return mk("at", sym(f"solve {a.args[0].args[0]} {b.args[0].args[0]}", "fun"), *b.args[1:-1], i)
        if getattr(ip, "any_solution", False):
            # an unconstrained vector for each system as it is written down
            return mk("at", sym(f"solve {id(a)} {id(b)}", "fun"), i)
        return ip.unk("solution of a linear system", node)
    return go(A, d)


def solved(ip, args, kw, st, node, flat):
    from .interp import Diverge
    fails = getattr(ip, "solver_fails", None)
    if fails is not None:
        # the solver may raise, in any of its calls
        g = fails()
        s2 = st.copy()
        s2.pc = (*st.pc, g)
        ip.raise_(s2, "LinAlgError", "", node)
        st.pc = (*st.pc, bnot(g))
    A, d = cont(ip, args[0] if args else kw.get("A", kw.get("a")), st), cont(ip, args[1] if len(args) > 1 else kw.get("b"), st)
    if A.op == "dmat":
        A = dmat2arr(A)
    if d.op == "dmat":
        d = dmat2arr(d)
    if A.op != "arr" or d.op != "arr" or len(A.args[0]) != 2:
        return ip.unk("linear system", node)
    n = A.args[0][0]
    p, q = mk("ix", 90), mk("ix", 91)

    def x(i):
        a = aget(A, [p, q])
        b = aget(d, [p, ZERO] if len(d.args[0]) == 2 else [p])
        return linsolve(ip, a, b, i, node)
    if not flat and len(d.args[0]) == 2:
        return ip.alloc(st, mkarr((n, d.args[0][1]), lambda ix: x(ix[0])))
    return ip.alloc(st, mkarr((n,), lambda ix: x(ix[0])))


@ext("scipy.linalg.solve", "numpy.linalg.solve")
def _solve(ip, args, kw, st, node):
    ip.event(st, "linsolve", string("dense"), node=node)
    return solved(ip, args, kw, st, node, False)


@ext("scipy.sparse.linalg.spsolve")
def _spsolve(ip, args, kw, st, node):
    ip.event(st, "linsolve", string("spsolve"), node=node)
    return solved(ip, args, kw, st, node, True)


ISOLVERS = ("bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr")


def exit_code(name):
    """-1, 0, 1, ... as the library documents"""
    return sub(sym("exit code " + name, "int", 0), ONE)


def _iterative(name):
    def f(ip, args, kw, st, node):
        ip.event(st, "linsolve", string(name), node=node)
        x = solved(ip, args, kw, st, node, True)
        code = ZERO if getattr(ip, "converges", False) else exit_code(name)
        return mk("tup", x, code) if not x.unk else x
    return f


for _n in ISOLVERS:
    CALLS["scipy.sparse.linalg." + _n] = _iterative(_n)
