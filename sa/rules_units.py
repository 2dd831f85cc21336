"""C09: unit systems."""
import ast
from .terms import *
from .harness import H
from .scan import functions, loc, Consts, attr_aliases, MUTATORS
from .check import where
from . import models as M

SYSTEMS = ("field", "metric", "lab")


def dictof(t):
    """python dict of a frozen dictionary with string keys, values still terms"""
    if t is None or t.op != "dict" or t.args[0] is not NONE:
        return None
    out = {}
    for e in t.args[1:]:
        if e.op != "de" or e.args[0] is not TRUE or e.args[1].op != "str":
            return None
        out[e.args[1].args[0]] = e.args[2]
    return out


def tables(ck):
    h = H(ck.src)
    base = ck.src.cls("Base")
    out = {}
    for n in ("UNITS", "FACTORS", "NOMENCLATURE"):
        v = None
        r = ck.src.resolve(base.mod.name, n) or ck.src.resolve("reservoirflow", n)
        if r:
            v = h.ip.freeze(h.ip.resolved(r, h.st), h.st)
        d = dictof(v) if v is not None else None
        out[n] = {k: dictof(x) for k, x in d.items()} if d is not None else None
    return out, base.mod.file


def c09(ck):
    T_, file = tables(ck)
    U, F, N = T_["UNITS"], T_["FACTORS"], T_["NOMENCLATURE"]
    r1 = "every unit system defines the same quantities"
    for nm, t in (("UNITS", U), ("FACTORS", F)):
        if t is None or any(v is None for v in t.values()):
            ck.undecided(r1, f"{file}:{nm}", "table not understood")
            continue
        allk = set().union(*t.values())
        for s in t:
            miss = allk - set(t[s])
            ck.truth(r1, f"{file}:{nm}[{s!r}]", not miss, f"missing {sorted(miss)}" if miss else f"{len(allk)} entries", s)
        miss = [s for s in SYSTEMS if s not in t]
        ck.truth("the documented unit systems exist", f"{file}:{nm}", not miss, f"missing {miss}")
        empty = [f"{s}/{k}" for s in t for k, v in t[s].items() if v is NONE or v.op == "str" and not v.args[0] and nm == "UNITS" or nm == "FACTORS" and (v.op == "str" or v is ZERO)]
        ck.truth("every entry carries a value", f"{file}:{nm}", not empty, str(empty))
    if U and F:
        ck.truth("units and factors know the same systems", f"{file}:FACTORS", set(U) == set(F), f"{sorted(U)} / {sorted(F)}")
    if U and N and all(N.values()):
        quant = set().union(*[set(v) for v in U.values() if v])
        fact = set().union(*[set(v) for v in F.values() if v]) if F else set()
        for kind in ("abbreviation", "symbol"):
            have = set(N.get(kind) or ())
            miss = quant - have
            ck.truth("every quantity has an abbreviation and a symbol", f"{file}:NOMENCLATURE[{kind!r}]", not miss, f"missing {sorted(miss)}" if miss else f"{len(quant)} quantities", kind)
        miss = fact - quant
        ck.truth("every factor is a quantity with a unit label", f"{file}:FACTORS", not miss, f"no label for {sorted(miss)}")
    lookups(ck, U, F)
    writes(ck)
    selection(ck, U, F)


def lookups(ck, U, F):
    rule = "every unit or factor asked for exists in every unit system"
    cs = Consts(ck.src)
    n = 0
    for f in functions(ck.src):
        kind = attr_aliases(f.node, ("units", "factors"))
        pos = {a.arg for a in f.node.args.args}
        for x in ast.walk(f.node):
            key = base = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load):
                base, key = kind(x.value), x.slice
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "__getitem__") and x.args:
                base, key = kind(x.func.value), x.args[0]
            if base not in ("units", "factors"):
                continue
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in pos and x.value.id == base:
                pass
            n += 1
            ss = cs.strings(key, f)
            t = U if base == "units" else F
            if ss is None or t is None or any(v is None for v in t.values()):
                ck.undecided(rule, loc(f), "key not a constant", ast.unparse(x)[:80])
                continue
            miss = sorted({f"{s}/{k}" for s in t for k in ss if k not in t[s]})
            ck.truth(rule, loc(f), not miss, f"{ast.unparse(x)[:60]}: missing {miss}" if miss else f"{sorted(ss)}", ast.unparse(x)[:80])
            ck.funcs.add(f.qual)
    ck.truth("look-ups found", "reservoirflow", True if n else None, f"{n} look-ups")


def writes(ck):
    rule = "the shared tables are never written to"
    bad, seen = [], 0
    names = ("UNITS", "FACTORS", "NOMENCLATURE")
    for f in functions(ck.src):
        kind = attr_aliases(f.node, ("units", "factors") + names, names)
        local = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}

        def shared(e):
            k = kind(e)
            return k if k and not (isinstance(e, ast.Name) and e.id in local) else None
        for x in ast.walk(f.node):
            t = None
            if isinstance(x, (ast.Subscript,)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                t = shared(x.value) or (shared(x.value.value) if isinstance(x.value, ast.Subscript) else None)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                t = shared(x.func.value) or (shared(x.func.value.value) if isinstance(x.func.value, ast.Subscript) else None)
            elif isinstance(x, ast.AugAssign) and isinstance(x.op, ast.BitOr):
                t = shared(x.target)
            elif isinstance(x, (ast.Global,)) and set(x.names) & set(names):
                t = "global"
            if t:
                seen += 1
                bad.append((f, x))
    # are the objects' labels and factors the shared tables themselves, or private copies?
    private = False
    for m in ck.src.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr in ("units", "factors") for t in n.targets):
                if not (isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id in names):
                    private = True
    for f, x in bad:
        direct = any(isinstance(y, ast.Name) and y.id in names for y in ast.walk(x))
        ck.ob(rule, loc(f), "undecided" if private and not direct else "violated", f"writes {ast.unparse(x)[:80]} at line {x.lineno}")
    ck.truth(rule, "reservoirflow", not bad or (None if private else False), f"{sum(1 for _ in functions(ck.src))} functions scanned")


def selection(ck, U, F):
    rule = "a unit system's name, labels and factors come together"
    if not U or not F:
        return
    classes = [c for c in ("Base", "SinglePhase", "RegularCartesian", "BlackOil") if ck.src.cls(c)]

    def build(h, cls, unit=None):
        kw = {} if unit is None else {"unit": unit}
        if cls == "Base":
            return h.new("Base", **kw)
        if cls == "SinglePhase":
            return h.new("SinglePhase", mu=sym("MU", "num"), B=sym("B", "num"), rho=sym("RHO", "num"), comp=ZERO, **kw)
        g = h.new("RegularCartesian", 3, 1, 1, sym("DX", "num"), sym("DY", "num"), sym("DZ", "num"), kx=sym("KX", "num"), ky=sym("KY", "num"), kz=sym("KZ", "num"), phi=sym("PHI", "num"), z=ZERO,
                  **(kw if cls != "BlackOil" else {}))
        if cls == "RegularCartesian":
            return g
        fl = build(h, "SinglePhase")
        return h.new("BlackOil", g, fl, pi=sym("PI", "num"), **kw)

    def state(h, o, st=None):
        st = st or h.st
        return tuple(h.ip.freeze(h.ip.getattr(o, a, st), st) for a in ("unit", "units", "factors"))

    def alltables(h):
        r = [ck.src.resolve(ck.src.cls("Base").mod.name, n) for n in ("UNITS", "FACTORS")]
        return [h.ip.freeze(h.ip.resolved(x, h.st), h.st) for x in r]
    orig = dict(zip(("UNITS", "FACTORS"), alltables(H(ck.src))))

    def expected(s):
        h = H(ck.src)
        r = [ck.src.resolve(ck.src.cls("Base").mod.name, n) for n in ("UNITS", "FACTORS")]
        u, f = [h.ip.freeze(h.ip.resolved(x, h.st), h.st) for x in r]
        pick = lambda t: next(e.args[2] for e in t.args[1:] if e.args[1] is string(s))
        return (string(s), pick(u), pick(f))
    for cls in classes:
        wh = where(ck.src, cls, "set_units")
        wi = where(ck.src, cls, "__init__")
        for s in list(U):
            def one(build_case):
                h = H(ck.src)
                if build_case == "constructor":
                    o = build(h, cls, s)
                else:
                    o = build(h, cls, None if build_case == "default" else build_case)
                    h.call(o, "set_units", s)
                    r, _ = h.refusal()
                    if r is not FALSE:
                        ck.same(rule + " (answered)", wh, r, FALSE, case=f"{cls} {s}")
                ck.note(h.ip)
                for nm, r0 in zip(("UNITS", "FACTORS"), alltables(h)):
                    ck.same("the shared tables are never written to", wh, r0, orig[nm], case=f"{cls}: {nm} after selecting {s!r} ({build_case})")
                for nm, a, e in zip(("unit", "units", "factors"), state(h, o), expected(s)):
                    ck.same(rule, wi if build_case == "constructor" else wh, a, e, case=f"{cls}: {nm} for {s!r} ({build_case})")
            for bc in ["constructor", "default"] + [x for x in U if x != s]:
                try:
                    one(bc)
                except Exception as e:
                    ck.undecided(rule, wh, f"{type(e).__name__}: {e}", f"{cls} {s} {bc}")
        for start in list(U):
            for u, what in ((string("bogus"), "'bogus'"), (string(""), "''"), (NONE, "None"), (string("FIELD"), "'FIELD'")):
                try:
                    h = H(ck.src)
                    o = build(h, cls, start)
                    before = state(h, o)
                    h.ip.raises = []
                    h.call(o, "set_units", u)
                    r, ex = h.refusal()
                    if what == "'FIELD'" and r is FALSE:
                        # accepting other spellings is fine as long as all three agree
                        continue
                    ck.truth("an unknown unit system is refused", wh, True if r is TRUE else None if r.unk else False, f"refused when {r}", f"{cls} {what} after {start!r}")
                    for e in h.raises:
                        for nm, a, b in zip(("unit", "units", "factors"), state(h, o, e.state), before):
                            ck.same("a refused unit system changes nothing", wh, a, b, case=f"{cls}: {nm} after refusing {what} (was {start!r})")
                except Exception as e:
                    ck.undecided("an unknown unit system is refused", wh, f"{type(e).__name__}: {e}", f"{cls} {what}")
