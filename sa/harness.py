"""Small driver for abstract runs of single classes."""
from .terms import *
from .interp import Interp, St, Diverge
from . import models as M


class H:
    def __init__(self, src, contracts=None, typemap=None):
        self.src = src
        self.ip = Interp(src, typemap, contracts)
        self.st = St()
        self.raises = []

    def val(self, x, s=None):
        s = s or self.st
        if isinstance(x, T):
            return x
        if isinstance(x, bool):
            return boolc(x)
        if isinstance(x, str):
            return string(x)
        if isinstance(x, int):
            return num(x)
        if x is None:
            return NONE
        if isinstance(x, tuple):
            return mk("tup", *[self.val(y, s) for y in x])
        if isinstance(x, list):
            return self.ip.newlist(s, [self.val(y, s) for y in x])
        if isinstance(x, dict):
            return self.ip.newdict(s, [(self.val(k, s), self.val(v, s)) for k, v in x.items()])
        raise TypeError(x)

    def arr(self, name, *shape):
        return self.ip.alloc(self.st, M.mkarr(shape, lambda x: mk("at", sym(name, "arr"), *x)))

    def new(self, cls, *args, **kw):
        c = self.src.cls(cls) if isinstance(cls, str) else cls
        fr0 = len(self.ip.raises)
        o = self.ip.instantiate(c, [self.val(a) for a in args], {k: self.val(v) for k, v in kw.items()}, self.st)
        return o

    def call(self, o, name, *args, **kw):
        """run on the harness state itself (effects stay); returns the raw value"""
        v = self.ip.call_method(o, name, [self.val(a) for a in args], {k: self.val(x) for k, x in kw.items()}, self.st)
        self.raises = list(self.ip.raises)
        return v

    def fz(self, v):
        return self.ip.freeze(v, self.st) if v is not None else None

    def get(self, o, name):
        return self.ip.getattr(o, name, self.st)

    def refusal(self):
        return bor(*[e.guard for e in self.raises]), {e.value.args[0] for e in self.raises if e.value.op == "exc"}
