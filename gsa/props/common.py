"""Specification helpers shared by the property modules."""
from __future__ import annotations

from .. import arrays as A
from .. import bytesfs as B
from .. import evalr
from .. import interp as I
from .. import lib
from .. import scen as S
from .. import terms as T
from .. import world as W
from ..arrays import Arr
from ..run import Obl, Scenario
from ..terms import E

C0 = W.SH_C0
DEGS = (0, 1, 2, 3)
F32 = "float32"


def F(ip, name):
    return ip.get(name)


def call(ip, name, *a, **k):
    return ip.call(ip.get(name), list(a), k)


def meth(ip, d, name, *a, **k):
    return ip.call(ip.getattr(d, name), list(a), k)


def generic(c, n, name="i"):
    """a generic index in [0, n)"""
    s = T.fresh(name, "i", 0)
    evalr.DOMAIN[s] = (0, n)
    c.assume(T.le(0, s))
    c.assume(T.lt(s, n))
    return s


class scope:
    """assumptions made inside are dropped on exit"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.n, self.st = len(self.c.facts), self.c.stamp

    def __exit__(self, *a):
        self.c._pop_facts(self.n, self.st)


def log(x):
    return T.fn1("log", x)


def clip(x, lo, hi):
    return T.mn(T.mx(x, lo), hi)


def logit_clipped(x, lo=1e-4, hi=1 - 1e-4):
    p = clip(x, lo, hi)
    return log(T.div(p, T.sub(1.0, p)))


def sigmoid(x):
    return T.div(1.0, T.add(1.0, T.fn1("exp", T.neg(x))))


def to_ply(linear=(), rgb=False):
    """per-field conversion to the stored format"""
    v = {}
    if "scales" in linear:
        v["scales"] = lambda x, ix=None: log(T.mx(x, 1e-9))
    if "opacities" in linear:
        v["opacities"] = lambda x, ix=None: logit_clipped(x)
    if rgb:
        v["sh0"] = lambda x, ix=None: T.div(T.sub(x, 0.5), C0)
    return v


def linear_inputs(tag=""):
    """draws for fields in linear format"""
    evalr.GENERATORS[tag + "scales"] = lambda r: r.choice([0.0, 1e-12, r.uniform(1e-4, 3)]) if r.random() < 0.2 else r.uniform(1e-4, 3)
    evalr.GENERATORS[tag + "opacities"] = lambda r: r.choice([0.0, 1.0, 1e-6, 0.999999]) if r.random() < 0.2 else r.uniform(0, 1)


def ply_inputs(tag=""):
    """draws for fields in stored (log / logit) format, beyond doubt for the format heuristic"""
    evalr.GENERATORS[tag + "scales"] = lambda r: r.uniform(-8, -1)
    evalr.GENERATORS[tag + "opacities"] = lambda r: r.uniform(-6, -0.5)


def head(f):
    """literal header bytes of an abstract file"""
    return f.segs[0] if f.segs and isinstance(f.segs[0], bytes) else b""


def path_arg(ip, p):
    return p


def obj_name(x):
    return x.d.get("name") if isinstance(x, I.Obj) else x


def first(it):
    for x in it:
        if x:
            return x
    return None


def is_cls(ip, x, kind):
    return isinstance(x, I.Obj) and x.cls is ip.get("gsply.GSData" if kind == "np" else "gsply.torch.gstensor.GSTensor")


def under(sc, label, setup, tier="quick", wrap=None):
    """the same scenario with `setup(ctx)` done first"""

    def fn(c, ip, o):
        setup(c)
        return sc.fn(c, ip, wrap(c, o) if wrap else o)

    return Scenario(f"{label}:{sc.name}", fn, sc.raises, sc.maxpaths, tier)
