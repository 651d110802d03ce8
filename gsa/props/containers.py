"""Containers: selection, histories of operations, copies, format records, masks, transfer."""
from __future__ import annotations

import itertools

from . import prop
from .common import *
from .files import spec_rows, vertex_file
from .reading import base_diff, outcome

SMALL = 5000  # rows; the large-file write path, which differs in buffering only, is C01's
LIB = {"np": "np", "torch": "torch"}


# ---------------------------------------------------------------- reference model
class V:
    """a field of the reference model: shape, dtype and a function of the index"""

    def __init__(self, shape, dtype, read):
        self.shape, self.dtype, self.read = tuple(shape), dtype, read
        self.ndim = len(self.shape)

    def __call__(self, ix):
        return self.read(tuple(ix))

    def rows(self, m, row):
        return V((m, *self.shape[1:]), self.dtype, lambda ix: self((row(ix[0]), *ix[1:])))

    def map(self, fn, dtype=None):
        return V(self.shape, dtype or self.dtype, lambda ix: fn(self(ix)))

    def cat(self, o):
        n = self.shape[0]
        return V((T.add(n, o.shape[0]), *self.shape[1:]), self.dtype, lambda ix: T.ite(T.lt(ix[0], n), self(ix), o((T.sub(ix[0], n), *ix[1:]))))


def of(v):
    return None if v is None else V(v.shape, v.dtype, v)


class M:
    """what a container should hold; immutable"""

    def __init__(self, n, f, masks, names, format):
        self.n, self.f, self.masks, self.names, self.format = n, f, masks, names, format

    @classmethod
    def snap(cls, ip, d, n):
        s = W.Snap(ip, d)
        return cls(n, {k: of(v) for k, v in s.f.items()}, of(s.masks), s.names, s.format)

    def but(self, **k):
        m = M(self.n, dict(self.f), self.masks, self.names, dict(self.format) if self.format else self.format)
        for a, v in k.items():
            setattr(m, a, v)
        return m

    def rows(self, n, row):
        return self.but(n=n, f={k: v and v.rows(n, row) for k, v in self.f.items()}, masks=self.masks and self.masks.rows(n, row))

    def map(self, **fns):
        return self.but(f={k: v.map(fns[k]) if k in fns and v is not None else v for k, v in self.f.items()})

    def fmt(self, **k):
        return self.but(format={**self.format, **k})

    @property
    def deg(self):
        v = self.f["shN"]
        return {0: 0, 3: 1, 8: 2, 15: 3}[0 if v is None else v.shape[1]]


def base_of(ip, d):
    return ip.getattr(d, "_base")


def content(c, ip, d, m, kind, masks=True, fmt=True, dtype=True, tol=1e-5):
    if not is_cls(ip, d, kind):
        return f"result is {lib.str_of(d)}"
    x = W.same_content(c, ip, d, m, masks=masks, fmt=fmt, dtype=dtype, tol=tol)
    if x:
        return x
    k = ip.call(ip.getattr(d, "__len__"), [], {})
    e = T.eq(k, m.n)
    if e is not True and S.term_diff(c.path(), k, m.n):
        return f"len() is {S.term_diff(c.path(), k, m.n)}"
    return None


# ---------------------------------------------------------------- operations
class Op:
    def __init__(self, name, fn, kinds=("np", "torch"), inplace=False, copies=False, needs=None, base_only=False, where=None):
        self.name, self.fn, self.kinds, self.inplace, self.copies, self.needs = name, fn, kinds, inplace, copies, needs
        self.where = where or "__getitem__"


OPS = {}


def op(name, **k):
    def deco(f):
        OPS[name] = Op(name, f, **k)
        return f

    return deco


_k = itertools.count()


def keyname(s):
    return f"{s}{next(_k)}"


def sel_slice(sl, row, rows, need=None, copies=False):
    def fn(c, ip, d, m, kind):
        if need:
            c.assume(T.le(need, m.n))
        return ip.getitem(d, sl), m.rows(rows(m.n), lambda i: row(i, m.n))

    return fn


OPS["slice[2:]"] = Op("slice[2:]", sel_slice(slice(2, None), lambda i, n: T.add(i, 2), lambda n: T.sub(n, 2), 5))
OPS["slice[::2]"] = Op("slice[::2]", sel_slice(slice(None, None, 2), lambda i, n: T.mul(i, 2), lambda n: T.fdiv(T.add(n, 1), 2), 3))
OPS["slice[1:-1]"] = Op("slice[1:-1]", sel_slice(slice(1, -1), lambda i, n: T.add(i, 1), lambda n: T.sub(n, 2), 5))
OPS["slice[-3:]"] = Op("slice[-3:]", sel_slice(slice(-3, None), lambda i, n: T.add(i, T.sub(n, 3)), lambda n: 3, 5))
OPS["slice[::-1]"] = Op("slice[::-1]", sel_slice(slice(None, None, -1), lambda i, n: T.sub(T.sub(n, 1), i), lambda n: n, 3), kinds=("np",))
OPS["slice[:]"] = Op("slice[:]", sel_slice(slice(None), lambda i, n: i, lambda n: n))


@op("slice[a:b]")
def _(c, ip, d, m, kind):
    a, b = T.fresh("a", "i", 0), T.fresh("b", "i", 0)
    evalr.DOMAIN[b] = (0, T.add(m.n, 1))
    evalr.DOMAIN[a] = (0, T.add(b, 1))
    for f in (T.le(0, a), T.le(a, b), T.le(b, m.n)):
        c.assume(f)
    return ip.getitem(d, slice(a, b)), m.rows(T.sub(b, a), lambda i: T.add(i, a))


def mask_rows(c, m, key):
    v = T.fresh("v", "i", 0)
    body = key.snap()((v,))
    k = T.cnt(v, m.n, body)
    return k, lambda i: T.nth(v, m.n, body, i)


def mask_key(c, m, kind, tag="key"):
    k = S.arr(keyname(tag), (m.n,), "bool", LIB[kind])
    return k


@op("mask", copies=True)
def _(c, ip, d, m, kind):
    k = mask_key(c, m, kind)
    return ip.getitem(d, k), m.rows(*mask_rows(c, m, k))


@op("numpy-mask", kinds=("torch",), copies=True)
def _(c, ip, d, m, kind):
    k = mask_key(c, m, "np")
    return ip.getitem(d, k), m.rows(*mask_rows(c, m, k))


def index_rows(m, read):
    return lambda i: T.ite(T.lt(read((i,)), 0), T.add(read((i,)), m.n), read((i,)))


def index_key(c, m, kind, dtype="int64", lib_=None):
    c.oracle = True
    c.assume(T.le(3, m.n))
    nm = keyname("idx")
    k = T.fresh("M", "i", 1, SMALL)
    evalr.POOL[k] = [1, 2, 4, 5]
    evalr.GENERATORS[nm] = lambda r: r.randint(-3, 2)
    return S.arr(nm, (k,), dtype, lib_ or LIB[kind]), k


@op("index", copies=True)
def _(c, ip, d, m, kind):
    key, k = index_key(c, m, kind)
    return ip.getitem(d, key), m.rows(k, index_rows(m, key.snap()))


@op("numpy-index32", copies=True)
def _(c, ip, d, m, kind):
    key, k = index_key(c, m, kind, "int32", "np")
    return ip.getitem(d, key), m.rows(k, index_rows(m, key.snap()))


@op("list", copies=True)
def _(c, ip, d, m, kind):
    c.assume(T.le(4, m.n))
    ks = [3, 0, -1, 2, 2]
    return ip.getitem(d, ks), m.rows(5, lambda i: sel(i, [k if k >= 0 else T.add(m.n, k) for k in ks]))


@op("bool-list", copies=True)
def _(c, ip, d, m, kind):
    """a list of booleans is a mask"""
    if m.n != 6:
        return d, m
    return ip.getitem(d, [True, False, True, True, False, False]), m.rows(3, lambda i: sel(i, [0, 2, 3]))


def sel(i, xs):
    if not isinstance(i, E):
        return xs[i]
    out = xs[-1]
    for q in range(len(xs) - 2, -1, -1):
        out = T.ite(T.eq(i, q), xs[q], out)
    return out


@op("get_gaussian", where="get_gaussian")
def _(c, ip, d, m, kind):
    i = generic(c, m.n, "g")
    return meth(ip, d, "get_gaussian", i), m.rows(1, lambda r: i)


@op("get_gaussian(-2)", where="get_gaussian")
def _(c, ip, d, m, kind):
    c.assume(T.le(3, m.n))
    return meth(ip, d, "get_gaussian", -2), m.rows(1, lambda r: T.sub(m.n, 2))


@op("copy_slice[2:]", kinds=("np",), copies=True, where="copy_slice")
def _(c, ip, d, m, kind):
    c.assume(T.le(5, m.n))
    return meth(ip, d, "copy_slice", slice(2, None)), m.rows(T.sub(m.n, 2), lambda i: T.add(i, 2))


@op("copy_slice[::2]", kinds=("np",), copies=True, where="copy_slice")
def _(c, ip, d, m, kind):
    c.assume(T.le(5, m.n))
    return meth(ip, d, "copy_slice", slice(None, None, 2)), m.rows(T.fdiv(T.add(m.n, 1), 2), lambda i: T.mul(i, 2))


@op("copy_slice(int)", kinds=("np",), copies=True, where="copy_slice")
def _(c, ip, d, m, kind):
    c.assume(T.le(5, m.n))
    return meth(ip, d, "copy_slice", 2), m.rows(1, lambda i: 2)


@op("copy_slice(-1)", kinds=("np",), copies=True, where="copy_slice")
def _(c, ip, d, m, kind):
    c.assume(T.le(5, m.n))
    return meth(ip, d, "copy_slice", -1), m.rows(1, lambda i: T.sub(m.n, 1))


@op("copy_slice(mask)", kinds=("np",), copies=True, where="copy_slice")
def _(c, ip, d, m, kind):
    k = mask_key(c, m, kind)
    return meth(ip, d, "copy_slice", k), m.rows(*mask_rows(c, m, k))


@op("copy_slice(index)", kinds=("np",), copies=True, where="copy_slice")
def _(c, ip, d, m, kind):
    key, k = index_key(c, m, kind)
    return meth(ip, d, "copy_slice", key), m.rows(k, index_rows(m, key.snap()))


def masks_body(m, mode, layers=None):
    """the combined mask of the model at a row"""
    if m.masks.ndim == 1:
        return lambda i: m.masks((i,))
    ks = range(m.masks.shape[1]) if layers is None else [m.names.index(x) for x in layers]

    def f(i):
        out = None
        for k in ks:
            b = m.masks((i, k))
            out = b if out is None else (T.and_(out, b) if mode == "and" else T.or_(out, b))
        return out

    return f


def masked(m, f):
    v = T.fresh("v", "i", 0)
    body = f(v)
    return m.rows(T.cnt(v, m.n, body), lambda i: T.nth(v, m.n, body, i))


def has_masks(m):
    return m.masks is not None


@op("apply_masks", copies=True, needs=has_masks, where="apply_masks")
def _(c, ip, d, m, kind):
    return meth(ip, d, "apply_masks"), masked(m, masks_body(m, "and"))


@op("apply_masks(inplace)", inplace=True, needs=has_masks, where="apply_masks")
def _(c, ip, d, m, kind):
    return meth(ip, d, "apply_masks", mode="or", inplace=True), masked(m, masks_body(m, "or"))


# whole-container operations
@op("copy", kinds=("np",), copies=True, where="copy")
def _(c, ip, d, m, kind):
    return meth(ip, d, "copy"), m


@op("clone", kinds=("torch",), copies=True, where="clone")
def _(c, ip, d, m, kind):
    return meth(ip, d, "clone"), m


@op("consolidate", where="consolidate")
def _(c, ip, d, m, kind):
    return meth(ip, d, "consolidate"), m


@op("make_contiguous", kinds=("np",), inplace=True, where="make_contiguous")
def _(c, ip, d, m, kind):
    return meth(ip, d, "make_contiguous"), m


@op("make_contiguous(False)", kinds=("np",), where="make_contiguous")
def _(c, ip, d, m, kind):
    return meth(ip, d, "make_contiguous", inplace=False), m


def is_ply(m):
    return m.format.get("scales") == "SCALES_PLY" and m.format.get("opacities") == "OPACITIES_PLY"


def is_lin(m):
    return m.format.get("scales") == "SCALES_LINEAR" and m.format.get("opacities") == "OPACITIES_LINEAR"


LIN = dict(scales="SCALES_LINEAR", opacities="OPACITIES_LINEAR")
PLY = dict(scales="SCALES_PLY", opacities="OPACITIES_PLY")


def quat_unit(v, lo=1e-8):
    def read(ix):
        i, k = ix
        q = [v((i, j)) for j in range(4)]
        n = T.fn1("sqrt", T.add(T.add(T.mul(q[0], q[0]), T.mul(q[1], q[1])), T.add(T.mul(q[2], q[2]), T.mul(q[3], q[3]))))
        u = [T.div(x, n) for x in q]
        return T.ite(T.lt(n, lo), sel(k, [0.0, 0.0, 0.0, 1.0]), sel(k, u))

    return V(v.shape, v.dtype, read)


def linear_of(m, kind, **k):
    if kind == "np":
        lo, hi = k.get("min_scale", 1e-4), k.get("max_scale", 100.0)
        r = m.map(scales=lambda x: clip(T.fn1("exp", x), lo, hi), opacities=sigmoid)
        r.f["quats"] = quat_unit(m.f["quats"], k.get("min_quat_norm", 1e-8))
    else:
        r = m.map(scales=lambda x: T.fn1("exp", x), opacities=sigmoid)
    return r.fmt(**LIN)


def ply_of(m, kind, lo=1e-4, hi=1 - 1e-4, ms=1e-9):
    return m.map(scales=lambda x: log(T.mx(x, ms)), opacities=lambda x: logit_clipped(x, lo, hi)).fmt(**PLY)


@op("denormalize", inplace=True, needs=is_ply, where="denormalize")
def _(c, ip, d, m, kind):
    return meth(ip, d, "denormalize"), linear_of(m, kind)


@op("denormalize(False)", needs=is_ply, where="denormalize")
def _(c, ip, d, m, kind):
    return meth(ip, d, "denormalize", inplace=False), linear_of(m, kind)


@op("normalize", inplace=True, needs=is_lin, where="normalize")
def _(c, ip, d, m, kind):
    return meth(ip, d, "normalize"), ply_of(m, kind)


@op("normalize(False)", needs=is_lin, where="normalize")
def _(c, ip, d, m, kind):
    return meth(ip, d, "normalize", inplace=False), ply_of(m, kind)


def is_sh(m):
    return m.format.get("sh0") == "SH0_SH"


def is_rgb(m):
    return m.format.get("sh0") == "SH0_RGB"


def rgb_of(m):
    return m.map(sh0=lambda x: T.add(T.mul(x, C0), 0.5)).fmt(sh0="SH0_RGB")


def sh_of(m):
    return m.map(sh0=lambda x: T.div(T.sub(x, 0.5), C0)).fmt(sh0="SH0_SH")


@op("to_rgb", inplace=True, needs=is_sh, where="to_rgb")
def _(c, ip, d, m, kind):
    return meth(ip, d, "to_rgb"), rgb_of(m)


@op("to_rgb(False)", needs=is_sh, where="to_rgb")
def _(c, ip, d, m, kind):
    return meth(ip, d, "to_rgb", inplace=False), rgb_of(m)


@op("to_sh", inplace=True, needs=is_rgb, where="to_sh")
def _(c, ip, d, m, kind):
    return meth(ip, d, "to_sh"), sh_of(m)


@op("to_sh(False)", needs=is_rgb, where="to_sh")
def _(c, ip, d, m, kind):
    return meth(ip, d, "to_sh", inplace=False), sh_of(m)


@op("apply_pre_activations", kinds=("np",), inplace=True, needs=is_ply, where="denormalize")
def _(c, ip, d, m, kind):
    return call(ip, "gsply.apply_pre_activations", d, inplace=True), linear_of(m, kind)


@op("apply_pre_activations(False)", kinds=("np",), needs=is_ply, copies=True, where="denormalize")
def _(c, ip, d, m, kind):
    return call(ip, "gsply.apply_pre_activations", d, inplace=False), linear_of(m, kind)


@op("apply_pre_deactivations", kinds=("np",), inplace=True, needs=is_lin, where="normalize")
def _(c, ip, d, m, kind):
    return call(ip, "gsply.apply_pre_deactivations", d, inplace=True), ply_of(m, kind)


@op("apply_pre_deactivations(False)", kinds=("np",), needs=is_lin, copies=True, where="normalize")
def _(c, ip, d, m, kind):
    return call(ip, "gsply.apply_pre_deactivations", d, inplace=False), ply_of(m, kind)


@op("to_ply_tensor", kinds=("torch",), needs=is_lin, where="to_ply_tensor")
def _(c, ip, d, m, kind):
    return meth(ip, d, "to_ply_tensor"), ply_of(m, kind)


@op("with_format", where="with_format")
def _(c, ip, d, m, kind):
    f = "SCALES_LINEAR" if m.format["scales"] == "SCALES_PLY" else "SCALES_PLY"
    return meth(ip, d, "with_format", scales=W.fmt_member(ip, f)), m.fmt(scales=f)


# field edits
def assign(f, view=False):
    def fn(c, ip, d, m, kind):
        v = m.f[f]
        nm = keyname("new_" + f)
        if f == "scales":
            evalr.GENERATORS[nm] = lambda r: r.uniform(0.01, 0.5) if m.format["scales"] == "SCALES_LINEAR" else r.uniform(-6, -1)
        if f == "opacities":
            evalr.GENERATORS[nm] = lambda r: r.uniform(0.01, 0.9) if m.format["opacities"] == "OPACITIES_LINEAR" else r.uniform(-5, 5)
        a = S.arr(nm, v.shape, v.dtype, LIB[kind], device=ip.getattr(d, f).device)
        rd = a.snap()
        ip.setattr(d, f, a)
        return d, m.but(f={**m.f, f: V(v.shape, v.dtype, rd)})

    return fn


for _f in ("means", "opacities", "shN"):
    OPS[f"assign {_f}"] = Op(f"assign {_f}", assign(_f), inplace=True, needs=(lambda m: m.f["shN"] is not None and m.f["shN"].shape[1]) if _f == "shN" else None, where="__setattr__")


def edit(f):
    """in-place write of one element of every row"""

    def fn(c, ip, d, m, kind):
        a = ip.getattr(d, f)
        key = (slice(None), 1) if a.ndim == 2 else (slice(None), 1, 0) if a.ndim == 3 else slice(None)
        ip.setitem(a, key, 0.25)
        v = m.f[f]

        def read(ix):
            if v.ndim == 1:
                return 0.25
            hit = T.eq(ix[1], 1)
            if v.ndim == 3:
                hit = T.and_(hit, T.eq(ix[2], 0))
            return T.ite(hit, 0.25, v(ix))

        return d, m.but(f={**m.f, f: V(v.shape, v.dtype, read)})

    return fn


for _f in ("scales", "quats", "sh0", "shN", "opacities"):
    OPS[f"edit {_f}"] = Op(f"edit {_f}", edit(_f), inplace=True, needs=(lambda m: m.f["shN"] is not None and m.f["shN"].shape[1]) if _f == "shN" else None, where="__setattr__")


# masks
def add_layer(c, ip, d, m, kind, name):
    k = S.arr(keyname("layer"), (ip.call(ip.getattr(d, "__len__"), [], {}),), "bool", LIB[kind])
    rd = k.snap()
    meth(ip, d, "add_mask_layer", name, k)
    if m.masks is None:
        return m.but(masks=V((m.n, 1), "bool", lambda ix: rd((ix[0],))), names=[name])
    old = m.masks
    L = 1 if old.ndim == 1 else old.shape[1]
    get = lambda i, j: old((i,)) if old.ndim == 1 else old((i, j))
    names = list(m.names) if m.names is not None else [f"layer_{j}" for j in range(L)]

    def read(ix):
        i, j = ix
        return rd((i,)) if T.eq(j, L) is True else get(i, j) if not isinstance(j, E) else T.ite(T.eq(j, L), rd((i,)), get(i, T.mn(j, L - 1)))

    return m.but(masks=V((m.n, L + 1), "bool", read), names=names + [name])


@op("add_mask_layer", inplace=True, where="add_mask_layer")
def _(c, ip, d, m, kind):
    return d, add_layer(c, ip, d, m, kind, f"new{0 if m.masks is None else m.masks.ndim if m.masks.ndim == 1 else m.masks.shape[1]}")


def remove_layer(m, name):
    k = m.names.index(name)
    if m.masks.ndim == 1 or m.masks.shape[1] == 1:
        return m.but(masks=None, names=None)
    old = m.masks
    L = old.shape[1]
    keep = [j for j in range(L) if j != k]
    names = [x for x in m.names if x != name]
    if len(keep) == 1:
        return m.but(masks=V((m.n,), "bool", lambda ix: old((ix[0], keep[0]))), names=names)
    return m.but(masks=V((m.n, L - 1), "bool", lambda ix: old((ix[0], sel(ix[1], keep)))), names=names)


@op("remove_mask_layer", inplace=True, needs=lambda m: m.masks is not None and m.names, where="remove_mask_layer")
def _(c, ip, d, m, kind):
    nm = m.names[-1]
    meth(ip, d, "remove_mask_layer", nm)
    return d, remove_layer(m, nm)


# combination
def cat(m, o, kind):
    """rows of m, then of o"""
    f = {k: (v.cat(o.f[k]) if v is not None and o.f[k] is not None else None) for k, v in m.f.items()}
    return m.but(n=T.add(m.n, o.n), f=f)


def add_masks(m, o):
    if m.masks is None and o.masks is None:
        return None, None
    if m.masks is not None and o.masks is not None:
        two = lambda v: v if v.ndim == 2 else V((v.shape[0], 1), "bool", lambda ix: v((ix[0],)))
        a, b = two(m.masks), two(o.masks)
        if a.shape[1] != b.shape[1]:
            return None, None
        return a.cat(b), list(m.names if m.names is not None else o.names) if (m.names is not None or o.names is not None) else None
    s, no = (m, o.n) if m.masks is not None else (o, m.n)
    z = V((no, *s.masks.shape[1:]), "bool", lambda ix: False)
    return (s.masks.cat(z) if m.masks is not None else z.cat(s.masks)), (list(s.names) if s.names else None)


@op("add", copies=True, where="add")
def _(c, ip, d, m, kind):
    k = S.count("N2", pool=[1, 2, 3, 5], hi=SMALL)
    b = base_of(ip, d) is not None
    o = other(c, ip, m, kind, k, b)
    om = M.snap(ip, o, k)
    r = cat(m, om, kind)
    mk, nm = add_masks(m, om)
    return meth(ip, d, "add", o), r.but(masks=mk, names=nm)


def other(c, ip, m, kind, k, base, tag=None, masks=None, names=None):
    """a second container of the same degree and format"""
    tag = tag or keyname("o")
    o = W.make(kind, ip, c, k, m.deg, base=base, tag=tag, masks=masks, names=names)
    ip.setattr(o, "_format", dict_of(ip, m.format))
    return o


def dict_of(ip, names):
    return {k: W.fmt_member(ip, v) for k, v in names.items()}


# transfer
@op("from_gsdata", kinds=("np",), where="from_gsdata")
def _(c, ip, d, m, kind):
    g = ip.call(ip.getattr(ip.get("gsply.torch.gstensor.GSTensor"), "from_gsdata"), [d], {"device": "cpu"})
    return g, m.but(kind="torch")


@op("to_gsdata", kinds=("torch",), where="to_gsdata")
def _(c, ip, d, m, kind):
    return meth(ip, d, "to_gsdata"), m.but(kind="np")


def kind_after(m, kind):
    return getattr(m, "kind", kind)


# ---------------------------------------------------------------- starting points
def start(c, ip, kind, deg, base=False, masks=None, names=None, linear=False, rgb=False, tag="", dtype=F32, pool=None, contig=True, n=None, device="cpu"):
    if n is None:
        n = S.count(pool=pool or [1, 2, 3, 5, 7, 130, 256, 257, 512], hi=SMALL)
    kw = dict(base=base, masks=masks, names=names, linear=("scales", "opacities") if linear else (), rgb=rgb, tag=tag)
    if dtype != F32:
        kw["dtype"] = dtype
    if kind == "np" and not contig:
        kw["contig"] = False
    if kind == "torch" and device != "cpu":
        kw["device"] = device
    (linear_inputs if linear else ply_inputs)(tag)
    d = W.make(kind, ip, c, n, deg, **kw)
    if deg == 0 and not base and "shN" in S.FORCED:  # the other way of having no SH bands
        ip.setattr(d, "shN", None if kind == "np" else S.arr(tag + "shN", (n, 0, 3), dtype, "torch", device=device))
    return d, M.snap(ip, d, n)


def reversed_views(checks, prefix):
    """pairs that start from a reversed view: the one view with the shape of the array it looks at"""
    out = []
    for x in HIST:
        for deg, base, mk, linear, rgb in ((1, False, "2", False, False), (3, True, "none", True, True)):
            if applicable(["slice[::-1]", x], "np", mk, linear, rgb, deg):
                out.append(seq_scen("np", ["slice[::-1]", x], deg, base, mk, linear, rgb, checks, prefix))
    return out


def bandless(out):
    """scenarios of degree 0 again, with an absent instead of an empty shN on the host, and an empty instead of an absent one on the device"""

    def flip(c):
        S.FORCED["shN"] = True

    return out + [under(s, "bandless", flip, s.tier) for s in out if "deg0" in s.name and "arrays" in s.name]


MASKS = {"none": (None, None), "1d": ("1d", None), "1d-named": ("1d", ["keep"]), "2": (2, ["a", "b"]), "3": (3, ["a", "b", "c"]), "2-unnamed": (2, None)}


def start_name(kind, deg, base, mk, linear=False, rgb=False):
    return f"{kind},deg{deg},{'base' if base else 'arrays'},masks-{mk}{',linear' if linear else ''}{',rgb' if rgb else ''}"


def seq_scen(kind, ops, deg, base, mk="none", linear=False, rgb=False, checks=("content",), prefix="seq", maxpaths=60, tier="quick", dtype=F32, contig=True, n=None):
    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names, linear, rgb, dtype=dtype, contig=contig, n=n)
        k = kind
        for x in ops:
            p = OPS[x]
            if k not in p.kinds or (p.needs and not p.needs(m)):
                return
            src, sm, sd = d, m, k
            d, m = p.fn(c, ip, d, m, k)
            k = kind_after(m, k)
        w = W.method_where(ip, k if p.where not in ("from_gsdata",) else "torch", p.where)
        if "content" in checks:
            o("content", w, lambda: content(c, ip, d, m, k, tol=2e-4))
        if "base" in checks:
            o("base", w, lambda: base_diff(c, ip, d, m.deg, m.n))
        if "source" in checks and not p.inplace:
            o("source", w, lambda: content(c, ip, src, sm, sd))
        if "save" in checks:
            meth(ip, d, "save", "/out/x.ply", compressed=False)
            f = c.fs.get("/out/x.ply")
            lin = [x for x in ("scales", "opacities") if m.format[x].endswith("LINEAR")]
            conv = to_ply(lin, m.format["sh0"] == "SH0_RGB")
            o("saved", w, lambda: "no file was written" if f is None else vertex_file(c, f, m.deg, m.n, spec_rows(m, conv), 5e-4))

    return Scenario(f"{prefix}:{'; '.join(ops)}@{start_name(kind, deg, base, mk, linear, rgb)}{',' + dtype if dtype != F32 else ''}{'' if contig else ',strided'}", fn, maxpaths=maxpaths, tier=tier)


SELECT = ["slice[2:]", "slice[::2]", "slice[1:-1]", "slice[-3:]", "slice[::-1]", "slice[:]", "slice[a:b]", "mask", "numpy-mask", "index", "numpy-index32", "list", "bool-list", "get_gaussian", "get_gaussian(-2)",
          "copy_slice[2:]", "copy_slice[::2]", "copy_slice(int)", "copy_slice(-1)", "copy_slice(mask)", "copy_slice(index)", "apply_masks", "apply_masks(inplace)"]


@prop("C10", "Every way of selecting rows is interpreted on containers with and without a shared buffer, every mask arrangement and degree; all fields, mask layers, layer names and the format record of the "
      "result are compared with the rows that were asked for.")
def c10(tier):
    out = []
    for kind in ("np", "torch"):
        for k, x in enumerate(SELECT):
            if kind not in OPS[x].kinds:
                continue
            for j, (mk, deg) in enumerate((("none", 0), ("2", 1), ("1d", 3), ("1d-named", 2), ("3", 0))):
                for base in (False, True):
                    if OPS[x].needs is has_masks and mk == "none":
                        continue
                    out.append(seq_scen(kind, [x], deg, base, mk, checks=("content", "base"), prefix="select", linear=(j == 1), rgb=(j == 3), n=6 if x == "bool-list" else None))
    return bandless(out)


# ---------------------------------------------------------------- histories
HIST = ["slice[2:]", "slice[::2]", "mask", "index", "copy_slice[2:]", "apply_masks(inplace)", "copy", "clone", "consolidate", "make_contiguous", "denormalize", "denormalize(False)",
        "normalize", "normalize(False)", "to_rgb", "to_rgb(False)", "to_sh", "apply_pre_activations", "apply_pre_deactivations", "with_format", "assign means", "assign opacities", "assign shN",
        "edit scales", "edit sh0", "edit shN", "edit opacities", "add_mask_layer", "add", "from_gsdata", "to_gsdata"]


def applicable(seq, kind, mk, linear=False, rgb=False, deg=1):
    """static pre-filter of sequences (the needs are checked again on the abstract state)"""
    k = kind
    f = {"scales": "SCALES_LINEAR" if linear else "SCALES_PLY", "opacities": "OPACITIES_LINEAR" if linear else "OPACITIES_PLY", "sh0": "SH0_RGB" if rgb else "SH0_SH"}
    masks = mk != "none"
    for x in seq:
        p = OPS[x]
        if k not in p.kinds:
            return False
        if p.needs is is_ply and not (f["scales"] == "SCALES_PLY" and f["opacities"] == "OPACITIES_PLY"):
            return False
        if p.needs is is_lin and not (f["scales"] == "SCALES_LINEAR" and f["opacities"] == "OPACITIES_LINEAR"):
            return False
        if p.needs is is_sh and f["sh0"] != "SH0_SH" or p.needs is is_rgb and f["sh0"] != "SH0_RGB":
            return False
        if p.needs is has_masks and not masks:
            return False
        if x.endswith("shN") and deg == 0:
            return False
        if x.startswith(("denormalize", "apply_pre_act")):
            f.update(scales="SCALES_LINEAR", opacities="OPACITIES_LINEAR")
        elif x.startswith(("normalize", "apply_pre_deact", "to_ply")):
            f.update(scales="SCALES_PLY", opacities="OPACITIES_PLY")
        elif x.startswith("to_rgb"):
            f["sh0"] = "SH0_RGB"
        elif x.startswith("to_sh"):
            f["sh0"] = "SH0_SH"
        elif x == "with_format":
            f["scales"] = "SCALES_LINEAR" if f["scales"] == "SCALES_PLY" else "SCALES_PLY"
        elif x == "add_mask_layer":
            masks = True
        elif x == "from_gsdata":
            k = "torch"
        elif x == "to_gsdata":
            k = "np"
    return True


def histories(kind, deg, base, mk, linear, rgb, checks, prefix, length=2, ops=HIST, tier="quick"):
    out = []
    for seq in itertools.product(ops, repeat=length):
        if applicable(seq, kind, mk, linear, rgb, deg) and sum(x in ("mask", "index", "apply_masks(inplace)", "add") for x in seq) < 2:
            out.append(seq_scen(kind, list(seq), deg, base, mk, linear, rgb, checks, prefix, tier=tier))
    return out


@prop("C11", "Every ordered pair of container operations is interpreted, starting from containers with and without a shared buffer; the fields, masks and format record of the result are compared with "
      "the composition of the operations' meanings, and every field with the column of the shared buffer it is kept in.")
def c11(tier):
    out = []
    for kind in ("np", "torch"):
        out += histories(kind, 1, True, "2", False, False, ("content", "base"), "history")
        out += histories(kind, 0, False, "1d-named", True, True, ("content", "base"), "history")
        out += reversed_views(("content", "base"), "history") if kind == "np" else []
        if tier == "thorough":
            out += histories(kind, 3, False, "none", False, True, ("content", "base"), "history")
            out += histories(kind, 2, True, "none", True, False, ("content", "base"), "history")
            out += histories(kind, 1, True, "2", False, False, ("content", "base"), "history", 3, [x for x in HIST if x not in ("slice[::2]", "index", "copy_slice[2:]", "edit opacities", "assign means", "denormalize(False)", "normalize(False)", "to_rgb(False)")])
    return out


@prop("C12", "Every container operation and every ordered pair of operations is interpreted and followed by saving; the bytes of the file are compared with the standard layout of the "
      "current (composed) contents, so stale shared buffers, wrong strides and stale format records all show up.")
def c12(tier):
    out = []
    for kind in ("np", "torch"):
        for x in OPS:
            for deg, base, mk, linear, rgb in ((0, True, "none", False, False), (0, False, "none", False, False), (1, False, "1d", True, False), (2, True, "2", True, True), (3, False, "none", False, True), (3, True, "1d", False, False)):
                if x in ("slice[-3:]", "list", "bool-list") and linear:
                    continue  # a constant number of rows: the conversion kernels would be unrolled into a path per row and clamp
                if applicable([x], kind, mk, linear, rgb, deg):
                    out.append(seq_scen(kind, [x], deg, base, mk, linear, rgb, ("save",), "saved", n=6 if x == "bool-list" else None))
        out += histories(kind, 1, True, "none", False, False, ("save",), "saved")
        out += reversed_views(("save",), "saved") if kind == "np" else []
        if tier == "thorough":
            out += histories(kind, 1, False, "1d", True, True, ("save",), "saved")
            out += histories(kind, 3, True, "none", False, True, ("save",), "saved")
    return bandless(out)


# ---------------------------------------------------------------- effects on the source and independence of copies
@prop("C13", "Every operation that is not in-place, every writer and every transfer is interpreted; the container it was applied to (fields, masks, layer names, format record) and the caller's "
      "arrays are compared with their state before the call.")
def c13(tier):
    out = []
    for kind in ("np", "torch"):
        for x in OPS:
            if OPS[x].inplace:
                continue
            for deg, base, mk, linear, rgb in ((0, True, "none", False, False), (1, False, "2", True, False), (2, True, "2", True, True), (3, False, "none", False, True), (1, True, "1d-named", False, False)):
                if applicable([x], kind, mk, linear, rgb, deg):
                    out.append(seq_scen(kind, [x], deg, base, mk, linear, rgb, ("source",), "source", n=6 if x == "bool-list" else None))
    for wr in USES:
        kind = USES[wr][0]
        for deg, base, mk, linear, rgb in ((0, True, "none", False, False), (1, False, "2", True, False), (2, True, "2", True, True), (3, False, "none", False, True)):
            out.append(use_scen(wr, kind, deg, base, mk, linear, rgb))
    return bandless(out)


def five(ip, d):
    return [ip.getattr(d, f) for f in W.FIELDS]


USES = {
    "GSData.save": ("np", lambda ip, d: meth(ip, d, "save", "/out/x.ply")),
    "GSData.save(compressed)": ("np", lambda ip, d: meth(ip, d, "save", "/out/x.ply", compressed=True)),
    "write_uncompressed": ("np", lambda ip, d: call(ip, "gsply.writer.write_uncompressed", "/out/x.ply", d)),
    "write_compressed-arrays": ("np", lambda ip, d: call(ip, "gsply.writer.write_compressed", "/out/x.compressed.ply", *five(ip, d))),
    "plywrite-arrays": ("np", lambda ip, d: call(ip, "gsply.plywrite", "/out/x.ply", *five(ip, d))),
    "plywrite-arrays(compressed)": ("np", lambda ip, d: call(ip, "gsply.plywrite", "/out/x.ply", *five(ip, d), compressed=True)),
    "compress_to_bytes": ("np", lambda ip, d: call(ip, "gsply.compress_to_bytes", d)),
    "compress_to_arrays": ("np", lambda ip, d: call(ip, "gsply.compress_to_arrays", d)),
    "from_gsdata": ("np", lambda ip, d: ip.call(ip.getattr(ip.get("gsply.torch.gstensor.GSTensor"), "from_gsdata"), [d], {"device": "cpu"})),
    "from_gsdata(cuda)": ("np", lambda ip, d: ip.call(ip.getattr(ip.get("gsply.torch.gstensor.GSTensor"), "from_gsdata"), [d], {"device": "cuda"})),
    "plywrite-tensor": ("torch", lambda ip, d: call(ip, "gsply.plywrite", "/out/x.ply", d)),
    "plywrite-tensor(compressed)": ("torch", lambda ip, d: call(ip, "gsply.plywrite", "/out/x.ply", d, compressed=True)),
    "plywrite_gpu": ("torch", lambda ip, d: call(ip, "gsply.plywrite_gpu", "/out/x.compressed.ply", d)),
    "GSTensor.save": ("torch", lambda ip, d: meth(ip, d, "save", "/out/x.compressed.ply")),
    "GSTensor.save(uncompressed)": ("torch", lambda ip, d: meth(ip, d, "save", "/out/x.ply", compressed=False)),
    "to_gsdata": ("torch", lambda ip, d: meth(ip, d, "to_gsdata")),
    "to_ply_data": ("torch", lambda ip, d: meth(ip, d, "to_ply_data")),
    "half": ("torch", lambda ip, d: meth(ip, d, "half")),
    "double": ("torch", lambda ip, d: meth(ip, d, "double")),
    "cpu": ("torch", lambda ip, d: meth(ip, d, "cpu")),
    "unpack": ("np", lambda ip, d: meth(ip, d, "unpack")),
    "to_dict": ("np", lambda ip, d: meth(ip, d, "to_dict")),
}


def use_scen(use, kind, deg, base, mk, linear, rgb):
    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names, linear, rgb)
        if "arrays" in use:
            c.oracle = True
        fs = five(ip, d)
        before = [None if x is None else W.View(x) for x in fs]
        USES[use][1](ip, d)
        w = W.where(ip.get("gsply.plywrite"))
        o("source", w, lambda: content(c, ip, d, m, kind))
        o("arrays", w, lambda: first(W.field_diff(c, x, b, f) for x, b, f in zip(fs, before, W.FIELDS)))

    return Scenario(f"uses:{use}@{start_name(kind, deg, base, mk, linear, rgb)}", fn)


INDEPENDENT = [x for x in OPS if OPS[x].copies] + ["consolidate"]


def independent_scen(kind, x, deg, base, mk, linear, rgb, way, empty=None):
    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names, linear, rgb, n=0 if empty == "first" else 6 if x == "bool-list" else None)
        if x == "add":
            k = 0 if empty == "second" else S.count("N2", pool=[1, 2, 3])
            oth = other(c, ip, m, kind, k, base)
            om = M.snap(ip, oth, k)
            r = meth(ip, d, "add", oth)
            rm = M.snap(ip, r, T.add(m.n, k))
        else:
            oth = None
            r, rm = OPS[x].fn(c, ip, d, m, kind)
            rm = M.snap(ip, r, rm.n)
        w = W.method_where(ip, kind, OPS[x].where)
        if way == "result":
            scribble(ip, r)
            o("source-untouched", w, lambda: content(c, ip, d, m, kind))
            if oth is not None:
                o("other-untouched", w, lambda: content(c, ip, oth, om, kind))
        else:
            scribble(ip, d)
            if oth is not None:
                scribble(ip, oth)
            o("copy-untouched", w, lambda: content(c, ip, r, rm, kind))

    return Scenario(f"independent:{x}:{way}@{start_name(kind, deg, base, mk, linear, rgb)}{f',{empty} part empty' if empty else ''}", fn)


def scribble(ip, d):
    """overwrite everything reachable from a container, in place"""
    for f in (*W.FIELDS, "_base"):
        a = ip.getattr(d, f)
        if isinstance(a, Arr) and not (a.ndim == 3 and a.shape[1] == 0):
            ip.setitem(a, slice(None), 77.0)
    a = ip.getattr(d, "masks")
    if isinstance(a, Arr):
        ip.setitem(a, slice(None), A.CTX.scribble if hasattr(A.CTX, "scribble") else True)
    nm = ip.getattr(d, "mask_names")
    if nm is not None:
        nm[0] = "scribbled"
        nm.append("scribbled-too")
    fm = ip.getattr(d, "_format")
    fm["scales"] = W.fmt_member(ip, "SCALES_LINEAR" if fm["scales"] is W.fmt_member(ip, "SCALES_PLY") else "SCALES_PLY")
    fm.pop("sh_order", None)


@prop("C14", "Every operation documented to return a copy is interpreted; everything reachable from the result (fields, buffer, masks, names, format record) is overwritten in place and the source "
      "compared with its former state, and the other way round.")
def c14(tier):
    out = []
    for kind in ("np", "torch"):
        for x in INDEPENDENT:
            for deg, base, mk, linear, rgb in ((0, True, "none", False, False), (1, False, "2", False, False), (2, True, "2", True, True), (3, False, "none", False, True), (1, True, "1d-named", False, False)):
                if x == "consolidate" and base:
                    continue
                if "activations" in x and "de" not in x.split("_")[2] and linear:
                    continue
                if applicable([x], kind, mk, linear, rgb, deg):
                    for way in ("result", "source"):
                        out.append(independent_scen(kind, x, deg, base, mk, linear, rgb, way))
                        for empty in ("first", "second") if x == "add" else ():
                            out.append(independent_scen(kind, x, deg, base, mk, linear, rgb, way, empty))
    return bandless(out)


# ---------------------------------------------------------------- conversions
CONV = ["denormalize", "denormalize(False)", "normalize", "normalize(False)", "to_rgb", "to_rgb(False)", "to_sh", "to_sh(False)", "apply_pre_activations", "apply_pre_activations(False)",
        "apply_pre_deactivations", "apply_pre_deactivations(False)", "to_ply_tensor", "with_format"]
PREDICATES = {"is_scales_ply": ("scales", "SCALES_PLY"), "is_scales_linear": ("scales", "SCALES_LINEAR"), "is_opacities_ply": ("opacities", "OPACITIES_PLY"),
              "is_opacities_linear": ("opacities", "OPACITIES_LINEAR"), "is_sh0_sh": ("sh0", "SH0_SH"), "is_sh0_rgb": ("sh0", "SH0_RGB"),
              **{f"is_sh_order_{k}": ("sh_order", f"SH_ORDER_{k}") for k in range(4)}}


def predicates(ip, d, m):
    for p, (k, v) in PREDICATES.items():
        got, want = ip.getattr(d, p), m.format.get(k) == v
        if got is not want:
            return f"{p} is {got} where the record says {m.format.get(k)}"
    return None


def wide_inputs(linear):
    """draws that reach the clamps"""
    if linear:
        linear_inputs()
    else:
        evalr.GENERATORS["scales"] = lambda r: r.uniform(-8, 1) if r.random() < 0.7 else r.choice([-12.0, -9.3, 4.7, 6.0])
        evalr.GENERATORS["opacities"] = lambda r: r.uniform(-8, 8)
    evalr.GENERATORS["quats"] = lambda r: r.uniform(-2, 2)


def conv_scen(kind, x, deg, base, linear, rgb, opac2=False, contig=True, dtype=F32, zero_quat=False):
    def fn(c, ip, o):
        d, m = start(c, ip, kind, deg, base, None, None, linear, rgb, contig=contig, dtype=dtype)
        wide_inputs(linear)
        if opac2:
            a = S.arr("opacities2", (m.n, 1), F32)
            evalr.GENERATORS["opacities2"] = (lambda r: r.uniform(0, 1)) if linear else (lambda r: r.uniform(-8, 8))
            rd = a.snap()
            ip.setattr(d, "opacities", a)
            m = m.but(f={**m.f, "opacities": V((m.n, 1), F32, rd)})
        if zero_quat:
            evalr.GENERATORS["quats"] = lambda r: r.choice([0.0, 0.0, 1e-10])
        src, sm = d, m
        d, m = OPS[x].fn(c, ip, d, m, kind)
        w = W.method_where(ip, kind, OPS[x].where)
        o("content", w, lambda: content(c, ip, d, m, kind, tol=2e-4, dtype=False))
        o("predicates", w, lambda: predicates(ip, d, m))
        o("base", w, lambda: base_diff(c, ip, d, m.deg, m.n))
        if not OPS[x].inplace:
            o("source", w, lambda: content(c, ip, src, sm, kind) or predicates(ip, src, sm))
        else:
            o("same-object", w, lambda: d is src)

    return Scenario(f"convert:{x}@{start_name(kind, deg, base, 'none', linear, rgb)}{',opac2' if opac2 else ''}{'' if contig else ',strided'}{',' + dtype if dtype != F32 else ''}{',zero-quat' if zero_quat else ''}", fn, maxpaths=120)


def param_scen(name, kw, deg, linear):
    def fn(c, ip, o):
        d, m = start(c, ip, "np", deg, False, None, None, linear)
        wide_inputs(linear)
        r = call(ip, f"gsply.{name}", d, inplace=False, **kw)
        want = linear_of(m, "np", **kw) if "de" not in name[10:13] else ply_of(m, "np", kw.get("min_opacity", 1e-4), kw.get("max_opacity", 1 - 1e-4), kw.get("min_scale", 1e-9))
        o("content", W.where(ip.get(f"gsply.{name}")), lambda: content(c, ip, r, want, "np", tol=2e-4))

    return Scenario(f"params:{name}:{kw}", fn, maxpaths=120)


def bad_param_scen(name, kw, linear):
    def fn(c, ip, o):
        d, m = start(c, ip, "np", 0, False, None, None, linear)
        r = outcome(ip, lambda: call(ip, f"gsply.{name}", d, **kw))
        w = W.where(ip.get(f"gsply.{name}"))
        o("refuses", w, lambda: None if r.kind == "raised" and r.val == "ValueError" else f"{r} instead of ValueError")
        o("source", w, lambda: content(c, ip, d, m, "np"))

    return Scenario(f"bad-params:{name}:{kw}", fn)


@prop("C15", "Every conversion between stored and activated form is interpreted, in place and copying, on contiguous, strided and shared-buffer data; each field is compared with the documented function "
      "(clamps included), the format record and every format predicate with the form the data is then in, and untouched fields and the source with their former values.")
def c15(tier):
    out = []
    for kind in ("np", "torch"):
        for x in CONV:
            for deg, base in ((0, False), (1, True), (3, False), (2, True)):
                for linear in (False, True):
                    for rgb in (False, True):
                        if applicable([x], kind, "none", linear, rgb, deg):
                            if "rgb" not in x and "sh" not in x and rgb != (deg > 1):
                                continue
                            out.append(conv_scen(kind, x, deg, base, linear, rgb))
        for x in CONV:
            for linear in (False, True):
                rgb = "to_sh" in x
                if applicable([x], kind, "none", linear, rgb, 1):
                    if kind == "np":
                        out.append(conv_scen(kind, x, 1, False, linear, rgb, contig=False))
                        if "rgb" not in x and "sh" not in x:
                            out.append(conv_scen(kind, x, 0, False, linear, rgb, opac2=True))
                    if x.startswith(("denorm", "apply_pre_activ")) and kind == "np":
                        out.append(conv_scen(kind, x, 0, False, linear, rgb, zero_quat=True))
    for kw in (dict(min_scale=0.01), dict(max_scale=2.0), dict(min_scale=0.5, max_scale=0.75), dict(min_quat_norm=0.5)):
        out.append(param_scen("apply_pre_activations", kw, 0, False))
    for kw in (dict(min_scale=0.01), dict(min_opacity=0.2), dict(max_opacity=0.7), dict(min_opacity=0.05, max_opacity=0.95, min_scale=0.5)):
        out.append(param_scen("apply_pre_deactivations", kw, 0, True))
    for kw in (dict(min_scale=0.0), dict(min_scale=-1.0), dict(max_scale=0.0), dict(min_scale=2.0, max_scale=1.0), dict(min_quat_norm=0.0), dict(min_quat_norm=-1.0)):
        out.append(bad_param_scen("apply_pre_activations", kw, False))
    for kw in (dict(min_scale=0.0), dict(min_opacity=0.0), dict(max_opacity=1.0), dict(min_opacity=0.6, max_opacity=0.4), dict(min_opacity=0.5, max_opacity=0.5)):
        out.append(bad_param_scen("apply_pre_deactivations", kw, True))
    return bandless(out)


# ---------------------------------------------------------------- combination
def cat_scen(kind, how, deg, bases, mks, linear=False, rgb=False, shn=None, empty=()):
    def fn(c, ip, o):
        ds, ms = [], []
        for j, (b, mk) in enumerate(zip(bases, mks)):
            n = 0 if j in empty else S.count(f"N{j}", pool=[1, 2, 3, 5], hi=SMALL)
            masks, names = MASKS[mk]
            d, m = start(c, ip, kind, deg, b, masks, names, linear, rgb, tag=f"p{j}_", n=n)
            if shn:  # degree 0 is written as no array or as one without bands
                ip.setattr(d, "shN", None if shn[j] == "absent" else S.arr(f"p{j}_none", (n, 0, 3), F32, "np" if kind == "np" else "torch"))
                m = M.snap(ip, d, n)
            ds.append(d)
            ms.append(m)
        r = COMBINE[how](ip, ds)
        want = ms[0]
        mk, nm = want.masks, want.names
        for o_ in ms[1:]:
            prev = want.but(masks=mk, names=nm)
            mk, nm = add_masks(prev, o_)
            want = cat(want, o_, kind)
        if how == "concatenate" and len(ms) > 1:
            mk, nm = None, None
        want = want.but(masks=mk, names=nm)
        w = W.method_where(ip, kind, "concatenate" if how == "concatenate" else "add")
        o("content", w, lambda: content(c, ip, r, want, kind))
        o("base", w, lambda: base_diff(c, ip, r, want.deg, want.n))
        o("sources", w, lambda: first(content(c, ip, d, m, kind) for d, m in zip(ds, ms)))

    return Scenario(f"combine:{how}@{kind},deg{deg},{'+'.join('b' if b else 'a' for b in bases)},{'+'.join(mks)}{',linear' if linear else ''}{',rgb' if rgb else ''}{',' + '+'.join(shn) if shn else ''}{f',empty {empty}' if empty else ''}", fn)


def _sum(ip, ds):
    r = 0
    for d in ds:
        r = ip.op("Add", r, d)
    return r


def _plus(ip, ds):
    r = ds[0]
    for d in ds[1:]:
        r = ip.op("Add", r, d)
    return r


def _adds(ip, ds):
    r = ds[0]
    for d in ds[1:]:
        r = meth(ip, r, "add", d)
    return r


COMBINE = {"add": _adds, "+": _plus, "sum": _sum, "concatenate": lambda ip, ds: ip.call(ip.getattr(ip.get("gsply.GSData"), "concatenate"), [list(ds)], {})}


def mismatch_scen(kind, how, label):
    def fn(c, ip, o):
        n1, n2 = S.count("N1", pool=[1, 2, 3]), S.count("N2", pool=[1, 2, 3])
        b = label.startswith("base-")
        d1, m1 = start(c, ip, kind, 1, b, n=n1, tag="p_")
        lab = label.replace("base-", "")
        if lab == "degree":
            d2, m2 = start(c, ip, kind, 2, b, n=n2, tag="q_")
        elif lab == "degree0":
            d2, m2 = start(c, ip, kind, 0, b, n=n2, tag="q_")
        elif lab == "format":
            d2, m2 = start(c, ip, kind, 1, b, n=n2, tag="q_", linear=True)
        else:
            d2, m2 = start(c, ip, kind, 1, b, n=n2, tag="q_", rgb=True)
        for x, y, lb in ((d1, d2, "12"), (d2, d1, "21")):
            r = outcome(ip, lambda: COMBINE[how](ip, [x, y]))
            o(f"refuses-{lb}", W.method_where(ip, kind, "add"), lambda: None if r.kind == "raised" and r.val == "ValueError" else f"{r} instead of ValueError")
        o("sources", W.method_where(ip, kind, "add"), lambda: content(c, ip, d1, m1, kind) or content(c, ip, d2, m2, kind))

    return Scenario(f"mismatch:{how}:{label}@{kind}", fn)


@prop("C16", "Addition, sum() and list concatenation are interpreted for containers of symbolic sizes, with and without shared buffers and every pairing of mask arrangements; the rows of the result are compared "
      "with those of the parts in order, and incompatible degrees or formats must be refused with the parts unchanged.")
def c16(tier):
    out = []
    for kind in ("np", "torch"):
        for how in COMBINE:
            if how == "concatenate" and kind == "torch":
                continue
            for k, bases in enumerate(((False, False), (True, True), (True, False), (False, True))):
                for j, mks in enumerate((("none", "none"), ("1d", "1d"), ("2", "2"), ("2", "none"), ("none", "2"), ("1d", "none"), ("none", "1d-named"), ("1d-named", "1d"), ("2", "3"), ("2-unnamed", "2"), ("2", "2-unnamed"), ("1d", "2"))):
                    out.append(cat_scen(kind, how, (k + j) % 4, bases, mks, linear=j % 3 == 1, rgb=j % 4 == 1))
            for deg in DEGS:
                out.append(cat_scen(kind, how, deg, (False, True, False), ("none", "none", "none")))
                out.append(cat_scen(kind, how, deg, (True, True, True), ("none", "2", "2")))
                out.append(cat_scen(kind, how, deg, (deg % 2 == 0,), ("2",)))
            for j, shn in enumerate((("absent", "absent"), ("absent", "empty"), ("empty", "absent"), ("empty", "empty"))):
                out.append(cat_scen(kind, how, 0, (False, False), (("none", "none"), ("2", "2"))[j % 2], shn=shn))
            for k, empty in enumerate(((0,), (1,), (0, 1))):
                for j, mks in enumerate((("none", "none"), ("1d-named", "1d"), ("2", "2"), ("2", "none"), ("none", "2"), ("1d", "none"), ("none", "1d-named"), ("2", "3"))):
                    for bases in ((False, False), (True, True)):
                        out.append(cat_scen(kind, how, (k + j) % 4, bases, mks, linear=j % 3 == 1, rgb=j % 4 == 1, empty=empty))
            for lab in ("degree", "degree0", "format", "rgb", "base-degree", "base-degree0", "base-format", "base-rgb"):
                out.append(mismatch_scen(kind, how, lab))
    return out


# ---------------------------------------------------------------- mask layers
def layer_name(ip, d):
    m = ip.getattr(d, "masks")
    return m


MASK_PROGRAMS = [
    ["add:x"], ["add:x", "add:y"], ["add:x", "add:y", "add:z"], ["add:x", "add:y", "remove:x"], ["add:x", "add:y", "remove:y"], ["add:x", "add:y", "add:z", "remove:y"], ["add:x", "add:y", "add:z", "remove:x", "remove:z"],
    ["add:x", "remove:x"], ["add:x", "add:y", "remove:x", "add:z"], ["add:x", "add:y", "remove:x", "remove:y"], ["add:x", "remove:x", "add:y"],
]


def mask_prog(kind, prog, mk, base=False, deg=0):
    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names)
        for st in prog:
            act, nm = st.split(":")
            if act == "add":
                m = add_layer(c, ip, d, m, kind, nm)
            else:
                meth(ip, d, "remove_mask_layer", nm)
                m = remove_layer(m, nm)
        w = W.method_where(ip, kind, "add_mask_layer" if prog and prog[-1].startswith("add") else "remove_mask_layer")
        o("content", w, lambda: content(c, ip, d, m, kind))
        w = W.method_where(ip, kind, "get_mask_layer")
        if m.masks is not None and m.names:
            for k, nm in enumerate(m.names):
                g = meth(ip, d, "get_mask_layer", nm)
                want = V((m.n,), "bool", lambda ix, k=k: m.masks((ix[0],)) if m.masks.ndim == 1 else m.masks((ix[0], k)))
                o("layer", w, lambda: W.field_diff(c, g, want, f"layer {nm}"))
        w = W.method_where(ip, kind, "combine_masks")
        if m.masks is not None:
            for mode in ("and", "or"):
                r = meth(ip, d, "combine_masks", mode=mode)
                o("combine", w, lambda: W.field_diff(c, r, V((m.n,), "bool", lambda ix: masks_body(m, mode)(ix[0])), f"combined ({mode}) mask"))
                if m.names:
                    many = m.masks.ndim == 2 and m.masks.shape[1] > 1
                    for sub in ([m.names[-1]], [m.names[-1], m.names[0]], m.names[1:]) if many else ([m.names[0]],):
                        r2 = meth(ip, d, "combine_masks", mode=mode, layers=list(sub))
                        o("combine", w, lambda: W.field_diff(c, r2, V((m.n,), "bool", lambda ix: masks_body(m, mode, sub)(ix[0])), f"combined ({mode} of {sub}) mask"))
            r = meth(ip, d, "combine_masks")
            o("combine-default", w, lambda: W.field_diff(c, r, V((m.n,), "bool", lambda ix: masks_body(m, "and")(ix[0])), "combined (default) mask"))
        o("unchanged", w, lambda: content(c, ip, d, m, kind))
        # refusals
        w = W.method_where(ip, kind, "add_mask_layer")
        short = S.arr("short", (T.add(m.n, 1),), "bool", LIB[kind])
        two = S.arr("two", (m.n, 2), "bool", LIB[kind])
        good = S.arr("good", (m.n,), "bool", LIB[kind])
        cases = [("short mask", "add_mask_layer", ("q", short)), ("two-dimensional mask", "add_mask_layer", ("q", two)), ("unknown layer", "get_mask_layer", ("nope",)), ("removal of an unknown layer", "remove_mask_layer", ("nope",))]
        if m.names:
            cases.append(("duplicate name", "add_mask_layer", (m.names[0], good)))
        cases.append(("bad mode", "combine_masks", ("xor",)))
        if m.masks is None:
            cases.append(("combination without masks", "combine_masks", ()))
            cases.append(("application without masks", "apply_masks", ()))
        if m.masks is not None:
            for mode in ("and", "or"):
                cases.append(("unknown layers", "combine_masks", (mode, ["nope"])))
                cases.append(("unknown layers", "apply_masks", (mode, [*(m.names or [])[:1], "nope"])))
            if m.names and m.masks.ndim == 1:
                cases.append(("the layer twice", "combine_masks", ("and", [m.names[0]] * 2)))
        for lab, f, a in cases:
            r = outcome(ip, lambda: meth(ip, d, f, *a))
            o("refuses", W.method_where(ip, kind, f), lambda: None if r.kind == "raised" and r.val == "ValueError" else f"{lab}: {r} instead of ValueError")
        o("unchanged-after-refusal", w, lambda: content(c, ip, d, m, kind))

    return Scenario(f"masks:{'; '.join(prog) or 'as-is'}@{kind},{mk},{'base' if base else 'arrays'}", fn, maxpaths=100)


def apply_scen(kind, mk, mode, sub, inplace, base, deg):
    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names)
        layers = None if sub is None else list(sub)
        r = meth(ip, d, "apply_masks", mode=mode, layers=layers, inplace=inplace)
        want = masked(m, masks_body(m, mode, sub))
        w = W.method_where(ip, kind, "apply_masks")
        o("content", w, lambda: content(c, ip, r, want, kind))
        o("base", w, lambda: base_diff(c, ip, r, want.deg, want.n))
        o("object", w, lambda: (r is d) == inplace)
        if not inplace:
            o("source", w, lambda: content(c, ip, d, m, kind))

    return Scenario(f"apply:{mode}:{sub}:{'inplace' if inplace else 'copy'}@{kind},{mk},{'base' if base else 'arrays'},deg{deg}", fn, maxpaths=100)


@prop("C17", "Programs of mask-layer additions and removals are interpreted on containers in every mask arrangement; layers, names, AND/OR combinations over all and over selected layers, and the rows kept by "
      "applying them are compared with a reference model, and invalid requests must be refused without effect.")
def c17(tier):
    out = []
    for kind in ("np", "torch"):
        for mk in MASKS:
            for base in (False, True):
                out.append(mask_prog(kind, [], mk, base, 1))
        for pr in MASK_PROGRAMS:
            for mk in MASKS if tier == "thorough" else ("none", "1d", "2", "2-unnamed"):
                out.append(mask_prog(kind, pr, mk))
            out.append(mask_prog(kind, pr, "none", True, 1))
        for mk in ("1d", "1d-named", "2", "3", "2-unnamed"):
            for mode in ("and", "or"):
                for inplace in (False, True):
                    for base in (False, True):
                        subs = [None] + ([["b"], ["b", "a"]] if mk in ("2", "3") else []) + ([["keep"]] if mk == "1d-named" else [["a"]] if mk == "2" else []) + ([["c", "a"]] if mk == "3" else [])
                        for k, sub in enumerate(subs):
                            out.append(apply_scen(kind, mk, mode, sub, inplace, base, k % 4))
    return out


# ---------------------------------------------------------------- transfer between devices and precisions
DEV = {"cpu": "cpu", "cuda": "cuda"}
STEPS = {
    # name: (kinds, call, device, dtype, kind after); None keeps
    "from_gsdata": ("np", lambda ip, d: _from(ip, d, device="cpu"), "cpu", F32, "torch"),
    "from_gsdata(cuda)": ("np", lambda ip, d: _from(ip, d, device="cuda"), "cuda", F32, "torch"),
    "from_gsdata()": ("np", lambda ip, d: _from(ip, d), "cuda", F32, "torch"),
    "from_gsdata(half)": ("np", lambda ip, d: _from(ip, d, device="cpu", dtype=lib.DT("float16")), "cpu", "float16", "torch"),
    "from_gsdata(double,cuda)": ("np", lambda ip, d: _from(ip, d, device="cuda", dtype=lib.DT("float64")), "cuda", "float64", "torch"),
    "from_gsdata(grad)": ("np", lambda ip, d: _from(ip, d, device="cpu", requires_grad=True), "cpu", F32, "torch"),
    "to_gsdata": ("torch", lambda ip, d: meth(ip, d, "to_gsdata"), "cpu", None, "np"),
    "to(cpu)": ("torch", lambda ip, d: meth(ip, d, "to", "cpu"), "cpu", None, None),
    "to(cuda)": ("torch", lambda ip, d: meth(ip, d, "to", "cuda"), "cuda", None, None),
    "to(cuda,half)": ("torch", lambda ip, d: meth(ip, d, "to", "cuda", dtype=lib.DT("float16")), "cuda", "float16", None),
    "to(dtype=double)": ("torch", lambda ip, d: meth(ip, d, "to", dtype=lib.DT("float64")), None, "float64", None),
    "to()": ("torch", lambda ip, d: meth(ip, d, "to"), None, None, None),
    "cpu": ("torch", lambda ip, d: meth(ip, d, "cpu"), "cpu", None, None),
    "cuda": ("torch", lambda ip, d: meth(ip, d, "cuda"), "cuda", None, None),
    "cuda(0)": ("torch", lambda ip, d: meth(ip, d, "cuda", 0), "cuda", None, None),
    "half": ("torch", lambda ip, d: meth(ip, d, "half"), None, "float16", None),
    "float": ("torch", lambda ip, d: meth(ip, d, "float"), None, F32, None),
    "double": ("torch", lambda ip, d: meth(ip, d, "double"), None, "float64", None),
    "to_dtype(half)": ("torch", lambda ip, d: meth(ip, d, "to_dtype", lib.DT("float16")), None, "float16", None),
    "clone": ("torch", lambda ip, d: meth(ip, d, "clone"), None, None, None),
    "consolidate": ("torch", lambda ip, d: meth(ip, d, "consolidate"), None, None, None),
    "slice[2:]": ("torch", None, None, None, None),
    "mask": ("torch", None, None, None, None),
}


def _from(ip, d, **k):
    return ip.call(ip.getattr(ip.get("gsply.torch.gstensor.GSTensor"), "from_gsdata"), [d], k)


def placed(ip, d, kind, device, dtype):
    """every array of a container is of one library, on one device and (masks aside) of one precision"""
    for f in (*W.FIELDS, "_base", "masks"):
        a = ip.getattr(d, f)
        if a is None or f == "shN" and a.shape[1] == 0:
            continue
        if not isinstance(a, Arr):
            return f"{f} is {lib.str_of(a)}"
        if a.lib != LIB[kind]:
            return f"{f} is {'a tensor' if a.lib == 'torch' else 'an array'} in a {'GSData' if kind == 'np' else 'GSTensor'}"
        if a.device != device:
            return f"{f} is on {a.device} instead of {device}"
        want = "bool" if f == "masks" else dtype
        if a.dtype != want:
            return f"{f} has dtype {a.dtype} instead of {want}"
    if kind == "torch":
        dv, dt = ip.getattr(d, "device"), ip.getattr(d, "dtype")
        if dv.type != device:
            return f"device is {dv.type} instead of {device}"
        if lib.dtn(dt) != dtype:
            return f"dtype is {lib.str_of(dt)} instead of {dtype}"
    return None


def transfer_scen(kind, steps, deg, base, mk, linear=False, rgb=False, none_shn=False):
    def fn(c, ip, o):
        c.cuda = True
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names, linear, rgb)
        if none_shn:
            ip.setattr(d, "shN", None)
        k, dev, dt, tol = kind, "cpu", F32, 1e-5
        for s in steps:
            kinds, f, dv, dty, k2 = STEPS[s]
            if f is None:
                d, m = OPS[s].fn(c, ip, d, m, k)
            else:
                d = f(ip, d)
            dev, dt, k = dv or dev, dty or dt, k2 or k
            tol = max(tol, 2e-3) if dt == "float16" else tol
            if s == "from_gsdata(grad)":
                for f_ in W.FIELDS:
                    a = ip.getattr(d, f_)
                    if isinstance(a, Arr):
                        o("requires-grad", W.method_where(ip, k, "from_gsdata"), lambda: None if a.attrs.get("requires_grad") else f"{f_} does not require gradients")
        w = W.method_where(ip, "torch", {"to_gsdata": "to_gsdata"}.get(steps[-1], "from_gsdata" if steps[-1].startswith("from") else "to"))
        o("placed", w, lambda: placed(ip, d, k, dev, dt))
        o("content", w, lambda: content(c, ip, d, m, k, dtype=False, tol=tol))
        if dt != "float16":
            o("base", w, lambda: base_diff(c, ip, d, m.deg, m.n))

    return Scenario(f"transfer:{'; '.join(steps)}@{start_name(kind, deg, base, mk, linear, rgb)}{',shN=None' if none_shn else ''}", fn)


def on_device_scen(x, deg, base, mk, linear, rgb):
    def fn(c, ip, o):
        c.cuda = True
        masks, names = MASKS[mk]
        d, m = start(c, ip, "torch", deg, base, masks, names, linear, rgb, device="cuda", n=6 if x == "bool-list" else None)
        p = OPS[x]
        if p.needs and not p.needs(m):
            return
        d, m = p.fn(c, ip, d, m, "torch")
        k = kind_after(m, "torch")
        w = W.method_where(ip, k, p.where)
        o("placed", w, lambda: placed(ip, d, k, "cuda" if k == "torch" else "cpu", F32))
        o("content", w, lambda: content(c, ip, d, m, k, tol=2e-4))

    return Scenario(f"on-device:{x}@{start_name('torch', deg, base, mk, linear, rgb)}", fn)


def mixed_add_scen(deg, base, mk, dev1, dev2, dt2):
    def fn(c, ip, o):
        c.cuda = True
        masks, names = MASKS[mk]
        n1, n2 = S.count("N1", pool=[1, 2, 3], hi=SMALL), S.count("N2", pool=[1, 2, 3], hi=SMALL)
        d1, m1 = start(c, ip, "torch", deg, base, masks, names, n=n1, tag="p_", device=dev1)
        d2, m2 = start(c, ip, "torch", deg, base, masks, names, n=n2, tag="q_", device=dev2)
        if dt2 != F32:
            d2 = meth(ip, d2, "to", dtype=lib.DT(dt2))
        r = meth(ip, d1, "add", d2)
        mk_, nm = add_masks(m1, m2)
        want = cat(m1, m2, "torch").but(masks=mk_, names=nm)
        w = W.method_where(ip, "torch", "add")
        o("placed", w, lambda: placed(ip, r, "torch", dev1, F32))
        o("content", w, lambda: content(c, ip, r, want, "torch", dtype=False, tol=2e-3 if dt2 == "float16" else 1e-5))
        o("other", w, lambda: placed(ip, d2, "torch", dev2, dt2))

    return Scenario(f"add-mixed:{dev1}+{dev2},{dt2}@deg{deg},{'base' if base else 'arrays'},masks-{mk}", fn)


def from_mask_scen(deg, base, mk, bad):
    def fn(c, ip, o):
        c.cuda = True
        masks, names = MASKS[mk]
        d, m = start(c, ip, "np", deg, base, masks, names)
        w = W.method_where(ip, "torch", "from_gsdata")
        if bad:
            key = S.arr("bad", (T.add(m.n, bad),), "bool")
            if bad < 0:
                c.assume(T.le(2, m.n))
            r = outcome(ip, lambda: _from(ip, d, device="cpu", mask=key))
            o("refuses", w, lambda: None if r.kind == "raised" and r.val == "ValueError" else f"a mask of another length: {r} instead of ValueError")
        else:
            key = mask_key(c, m, "np")
            r = _from(ip, d, device="cuda", mask=key)
            want = m.rows(*mask_rows(c, m, key))
            o("placed", w, lambda: placed(ip, r, "torch", "cuda", F32))
            o("content", w, lambda: content(c, ip, r, want, "torch"))
        o("source", w, lambda: content(c, ip, d, m, "np"))

    return Scenario(f"from-masked:{bad}@{start_name('np', deg, base, mk)}", fn)


CHAINS = [
    ("np", ["from_gsdata"]), ("np", ["from_gsdata(cuda)"]), ("np", ["from_gsdata()"]), ("np", ["from_gsdata(half)"]), ("np", ["from_gsdata(double,cuda)"]), ("np", ["from_gsdata(grad)"]),
    ("np", ["from_gsdata", "to_gsdata"]), ("np", ["from_gsdata(cuda)", "to_gsdata"]), ("np", ["from_gsdata(grad)", "to_gsdata"]), ("np", ["from_gsdata(double,cuda)", "to_gsdata"]),
    ("np", ["from_gsdata(cuda)", "cpu", "to_gsdata"]), ("np", ["from_gsdata(cuda)", "consolidate", "to(cpu)", "to_gsdata"]), ("np", ["from_gsdata(cuda)", "slice[2:]", "half", "to_gsdata"]),
    ("torch", ["to_gsdata"]), ("torch", ["to(cpu)"]), ("torch", ["to(cuda)"]), ("torch", ["to(cuda,half)"]), ("torch", ["to(dtype=double)"]), ("torch", ["to()"]), ("torch", ["cpu"]), ("torch", ["cuda"]), ("torch", ["cuda(0)"]),
    ("torch", ["half"]), ("torch", ["float"]), ("torch", ["double"]), ("torch", ["to_dtype(half)"]), ("torch", ["double", "float"]), ("torch", ["cuda", "cpu"]), ("torch", ["cuda", "double", "clone", "cpu", "float"]),
    ("torch", ["cuda", "to_gsdata"]), ("torch", ["cuda", "mask", "to_gsdata"]), ("torch", ["consolidate", "cuda"]), ("torch", ["consolidate", "half"]), ("torch", ["cuda", "to_gsdata", "from_gsdata(cuda)"]),
]


@prop("C18", "Chains of transfers between host and device and between precisions are interpreted; every field, mask layer, name and the format record of the result are compared with the source, every array "
      "must be of the right library, device and precision, and every GSTensor operation is repeated on the device, where mixing devices is an error in the model as it is in torch.")
def c18(tier):
    out = []
    starts = [(0, False, "none", False, False), (1, True, "2", False, False), (2, False, "1d-named", True, True), (3, True, "1d", True, False), (3, False, "2-unnamed", False, False)]
    for kind, ch in CHAINS:
        for st in starts:
            out.append(transfer_scen(kind, ch, *st))
        if kind == "np":
            out.append(transfer_scen(kind, ch, 0, False, "2", none_shn=True))
    for x in OPS:
        if "torch" in OPS[x].kinds:
            for deg, base, mk, linear, rgb in ((0, True, "none", False, False), (1, False, "2", True, True), (2, True, "1d", True, False), (3, False, "none", False, True), (1, True, "2-unnamed", False, False)):
                if applicable([x], "torch", mk, linear, rgb, deg):
                    out.append(on_device_scen(x, deg, base, mk, linear, rgb))
    for k, (a, b, dt) in enumerate((("cuda", "cpu", F32), ("cpu", "cuda", F32), ("cpu", "cpu", "float64"), ("cuda", "cpu", "float16"), ("cuda", "cuda", F32))):
        for base in (False, True):
            for mk in ("none", "2", "1d"):
                out.append(mixed_add_scen(k % 4, base, mk, a, b, dt))
    for k, mk in enumerate(MASKS):
        for base in (False, True):
            out.append(from_mask_scen(k % 4, base, mk, 0))
    for bad in (1, -1):
        for base in (False, True):
            out.append(from_mask_scen(1, base, "2", bad))
    return bandless(out)
