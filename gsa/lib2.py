"""Further models of numpy and torch functions (merged into the tables of lib.py)."""
from __future__ import annotations

import itertools
import math

from . import arrays as A
from . import evalr
from . import terms as T
from .arrays import Arr, Unresolved
from .interp import Raised, Unk
from .terms import E


def L():
    from . import lib

    return lib


def _arr(x, lib="np"):
    return L().toarr(x, lib)


def _axes(axis, dim, default=None):
    r = axis if axis is not None else dim
    return default if r is None else r


def _items(a, ax, sl):
    it = [slice(None)] * a.ndim
    it[ax % a.ndim] = sl
    return tuple(it)


def _mk(a, shape, init, dtype=None, name="tmp"):
    return A.fresh_array(tuple(shape), dtype or a.dtype, init, name, a.lib, device=a.device)


def narrow(a, dim, start, length):
    L_ = L()
    start, length = L_.scalar(start), L_.scalar(length)
    n = a.shape[dim % a.ndim]
    if not isinstance(start, E) and start < 0:
        start = T.add(n, start)
    bad = T.or_(T.lt(n, T.add(start, length)), T.lt(length, 0))
    if bad is True or (isinstance(bad, E) and L_.ctx().decide(bad)):
        L_.err(RuntimeError("start + length exceeds dimension size"))
    return A.getitem(a, _items(a, dim, slice(start, T.add(start, length))))


def select(a, dim, index):
    return A.getitem(a, _items(a, dim, L().scalar(index)))


def cumulative(op):
    def f(a, axis=None, dim=None, dtype=None, out=None, **k):
        a = _arr(a)
        ax = _axes(axis, dim)
        if ax is None:
            a, ax = L().ravel(a), 0
        ax %= a.ndim
        rd = a.snap()
        dt = a.dtype
        if not L().is_float(dt):
            dt = "int64" if not dt.startswith("u") or a.lib == "torch" else "uint64"

        def init(idx):
            v = T.fresh("red", "i", 0)
            k = idx[ax]
            if not isinstance(k, E) and k < 8:
                out = rd((*idx[:ax], 0, *idx[ax + 1:]))
                for j in range(1, k + 1):
                    out = (T.add if op == "+" else T.mul)(out, rd((*idx[:ax], j, *idx[ax + 1:])))
                return out
            return T.reduce_(op, v, 0, T.add(k, 1), rd((*idx[:ax], v, *idx[ax + 1:])))

        r = _mk(a, a.shape, init, L().dtn(dtype) if dtype is not None else dt, "cumulative")
        if out is not None:
            L().assign_into(out, r)
            return out
        return r

    return f


def diff(a, n=1, axis=-1, dim=None, **k):
    a = _arr(a)
    ax = _axes(dim, axis) % a.ndim
    for _ in range(n):
        hi, lo = A.getitem(a, _items(a, ax, slice(1, None))), A.getitem(a, _items(a, ax, slice(None, -1)))
        a = L().ew("arith", T.sub, hi, lo)
    return a


def roll(a, shift=None, axis=None, dims=None, shifts=None, **k):
    a = _arr(a)
    shift = shifts if shifts is not None else shift
    ax = _axes(axis, dims)
    if isinstance(ax, (tuple, list)):
        for s, x in zip(shift if isinstance(shift, (tuple, list)) else [shift] * len(ax), ax):
            a = roll(a, s, x)
        return a
    if ax is None:
        return L().reshape_m(roll(L().ravel(a), shift, 0), a.shape)
    ax %= a.ndim
    rd, n = a.snap(), a.shape[ax]
    shift = L().scalar(shift)
    return _mk(a, a.shape, lambda idx: rd((*idx[:ax], T.mod(T.sub(idx[ax], shift), n), *idx[ax + 1:])), name="roll")


def var(a, axis=None, dim=None, ddof=None, unbiased=None, correction=None, keepdims=False, keepdim=False, **k):
    a = _arr(a)
    if a.lib == "torch" and isinstance(axis, bool):
        axis, unbiased = None, axis
    ax = _axes(axis, dim)
    if correction is None:
        correction = ddof if ddof is not None else (1 if a.lib == "torch" and unbiased is not False else 0)
    L_ = L()
    m = L_.mean(a, ax, keepdims=True) if ax is not None else L_.mean(a)
    sq = L_.ew("div", lambda x, y: T.mul(T.sub(x, y), T.sub(x, y)), a, m)
    s = L_.reduce(sq, "+", ax, None, keepdims or keepdim)
    n = L_._n_of(a, ax)
    return L_.ew("div", T.div, s, T.sub(n, correction))


def std(a, *r, **k):
    return L().ew("float", lambda x: T.fn1("sqrt", x), var(a, *r, **k))


def pad(a, pad_width, mode="constant", constant_values=0, **k):
    a = _arr(a)
    pw = pad_width
    if isinstance(pw, dict):
        raise Unresolved("pad by axis")
    if L().is_scalar(pw):
        pw = [(pw, pw)] * a.ndim
    else:
        pw = list(pw)
        if all(L().is_scalar(x) for x in pw):
            pw = [tuple(pw) if len(pw) == 2 else (pw[0], pw[0])] * a.ndim
        elif len(pw) == 1:
            pw = pw * a.ndim
        pw = [tuple(x) if isinstance(x, (tuple, list)) else (x, x) for x in pw]
        pw = [x if len(x) == 2 else (x[0], x[0]) for x in pw]
    if mode not in ("constant", "edge") or isinstance(constant_values, (tuple, list)):
        raise Unresolved("pad mode")
    rd = a.snap()
    shape = [T.add(T.add(lo, d), hi) for (lo, hi), d in zip(pw, a.shape)]
    cv = A.coerce(a.dtype, L().scalar(constant_values))

    def init(idx):
        src, ok = [], True
        for i, (lo, hi), d in zip(idx, pw, a.shape):
            if (not isinstance(lo, E) and lo == 0) and (not isinstance(hi, E) and hi == 0):
                src.append(i)
                continue
            j = T.sub(i, lo)
            if mode == "edge":
                src.append(T.mx(T.mn(j, T.sub(d, 1)), 0))
            else:
                ok = T.and_(ok, T.and_(T.le(0, j), T.lt(j, d)))
                src.append(j)
        v = ok if not isinstance(ok, E) else L().ctx().known(ok)
        if v is False:
            return cv
        if v is True:
            return rd(tuple(src))
        return T.ite(ok, rd(tuple(src)), cv)

    return _mk(a, shape, init, name="pad")


def linspace(lib):
    def f(a, b, num=50, endpoint=True, dtype=None, steps=None, device=None, **k):
        L_ = L()
        a, b, n = L_.scalar(a), L_.scalar(b), L_.scalar(steps if steps is not None else num)
        dt = L_.dtn(dtype, lib) if dtype is not None else ("float64" if lib == "np" else "float32")
        den = T.sub(n, 1) if endpoint else n
        if not isinstance(den, E) and den <= 0:
            den = 1
        r = A.fresh_array((n,), dt, lambda idx: A.coerce(dt, T.add(T.cast("float64", a), T.div(T.mul(T.sub(b, a), idx[0]), den))), "linspace", lib)
        if device is not None:
            r.device = L_.dev(device)
        return r

    return f


def eye(lib):
    def f(n, m=None, k=0, dtype=None, device=None, **kw):
        L_ = L()
        if m is not None and not L_.is_scalar(m):
            dtype, m = m, None
        m = n if m is None else m
        dt = L_.dtn(dtype, lib) if dtype is not None else ("float64" if lib == "np" else "float32")
        r = A.fresh_array((n, m), dt, lambda idx: A.coerce(dt, T.ite(T.eq(T.add(idx[0], k), idx[1]), 1, 0)), "eye", lib)
        if device is not None:
            r.device = L_.dev(device)
        return r

    return f


def order(a, axis=-1, dim=None, descending=False, stable=False, kind=None, **k):
    """argsort (stable)"""
    a = _arr(a)
    ax = _axes(dim, axis, -1)
    if ax is None:
        a, ax = L().ravel(a), 0
    ax %= a.ndim
    rd, n = a.snap(), a.shape[ax]

    def init(idx):
        v = T.fresh("ord", "i", 0)
        return T.ordr(v, n, rd((*idx[:ax], v, *idx[ax + 1:])), idx[ax], bool(descending))

    return _mk(a, a.shape, init, "int64", "argsort")


def sort_np(a, axis=-1, **k):
    a = _arr(a)
    if axis is None:
        a, axis = L().ravel(a), 0
    return take_along(a, order(a, axis), axis)


def sort_t(a, dim=-1, descending=False, stable=False, **k):
    o = order(a, dim=dim, descending=descending)
    return L().named(values=take_along(a, o, dim), indices=o)


def sort_method(a, axis=-1, dim=None, descending=False, **k):
    if a.lib == "torch":
        return sort_t(a, dim if dim is not None else axis, descending)
    A.assign(a, sort_np(a, axis))
    return None


def topk(a, k, dim=-1, largest=True, sorted=True, **kw):
    o = A.getitem(order(a, dim=dim, descending=largest), _items(a, dim, slice(None, k)))
    return L().named(values=take_along(a, o, dim), indices=o)


def median(a, axis=None, dim=None, **k):
    a = _arr(a)
    if a.lib == "torch":
        if _axes(axis, dim) is not None:
            raise Unresolved("median along an axis")
        s = sort_t(L().ravel(a), 0).d["values"]
        return A.getitem(s, (T.fdiv(T.sub(s.shape[0], 1), 2),))
    if axis is not None:
        raise Unresolved("median along an axis")
    s = sort_np(L().ravel(a), 0)
    n = s.shape[0]
    x, y = s.read((T.fdiv(T.sub(n, 1), 2),)), s.read((T.fdiv(n, 2),))
    return T.div(T.add(x, y), 2)


def unique(a, *r, **k):
    if r or any(v for v in k.values() if v not in (True,)) or k.get("return_inverse") or k.get("return_counts") or k.get("return_index"):
        return Unk("unique with options")
    a = L().ravel(_arr(a))
    s = take_along(a, order(a), 0)
    rd = s.snap()
    v = T.fresh("sel", "i", 0)
    body = T.or_(T.eq(v, 0), T.ne(rd((v,)), rd((T.mx(T.sub(v, 1), 0),))))
    n = a.shape[0]
    return _mk(a, (T.cnt(v, n, body),), lambda idx: rd((T.nth(v, n, body, idx[0]),)), name="unique")


def searchsorted(a, v, side="left", right=False, sorter=None, out_int32=False, **k):
    if sorter is not None:
        raise Unresolved("searchsorted with a sorter")
    a = _arr(a)
    rd, n = a.snap(), a.shape[-1]
    if a.ndim != 1:
        raise Unresolved("searchsorted in several dimensions")
    rt = side == "right" or right

    def f(x):
        w = T.fresh("sel", "i", 0)
        c = T.le(rd((w,)), x) if rt else T.lt(rd((w,)), x)
        if not isinstance(n, E) and n <= 16:
            out = 0
            for j in range(n):
                y = rd((j,))
                out = T.add(out, T.ite(T.le(y, x) if rt else T.lt(y, x), 1, 0))
            return out
        return T.cnt(w, n, c)

    if L().is_scalar(v):
        return f(v)
    v = _arr(v, a.lib)
    return L().ew("arith", f, v, dtype="int32" if out_int32 else "int64")


def bucketize(v, b, right=False, **k):
    return searchsorted(b, v, right=right)


def digitize(v, b, right=False):
    return searchsorted(b, v, side="left" if right else "right")


def append(a, v, axis=None):
    a, v = _arr(a), _arr(v)
    if axis is None:
        return L().concat([L().ravel(a), L().ravel(v)])
    return L().concat([a, v], axis)


def insert(a, k, v, axis=None):
    a = _arr(a)
    if axis is None:
        a, axis = L().ravel(a), 0
    k = L().scalar(k)
    if not L().is_scalar(k):
        raise Unresolved("insert at several positions")
    ax = axis % a.ndim
    if not isinstance(k, E) and k < 0:
        k = T.add(a.shape[ax], k)
    rd = a.snap()
    one = [*a.shape[:ax], *a.shape[ax + 1:]]
    if L().is_scalar(v):
        vr, ln = (lambda idx: v), 1
    else:
        v = _arr(v, a.lib)
        if v.ndim == a.ndim:
            b = A.bread(v, (*a.shape[:ax], v.shape[ax], *a.shape[ax + 1:]))
            ln = v.shape[ax]
            vr = lambda idx: b((*idx[:ax], T.sub(idx[ax], k), *idx[ax + 1:]))
        else:
            if a.ndim == 1 and v.ndim == 1:
                b, ln = v.snap(), v.shape[0]
                vr = lambda idx: b((T.sub(idx[0], k),))
            else:
                b, ln = A.bread(v, tuple(one)), 1
                vr = lambda idx: b((*idx[:ax], *idx[ax + 1:]))
    shape = (*a.shape[:ax], T.add(a.shape[ax], ln), *a.shape[ax + 1:])

    def init(idx):
        i = idx[ax]
        at = lambda j: (*idx[:ax], j, *idx[ax + 1:])
        return _lazy(T.lt(i, k), lambda: rd(at(i)), lambda: _lazy(T.lt(i, T.add(k, ln)), lambda: A.coerce(a.dtype, vr(idx)), lambda: rd(at(T.sub(i, ln)))))

    return _mk(a, shape, init, name="insert")


def _lazy(c, x, y):
    if isinstance(c, E):
        kn = L().ctx().known(c)
        c = c if kn is None else kn
    if c is True:
        return x()
    if c is False:
        return y()
    return T.ite(c, x(), y())


def delete(a, k, axis=None):
    a = _arr(a)
    if axis is None:
        a, axis = L().ravel(a), 0
    ax = axis % a.ndim
    n = a.shape[ax]
    if isinstance(k, (list, tuple)):
        k = _arr(k)
    if isinstance(k, slice):
        raise Unresolved("delete of a slice")
    if isinstance(k, Arr) and k.dtype == "bool":
        return A.compress(L().ew("cmp", lambda v: T.not_(L().tb(v)), k), a, ax)
    if isinstance(k, Arr) and k.ndim:
        kr, kn = k.snap(), k.shape[0]

        def gone(i):
            if not isinstance(kn, E) and kn <= 16:
                c = False
                for j in range(kn):
                    c = T.or_(c, T.eq(A._pos(kr((j,)), n), i))
                return c
            w = T.fresh("red", "i", 0)
            return T.reduce_("or", w, 0, kn, T.eq(A._pos(kr((w,)), n), i))

        m = A.fresh_array((n,), "bool", lambda idx: T.not_(gone(idx[0])), "kept")
        return A.compress(m, a, ax)
    k = L().scalar(k)
    k = A._pos(k, n) if isinstance(k, E) else (T.add(n, k) if k < 0 else k)
    out = T.or_(T.le(n, k), T.lt(k, 0))
    if out is True or (isinstance(out, E) and L().ctx().decide(out)):
        L().err(IndexError("index is out of bounds"))
    rd = a.snap()
    shape = (*a.shape[:ax], T.sub(n, 1), *a.shape[ax + 1:])
    return _mk(a, shape, lambda idx: rd((*idx[:ax], T.add(idx[ax], T.ite(T.lt(idx[ax], k), 0, 1)), *idx[ax + 1:])), name="delete")


def r_(*parts):
    L_ = L()
    ps = [L_.at1(L_.toarr(p)) for p in parts]
    return L_.concat(ps)


def c_(*parts):
    return L().column_stack([L().toarr(p) for p in parts])


def einsum(spec, *ops):
    L_ = L()
    if not isinstance(spec, str):
        raise Unresolved("einsum")
    ops = list(ops[0]) if len(ops) == 1 and isinstance(ops[0], (list, tuple)) else list(ops)
    spec = spec.replace(" ", "")
    if "..." in spec:
        raise Unresolved("einsum with ellipsis")
    ins, _, outs = spec.partition("->")
    ins = ins.split(",")
    if "->" not in spec:
        cnt = {}
        for c in "".join(ins):
            cnt[c] = cnt.get(c, 0) + 1
        outs = "".join(sorted(c for c in cnt if cnt[c] == 1))
    ops = [_arr(o) for o in ops]
    if len(ins) != len(ops) or any(len(i) != o.ndim for i, o in zip(ins, ops)):
        L_.err(ValueError("einsum subscripts"))
    ext = {}
    for i, o in zip(ins, ops):
        for c, d in zip(i, o.shape):
            if c in ext and A.dim_eq(ext[c], d) is False:
                L_.err(ValueError("einsum extents"))
            ext.setdefault(c, d)
    rest = [c for c in dict.fromkeys("".join(ins)) if c not in outs]
    if any(isinstance(ext[c], E) or ext[c] > 16 for c in rest):
        raise Unresolved("einsum over a long axis")
    rds = [o.snap() for o in ops]
    dt = ops[0].dtype
    for o in ops[1:]:
        dt = A.promote(dt, o.dtype)

    def init(idx):
        env = dict(zip(outs, idx))
        tot = None
        for ks in itertools.product(*[range(ext[c]) for c in rest]):
            env.update(zip(rest, ks))
            p = None
            for i, rd in zip(ins, rds):
                v = rd(tuple(env[c] for c in i))
                p = v if p is None else T.mul(p, v)
            tot = p if tot is None else T.add(tot, p)
        return tot if tot is not None else 0

    r = A.fresh_array(tuple(ext[c] for c in outs), dt, init, "einsum", ops[0].lib, device=ops[0].device)
    return r.read(()) if not outs and r.lib == "np" else r


def dot(a, b, out=None, **k):
    a, b = _arr(a), _arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return L().reduce(L().ew("arith", T.mul, a, b), "+", 0)
    return L().matmul(a, b)


def outer(a, b, **k):
    a, b = L().ravel(_arr(a)), L().ravel(_arr(b))
    return L().ew("arith", T.mul, A.newaxis(a, 1), A.newaxis(b, 0))


def array_split(a, k, axis=0, dim=None):
    a = _arr(a)
    ax = _axes(dim, axis)
    n = a.shape[ax % a.ndim]
    if isinstance(k, (list, tuple)):
        return L().split(a, list(k), ax) if a.lib == "np" else tuple(_cuts(a, list(k), ax))
    k = L().scalar(k)
    if isinstance(k, E) or k > 64:
        raise Unresolved("split into a symbolic number of parts")
    q, r = T.fdiv(n, k), T.mod(n, k)
    cuts, at = [], 0
    for j in range(k - 1):
        at = T.add(at, T.add(q, T.ite(T.lt(j, r), 1, 0)))
        cuts.append(at)
    out = _cuts(a, cuts, ax)
    return out if a.lib == "np" else tuple(out)


def _cuts(a, cuts, ax):
    out, prev = [], None
    for c in [*cuts, None]:
        out.append(A.getitem(a, _items(a, ax, slice(prev, c))))
        prev = c
    return out


def chunk(a, chunks, dim=0):
    n = a.shape[dim % a.ndim]
    if isinstance(n, E) or isinstance(chunks, E):
        raise Unresolved("chunk of a symbolic axis")
    step = -(-n // chunks)
    return tuple(_cuts(a, list(range(step, n, step)), dim)) if step else (a,)


def select_np(conds, choices, default=0):
    conds, choices = list(conds), list(choices)
    n = len(conds)

    def f(*v):
        out = v[-1]
        for j in range(n - 1, -1, -1):
            out = T.ite(L().tb(v[j]), v[n + j], out)
        return out

    ch = [c if L().is_scalar(c) else _arr(c) for c in choices] + [default]
    dt = L().rdtype("arith", [c for c in ch if isinstance(c, Arr)] + [c for c in ch if not isinstance(c, Arr)], "np")
    return L().ew("arith", f, *[_arr(c) if not L().is_scalar(c) else c for c in conds], *ch, dtype=dt)


def choose(a, choices, out=None, mode="raise"):
    ch = [c if L().is_scalar(c) else _arr(c) for c in choices]
    dt = L().rdtype("arith", ch, "np")

    def f(i, *v):
        out = v[-1]
        for j in range(len(v) - 2, -1, -1):
            out = T.ite(T.eq(i, j), v[j], out)
        return out

    return L().ew("arith", f, _arr(a), *ch, dtype=dt)


def take_along(a, ind, axis=-1, dim=None):
    a = _arr(a)
    ax = _axes(dim, axis)
    if ax is None:
        a, ind, ax = L().ravel(a), L().ravel(ind), 0
    ax %= a.ndim
    ind = _arr(ind, a.lib)
    sh = [d if k == ax else (s if not isinstance(d, E) and d == 1 else d) for k, (d, s) in enumerate(zip(ind.shape, a.shape))]
    sh = [a.shape[k] if k != ax and not isinstance(ind.shape[k], E) and ind.shape[k] == 1 else d for k, d in enumerate(sh)]
    if tuple(sh) != ind.shape:
        ind = A.expand(ind, tuple(sh))
    return L().gather(a, ax, ind)


def put_along(a, ind, v, axis):
    ax = axis % a.ndim
    ind = _arr(ind)
    if not L().is_scalar(v):
        v = A.expand(_arr(v), ind.shape)
    sh = tuple(a.shape[k] if k != ax and not isinstance(ind.shape[k], E) and ind.shape[k] == 1 else d for k, d in enumerate(ind.shape))
    if sh != ind.shape:
        ind = A.expand(ind, sh)
        if isinstance(v, Arr):
            v = A.expand(v, sh)
    L().scatter_(a, ax, ind, v)


def cross(a, b, axis=-1, dim=None, **k):
    a, b = _arr(a), _arr(b)
    ax = _axes(dim, axis)
    sh = A.broadcast_shape([a.shape, b.shape])
    ar, br = A.bread(a, sh), A.bread(b, sh)
    ax %= len(sh)
    if sh[ax] != 3:
        raise Unresolved("cross product of this extent")

    def init(idx):
        g = lambda r, j: r((*idx[:ax], j, *idx[ax + 1:]))
        cs = [T.sub(T.mul(g(ar, (j + 1) % 3), g(br, (j + 2) % 3)), T.mul(g(ar, (j + 2) % 3), g(br, (j + 1) % 3))) for j in range(3)]
        i = idx[ax]
        if not isinstance(i, E):
            return cs[i]
        return T.ite(T.eq(i, 0), cs[0], T.ite(T.eq(i, 1), cs[1], cs[2]))

    return _mk(a, sh, init, A.promote(a.dtype, b.dtype), "cross")


def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None, out=None, **k):
    big = 3.4028234663852886e38

    def f(v):
        if T.isint(v) or T.kind(v) == "b":
            return v
        hi = big if posinf is None else posinf
        lo = -big if neginf is None else neginf
        if not isinstance(v, E):
            return nan if math.isnan(v) else hi if v == math.inf else lo if v == -math.inf else v
        fin = T._mk("isfinite", (v,), "b")
        isn = T._mk("isnan", (v,), "b")
        return T.ite(fin, v, T.ite(isn, nan, T.ite(T.lt(0, v), hi, lo)))

    r = L().ew("arith", f, a, out=out)
    if copy is False and isinstance(a, Arr):
        A.assign(a, r)
        return a
    return r


def meshgrid(*xs, indexing=None, **k):
    L_ = L()
    if len(xs) == 1 and isinstance(xs[0], (list, tuple)):
        xs = xs[0]
    xs = [_arr(x) for x in xs]
    lib = xs[0].lib
    ij = (indexing or ("xy" if lib == "np" else "ij")) == "ij"
    ext = [x.shape[0] for x in xs]
    order_ = list(range(len(xs)))
    if not ij and len(xs) > 1:
        order_[0], order_[1] = 1, 0
    shape = tuple(ext[o] for o in order_)
    out = []
    for k, x in enumerate(xs):
        rd, pos = x.snap(), order_.index(k)
        out.append(_mk(x, shape, lambda idx, rd=rd, pos=pos: rd((idx[pos],)), name="meshgrid"))
    return out


def isin(a, test, assume_unique=False, invert=False, **k):
    a = _arr(a)
    t = _arr(test, a.lib) if not L().is_scalar(test) else _arr([test], a.lib)
    t = L().ravel(t)
    tr, n = t.snap(), t.shape[0]

    def f(x):
        if not isinstance(n, E) and n <= 64:
            c = False
            for j in range(n):
                c = T.or_(c, T.eq(x, tr((j,))))
        else:
            w = T.fresh("red", "i", 0)
            c = T.reduce_("or", w, 0, n, T.eq(x, tr((w,))))
        return T.not_(c) if invert else c

    return L().ew("cmp", f, a)


def bincount(a, weights=None, minlength=0):
    a = _arr(a)
    if weights is not None:
        weights = _arr(weights)
        wr = weights.snap()
    rd, n = a.snap(), a.shape[0]
    v = T.fresh("red", "i", 0)
    hi = T.mx(T.add(T.reduce_("max", v, 0, n, rd((v,))), 1), minlength) if not (isinstance(n, int) and n == 0) else minlength

    def init(idx):
        w = T.fresh("red", "i", 0)
        c = T.eq(rd((w,)), idx[0])
        if weights is not None:
            return T.reduce_("+", w, 0, n, T.ite(c, wr((w,)), 0.0))
        return T.reduce_("+", w, 0, n, T.ite(c, 1, 0))

    return _mk(a, (hi,), init, "int64" if weights is None else "float64", "bincount")


def ptp(a, axis=None, **k):
    a = _arr(a)
    return L().ew("arith", T.sub, L().reduce(a, "max", axis), L().reduce(a, "min", axis))


def diag(a, k=0, diagonal=0, **kw):
    a = _arr(a)
    k = k or diagonal
    if a.ndim == 1:
        n, rd = T.add(a.shape[0], abs(k)), a.snap()
        return _mk(a, (n, n), lambda i: T.ite(T.eq(T.add(i[0], k), i[1]), rd((T.mn(i[0], i[1]),)), A.coerce(a.dtype, 0)), name="diag")
    if k:
        raise Unresolved("off-diagonal")
    rd = a.snap()
    return _mk(a, (T.mn(a.shape[0], a.shape[1]),), lambda i: rd((i[0], i[0])), name="diagonal")


def trace(a, *r, **k):
    return L().reduce(diag(a), "+", 0)


def tri(up):
    def f(a, k=0, diagonal=0):
        a = _arr(a)
        k = k or diagonal
        rd = a.snap()
        z = A.coerce(a.dtype, 0)
        c = (lambda i: T.le(T.add(i[-2], k), i[-1])) if up else (lambda i: T.le(i[-1], T.add(i[-2], k)))
        return _mk(a, a.shape, lambda i: T.ite(c(i), rd(i), z), name="triangle")

    return f


def rot90(a, k=1, axes=(0, 1)):
    if k != 1 or tuple(axes) != (0, 1):
        raise Unresolved("rot90")
    return L().flip(A.transpose(_arr(a), (1, 0)), 0)


def repeat_by(a, reps, axis=0):
    """repeat with one count per row"""
    a = _arr(a)
    ax = axis % a.ndim
    reps = _arr(reps, a.lib)
    rr, n, rd = reps.snap(), a.shape[ax], a.snap()
    v = T.fresh("red", "i", 0)

    def upto(j):
        w = T.fresh("red", "i", 0)
        return T.reduce_("+", w, 0, j, rr((w,)))

    total = T.reduce_("+", v, 0, n, rr((v,)))

    def init(idx):
        w = T.fresh("sel", "i", 0)
        # number of rows that end at or before this position
        row = T.cnt(w, n, T.le(upto(T.add(w, 1)), idx[ax]))
        return rd((*idx[:ax], row, *idx[ax + 1:]))

    shape = (*a.shape[:ax], total, *a.shape[ax + 1:])
    return _mk(a, shape, init, name="repeat")


def index_set(a, dim, index, src, op=None, alpha=1):
    """a[index along dim] = src, or += (op '+')"""
    dim %= a.ndim
    index = L().ravel(_arr(index, a.lib))
    n, ir = index.shape[0], index.snap()
    sr = A.bread(src, (*a.shape[:dim], n, *a.shape[dim + 1:])) if isinstance(src, Arr) and src.ndim else (lambda i, v=L().scalar(src): v)
    if isinstance(n, E) or n > 64:
        if op is None:
            it = [slice(None)] * a.ndim
            it[dim] = index
            A.setitem(a, tuple(it), src)
            return a
        old = a.snap()

        def f(v):
            w = T.fresh("red", "i", 0)
            return T.add(old(v), T.reduce_("+", w, 0, n, T.ite(T.eq(ir((w,)), v[dim]), T.mul(alpha, sr((*v[:dim], w, *v[dim + 1:]))), 0)))

        a.write_region(f)
        return a
    old = a.snap()

    def f(v):
        out = old(v)
        for q in range(n):
            x = sr((*v[:dim], q, *v[dim + 1:]))
            out = T.ite(T.eq(A._pos(ir((q,)), a.shape[dim]), v[dim]), A.coerce(a.dtype, x if op is None else T.add(out, T.mul(alpha, x))), out)
        return out

    a.write_region(f)
    return a


def index_copy_(a, dim, index, source):
    return index_set(a, dim, index, source)


def index_fill_(a, dim, index, value):
    return index_set(a, dim, index, L().scalar(value))


def index_add_(a, dim, index, source, alpha=1):
    return index_set(a, dim, index, source, "+", alpha)


def index_put_(a, indices, values, accumulate=False):
    if accumulate:
        raise Unresolved("accumulating index_put")
    A.setitem(a, tuple(indices), values if not (isinstance(values, Arr) and values.ndim == 0) else values.read(()))
    return a


def scatter_add_(a, dim, index, src):
    dim %= a.ndim
    ir, sr, old, n = index.snap(), src.snap(), a.snap(), index.shape[dim]

    def f(v):
        w = T.fresh("red", "i", 0)
        iv = (*v[:dim], w, *v[dim + 1:])
        return T.add(old(v), T.reduce_("+", w, 0, n, T.ite(T.eq(ir(iv), v[dim]), sr(iv), 0)))

    a.write_region(f)
    return a


def copied(fn):
    return lambda a, *r, **k: fn(A.copy(a), *r, **k)


def add_at(op):
    def f(a, ind, b=None):
        if not isinstance(ind, (Arr, list)):
            raise Unresolved(op + ".at")
        ind = _arr(ind)
        if ind.ndim != 1 or ind.dtype == "bool" or op not in ("add", "subtract"):
            raise Unresolved(op + ".at")
        index_set(a, 0, ind, _arr(b, a.lib) if isinstance(b, (list, Arr)) else b, "+", 1 if op == "add" else -1)

    return f


def reduceat(op2):
    def f(a, ind, axis=0, dtype=None, out=None):
        a, ind = _arr(a), _arr(ind)
        ax = axis % a.ndim
        rd, ir, n, m = a.snap(), ind.snap(), a.shape[ax], ind.shape[0]

        def init(idx):
            k = idx[ax]
            lo = ir((k,))
            hi = _lazy(T.lt(T.add(k, 1), m), lambda: ir((T.mn(T.add(k, 1), T.sub(m, 1)),)), lambda: n)
            hi = T.mx(hi, T.add(lo, 1))
            w = T.fresh("red", "i", 0)
            return T.reduce_(op2, w, lo, hi, rd((*idx[:ax], w, *idx[ax + 1:])))

        dt = a.dtype
        if op2 in ("+", "*") and not L().is_float(dt):
            dt = "int64"
        if op2 in ("and", "or"):
            dt = "bool"
        return _mk(a, (*a.shape[:ax], m, *a.shape[ax + 1:]), init, dt, "reduceat")

    return f


def accumulate(op):
    def f(a, axis=0, **k):
        if op in ("add", "multiply"):
            return cumulative("+" if op == "add" else "*")(a, axis)
        a = _arr(a)
        if op not in ("maximum", "minimum"):
            raise Unresolved(op + ".accumulate")
        ax = axis % a.ndim
        rd = a.snap()

        def init(idx):
            w = T.fresh("red", "i", 0)
            return T.reduce_("max" if op == "maximum" else "min", w, 0, T.add(idx[ax], 1), rd((*idx[:ax], w, *idx[ax + 1:])))

        return _mk(a, a.shape, init, name="accumulate")

    return f


def outer_of(f):
    def g(a, b, **k):
        a, b = _arr(a), _arr(b)
        for _ in range(b.ndim):
            a = A.newaxis(a, a.ndim)
        return f(a, b)

    return g


def type_as(a, b):
    return L().t_to(a, dtype=L().DT(b.dtype), device=b.device)


def new_tensor(a, x, dtype=None, device=None, **k):
    return L().t_tensor(x, dtype=dtype or L().DT(a.dtype), device=device or a.device)


def unflatten(a, dim, sizes):
    dim %= a.ndim
    return L().reshape_m(a, (*a.shape[:dim], *sizes, *a.shape[dim + 1:]))


def aminmax(a, dim=None, keepdim=False, **k):
    r = lambda op: L().reduce(a, op, dim, None, keepdim)
    return L().named(min=r("min"), max=r("max"))


def softmax(a, dim=None, axis=None, dtype=None, **k):
    ax = _axes(dim, axis)
    e = L().ew("float", lambda v: T.fn1("exp", v), a)
    return L().ew("div", T.div, e, L().reduce(e, "+", ax, None, True))


def softplus(a, beta=1, threshold=20, **k):
    return L().ew("float", lambda v: T.ite(T.lt(threshold, T.mul(beta, v)), v, T.div(T.fn1("log1p", T.fn1("exp", T.mul(beta, v))), beta)), a)


def logsigmoid(a):
    return L().ew("float", lambda v: T.mul(-1, T.fn1("log1p", T.fn1("exp", T.mul(-1, v)))), a)


def relu(a, inplace=False):
    r = L().ew("arith", lambda v: T.mx(v, 0), a)
    if inplace:
        A.assign(a, r)
        return a
    return r


def fnormalize(a, p=2.0, dim=1, eps=1e-12, out=None):
    if p not in (2, 2.0):
        raise Unresolved("normalize order")
    n = L().norm(a, dim=dim, keepdim=True)
    return L().ew("div", lambda x, y: T.div(x, T.mx(y, eps)), a, n)


def addc(op):
    def f(a, x, y, value=1):
        return L().ew("arith", lambda p, q, r: T.add(p, T.mul(value, op(q, r))), a, x, y)

    return f


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        d = T.fn1("abs", T.sub(T.cast("float64", x), T.cast("float64", y)))
        return T.le(d, T.add(atol, T.mul(rtol, T.fn1("abs", T.cast("float64", y)))))

    return L().ew("cmp", f, a, b)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = _arr(a), _arr(b)
    return _truth(L().reduce(isclose(a, b, rtol, atol), "and"))


def _truth(r):
    return r.read(()) if isinstance(r, Arr) and r.ndim == 0 else r


def torch_equal(a, b):
    return _truth(L().array_equal(a, b))


def bmm(a, b):
    if a.ndim == 3:
        return einsum("bij,bjk->bik", a, b)
    return L().matmul(a, b)


def extract(c, a):
    return L().compress(L().ravel(_arr(c)), L().ravel(_arr(a)), 0)


def putmask(a, m, v):
    L().copyto(a, v, where=m)


def fmod(a, b):
    """remainder with the sign of the dividend"""
    q = T.div(T.cast("float64", a), b)
    r = T.sub(a, T.mul(b, T.fn1("trunc", q)))
    return r


def hypot(a, b):
    return T.fn1("sqrt", T.add(T.mul(a, a), T.mul(b, b)))


def copysign(a, b):
    return T.mul(T.fn1("abs", a), T.ite(T.lt(b, 0), -1.0, 1.0))


def fn2(name):
    def f(a, b):
        if not isinstance(a, E) and not isinstance(b, E):
            return evalr.FN2[name](a, b)
        return T._mk("fn2", (name, a, b), "f")

    return f


def logaddexp(a, b):
    return T.fn1("log", T.add(T.fn1("exp", a), T.fn1("exp", b)))


def where_div(a, b, rounding_mode=None, out=None, dtype=None, where=None, **k):
    L_ = L()
    if rounding_mode is not None:
        fn = (lambda x, y: T.fdiv(x, y)) if rounding_mode == "floor" else (lambda x, y: T.fn1("trunc", T.div(x, y)))
        return L_.ew("arith", fn, a, b, out=out)
    return L_.ew("div", T.div, a, b, out=out, dtype=L_.dtn(dtype) if dtype is not None else None)


def masked_ufunc(op, kind, f):
    """out= kept where the mask is false"""
    def g(*args, out=None, where=None, dtype=None, alpha=None, rounding_mode=None, **k):
        L_ = L()
        args = list(args)
        nin = f.__code__.co_argcount if hasattr(f, "__code__") else 2
        if len(args) > nin:
            out = args.pop()
        if isinstance(out, tuple):
            out = out[0]
        if alpha is not None:
            args[1] = L_.ew("arith", T.mul, args[1], alpha)
        dt = L_.dtn(dtype) if dtype is not None else None
        fn = f
        if where is None or where is True:
            return L_.ew(kind, fn, *args, out=out, dtype=dt)
        r = L_.ew(kind, fn, *args, dtype=dt)
        if out is None:
            u = T.uninit("positions a where= mask leaves out")
            r = _arr(r)
            m, rr = A.bread(_arr(where), r.shape), r.snap()
            return _mk(r, r.shape, lambda i: T.ite(m(i), rr(i), u))
        L_.copyto(out, r, where=where)
        return out

    return g


def to_list(x):
    return x


def update(np_t, torch_t, methods):
    L_ = L()
    both = dict(
        cumsum=cumulative("+"), cumprod=cumulative("*"), diff=diff, roll=roll, std=std, var=var, argsort=order, unique=unique,
        searchsorted=searchsorted, dot=dot, inner=dot, outer=outer, array_split=array_split, einsum=einsum, cross=cross, nan_to_num=nan_to_num,
        meshgrid=meshgrid, isin=isin, bincount=bincount, diag=diag, diagonal=diag, trace=trace, triu=tri(True), tril=tri(False), median=median,
        isclose=isclose, allclose=allclose, fliplr=lambda a: L_.flip(_arr(a), 1), flipud=lambda a: L_.flip(_arr(a), 0), rot90=rot90,
    )
    for n, v in both.items():
        np_t[n] = v
        torch_t[n] = v
    np_t.update(
        pad=pad, linspace=linspace("np"), eye=eye("np"), identity=eye("np"), sort=sort_np, append=append, insert=insert, delete=delete,
        hsplit=lambda a, k: L_.split(a, k, 1), vsplit=lambda a, k: L_.split(a, k, 0), select=select_np, choose=choose, take_along_axis=take_along, put_along_axis=put_along,
        ptp=ptp, extract=extract, putmask=putmask, place=putmask, digitize=digitize, fmod=L_.bi("fmod", fmod), hypot=L_.bi("hypot", hypot),
        arctan2=L_.bi("arctan2", fn2("atan2"), "div"), copysign=L_.bi("copysign", copysign), logaddexp=L_.bi("logaddexp", logaddexp, "div"),
        nanmin=np_t["amin"], nanmax=np_t["amax"], nansum=np_t["sum"], nanmean=np_t["mean"], in1d=isin,
        ediff1d=diff, unravel_index=lambda i, s, **k: A.flat_to_idx(i, tuple(s)) if L_.is_scalar(i) else Unk("unravel_index"), trim_zeros=lambda *a: Unk("trim_zeros"),
        cbrt=L_.un("cbrt"), deg2rad=lambda x: L_.ew("div", lambda v: T.mul(v, math.pi / 180), x), radians=lambda x: L_.ew("div", lambda v: T.mul(v, math.pi / 180), x),
        positive=lambda x: A.copy(x) if isinstance(x, Arr) else x, float_power=lambda a, b, **k: L_.ew("div", T.power, a, b, dtype="float64"),
        ascontiguousarray=np_t["ascontiguousarray"], isneginf=lambda x: L_.ew("cmp", lambda v: T.eq(v, -math.inf), x), isposinf=lambda x: L_.ew("cmp", lambda v: T.eq(v, math.inf), x),
        signbit=lambda x: L_.ew("cmp", lambda v: T.lt(v, 0), x), heaviside=L_.bi("heaviside", lambda a, b: T.ite(T.lt(a, 0), 0.0, T.ite(T.eq(a, 0), b, 1.0))),
        atleast_2d=lambda a: (lambda a: a if a.ndim >= 2 else A.newaxis(a, 0) if a.ndim == 1 else A.newaxis(A.newaxis(a, 0), 0))(L_.at1(a)),
        broadcast_arrays=lambda *xs: [A.expand(_arr(x), A.broadcast_shape([_arr(y).shape for y in xs])) for x in xs],
        average=lambda a, axis=None, weights=None, **k: L_.mean(a, axis) if weights is None else Unk("weighted average"),
        apply_along_axis=lambda f, ax, a, *r, **k: Unk("apply_along_axis"), vdot=dot, tensordot=lambda *a, **k: Unk("tensordot"),
    )
    torch_t.update(
        narrow=narrow, select=select, sort=sort_t, topk=topk, linspace=linspace("torch"), eye=eye("torch"), aminmax=aminmax, relu=relu, softmax=softmax,
        bucketize=bucketize, mm=L_.matmul, mv=L_.matmul, bmm=bmm, take_along_dim=lambda a, i, dim=None: take_along(a, i, dim), tensor_split=array_split, chunk=chunk,
        equal=torch_equal, div=where_div, divide=where_div, true_divide=where_div, hypot=L_.bi("hypot", hypot), atan2=L_.bi("atan2", fn2("atan2"), "div"), arctan2=L_.bi("atan2", fn2("atan2"), "div"),
        fmod=L_.bi("fmod", fmod), copysign=L_.bi("copysign", copysign), frac=lambda x: L_.ew("arith", lambda v: T.sub(v, T.fn1("trunc", v)), x),
        addcmul=addc(T.mul), addcdiv=addc(T.div), flatten=lambda a, *r, **k: L_.flatten_m(a, *r, **k), logaddexp=L_.bi("logaddexp", logaddexp, "div"),
        index_fill=copied(index_fill_), index_copy=copied(index_copy_), index_add=copied(index_add_), scatter=lambda a, *r, **k: L_.scatter_(A.copy(a), *r, **k),
        scatter_add=copied(scatter_add_), masked_fill=lambda a, m, v: L_.masked_fill(a, m, v), index_put=copied(index_put_), softplus=softplus,
        std_mean=lambda *a, **k: Unk("std_mean"), var_mean=lambda *a, **k: Unk("var_mean"), square_=None, numel=lambda a: a.size(), arange=torch_t["arange"],
        positive=lambda x: x, signbit=np_t["signbit"], deg2rad=np_t["deg2rad"], isneginf=np_t["isneginf"], isposinf=np_t["isposinf"], hsplit=lambda a, k: array_split(a, k, 1),
        unflatten=unflatten, expm1=torch_t["expm1"], relu_=lambda a: relu(a, True), empty_strided=lambda *a, **k: Unk("empty_strided"), as_strided=lambda *a, **k: Unk("as_strided"),
        scalar_tensor=torch_t["tensor"], adjoint=lambda a: A.transpose(a, (*range(a.ndim - 2), a.ndim - 1, a.ndim - 2)), result_type=lambda a, b: L_.DT(L_.rdtype("arith", [a, b], "torch")),
        promote_types=lambda a, b: L_.DT(A.tpromote(L_.dtn(a), L_.dtn(b))),
    )
    del torch_t["square_"]
    for n in ("cumsum", "cumprod", "diff", "roll", "std", "var", "argsort", "dot", "trace", "diagonal", "median", "searchsorted", "ptp", "outer", "isclose", "allclose", "nan_to_num"):
        methods[n] = {"ptp": ptp}.get(n) or both[n]
    methods.update(
        narrow=narrow, select=select, sort=sort_method, type_as=type_as, new_tensor=new_tensor, unflatten=unflatten, aminmax=aminmax, softmax=softmax, relu=relu,
        relu_=lambda a: relu(a, True), topk=topk, index_copy_=index_copy_, index_fill_=index_fill_, index_add_=index_add_, index_put_=index_put_, scatter_add_=scatter_add_,
        index_copy=copied(index_copy_), index_fill=copied(index_fill_), index_add=copied(index_add_), index_put=copied(index_put_), scatter_add=copied(scatter_add_),
        frac=torch_t["frac"], equal=torch_equal, tensor_split=array_split, chunk=chunk, triu=tri(True), tril=tri(False), mm=L_.matmul, matmul=L_.matmul, bmm=bmm, mv=L_.matmul,
        fliplr=both["fliplr"], flipud=both["flipud"], addcmul=addc(T.mul), addcdiv=addc(T.div), addcmul_=L_.inplace(addc(T.mul)), addcdiv_=L_.inplace(addc(T.div)),
        where=lambda a, c, b: L_.where(c, a, b), choose=choose, hypot=L_.bi("hypot", hypot).fn, fmod=L_.bi("fmod", fmod).fn, copysign=L_.bi("copysign", copysign).fn,
        swapdims=L_.swapaxes, movedim=L_.moveaxis, moveaxis=L_.moveaxis, swapaxes=L_.swapaxes, put=lambda a, i, v, **k: index_set(L_.ravel(a), 0, i, _arr(v) if isinstance(v, (list, Arr)) else v) and None,
        stride=lambda a, *r: Unk("stride"), diag=diag, fmin=L_.bi("fmin", T.mn).fn, fmax=L_.bi("fmax", T.mx).fn, isin=isin, bincount=bincount, cross=cross,
        unique=unique, nan_to_num_=L_.inplace(nan_to_num), bfloat16=lambda a: L_.t_to(a, dtype=L_.DT("bfloat16")), short=lambda a: L_.t_to(a, dtype=L_.DT("int16")),
        index=lambda a, *r: Unk("index"), div=where_div, div_=L_.inplace(where_div), floor_divide=L_.bi("floor_divide", T.fdiv).fn, tril_=L_.inplace(tri(False)),
        type=lambda a, d=None, **k: f"torch.{a.dtype}" if d is None else L_.t_to(a, dtype=d), char=lambda a: L_.t_to(a, dtype=L_.DT("int8")), copysign_=L_.inplace(L_.bi("copysign", copysign).fn),
        new=lambda *a: Unk("new"), expand_dims=L_.expand_dims, atan2=L_.bi("atan2", fn2("atan2"), "div").fn, take_along_dim=lambda a, i, dim=None: take_along(a, i, dim),
        unbind=L_.unbind, cumsum_=L_.inplace(cumulative("+")), share_memory_=lambda a: a, retain_grad=lambda a: None, swapaxes_=None, positive=lambda a: a,
        is_contiguous=lambda a, **k: a.contig, is_complex=lambda a: False, is_signed=lambda a: not a.dtype.startswith("uint"), ndimension=lambda a: a.ndim,
        greater=torch_t["greater"].fn, less=torch_t["less"].fn, greater_equal=torch_t["greater_equal"].fn, less_equal=torch_t["less_equal"].fn, not_equal=torch_t["not_equal"].fn,
    )
    del methods["swapaxes_"]
    for n in ("__add__", "__radd__", "__sub__", "__mul__", "__rmul__", "__truediv__", "__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
        pass
