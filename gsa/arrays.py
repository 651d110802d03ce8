"""Abstract arrays: a buffer of value-flow terms seen through an index map."""
from __future__ import annotations

import itertools

from . import evalr
from . import terms as T
from .terms import E

_bid = itertools.count()


class Unresolved(Exception):
    """the analysis does not understand a construct; the path is given up without a verdict"""


class W:
    """one write record; after a symbolic loop it stands for every iteration"""

    __slots__ = ("vars", "inv", "pat", "guard", "val", "loc", "par", "seq")

    def __init__(self, inv, pat, guard, val, loc, vars=(), par=(), seq=0):
        self.inv, self.pat, self.guard, self.val, self.loc, self.vars, self.par = inv, pat, guard, val, loc, vars, par
        self.seq = seq

    def match(self, bidx):
        """-> (guard term, thunk giving the value)"""
        eqs, guards, vidx = self.inv(bidx)
        eqs, guards = list(eqs), list(guards)
        if self.pat is not None:
            for p, v in zip(self.pat, vidx):
                if not (isinstance(p, E) or isinstance(v, E)):
                    if p != v:
                        return False, None
                else:
                    eqs.append((p, v))
        m = {}
        for var, lo, hi, step in reversed(self.vars):
            sol = None
            for j, (l, r) in enumerate(eqs):
                l = T.subst(l, m)
                s = _solve(var, l, r)
                if s is not None:
                    sol = s
                    break
            if sol is None:
                sol = _solve_digits(var, [(T.subst(l, m), T.subst(r, m)) for l, r in eqs])
            lo, hi = T.subst(lo, m), T.subst(hi, m)
            if sol is None:
                # every iteration writes this cell: the last one stays
                if isinstance(self.guard, E) and var in self.guard.syms:
                    return T.unk("guarded write in every iteration"), None
                n = T.sub(hi, lo)
                sol = T.sub(hi, 1) if step == 1 else T.add(lo, T.mul(step, T.fdiv(T.sub(n, 1), step)))
                guards.append(T.lt(lo, hi))
            else:
                guards.append(T.le(lo, sol))
                guards.append(T.lt(sol, hi))
                if step != 1:
                    guards.append(T.eq(T.mod(T.sub(sol, lo), step), 0))
            m2 = {var: sol}
            m = {k: T.subst(v, m2) for k, v in m.items()}
            m[var] = sol
        g = T.subst(self.guard, m)
        if g is False:
            return False, None
        for l, r in eqs:
            g = T.and_(g, T.eq(T.subst(l, m), T.subst(r, m)))
            if g is False:
                return False, None
        for c in guards:
            g = T.and_(g, T.subst(c, m))
            if g is False:
                return False, None
        if self.pat is not None:
            return g, lambda: T.subst(self.val(None), m)
        vv = tuple(T.subst(i, m) for i in vidx)
        return g, lambda: T.subst(self.val(vv), m)


def _solve(var, l, r):
    """the value of var with l(var) == r, or None"""
    if not (isinstance(l, E) and var in l.syms):
        if isinstance(r, E) and var in r.syms:
            l, r = r, l
        else:
            return None
    if isinstance(r, E) and var in r.syms:
        l, r = T.sub(l, r), 0
    if l is var:
        return r
    if not T.isint(l):
        return None
    c, d = T._lin_parts(l)
    k = d.pop(var, 0)
    if k == 0 or any(var in t.syms for t in d):
        return None
    rest = T._lin(c, d)
    if k in (1, -1):
        return T.mul(k, T.sub(r, rest))
    return T.fdiv(T.mul(1 if k > 0 else -1, T.sub(r, rest)), abs(k))


def _solve_digits(var, eqs):
    """the value of var where the equations fix its digits (quotients and remainders), or None"""
    known = {}
    pending = []
    for l, r in eqs:
        if not (isinstance(l, E) and var in l.syms):
            l, r = r, l
        if isinstance(l, E) and var in l.syms and not (isinstance(r, E) and var in r.syms) and T.isint(l):
            pending.append((l, r))
    progress = True
    while progress and var not in known:
        progress = False
        for l, r in pending:
            c, d = T._lin_parts(l)
            rest, open_ = [], []
            for t, k in d.items():
                if t in known:
                    rest.append(T.mul(k, known[t]))
                elif isinstance(t, E) and var in t.syms:
                    open_.append((t, k))
                else:
                    rest.append(T.mul(k, t))
            if len(open_) == 1 and open_[0][1] in (1, -1) and open_[0][0] not in known:
                v = T.sub(r, c)
                for x in rest:
                    v = T.sub(v, x)
                known[open_[0][0]] = T.mul(open_[0][1], v)
                progress = True
        for t, v in list(known.items()):
            if t.op == "mod":
                q = T.fdiv(t.args[0], t.args[1])
                if q in known and t.args[0] not in known:
                    known[t.args[0]] = T.add(T.mul(t.args[1], known[q]), v)
                    progress = True
    return known.get(var)


class Buffer:
    def __init__(self, name, shape, dtype, init, owner=None, loc=None):
        self.id = next(_bid)
        self.name, self.shape, self.dtype, self.init = name, tuple(shape), dtype, init
        self.owner = owner
        self.log = []
        self.loc = loc
        self.root = None  # the array the buffer was made for: what .base of every other view is
        self.poison = None  # set when an unmodelled operation may have written here
        self._cache = {}
        self.depth = len(CTX.loops) if CTX is not None else 0

    def read(self, bidx, upto=None):
        if self.poison:
            return T.unk(self.poison)
        n = len(self.log) if upto is None else upto
        if CTX is not None and CTX.loops:
            CTX.read_hook(self, bidx)
        g0 = CTX.guards[-1] if CTX is not None and CTX.guards else None
        key = (n, CTX.stamp if CTX else 0, len(CTX.guards) if CTX else 0, g0.id if isinstance(g0, E) else g0, tuple((type(i) is bool, i) for i in bidx))
        try:
            r = self._cache.get(key)
        except TypeError:
            r, key = None, None
        if r is not None:
            return r
        chain = []
        base = None
        for k in range(n - 1, -1, -1):
            w = self.log[k]
            g, val = w.match(bidx)
            if g is False:
                continue
            if val is None:
                base = g
                break
            if isinstance(g, E) and CTX is not None:
                kn = CTX.known(g)
                if kn is False:
                    continue
                if kn is True:
                    g = True
            if g is True:
                base = val()
                break
            chain.append((g, val()))
        if base is None:
            base = self.init(bidx)
        for g, v in reversed(chain):
            base = T.ite(g, v, base)
        if key is not None:
            self._cache[key] = base
        return base


CTX = None  # set by the interpreter


def set_ctx(c):
    global CTX
    CTX = c


def _ident_inv(bidx):
    return ((), (), tuple(bidx))


class Arr:
    """abstract ndarray (lib 'np') or tensor (lib 'torch')"""

    def __init__(self, buf, shape, dtype, fwd=None, inv=None, lib="np", contig=True, device="cpu"):
        self.buf, self.shape, self.dtype = buf, tuple(shape), dtype
        self.fwd = fwd or (lambda idx: tuple(idx))
        self.inv = inv or _ident_inv
        self.lib, self.contig, self.device = lib, contig, device
        self.attrs = {}
        if buf.root is None:
            buf.root = self

    @property
    def ndim(self):
        return len(self.shape)

    def __repr__(self):
        return f"<{self.lib} {self.dtype} {tuple(T.show(s) for s in self.shape)} of {self.buf.name}>"

    # ---- reading
    def read(self, idx):
        return self.buf.read(self.fwd(tuple(idx)))

    def snap(self):
        n, buf, fwd = len(self.buf.log), self.buf, self.fwd
        return lambda idx: buf.read(fwd(tuple(idx)), n)

    def size(self):
        s = 1
        for d in self.shape:
            s = T.mul(s, d)
        return s

    # ---- writing
    def write_cell(self, idx, v):
        v = coerce(self.buf.dtype, v)
        CTX.wrote(self.buf)
        self.buf.log.append(W(self.inv, tuple(idx), CTX.guard(), lambda _: v, CTX.loc(), seq=CTX.tick()))

    def write_region(self, f, guard=None):
        """f(view index) -> value; guard(view index) -> condition"""
        dt = self.buf.dtype
        inv0 = self.inv
        if CTX.loops:
            # the operands change in later iterations: take their value now
            vs = tuple(T.fresh("w", "i", 0) for _ in self.shape)
            for x, d in zip(vs, self.shape):
                evalr.DOMAIN[x] = (0, d)
            val = coerce(dt, f(vs))
            f = lambda v, val=val: T.subst(val, dict(zip(vs, v)))
            if guard is not None:
                gv = guard(vs)
                guard = lambda v, gv=gv: T.subst(gv, dict(zip(vs, v)))
        if guard is None:
            inv = inv0
        else:
            def inv(b, guard=guard):
                e, g, v = inv0(b)
                return e, (*g, guard(v)), v
        CTX.wrote(self.buf)
        self.buf.log.append(W(inv, None, CTX.guard(), lambda v: coerce(dt, f(v)), CTX.loc(), seq=CTX.tick()))

    # ---- views
    def like(self, shape, fwd2, inv2, contig):
        f0, i0 = self.fwd, self.inv

        def inv(b):
            e, g, v = i0(b)
            e2, g2, v2 = inv2(v)
            return (*e, *e2), (*g, *g2), v2

        r = Arr(self.buf, shape, self.dtype, lambda idx: f0(fwd2(idx)), inv, self.lib, contig, self.device)
        if self.attrs.get("requires_grad"):
            r.attrs["requires_grad"] = True
        return r

    def relib(self, lib):
        """the same storage as an object of the other library, outside gradient tracking"""
        return Arr(self.buf, self.shape, self.dtype, self.fwd, self.inv, lib, self.contig, self.device)


def coerce(dt, v):
    if dt is None:
        return v
    if isinstance(v, E) and v.op in ("uninit", "unk"):
        return v
    if dt == "bool" or dt.startswith(("int", "uint")):
        return T.cast(dt, v)
    if dt == "bfloat16":
        return T.bhalf(T.cast("float64", v))
    if dt == "float16":
        return T.half(T.cast("float64", v))
    if dt.startswith("float"):
        return T.cast("float64", v)
    return v


# ------------------------------------------------------------------ construction
def fresh_array(shape, dtype, init, name="tmp", lib="np", owner=None, device="cpu"):
    b = Buffer(name, shape, dtype, init, owner, CTX.loc() if CTX else None)
    return Arr(b, shape, dtype, lib=lib, device=device)


def input_array(name, shape, dtype, lib="np", owner="input"):
    evalr.SHAPES[name] = tuple(shape)
    b = Buffer(name, shape, dtype, lambda idx: T.elem(name, dtype, idx), owner)
    return Arr(b, shape, dtype, lib=lib)


def full(shape, dtype, v, lib="np", device="cpu", name="full"):
    v = coerce(dtype, v)
    return fresh_array(shape, dtype, lambda idx: v, name, lib, device=device)


def empty(shape, dtype, lib="np", device="cpu"):
    loc = CTX.loc()
    nm = f"array allocated at {loc[0]}:{loc[2]}"
    u = T.uninit(nm)
    return fresh_array(shape, dtype, lambda idx: u, nm, lib, device=device)


def copy(a, dtype=None, lib=None, device=None):
    r = a.snap()
    dt = dtype or a.dtype
    conv = (lambda idx: coerce(dt, r(idx))) if dt != a.dtype else r
    new = fresh_array(a.shape, dt, conv, "copy", lib or a.lib, device=device or a.device)
    if a.attrs.get("requires_grad") and new.lib == "torch" and (dt.startswith("float") or dt == "bfloat16"):
        new.attrs["requires_grad"] = True
    return new


def from_list(vals, dtype, lib="np"):
    """nested list of scalars -> array"""
    shape = []
    v = vals
    while isinstance(v, (list, tuple)):
        shape.append(len(v))
        if not v:
            break
        v = v[0]
    dt = dtype or infer_dtype(vals, lib)

    def init(idx):
        def rec(lst, ix):
            if not ix:
                return coerce(dt, lst)
            k = ix[0]
            if not lst or not isinstance(k, E) and not -len(lst) <= k < len(lst):
                # whatever lies beside the storage: unchecked code only
                return T.fresh("outside", "f" if dt.startswith(("float", "bfloat")) else "i", 0)
            if not isinstance(k, E):
                return rec(lst[k], ix[1:])
            out = rec(lst[-1], ix[1:])
            for j in range(len(lst) - 2, -1, -1):
                out = T.ite(T.eq(k, j), rec(lst[j], ix[1:]), out)
            return out

        return rec(vals, tuple(idx))

    return fresh_array(tuple(shape), dt, init, "list", lib)


def infer_dtype(v, lib):
    while isinstance(v, (list, tuple)) and v:
        v = v[0]
    if isinstance(v, (list, tuple)):
        return "float64"
    k = T.kind(v)
    return {"b": "bool", "i": "int64", "f": "float64" if lib == "np" else "float32"}[k]


def shape_error(msg, lib="np"):
    from .interp import Raised

    return Raised(ValueError(msg) if lib == "np" else RuntimeError(msg), CTX.loc())


# ------------------------------------------------------------------ dtypes
_ORDER = ["bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float16", "float32", "float64"]


def promote(a, b):
    if a == b:
        return a
    fa, fb = a.startswith("float"), b.startswith("float")
    if a == "bool":
        return b
    if b == "bool":
        return a
    if fa and fb:
        return a if _ORDER.index(a) > _ORDER.index(b) else b
    if fa or fb:
        f, i = (a, b) if fa else (b, a)
        if f == "float64" or i in ("uint32", "int32", "int64", "uint64"):
            return "float64"
        if f == "float16" and i in ("uint16", "int16"):
            return "float32"
        return f
    ua, ub = a.startswith("u"), b.startswith("u")
    wa, wb = int(a.lstrip("uint") or 0), int(b.lstrip("uint") or 0)
    if ua == ub:
        return a if wa >= wb else b
    u, s, wu, ws = (a, b, wa, wb) if ua else (b, a, wb, wa)
    if ws > wu:
        return s
    return {8: "int16", 16: "int32", 32: "int64", 64: "float64"}[wu]


def tpromote(a, b):
    """torch: a float operand decides"""
    fa, fb = a.startswith(("float", "bfloat")), b.startswith(("float", "bfloat"))
    if fa and not fb:
        return a
    if fb and not fa:
        return b
    if {a, b} == {"float16", "bfloat16"}:
        return "float32"
    if fa and fb and "bfloat16" in (a, b):
        return a if b == "bfloat16" else b
    return promote(a, b)


# ------------------------------------------------------------------ shapes and views
def dim_eq(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return a == b
    if a is b:
        return True
    c = T.eq(a, b)
    if isinstance(c, E):
        return CTX.known(c)
    return c


def _pos(k, d):
    """normalise a possibly negative index"""
    if not isinstance(k, E):
        k = int(k)
        return T.add(d, k) if k < 0 else k
    if T.rng(k)[0] >= 0:
        return k
    kn = CTX.known(T.lt(k, 0))
    if kn is True:
        return T.add(k, d)
    if kn is False:
        return k
    return T.ite(T.lt(k, 0), T.add(k, d), k)


def _clampmin(a, b):
    """min(a, b), resolved where the path facts order the operands"""
    c = T.le(a, b)
    if isinstance(c, E):
        c2 = CTX.known(c)
        if c2 is None:
            c3 = T.le(b, a)
            c3 = CTX.known(c3) if isinstance(c3, E) else c3
            if c3:
                return b
            return T.mn(a, b)
        c = c2
    return a if c else b


def slice_bounds(sl, d):
    step = 1 if sl.step is None else sl.step
    if isinstance(step, E):
        raise Unresolved("symbolic slice step")
    if step < 0:
        if sl.start is None and sl.stop is None and not isinstance(d, E):
            return d - 1, d, step
        if sl.start is None and sl.stop is None:
            return T.sub(d, 1), d, step
        raise Unresolved("negative slice step")
    start = 0 if sl.start is None else _bound(sl.start, d)
    stop = d if sl.stop is None else _bound(sl.stop, d)
    if start != 0 if not isinstance(start, E) else True:
        start = _clampmin(start, d)
    if stop is not d:
        stop = _clampmin(stop, d)
    n = T.sub(stop, start)
    if step != 1:
        n = T.fdiv(T.add(n, step - 1), step)
    if isinstance(n, E):
        if T.rng(n)[0] < 0:
            kn = CTX.known(T.le(0, n))
            if kn is False:
                n = 0
            elif kn is None:
                n = T.mx(n, 0)
    else:
        n = max(n, 0)
    return start, n, step


def _bound(k, d):
    if not isinstance(k, E):
        k = int(k)
        if k >= 0:
            return k
        r = T.add(d, k)
        if not isinstance(r, E):
            return max(r, 0)
        return r if T.rng(r)[0] >= 0 or CTX.known(T.le(0, r)) else T.mx(r, 0)
    if T.rng(k)[0] >= 0:
        return k
    kn = CTX.known(T.lt(k, 0))
    if kn is False:
        return k
    if kn is True:
        return T.add(k, d)
    return T.ite(T.lt(k, 0), T.mx(T.add(k, d), 0), k)


def basic_index(a, items):
    """items: ints/terms, slices, None — after Ellipsis expansion"""
    steps = []  # per source dim: ('i', k) or ('s', start, step)
    shape, layout = [], []
    d = 0
    contig = a.contig
    seen_partial = False
    for it in items:
        if it is None:
            layout.append(("n",))
            shape.append(1)
            continue
        dim = a.shape[d]
        if isinstance(it, slice):
            s, n, st = slice_bounds(it, dim)
            steps.append(("s", s, st, n))
            layout.append(("d", d))
            shape.append(n)
            whole = st == 1 and (s == 0 if not isinstance(s, E) else False) and (n is dim or (not isinstance(n, E) and not isinstance(dim, E) and n == dim) or dim_eq(n, dim) is True)
            if seen_partial and not whole:
                contig = False
            if not (st == 1 and d == 0) and not whole:
                if any(x[0] == "s" for x in steps[:-1]):
                    contig = False
                if st != 1:
                    contig = False
            if any(x[0] == "s" for x in steps[:-1]) and not whole:
                contig = False
        else:
            if CTX is not None and CTX.in_jit() is not None:
                CTX.access(a, it, dim, "index")
            elif not isinstance(it, E) and not isinstance(dim, E) and not -dim <= it < dim:
                raise IndexError(f"index {it} is out of bounds for axis {d} with size {dim}")
            elif (isinstance(it, E) or isinstance(dim, E)) and CTX is not None and (isinstance(it, E) or it >= 0) and CTX.known(T.lt(it, dim)) is False:
                raise IndexError(f"index {T.show(it)} is out of bounds for axis {d} with size {T.show(dim)}")
            k = _pos(it, dim)
            steps.append(("i", k))
            if any(x[0] == "s" for x in steps[:-1]):
                contig = False
        d += 1
    while d < len(a.shape):
        steps.append(("s", 0, 1, a.shape[d]))
        layout.append(("d", d))
        shape.append(a.shape[d])
        d += 1
    outpos = {}
    for o, l in enumerate(layout):
        if l[0] == "d":
            outpos[l[1]] = o

    def fwd(idx):
        out = []
        for k, st in enumerate(steps):
            if st[0] == "i":
                out.append(st[1])
            else:
                v = idx[outpos[k]]
                out.append(T.add(st[1], T.mul(st[2], v)) if st[2] != 1 else T.add(st[1], v))
        return tuple(out)

    def inv(v):
        eqs, gs = [], []
        out = [0] * len(layout)
        for k, st in enumerate(steps):
            x = v[k]
            if st[0] == "i":
                eqs.append((st[1], x))
            else:
                y = T.sub(x, st[1]) if not (not isinstance(st[1], E) and st[1] == 0) else x
                if st[2] == -1:
                    y = T.mul(-1, y)
                elif st[2] != 1:
                    gs.append(T.eq(T.mod(y, st[2]), 0))
                    y = T.fdiv(y, st[2])
                full_dim = st[2] == 1 and not isinstance(st[1], E) and st[1] == 0 and (st[3] is a.shape[k] or (not isinstance(st[3], E) and not isinstance(a.shape[k], E) and st[3] == a.shape[k]))
                if not full_dim:
                    gs.append(T.le(0, y))
                    gs.append(T.lt(y, st[3]))
                out[outpos[k]] = y
        return eqs, gs, tuple(out)

    r = a.like(tuple(shape), fwd, inv, contig)
    return r


def expand_items(a, key):
    items = list(key) if isinstance(key, tuple) else [key]
    n = 0
    for it in items:
        if it is None or it is Ellipsis:
            continue
        if isinstance(it, Arr) and it.dtype == "bool":
            n += it.ndim
        else:
            n += 1
    if any(it is Ellipsis for it in items):
        k = next(j for j, it in enumerate(items) if it is Ellipsis)
        items[k:k + 1] = [slice(None)] * (a.ndim - n)
    return items


def mask_cond(m):
    r = m.snap()
    return lambda idx: r(idx)


def flat_to_idx(f, shape):
    """unravel a flat index over shape"""
    out = []
    for d in reversed(shape[1:]):
        out.append(T.mod(f, d))
        f = T.fdiv(f, d)
    out.append(f)
    return tuple(reversed(out))


def idx_to_flat(idx, shape):
    f = 0
    for k, d in zip(idx, shape):
        f = T.add(T.mul(f, d), k)
    return f


def row_count(bodies):
    """number of true entries of every row where it is the same in each draw, else None"""
    from . import evalr

    facts = CTX.path()
    got = set()
    for s in evalr.samples(facts, 10, evalr.constants(*bodies), 77):
        try:
            got.add(sum(1 for b in bodies if s.ev(b)))
        except (evalr.Skip, evalr.Uninit, evalr.OutOfBounds):
            continue
        if len(got) > 1:
            return None
    return got.pop() if got else None


def select_per_row(a, m):
    """a[m] where every row of m along its last (short, constant) axis holds the same number of true entries"""
    from . import evalr

    lead, D = m.shape[:-1], m.shape[-1]
    mr, ar = m.snap(), a.snap()
    nf, st = len(CTX.facts), CTX.stamp
    gen = []
    try:
        for d in lead:
            g = T.fresh("row", "i", 0)
            evalr.DOMAIN[g] = (0, d)
            CTX.assume(T.lt(g, d))
            gen.append(g)
        w = row_count([mr((*gen, k)) for k in range(D)])
    finally:
        CTX._pop_facts(nf, st)
    if not w:
        return None
    rows = 1
    for d in lead:
        rows = T.mul(rows, d)

    def init(idx):
        f, j = T.fdiv(idx[0], w), T.mod(idx[0], w)
        li = flat_to_idx(f, lead) if len(lead) > 1 else (f,)
        bs = [mr((*li, k)) for k in range(D)]
        ranks, acc = [], 0
        for b in bs:
            ranks.append(acc)
            acc = T.add(acc, T.ite(b, 1, 0))
        out = ar((*li, D - 1, *idx[1:]))
        for k in range(D - 2, -1, -1):
            out = T.ite(T.and_(bs[k], T.eq(ranks[k], j)), ar((*li, k, *idx[1:])), out)
        return out

    return fresh_array((T.mul(rows, w), *a.shape[m.ndim:]), a.dtype, init, f"{a.buf.name}[mask]", a.lib, device=a.device)


def check_mask(a, m, at=0):
    """numpy and torch refuse a boolean index whose extents are not those of the indexed axes"""
    if m.ndim > a.ndim - at:
        raise_index("too many indices for array")
    for s, d in zip(m.shape, a.shape[at:]):
        e = dim_eq(s, d)
        if e is None:
            e = CTX.decide(T.eq(s, d))
        if not e:
            raise_index(f"boolean index did not match indexed array: size of axis is {T.show(d)} but size of corresponding boolean axis is {T.show(s)}")


def raise_index(msg):
    from .interp import Raised

    raise Raised(IndexError(msg), CTX.loc())


def select_rows(a, m):
    """a[m] for a boolean array m covering the leading dimensions"""
    check_mask(a, m)
    return chosen(a, m)


def chosen(a, m):
    if m.ndim >= 2 and isinstance(m.shape[-1], int) and 2 <= m.shape[-1] <= 8 and isinstance(m.size(), E):
        r = select_per_row(a, m)
        if r is not None:
            return r
    md = m.ndim
    lead = m.shape
    n = m.size()
    mr = m.snap()
    v = T.fresh("sel", "i", 0)
    if md == 1:
        body = mr((v,))
    else:
        body = mr(flat_to_idx(v, lead))
    c = T.cnt(v, n, body)
    ar = a.snap()

    def init(idx):
        row = T.nth(v, n, body, idx[0])
        lead_idx = (row,) if md == 1 else flat_to_idx(row, lead)
        return ar((*lead_idx, *idx[1:]))

    if not isinstance(n, E) and not any(isinstance(T.subst(body, {v: k}), E) for k in range(min(n, 64))) and n <= 64:
        rows = [k for k in range(n) if T.subst(body, {v: k})]
        c = len(rows)

        def init(idx):  # noqa: F811
            k = idx[0]
            if isinstance(k, E):
                out = ar((rows[-1], *idx[1:]))
                for j in range(len(rows) - 2, -1, -1):
                    out = T.ite(T.eq(k, j), ar((rows[j], *idx[1:])), out)
                return out
            return ar((rows[k], *idx[1:]))

    return fresh_array((c, *a.shape[md:]), a.dtype, init, f"{a.buf.name}[mask]", a.lib, device=a.device)


def take(a, ind, axis=0):
    ir, ar = ind.snap(), a.snap()
    nd = ind.ndim
    d = a.shape[axis]

    def init(idx):
        k = _pos(ir(idx[axis:axis + nd]), d)
        return ar((*idx[:axis], k, *idx[axis + nd:]))

    return fresh_array((*a.shape[:axis], *ind.shape, *a.shape[axis + 1:]), a.dtype, init, f"{a.buf.name}[index]", a.lib, device=a.device)


def getitem(a, key):
    items = expand_items(a, key)
    if a.lib == "torch" and a.device == "cpu" and any(isinstance(it, Arr) and it.ndim and it.device != "cpu" for it in items):
        from .interp import Raised

        raise Raised(RuntimeError("indices should be on the same device as the indexed tensor"), CTX.loc())
    if any(isinstance(it, (list, Arr)) for it in items):
        items = [as_index(it, a.lib) if isinstance(it, list) else it for it in items]
        adv = [j for j, it in enumerate(items) if isinstance(it, Arr)]
        if len(adv) > 1:
            if any(items[j].dtype == "bool" for j in adv) or any(it is None or isinstance(it, slice) for it in items):
                raise Unresolved("mixed advanced indexing")
            # broadcast integer arrays
            arrs = [items[j] for j in range(len(items))]
            shp = broadcast_shape([x.shape if isinstance(x, Arr) else () for x in arrs])
            rs = [bread(x, shp) if isinstance(x, Arr) else (lambda idx, x=x: x) for x in arrs]
            ar, dims, n = a.snap(), a.shape, len(shp)

            def init(idx):
                ks = tuple(_pos(r(idx[:n]), d) for r, d in zip(rs, dims))
                return ar((*ks, *idx[n:]))

            return fresh_array((*shp, *a.shape[len(items):]), a.dtype, init, f"{a.buf.name}[index]", a.lib)
        j = adv[0]
        pre = [slice(None) if isinstance(it, Arr) else it for it in items]
        m = items[j]
        if m.dtype == "bool":
            before = items[:j]
            after = items[j + 1:]
            if before and any(it is not None and not (isinstance(it, slice) and it == slice(None)) for it in before):
                raise Unresolved("boolean index after other indices")
            if before:
                if m.ndim != 1:
                    raise Unresolved("boolean index")
                check_mask(a, m, len(before))
                return compress(m, a, len(before))
            r = select_rows(a, m)
            if after:
                r = basic_index(r, [slice(None), *after])
            return r
        base = basic_index(a, pre) if any(not (isinstance(it, slice) and it == slice(None)) for it in pre) else a
        # axis of the advanced index in the result of the basic part
        axis = sum(1 for it in pre[:j] if not (not isinstance(it, slice) and it is not None))
        return take(base, m, axis)
    r = basic_index(a, items)
    if r.ndim == 0 and a.lib == "np":
        return r.read(())
    return r


def compress(mask, a, axis):
    n = mask.size()
    mr, ar = mask.snap(), a.snap()
    v = T.fresh("sel", "i", 0)
    body = mr((v,))
    e = dim_eq(n, a.shape[axis])
    if e is None:
        e = CTX.decide(T.eq(n, a.shape[axis]))
    if not e and CTX.decide(T.lt(a.shape[axis], n)):  # a longer condition is accepted while nothing beyond is chosen
        if CTX.decide(T.lt(0, T.cnt(v, T.sub(n, a.shape[axis]), T.subst(body, {v: T.add(v, a.shape[axis])})))):
            raise_index("index out of bounds for axis")
    c = T.cnt(v, n, body)
    if axis == 0:
        return chosen(a, mask)

    def init(idx):
        return ar((*idx[:axis], T.nth(v, n, body, idx[axis]), *idx[axis + 1:]))

    return fresh_array((*a.shape[:axis], c, *a.shape[axis + 1:]), a.dtype, init, f"{a.buf.name}[mask]", a.lib)


def as_index(lst, lib):
    if lst and all(T.kind(v) == "b" for v in lst if not isinstance(v, (list, tuple))):
        return from_list(lst, "bool", lib)
    return from_list(lst, "int64", lib)


def setitem(a, key, v):
    items = expand_items(a, key)
    items = [as_index(it, a.lib) if isinstance(it, list) else it for it in items]
    adv = [it for it in items if isinstance(it, Arr)]
    if not adv:
        if not any(isinstance(it, slice) or it is None for it in items) and len(items) == a.ndim:
            if isinstance(v, Arr):
                v = v.read((0,) * v.ndim)
            for k, d in zip(items, a.shape):
                if CTX.in_jit() is not None:
                    CTX.access(a, k, d, "store")
                elif not isinstance(k, E) and not isinstance(d, E) and not -d <= k < d:
                    raise IndexError(f"index {k} is out of bounds for axis with size {d}")
            idx = tuple(_pos(k, d) for k, d in zip(items, a.shape))
            a.write_cell(idx, v)
            return
        tgt = basic_index(a, items)
        assign(tgt, v)
        return
    if len(adv) == 1 and adv[0].dtype == "bool" and isinstance(items[0], Arr):
        m = adv[0]
        check_mask(a, m)
        mr = m.snap()
        md = m.ndim
        rest = items[1:]
        tgt = basic_index(a, [slice(None)] * md + rest) if rest else a
        guard = lambda vi: mr(vi[:md])
        if isinstance(v, Arr) and v.ndim > 0:
            if dim_eq(v.shape[0], tgt.shape[0]) is True and md == 1 and v.ndim == tgt.ndim and False:
                pass
            # values are consumed in order of the true positions
            vr = v.snap()
            k = T.fresh("sel", "i", 0)
            lead = m.shape
            n = m.size()
            body = mr((k,)) if md == 1 else mr(flat_to_idx(k, lead))

            def f(vi):
                pos = vi[0] if md == 1 else idx_to_flat(vi[:md], lead)
                rank = T.cnt(k, pos, body)
                sub = (rank, *vi[md:])
                sub = sub[-v.ndim:] if len(sub) >= v.ndim else sub
                return vr(tuple(0 if (not isinstance(d, E) and d == 1) else x for x, d in zip(sub, v.shape)))

            tgt.write_region(f, guard)
            return
        if isinstance(v, Arr):
            v = v.read(())
        tgt.write_region(lambda vi: v, guard)
        return
    # integer-array assignment: a[ind] = v (last write of a repeated index wins)
    if len(items) == 1 and adv[0].ndim == 1:
        ind = adv[0]
        ir = ind.snap()
        n = ind.shape[0]
        j = T.fresh("j", "i", 0)
        evalr.DOMAIN[j] = (0, n)
        loc = CTX.loc()
        vr = None
        if isinstance(v, Arr):
            vr = v.snap()
            off = a.ndim - v.ndim
        CTX.wrote(a.buf)
        inv0 = a.inv
        row = _pos(ir((j,)), a.shape[0])
        if not isinstance(n, E) and n <= 64:
            for q in range(n):
                r = basic_index(a, [_pos(ir((q,)), a.shape[0])])
                assign(r, getitem(v, q) if isinstance(v, Arr) and v.ndim == a.ndim else v)
            return
        raise Unresolved("integer-array assignment")
    raise Unresolved("advanced assignment")


def assign(tgt, v):
    if isinstance(v, (list, tuple)):
        v = from_list(v, None, tgt.lib)
    if isinstance(v, Arr):
        check_broadcast(v.shape, tgt.shape, tgt.lib)
        r = bread(v, tgt.shape)
        tgt.write_region(r)
    else:
        tgt.write_region(lambda vi: v)


def check_broadcast(src, dst, lib="np"):
    for s, d in zip(reversed(src), reversed(dst)):
        if not isinstance(s, E) and s == 1:
            continue
        e = dim_eq(s, d)
        if e is False:
            raise shape_error(f"could not broadcast input array from shape {tuple(map(T.show, src))} into shape {tuple(map(T.show, dst))}", lib)
        if e is None:
            CTX.assume_equal(s, d)


def broadcast_shape(shapes, lib="np"):
    n = max(len(s) for s in shapes) if shapes else 0
    out = []
    for k in range(n):
        dim = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if not isinstance(d, E) and d == 1:
                continue
            if not isinstance(dim, E) and dim == 1:
                dim = d
                continue
            e = dim_eq(dim, d)
            if e is False:
                raise shape_error("operands could not be broadcast together", lib)
            if e is None:
                CTX.assume_equal(dim, d)
            if isinstance(dim, E) and not isinstance(d, E):
                dim = d
        out.append(dim)
    return tuple(out)


def bread(a, shape):
    """reader of a under broadcasting to shape"""
    r = a.snap()
    off = len(shape) - a.ndim
    ones = [not isinstance(d, E) and d == 1 for d in a.shape]
    tgt1 = [not isinstance(d, E) and d == 1 for d in shape[off:]] if off >= 0 else []

    def f(idx):
        ix = idx[off:] if off >= 0 else (0,) * (-off) + tuple(idx)
        return r(tuple(0 if o else x for o, x in zip(ones, ix)))

    return f


def elementwise(f, args, dtype, lib=None, name="expr"):
    arrs = [x for x in args if isinstance(x, Arr)]
    lib = lib or ("torch" if any(x.lib == "torch" for x in arrs) else "np")
    shape = broadcast_shape([x.shape for x in arrs], lib)
    rs = [bread(x, shape) if isinstance(x, Arr) else (lambda idx, x=x: x) for x in args]

    def init(idx):
        return coerce(dtype, f(*[r(idx) for r in rs]))

    return fresh_array(shape, dtype, init, name, lib, device=arrs[0].device if arrs else "cpu")


def reshape(a, shape, force_view=False):
    shape = list(shape)
    total = a.size()
    neg = [j for j, d in enumerate(shape) if not isinstance(d, E) and d == -1]
    if neg:
        known = 1
        for j, d in enumerate(shape):
            if j != neg[0]:
                known = T.mul(known, d)
        shape[neg[0]] = exact_div(total, known)
    newsize = 1
    for d in shape:
        newsize = T.mul(newsize, d)
    e = dim_eq(newsize, total)
    if e is False:
        raise shape_error(f"cannot reshape array of size {T.show(total)} into shape {tuple(map(T.show, shape))}", a.lib)
    if e is None:
        CTX.assume_equal(newsize, total)
    old, new = a.shape, tuple(shape)
    p = 0
    while p < len(old) and p < len(new) and (old[p] is new[p] or (not isinstance(old[p], E) and not isinstance(new[p], E) and old[p] == new[p])):
        p += 1
    if p == len(old) == len(new):
        return a.like(new, lambda idx: tuple(idx), lambda v: ((), (), tuple(v)), a.contig)
    o2, n2 = old[p:], new[p:]

    def fwd(idx):
        return (*idx[:p], *_conv(idx[p:], n2, o2))

    def inv(v):
        return (), (), (*v[:p], *_conv(v[p:], o2, n2))

    # splitting single dimensions never copies; merging needs contiguity
    splits = _split_only(o2, n2)
    if splits or a.contig is True or force_view or isinstance(a.contig, E):
        return a.like(new, fwd, inv, a.contig)
    c = copy(a)
    return c.like(new, fwd, inv, True)


def _split_only(o, n):
    """every old dimension is the product of a run of new ones"""
    j = 0
    for d in o:
        prod = 1
        while j < len(n) and dim_eq(prod, d) is not True:
            prod = T.mul(prod, n[j])
            j += 1
        if dim_eq(prod, d) is not True:
            return False
    return all((not isinstance(x, E) and x == 1) for x in n[j:])


def _conv(idx, src, dst):
    """index tuple over src extents -> index tuple over dst extents of equal size"""
    if len(src) == 0:
        return (0,) * len(dst)
    f = idx_to_flat(idx, src)
    if len(dst) == 0:
        return ()
    return flat_to_idx(f, dst)


def exact_div(total, known):
    if not isinstance(known, E) and known == 0:
        return 0
    if not isinstance(total, E) and not isinstance(known, E):
        return total // known
    if total is known:
        return 1
    if not isinstance(known, E):
        return T.fdiv(total, known)
    c, d = T._lin_parts(total)
    # divide term by term when every product contains the factor
    ck, dk = T._lin_parts(known)
    if ck == 0 and len(dk) == 1:
        (kt, kk), = dk.items()
        kf = list(kt.args) if kt.op == "imul" else [kt]
        out = 0
        ok = c == 0
        for t, v in d.items():
            fs = list(t.args) if t.op == "imul" else [t]
            for q in kf:
                if q in fs:
                    fs.remove(q)
                else:
                    ok = False
            if not ok or v % kk:
                ok = False
                break
            term = v // kk
            for q in fs:
                term = T.mul(term, q)
            out = T.add(out, term)
        if ok:
            return out
    # a constant quotient that the facts of the path establish
    if CTX is not None:
        from . import evalr

        for s in evalr.samples(CTX.path(), 1, (), 5):
            try:
                q, r = divmod(s.ev(total), s.ev(known))
            except (evalr.Skip, evalr.Uninit, evalr.OutOfBounds, ZeroDivisionError):
                continue
            if r == 0 and CTX.known(T.eq(total, T.mul(q, known))):
                return q
    r = T._mk("fdiv", (total, known), "i")
    return r


def transpose(a, perm):
    perm = tuple(p % a.ndim for p in perm)
    inv_perm = [0] * len(perm)
    for j, p in enumerate(perm):
        inv_perm[p] = j

    def fwd(idx):
        return tuple(idx[inv_perm[k]] for k in range(len(perm)))

    def inv(v):
        return (), (), tuple(v[p] for p in perm)

    contig = a.contig if perm == tuple(range(a.ndim)) else False
    if contig is False and any(not isinstance(d, E) and d in (0,) for d in a.shape):
        contig = True
    return a.like(tuple(a.shape[p] for p in perm), fwd, inv, contig)


def newaxis(a, pos):
    pos = pos if pos >= 0 else a.ndim + 1 + pos
    items = [slice(None)] * a.ndim
    items.insert(pos, None)
    r = basic_index(a, items)
    r.contig = a.contig
    return r


def squeeze(a, axis=None):
    if axis is None:
        drop = {j for j, d in enumerate(a.shape) if not isinstance(d, E) and d == 1}
    else:
        drop = {axis % a.ndim}
    items = [0 if j in drop else slice(None) for j in range(a.ndim)]
    r = basic_index(a, items)
    r.contig = a.contig
    return r


def expand(a, sizes):
    sizes = list(sizes)
    off = len(sizes) - a.ndim
    shape = []
    ones = []
    for j, s in enumerate(sizes):
        k = j - off
        if k < 0:
            shape.append(s)
            continue
        d = a.shape[k]
        if not isinstance(s, E) and s == -1:
            shape.append(d)
            ones.append(not isinstance(d, E) and d == 1)
        else:
            shape.append(s)
            ones.append(not isinstance(d, E) and d == 1)

    def fwd(idx):
        return tuple(0 if o else x for o, x in zip(ones, idx[off:]))

    def inv(v):
        raise Unresolved("write through an expanded view")

    return a.like(tuple(shape), fwd, inv, False)


def concat(arrs, axis):
    arrs = list(arrs)
    nd = arrs[0].ndim
    axis = axis % nd
    for a in arrs[1:]:
        if a.ndim != nd:
            raise shape_error("all the input array dimensions must match", arrs[0].lib)
        for k in range(nd):
            if k != axis:
                e = dim_eq(a.shape[k], arrs[0].shape[k])
                if e is False:
                    raise shape_error("all the input array dimensions except for the concatenation axis must match exactly", arrs[0].lib)
                if e is None:
                    CTX.assume_equal(a.shape[k], arrs[0].shape[k])
    dt = arrs[0].dtype
    for a in arrs[1:]:
        dt = (tpromote if a.lib == "torch" else promote)(dt, a.dtype)
    rs = [a.snap() for a in arrs]
    offs = [0]
    for a in arrs:
        offs.append(T.add(offs[-1], a.shape[axis]))

    def init(idx):
        k = idx[axis]

        def at(j):
            return coerce(dt, rs[j]((*idx[:axis], T.sub(k, offs[j]), *idx[axis + 1:])))

        out = None
        for j in range(len(arrs) - 1, -1, -1):
            if not isinstance(arrs[j].shape[axis], E) and arrs[j].shape[axis] == 0:
                continue
            if out is None:
                # last non-empty part
                lo = T.le(offs[j], k)
                if lo is False:
                    continue
                out = at(j)
                continue
            c = T.lt(k, offs[j + 1])
            if isinstance(c, E):
                kn = CTX.known(c) if CTX else None
                c = c if kn is None else kn
            if c is True:
                lo = T.le(offs[j], k)
                out = at(j) if lo is not False else out
            elif c is not False:
                out = T.ite(c, at(j), out)
        if out is None:
            raise Unresolved("concatenation index")
        return out

    shape = list(arrs[0].shape)
    shape[axis] = offs[-1]
    return fresh_array(tuple(shape), dt, init, "concat", arrs[0].lib, device=arrs[0].device)


def stack(arrs, axis):
    nd = arrs[0].ndim + 1
    axis = axis % nd
    return concat([newaxis(a, axis) for a in arrs], axis)


def reduce_axis(a, op, axis, keepdims=False):
    """op in + * min max and or argmin argmax"""
    if axis is None:
        n = a.size()
        r = a.snap()
        shp = a.shape
        if not isinstance(n, E) and n <= 64:
            return _fold_list(op, [r(flat_to_idx(k, shp)) for k in range(n)] if shp else [r(())])
        v = T.fresh("red", "i", 0)
        if isinstance(n, E) or n > 0:
            body = r(flat_to_idx(v, shp))
            return T.reduce_(op, v, 0, n, body)
        return {"+": 0, "*": 1, "and": True, "or": False}.get(op, T.unk("empty reduction"))
    if isinstance(axis, tuple):
        if len(axis) == 1:
            axis = axis[0]
        else:
            raise Unresolved("multi-axis reduction")
    axis = axis % a.ndim
    r = a.snap()
    n = a.shape[axis]

    def init(idx):
        if keepdims:
            pre, post = idx[:axis], idx[axis + 1:]
        else:
            pre, post = idx[:axis], idx[axis:]
        if not isinstance(n, E) and n <= 16:
            return _fold_list(op, [r((*pre, k, *post)) for k in range(n)])
        v = T.fresh("red", "i", 0)
        return T.reduce_(op, v, 0, n, r((*pre, v, *post)))

    dt = a.dtype
    if op in ("and", "or"):
        dt = "bool"
    elif op in ("argmin", "argmax"):
        dt = "int64"
    elif op in ("+", "*") and (dt == "bool" or dt.startswith(("int", "uint"))):
        dt = "int64"
    shape = (*a.shape[:axis], *((1,) if keepdims else ()), *a.shape[axis + 1:])
    return fresh_array(shape, dt, init, f"reduce {op}", a.lib, device=a.device)


def _fold_list(op, vals):
    if not vals:
        return {"+": 0, "*": 1, "and": True, "or": False}.get(op, T.unk("empty reduction"))
    if op in ("argmin", "argmax"):
        best, bi = vals[0], 0
        for k, v in enumerate(vals[1:], 1):
            c = T.lt(v, best) if op == "argmin" else T.lt(best, v)
            if isinstance(c, E) and CTX is not None:
                kn = CTX.known(c)
                c = c if kn is None else kn
            best, bi = T.ite(c, v, best), T.ite(c, k, bi)
        return bi
    f = {"+": T.add, "*": T.mul, "min": T.mn, "max": T.mx, "and": lambda a, b: T.and_(_tb(a), _tb(b)), "or": lambda a, b: T.or_(_tb(a), _tb(b))}[op]
    out = vals[0] if op not in ("and", "or") else _tb(vals[0])
    for v in vals[1:]:
        out = f(out, v)
    return out


def _tb(x):
    return x if T.kind(x) == "b" else T.ne(x, 0)
