"""Value-flow terms of the abstract domain.

A scalar of the analysed program is either a Python constant or an E: a
hash-consed expression over symbols (array lengths, loop indices), elements of
input arrays, and the operators of the program.  Integer sums are kept in a
linear normal form so that array extents and file offsets compare exactly.
"""
from __future__ import annotations

import itertools
import math

_table: dict = {}
_ids = itertools.count()


class E:
    __slots__ = ("op", "args", "kind", "id", "lo", "hi", "syms")

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("truth value of an abstract term")

    def __lt__(self, o):
        raise TypeError("ordering of abstract terms")


def _mk(op, args, kind, lo=-math.inf, hi=math.inf):
    key = (op, args, kind)
    # 1, 1.0 and True hash alike; keep bools apart from numbers
    key = (op, tuple((type(a) is bool, a) for a in args), kind)
    e = _table.get(key)
    if e is None:
        e = E()
        e.op, e.args, e.kind, e.lo, e.hi = op, args, kind, lo, hi
        e.id = next(_ids)
        s = frozenset()
        for a in _flat(args):
            if isinstance(a, E):
                s |= a.syms
        if op == "sym":
            s = s | {e}
        e.syms = s
        _table[key] = e
    return e


def _flat(args):
    for a in args:
        if isinstance(a, tuple):
            yield from _flat(a)
        else:
            yield a


_fresh = itertools.count()


def sym(name, kind="i", lo=-math.inf, hi=math.inf):
    e = _mk("sym", (name,), kind, lo, hi)
    return e


def reset_fresh():
    """every path of a scenario names its symbols alike, so that replayed branches meet the same terms"""
    global _fresh
    _fresh = itertools.count()


def fresh(prefix, kind="i", lo=-math.inf, hi=math.inf):
    return sym(f"{prefix}#{next(_fresh)}", kind, lo, hi)


def isE(x):
    return isinstance(x, E)


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def kind(x):
    if isinstance(x, E):
        return x.kind
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    return "f"


def isint(x):
    return kind(x) in "ib"


# ---------------------------------------------------------------- intervals
_rng_memo: dict = {}


def rng(x):
    if not isinstance(x, E):
        return (x, x)
    r = _rng_memo.get(x.id)
    if r is None:
        r = _rng(x)
        _rng_memo[x.id] = r
    return r


def _mulr(c, r):
    if c == 0:
        return (0, 0)
    a, b = c * r[0], c * r[1]
    return (min(a, b), max(a, b))


def _rng(x):
    op, a = x.op, x.args
    if op == "sym":
        return (x.lo, x.hi)
    if op == "lin":
        c, ts = a
        # x - K*fdiv(x, K) is a residue
        d = dict(ts)
        for t, k in ts:
            if t.op == "fdiv" and isinstance(t.args[1], int):
                inner, K = t.args
                if k % K == 0:
                    m = -k // K
                    rest = sub(x, mul(m, sub(inner, mul(K, t))))
                    n_rest = 0 if not isinstance(rest, E) else (len(rest.args[1]) if rest.op == "lin" else 1)
                    if n_rest < len(ts):
                        r = rng(rest)
                        q = _mulr(m, (0, K - 1))
                        return (r[0] + q[0], r[1] + q[1])
        lo = hi = c
        for t, k in ts:
            r = _mulr(k, rng(t))
            lo, hi = lo + r[0], hi + r[1]
        return (lo, hi)
    if op == "fdiv":
        r = rng(a[0])
        if isinstance(a[1], int) and a[1] > 0:
            return (r[0] // a[1] if math.isfinite(r[0]) else r[0], r[1] // a[1] if math.isfinite(r[1]) else r[1])
    if op == "byteof":
        return (0, 255)
    if op == "elem":
        dt = a[1]
        return DT_RANGE.get(dt, (-math.inf, math.inf))
    if op == "cast":
        r = rng(a[1])
        d = DT_RANGE.get(a[0], (-math.inf, math.inf))
        if r[0] >= d[0] and r[1] <= d[1]:
            if a[0].startswith(("int", "uint")):
                return (math.floor(r[0]) if math.isfinite(r[0]) else r[0], math.floor(r[1]) if math.isfinite(r[1]) else r[1])
            return r
        return d
    if op in ("exp", "sqrt", "abs"):
        return (0, math.inf)
    if op == "sigmoid":
        return (0, 1)
    if op in ("min", "max"):
        f = min if op == "min" else max
        rs = [rng(t) for t in a]
        return (f(r[0] for r in rs), f(r[1] for r in rs))
    if op == "ite":
        r1, r2 = rng(a[1]), rng(a[2])
        return (min(r1[0], r2[0]), max(r1[1], r2[1]))
    if op == "band":
        if isinstance(a[1], int) and a[1] >= 0:
            return (0, a[1])
    if op in ("cnt", "nth", "ordr"):
        return (0, rng(a[1])[1])
    if x.kind == "b":
        return (0, 1)
    if op == "fadd":
        r1, r2 = rng(a[0]), rng(a[1])
        return (r1[0] + r2[0], r1[1] + r2[1]) if _fin(r1, r2) else (-math.inf, math.inf)
    if op == "fmul":
        if num(a[0]) and a[0] != 0:
            return _mulr(a[0], rng(a[1]))
    if op == "imul":
        rs = [rng(t) for t in a]
        if all(r[0] >= 0 for r in rs):
            lo = hi = 1
            for r in rs:
                lo *= r[0]
                hi = math.inf if math.isinf(hi) or math.isinf(r[1]) else hi * r[1]
            return (lo, hi)
    return (-math.inf, math.inf)


def _fin(r1, r2):
    return not any(math.isnan(v) for v in (r1[0] + r2[0], r1[1] + r2[1]))


DT_RANGE = {
    "uint8": (0, 255), "uint16": (0, 65535), "uint32": (0, 2**32 - 1), "int8": (-128, 127),
    "int16": (-2**15, 2**15 - 1), "int32": (-2**31, 2**31 - 1), "int64": (-2**63, 2**63 - 1), "uint64": (0, 2**64 - 1),
    "bool": (0, 1),
}


# ---------------------------------------------------------------- constructors
def _lin_parts(x):
    if isinstance(x, E):
        if x.op == "lin":
            return x.args[0], dict(x.args[1])
        return 0, {x: 1}
    return int(x), {}


def _lin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    return _mk("lin", (c, tuple(sorted(d.items(), key=lambda p: p[0].id))), "i")


def _cidx(f):
    return f


def add(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return a + b
    if isint(a) and isint(b):
        ca, da = _lin_parts(_b2i(a))
        cb, db = _lin_parts(_b2i(b))
        for t, k in db.items():
            da[t] = da.get(t, 0) + k
        return _lin(ca + cb, da)
    if num(a) and a == 0:
        return b
    if num(b) and b == 0:
        return a
    if not isinstance(b, E):
        a, b = b, a
    # constant folding over nested sums
    if not isinstance(a, E) and isinstance(b, E) and b.op == "fadd" and not isinstance(b.args[0], E):
        return add(a + b.args[0], b.args[1])
    if isinstance(a, E) and a.id > b.id:
        a, b = b, a
    return _mk("fadd", (a, b), "f")


def _b2i(a):
    if isinstance(a, E) and a.kind == "b":
        return _mk("b2i", (a,), "i")
    return a


def neg(a):
    return mul(-1, a)


def sub(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return a - b
    if a is b:
        return 0 if isint(a) else 0.0
    return add(a, mul(-1, b))


def mul(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return a * b
    if isint(a) and isint(b):
        a, b = _b2i(a), _b2i(b)
        if isinstance(a, E) and isinstance(b, E):
            ca, da = _lin_parts(a)
            cb, db = _lin_parts(b)
            # distribute: the products stay canonical
            if len(da) * len(db) <= 9:
                out, c = {}, ca * cb
                for t, k in da.items():
                    if cb:
                        out[t] = out.get(t, 0) + k * cb
                for t, k in db.items():
                    if ca:
                        out[t] = out.get(t, 0) + k * ca
                for t, k in da.items():
                    for u, m in db.items():
                        fs = (list(t.args) if t.op == "imul" else [t]) + (list(u.args) if u.op == "imul" else [u])
                        fs.sort(key=lambda e: e.id)
                        p = _mk("imul", tuple(fs), "i")
                        out[p] = out.get(p, 0) + k * m
                return _lin(c, out)
            p = _mk("imul", tuple(sorted((a, b), key=lambda e: e.id)), "i")
            return p
        if isinstance(a, E):
            a, b = b, a
        a = int(a)
        c, d = _lin_parts(b)
        return _lin(a * c, {t: a * k for t, k in d.items()})
    if not isinstance(b, E):
        a, b = b, a
    if num(a):
        if a == 1:
            return b
        if a == 0:
            return 0.0
        if isinstance(b, E) and b.op == "fmul" and not isinstance(b.args[0], E):
            return mul(a * b.args[0], b.args[1])
    elif isinstance(a, E) and a.id > b.id:
        a, b = b, a
    return _mk("fmul", (a, b), "f")


def div(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        if b == 0:
            return math.nan if a == 0 else math.copysign(math.inf, a)
        return a / b
    if num(b) and b == 1:
        return a if kind(a) == "f" else _mk("i2f", (a,), "f")
    if a is b:
        pass
    return _mk("fdiv_real", (a, b), "f")


def fdiv(a, k):
    if not isinstance(a, E) and not isinstance(k, E):
        return a // k
    if isint(a) and isinstance(k, int) and k > 0:
        a = _b2i(a)
        if k == 1:
            return a
        c, d = _lin_parts(a)
        q = {t: v // k for t, v in d.items() if v % k == 0}
        r = {t: v for t, v in d.items() if v % k != 0}
        qc, rc = divmod(c, k)
        rem = _lin(rc, r)
        lo, hi = rng(rem)
        if math.isfinite(lo) and math.isfinite(hi) and lo // k == hi // k:
            return add(_lin(qc, q), int(lo // k))
        if isinstance(rem, E) and rem.op == "fdiv" and isinstance(rem.args[1], int):
            rem2 = fdiv(rem.args[0], rem.args[1] * k)
            return add(_lin(qc, q), rem2)
        f = _mk("fdiv", (rem, k), "i") if isinstance(rem, E) else rem // k
        return add(_lin(qc, q), f)
    return _mk("fdiv", (a, k), "i" if isint(a) and isint(k) else "f")


def mod(a, k):
    if not isinstance(a, E) and not isinstance(k, E):
        return a % k
    if isint(a) and isinstance(k, int) and k > 0:
        return sub(a, mul(k, fdiv(a, k)))
    return _mk("mod", (a, k), "i" if isint(a) and isint(k) else "f")


def power(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        try:
            return a**b
        except (OverflowError, ZeroDivisionError):
            return math.nan
    if b == 2 and isint(a):
        return mul(a, a)
    if b == 1:
        return a
    return _mk("pow", (a, b), "f" if not (isint(a) and isint(b)) else "i")


def shl(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return int(a) << int(b)
    if isinstance(b, int) and not isinstance(b, bool) and b >= 0:
        return mul(2**b, a)
    return _mk("shl", (a, b), "i")


def shr(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return int(a) >> int(b)
    if isinstance(b, int) and not isinstance(b, bool) and b >= 0:
        return fdiv(a, 2**b)
    return _mk("shr", (a, b), "i")


def band(a, b):
    if kind(a) == "b" and kind(b) == "b":
        return and_(a, b)
    if not isinstance(a, E) and not isinstance(b, E):
        return int(a) & int(b)
    if not isinstance(b, E):
        m = int(b)
    else:
        a, b = b, a
        if isinstance(b, E):
            return _mk("band", tuple(sorted((a, b), key=lambda e: e.id)), "i")
        m = int(b)
    if m == 0:
        return 0
    if m > 0 and (m & (m + 1)) == 0:
        return mod(a, m + 1)
    return _mk("band", (a, m), "i")


def bor(a, b):
    if kind(a) == "b" and kind(b) == "b":
        return or_(a, b)
    if not isinstance(a, E) and not isinstance(b, E):
        return int(a) | int(b)
    if num(a) and a == 0:
        return b
    if num(b) and b == 0:
        return a
    if not isinstance(b, E):
        a, b = b, a
    if isinstance(a, E) and a.id > b.id:
        a, b = b, a
    return _mk("bor", (a, b), "i")


def bxor(a, b):
    if kind(a) == "b" and kind(b) == "b":
        return or_(and_(a, not_(b)), and_(not_(a), b))
    if not isinstance(a, E) and not isinstance(b, E):
        return int(a) ^ int(b)
    return _mk("bxor", (a, b), "i")


def invert(a):
    if kind(a) == "b":
        return not_(a)
    if not isinstance(a, E):
        return ~a
    return sub(-1, a)


def half(a):
    """rounding to 16 bits; other float formats are treated as real numbers"""
    if not isinstance(a, E):
        return frombytes(pack_value(a, "float16"), "float16")
    return a if a.op == "half" else _mk("half", (a,), "f")


def bhalf(a):
    """rounding to bfloat16"""
    if not isinstance(a, E):
        import struct

        if not math.isfinite(a):
            return a
        w = struct.unpack("<I", pack_value(a, "float32"))[0]
        w = (w + 0x7FFF + ((w >> 16) & 1)) & 0xFFFF0000
        return struct.unpack("<f", struct.pack("<I", w))[0]
    return a if a.op == "bhalf" else _mk("bhalf", (a,), "f")


def cast(dt, a):
    if dt == "bool":
        if kind(a) == "b":
            return a
        return ne(a, 0)
    if dt.startswith("float"):
        if not isinstance(a, E):
            return float(a)
        return a if kind(a) == "f" else _mk("i2f", (a,), "f")
    # integer types
    if not isinstance(a, E):
        if isinstance(a, float):
            if not math.isfinite(a):
                return _mk("cast", (dt, a), "i")
            a = int(a)
        a = int(a)
        lo, hi = DT_RANGE[dt]
        if lo <= a <= hi:
            return a
        w = hi - lo + 1
        return (a - lo) % w + lo
    if isint(a):
        r, d = rng(a), DT_RANGE[dt]
        if r[0] >= d[0] and r[1] <= d[1]:
            return _b2i(a)
        if dt in ("int64", "uint64"):
            return _b2i(a)
        if a.op == "cast" and rng(a.args[1])[0] >= d[0] and rng(a.args[1])[1] <= d[1] and isint(a.args[1]):
            return a.args[1]
    return _mk("cast", (dt, a), "i")


def fn1(op, a):
    if not isinstance(a, E):
        return ev_fn1(op, a)
    if op == "abs":
        if rng(a)[0] >= 0:
            return a
        return _mk("abs", (a,), a.kind)
    if op in ("floor", "ceil", "round", "trunc") and isint(a):
        return a
    return _mk(op, (a,), "f")


def ev_fn1(op, a):
    try:
        if op == "exp":
            return math.exp(a)
        if op == "log":
            return math.log(a) if a > 0 else (-math.inf if a == 0 else math.nan)
        if op == "sqrt":
            return math.sqrt(a) if a >= 0 else math.nan
        if op == "abs":
            return abs(a)
        if op == "sigmoid":
            return 1 / (1 + math.exp(-a)) if a >= 0 else math.exp(a) / (1 + math.exp(a))
        if op == "floor":
            return float(math.floor(a))
        if op == "ceil":
            return float(math.ceil(a))
        if op == "round":
            return float(round(a))
        if op == "trunc":
            return float(math.trunc(a))
        if op == "expm1":
            return math.expm1(a)
        if op == "log1p":
            return math.log1p(a) if a > -1 else (-math.inf if a == -1 else math.nan)
        if op == "sign":
            return (a > 0) - (a < 0)
        if op == "tanh":
            return math.tanh(a)
        if op == "isfinite":
            return math.isfinite(a)
        if op == "isnan":
            return math.isnan(a)
        if op in ("sin", "cos", "log2", "log10", "exp2"):
            return getattr(math, op)(a) if op != "exp2" else 2.0**a
    except OverflowError:
        return math.inf
    except ValueError:
        return math.nan
    raise KeyError(op)


def _mm(op, a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return min(a, b) if op == "min" else max(a, b)
    items = []
    for t in (a, b):
        if isinstance(t, E) and t.op == op:
            items.extend(t.args)
        else:
            items.append(t)
    cs = [t for t in items if not isinstance(t, E)]
    es = sorted({t for t in items if isinstance(t, E)}, key=lambda e: e.id)
    if cs:
        c = min(cs) if op == "min" else max(cs)
        if op == "min":
            es = [e for e in es if rng(e)[0] < c]
            drop_c = any(rng(e)[1] <= c for e in es)
        else:
            es = [e for e in es if rng(e)[1] > c]
            drop_c = any(rng(e)[0] >= c for e in es)
        if not es:
            return c
        if not drop_c:
            es = [c, *es]
    if len(es) == 1:
        return es[0]
    # pairwise decidable differences
    out = list(es)
    for x in list(out):
        for y in list(out):
            if x is y or x not in out or y not in out:
                continue
            if isint(x) and isint(y):
                lo, hi = rng(sub(x, y))
                if (op == "min" and lo >= 0) or (op == "max" and hi <= 0):
                    out.remove(x)
                    break
    if len(out) == 1:
        return out[0]
    return _mk(op, tuple(out), "i" if all(isint(t) for t in out) else "f")


def mn(a, b):
    return _mm("min", a, b)


def mx(a, b):
    return _mm("max", a, b)


# ---------------------------------------------------------------- booleans
def not_(a):
    if not isinstance(a, E):
        return not a
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return le0(add(1, mul(-1, a.args[0])))
    if a.kind != "b":
        return eq(a, 0)
    return _mk("not", (a,), "b")


def le0(p):
    """integer p <= 0"""
    if not isinstance(p, E):
        return p <= 0
    lo, hi = rng(p)
    if hi <= 0:
        return True
    if lo > 0:
        return False
    # divide out the content
    if p.op == "lin":
        c, ts = p.args
        g = math.gcd(*[k for _, k in ts])
        if g > 1:
            # sum <= -c  =>  sum/g <= floor(-c/g)
            p = _lin(-((-c) // g), {t: k // g for t, k in ts})
            if not isinstance(p, E):
                return p <= 0
    return _mk("le0", (p,), "b")


def lt(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return a < b
    if isint(a) and isint(b):
        return le0(add(sub(_b2i(a), _b2i(b)), 1))
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0]:
        return True
    if ra[0] >= rb[1]:
        return False
    if a is b:
        return False
    return _mk("flt", (a, b), "b")


def le(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return a <= b
    if isint(a) and isint(b):
        return le0(sub(_b2i(a), _b2i(b)))
    ra, rb = rng(a), rng(b)
    if ra[1] <= rb[0]:
        return True
    if ra[0] > rb[1]:
        return False
    if a is b:
        return True
    return _mk("fle", (a, b), "b")


def eq(a, b):
    if not isinstance(a, E) and not isinstance(b, E):
        return a == b
    if a is b:
        return True
    if kind(a) == "b" and kind(b) == "b":
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return a if b else not_(a)
        return _mk("beq", tuple(sorted((a, b), key=lambda e: e.id)), "b")
    if isint(a) and isint(b):
        p = sub(_b2i(a), _b2i(b))
        if not isinstance(p, E):
            return p == 0
        lo, hi = rng(p)
        if lo > 0 or hi < 0:
            return False
        if p.op == "lin" and p.args[1][0][1] < 0:
            p = mul(-1, p)
        if p.op == "lin":
            c, ts = p.args
            g = math.gcd(*[k for _, k in ts])
            if g > 1:
                if c % g:
                    return False
                p = _lin(c // g, {t: k // g for t, k in ts})
        return _mk("eq0", (p,), "b")
    ra, rb = rng(a), rng(b)
    if ra[1] < rb[0] or rb[1] < ra[0]:
        return False
    if not isinstance(a, E) or (isinstance(b, E) and a.id > b.id):
        a, b = b, a
    return _mk("feq", (a, b), "b")


def ne(a, b):
    return not_(eq(a, b))


def and_(a, b):
    if not isinstance(a, E):
        return b if a else False
    if not isinstance(b, E):
        return a if b else False
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk("and", (a, b), "b")


def or_(a, b):
    if not isinstance(a, E):
        return True if a else b
    if not isinstance(b, E):
        return True if b else a
    if a is b:
        return a
    return not_(and_(not_(a), not_(b)))


def ite(c, a, b):
    if not isinstance(c, E):
        return a if c else b
    if a is b:
        return a
    if not isinstance(a, E) and not isinstance(b, E):
        if type(a) is type(b) and (a == b):
            return a
        if isinstance(a, bool) and isinstance(b, bool):
            return c if a else not_(c)
    if c.op == "not":
        c, a, b = c.args[0], b, a
    # select of the compared operands is a minimum or maximum
    if c.op in ("flt", "fle"):
        x, y = c.args
        if (a is x or a == x if not isinstance(a, E) else a is x) and (b is y or (not isinstance(b, E) and b == y)):
            return mn(x, y)
        if (a is y or (not isinstance(a, E) and not isinstance(y, E) and a == y)) and (b is x or (not isinstance(b, E) and not isinstance(x, E) and b == x)):
            return mx(x, y)
    k = kind(a) if kind(a) == kind(b) else ("f" if "f" in (kind(a), kind(b)) else "i")
    return _mk("ite", (c, a, b), k)


def elem(src, dt, idx):
    """element of an input array (src names it)"""
    k = "b" if dt == "bool" else ("i" if dt.startswith(("int", "uint")) else "f")
    return _mk("elem", (src, dt, tuple(idx)), k)


def uninit(name):
    return _mk("uninit", (name,), "f")


def unk(reason=""):
    return _mk("unk", (next(_fresh), str(reason)[:80]), "f")


def has_unk(x, _memo={}):
    if not isinstance(x, E):
        return False
    r = _memo.get(x.id)
    if r is None:
        r = x.op == "unk" or any(has_unk(a) for a in _flat(x.args) if isinstance(a, E))
        _memo[x.id] = r
    return r


_hasop: dict = {}


def has_op(x, ops):
    if not isinstance(x, E):
        return any(has_op(y, ops) for y in x) if isinstance(x, tuple) else False
    k = (x.id, ops)
    r = _hasop.get(k)
    if r is None:
        r = _hasop[k] = x.op in ops or any(has_op(a, ops) for a in x.args)
    return r


def find_unk(x):
    if isinstance(x, E):
        if x.op == "unk":
            return x.args[1]
        for a in _flat(x.args):
            if isinstance(a, E) and has_unk(a):
                return find_unk(a)
    return None


BOUND = [sym(f"%{k}", "i", 0) for k in range(40)]
_BSET = {b: k for k, b in enumerate(BOUND)}
_depth_memo: dict = {}


def bdepth(x):
    """largest bound-variable number used inside x, plus one"""
    if not isinstance(x, E):
        return 0
    d = 0
    for s in x.syms:
        k = _BSET.get(s)
        if k is not None:
            d = max(d, k + 1)
    return d


def bind(var, *bodies):
    """rename var to a canonical bound variable in the bodies"""
    d = max([bdepth(b) for b in bodies] + [0])
    v = BOUND[d]
    return v, tuple(subst(b, {var: v}) for b in bodies)


def nth(var, n, body, k):
    """index of the k-th true position of body(var) for var in [0, n)"""
    v, (b,) = bind(var, body)
    return _mk("nth", (v, n, b, k), "i", 0)


def cnt(var, n, body):
    v, (b,) = bind(var, body)
    return _mk("cnt", (v, n, b), "i", 0)


def ordr(var, n, body, k, desc=False):
    """position of the k-th smallest (largest) of body(var), var in [0, n), in stable order"""
    v, (b,) = bind(var, body)
    return _mk("ordr", (v, n, b, k, desc), "i", 0)


def fold(var, lo, hi, prevs, inits, bodies, which, alive=None):
    """value of carried variable number `which` after the sequential loop"""
    prevs, inits, bodies = tuple(prevs), tuple(inits), tuple(bodies)
    d = max([bdepth(b) for b in bodies if isinstance(b, E)] + [0])
    vs = [BOUND[d + j] for j in range(len(prevs) + 1)]
    m = {var: vs[0]}
    for j, p in enumerate(prevs):
        m[p] = _mk("sym", (vs[j + 1].args[0] + p.kind,), p.kind)
    nprevs = tuple(m[p] for p in prevs)
    nb = tuple(subst(b, m) for b in bodies)
    return _mk("fold", (vs[0], lo, hi, nprevs, inits, nb, which), kind(bodies[which]))


def reduce_(op, var, lo, hi, body):
    v, (b,) = bind(var, body)
    return _mk("reduce", (op, v, lo, hi, b), kind(b) if kind(b) != "b" or op in ("and", "or") else "i")


# ---------------------------------------------------------------- substitution
def subst(x, m):
    if not isinstance(x, E) or not m:
        return x
    memo = {}
    keys = frozenset(m)
    return _subst(x, m, keys, memo)


def _subst(x, m, keys, memo):
    if isinstance(x, tuple):
        return tuple(_subst(a, m, keys, memo) for a in x)
    if not isinstance(x, E):
        return x
    if not (x.syms & keys):
        return x
    r = memo.get(x.id)
    if r is None:
        if x.op == "sym":
            r = m.get(x, x)
        else:
            r = rebuild(x, tuple(_subst(a, m, keys, memo) for a in x.args))
        memo[x.id] = r
    return r


def rebuild(x, a):
    op = x.op
    if op == "lin":
        c, ts = a
        out = c
        for t, k in ts:
            out = add(out, mul(k, t))
        return out
    f = _REB.get(op)
    if f:
        return f(*a)
    if op in ("min", "max"):
        out = a[0]
        for t in a[1:]:
            out = _mm(op, out, t)
        return out
    if op == "imul":
        out = a[0]
        for t in a[1:]:
            out = mul(out, t)
        return out
    if op in _F1:
        return fn1(op, a[0])
    return _mk(op, a, x.kind, x.lo, x.hi)


_F1 = {"exp", "log", "sqrt", "abs", "sigmoid", "floor", "ceil", "round", "trunc", "expm1", "log1p", "sign", "tanh"}
def byteof(v, k, dt):
    """byte k of the stored form of v"""
    if not isinstance(v, E) and not isinstance(k, E):
        return pack_value(v, dt)[k]
    return _mk("byteof", (v, k, dt), "i")


_CODES = {"float32": "f", "float64": "d", "float16": "e", "uint8": "B", "int8": "b", "uint32": "I", "int32": "i", "uint16": "H", "int16": "h", "int64": "q", "uint64": "Q", "bool": "?"}


def pack_value(v, dt):
    import struct

    try:
        return struct.pack("<" + _CODES[dt], v)
    except OverflowError:
        return struct.pack("<" + _CODES[dt], math.copysign(math.inf, v))


def frombytes(bs, dt):
    """value of type dt stored in the given byte values"""
    b0 = bs[0]
    if isinstance(b0, E) and b0.op == "byteof" and b0.args[2] == dt and all(isinstance(b, E) and b.op == "byteof" and b.args == (b0.args[0], k, dt) for k, b in enumerate(bs)):
        return b0.args[0]
    if not any(isinstance(b, E) for b in bs):
        import struct

        return struct.unpack("<" + _CODES[dt], bytes(bs))[0]
    return _mk("frombytes", (tuple(bs), dt), "f" if dt.startswith("f") else "i")


_REB = {
    "byteof": byteof, "frombytes": frombytes,
    "fadd": add, "fmul": mul, "fdiv_real": div, "fdiv": fdiv, "mod": mod, "pow": power, "shl": shl, "shr": shr,
    "band": band, "bor": bor, "bxor": bxor, "cast": cast, "not": not_, "le0": le0, "flt": lt, "fle": le, "feq": eq,
    "eq0": lambda p: eq(p, 0), "beq": eq, "and": and_, "ite": ite,
    "elem": lambda s, d, i: elem(s, d, i),
    "b2i": lambda b: _b2i(b) if isinstance(b, E) else int(b),
    "i2f": lambda a: cast("float64", a), "half": half, "bhalf": bhalf,
}


# ---------------------------------------------------------------- printing
def show(x, depth=6):
    if not isinstance(x, E):
        if isinstance(x, float):
            return f"{x:.6g}"
        return str(x)
    if depth <= 0:
        return "…"
    s = lambda t: show(t, depth - 1)
    op, a = x.op, x.args
    if op == "sym":
        return a[0].split("#")[0]
    if op == "lin":
        c, ts = a
        parts = [(s(t) if k == 1 else f"{k}*{s(t)}") for t, k in ts]
        if c:
            parts.append(str(c))
        return "(" + " + ".join(parts) + ")"
    if op == "elem":
        return f"{a[0]}[{', '.join(s(i) for i in a[2])}]"
    names = {"fadd": "+", "fmul": "*", "fdiv_real": "/", "flt": "<", "fle": "<=", "feq": "==", "and": "and", "bor": "|", "fdiv": "//"}
    if op in names:
        return f"({s(a[0])} {names[op]} {s(a[1])})"
    if op == "le0":
        return f"({s(a[0])} <= 0)"
    if op == "eq0":
        return f"({s(a[0])} == 0)"
    if op == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if op == "uninit":
        return f"<uninitialised {a[0]}>"
    if op == "unk":
        return f"<unknown {a[1]}>"
    if op == "reduce":
        return f"{a[0]}({s(a[4])} for {s(a[1])} in [{s(a[2])}, {s(a[3])}))"
    if op == "cast":
        return f"{a[0]}({s(a[1])})"
    return f"{op}({', '.join(s(t) if not isinstance(t, tuple) else str(t)[:40] for t in a)})"
