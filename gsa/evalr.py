"""Random interpretation of value-flow terms.

Two terms whose normal forms differ are compared by evaluating both under the
same randomly drawn values of their symbols and array elements (Gulwani and
Necula's random interpretation).  Draws respect the facts of the path the terms
belong to.  A difference is a witness; agreement on every draw is taken as
equality.
"""
from __future__ import annotations

import hashlib
import math
import random

from . import terms as T
from .terms import E


class Skip(Exception):
    """this draw cannot be evaluated (unknown value, too large a loop, ...)"""


class Uninit(Exception):
    pass


class OutOfBounds(Exception):
    pass


DOMAIN: dict = {}  # sym -> (lo, hi) half-open, terms or ints
POOL: dict = {}  # sym -> list of candidate values
SHAPES: dict = {}  # input array name -> shape tuple (terms)
GENERATORS: dict = {}  # input array name -> f(rnd) -> value, or a list of g(rnd) -> f of which a draw takes one

DEFAULT_POOL = [1, 2, 3, 4, 5, 7, 130, 255, 256, 257, 300, 511, 512, 513]
MAXLOOP = 40000


FN2 = {"atan2": math.atan2}


class Sample:
    def __init__(self, seed, consts=(), small=False):
        self.seed = seed
        self.rnd = random.Random(seed)
        self.vals = {}
        self.memo = {}
        self.consts = consts
        self.elems = {}
        self.manners = {}
        self.tables = {}
        self.small = small
        self.overflow = []
        self.budget = 400000
        self.track_casts = False
        self.idealise = False

    # ---- symbols
    def symval(self, s):
        v = self.vals.get(s)
        if v is None:
            v = self.vals[s] = self._draw(s)
        return v

    def _draw(self, s):
        if s in DOMAIN:
            lo, hi = (self.ev(b) for b in DOMAIN[s])
            lo, hi = int(lo), int(hi)
            if hi <= lo:
                raise Skip("empty domain")
            c = self.rnd.random()
            if c < 0.2:
                return lo
            if c < 0.45:
                return hi - 1
            return self.rnd.randrange(lo, hi)
        if s in POOL:
            return self.rnd.choice(POOL[s])
        if s.kind == "b":
            return self.rnd.random() < 0.5
        if s.kind == "f":
            return self._float()
        pool = [p for p in (DEFAULT_POOL[:6] if self.small else DEFAULT_POOL) if s.lo <= p <= s.hi]
        extra = [c for c in self.consts if isinstance(c, int) and s.lo <= c <= s.hi and abs(c) < 10**9]
        if extra and self.rnd.random() < 0.5:
            return self.rnd.choice(extra)
        if pool:
            return self.rnd.choice(pool)
        lo = s.lo if math.isfinite(s.lo) else 0
        hi = s.hi if math.isfinite(s.hi) else lo + 10
        return self.rnd.randint(int(lo), int(hi))

    def _float(self, rnd=None):
        rnd = rnd or self.rnd
        c = rnd.random()
        if c < 0.1 and self.consts:
            k = rnd.choice(self.consts)
            if abs(k) < 1e6:
                return float(k) + rnd.choice([0.0, 1e-3, -1e-3, 0.25, -0.25])
        if c < 0.6:
            return rnd.uniform(-3, 3)
        if c < 0.75:
            return rnd.uniform(-30, 30)
        if c < 0.95:
            return rnd.uniform(0, 1)
        return rnd.choice([0.0, 1.0, -1.0, 0.5])

    def _manner(self, src, gs):
        # "x.mins" and "x.maxs" take corresponding manners
        h = hashlib.blake2b(repr((self.seed, src.partition(".")[0])).encode(), digest_size=8).digest()
        rnd = random.Random(int.from_bytes(h, "little"))
        return rnd.choice(gs)(rnd)

    def elem(self, src, dt, idx):
        key = (src, idx)
        v = self.elems.get(key)
        if v is None:
            h = hashlib.blake2b(repr((self.seed, src, idx)).encode(), digest_size=8).digest()
            rnd = random.Random(int.from_bytes(h, "little"))
            g = GENERATORS.get(src)
            if isinstance(g, list):
                # one manner per draw, the same for every element of the array
                g = self.manners.get(src) or self.manners.setdefault(src, self._manner(src, g))
            if g:
                v = g(rnd)
            elif dt == "bool":
                v = rnd.random() < 0.5
            elif dt.startswith(("int", "uint")):
                lo, hi = T.DT_RANGE[dt]
                if dt in ("int64", "uint64", "intp"):
                    lo, hi = -5, 600
                c = rnd.random()
                v = lo if c < 0.05 else hi if c < 0.1 else rnd.randint(lo, hi)
            else:
                v = self._float(rnd)
            self.elems[key] = v
        return v

    # ---- terms
    def ev(self, x):
        if not isinstance(x, E):
            return x
        return self._ev(x, self.memo, None)

    def _ev(self, x, memo, bv):
        """memo holds terms free of bound variables; bv is (values, memo) of the innermost binding"""
        if not isinstance(x, E):
            return x
        if bv is not None and not (x.syms & bv[2]):
            m = memo
        else:
            m = memo if bv is None else bv[1]
        r = m.get(x.id, m)
        if r is not m:
            return r
        self.budget -= 1
        if self.budget < 0:
            raise Skip("budget")
        r = self._ev1(x, memo, bv)
        m[x.id] = r
        return r

    def _bind(self, bv, extra):
        vals = dict(bv[0]) if bv else {}
        vals.update(extra)
        return (vals, {}, frozenset(vals))

    def _ev1(self, x, memo, bv):
        op, a = x.op, x.args
        ev = lambda t: self._ev(t, memo, bv)
        if op == "sym":
            if bv is not None and x in bv[0]:
                return bv[0][x]
            return self.symval(x)
        if op == "lin":
            out = a[0]
            for t, k in a[1]:
                out += k * ev(t)
            return out
        if op == "elem":
            idx = tuple(int(ev(i)) for i in a[2])
            sh = SHAPES.get(a[0])
            if sh is not None:
                for i, d in zip(idx, sh):
                    d = self.ev(d)
                    if not (0 <= i < d):
                        raise OutOfBounds(f"{a[0]}{list(idx)} outside extent {d}")
            return self.elem(a[0], a[1], idx)
        if op == "ite":
            return ev(a[1]) if ev(a[0]) else ev(a[2])
        if op == "fadd":
            return ev(a[0]) + ev(a[1])
        if op == "fmul":
            return ev(a[0]) * ev(a[1])
        if op == "fdiv_real":
            n, d = ev(a[0]), ev(a[1])
            if d == 0:
                return math.nan if n == 0 or math.isnan(n) else math.copysign(math.inf, n)
            return n / d
        if op == "fdiv":
            n, d = ev(a[0]), ev(a[1])
            if d == 0:
                raise Skip("division by zero")
            return n // d
        if op == "mod":
            n, d = ev(a[0]), ev(a[1])
            if d == 0:
                raise Skip("modulo zero")
            return n % d
        if op == "pow":
            try:
                r = ev(a[0]) ** ev(a[1])
                return r if not isinstance(r, complex) else math.nan
            except (OverflowError, ZeroDivisionError):
                return math.inf
        if op == "imul":
            out = 1
            for t in a:
                out *= ev(t)
            return out
        if op == "shl":
            return int(ev(a[0])) << int(ev(a[1]))
        if op == "shr":
            return int(ev(a[0])) >> int(ev(a[1]))
        if op == "band":
            return int(ev(a[0])) & int(ev(a[1]))
        if op == "bor":
            return int(ev(a[0])) | int(ev(a[1]))
        if op == "bxor":
            return int(ev(a[0])) ^ int(ev(a[1]))
        if op == "cast":
            v = ev(a[1])
            if self.idealise and isinstance(v, float) and a[0] != "float":
                return v
            lo, hi = T.DT_RANGE[a[0]]
            if isinstance(v, float):
                if not math.isfinite(v):
                    if self.track_casts:
                        self.overflow.append((x, v))
                    return 0
                v = math.trunc(v)
                if not lo <= v <= hi:
                    if self.track_casts:
                        self.overflow.append((x, v))
            v = int(v)
            if lo <= v <= hi:
                return v
            return (v - lo) % (hi - lo + 1) + lo
        if op == "byteof":
            return T.pack_value(ev(a[0]), a[2])[int(ev(a[1]))]
        if op == "frombytes":
            return T.frombytes(tuple(int(ev(t)) for t in a[0]), a[1])
        if op == "bhalf":
            return T.bhalf(ev(a[0]))
        if op == "half":
            return T.half(ev(a[0]))
        if op == "i2f":
            return float(ev(a[0]))
        if op == "b2i":
            return int(ev(a[0]))
        if op == "not":
            return not ev(a[0])
        if op == "le0":
            return ev(a[0]) <= 0
        if op == "eq0":
            return ev(a[0]) == 0
        if op == "flt":
            return ev(a[0]) < ev(a[1])
        if op == "fle":
            return ev(a[0]) <= ev(a[1])
        if op in ("feq", "beq"):
            return ev(a[0]) == ev(a[1])
        if op == "and":
            return bool(ev(a[0]) and ev(a[1]))
        if op == "min":
            return min(ev(t) for t in a)
        if op == "max":
            return max(ev(t) for t in a)
        if op == "uninit":
            raise Uninit(a[0])
        if op == "unk":
            raise Skip("unknown value: " + a[1])
        if op in ("nth", "cnt"):
            v, n, body = a[0], a[1], a[2]
            key = (v.id, n if not isinstance(n, E) else n.id, body if not isinstance(body, E) else body.id)
            outer = None
            if bv is not None and ((isinstance(body, E) and body.syms & bv[2]) or (isinstance(n, E) and n.syms & bv[2])):
                outer = bv[1]
            tbl = (self.tables if outer is None else outer).get(("tbl", key))
            if tbl is None:
                N = int(ev(n))
                if N > MAXLOOP:
                    raise Skip("large selection")
                tbl = [k for k in range(N) if self._ev(body, memo, self._bind(bv, {v: k}))]
                (self.tables if outer is None else outer)[("tbl", key)] = tbl
            if op == "cnt":
                return len(tbl)
            k = int(ev(a[3]))
            if not 0 <= k < len(tbl):
                raise OutOfBounds("selection index")
            return tbl[k]
        if op == "fn2":
            return FN2[a[0]](ev(a[1]), ev(a[2]))
        if op == "ordr":
            v, n, body, k, desc = a
            N = int(ev(n))
            if N > MAXLOOP:
                raise Skip("large sort")
            key = ("ord", v.id, n if not isinstance(n, E) else n.id, body if not isinstance(body, E) else body.id, desc)
            store = self.tables if bv is None else bv[1]
            tbl = store.get(key)
            if tbl is None:
                vals = [self._ev(body, memo, self._bind(bv, {v: k2})) for k2 in range(N)]
                tbl = store[key] = sorted(range(N), key=(lambda j: -vals[j]) if desc else (lambda j: vals[j]))
            k = int(ev(k))
            if not 0 <= k < N:
                raise OutOfBounds("sorted position")
            return tbl[k]
        if op == "reduce":
            rop, v, lo, hi, body = a
            lo, hi = int(ev(lo)), int(ev(hi))
            if hi - lo > MAXLOOP:
                raise Skip("large reduction")
            vals = (self._ev(body, memo, self._bind(bv, {v: k})) for k in range(lo, hi))
            if rop in ("min", "max"):
                vals = list(vals)
                if not vals:
                    raise Skip("empty reduction")
                return min(vals) if rop == "min" else max(vals)
            if rop == "+":
                return sum(vals)
            if rop == "*":
                return math.prod(vals)
            if rop == "and":
                return all(vals)
            if rop == "or":
                return any(vals)
            if rop in ("argmin", "argmax"):
                vals = list(vals)
                if not vals:
                    raise Skip("empty reduction")
                f = min if rop == "argmin" else max
                return vals.index(f(vals))
            raise Skip("reduce " + rop)
        if op == "fold":
            v, lo, hi, prevs, inits, bodies, which = a
            key = ("fold", v.id, lo if not isinstance(lo, E) else lo.id, hi if not isinstance(hi, E) else hi.id,
                   tuple(p.id for p in prevs), tuple(i if not isinstance(i, E) else ("e", i.id) for i in inits),
                   tuple(i if not isinstance(i, E) else ("e", i.id) for i in bodies))
            store = self.tables if bv is None else bv[1]
            cur = store.get(key)
            if cur is None:
                lo, hi = int(ev(lo)), int(ev(hi))
                if hi - lo > MAXLOOP:
                    raise Skip("large loop")
                # a variable that is never read may start undefined
                cur = []
                for i in inits:
                    try:
                        cur.append(ev(i))
                    except Uninit as e:
                        cur.append(e)
                for k in range(lo, hi):
                    b = self._bind(bv, {v: k, **{p: c for p, c in zip(prevs, cur) if not isinstance(c, Uninit)}})
                    cur = [self._ev(t, memo, b) for t in bodies]
                store[key] = cur
            r = cur[which]
            if isinstance(r, Uninit):
                raise r
            return r
        if op in T._F1:
            return T.ev_fn1(op, ev(a[0]))
        if op in ("isfinite", "isnan", "sin", "cos", "log2", "log10", "exp2"):
            return T.ev_fn1(op, ev(a[0]))
        raise Skip("operator " + op)


# ---------------------------------------------------------------- draws that satisfy a path
_const_memo: dict = {}


def constants(*xs):
    out = set()
    for x in xs:
        out |= _consts(x)
    return out


def _consts(x):
    if isinstance(x, bool):
        return frozenset()
    if T.num(x):
        return frozenset([x]) if abs(x) < 1e7 else frozenset()
    if isinstance(x, tuple):
        r = frozenset()
        for a in x:
            r |= _consts(a)
        return r
    if not isinstance(x, E):
        return frozenset()
    r = _const_memo.get(x.id)
    if r is None:
        r = frozenset()
        for a in T._flat(x.args):
            r |= _consts(a)
        if len(r) > 60:
            r = frozenset(sorted(r)[:60])
        _const_memo[x.id] = r
    return r


def fact_points(facts):
    """boundary values suggested by single-symbol linear facts"""
    pts = {}
    for f in facts:
        for g in _conj(f):
            if isinstance(g, E) and g.op == "not":
                g = g.args[0]
            if isinstance(g, E) and g.op in ("le0", "eq0") and isinstance(g.args[0], E):
                p = g.args[0]
                c, d = T._lin_parts(p)
                for t, k in d.items():
                    base = None
                    if t.op == "sym":
                        base, m = t, 1
                    elif t.op == "fdiv" and isinstance(t.args[0], E) and isinstance(t.args[1], int):
                        cc, dd = T._lin_parts(t.args[0])
                        if len(dd) == 1:
                            (u, m2), = dd.items()
                            if u.op == "sym":
                                base, m = u, t.args[1]
                    if base is not None and len(d) == 1:
                        b = -c / k * m
                        for q in (math.floor(b), math.ceil(b), math.floor(b) - 1, math.ceil(b) + 1):
                            if q >= 0:
                                pts.setdefault(base, set()).add(int(q))
    return pts


def _conj(f):
    if isinstance(f, E) and f.op == "and":
        yield from _conj(f.args[0])
        yield from _conj(f.args[1])
    else:
        yield f


def samples(facts, n, consts=(), seed=0, tries=30, small=False, effort=None):
    """up to n draws under which every fact holds; effort bounds the work spent without finding one"""
    consts = sorted({c for c in consts if math.isfinite(c)}, key=float)
    pts = fact_points(facts)
    got = 0
    for t in range(n * tries):
        s = Sample(seed * 1000003 + t, consts, small)
        for y, vs in pts.items():
            if y not in DOMAIN and s.rnd.random() < 0.5:
                s.vals[y] = s.rnd.choice(sorted(vs))
        try:
            ok = all(s.ev(f) for f in facts)
        except (Skip, Uninit, OutOfBounds):
            ok = False
        if effort is not None:
            effort -= 400000 - s.budget
            if effort < 0 and not ok:
                return
        if not ok:
            continue
        s.budget = 400000
        yield s
        got += 1
        if got >= n:
            return
        if t > 40 and got == 0 and t > n * 2 + 100:
            return


def close(a, b, tol=1e-6):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if math.isnan(a) and math.isnan(b):
        return True
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))
