"""Scenario building blocks and equality obligations."""
from __future__ import annotations

import itertools
import math

from . import arrays as A
from . import bytesfs as B
from . import evalr
from . import interp as I
from . import lib
from . import terms as T
from .arrays import Arr, Unresolved
from .terms import E

BANDS = {0: 0, 1: 3, 2: 8, 3: 15}
SIZES = [1, 2, 3, 4, 5, 7, 130, 255, 256, 257, 300, 511, 512, 513]


FORCED = {}  # counts fixed for the running scenario


def count(name="N", lo=1, pool=None, hi=math.inf):
    if name in FORCED:
        return FORCED[name]
    s = T.fresh(name, "i", lo, hi)
    evalr.POOL[s] = pool or SIZES
    return s


def arr(name, shape, dtype="float32", lib_="np", owner="input", contig=True, device="cpu"):
    a = A.input_array(name, shape, dtype, lib_, owner)
    a.contig = contig
    a.device = device
    return a


# draws beyond the asked-for number, as long as evaluating them stays cheap
MORE, CHEAP = 6, 8000


class Undecided(Exception):
    pass


class Diff:
    def __init__(self, what, detail):
        self.what, self.detail = what, detail

    def __str__(self):
        return f"{self.what}: {self.detail}"


def term_diff(facts, a, b, n=16, tol=1e-5, seed=0, small=False, idealise=False):
    """None where equal, else a witness; Undecided where no draw can be evaluated"""
    if a is b:
        return None
    if T.num(a) and T.num(b):
        return None if evalr.close(a, b, tol) or (isinstance(a, float) != isinstance(b, float) and a == b) else f"{a!r} instead of {b!r}"
    if T.has_unk(a) or T.has_unk(b):
        raise Undecided(str(T.find_unk(a) or T.find_unk(b)))
    got = 0
    skips = None
    spent = 0
    for s in evalr.samples(facts, n * MORE, evalr.constants(a, b), seed, small=small):
        if got >= n and spent > CHEAP:
            break
        s.idealise = idealise
        try:
            y = s.ev(b)
        except (evalr.Skip, evalr.Uninit, evalr.OutOfBounds, RecursionError) as e:
            skips = e
            continue
        try:
            x = s.ev(a)
        except evalr.Uninit as e:
            return f"never-written storage ({e}) where {y!r} is required ({draw(s, a, b)})"
        except evalr.OutOfBounds as e:
            return f"read outside its source ({e}) ({draw(s, a, b)})"
        except (evalr.Skip, RecursionError) as e:
            skips = e
            continue
        got += 1
        spent += 400000 - s.budget
        if not evalr.close(x, y, tol):
            return f"{x!r} instead of {y!r} ({draw(s, a, b)})"
    if not got:
        raise Undecided(f"no draw could be evaluated ({skips})")
    return None


def draw(s, *ts):
    out = []
    for t in sorted({x for t in ts if isinstance(t, E) for x in t.syms}, key=lambda x: x.id):
        if t in s.vals:
            v = s.vals[t]
            out.append(f"{t.args[0]}={v:.4g}" if isinstance(v, float) else f"{t.args[0]}={v}")
    return ", ".join(out[:8])


def dims(shape):
    return tuple(T.show(d) if isinstance(d, E) else d for d in shape)


def shape_diff(c, x, y):
    if len(x) != len(y):
        return f"shape {dims(x)} instead of {dims(y)}"
    for p, q in zip(x, y):
        e = T.eq(p, q)
        if e is True:
            continue
        if e is False:
            return f"shape {dims(x)} instead of {dims(y)}"
        k = c.known(e)
        if k is True:
            continue
        d = term_diff(c.path(), p, q)
        if d:
            return f"shape {dims(x)} instead of {dims(y)} ({d})"
    return None


def cells(c, shape, limit=400):
    """index tuples that together stand for every cell"""
    axes = []
    tot = 1
    for d in shape:
        if not isinstance(d, E) and tot * max(d, 1) <= limit:
            tot *= max(d, 1)
            axes.append(range(d))
        else:
            s = T.fresh("i", "i", 0)
            evalr.DOMAIN[s] = (0, d)
            c.assume(T.le(0, s))
            c.assume(T.lt(s, d))
            axes.append([s])
    return itertools.product(*axes)


def array_diff(c, x, y, tol=1e-5, n=12, what="value", dtype=True, sub=None, small=False):
    """compare an array with another array or a function of the index; x is the one under test"""
    if not isinstance(x, Arr):
        return f"{what} is {lib.str_of(x)}, not an array"
    if isinstance(y, Arr):
        d = shape_diff(c, x.shape, y.shape)
        if d:
            return f"{what} has {d}"
        if dtype and x.dtype != y.dtype:
            return f"{what} has dtype {x.dtype} instead of {y.dtype}"
        f = y.snap()
    else:
        f = y
    nf, st = len(c.facts), c.stamp
    try:
        rx = x.snap()
        for k, idx in enumerate(cells(c, x.shape)):
            d = term_diff(c.path(), rx(idx), f(idx), n, tol, seed=k, small=small)
            if d:
                return f"{what}[{', '.join(T.show(i) if isinstance(i, E) else str(i) for i in idx)}] is {d}"
    finally:
        c._pop_facts(nf, st)
    return None
