"""Unchecked compiled kernels: subscripts in bounds, parallel iterations independent."""
from __future__ import annotations

import ast

from . import prop
from .common import *
from . import codec, containers, files, misc, reading, sog
from ..run import Scenario as _Scenario

NOBODY = lambda *a, **k: None


def fname(fn):
    return f"{fn.mod.path}:{fn.qual}" if fn is not None else "?"


def derived(sc, judge, prefix):
    """the same exploration, judged by another rule"""
    def fn(c, ip, o):
        try:
            sc.fn(c, ip, NOBODY)
        except I.Raised:
            pass
        judge(c, ip, o)

    return _Scenario(f"{prefix}:{sc.name}", fn, raises="ignore", maxpaths=sc.maxpaths, tier=sc.tier)


# ------------------------------------------------------------------ bounds
def bounds_judge(c, ip, o):
    seen = set()
    for a in c.accesses:
        w = fname(a.fn)
        if a.checked:
            o("in-bounds", w, None)
            continue
        key = (a.loc, a.what, a.idx, a.dim, tuple(a.facts[len(c.facts):]) if False else None)
        if key in seen:
            continue
        seen.add(key)
        o("in-bounds", w, lambda a=a: outside(a))


def outside(a):
    if T.has_unk(a.idx) or T.has_unk(a.dim):
        raise S.Undecided(f"subscript of {a.what} at line {a.loc[2]} is unknown")
    ok = T.and_(T.le(T.mul(-1, a.dim), a.idx), T.lt(a.idx, a.dim))
    d = S.term_diff(a.facts, T.ite(ok, 1, 0), 1, 48, seed=3, small=False)
    if d is None:
        try:
            d = S.term_diff(a.facts, T.ite(ok, 1, 0), 1, 24, seed=5, small=True)
        except S.Undecided:
            pass
    return d and f"{a.kind} of {a.what} at line {a.loc[2]} with a subscript outside its {'axis'} ({d})"


# ------------------------------------------------------------------ races
def loop_ast(fn, line):
    for n in ast.walk(fn.node):
        if isinstance(n, ast.For) and n.lineno <= line and any(getattr(x, "lineno", -1) == line for x in ast.walk(n)):
            yield n


def race_judge(c, ip, o):
    for r in c.races:
        fn = r.fn
        if fn is None or not fn.jit.get("parallel"):
            continue
        w = fname(fn)
        o("iterations-independent", w, lambda r=r: collision(c, r))


def cell_of(buf, w):
    """the cell a write addresses, as a function of its loop variables -> (cell, conditions)"""
    if w.pat is not None and w.inv is A._ident_inv:
        return tuple(w.pat), []
    cell = tuple(T.fresh("cell", "i", 0) for _ in buf.shape)
    for q, d in zip(cell, buf.shape):
        evalr.DOMAIN[q] = (0, d)
    eqs, guards, vidx = w.inv(cell)
    eqs = [*eqs, *zip(w.pat or (), vidx)]
    sub = {}
    for q in cell:
        for l, r in eqs:
            s = A._solve(q, T.subst(l, sub), T.subst(r, sub))
            if s is not None:
                sub = {**{k: T.subst(v, {q: s}) for k, v in sub.items()}, q: s}
                break
    conds = [T.eq(T.subst(l, sub), T.subst(r, sub)) for l, r in eqs] + [T.subst(g, sub) for g in guards if isinstance(g, E)]
    return tuple(sub.get(q, q) for q in cell), [x for x in conds if x is not True]


def renamed(w, tag):
    """fresh copies of the inner loop variables, with their domains as facts"""
    m, facts = {}, []
    for v, lo, hi, step in w.vars:
        q = T.fresh(tag, "i", 0)
        lo, hi = T.subst(lo, m), T.subst(hi, m)
        evalr.DOMAIN[q] = (lo, hi)
        m[v] = q
        facts += [T.le(lo, q), T.lt(q, hi)]
    return m, facts


def meets(facts, loop, w, bidx, what):
    """a draw in which iteration `other` writes, by w, the cell bidx of iteration i"""
    i = loop.var
    other = T.fresh("other", "i", 0)
    evalr.DOMAIN[other] = (loop.lo, loop.hi)
    eqs, guards, vidx = w.inv(bidx)
    eqs = list(eqs)
    if w.pat is not None:
        eqs += list(zip(w.pat, vidx))
    m, dom = renamed(w, "inner")
    m2 = {**m, i: other}
    eqs = [(T.subst(l, m2), r) for l, r in eqs]
    conds = [T.subst(g, m2) for g in guards if g is not True] + dom
    g = w.guard
    if g is not True:
        conds.append(T.subst(g, m2))
    sol = None
    for v in (other, *m.values()):
        for l, r in eqs:
            s = A._solve(v, l, r)
            if s is not None:
                if v is other:
                    sol = s
                sub = {v: s}
                eqs = [(T.subst(a, sub), T.subst(b, sub)) for a, b in eqs]
                conds = [T.subst(x, sub) for x in conds]
                if v is not other:
                    sol = T.subst(sol, sub) if sol is not None else None
                break
    o_ = other if sol is None else sol
    for l, r in eqs:
        e = T.eq(l, r)
        if e is False:
            return None
        conds.append(e)
    conds += [T.not_(T.eq(o_, i)), T.le(loop.lo, o_), T.lt(o_, loop.hi), T.le(loop.lo, i), T.lt(i, loop.hi)]
    conds = [x for x in conds if x is not True]
    if any(x is False for x in conds):
        return None
    if any(T.has_unk(x) for x in conds):
        raise S.Undecided("unknown write location")
    fs = [*facts, *conds]
    for small in (True, False):
        for s in evalr.samples(fs, 1, evalr.constants(*fs), 11, tries=600, small=small):
            return f"iterations {s.ev(i)} and {s.ev(o_)} of the parallel loop at line {loop.loc[2]} {what} the same cell"
    return None


def collision(c, r):
    loop = r.loop
    d = carried(r)
    if d:
        return d
    facts = r.facts
    for buf, w, cond in r.writes:
        cell, dom0 = cell_of(buf, w)
        m, dom = renamed(w, "mine")
        cell = tuple(T.subst(p, m) for p in cell)
        base = [*facts, *dom, *(T.subst(x, m) for x in dom0), *[x for x in (T.subst(cond, m) if isinstance(cond, E) else cond, T.subst(w.guard, m) if isinstance(w.guard, E) else w.guard) if x is not True]]
        for buf2, w2, cond2 in r.writes:
            if buf2 is not buf:
                continue
            d = meets(base, loop, w2, cell, f"both write {buf.name} at")
            if d:
                return d
    for buf, bidx, guard, loc in r.reads:
        for buf2, w2, cond2 in r.writes:
            if buf2 is not buf:
                continue
            d = meets([*facts, *([guard] if guard is not True else [])], loop, w2, tuple(bidx), f"read and write {buf.name} at")
            if d:
                return d
    return None


def carried(r):
    """scalars carried from one parallel iteration to the next other than by a reduction numba recognises"""
    for name in r.carried:
        ok = False
        for loop in loop_ast(r.fn, r.loop.loc[2]):
            sts = [n for n in ast.walk(loop) if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == name for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
            if sts and all(reduction(n, name) for n in sts):
                ok = True
        if not ok:
            return f"{name} is carried from one iteration to the next of the parallel loop at line {r.loop.loc[2]} of {r.fn.qual}"
    return None


def reduction(n, name):
    if isinstance(n, ast.AugAssign):
        return isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and not any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.value))
    if isinstance(n, ast.Assign):
        v = n.value
        mine = lambda x: isinstance(x, ast.Name) and x.id == name
        if isinstance(v, ast.Call) and (isinstance(v.func, ast.Name) and v.func.id in ("min", "max") or isinstance(v.func, ast.Attribute) and v.func.attr in ("minimum", "maximum")):
            return sum(mine(a) for a in v.args) == 1
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            return mine(v.left) != mine(v.right)
    return False


# ------------------------------------------------------------------ what is explored
def sog_any(version, deg, label, **kw):
    """palettes and labels that need not fit the texture of centroids"""
    def fn(c, ip, o):
        b = sog.Bundle(c, version, deg, loose=True, **kw)
        call(ip, "gsply.sog_reader.sogread", b.place(c, "folder"))

    return _Scenario(f"sog{version}:{label}@deg{deg}", fn, raises="ignore")


def programs(tier):
    from . import REG

    out = []
    degs = ("@deg0", "@deg1", "@deg3") if tier == "quick" else ("@deg0", "@deg1", "@deg2", "@deg3")
    for pid in ("C02", "C03", "C04", "C05", "C06", "C08", "C09", "C15", "C17", "C19"):
        for sc in REG[pid].build(tier):
            if "@deg" in sc.name and not sc.name.endswith(degs):
                continue
            out.append((pid, sc))
    for v in (2, 3):
        for deg in DEGS:
            out.append(("C26", sog_any(v, deg, "any")))
            out.append(("C26", sog_any(v, deg, "rgb", ch=3)))
    out.append(("C26", sog_any(2, 2, "short-codebooks", book=40, labels=41)))
    return out


@prop("C27", "every subscript of a compiled (unchecked) kernel met while interpreting the entry points on abstract inputs, well-formed or not, is compared with the extent of the axis it indexes, under the path condition it is reached on.",
      assumptions=["an access no scenario reaches is not judged; reached kernels are listed in the evidence"])
def c27(tier):
    return [derived(sc, bounds_judge, pid) for pid, sc in programs(tier)]


@prop("C28", "for every parallel loop of a compiled kernel met while interpreting the entry points, each pair of writes, and of a read and a write, of one array in two different iterations is shown to address different cells; "
      "scalars carried between iterations must be reductions.", assumptions=["numba recognises +=, -=, *=, /=, min and max reductions of scalars in a parallel loop"])
def c28(tier):
    keep = ("C03", "C04", "C05", "C06", "C15", "C17", "C19", "C26")
    return [derived(sc, race_judge, pid) for pid, sc in programs(tier) if pid in keep]
