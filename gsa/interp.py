"""Abstract interpreter over the source of /repo/src.

Functions are interpreted over value-flow terms: array extents, elements and
loop indices stay symbolic, containers and strings are Python values.  A branch
whose condition the path facts do not decide partitions the trace; a loop of
symbolic trip count is analysed once for a generic iteration and summarised.
Nothing of the analysed program is executed or imported.
"""
from __future__ import annotations

import ast
import itertools
import math
import os

from . import arrays as A
from . import evalr
from . import terms as T
from .arrays import Arr, Unresolved
from .terms import E

NOTHING = object()


class Raised(Exception):
    """an exception of the analysed program"""

    def __init__(self, exc, loc=None):
        self.exc, self.loc = exc, loc


class Infeasible(Exception):
    """the path facts contradict each other"""


class Diverges(Exception):
    """a loop whose state repeats without an exit"""


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ---------------------------------------------------------------- values
class Unk:
    """a value the analysis knows nothing about"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<unknown: {self.why}>"


class Mod:
    def __init__(self, name, path, src):
        self.name, self.path, self.g, self.src = name, path, {}, src


class LibMod:
    def __init__(self, name):
        self.name = name


def _memo_key(x):
    if isinstance(x, tuple):
        return tuple(_memo_key(y) for y in x)
    if x is None or isinstance(x, (str, bytes, int, float, bool)):
        return type(x).__name__, x
    if type(x).__name__ == "APath":
        return "path", x.s
    return "id", id(x)


class Fn:
    def __init__(self, node, frame, mod, qual, defaults, kwdefaults):
        self.node, self.frame, self.mod, self.qual = node, frame, mod, qual
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.jit = None  # dict of numba options
        self.memo = None  # results remembered by functools.cache / lru_cache
        self.attrs = {}
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in _own(node))
        a = node.args
        self.locals = _assigned(node)
        self.owner = None

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __repr__(self):
        return f"<function {self.qual}>"


def _own(node):
    """nodes of a function body without nested function bodies"""
    body = node.body if isinstance(node.body, list) else [node.body]
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        st.extend(ast.iter_child_nodes(n))


def _names(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            yield from _names(e)
    elif isinstance(t, ast.Starred):
        yield from _names(t.value)


def _assigned(node):
    out = set()
    glob = set()
    a = node.args
    for p in (*a.posonlyargs, *a.args, *a.kwonlyargs):
        out.add(p.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    for n in _own(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
    # comprehension variables live in their own frame
    return out - glob


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_

    def __repr__(self):
        return f"<bound {self.fn}>"


class Cls:
    def __init__(self, name, bases, d, mod=None):
        self.name, self.bases, self.d, self.mod = name, bases, d, mod
        self.fields = None  # dataclass fields
        self.enum = any(isinstance(b, EnumBase) or (isinstance(b, Cls) and b.enum) for b in bases)
        self.members = []

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += [c for c in b.mro() if c not in out]
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.d:
                return c.d[name]
        return NOTHING

    def __repr__(self):
        return f"<class {self.name}>"


class EnumBase:
    pass


class Obj:
    def __init__(self, cls):
        self.cls, self.d = cls, {}

    def __repr__(self):
        n = self.d.get("_name_") or ""
        return f"<{self.cls.name} {n}>"


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class ClsMethod:
    def __init__(self, fn):
        self.fn = fn


class StatMethod:
    def __init__(self, fn):
        self.fn = fn


class Frame:
    __slots__ = ("vars", "parent", "mod", "fn", "line", "cls", "yields", "globals_decl", "nonlocals")

    def __init__(self, vars, parent, mod, fn, cls=None):
        self.vars, self.parent, self.mod, self.fn, self.cls = vars, parent, mod, fn, cls
        self.line = 0
        self.yields = None
        self.globals_decl = set()
        self.nonlocals = set()


class Loop:
    def __init__(self, var, lo, hi, par, loc):
        self.var, self.lo, self.hi, self.par, self.loc = var, lo, hi, par, loc
        self.touched = {}
        self.reads = []
        self.appended = {}  # file -> segments the current path of an iteration appends
        self.inspected = set()


class Access:
    __slots__ = ("loc", "what", "idx", "dim", "facts", "kind", "fn", "checked")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


class Race:
    __slots__ = ("loc", "loop", "writes", "fn", "reads", "facts", "carried")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)


class Chooser:
    def __init__(self, decisions=()):
        self.decisions = list(decisions)
        self.pos = 0
        self.forks = []  # True where the alternative is open

    def next(self):
        """decisions of the next path, or None"""
        d = self.decisions[: self.pos]
        while d and d[-1][0] is False:
            d.pop()
        if not d:
            return None
        c = d.pop()
        return [*d, (False, c[1])]


class Ctx:
    """state of one path of one scenario"""

    def __init__(self, ip):
        self.ip = ip
        self.loops = []
        self.facts = []
        self.factset = set()
        self.stamp = 0
        self.guards = []
        self.frames = []
        self.choosers = [Chooser()]
        self.accesses = []
        self.races = []
        self.assumed = []
        self.ticks = itertools.count()
        self.tokens = {}
        self.fs = {}
        self.steps = 0
        self.tainted = None
        self.handles = []  # files opened on this path
        self.grads, self.nograd = False, False  # some tensor tracks gradients; tracking is suspended
        self.oracle = False  # decide whole-array statistics by the declared input domain
        self.events = []
        self.calls = []
        self.memo = {}
        self.watch = None  # who overwrites state that outlives a call (watch.py)
        self.attached = {}
        self.io_progress = 0
        self.io_eof = 0

    # ---- services used by arrays
    def tick(self):
        return next(self.ticks)

    def loc(self):
        for f in reversed(self.frames):
            if f.fn is not None or f.mod is not None:
                m = f.mod.path if f.mod else "?"
                return (m, f.fn.qual if f.fn else "<module>", f.line)
        return ("<scenario>", "", 0)

    def in_jit(self):
        for f in reversed(self.frames):
            if f.fn is not None and f.fn.jit is not None:
                return f.fn
        return None

    def guard(self):
        g = True
        for c in self.guards:
            g = T.and_(g, c)
        return g

    def wrote(self, buf):
        if self.watch is not None:
            self.watch.wrote(buf)
        for lp in self.loops:
            if buf not in lp.touched:
                lp.touched[buf] = len(buf.log)

    def read_hook(self, buf, bidx):
        for lp in self.loops:
            if buf.depth <= self.loops.index(lp):
                lp.reads.append((buf, bidx, self.guard(), self.loc()))

    def access(self, arr, k, dim, kind):
        fn = self.in_jit()
        if fn is None:
            return
        if not isinstance(k, E) and not isinstance(dim, E):
            ok = -dim <= k < dim
            self.accesses.append(Access(loc=self.loc(), what=arr.buf.name, idx=k, dim=dim, facts=None if ok else self.path(), kind=kind, fn=fn, checked=ok))
            return
        c = T.and_(T.le(T.mul(-1, dim), k), T.lt(k, dim))
        if self.known(c) is True:
            self.accesses.append(Access(loc=self.loc(), what=arr.buf.name, idx=k, dim=dim, facts=None, kind=kind, fn=fn, checked=True))
            return
        self.accesses.append(Access(loc=self.loc(), what=arr.buf.name, idx=k, dim=dim, facts=self.path(), kind=kind, fn=fn, checked=False))

    def path(self):
        return [*self.facts, *self.guards]

    # ---- facts
    def assume(self, c):
        if c is True or c is None:
            return
        if c is False:
            raise Infeasible()
        for g in evalr._conj(c):
            if g is False:
                raise Infeasible()
            if g is True or g in self.factset:
                continue
            self.facts.append(g)
            self.factset.add(g)
        self.stamp = hash((self.stamp, c.id)) if isinstance(c, E) else self.stamp

    def assume_equal(self, a, b):
        """numpy would raise where the extents differ; the path continues where they agree"""
        c = T.eq(a, b)
        if isinstance(c, E):
            if not self.decide(c):
                raise Raised(ValueError(f"shapes differ: {T.show(a)} and {T.show(b)}"), self.loc())
        elif not c:
            raise Raised(ValueError("shapes differ"), self.loc())

    def _pop_facts(self, n, stamp):
        for f in self.facts[n:]:
            self.factset.discard(f)
        del self.facts[n:]
        self.stamp = stamp

    def known(self, c):
        if not isinstance(c, E):
            return bool(c)
        key = (self.stamp, len(self.facts), len(self.guards), self.guards[-1].id if self.guards and isinstance(self.guards[-1], E) else 0, c.id)
        r = self.memo.get(key, NOTHING)
        if r is NOTHING:
            r = self._known(c)
            self.memo[key] = r
        return r

    def _all_facts(self):
        yield from self.facts
        for g in self.guards:
            yield from evalr._conj(g)

    def _known(self, c):
        if c.op == "and":
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if c.op == "not":
            r = self.known(c.args[0])
            return None if r is None else not r
        n = T.not_(c)
        for f in self._all_facts():
            if f is c:
                return True
            if f is n:
                return False
        if c.op == "le0":
            if self.prove_le0(c.args[0]):
                return True
            if self.prove_le0(T.add(1, T.mul(-1, c.args[0]))):
                return False
        elif c.op == "eq0":
            p = c.args[0]
            if self.prove_le0(T.add(p, 1)) or self.prove_le0(T.add(1, T.mul(-1, p))):
                return False
            if self.prove_le0(p) and self.prove_le0(T.mul(-1, p)):
                return True
        return None

    def _ineqs(self):
        key = ("ineqs", self.stamp, len(self.facts), tuple(g.id for g in self.guards if isinstance(g, E)))
        r = self.memo.get(key)
        if r is None:
            r = []
            for f in self._all_facts():
                if not isinstance(f, E):
                    continue
                if f.op == "le0":
                    r.append(f.args[0])
                elif f.op == "eq0":
                    r.append(f.args[0])
                    r.append(T.mul(-1, f.args[0]))
            self.memo[key] = r
        return r

    def prove_le0(self, p):
        if not isinstance(p, E):
            return p <= 0
        if T.rng(p)[1] <= 0:
            return True
        ins = self._ineqs()
        # p <= sum of multiples of known inequalities
        def search(p, depth, start):
            if not isinstance(p, E):
                return p <= 0
            if T.rng(p)[1] <= 0:
                return True
            if depth == 0:
                return False
            _, d = T._lin_parts(p)
            for j in range(len(ins)):
                q = ins[j]
                _, dq = T._lin_parts(q)
                common = [t for t in dq if t in d and d[t] * dq[t] > 0]
                if not common:
                    continue
                t = common[0]
                if d[t] % dq[t]:
                    continue
                k = d[t] // dq[t]
                if k > 0 and search(T.sub(p, T.mul(k, q)), depth - 1, j):
                    return True
            # floor division: K*fdiv(x,K) <= x <= K*fdiv(x,K)+K-1
            for t, k in d.items():
                if t.op == "fdiv" and isinstance(t.args[1], int) and t.args[1] > 1 and k % t.args[1]:
                    p = T.mul(p, t.args[1] // math.gcd(k, t.args[1]))
                    _, d = T._lin_parts(p)
            for t, k in d.items():
                if t.op == "fdiv" and isinstance(t.args[1], int) and k > 0 and k % t.args[1] == 0:
                    if search(T.add(T.sub(p, T.mul(k, t)), T.mul(k // t.args[1], t.args[0])), depth - 1, 0):
                        return True
                if t.op == "fdiv" and isinstance(t.args[1], int) and k < 0 and -k % t.args[1] == 0:
                    m = -k // t.args[1]
                    # -K*m*fdiv <= m*(K-1) - m*x
                    if search(T.add(T.add(p, T.mul(-k, t)), T.add(T.mul(-m, t.args[0]), m * (t.args[1] - 1))), depth - 1, 0):
                        return True
                if t.op == "min" and k > 0:
                    for u in t.args:
                        if search(T.add(T.sub(p, T.mul(k, t)), T.mul(k, u)), depth - 1, 0):
                            return True
                if t.op == "max" and k < 0:
                    for u in t.args:
                        if search(T.add(T.sub(p, T.mul(k, t)), T.mul(k, u)), depth - 1, 0):
                            return True
            return False

        return search(p, 3, 0)

    def decide(self, c):
        if not isinstance(c, E):
            return bool(c)
        k = self.known(c)
        if k is not None:
            return k
        if T.has_unk(c):
            raise Unresolved("branch on an unknown value: " + str(T.find_unk(c)))
        if self.oracle and T.has_op(c, ("reduce", "fold", "cnt")):
            v = self.by_domain(c)
            if v is not None:
                self.assume(c if v else T.not_(c))
                return v
        ch = self.choosers[-1]
        if ch.pos < len(ch.decisions):
            v, c0 = ch.decisions[ch.pos]
            c = c0 if isinstance(c0, E) and len(self.choosers) > 1 else c
        else:
            if len(ch.decisions) > 40:
                raise Unresolved("too many branches")
            v = True
            ch.decisions.append((v, c))
        ch.pos += 1
        self.assume(c if v else T.not_(c))
        return v

    def by_domain(self, c):
        """outcome of a whole-array statistic that every draw from the declared input domain agrees on"""
        from . import evalr

        got = set()
        n = 0
        for s in evalr.samples(self.path(), 12, evalr.constants(c), 77, small=True):
            try:
                got.add(bool(s.ev(c)))
            except (evalr.Skip, evalr.Uninit, evalr.OutOfBounds):
                continue
            n += 1
            if len(got) > 1:
                return None
        return got.pop() if n >= 4 else None

    # ---- strings
    def token(self, e):
        s = f"\x01{e.id}\x02"
        self.tokens[s] = e
        return s


def loc_str(loc):
    return f"{loc[0]}:{loc[1]}:{loc[2]}"


# ---------------------------------------------------------------- interpreter
_ASTS: dict = {}


class Interp:
    MAXSTEPS = 400000

    def __init__(self, root):
        self.root = root
        self.asts = _ASTS.setdefault(root, {})
        self.mods = {}
        self.ctx = None
        from . import lib

        self.lib = lib
        lib.IP = self
        self.visited = set()
        self.file_digests = {}

    def setitem(self, o, k, v):
        from . import lib

        return lib.setitem(self, o, k, v)

    def getitem(self, o, k):
        return self.lib.getitem(self, o, k)

    def op(self, name, a, b):
        return self.lib.binop(self, name, a, b)

    # ---- modules
    def modpath(self, name):
        p = os.path.join(self.root, "src", *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def tree(self, path):
        t = self.asts.get(path)
        if t is None:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            t = self.asts[path] = ast.parse(src, path)
        return t

    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            self.module(name.rpartition(".")[0])
            if name in self.mods:
                return self.mods[name]
        path = self.modpath(name)
        if not os.path.exists(path):
            raise Raised(ImportError(f"No module named {name!r}"))
        t = self.tree(path)
        m = Mod(name, os.path.relpath(path, self.root), path)
        self.mods[name] = m
        m.g["__name__"] = name
        m.g["__file__"] = path
        pk = name if path.endswith("__init__.py") else name.rpartition(".")[0]
        m.g["__package__"] = pk
        fr = Frame(m.g, None, m, None)
        self.ctx.frames.append(fr)
        try:
            self.block(fr, t.body)
        finally:
            self.ctx.frames.pop()
        if "." in name:
            par, _, leaf = name.rpartition(".")
            self.module(par).g.setdefault(leaf, m)
        return m

    # ---- running scenarios
    def paths(self, scenario, maxpaths=300):
        """run scenario(ctx) on every path; yields (ctx, outcome)"""
        decisions = []
        n = 0
        while decisions is not None:
            self.ctx = c = Ctx(self)
            A.set_ctx(c)
            self.mods = {}
            T.reset_fresh()
            evalr.DOMAIN.clear()
            evalr.POOL.clear()
            c.choosers = [Chooser(decisions)]
            c.steps = 0
            out = None
            try:
                out = ("ok", scenario(c))
            except Raised as r:
                out = ("raised", r)
            except Unresolved as u:
                out = ("unresolved", f"{u} at {loc_str(c.loc_at_failure) if getattr(c, 'loc_at_failure', None) else loc_str(c.loc())}")
            except Infeasible:
                out = ("infeasible", None)
            except Diverges as d:
                out = ("diverges", str(d))
            except RecursionError:
                out = ("unresolved", "recursion")
            except evalr.Skip as e:
                out = ("unresolved", str(e))
            yield c, out
            n += 1
            decisions = c.choosers[0].next()
            if n >= maxpaths and decisions is not None:
                yield c, ("unresolved", "path limit")
                return

    # ---- names
    def lookup(self, fr, name):
        f = fr
        first = True
        while f is not None:
            if name in f.vars and (first or f.cls is None):
                return f.vars[name]
            if first and f.fn is not None and name in f.fn.locals and name not in f.globals_decl and name not in f.nonlocals:
                raise Raised(UnboundLocalError(f"local variable {name!r}"), self.ctx.loc())
            first = False
            f = f.parent
        if fr.mod is not None and name in fr.mod.g:
            if self.ctx.watch is not None and self.ctx.watch.active:
                self.ctx.watch.looked_up(fr.mod, name)
            return fr.mod.g[name]
        b = self.lib.BUILTINS.get(name, NOTHING)
        if b is NOTHING:
            raise Raised(NameError(name), self.ctx.loc())
        return b

    def store(self, fr, name, v, aug=False):
        w = self.ctx.watch
        if name in fr.globals_decl:
            if w is not None:
                w.stored(fr.mod, name, v, aug)
            fr.mod.g[name] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if name in f.vars:
                    f.vars[name] = v
                    return
                f = f.parent
        fr.vars[name] = v

    # ---- statements
    def block(self, fr, body):
        for s in body:
            self.stmt(fr, s)

    def stmt(self, fr, s):
        c = self.ctx
        c.steps += 1
        if c.steps > self.MAXSTEPS:
            raise Unresolved("step limit")
        fr.line = s.lineno
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unresolved("statement " + type(s).__name__)
        m(fr, s)

    def s_Expr(self, fr, s):
        self.ev(fr, s.value)

    def s_Pass(self, fr, s):
        pass

    def s_Global(self, fr, s):
        fr.globals_decl |= set(s.names)

    def s_Nonlocal(self, fr, s):
        fr.nonlocals |= set(s.names)

    def s_Assign(self, fr, s):
        v = self.ev(fr, s.value)
        for t in s.targets:
            self.assign(fr, t, v)

    def s_AnnAssign(self, fr, s):
        if s.value is not None:
            self.assign(fr, s.target, self.ev(fr, s.value))
        if fr.cls is not None and isinstance(s.target, ast.Name):
            ann = ast.unparse(s.annotation)
            fr.vars.setdefault("__annotations__", {})[s.target.id] = ann

    def s_AugAssign(self, fr, s):
        t = s.target
        if isinstance(t, ast.Name):
            w = self.ctx.watch
            if w is not None and t.id in fr.globals_decl and w.active and t.id in fr.mod.g:
                cur = fr.mod.g[t.id]
            else:
                cur = self.lookup(fr, t.id)
            self.store(fr, t.id, self.lib.augop(self, type(s.op).__name__, cur, self.ev(fr, s.value)), True)
        elif isinstance(t, ast.Attribute):
            o = self.ev(fr, t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.lib.augop(self, type(s.op).__name__, cur, self.ev(fr, s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(fr, t.value)
            k = self.ev(fr, t.slice)
            cur = self.lib.getitem(self, o, k)
            r = self.lib.augop(self, type(s.op).__name__, cur, self.ev(fr, s.value))
            self.lib.setitem(self, o, k, r)
        else:
            raise Unresolved("augmented target")

    def assign(self, fr, t, v):
        if isinstance(t, ast.Name):
            self.store(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(fr, t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(fr, t.value)
            self.lib.setitem(self, o, self.ev(fr, t.slice), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            star = next((j for j, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if star is None:
                if len(vs) != len(t.elts):
                    raise Raised(ValueError("wrong number of values to unpack"), self.ctx.loc())
                for e, x in zip(t.elts, vs):
                    self.assign(fr, e, x)
            else:
                after = len(t.elts) - star - 1
                for e, x in zip(t.elts[:star], vs[:star]):
                    self.assign(fr, e, x)
                self.assign(fr, t.elts[star].value, list(vs[star: len(vs) - after]))
                for e, x in zip(t.elts[star + 1:], vs[len(vs) - after:]):
                    self.assign(fr, e, x)
        elif isinstance(t, ast.Starred):
            self.assign(fr, t.value, list(self.lib.iterate(self, v)))
        else:
            raise Unresolved("assignment target")

    def unpack(self, v, n, star):
        if isinstance(v, Unk):
            return [Unk(v.why)] * n
        return list(self.lib.iterate(self, v))

    def s_Delete(self, fr, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.lib.delitem(self, self.ev(fr, t.value), self.ev(fr, t.slice))
            elif isinstance(t, ast.Attribute):
                o = self.ev(fr, t.value)
                if self.ctx.watch is not None:
                    self.ctx.watch.mutated("delitem", o, t.attr, None)
                if isinstance(o, Obj):
                    o.d.pop(t.attr, None)

    def s_Return(self, fr, s):
        raise _Return(self.ev(fr, s.value) if s.value is not None else None)

    def s_Break(self, fr, s):
        raise _Break()

    def s_Continue(self, fr, s):
        raise _Continue()

    def s_Raise(self, fr, s):
        if s.exc is None:
            cur = self.ctx.frames and getattr(self, "_cur_exc", None)
            if cur:
                raise cur
            raise Raised(RuntimeError("no active exception"), self.ctx.loc())
        e = self.ev(fr, s.exc)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = e()
        if isinstance(e, Cls):
            e = self.call(e, [], {})
        if isinstance(e, Unk):
            raise Unresolved("raise of an unknown value")
        raise Raised(e, self.ctx.loc())

    def s_Assert(self, fr, s):
        if not self.truth(self.ev(fr, s.test)):
            raise Raised(AssertionError(), self.ctx.loc())

    def s_Import(self, fr, s):
        for al in s.names:
            v = self.imp(al.name)
            if al.asname:
                self.store(fr, al.asname, v)
            else:
                top = al.name.split(".")[0]
                self.store(fr, top, self.imp(top))

    def imp(self, name):
        if name == "gsply" or name.startswith("gsply."):
            parts = name.split(".")
            m = None
            for k in range(1, len(parts) + 1):
                m = self.module(".".join(parts[:k]))
            return m
        if name.split(".")[0] in self.ctx_missing():
            raise Raised(ImportError(f"No module named {name!r}"), self.ctx.loc())
        if name.split(".")[0] in getattr(self.ctx, "broken_modules", ()):
            raise Raised(RuntimeError(f"{name} cannot be initialised"), self.ctx.loc())
        return LibMod(name)

    def ctx_missing(self):
        return getattr(self.ctx, "missing_modules", ())

    def s_ImportFrom(self, fr, s):
        if s.module == "__future__":
            return
        if s.level:
            base = fr.mod.g.get("__package__", "gsply")
            for _ in range(s.level - 1):
                base = base.rpartition(".")[0]
            name = base + ("." + s.module if s.module else "")
        else:
            name = s.module
        m = self.imp(name)
        for al in s.names:
            if al.name == "*":
                if isinstance(m, Mod):
                    for k in m.g.get("__all__", [k for k in m.g if not k.startswith("_")]):
                        self.store(fr, k, m.g[k])
                continue
            if isinstance(m, Mod) and al.name not in m.g and os.path.exists(self.modpath(name + "." + al.name)):
                v = self.module(name + "." + al.name)
            else:
                try:
                    v = self.getattr(m, al.name)
                except Raised as r:
                    if isinstance(r.exc, AttributeError):
                        raise Raised(ImportError(f"cannot import name {al.name!r} from {name!r}"), self.ctx.loc()) from None
                    raise
            self.store(fr, al.asname or al.name, v)

    def s_FunctionDef(self, fr, s):
        a = s.args
        qual = ((fr.cls.name + ".") if fr.cls is not None else (fr.fn.qual + ".") if fr.fn else "") + s.name
        f = Fn(s, None if fr.fn is None and fr.cls is None else fr, fr.mod, qual, [self.ev(fr, d) for d in a.defaults],
               {k.arg: self.ev(fr, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        if fr.cls is not None:
            f.frame = fr.parent
            f.owner = fr.cls
        v = f
        for d in reversed(s.decorator_list):
            v = self.decorate(fr, d, v, s)
        self.store(fr, s.name, v)

    def decorate(self, fr, d, v, s):
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") and isinstance(d.value, ast.Name):
            p = fr.vars.get(d.value.id)
            if isinstance(p, Prop):
                return Prop(p.fget, v if d.attr == "setter" else p.fset)
        dv = self.ev(fr, d)
        return self.call(dv, [v], {})

    def s_ClassDef(self, fr, s):
        bases = [self.ev(fr, b) for b in s.bases]
        c = Cls(s.name, bases, {}, fr.mod)
        f = Frame(c.d, fr, fr.mod, fr.fn, cls=c)
        self.ctx.frames.append(f)
        try:
            self.block(f, s.body)
        finally:
            self.ctx.frames.pop()
        if c.enum:
            for k, v in list(c.d.items()):
                if k.startswith("_") or isinstance(v, (Fn, Prop, ClsMethod, StatMethod)):
                    continue
                o = Obj(c)
                o.d.update(name=k, value=v, _name_=k)
                c.d[k] = o
                c.members.append(o)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(fr, d), [v], {})
        self.store(fr, s.name, v)

    def s_If(self, fr, s):
        v = self.ev(fr, s.test)
        c = self.cond(v)
        if not isinstance(c, E):
            self.block(fr, s.body if c else s.orelse)
            return
        k = self.ctx.known(c)
        if k is not None:
            self.block(fr, s.body if k else s.orelse)
            return
        if self.ctx.loops and not _transfers(s.body) and not _transfers(s.orelse):
            self.merge_if(fr, c, s)
            return
        self.block(fr, s.body if self.ctx.decide(c) else s.orelse)

    def merge_if(self, fr, c, s):
        ctx = self.ctx
        before = dict(fr.vars)
        outs = []
        for cond, body in ((c, s.body), (T.not_(c), s.orelse)):
            fr.vars.clear()
            fr.vars.update(before)
            ctx.guards.append(cond)
            nfacts, st = len(ctx.facts), ctx.stamp
            try:
                self.block(fr, body)
            finally:
                ctx.guards.pop()
            # facts decided inside a guarded block hold under the guard only
            new = ctx.facts[nfacts:]
            if new:
                ctx._pop_facts(nfacts, st)
                for f in new:
                    ctx.assume(T.or_(T.not_(cond), f))
            outs.append(dict(fr.vars))
        a, b = outs
        fr.vars.clear()
        for k in {**a, **b}:
            if k in a and k in b:
                x, y = a[k], b[k]
                fr.vars[k] = x if x is y else merge(c, x, y)
            else:
                x = a.get(k, b.get(k))
                fr.vars[k] = merge(c, a.get(k, NOTHING), b.get(k, NOTHING))

    def counted_while(self, fr, s):
        """the range a while loop counts a local through, when its length is symbolic"""
        t = s.test
        if s.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        left, right, op = t.left, t.comparators[0], type(t.ops[0]).__name__
        flip = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
        if op not in flip:
            return None
        stored = {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        if not (isinstance(left, ast.Name) and left.id in stored):
            left, right, op = right, left, flip[op]
        if not (isinstance(left, ast.Name) and left.id in stored):
            return None
        name = left.id
        steps = []
        for st in s.body:
            for n in ast.walk(st):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                    steps.append((type(n.op).__name__, n.value))
                elif isinstance(n, ast.Assign) and any(isinstance(q, ast.Name) and q.id == name for q in n.targets):
                    v = n.value
                    if not (len(n.targets) == 1 and isinstance(v, ast.BinOp) and isinstance(v.left, ast.Name) and v.left.id == name):
                        return None
                    steps.append((type(v.op).__name__, v.right))
        n_stores = sum(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for st in s.body for n in ast.walk(st))
        if not steps or n_stores != len(steps) or any(o not in ("Add", "Sub") for o, _ in steps):
            return None
        plain = (ast.Name, ast.Constant, ast.Attribute, ast.Subscript, ast.BinOp, ast.UnaryOp, ast.operator, ast.unaryop, ast.expr_context)
        for e in (right, *(v for _, v in steps)):
            for n in ast.walk(e):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("len", "min", "max", "int"):
                    continue
                if not isinstance(n, plain) or isinstance(n, ast.Name) and n.id in stored:
                    return None
        cur = fr.vars.get(name, NOTHING)
        if cur is NOTHING or not T.isint(cur):
            return None
        bound = self.lib.scalar(self.ev(fr, right))
        vals = [self.lib.scalar(self.ev(fr, v)) for _, v in steps]
        if not T.isint(bound) or any(not T.isint(v) for v in vals):
            return None
        vals = [v if o == "Add" else T.mul(-1, v) for (o, _), v in zip(steps, vals)]
        if any(T.eq(v, vals[0]) is not True for v in vals[1:]) or not (isinstance(cur, E) or isinstance(bound, E)):
            return None
        if op in ("LtE", "GtE"):
            bound = T.add(bound, 1 if op == "LtE" else -1)
        step = vals[0]
        pos = self.ctx.known(T.lt(0, step)) if isinstance(step, E) else step > 0
        if isinstance(step, E) and pos is None:
            pos = self.ctx.decide(T.lt(0, step))
        if pos is not (op in ("Lt", "LtE")):
            return None
        it = self.lib.SRange(cur, bound, step)
        it.sign = 1 if pos else -1
        if not isinstance(it.trips(), E):
            return None
        loop = ast.For(target=ast.Name(id=name, ctx=ast.Store()), body=s.body, orelse=[])
        ast.copy_location(loop, s)
        return loop, it

    def s_While(self, fr, s):
        counted = self.counted_while(fr, s)
        if counted is not None:
            self.sym_loop(fr, *counted, counted=True)
            return
        n = idle = eofs = 0
        prog = self.ctx.io_progress
        while True:
            fr.line = s.lineno
            v = self.ev(fr, s.test)
            if self.ctx.loops:
                cv = self.cond(v)
                if isinstance(cv, E) and self.ctx.known(cv) is None:
                    raise Unresolved("while loop inside a symbolic loop")
            if not self.truth(v):
                self.block(fr, s.orelse)
                return
            n += 1
            if self.ctx.io_progress != prog:
                prog, idle, eofs = self.ctx.io_progress, 0, self.ctx.io_eof
            idle += 1
            if idle > 2000:
                if self.ctx.io_eof - eofs > 1000:
                    raise Diverges(f"the loop at {loc_str(self.ctx.loc())} goes on reading after the end of its input")
                raise Unresolved("while loop bound")
            if n > 20000:
                raise Unresolved("while loop bound")
            try:
                self.block(fr, s.body)
            except _Break:
                return
            except _Continue:
                continue

    def s_For(self, fr, s):
        it = self.ev(fr, s.iter)
        it = self.lib.sym_seq(it)
        if isinstance(it, self.lib.SymSeq):
            if s.orelse:
                raise Unresolved("else of a symbolic loop")
            self.sym_loop(fr, s, it)
            return
        if isinstance(it, self.lib.SRange):
            it.settle(self.ctx)
            k = it.trips()
            if it.concrete():
                seq = range(it.lo, it.hi, it.step)
            elif not isinstance(k, E) and k <= 64:
                seq = [T.add(it.lo, T.mul(it.step, j)) for j in range(k)]
            else:
                if s.orelse:
                    raise Unresolved("else of a symbolic loop")
                self.sym_loop(fr, s, it)
                return
        else:
            if isinstance(it, Unk):
                raise Unresolved("iteration over " + it.why)
            seq = self.lib.iterate(self, it)
        n = 0
        for v in seq:
            n += 1
            if n > 5000:
                raise Unresolved("loop bound")
            self.assign(fr, s.target, v)
            try:
                self.block(fr, s.body)
            except _Break:
                return
            except _Continue:
                continue
        self.block(fr, s.orelse)

    # ---- loops of symbolic trip count
    def sym_loop(self, fr, s, it, counted=False):
        ctx = self.ctx
        lo, hi, step = it.lo, it.hi, it.step
        name = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        if not all(isinstance(n, (ast.Name, ast.Tuple, ast.List, ast.expr_context)) for n in ast.walk(s.target)):
            raise Unresolved("loop target")
        if isinstance(it, self.lib.SymSeq):
            n_lo, n_hi, conv = lo, hi, it.item
        elif not isinstance(step, E) and step == 1:
            it.sign = 1
            n_lo, n_hi, conv = lo, hi, lambda t: t
        else:
            if not counted:
                it.settle(ctx)
            n_lo, n_hi = 0, it.trips()
            conv = lambda t: T.add(lo, T.mul(step, t))
        if ctx.known(T.le(n_hi, n_lo)) is True:
            return
        if not isinstance(step, E) and abs(step) > 64:
            # draws with one block and draws with several are both wanted
            ctx.decide(T.lt(1, T.sub(n_hi, n_lo)))
        i = T.fresh(min(name), "i", 0 if T.rng(n_lo)[0] >= 0 else -math.inf)
        evalr.DOMAIN[i] = (n_lo, n_hi)
        loop = Loop(i, n_lo, n_hi, it.par, ctx.loc())
        loop.seq = isinstance(it, self.lib.SymSeq)
        loop.counted = T.add(conv(i), step) if counted else None
        loop.step, loop.dist = (1, T.sub(hi, lo)) if loop.seq else (step, T.sub(hi, lo))
        ctx.loops.append(loop)
        nfacts, stamp = len(ctx.facts), ctx.stamp
        ctx.assume(T.le(n_lo, i))
        ctx.assume(T.lt(i, n_hi))
        assigned = {n.id for st in s.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        assigned -= name
        before = dict(fr.vars)
        carried = {}
        for v in sorted(assigned):
            cur = before.get(v, NOTHING)
            if isinstance(cur, (int, float, E)) and cur is not NOTHING:
                k = T.kind(cur)
                carried[v] = T.fresh("prev_" + v, "i" if k == "i" else "f" if k == "f" else "b")
        start_log = {}
        try:
            res = self.loop_body(fr, s, loop, i, conv, before, carried, {})
            cells = self.carried_cells(loop, res)
            if cells:
                loop.touched_first = loop.touched
                loop.touched, loop.reads = {}, []
                res = self.loop_body(fr, s, loop, i, conv, before, carried, cells)
        finally:
            ctx.loops.pop()
            ctx._pop_facts(nfacts, stamp)
        self.finish_loop(fr, loop, i, before, carried, cells, res, name, conv)

    def loop_body(self, fr, s, loop, i, conv, before, carried, cells):
        """all paths of one generic iteration -> merged locals, writes by buffer"""
        ctx = self.ctx
        entry_len = {}
        for (buf, bidx), prev in cells.items():
            entry_len.setdefault(buf, len(buf.log))
            loop.touched.setdefault(buf, len(buf.log))
            buf.log.append(A.W(A._ident_inv, tuple(bidx), True, (lambda p: (lambda _: p))(prev), loop.loc, seq=ctx.tick()))
        start = {b: len(b.log) for b in entry_len}
        paths = []
        loop.pieces = {}
        decisions = []
        nf, st = len(ctx.facts), ctx.stamp
        while decisions is not None:
            fr.vars.clear()
            fr.vars.update(before)
            for v, p in carried.items():
                fr.vars[v] = p
            ch = Chooser(decisions)
            ctx.choosers.append(ch)
            g0 = len(ctx.guards)
            acc0 = len(ctx.accesses)
            raised = False
            loop.appended = {}
            try:
                self.assign(fr, s.target, conv(i))
                self.block(fr, s.body)
            except _Continue:
                pass
            except (_Break, _Return):
                raise Unresolved("loop of symbolic length left early") from None
            except Raised:
                # an exception on a data-dependent iteration ends the loop
                raise Unresolved("exception inside a symbolic loop") from None
            except Infeasible:
                raised = True
            finally:
                ctx.choosers.pop()
                del ctx.guards[g0:]
            cond = True
            for v, c in ch.decisions[: ch.pos]:
                cond = T.and_(cond, c if v else T.not_(c))
            if loop.counted is not None and not raised and T.eq(fr.vars[s.target.id], loop.counted) is not True:
                raise Unresolved("while loop that does not count evenly")
            if not raised:
                writes = {}
                cellvals = {}
                for (buf, bidx), prev in cells.items():
                    cellvals[(buf, bidx)] = buf.read(bidx)
                for buf, n0 in loop.touched.items():
                    n0 = start.get(buf, n0)
                    writes[buf] = buf.log[n0:]
                for f, segs in loop.appended.items():
                    dt, n, rd = self.lib.B.iteration_segment(segs)
                    k = T.fresh("w", "i", 0)
                    evalr.DOMAIN[k] = (0, n)
                    loop.pieces.setdefault(f, []).append((len(paths), dt, n, k, rd(k)))
                paths.append((cond, dict(fr.vars), writes, cellvals))
            for buf, n0 in loop.touched.items():
                del buf.log[start.get(buf, n0):]
                buf._cache.clear()
            ctx._pop_facts(nf, st)
            decisions = ch.next()
            if len(paths) > 64:
                raise Unresolved("too many paths through a loop body")
        for buf in entry_len:
            del buf.log[entry_len[buf]:]
            buf._cache.clear()
        fr.vars.clear()
        fr.vars.update(before)
        return paths

    def carried_cells(self, loop, paths):
        """cells read in one iteration that an earlier iteration wrote"""
        ctx = self.ctx
        cells = {}
        i = loop.var
        other = T.fresh("other", "i", 0)
        for buf, bidx, guard, loc in loop.reads:
            if buf not in loop.touched:
                continue
            for cond, _, writes, _ in paths:
                for w in writes.get(buf, ()):
                    r = self._cross(w, bidx, i, other)
                    if r == "no" or r == "same":
                        continue
                    if r == "all":
                        key = tuple(bidx)
                        if any(isinstance(b, E) and i in b.syms for b in key):
                            raise Unresolved("read of cells other iterations write")
                        if (buf, key) not in cells:
                            cells[(buf, key)] = T.fresh("cell", "f" if buf.dtype.startswith("float") else "b" if buf.dtype == "bool" else "i")
                    elif loop.par:
                        continue
                    else:
                        raise Unresolved("read of cells other iterations write")
        if loop.par:
            self.note_race(loop, paths)
            if cells:
                # an accumulator shared by parallel iterations
                return cells
        return cells

    def _cross(self, w, bidx, i, other):
        eqs, guards, vidx = w.inv(bidx)
        eqs = list(eqs)
        if w.pat is not None:
            eqs += list(zip(w.pat, vidx))
        dep = False
        for l, r in eqs:
            l2 = T.subst(l, {i: other})
            # the loop variable of inner loops may take any value
            inner = {v: T.fresh("inner", "i", 0) for v, *_ in w.vars}
            l2 = T.subst(l2, inner)
            c = T.eq(l2, r)
            if c is False:
                return "no"
            if isinstance(c, E):
                if self.ctx.known(c) is False:
                    return "no"
                if other in c.syms:
                    dep = True
                    sol = A._solve(other, l2, r)
                    if sol is i:
                        return "same"
                    if sol is not None and not (sol.syms if isinstance(sol, E) else ()) & set(inner.values()):
                        d = T.sub(sol, i)
                        if not isinstance(d, E) and d != 0:
                            return "shift"
        return "dep" if dep else "all"

    def note_race(self, loop, paths):
        ws = []
        for cond, _, writes, _ in paths:
            for buf, lst in writes.items():
                if buf.depth >= len(self.ctx.loops):
                    continue  # allocated by the iteration itself
                for w in lst:
                    ws.append((buf, w, cond))
        self.ctx.races.append(Race(carried=(), loc=loop.loc, loop=loop, writes=ws, fn=self.ctx.in_jit(), reads=list(loop.reads), facts=self.ctx.path()))

    def finish_loop(self, fr, loop, i, before, carried, cells, paths, name, conv):
        ctx = self.ctx
        lo, hi = loop.lo, loop.hi
        # values of locals and cells after one iteration, merged over the paths
        keys = sorted({k for _, v, _, _ in paths for k in v if k in before and v[k] is not before[k]} | {k for _, v, _, _ in paths for k in v if k not in before})
        after = {}
        for k in keys:
            out = NOTHING
            for cond, vs, _, _ in reversed(paths):
                x = vs.get(k, NOTHING)
                out = x if out is NOTHING and cond is paths[-1][0] else merge(cond, x, out)
            after[k] = out
        prevs = dict(carried)
        state = []  # (kind, key, prev, init, body)
        for k, p in carried.items():
            b = after.get(k, p)
            if not isinstance(b, (int, float, E)):
                b = T.unk(f"{k} after a loop")
            if b is p:
                continue
            state.append(("v", k, p, before[k], b))
        for (buf, bidx), p in cells.items():
            out = None
            for cond, _, _, cv in reversed(paths):
                x = cv[(buf, bidx)]
                out = x if out is None else T.ite(cond, x, out)
            state.append(("c", (buf, bidx), p, buf.read(bidx), out))
        allprev = {p: j for j, (_, _, p, _, _) in enumerate(state)}
        if loop.par and ctx.races and ctx.races[-1].loop is loop:
            used = [v for _, vs, ws, _ in paths for v in (*vs.values(), *(x for l in ws.values() for w in l for x in (w.guard, w.val(None) if w.pat is not None else None)))] + [cond for cond, *_ in paths]
            ctx.races[-1].carried = tuple(k for kind, k, p, _, b in state if kind == "v" and any(isinstance(t, E) and p in t.syms for t in used))

        def deps(term):
            if not isinstance(term, E):
                return set()
            return {allprev[q] for q in term.syms if q in allprev}

        def closure(js):
            done = set()
            todo = list(js)
            while todo:
                j = todo.pop()
                if j in done:
                    continue
                done.add(j)
                todo += list(deps(state[j][4]))
            return sorted(done)

        def value_after(j, upto):
            grp = closure([j])
            b = state[j][4]
            if not deps(b):
                # overwritten in every iteration: the last one stays
                last = T.subst(b, {i: T.sub(upto, 1)})
                return T.ite(T.lt(lo, upto), last, state[j][3])
            return T.fold(i, lo, upto, [state[g][2] for g in grp], [state[g][3] for g in grp], [state[g][4] for g in grp], grp.index(j))

        # carried values seen by a generic iteration
        m = {}
        for j, (_, _, p, _, _) in enumerate(state):
            m[p] = lambda j=j: value_after(j, i)
        used_m = {}

        def close(term):
            """replace prev symbols by the value the preceding iterations produce"""
            if not isinstance(term, E):
                return term
            js = deps(term)
            if not js:
                return term
            sub = {}
            for j in js:
                p = state[j][2]
                if p not in used_m:
                    used_m[p] = value_after(j, i)
                sub[p] = used_m[p]
            return T.subst(term, sub)

        cellset = {}
        for (buf, bidx) in cells:
            cellset.setdefault(buf, set()).add(bidx)
        multi = len(paths) > 1
        for cond, _, writes, _ in paths:
            for buf, lst in writes.items():
                if buf.depth > len(ctx.loops):
                    continue
                for w in lst:
                    if w.pat is not None and buf in cellset:
                        if self._is_cell(w, cellset[buf]):
                            continue
                    g = T.and_(cond, w.guard)
                    if g is False:
                        continue
                    w2 = A.W(w.inv, w.pat, close(g), w.val, w.loc, (*w.vars, (i, lo, hi, 1)), (*w.par, loop.par), w.seq)
                    if w.pat is not None:
                        v0 = w.val(None)
                        v1 = close(v0)
                        w2.val = (lambda v: (lambda _: v))(v1)
                        w2.pat = tuple(close(p) for p in w.pat)
                    buf.log.append(w2)
                    buf._cache.clear()
                    for lp in ctx.loops:
                        lp.touched.setdefault(buf, len(buf.log) - 1)
        for f, ps in loop.pieces.items():
            if f in loop.inspected:
                raise Unresolved("a file inspected and written in a symbolic loop")
            _, dt, n, k, val = ps[0]
            if len(ps) != len(paths):
                n = None
            for j, dt2, n2, k2, val2 in ps[1:]:
                if n is None or dt2 != dt:
                    n = None
                    break
                n = T.ite(paths[j][0], n2, n)
                val = T.ite(paths[j][0], T.subst(val2, {k2: k}), val)
            if n is None:
                raise Unresolved("mixed content written in a symbolic loop")
            evalr.DOMAIN[k] = (0, n)
            blob = self.lib.B.loop_blob(i, lo, hi, (dt, close(n), k, close(val)), ctx.path(), loop.step, loop.dist)
            if len(ctx.loops) > f.depth:
                ctx.loops[-1].appended.setdefault(f, []).append(blob)
            else:
                f.append(self.lib.B.ABytes([blob]))
        for j, st in enumerate(state):
            v = value_after(j, hi)
            if st[0] == "v":
                fr.vars[st[1]] = v
            else:
                buf, bidx = st[1]
                ctx.wrote(buf)
                buf.log.append(A.W(A._ident_inv, tuple(bidx), True, (lambda v: (lambda _: v))(v), loop.loc, seq=ctx.tick()))
        for k, v in after.items():
            if k in carried or k in name:
                continue
            if isinstance(v, (int, float, E)) and v is not NOTHING:
                fr.vars[k] = T.subst(close(v), {i: T.sub(hi, 1)})
            elif v is NOTHING:
                continue
            else:
                fr.vars[k] = Unk(f"{k} after a loop") if isinstance(v, (Arr, Unk)) else v
        for k in name:
            if loop.counted is not None:
                fr.vars[k] = conv(hi if ctx.known(T.le(lo, hi)) is True else T.mx(lo, hi))
                continue
            fr.vars[k] = conv(T.sub(hi, 1)) if not loop.seq else Unk(f"{k} after a loop")

    def _is_cell(self, w, keys):
        for key in keys:
            eqs, guards, vidx = w.inv(key)
            eqs = [*eqs, *zip(w.pat, vidx)]
            if all(T.eq(l, r) is True for l, r in eqs) and not [g for g in guards if g is not True]:
                return True
        return False

    # ---- with / try
    def s_With(self, fr, s):
        entered = []
        for item in s.items:
            cm = self.ev(fr, item.context_expr)
            v = self.lib.enter(self, cm)
            if item.optional_vars is not None:
                self.assign(fr, item.optional_vars, v)
            entered.append(cm)
        try:
            self.block(fr, s.body)
        except Raised as r:
            for cm in reversed(entered):
                if self.lib.leave(self, cm, r):
                    return
            raise
        finally:
            for cm in reversed(entered):
                self.lib.close(self, cm)

    def s_Try(self, fr, s):
        try:
            try:
                self.block(fr, s.body)
            except Raised as r:
                for h in s.handlers:
                    if self.handles(fr, h, r.exc):
                        if h.name:
                            fr.vars[h.name] = r.exc
                        prev = getattr(self, "_cur_exc", None)
                        self._cur_exc = r
                        try:
                            self.block(fr, h.body)
                        finally:
                            self._cur_exc = prev
                        break
                else:
                    raise
            else:
                self.block(fr, s.orelse)
        finally:
            if s.finalbody:
                self.block(fr, s.finalbody)

    def handles(self, fr, h, exc):
        if h.type is None:
            return True
        t = self.ev(fr, h.type)
        ts = t if isinstance(t, tuple) else (t,)
        for t in ts:
            if isinstance(t, type) and isinstance(exc, t):
                return True
            if isinstance(t, Cls) and isinstance(exc, Obj) and t in exc.cls.mro():
                return True
            if isinstance(t, Unk):
                continue
        return False

    def s_Match(self, fr, s):
        v = self.ev(fr, s.subject)
        for c in s.cases:
            if self.pattern(fr, v, c.pattern) and (c.guard is None or self.truth(self.ev(fr, c.guard))):
                self.block(fr, c.body)
                return

    def pattern(self, fr, v, q):
        """does the subject v match the pattern q?  (names are bound in the frame)"""
        isa = lambda t: self.truth(self.lib.isinstance_(v, t))
        if isinstance(q, ast.MatchOr):
            return any(self.pattern(fr, v, x) for x in q.patterns)
        if isinstance(q, ast.MatchValue):
            return self.truth(self.lib.compare(self, "Eq", v, self.ev(fr, q.value)))
        if isinstance(q, ast.MatchSingleton):
            return v is q.value
        if isinstance(q, ast.MatchAs):
            if q.pattern is not None and not self.pattern(fr, v, q.pattern):
                return False
            if q.name:
                self.store(fr, q.name, v)
            return True
        if isinstance(q, ast.MatchClass):
            t = self.ev(fr, q.cls)
            if not isa(t):
                return False
            if len(q.patterns) > 1 or (q.patterns and t not in (bool, bytes, dict, float, frozenset, int, list, set, str, tuple)):
                raise Unresolved("match pattern with positional parts")
            if q.patterns and not self.pattern(fr, v, q.patterns[0]):
                return False
            for a, x in zip(q.kwd_attrs, q.kwd_patterns):
                if not self.truth(self.lib.hasattr_(v, a)) or not self.pattern(fr, self.getattr(v, a), x):
                    return False
            return True
        if isinstance(q, ast.MatchSequence) and isinstance(v, (list, tuple)):
            star = [i for i, x in enumerate(q.patterns) if isinstance(x, ast.MatchStar)]
            n = len(q.patterns)
            if not star:
                return len(v) == n and all(self.pattern(fr, e, x) for e, x in zip(v, q.patterns))
            k = star[0]
            if len(v) < n - 1:
                return False
            tail = n - 1 - k
            if not all(self.pattern(fr, e, x) for e, x in zip(v[:k], q.patterns[:k])):
                return False
            if q.patterns[k].name:
                self.store(fr, q.patterns[k].name, list(v[k:len(v) - tail]))
            return all(self.pattern(fr, e, x) for e, x in zip(v[len(v) - tail:], q.patterns[k + 1:]))
        if isinstance(q, ast.MatchSequence) and (isinstance(v, (str, bytes, int, float, dict, slice)) or v is None):
            return False
        raise Unresolved("match pattern")

    def cond(self, v):
        """a condition as bool or boolean term"""
        if isinstance(v, E):
            return v if v.kind == "b" else T.ne(v, 0)
        return self.lib.truth(self, v)

    def truth(self, v):
        c = self.cond(v)
        if isinstance(c, E):
            return self.ctx.decide(c)
        return c

    # ---- expressions
    def ev(self, fr, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unresolved("expression " + type(n).__name__)
        return m(fr, n)

    def e_Constant(self, fr, n):
        return n.value

    def e_Name(self, fr, n):
        return self.lookup(fr, n.id)

    def e_Attribute(self, fr, n):
        o = self.ev(fr, n.value)
        return self.getattr(o, n.attr)

    def e_Tuple(self, fr, n):
        return tuple(self.elts(fr, n.elts))

    def e_List(self, fr, n):
        return list(self.elts(fr, n.elts))

    def e_Set(self, fr, n):
        return set(self.elts(fr, n.elts))

    def elts(self, fr, es):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.lib.iterate(self, self.ev(fr, e.value)))
            else:
                out.append(self.ev(fr, e))
        return out

    def e_Dict(self, fr, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.ev(fr, v)
                if not isinstance(x, dict):
                    raise Unresolved("dict unpacking")
                d.update(x)
            else:
                d[self.ev(fr, k)] = self.ev(fr, v)
        return d

    def e_Subscript(self, fr, n):
        o = self.ev(fr, n.value)
        return self.lib.getitem(self, o, self.ev(fr, n.slice))

    def e_Slice(self, fr, n):
        f = lambda x: None if x is None else self.lib.scalar(self.ev(fr, x))
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Starred(self, fr, n):
        raise Unresolved("starred")

    def e_UnaryOp(self, fr, n):
        v = self.ev(fr, n.operand)
        op = type(n.op).__name__
        if op == "Not":
            return self.lib.invert_truth(self, self.cond(v))
        return self.lib.unary(self, op, v)

    def e_BinOp(self, fr, n):
        return self.lib.binop(self, type(n.op).__name__, self.ev(fr, n.left), self.ev(fr, n.right))

    def e_BoolOp(self, fr, n):
        isand = isinstance(n.op, ast.And)
        v = None
        acc = None
        pushed = 0
        try:
            for j, x in enumerate(n.values):
                v = self.ev(fr, x)
                last = j == len(n.values) - 1
                if isinstance(v, E) and v.kind == "b" and self.ctx.known(v) is None and self.ctx.loops:
                    acc = v if acc is None else (T.and_(acc, v) if isand else T.or_(acc, v))
                    self.ctx.guards.append(v if isand else T.not_(v))
                    pushed += 1
                    if last:
                        return acc
                    continue
                if last:
                    break
                t = self.truth(v)
                if t != isand:
                    break
            if acc is not None:
                c = self.cond(v)
                return T.and_(acc, c) if isand else T.or_(acc, c)
            return v
        finally:
            del self.ctx.guards[len(self.ctx.guards) - pushed:]

    def e_Compare(self, fr, n):
        left = self.ev(fr, n.left)
        acc = None
        for op, r in zip(n.ops, n.comparators):
            right = self.ev(fr, r)
            v = self.lib.compare(self, type(op).__name__, left, right)
            left = right
            if len(n.ops) == 1:
                return v
            c = self.cond(v)
            acc = c if acc is None else (T.and_(acc, c))
            if acc is False:
                return False
        return acc

    def e_IfExp(self, fr, n):
        c = self.cond(self.ev(fr, n.test))
        if isinstance(c, E):
            k = self.ctx.known(c)
            if k is not None:
                c = k
        if isinstance(c, E) and self.ctx.loops:
            self.ctx.guards.append(c)
            try:
                a = self.ev(fr, n.body)
            finally:
                self.ctx.guards.pop()
            self.ctx.guards.append(T.not_(c))
            try:
                b = self.ev(fr, n.orelse)
            finally:
                self.ctx.guards.pop()
            return merge(c, a, b)
        if isinstance(c, E):
            c = self.ctx.decide(c)
        return self.ev(fr, n.body if c else n.orelse)

    def e_NamedExpr(self, fr, n):
        v = self.ev(fr, n.value)
        self.assign(fr, n.target, v)
        return v

    def e_Lambda(self, fr, n):
        a = n.args
        return Fn(n, fr, fr.mod, "<lambda>", [self.ev(fr, d) for d in a.defaults], {})

    def e_JoinedStr(self, fr, n):
        out = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(fr, v.value)
                spec = self.ev(fr, v.format_spec) if v.format_spec is not None else ""
                out.append(self.lib.fmt(self, x, spec, v.conversion))
        return "".join(out)

    def e_Await(self, fr, n):
        raise Unresolved("await")

    def e_Yield(self, fr, n):
        v = self.ev(fr, n.value) if n.value is not None else None
        fr2 = fr
        while fr2.yields is None:
            fr2 = fr2.parent
        fr2.yields.append(v)
        return None

    def e_YieldFrom(self, fr, n):
        for v in self.lib.iterate(self, self.ev(fr, n.value)):
            fr.yields.append(v)

    def comp(self, fr, n, emit):
        f = Frame({}, fr, fr.mod, None)
        f.line = fr.line
        f.cls = None
        self.ctx.frames.append(f)

        def go(k):
            if k == len(n.generators):
                emit(f)
                return
            g = n.generators[k]
            it = self.ev(f if k else fr, g.iter)
            if isinstance(it, Unk):
                raise Unresolved("iteration over " + it.why)
            if isinstance(it, self.lib.SRange) and not it.concrete():
                raise Unresolved("comprehension over a symbolic range")
            cnt = 0
            for v in self.lib.iterate(self, it):
                cnt += 1
                if cnt > 5000:
                    raise Unresolved("comprehension bound")
                self.assign(f, g.target, v)
                if all(self.truth(self.ev(f, c)) for c in g.ifs):
                    go(k + 1)

        try:
            f.line = n.lineno
            go(0)
        finally:
            self.ctx.frames.pop()

    def e_ListComp(self, fr, n):
        out = []
        self.comp(fr, n, lambda f: out.append(self.ev(f, n.elt)))
        return out

    def e_GeneratorExp(self, fr, n):
        return self.lib.LazyGen(self, fr, n)

    def e_SetComp(self, fr, n):
        out = set()
        self.comp(fr, n, lambda f: out.add(self.ev(f, n.elt)))
        return out

    def e_DictComp(self, fr, n):
        out = {}

        def emit(f):
            k = self.ev(f, n.key)
            out[k] = self.ev(f, n.value)

        self.comp(fr, n, emit)
        return out

    def e_Call(self, fr, n):
        # super() needs the frame
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None and (f.fn is None or f.fn.owner is None):
                f = f.parent
            if f is None:
                raise Unresolved("super()")
            a = f.fn.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperProxy(f.fn.owner, f.vars[first])
        fn = self.ev(fr, n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.lib.iterate(self, self.ev(fr, a.value)))
            else:
                args.append(self.ev(fr, a))
        kw = {}
        for k in n.keywords:
            v = self.ev(fr, k.value)
            if k.arg is None:
                if not isinstance(v, dict):
                    raise Unresolved("keyword unpacking")
                kw.update(v)
            else:
                kw[k.arg] = v
        fr.line = n.lineno
        return self.call(fn, args, kw)

    # ---- calls
    def call(self, fn, args, kw):
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kw)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self_, *args], kw)
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, (ClsMethod, StatMethod)):
            return self.call(fn.fn, args, kw)
        if isinstance(fn, Obj):
            m = fn.cls.find("__call__")
            if m is not NOTHING:
                return self.call(m, [fn, *args], kw)
        return self.lib.call_native(self, fn, args, kw)

    def call_fn(self, fn, args, kw):
        if fn.memo is not None:
            for x in (*args, *kw.values()):
                if isinstance(x, (list, dict, set)) or isinstance(x, Arr) and x.lib == "np":
                    raise Raised(TypeError(f"unhashable type: {type(x).__name__!r}"), self.ctx.loc())
            key = (*(_memo_key(x) for x in args), *sorted((k, _memo_key(v)) for k, v in kw.items()))
            if key not in fn.memo:
                fn.memo[key] = (self.run_fn(fn, args, kw), args, kw)  # the arguments are kept: keys may be identities
            return fn.memo[key][0]
        return self.run_fn(fn, args, kw)

    def run_fn(self, fn, args, kw):
        w = self.ctx.watch
        if w is not None and not self.ctx.frames:
            w.begin()
            try:
                return self.run_body(fn, args, kw)
            finally:
                w.end()
        return self.run_body(fn, args, kw)

    def run_body(self, fn, args, kw):
        ctx = self.ctx
        a = fn.node.args
        vars = {}
        pos = [p.arg for p in (*a.posonlyargs, *a.args)]
        if len(args) > len(pos) and not a.vararg:
            raise Raised(TypeError(f"{fn.qual}() takes {len(pos)} positional arguments but {len(args)} were given"), ctx.loc())
        for p, v in zip(pos, args):
            vars[p] = v
        if a.vararg:
            vars[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        kwnames = {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k in pos and k not in vars or k in kwnames:
                vars[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise Raised(TypeError(f"{fn.qual}() got an unexpected keyword argument {k!r}"), ctx.loc())
        if a.kwarg:
            vars[a.kwarg.arg] = extra
        nd = len(fn.defaults)
        for p, d in zip(pos[len(pos) - nd:], fn.defaults):
            vars.setdefault(p, d)
        for k, d in fn.kwdefaults.items():
            vars.setdefault(k, d)
        for p in (*pos, *kwnames):
            if p not in vars:
                raise Raised(TypeError(f"{fn.qual}() missing argument {p!r}"), ctx.loc())
        if len(ctx.frames) > 60:
            raise Unresolved("call depth")
        fr = Frame(vars, fn.frame, fn.mod, fn)
        fr.line = getattr(fn.node, "lineno", 0)
        self.visited.add((fn.mod.path if fn.mod else "?", fn.qual))
        ctx.calls.append(fn)
        hook = getattr(ctx, "on_call", None)
        if hook:
            hook(fn, vars)
        ctx.frames.append(fr)
        if fn.isgen:
            fr.yields = []
        try:
            if isinstance(fn.node, ast.Lambda):
                return self.ev(fr, fn.node.body)
            try:
                self.block(fr, fn.node.body)
                r = None
            except _Return as e:
                r = e.v
            if fn.isgen:
                return iter(fr.yields)
            return r
        except (Unresolved, Raised) as e:
            if isinstance(e, Unresolved) and getattr(ctx, "loc_at_failure", None) is None:
                ctx.loc_at_failure = ctx.loc()
            raise
        finally:
            ctx.frames.pop()

    def instantiate(self, cls, args, kw):
        if cls.enum:
            for m in cls.members:
                if m.d["value"] == args[0]:
                    return m
            raise Raised(ValueError(f"{args[0]!r} is not a valid {cls.name}"), self.ctx.loc())
        for b in cls.mro():
            for x in b.bases:
                if isinstance(x, type) and issubclass(x, BaseException):
                    o = Obj(cls)
                    o.d["args"] = tuple(args)
                    return o
        if any(not isinstance(b, (Cls, EnumBase)) and b is not object and getattr(b, "name", "") in ("NamedTuple", "TypedDict") for b in cls.bases):
            if any(getattr(b, "name", "") == "TypedDict" for b in cls.bases):
                return dict(*args, **kw)
            names = list(cls.d.get("__annotations__", {}))
            o = Obj(cls)
            vals = dict(zip(names, args))
            vals.update(kw)
            for n in names:
                o.d[n] = vals.get(n, cls.d.get(n))
            o.d["__tuple__"] = tuple(o.d[n] for n in names)
            return o
        o = Obj(cls)
        o.created = self.ctx.loc()
        init = cls.find("__init__")
        if init is not NOTHING:
            self.call(init, [o, *args], kw)
            return o
        fields = None
        for c in cls.mro():
            if c.fields is not None:
                fields = c.fields
                break
        if fields is not None:
            vals = {}
            for (name, _), v in zip(fields.items(), args):
                vals[name] = v
            if len(args) > len(fields):
                raise Raised(TypeError(f"{cls.name}() takes {len(fields)} arguments"), self.ctx.loc())
            for k, v in kw.items():
                if k not in fields or k in vals:
                    raise Raised(TypeError(f"{cls.name}() got an unexpected keyword argument {k!r}"), self.ctx.loc())
                vals[k] = v
            for name, default in fields.items():
                if name not in vals:
                    if default is NOTHING:
                        raise Raised(TypeError(f"{cls.name}() missing argument {name!r}"), self.ctx.loc())
                    vals[name] = self.call(default.factory, [], {}) if isinstance(default, self.lib.Field) else default
            for name in fields:
                self.setattr(o, name, vals[name])
            post = cls.find("__post_init__")
            if post is not NOTHING:
                self.call(post, [o], {})
            return o
        if args or kw:
            raise Raised(TypeError(f"{cls.name}() takes no arguments"), self.ctx.loc())
        return o

    # ---- attributes
    def getattr(self, o, name):
        if isinstance(o, Obj):
            if name == "__dict__":
                return o.d
            if name == "__class__":
                return o.cls
            v = o.cls.find(name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            if name in o.d:
                return o.d[name]
            if v is not NOTHING:
                return self.bind(v, o, o.cls)
            g = o.cls.find("__getattr__")
            if g is not NOTHING:
                return self.call(g, [o, name], {})
            if isinstance(o.d.get("__tuple__"), tuple) and name in ("_replace", "_asdict", "count", "index"):
                raise Unresolved("namedtuple method")
            raise Raised(AttributeError(f"{o.cls.name!r} object has no attribute {name!r}"), self.ctx.loc())
        if isinstance(o, Cls):
            v = o.find(name)
            if v is not NOTHING:
                if isinstance(v, ClsMethod):
                    return Bound(v.fn, o)
                if isinstance(v, StatMethod):
                    return v.fn
                return v
            if name == "__name__":
                return o.name
            if name == "__new__":
                return self.lib.Builtin("__new__", lambda c, *a, **k: Obj(c))
            if name == "__dict__":
                return o.d
            if name == "__members__" and o.enum:
                return {m.d["name"]: m for m in o.members}
            if name == "__dataclass_fields__" and o.fields is not None:
                return dict.fromkeys(o.fields)
            raise Raised(AttributeError(f"type object {o.name!r} has no attribute {name!r}"), self.ctx.loc())
        if isinstance(o, SuperProxy):
            mro = (o.obj.cls if isinstance(o.obj, Obj) else o.obj).mro()
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if name in c.d:
                    return self.bind(c.d[name], o.obj, c)
            if name == "__setattr__":
                return self.lib.Builtin("object.__setattr__", lambda n, v: self.raw_setattr(o.obj, n, v))
            if name in ("__init__", "__post_init__", "__init_subclass__"):
                return self.lib.Builtin(name, lambda *a, **k: None)
            if name == "__getattribute__":
                return self.lib.Builtin(name, lambda n: self.getattr(o.obj, n))
            raise Raised(AttributeError(name), self.ctx.loc())
        if isinstance(o, Mod):
            if name in o.g:
                if self.ctx.watch is not None and self.ctx.watch.active:
                    self.ctx.watch.looked_up(o, name)
                return o.g[name]
            if name == "__dict__":
                return o.g
            g = o.g.get("__getattr__")
            if g is not None:
                return self.call(g, [name], {})
            if os.path.exists(self.modpath(o.name + "." + name)):
                return self.module(o.name + "." + name)
            raise Raised(AttributeError(f"module {o.name!r} has no attribute {name!r}"), self.ctx.loc())
        if isinstance(o, Fn):
            if name in o.attrs:
                return o.attrs[name]
            if name == "__name__":
                return o.name
            if name == "py_func":
                return o
            if name in ("__doc__", "__qualname__", "__module__"):
                return o.qual
            if name in ("cache_clear", "cache_info"):
                return self.lib.Builtin(name, lambda: None)
            if name == "__wrapped__":
                return o
            raise Raised(AttributeError(f"function has no attribute {name!r}"), self.ctx.loc())
        if isinstance(o, Unk):
            return Unk(f"{o.why}.{name}")
        return self.lib.getattr_(self, o, name)

    def bind(self, v, o, cls):
        if isinstance(v, Fn) or isinstance(v, self.lib.Builtin):
            return Bound(v, o)
        if isinstance(v, ClsMethod):
            return Bound(v.fn, cls)
        if isinstance(v, StatMethod):
            return v.fn
        if isinstance(v, Prop):
            return self.call(v.fget, [o], {})
        return v

    def setattr(self, o, name, v):
        if isinstance(o, Obj):
            p = o.cls.find(name)
            if isinstance(p, Prop):
                if p.fset is None:
                    raise Raised(AttributeError(f"can't set attribute {name!r}"), self.ctx.loc())
                self.call(p.fset, [o, v], {})
                return
            f = o.cls.find("__setattr__")
            if f is not NOTHING:
                self.call(f, [o, name, v], {})
                return
            self.raw_setattr(o, name, v)
            return
        if self.ctx.watch is not None and isinstance(o, (Fn, Cls)):
            self.ctx.watch.mutated("setattr", o, name, v)
        if isinstance(o, Fn):
            o.attrs[name] = v
            return
        if isinstance(o, Cls):
            o.d[name] = v
            return
        if isinstance(o, Mod):
            if self.ctx.watch is not None:
                self.ctx.watch.stored(o, name, v)
            o.g[name] = v
            return
        if isinstance(o, Unk):
            return
        self.lib.setattr_(self, o, name, v)

    def raw_setattr(self, o, name, v):
        if self.ctx.loops:
            raise Unresolved("attribute assignment inside a symbolic loop")
        if self.ctx.watch is not None:
            self.ctx.watch.mutated("setattr", o, name, v)
        o.d[name] = v
        self.ctx.events.append(("setattr", o, name, v, self.ctx.loc()))

    # ---- entry points for scenarios
    def get(self, dotted):
        """resolve gsply.mod.name"""
        parts = dotted.split(".")
        m = self.module("gsply")
        for k in range(len(parts), 0, -1):
            p = ".".join(parts[:k])
            if os.path.exists(self.modpath(p)):
                v = self.module(p)
                for a in parts[k:]:
                    v = self.getattr(v, a)
                return v
        raise Raised(ImportError(dotted))


def _transfers(body):
    """does the block leave the enclosing loop or function"""
    def walk(n, inloop):
        if isinstance(n, (ast.Return, ast.Raise)):
            return True
        if isinstance(n, (ast.Break, ast.Continue)):
            return not inloop
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            return False
        il = inloop or isinstance(n, (ast.For, ast.While))
        return any(walk(c, il) for c in ast.iter_child_nodes(n))

    return any(walk(s, False) for s in body)


def merge(c, a, b):
    if a is b:
        return a
    sc = lambda x: isinstance(x, (int, float, E)) and x is not NOTHING
    if sc(a) and sc(b):
        return T.ite(c, a, b)
    if a is NOTHING:
        return T.ite(c, T.uninit("a local variable"), b) if sc(b) else b
    if b is NOTHING:
        return T.ite(c, a, T.uninit("a local variable")) if sc(a) else a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and a.dtype == b.dtype:
        ra, rb = a.snap(), b.snap()
        if all(A.dim_eq(x, y) is True for x, y in zip(a.shape, b.shape)):
            return A.fresh_array(a.shape, a.dtype, lambda idx: T.ite(c, ra(idx), rb(idx)), "merged", a.lib)
    return Unk("value that differs between branches")
