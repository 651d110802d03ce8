"""State that outlives a call: which of it do calls overwrite, and under which lock."""
from __future__ import annotations

from . import interp as I
from . import lib
from .arrays import Arr
from .terms import E

CONST = (int, float, str, bytes, bool, type(None))


def same(a, b):
    if a is b:
        return True
    if isinstance(a, CONST) and isinstance(b, CONST):
        return type(a) is type(b) and a == b
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return False


def first_value(old, new):
    """lazy initialisation, and flags that are only ever raised"""
    return old is I.NOTHING or old is None or old is False and new is True


class Watch:
    """installed as ctx.watch; events come from the interpreter's stores"""

    def __init__(self, ip):
        self.ip = ip
        self.active = False
        self.shared, self.bufs = {}, set()
        self.locks = []
        self.found = []  # (slot, what, location)
        self.reads = {}  # global slot -> lock sets at reads
        self.writes = {}  # global slot -> (lock sets at overwriting stores, location, what)
        self.counted = {}  # global slot -> location of augmented assignments
        self.calls = 0

    # ---- what is shared at the start of a call
    def begin(self):
        self.active = True
        self.calls += 1
        self.shared, self.bufs = {}, set()
        for m in self.ip.mods.values():
            for k, v in m.g.items():
                if not k.startswith("__"):
                    self.reach(v, f"{m.name}.{k}")

    def end(self):
        self.active = False

    def reach(self, v, name, depth=0):
        st = [(v, name)]
        while st:
            v, name = st.pop()
            if isinstance(v, CONST) or isinstance(v, E):
                continue
            if isinstance(v, Arr):
                self.bufs.add(v.buf)
                self.shared.setdefault(id(v.buf), (v.buf, name))
                continue
            if id(v) in self.shared:
                continue
            kids = self.kids(v, name)
            if kids is None:
                continue
            self.shared[id(v)] = (v, name)
            st.extend(kids)

    def kids(self, v, name):
        if isinstance(v, dict):
            return [(x, f"{name}[{k!r}]" if isinstance(k, CONST) else name) for k, x in v.items()]
        if isinstance(v, (list, tuple, set, frozenset)):
            return [(x, name) for x in v]
        if isinstance(v, I.Fn):
            out = [(x, f"{name}.{k}") for k, x in v.attrs.items()]
            out += [(x, f"a default of {name}") for x in (*v.defaults, *v.kwdefaults.values())]
            out += [(e[0], f"the remembered results of {name}") for e in (v.memo or {}).values()]
            f = v.frame
            while f is not None and f.fn is not None:
                out += [(x, f"{k} enclosed by {name}") for k, x in f.vars.items()]
                f = f.parent
            return out
        if isinstance(v, I.Cls):
            return [(x, f"{name}.{k}") for k, x in v.d.items()]
        if isinstance(v, I.Obj):
            if v.cls.name == "local" and v.cls.mod is None:
                return None  # each thread has its own
            return [(x, f"{name}.{k}") for k, x in v.d.items()]
        if isinstance(v, I.Bound):
            return [(v.fn, name), (v.self_, name)]
        if isinstance(v, I.Prop):
            return [(v.fget, name), (v.fset, name)]
        if isinstance(v, (I.ClsMethod, I.StatMethod)):
            return [(v.fn, name)]
        if isinstance(v, (lib.Builtin, lib.LibObj)):
            out = [(x, f"{name}.{k}") for k, x in v.attrs.items()]
            w = getattr(v, "wraps", None)
            return [*out, (w, name)] if w is not None else out
        return None

    def held(self):
        return frozenset(self.locks)

    # ---- events
    def report(self, name, what):
        if not self.locks:
            self.found.append((name, what, self.ip.ctx.loc()))

    def mutated(self, kind, o, k, v):
        """a store into a container or object"""
        if not self.active or id(o) not in self.shared:
            return
        name = self.shared[id(o)][1]
        if kind == "setitem" and isinstance(o, dict):
            try:
                old = o.get(k, I.NOTHING)
            except TypeError:
                return
            if not first_value(old, v) and not same(old, v):
                self.report(name, f"overwrites the entry {k!r}")
            self.reach(v, name)
        elif kind == "setitem":
            try:
                ok = not isinstance(k, slice) and same(o[k], v)
            except (IndexError, TypeError):
                ok = False
            if not ok:
                self.report(name, "overwrites an entry")
        elif kind == "delitem":
            self.report(name, "removes an entry")
        elif kind == "setattr":
            d = o.attrs if isinstance(o, I.Fn) else o.g if isinstance(o, I.Mod) else o.d
            old = d.get(k, I.NOTHING)
            if not first_value(old, v) and not same(old, v):
                self.report(name, f"overwrites its attribute {k}")
            self.reach(v, f"{name}.{k}")
        elif kind == "mutate":
            if k in ("append", "extend", "add"):
                for x in v:
                    self.reach(x, name)
            elif k == "setdefault":
                for x in v[1:]:
                    self.reach(x, name)
            elif k == "update":
                for a in v:
                    if isinstance(a, dict) and isinstance(o, dict):
                        for q, x in a.items():
                            self.mutated("setitem", o, q, x)
            else:
                self.report(name, f"changes it ({k})")

    def stored(self, mod, name, v, aug=False):
        """assignment to a global variable from within a function"""
        if not self.active:
            return
        old = mod.g.get(name, I.NOTHING)
        slot = f"{mod.name}.{name}"
        if aug:
            self.counted.setdefault(slot, self.ip.ctx.loc())
        elif not first_value(old, v) and not same(old, v):
            self.writes.setdefault(slot, []).append((self.held(), self.ip.ctx.loc()))
        self.reach(v, slot)

    def looked_up(self, mod, name):
        self.reads.setdefault(f"{mod.name}.{name}", set()).add(self.held())

    def wrote(self, buf):
        if self.active and buf in self.bufs:
            self.report(self.shared[id(buf)][1], "writes into its array")

    # ---- the verdict
    def races(self):
        out = {(n, w): loc for n, w, loc in reversed(self.found)}
        for slot, ws in self.writes.items():
            r = self.reads.get(slot, set())
            if not r:
                continue  # never looked at
            common = frozenset.intersection(*(h for h, _ in ws), *r)
            if not common:
                out[slot, "assigns it"] = ws[0][1]
        for slot, loc in self.counted.items():
            if self.reads.get(slot):
                out[slot, "counts in it"] = loc
        return [(n, w, loc) for (n, w), loc in out.items()]


class Lock:
    """threading.Lock and RLock"""

    def __init__(self):
        self.depth = 0

    def enter(self, w):
        self.depth += 1
        if w is not None:
            w.locks.append(self)

    def leave(self, w):
        self.depth -= 1
        if w is not None and self in w.locks:
            w.locks.remove(self)
