"""Models of the language built-ins and of the library functions the package uses.

Every model works on abstract values.  A function without a model yields an
unknown value and marks its array arguments unknown, so nothing is concluded
about them.
"""
from __future__ import annotations

import ast
import copy as _copy
import itertools
import json as _json
import math
import operator
import posixpath
import re
import struct as _struct

from . import arrays as A
from . import bytesfs as B
from . import names
from . import terms as T
from .arrays import Arr, Unresolved
from .bytesfs import ABytes, AFile, APath, AZip, FileObj
from .interp import (NOTHING, Bound, Cls, ClsMethod, EnumBase, Fn, LibMod, Mod, Obj, Prop, Raised, StatMethod,
                     SuperProxy, Unk)
from .terms import E

IP = None


def ctx():
    return A.CTX


def err(e):
    raise Raised(e, ctx().loc())


class Builtin:
    def __init__(self, name, fn, attrs=None, recv=None):
        self.name, self.fn, self.attrs, self.recv = name, fn, attrs or {}, recv

    def __repr__(self):
        return f"<builtin {self.name}>"


class Field:
    def __init__(self, factory):
        self.factory = factory


class LibObj:
    """a named library object without behaviour (typing constructs and the like)"""

    def __init__(self, name, **attrs):
        self.name, self.attrs = name, attrs

    def __repr__(self):
        return f"<{self.name}>"


class TypeObj:
    """a library type usable with isinstance and callable"""

    def __init__(self, name, pred, ctor=None, attrs=None):
        self.name, self.pred, self.ctor, self.attrs = name, pred, ctor, attrs or {}

    def __repr__(self):
        return f"<class {self.name}>"


class SRange:
    def __init__(self, lo, hi, step=1, par=False):
        self.lo, self.hi, self.step, self.par = lo, hi, step, par

    def concrete(self):
        return not any(isinstance(x, E) for x in (self.lo, self.hi, self.step)) and len(range(self.lo, self.hi, self.step)) <= 64

    def settle(self, ctx):
        """the sign of a symbolic step, decided on the current path"""
        if isinstance(self.step, E):
            if ctx.decide(T.eq(self.step, 0)):
                err(ValueError("range() arg 3 must not be zero"))
            self.sign = 1 if ctx.decide(T.lt(0, self.step)) else -1
        elif self.step == 0:
            err(ValueError("range() arg 3 must not be zero"))
        else:
            self.sign = 1 if self.step > 0 else -1

    def trips(self):
        """number of iterations; not positive when there is none"""
        lo, hi, step = (self.lo, self.hi, self.step) if self.sign > 0 else (self.hi, self.lo, T.mul(-1, self.step))
        d = T.sub(hi, lo)
        if isinstance(step, E):
            for k in range(65):
                if T.eq(d, T.mul(k, step)) is True:
                    return k
        return T.fdiv(T.add(d, T.sub(step, 1)), step)

    def length(self):
        if not any(isinstance(x, E) for x in (self.lo, self.hi, self.step)):
            return len(range(self.lo, self.hi, self.step))
        if not isinstance(self.step, E) and self.step == 1:
            return T.mx(T.sub(self.hi, self.lo), 0)
        self.settle(ctx())
        return T.mx(self.trips(), 0)


class SymSeq:
    """a sequence of symbolic length with an item for every position"""

    lo, step, par = 0, 1, False

    def __init__(self, hi, item):
        self.hi, self.item = hi, item


def sym_seq(v):
    """v as a SymSeq when its length is symbolic, else v itself"""
    if isinstance(v, Arr) and v.ndim and isinstance(v.shape[0], E):
        return SymSeq(v.shape[0], lambda k: getitem(IP, v, k))
    return v


def _sym(v):
    v = sym_seq(v)
    if isinstance(v, SRange) and not v.concrete():
        lo, step = v.lo, v.step
        return SymSeq(v.length(), lambda k: T.add(lo, T.mul(step, k)))
    return v


class LazyGen:
    def __init__(self, ip, fr, n):
        self.ip, self.fr, self.n = ip, fr, n
        self.lst = None

    def items(self):
        if self.lst is None:
            out = []
            self.ip.comp(self.fr, self.n, lambda f: out.append(self.ip.ev(f, self.n.elt)))
            self.lst = out
        return self.lst


class FlatView:
    def __init__(self, arr):
        self.arr = arr


# ------------------------------------------------------------------ dtypes
_DTN = {
    "float": "float64", "double": "float64", "single": "float32", "half": "float16", "bool_": "bool", "bool8": "bool",
    "int": "int64", "intp": "int64", "int_": "int64", "long": "int64", "uint": "uint64", "byte": "int8", "ubyte": "uint8",
    "short": "int16", "ushort": "uint16", "intc": "int32", "uintc": "uint32", "longlong": "int64", "float_": "float64",
    "f4": "float32", "f8": "float64", "f2": "float16", "u1": "uint8", "u2": "uint16", "u4": "uint32", "u8": "uint64",
    "i1": "int8", "i2": "int16", "i4": "int32", "i8": "int64", "f": "float32", "d": "float64", "B": "uint8", "b": "int8",
    "H": "uint16", "h": "int16", "I": "uint32", "i": "int32", "?": "bool", "b1": "bool", "e": "float16", "q": "int64", "Q": "uint64",
    "uchar": "uint8",
}
_DTS = ("bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float16", "float32", "float64", "bfloat16")
ISZ = {"bool": 1, "uint8": 1, "int8": 1, "uint16": 2, "int16": 2, "uint32": 4, "int32": 4, "uint64": 8, "int64": 8, "float16": 2,
       "bfloat16": 2, "float32": 4, "float64": 8}


class DT:
    def __init__(self, name, big=False):
        self.name, self.big = name, big

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, DT) and o.name == self.name and o.big == self.big

    def __hash__(self):
        return hash(self.name)


def dtn(d, lib="np"):
    """dtype argument -> canonical name"""
    if d is None:
        return None
    if isinstance(d, DT):
        if d.big:
            return "big_" + d.name
        return d.name
    if d is float:
        return "float64" if lib == "np" else "float32"
    if d is int:
        return "int64"
    if d is bool:
        return "bool"
    if isinstance(d, str):
        s = d
        big = s[:1] == ">"
        s = s.lstrip("<>=|")
        s = _DTN.get(s, s)
        if s in _DTS:
            return "big_" + s if big and ISZ[s] > 1 else s
    if isinstance(d, TypeObj) and d.name in _DTS:
        return d.name
    raise Unresolved(f"dtype {d!r}")


def isz(dt):
    if dt.startswith("big_"):
        dt = dt[4:]
    return ISZ[dt]


def is_float(dt):
    return dt.startswith(("float", "bfloat"))


# ------------------------------------------------------------------ scalars
def scalar(v):
    if isinstance(v, Arr) and v.ndim == 0:
        return v.read(())
    if isinstance(v, Arr) and all(not isinstance(d, E) and d == 1 for d in v.shape):
        return v.read((0,) * v.ndim)
    if isinstance(v, Unk):
        return T.unk(v.why)
    return v


def is_scalar(v):
    return isinstance(v, (int, float, E)) and not isinstance(v, complex)


def lst(v):
    """materialise lazily evaluated iterables"""
    if isinstance(v, LazyGen):
        return v.items()
    return v


def toarr(x, lib="np", dtype=None):
    if isinstance(x, Arr):
        return x
    if isinstance(x, Obj) and "__tuple__" in x.d:
        x = x.d["__tuple__"]
    if isinstance(x, SRange):
        return arange_(lib, x.lo, x.hi, x.step)
    if isinstance(x, LazyGen):
        x = x.items()
    if isinstance(x, (list, tuple)):
        if any(isinstance(v, Arr) and v.ndim > 0 for v in x):
            return A.stack([toarr(v, lib) for v in x], 0)
        return A.from_list(_sc(x), dtype, lib)
    if is_scalar(x):
        dt = dtype or A.infer_dtype(x, lib)
        v = A.coerce(dt, x)
        return A.fresh_array((), dt, lambda idx: v, "scalar", lib)
    if isinstance(x, Unk):
        raise Unresolved("array of " + x.why)
    if isinstance(x, (str, bytes, ABytes, dict)) or x is None:
        raise Unresolved("array of a non-numeric value")
    raise Unresolved(f"array of {type(x).__name__}")


def _sc(x):
    if isinstance(x, (list, tuple)):
        return [_sc(v) for v in x]
    v = scalar(x)
    if not is_scalar(v):
        raise Unresolved("array of mixed values")
    return v


# ------------------------------------------------------------------ elementwise
def _lib(args):
    return "torch" if any(isinstance(a, Arr) and a.lib == "torch" for a in args) else "np"


def rdtype(op, args, lib):
    dt = None
    zero = None
    for a in args:
        if isinstance(a, Arr):
            if a.ndim == 0 and lib == "torch":
                zero = a.dtype if zero is None else A.promote(zero, a.dtype)
                continue
            dt = a.dtype if dt is None else (A.tpromote if lib == "torch" else A.promote)(dt, a.dtype)
    if dt is None:
        dt = zero
        if dt is None:
            return A.infer_dtype(args[0], lib)
    elif zero is not None and is_float(zero) and not is_float(dt):
        dt = zero
    fl = "float64" if lib == "np" else "float32"
    for a in args:
        if isinstance(a, Arr):
            continue
        k = T.kind(a) if is_scalar(a) else "f"
        if k == "f" and not is_float(dt):
            dt = fl
        elif k == "i" and dt == "bool":
            dt = "int64"
    if op == "div" and not is_float(dt):
        dt = fl
    return dt


def same_device(arrs):
    dv = {a.device for a in arrs if a.lib == "torch" and (a.ndim or a.device != "cpu")}
    if len(dv) > 1:
        err(RuntimeError("Expected all tensors to be on the same device, but found at least two devices"))


def ew(op, f, *args, dtype=None, out=None):
    args = [lst(a) for a in args]
    if any(isinstance(a, Unk) for a in args):
        raise Unresolved("operation on " + next(a.why for a in args if isinstance(a, Unk)))
    if any(isinstance(a, (list, tuple)) for a in args):
        lib = _lib(args)
        args = [toarr(a, lib) if isinstance(a, (list, tuple)) else a for a in args]
    arrs = [a for a in args if isinstance(a, Arr)]
    for a in args:
        if not isinstance(a, Arr) and not is_scalar(a):
            raise TypeError(f"operand {a!r}")
    if not arrs:
        r = f(*args)
        return r if dtype is None else A.coerce(dtype, r)
    lib = _lib(args)
    if op == "cmp":
        dt = "bool"
    elif op == "float":
        dt = rdtype("div", args, lib)
    else:
        dt = rdtype(op, args, lib)
    if dtype is not None:
        dt = dtype
    dt = dt.replace("big_", "")
    same_device(arrs)
    r = A.elementwise(f, args, dt, lib)
    dv = [a.device for a in arrs if a.ndim > 0] or [a.device for a in arrs]
    r.device = dv[0]
    if len(arrs) == 1 or all(a.contig is not False for a in arrs):
        pass
    if out is not None:
        rd = r.snap()
        assign_into(out, r)
        return out
    if r.ndim == 0 and lib == "np":
        return r.read(())
    return r


def assign_into(dst, src):
    if isinstance(dst, (list, tuple)):
        dst = dst[0]
    A.assign(dst, src)


BIN = {
    "Add": ("arith", T.add), "Sub": ("arith", T.sub), "Mult": ("arith", T.mul), "Div": ("div", T.div), "Pow": ("arith", T.power),
    "FloorDiv": ("arith", T.fdiv), "Mod": ("arith", T.mod), "LShift": ("arith", T.shl), "RShift": ("arith", T.shr),
    "BitAnd": ("arith", T.band), "BitOr": ("arith", T.bor), "BitXor": ("arith", T.bxor),
}
PYBIN = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv, "Pow": operator.pow,
    "FloorDiv": operator.floordiv, "Mod": operator.mod, "LShift": operator.lshift, "RShift": operator.rshift,
    "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
}
DUNDER = {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "Pow": "pow", "FloorDiv": "floordiv", "Mod": "mod",
          "BitAnd": "and", "BitOr": "or", "BitXor": "xor", "LShift": "lshift", "RShift": "rshift", "MatMult": "matmul"}


def _sizes(t):
    """an integer made of sizes and counts, never of array elements: a Python int"""
    return not isinstance(t, E) or t.op in ("sym", "lin", "fdiv", "mod", "imul", "mul", "mx", "mn", "max", "min") and all(_sizes(x) for x in _args(t))


def _args(t):
    for x in t.args:
        if isinstance(x, tuple):
            for y in x:
                yield y[0] if isinstance(y, tuple) else y
        elif isinstance(x, E):
            yield x


def binop(ip, op, a, b):
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk((a if isinstance(a, Unk) else b).why)
    if isinstance(a, Obj):
        m = a.cls.find(f"__{DUNDER.get(op, op)}__")
        if m is not NOTHING:
            r = ip.call(m, [a, b], {})
            if r is not NotImplemented:
                return r
    if isinstance(b, Obj):
        m = b.cls.find(f"__r{DUNDER.get(op, op)}__")
        if m is not NOTHING:
            return ip.call(m, [b, a], {})
        err(TypeError("unsupported operand types"))
    if isinstance(a, Obj):
        err(TypeError("unsupported operand types"))
    if isinstance(a, Arr) or isinstance(b, Arr):
        if op == "MatMult":
            return graded(matmul(a, b), a, b)
        if (isinstance(a, (str, APath)) or isinstance(b, (str, APath))):
            raise Unresolved("array and string")
        k, f = BIN[op]
        if op in ("BitAnd", "BitOr", "BitXor") and rdtype(k, [x for x in (a, b)], "np") == "bool":
            k = "cmp"
        return graded(ew(k, f, a, b), a, b)
    if isinstance(a, APath) or isinstance(b, APath):
        if op == "Div":
            return APath(posixpath.join(path_str(a), path_str(b)))
        raise Unresolved("path arithmetic")
    if isinstance(a, (ABytes, bytes, bytearray)) and isinstance(b, (ABytes, bytes, bytearray)) and op == "Add":
        if isinstance(a, ABytes) or isinstance(b, ABytes):
            return B.join([a, b])
        return a + b
    if isinstance(a, (str, bytes)) and op == "Mod":
        return percent(a, b)
    if isinstance(a, E) or isinstance(b, E):
        if not (is_scalar(a) and is_scalar(b)):
            if isinstance(a, (str, list, tuple, bytes)) or isinstance(b, (str, list, tuple, bytes)):
                if op == "Mult":
                    e = a if isinstance(a, E) else b
                    kn = [q for q in range(0, 65) if ctx().known(T.eq(e, q)) is True]
                    raise Unresolved("repetition by a symbolic count")
            raise TypeError(f"operands {a!r} {b!r}")
        if op in ("FloorDiv", "Mod", "Div") and ctx().in_jit() is None and isinstance(b, E) and b.kind == "i" and T.kind(a) == "i" and _sizes(b):
            if ctx().decide(T.eq(b, 0)):
                err(ZeroDivisionError("division by zero"))
        if T.kind(a) == "b" and T.kind(b) == "b" and op in ("Add", "Sub", "Mult"):
            a, b = (T._b2i(x) if isinstance(x, E) else int(x) for x in (a, b))
        return BIN[op][1](a, b)
    if is_scalar(a) and is_scalar(b):
        try:
            return PYBIN[op](a, b)
        except ZeroDivisionError:
            if ctx().in_jit() is not None or isinstance(a, float):
                return T.div(float(a), float(b)) if op == "Div" else T.unk("division by zero")
            if isinstance(b, float):
                raise Unresolved("division by the float zero")
            err(ZeroDivisionError("division by zero"))
    if op == "BitOr" and _istype(a) and _istype(b):
        return (*(_tl(a)), *(_tl(b)))
    if isinstance(a, LazyGen) or isinstance(b, LazyGen):
        raise TypeError("generator operand")
    a = _view(a)
    b = _view(b)
    if isinstance(a, (set, frozenset, dict)) and isinstance(b, (set, frozenset, dict)):
        return PYBIN[op](a, b)
    if isinstance(a, (list, tuple, str)) or isinstance(b, (list, tuple, str)):
        if op in ("Add", "Mult"):
            try:
                return PYBIN[op](a, b)
            except TypeError as e:
                err(e)
    if a is None or b is None:
        err(TypeError("unsupported operand types: NoneType"))
    raise TypeError(f"operands of {op}: {a!r}, {b!r}")


def _view(x):
    if isinstance(x, (type({}.keys()), type({}.items()))):
        try:
            return set(x)
        except TypeError:
            return list(x)
    return x


def percent(a, b):
    if isinstance(a, bytes):
        raise Unresolved("bytes formatting")
    t = b if isinstance(b, tuple) else (b,)
    t = tuple(x if isinstance(x, (str, int, float)) else str_of(x) for x in t)
    a2 = a
    if any(isinstance(x, str) and "\x01" in x for x in t):
        a2 = re.sub(r"%[-+0-9.]*[diufgGeE]", "%s", a)
    try:
        return a2 % t
    except TypeError as e:
        raise Unresolved(str(e))


def augop(ip, op, a, b):
    if isinstance(a, Arr):
        if a.lib == "np" and a.ndim == 0 and False:
            return binop(ip, op, a, b)
        r = binop(ip, op, a, b)
        in_place(a, b)
        if isinstance(r, Arr):
            rs = A.bread(r, a.shape)
            A.check_broadcast(r.shape, a.shape, a.lib)
            a.write_region(rs)
        else:
            a.write_region(lambda v: r)
        return a
    if isinstance(a, list) and op == "Add":
        _mutable(a)
        a.extend(iterate(ip, b))
        return a
    if isinstance(a, (dict, set)) and op == "BitOr":
        _mutable(a)
        a.update(b)
        return a
    if isinstance(a, Obj):
        m = a.cls.find(f"__i{DUNDER.get(op, op)}__")
        if m is not NOTHING:
            return ip.call(m, [a, b], {})
    return binop(ip, op, a, b)


def _mutable(o):
    if ctx().loops:
        raise Unresolved("container changed inside a symbolic loop")


def unary(ip, op, v):
    if isinstance(v, Unk):
        return v
    if op == "USub":
        if is_scalar(v):
            return T.mul(-1, v) if isinstance(v, E) else -v
        return graded(ew("arith", lambda x: T.mul(-1, x), v), v)
    if op == "UAdd":
        return v
    if op == "Invert":
        if isinstance(v, E):
            return T.invert(v)
        if is_scalar(v):
            return ~v
        return ew("arith", T.invert, v)
    raise Unresolved("unary " + op)


def invert_truth(ip, c):
    return T.not_(c) if isinstance(c, E) else not c


def truth(ip, v):
    if isinstance(v, Unk):
        raise Unresolved("truth of " + v.why)
    if isinstance(v, Arr):
        if v.ndim == 0 or all(not isinstance(d, E) and d == 1 for d in v.shape):
            x = v.read((0,) * v.ndim)
            if isinstance(x, E):
                return x if x.kind == "b" else T.ne(x, 0)
            return bool(x)
        s = v.size()
        if not isinstance(s, E) and s > 1 or isinstance(s, E):
            if isinstance(s, E) and ctx().known(T.lt(1, s)) is None:
                raise Unresolved("truth of an array")
            err(ValueError("The truth value of an array with more than one element is ambiguous"))
        return False
    if isinstance(v, ABytes):
        n = v.length()
        return T.lt(0, n)
    if isinstance(v, Obj):
        if v.cls.enum:
            for b in v.cls.bases:
                if b in (int, str):
                    return bool(v.d["value"])
            return True
        for m in ("__bool__", "__len__"):
            f = v.cls.find(m)
            if f is not NOTHING:
                return ip.cond(ip.call(f, [v], {}))
        return True
    if isinstance(v, SRange):
        return T.lt(0, v.length())
    if isinstance(v, LazyGen):
        return True
    if isinstance(v, Builtin) or isinstance(v, (Fn, Bound, Cls, LibObj, TypeObj, DT, APath, AFile, Mod, LibMod)):
        return True
    return bool(v)


# ------------------------------------------------------------------ comparison
CMP = {"Eq": T.eq, "NotEq": T.ne, "Lt": T.lt, "LtE": T.le, "Gt": lambda a, b: T.lt(b, a), "GtE": lambda a, b: T.le(b, a)}
PYCMP = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}


def compare(ip, op, a, b):
    if op in ("Is", "IsNot"):
        r = same(a, b)
        return r if op == "Is" else (not r)
    if op in ("In", "NotIn"):
        r = contains(ip, a, b)
        if op == "In":
            return r
        return T.not_(r) if isinstance(r, E) else not r
    if isinstance(a, Unk) or isinstance(b, Unk):
        return Unk((a if isinstance(a, Unk) else b).why)
    if isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None:
            return op == "NotEq"
        if isinstance(a, (Obj, str, dict)) or isinstance(b, (Obj, str, dict)):
            return op == "NotEq"
        return ew("cmp", CMP[op], a, b)
    if op in ("Eq", "NotEq"):
        r = equal(ip, a, b)
        if op == "Eq":
            return r
        return T.not_(r) if isinstance(r, E) else not r
    if isinstance(a, E) or isinstance(b, E):
        if is_scalar(a) and is_scalar(b):
            return CMP[op](a, b)
        if a is None or b is None:
            err(TypeError("comparison with None"))
        raise TypeError("ordering of a symbolic value and " + type(b).__name__)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and any(isinstance(x, E) for x in (*a, *b)):
        raise Unresolved("ordering of tuples")
    if isinstance(a, Obj) or isinstance(b, Obj):
        m = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}[op]
        if isinstance(a, Obj):
            f = a.cls.find(m)
            if f is not NOTHING:
                return ip.call(f, [a, b], {})
            if a.cls.enum and isinstance(b, Obj):
                return PYCMP[op](a.d["value"], b.d["value"])
        raise Unresolved("ordering of objects")
    a, b = _view(a), _view(b)
    try:
        return PYCMP[op](a, b)
    except TypeError as e:
        err(e)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Unk) or isinstance(b, Unk):
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            raise Unresolved("identity of " + (a if isinstance(a, Unk) else b).why)
        raise Unresolved("identity of an unknown value")
    if isinstance(a, DT) and isinstance(b, DT):
        return a == b
    if isinstance(a, E) and a.kind == "b" and isinstance(b, bool):
        return a if b else T.not_(a)
    if isinstance(b, E) and b.kind == "b" and isinstance(a, bool):
        return b if a else T.not_(b)
    if isinstance(a, (int, str, float)) and type(a) is type(b):
        return a == b
    return False


def equal(ip, a, b):
    if a is b:
        return True
    if isinstance(a, E) or isinstance(b, E):
        if is_scalar(a) and is_scalar(b):
            return T.eq(a, b)
        return False
    if isinstance(a, DT) or isinstance(b, DT):
        try:
            return dtn(a) == dtn(b)
        except Unresolved:
            return False
    if isinstance(a, Obj) and "__tuple__" in a.d:
        a = a.d["__tuple__"]
    if isinstance(b, Obj) and "__tuple__" in b.d:
        b = b.d["__tuple__"]
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if type(a) is not type(b) or len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            c = ip.cond(compare(ip, "Eq", x, y))
            r = T.and_(r, c)
            if r is False:
                return False
        return r
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        r = True
        for k in a:
            r = T.and_(r, ip.cond(compare(ip, "Eq", a[k], b[k])))
            if r is False:
                return False
        return r
    if isinstance(a, Obj) or isinstance(b, Obj):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                f = x.cls.find("__eq__")
                if f is not NOTHING:
                    return ip.call(f, [x, y], {})
                if x.cls.enum:
                    if isinstance(y, Obj):
                        return False
                    for base in x.cls.bases:
                        if base in (int, str):
                            return x.d["value"] == y
                    return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.cls is not b.cls:
                return False
            if a.cls.fields is not None:
                raise Unresolved("equality of dataclass instances")
        return False
    if isinstance(a, APath) or isinstance(b, APath):
        return isinstance(a, APath) and isinstance(b, APath) and a.s == b.s
    if isinstance(a, (ABytes, bytes)) and isinstance(b, (ABytes, bytes)):
        return B.bytes_equal(a, b)
    if isinstance(a, Device) or isinstance(b, Device):
        x = a.type if isinstance(a, Device) else a
        y = b.type if isinstance(b, Device) else b
        return x == y
    a, b = _view(a), _view(b)
    return a == b


def contains(ip, x, c):
    if isinstance(c, Unk):
        return c
    if isinstance(c, LazyGen):
        c = c.items()
    if isinstance(c, (ABytes, bytes)) and isinstance(x, (bytes, ABytes)):
        return B.find(c, x) >= 0
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        err(TypeError("'in <string>' requires string"))
    if isinstance(c, SRange):
        v = T.and_(T.le(c.lo, x), T.lt(x, c.hi))
        if c.step != 1:
            v = T.and_(v, T.eq(T.mod(T.sub(x, c.lo), c.step), 0))
        return v
    if isinstance(c, Cls) and c.enum:
        return any(m is x for m in c.members) or any(m.d["value"] == x for m in c.members if is_scalar(x) or isinstance(x, str))
    if isinstance(c, Obj):
        f = c.cls.find("__contains__")
        if f is not NOTHING:
            return ip.call(f, [c, x], {})
        if "__tuple__" in c.d:
            c = c.d["__tuple__"]
        else:
            c = list(iterate(ip, c))
    if isinstance(c, Arr):
        raise Unresolved("membership in an array")
    if isinstance(c, (dict, set, frozenset)) and not isinstance(x, E):
        try:
            return x in c
        except TypeError as e:
            err(e)
    r = False
    for v in list(c):
        q = ip.cond(compare(ip, "Eq", x, v)) if not (x is v) else True
        r = T.or_(r, q)
        if r is True:
            return True
    return r


# ------------------------------------------------------------------ items
def _key(k):
    if isinstance(k, Arr) and k.ndim == 0:
        if k.dtype != "bool":
            return k.read(())
    if isinstance(k, SRange):
        return toarr(k)
    if isinstance(k, (E, int)) and T.kind(k) == "b" and not isinstance(k, bool):
        raise Unresolved("boolean scalar index")
    return k


def getitem(ip, o, k):
    if isinstance(o, Unk):
        return Unk(o.why + "[...]")
    if isinstance(k, Unk):
        return Unk(k.why)
    if isinstance(o, Arr):
        return arr_getitem(ip, o, k)
    if isinstance(o, LibObj) and o.name in ("numpy.r_", "numpy.c_"):
        from . import lib2

        ks = k if isinstance(k, tuple) else (k,)
        if any(isinstance(x, (slice, str)) for x in ks):
            return Unk(o.name)
        return (lib2.r_ if o.name.endswith("r_") else lib2.c_)(*ks)
    if isinstance(o, FlatView):
        f = scalar(k)
        if isinstance(f, slice):
            return arr_getitem(ip, ravel(o.arr), f)
        ctx().access(Arr(o.arr.buf, (o.arr.size(),), o.arr.dtype), f, o.arr.size(), "index")
        return o.arr.read(A.flat_to_idx(f, o.arr.shape))
    if isinstance(o, Obj):
        m = o.cls.find("__getitem__")
        if m is not NOTHING:
            return ip.call(m, [o, k], {})
        if "__tuple__" in o.d:
            return o.d["__tuple__"][k]
        err(TypeError(f"{o.cls.name!r} object is not subscriptable"))
    if isinstance(o, Cls):
        if o.enum:
            v = o.find(k)
            if v is NOTHING:
                err(KeyError(k))
            return v
        return o
    if isinstance(o, LibObj) and o.name == "flags" and isinstance(k, str):
        f = {"C": "c_contiguous", "CONTIGUOUS": "c_contiguous", "F": "f_contiguous", "W": "writeable", "O": "owndata", "A": "aligned"}.get(k, k.lower())
        if f not in o.attrs:
            err(KeyError("Unknown flag"))
        return o.attrs[f]
    if isinstance(o, (type, LibObj, TypeObj)):
        return o
    k = scalar(k) if not isinstance(k, slice) else k
    if isinstance(o, dict):
        if isinstance(k, E):
            for q in o:
                if is_scalar(q) and ip.truth(T.eq(k, q)):
                    return o[q]
            err(KeyError(k))
        try:
            if k in o:
                return o[k]
        except TypeError as e:
            err(e)
        if hasattr(o, "default_factory"):
            o[k] = ip.call(o.default_factory, [], {})
            return o[k]
        err(KeyError(k))
    if isinstance(o, ABytes):
        if isinstance(k, slice):
            if k.step not in (None, 1):
                raise Unresolved("byte slice with a step")
            return B.slice_(o, k.start, k.stop)
        return B.byte_at(o, k)
    if isinstance(o, SRange):
        if isinstance(k, slice):
            raise Unresolved("slice of a range")
        if not isinstance(k, E) and k < 0:
            return T.add(o.hi, T.mul(o.step, k)) if o.step == 1 else _bad("negative range index")
        return T.add(o.lo, T.mul(o.step, k))
    if isinstance(o, (bytes, bytearray, memoryview)) and isinstance(k, slice) and any(isinstance(x, E) for x in (k.start, k.stop)):
        return B.slice_(ABytes([bytes(o)]), k.start, k.stop)
    if isinstance(o, (list, tuple, str, bytes, bytearray)):
        if isinstance(k, E):
            kk = T.rng(k)
            if kk[0] >= 0 and kk[1] < len(o) or True:
                for q in range(len(o)):
                    if ctx().known(T.eq(k, q)) is True:
                        return o[q]
                if o and all(is_scalar(x) for x in o) and not isinstance(o, (str, bytes)):
                    out = o[-1]
                    for q in range(len(o) - 2, -1, -1):
                        out = T.ite(T.eq(k, q), o[q], out)
                    return out
            raise Unresolved("symbolic index into a sequence")
        if isinstance(k, slice) and any(isinstance(x, E) for x in (k.start, k.stop, k.step)):
            if isinstance(o, str):
                return o
            raise Unresolved("symbolic slice of a sequence")
        try:
            return o[k]
        except (TypeError, IndexError, KeyError) as e:
            err(e)
    if hasattr(o, "__next__"):
        err(TypeError("object is not subscriptable"))
    if o is None:
        err(TypeError("'NoneType' object is not subscriptable"))
    if is_scalar(o):
        if k is None or k is Ellipsis or k == ():
            return o
        err(TypeError("scalar is not subscriptable"))
    raise TypeError(f"subscript of {o!r}")


def _bad(why):
    raise Unresolved(why)


def arr_getitem(ip, o, k):
    if isinstance(k, tuple):
        k = tuple(_key(x) if not isinstance(x, slice) else x for x in k)
    else:
        k = _key(k)
    if isinstance(k, str):
        raise Unresolved("structured array field")
    n = len([x for x in (k if isinstance(k, tuple) else (k,)) if x is not None and x is not Ellipsis])
    if n > o.ndim and not any(isinstance(x, Arr) for x in (k if isinstance(k, tuple) else (k,))):
        err(IndexError("too many indices for array"))
    r = A.getitem(o, k)
    if o.lib == "torch" and ctx().grads and tracked(o):
        if ctx().nograd:
            untrack(r, (o,))
        else:
            track(r)
            if isinstance(r, Arr) and r.buf is o.buf and o.attrs.get("leaf"):
                r.attrs["leaf"] = True
    raw = o.attrs.get("raw")
    if raw is not None and isinstance(r, Arr) and isinstance(k, slice) and k.step in (None, 1):
        r.attrs["raw"] = B.slice_(raw, k.start, k.stop)
    return r


def setitem(ip, o, k, v):
    if isinstance(o, Unk):
        poison(v)
        return
    if isinstance(o, Arr):
        if isinstance(k, tuple):
            k = tuple(_key(x) if not isinstance(x, slice) else x for x in k)
        else:
            k = _key(k)
        if isinstance(k, Unk) or isinstance(k, tuple) and any(isinstance(x, Unk) for x in k):
            o.buf.poison = "store at an unknown index"
            return
        if isinstance(v, Unk):
            v = T.unk(v.why)
        if isinstance(v, (list, tuple)):
            v = toarr(v, o.lib)
        if not (isinstance(v, Arr) or is_scalar(v)):
            raise TypeError(f"stored value {v!r}")
        o.attrs.pop("raw", None)
        in_place(o, v)
        A.setitem(o, k, v)
        return
    if isinstance(o, FlatView):
        f = scalar(k)
        if isinstance(f, slice):
            A.setitem(ravel(o.arr), f, v)
            return
        ctx().access(Arr(o.arr.buf, (o.arr.size(),), o.arr.dtype), f, o.arr.size(), "store")
        o.arr.write_cell(A.flat_to_idx(f, o.arr.shape), scalar(v))
        return
    if isinstance(o, Obj):
        m = o.cls.find("__setitem__")
        if m is not NOTHING:
            ip.call(m, [o, k, v], {})
            return
        err(TypeError("object does not support item assignment"))
    k = scalar(k) if not isinstance(k, slice) else k
    if isinstance(o, (dict, list, bytearray)):
        _mutable(o)
        if isinstance(k, E):
            raise Unresolved("store under a symbolic key")
        ctx().events.append(("setitem", o, k, v, ctx().loc()))
        if ctx().watch is not None:
            ctx().watch.mutated("setitem", o, k, v)
        try:
            o[k] = v if not isinstance(v, LazyGen) else v.items()
        except TypeError as e:
            err(e)
        return
    err(TypeError(f"{type(o).__name__!r} object does not support item assignment"))


def delitem(ip, o, k):
    if isinstance(o, (dict, list)):
        _mutable(o)
        ctx().events.append(("delitem", o, k, None, ctx().loc()))
        if ctx().watch is not None:
            ctx().watch.mutated("delitem", o, k, None)
        try:
            del o[k]
        except (KeyError, IndexError) as e:
            err(e)
        return
    raise Unresolved("del")


def by_index(ip, f, v):
    """the sequence protocol: v[0], v[1], ... until IndexError"""
    for k in range(5000):
        try:
            x = ip.call(f, [v, k], {})
        except Raised as e:
            nm = e.exc.cls.name if isinstance(e.exc, Obj) else type(e.exc).__name__
            if nm in ("IndexError", "StopIteration"):
                return
            raise
        yield x
    raise Unresolved("unbounded iteration by index")


def iterate(ip, v):
    if isinstance(v, LazyGen):
        return iter(v.items())
    if isinstance(v, SRange):
        if not v.concrete():
            n = v.length()
            if not isinstance(n, E) and n <= 4096:
                return iter(range(v.lo, v.hi, v.step))
            raise Unresolved("iteration over a symbolic range")
        return iter(range(v.lo, v.hi, v.step))
    if isinstance(v, Arr):
        n = v.shape[0] if v.ndim else err(TypeError("iteration over a 0-d array"))
        if isinstance(n, E):
            raise Unresolved("iteration over an array of symbolic length")
        if n > 4096:
            raise Unresolved("iteration over a long array")
        return iter([A.getitem(v, k) for k in range(n)])
    if isinstance(v, SymSeq):
        raise Unresolved("iteration over a sequence of symbolic length")
    if isinstance(v, Unk):
        raise Unresolved("iteration over " + v.why)
    if isinstance(v, Cls) and v.enum:
        return iter(list(v.members))
    if isinstance(v, Obj):
        if "__tuple__" in v.d:
            return iter(v.d["__tuple__"])
        f = v.cls.find("__iter__")
        if f is not NOTHING:
            return iterate(ip, ip.call(f, [v], {}))
        f = v.cls.find("__getitem__")
        if f is not NOTHING:
            return by_index(ip, f, v)
        err(TypeError(f"{v.cls.name!r} object is not iterable"))
    if isinstance(v, FileObj):
        return v.lines()
    if isinstance(v, ABytes):
        raise Unresolved("iteration over bytes")
    if isinstance(v, E):
        err(TypeError("number is not iterable"))
    if hasattr(v, "__iter__") and not isinstance(v, type):
        return iter(v)
    if isinstance(v, AZip):
        return iter(v.names())
    err(TypeError(f"{type(v).__name__!r} object is not iterable"))


# ------------------------------------------------------------------ strings
_TOK = re.compile("\x01(\\d+)\x02")


def str_of(x):
    if isinstance(x, str):
        return x
    if isinstance(x, E):
        return ctx().token(x)
    if isinstance(x, APath):
        return x.s
    if isinstance(x, Obj):
        if x.cls.enum:
            if str in x.cls.bases:
                return str(x.d["value"])
            return f"{x.cls.name}.{x.d['name']}"
        f = x.cls.find("__str__")
        if f is NOTHING:
            f = x.cls.find("__repr__")
        if f is not NOTHING:
            return IP.call(f, [x], {})
        return f"<{x.cls.name}>"
    if isinstance(x, Arr):
        return "<array>"
    if isinstance(x, (tuple, list)):
        o, c = ("(", ")") if isinstance(x, tuple) else ("[", "]")
        return o + ", ".join(repr_of(v) for v in x) + (",)" if isinstance(x, tuple) and len(x) == 1 else c)
    if isinstance(x, dict):
        return "{" + ", ".join(f"{repr_of(k)}: {repr_of(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (DT, Unk, ABytes, Cls, Fn, Builtin, TypeObj, LibObj)):
        return repr(x)
    if isinstance(x, Device):
        return x.type if x.index is None else f"{x.type}:{x.index}"
    return str(x)


def repr_of(x):
    if isinstance(x, str):
        return repr(x) if "\x01" not in x else f"'{x}'"
    if isinstance(x, (E, Obj, APath, Arr, tuple, list, dict, DT, Device)):
        return str_of(x)
    return repr(x)


def fmt(ip, x, spec, conv=-1):
    if conv == 114:
        x = repr_of(x)
    elif conv in (115, 97):
        x = str_of(x)
    if isinstance(x, (int, float, str)) and not isinstance(x, E):
        if isinstance(x, str) and "\x01" in x:
            return x
        try:
            return format(x, spec)
        except ValueError as e:
            err(e)
    return str_of(x)


def parse_int(s):
    if isinstance(s, str):
        m = _TOK.fullmatch(s.strip())
        if m:
            return ctx().tokens[m.group(0)]
        if "\x01" in s:
            raise Unresolved("number with a symbolic part")
        try:
            return int(s)
        except ValueError as e:
            err(e)
    if isinstance(s, bytes):
        return parse_int(s.decode("latin-1"))
    return NOTHING


# ------------------------------------------------------------------ python types
def conv_int(x=0, base=10):
    x = scalar(x)
    if isinstance(x, (str, bytes)):
        if base != 10:
            return int(x, base)
        return parse_int(x)
    if isinstance(x, E):
        if T.isint(x):
            return T._b2i(x)
        return T.cast("int64", x)
    if isinstance(x, (int, float)):
        try:
            return int(x)
        except (ValueError, OverflowError) as e:
            err(e)
    if isinstance(x, Unk):
        return x
    if isinstance(x, Obj) and x.cls.enum:
        return x.d["value"]
    err(TypeError(f"int() argument must be a string or a number, not {type(x).__name__!r}"))


def conv_float(x=0.0):
    x = scalar(x)
    if isinstance(x, str):
        if _TOK.fullmatch(x.strip()):
            return T.cast("float64", parse_int(x))
        return float(x)
    if isinstance(x, E):
        return T.cast("float64", x)
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, Unk):
        return x
    err(TypeError("float() argument must be a string or a number"))


def conv_bool(x=False):
    return IP.cond(x)


def conv_bytes(x=b"", *a):
    if isinstance(x, str):
        return x.encode(*a)
    if isinstance(x, (bytes, bytearray, memoryview)):
        return bytes(x)
    if isinstance(x, ABytes):
        return x
    if isinstance(x, Arr):
        return B.of_array(x)
    if isinstance(x, int):
        return bytes(x)
    if isinstance(x, list) and all(isinstance(v, int) for v in x):
        return bytes(x)
    raise Unresolved("bytes()")


def conv_dict(*a, **k):
    if a and isinstance(a[0], dict):
        return {**a[0], **k}
    if a:
        d = {}
        for p in iterate(IP, a[0]):
            x, y = iterate(IP, p)
            d[x] = y
        return {**d, **k}
    return dict(**k)


def conv_type(x, *a):
    if a:
        raise Unresolved("dynamic class")
    if isinstance(x, Obj):
        return x.cls
    if isinstance(x, Arr):
        return NDARRAY if x.lib == "np" else TENSOR
    if isinstance(x, E):
        return {"i": int, "f": float, "b": bool}[x.kind]
    if isinstance(x, ABytes):
        return bytes
    if isinstance(x, Unk):
        return x
    if isinstance(x, BaseException):
        return LibObj(type(x).__name__, __name__=type(x).__name__)
    return type(x)


PYTYPES = {
    int: conv_int, float: conv_float, bool: conv_bool, str: lambda x="", *a, **k: _str(x, *a, **k), bytes: conv_bytes, dict: conv_dict,
    list: lambda x=(): list(iterate(IP, x)), tuple: lambda x=(): tuple(iterate(IP, x)), set: lambda x=(): set(iterate(IP, x)),
    frozenset: lambda x=(): frozenset(iterate(IP, x)), type: conv_type, object: lambda: LibObj("object"),
    slice: lambda *a: slice(*[scalar(x) for x in a]), bytearray: lambda x=b"": x if isinstance(x, ABytes) else bytearray(x),
    memoryview: lambda x: x if isinstance(x, (Arr, ABytes)) else bytes(x),
}


def _str(x="", enc=None, errors="strict", **k):
    if isinstance(x, (bytes, bytearray)) and enc:
        return x.decode(enc, errors)
    return str_of(x)


def _istype(t):
    return isinstance(t, (type, Cls, TypeObj, DT, LibObj)) or t is None or isinstance(t, tuple)


def _tl(t):
    return t if isinstance(t, tuple) else (t,)


def isinstance_(x, t):
    if isinstance(x, Unk):
        raise Unresolved("type of " + x.why)
    if isinstance(t, tuple):
        r = False
        for q in t:
            if isinstance_(x, q):
                return True
        return r
    if isinstance(t, Unk):
        raise Unresolved("isinstance against " + t.why)
    if t is None:
        return x is None
    if isinstance(t, Cls):
        return isinstance(x, Obj) and t in x.cls.mro()
    if isinstance(t, TypeObj):
        return t.pred(x)
    if isinstance(t, DT):
        if t.name == "bool" and (T.num(x) or isinstance(x, E) and x.kind != "b"):
            return False
        if isinstance(x, E) or isinstance(x, (int, float)):
            raise Unresolved("scalar type test")
        return False
    if isinstance(t, LibObj):
        n = t.name.rpartition(".")[2]
        if n in ("Iterable", "Sequence", "Collection"):
            return isinstance(x, (list, tuple, Arr, str, bytes)) or n == "Iterable" and isinstance(x, (dict, set, LazyGen))
        if n in ("Mapping", "MutableMapping"):
            return isinstance(x, dict)
        if n in ("Integral", "Number", "Real"):
            return is_scalar(x) and (n != "Integral" or T.isint(x))
        if n == "Callable":
            return isinstance(x, (Fn, Bound, Builtin, Cls))
        raise Unresolved("isinstance against " + t.name)
    if isinstance(t, type):
        if isinstance(x, E):
            if t is bool:
                return x.kind == "b"
            if t is int:
                return x.kind in "ib"
            if t is float:
                return x.kind == "f"
            return t is object
        if isinstance(x, ABytes):
            return t in (bytes, object)
        if isinstance(x, Obj):
            if t is object:
                return True
            for c in x.cls.mro():
                if t in c.bases:
                    return True
            return False
        if isinstance(x, Arr) and getattr(x, "aslist", False):
            return t in (list, object)
        if isinstance(x, (Arr, APath, FileObj, Cls, Fn)):
            return t is object or (t is type and isinstance(x, Cls))
        if isinstance(x, SRange):
            return t is range
        if isinstance(x, (DT, TypeObj)):
            return t in (object,)
        return isinstance(x, t)
    raise Unresolved(f"isinstance against {t!r}")


def len_(x):
    if isinstance(x, Arr):
        if not x.ndim:
            err(TypeError("len() of unsized object"))
        return x.shape[0]
    if isinstance(x, ABytes):
        return x.length()
    if isinstance(x, Obj):
        if "__tuple__" in x.d:
            return len(x.d["__tuple__"])
        f = x.cls.find("__len__")
        if f is NOTHING:
            err(TypeError(f"object of type {x.cls.name!r} has no len()"))
        return IP.call(f, [x], {})
    if isinstance(x, Cls) and x.enum:
        return len(x.members)
    if isinstance(x, SRange):
        return x.length()
    if isinstance(x, Unk):
        return T.unk(x.why)
    if isinstance(x, (E, int, float)) or x is None:
        err(TypeError("object has no len()"))
    if isinstance(x, str) and "\x01" in x:
        return len(_TOK.sub("000", x))
    if hasattr(x, "__len__"):
        return len(x)
    raise TypeError(f"len of {x!r}")


def range_(*a, par=False):
    a = [scalar(x) for x in a]
    if any(isinstance(x, float) or (isinstance(x, E) and x.kind == "f" and x.op != "unk") for x in a):
        err(TypeError("'float' object cannot be interpreted as an integer"))
    if len(a) == 1:
        return SRange(0, a[0], 1, par)
    if len(a) == 2:
        return SRange(a[0], a[1], 1, par)
    return SRange(a[0], a[1], a[2], par)


def minmax(op):
    def f(*a, key=None, default=NOTHING):
        if len(a) == 1:
            if isinstance(a[0], Arr):
                return reduce(a[0], op)
            a = list(iterate(IP, a[0]))
        if not a:
            if default is not NOTHING:
                return default
            err(ValueError(f"{op}() arg is an empty sequence"))
        if key is not None:
            if any(isinstance(x, E) for x in a):
                raise Unresolved("min/max with a key")
            return (min if op == "min" else max)(a, key=lambda x: IP.call(key, [x], {}))
        a = [scalar(x) for x in a]
        if not any(isinstance(x, E) for x in a):
            return (min if op == "min" else max)(a)
        out = a[0]
        for x in a[1:]:
            out = (T.mn if op == "min" else T.mx)(out, x)
        return out

    return f


def sum_(it, start=0):
    if isinstance(it, Arr):
        return reduce(it, "+")
    out = start
    for x in iterate(IP, it):
        out = binop(IP, "Add", out, x)
    return out


def anyall(isany):
    def f(it):
        acc = None
        if isinstance(it, Arr):
            return reduce(it, "or" if isany else "and")
        for x in iterate(IP, it):
            c = IP.cond(x)
            if isinstance(c, E):
                k = ctx().known(c)
                c = c if k is None else k
            if not isinstance(c, E):
                if c == isany:
                    return isany
                continue
            acc = c if acc is None else (T.or_ if isany else T.and_)(acc, c)
        return acc if acc is not None else (not isany)

    return f


def abs_(x):
    if isinstance(x, Arr):
        return ew("arith", lambda v: T.fn1("abs", v), x)
    if isinstance(x, E):
        return T.fn1("abs", x)
    if isinstance(x, Unk):
        return x
    return abs(x)


def round_(x, nd=None):
    x = scalar(x)
    if isinstance(x, E):
        return T.cast("int64", T.fn1("round", x)) if nd is None else T.unk("round")
    if isinstance(x, Arr):
        return ew("arith", lambda v: T.fn1("round", v), x)
    return round(x, nd) if nd is not None else round(x)


def hasattr_(o, n):
    try:
        v = IP.getattr(o, n)
    except Raised as r:
        if isinstance(r.exc, AttributeError):
            return False
        raise
    if isinstance(v, Unk) and isinstance(o, Unk):
        raise Unresolved("hasattr of " + o.why)
    return True


def getattr__(o, n, *d):
    try:
        return IP.getattr(o, n)
    except Raised as r:
        if d and isinstance(r.exc, AttributeError):
            return d[0]
        raise


def sorted_(it, key=None, reverse=False):
    items = list(iterate(IP, it))
    ks = [IP.call(key, [x], {}) if key is not None else x for x in items]
    if any(isinstance(k, (E, Arr)) or isinstance(k, tuple) and any(isinstance(q, E) for q in k) for k in ks):
        raise Unresolved("sorting of symbolic values")
    order = sorted(range(len(items)), key=lambda j: ks[j], reverse=reverse)
    return [items[j] for j in order]


def enumerate_(it, start=0):
    q = _sym(it)
    if isinstance(q, SymSeq):
        return SymSeq(q.hi, lambda k: (T.add(start, k), q.item(k)))
    return ((k, v) for k, v in enumerate(list(iterate(IP, it)), start))


def next_(it, *d):
    if isinstance(it, LazyGen):
        # consume lazily produced items one by one
        if not hasattr(it, "pos"):
            it.pos = iter(list(it.items()))
        it = it.pos
    if isinstance(it, FileObj):
        l = it.readline()
        if B.is_empty(l):
            if d:
                return d[0]
            err(StopIteration())
        return l
    try:
        return next(it)
    except StopIteration as e:
        if d:
            return d[0]
        err(e)


def divmod_(a, b):
    return binop(IP, "FloorDiv", a, b), binop(IP, "Mod", a, b)


def zip_(*its, strict=False):
    qs = [_sym(i) for i in its]
    if any(isinstance(q, SymSeq) for q in qs) and all(isinstance(q, (SymSeq, Arr)) for q in qs):
        n, same_ = None, True
        for q in qs:
            d = q.hi if isinstance(q, SymSeq) else q.shape[0]
            same_ = same_ and (n is None or A.dim_eq(n, d) is True)
            n = d if n is None else T.mn(n, d) if A.dim_eq(n, d) is not True else n
        if strict and not same_:
            raise Unresolved("strict zip of symbolic lengths")
        return SymSeq(n, lambda k: tuple(q.item(k) if isinstance(q, SymSeq) else getitem(IP, q, k) for q in qs))
    ls = [list(iterate(IP, i)) for i in its]
    if strict and len({len(x) for x in ls}) > 1:
        err(ValueError("zip() arguments have different lengths"))
    return iter(list(zip(*ls)))


def open_(p, mode="r", *a, **k):
    return B.open_file(ctx(), path_str(p), mode)


def path_str(p):
    if isinstance(p, APath):
        return p.s
    if isinstance(p, str):
        return p
    if isinstance(p, Unk):
        raise Unresolved("path of " + p.why)
    err(TypeError(f"expected str or path-like object, not {type(p).__name__}"))


def isubclass(a, b):
    if isinstance(a, Cls):
        return any((b_ in a.mro()) for b_ in _tl(b))
    if isinstance(a, type):
        return issubclass(a, tuple(x for x in _tl(b) if isinstance(x, type)))
    raise Unresolved("issubclass")


def setattr__(o, n, v):
    IP.setattr(o, n, v)


def id_(o):
    if isinstance(o, Arr):
        return T.sym(f"id(buffer {o.buf.id})", "i", 1)
    return id(o)


def reversed_(x):
    return iter(list(iterate(IP, x))[::-1])


def filter_(f, it):
    return iter([x for x in iterate(IP, it) if IP.truth(x if f is None else IP.call(f, [x], {}))])


def map_(f, *its):
    ls = [list(iterate(IP, i)) for i in its]
    return iter([IP.call(f, list(t), {}) for t in zip(*ls)])


def callable_(x):
    return isinstance(x, (Fn, Bound, Builtin, Cls, type, TypeObj, DT))


def vars_(o):
    if isinstance(o, (Obj,)):
        return o.d
    if isinstance(o, Mod):
        return o.g
    raise Unresolved("vars()")


BUILTINS = {}
for _n, _f in {
    "len": len_, "range": range_, "isinstance": isinstance_, "issubclass": isubclass, "hasattr": hasattr_, "getattr": getattr__,
    "setattr": setattr__, "callable": callable_, "enumerate": enumerate_, "zip": zip_, "min": minmax("min"), "max": minmax("max"),
    "sum": sum_, "abs": abs_, "round": round_, "any": anyall(True), "all": anyall(False), "sorted": sorted_, "reversed": reversed_,
    "print": lambda *a, **k: None, "open": open_, "iter": lambda x: next_iter(x), "next": next_, "map": map_, "filter": filter_,
    "repr": lambda x: repr_of(x), "id": id_, "divmod": divmod_, "pow": lambda a, b: binop(IP, "Pow", a, b), "vars": vars_,
    "ord": ord, "chr": chr, "hash": lambda x: hash(x), "format": lambda x, s="": fmt(IP, x, s), "delattr": lambda o, n: o.d.pop(n, None),
    "property": lambda f=None, fset=None, *a: Prop(f, fset), "classmethod": lambda f: ClsMethod(f), "staticmethod": lambda f: StatMethod(f),
    "bin": bin, "hex": hex, "globals": lambda: _bad("globals()"), "locals": lambda: _bad("locals()"),
}.items():
    BUILTINS[_n] = Builtin(_n, _f)
for _t in PYTYPES:
    BUILTINS[_t.__name__] = _t
for _n in dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__:
    _v = (__builtins__ if isinstance(__builtins__, dict) else vars(__builtins__))[_n]
    if isinstance(_v, type) and issubclass(_v, BaseException):
        BUILTINS[_n] = _v
BUILTINS.update(NotImplemented=NotImplemented, Ellipsis=Ellipsis)
BUILTINS["__debug__"] = True


def next_iter(x):
    return iterate(IP, x)


# ------------------------------------------------------------------ devices
class Device:
    def __init__(self, type, index=None):
        self.type, self.index = type, index

    def __eq__(self, o):
        return isinstance(o, Device) and o.type == self.type

    def __hash__(self):
        return hash(self.type)


def dev(d):
    if d is None:
        return None
    if isinstance(d, Device):
        return d.type
    if isinstance(d, str):
        return d.split(":")[0]
    if isinstance(d, int):
        return "cuda"
    if isinstance(d, Unk):
        raise Unresolved("device " + d.why)
    raise TypeError("device")


# ------------------------------------------------------------------ array functions
def _ax(axis, dim):
    return axis if axis is not None else dim


def reduce(a, op, axis=None, dim=None, keepdims=False, keepdim=False, out=None, dtype=None, initial=None, where=None):
    ax = _ax(axis, dim)
    kd = keepdims or keepdim
    a = toarr(a)
    if isinstance(ax, (tuple, list)):
        axs = sorted((x % a.ndim for x in ax), reverse=True)
        r = a
        for x in axs:
            r = A.reduce_axis(r, op, x, kd)
        return r
    ax = scalar(ax) if ax is not None else None
    if op in ("min", "max", "argmin", "argmax") :
        n = a.size() if ax is None else a.shape[ax]
        z = T.eq(n, 0)
        if z is True or (isinstance(z, E) and ctx().known(z) is True):
            err(ValueError("zero-size array to reduction operation which has no identity"))
    r = A.reduce_axis(a, op, ax, kd)
    if isinstance(r, Arr):
        if r.ndim == 0 and a.lib == "np":
            return r.read(())
        r.device = a.device
        return r
    if a.lib == "torch":
        dt = {"and": "bool", "or": "bool", "argmin": "int64", "argmax": "int64"}.get(op, a.dtype)
        if op in ("+", "*") and not is_float(dt):
            dt = "int64"
        v = r
        return A.fresh_array((), dt, lambda idx: v, "reduction", "torch", device=a.device)
    return r


def _n_of(a, ax):
    if ax is None:
        return a.size()
    if isinstance(ax, (tuple, list)):
        n = 1
        for x in ax:
            n = T.mul(n, a.shape[x])
        return n
    return a.shape[ax]


def mean(a, axis=None, dim=None, keepdims=False, keepdim=False, **k):
    a = toarr(a)
    n = _n_of(a, _ax(axis, dim))
    s = reduce(a, "+", axis, dim, keepdims, keepdim)
    return ew("div", T.div, s, n)


def norm(a, p=None, axis=None, dim=None, keepdims=False, keepdim=False, ord=None, **k):
    if isinstance(p, (tuple, list)) or (p is not None and p not in (2, "fro", 2.0)):
        raise Unresolved("norm order")
    if ord not in (None, 2):
        raise Unresolved("norm order")
    sq = ew("arith", lambda x: T.mul(x, x), a)
    return ew("float", lambda x: T.fn1("sqrt", x), reduce(sq, "+", axis, dim, keepdims, keepdim))


def minmax_method(op):
    def f(a, axis=None, other=None, dim=None, keepdims=False, keepdim=False, **k):
        d = _ax(axis, dim)
        if a.lib == "torch" and isinstance(d, Arr):
            return ew("arith", T.mn if op == "min" else T.mx, a, d)
        if other is not None:
            return ew("arith", T.mn if op == "min" else T.mx, a, other)
        r = reduce(a, op, d, None, keepdims, keepdim)
        if a.lib == "torch" and d is not None:
            ind = reduce(a, "arg" + op, d, None, keepdims, keepdim)
            return named(values=r, indices=ind)
        return r

    return f


def named(**kw):
    o = Obj(Cls("namedtuple", [], {}))
    o.d.update(kw)
    o.d["__tuple__"] = tuple(kw.values())
    return o


def astype(a, dtype, order="K", casting=None, subok=True, copy=True):
    dt = dtn(dtype)
    if dt == a.dtype and copy is False:
        return a
    r = A.copy(a, dt)
    if order == "K" and a.contig is not True:
        r.contig = a.contig if a.ndim > 1 else True
    return r


def contiguous(a, dtype=None):
    a = toarr(a)
    if dtype is not None and dtn(dtype) != a.dtype:
        return A.copy(a, dtn(dtype))
    if a.contig is True:
        return a
    if isinstance(a.contig, E):
        if ctx().decide(a.contig):
            return a
    if a.ndim == 1 and isinstance(a.contig, bool) and not a.contig:
        pass
    return A.copy(a)


def np_array(x, dtype=None, copy=True, ndmin=0, order=None, **k):
    dt = dtn(dtype) if dtype is not None else None
    if isinstance(x, Arr):
        if copy is False or copy is None:
            return np_asarray(x, dtype)
        r = A.copy(x, dt, "np", "cpu")
        if order not in ("C",) and x.contig is not True and x.ndim > 1:
            r.contig = x.contig
        return r
    if isinstance(x, ABytes):
        raise Unresolved("array of bytes")
    r = toarr(x, "np", dt)
    return r if dt is None or r.dtype == dt else A.copy(r, dt)


def np_asarray(x, dtype=None, order=None, copy=None, **k):
    dt = dtn(dtype) if dtype is not None else None
    if isinstance(x, Arr):
        if x.lib == "torch":
            x = x.relib("np")
        if dt is None or dt == x.dtype:
            if order == "C":
                return contiguous(x)
            return x
        return A.copy(x, dt)
    return np_array(x, dtype)


def shp(s):
    if isinstance(s, Obj) and "__tuple__" in s.d:
        s = s.d["__tuple__"]
    if isinstance(s, Arr) and s.ndim == 1:
        s = [A.getitem(s, k) for k in range(s.shape[0])]
    if isinstance(s, (tuple, list)):
        return tuple(scalar(x) for x in s)
    return (scalar(s),)


def _tsize(size):
    if len(size) == 1 and isinstance(size[0], (tuple, list, Obj)):
        return shp(size[0])
    return tuple(scalar(x) for x in size)


def neg_dims(s):
    for d in s:
        if not isinstance(d, E):
            if isinstance(d, float):
                err(TypeError("'float' object cannot be interpreted as an integer"))
            if d < 0:
                err(ValueError("negative dimensions are not allowed"))
    return s


def maker(kind, lib):
    fl = "float64" if lib == "np" else "float32"

    def build(shape, dt, device, val=None):
        shape = neg_dims(shape)
        if kind == "empty":
            return A.empty(shape, dt, lib, device)
        v = {"zeros": 0, "ones": 1}.get(kind, val)
        return A.full(shape, dt, v, lib, device, kind)

    def f_np(shape=None, dtype=None, order="C", **k):
        return build(shp(shape), dtn(dtype) or fl, "cpu")

    def f_torch(*size, dtype=None, device=None, requires_grad=False, out=None, layout=None, pin_memory=False, **k):
        if "size" in k:
            size = (k["size"],)
        return build(_tsize(size), dtn(dtype, "torch") or fl, dev(device) or "cpu")

    def f_full(shape, fill_value, dtype=None, order="C", device=None, **k):
        v = scalar(fill_value)
        dt = dtn(dtype, lib) or ({"b": "bool", "i": "int64", "f": fl}[T.kind(v)] if not isinstance(v, Arr) else v.dtype)
        r = build(shp(shape), dt, dev(device) or "cpu", v if not isinstance(v, Arr) else 0)
        if isinstance(v, Arr):
            A.assign(r, v)
        return r

    def f_like(a, *fv, dtype=None, shape=None, device=None, order=None, subok=None, requires_grad=False, fill_value=None, memory_format=None):
        a = toarr(a)
        if kind == "full":
            v = fv[0] if fv else fill_value
        else:
            v = None
        dt = dtn(dtype, lib) or a.dtype
        r = build(a.shape if shape is None else shp(shape), dt, dev(device) or a.device, scalar(v) if v is not None else None)
        r.lib = a.lib if lib == "np" and a.lib == "np" else lib
        if a.contig is not True and a.ndim > 1 and lib == "np":
            r.contig = a.contig
        return r

    return (f_full if kind == "full" else f_np if lib == "np" else f_torch), f_like


def arange_(lib, a, b=None, step=1, dtype=None, device=None, **k):
    lo, hi = (0, a) if b is None else (a, b)
    lo, hi, step = scalar(lo), scalar(hi), scalar(step)
    if not all(T.isint(x) for x in (lo, hi, step)):
        raise Unresolved("arange of floats")
    n = SRange(lo, hi, step).length()
    dt = dtn(dtype, lib) or "int64"
    return A.fresh_array((n,), dt, lambda idx: A.coerce(dt, T.add(lo, T.mul(step, idx[0]))), "arange", lib, device=dev(device) or "cpu")


def concat(arrs, axis=0, dim=None, out=None, dtype=None, casting=None):
    ax = dim if dim is not None else axis
    arrs = [toarr(x) for x in iterate(IP, arrs)]
    if not arrs:
        err(ValueError("need at least one array to concatenate"))
    if ax is None:
        arrs = [ravel(x) for x in arrs]
        ax = 0
    if arrs[0].lib == "torch":
        # legacy: empty 1-d tensors are skipped
        pass
    same_device(arrs)
    r = A.concat(arrs, scalar(ax))
    r.device = arrs[0].device
    if any(a.attrs.get("requires_grad") for a in arrs):
        r.attrs["requires_grad"] = True
    if out is not None:
        assign_into(out, r)
        return out
    return r if dtype is None or dtn(dtype) == r.dtype else A.copy(r, dtn(dtype))


def stack(arrs, axis=0, dim=None, out=None, dtype=None):
    arrs = [toarr(x, _lib(arrs if isinstance(arrs, (list, tuple)) else [])) for x in iterate(IP, arrs)]
    if not arrs:
        err(ValueError("need at least one array to stack"))
    same_device(arrs)
    r = A.stack(arrs, scalar(dim if dim is not None else axis))
    r.device = arrs[0].device
    if out is not None:
        assign_into(out, r)
        return out
    return r


def at1(x):
    x = toarr(x)
    return A.newaxis(x, 0) if x.ndim == 0 else x


def hstack(arrs, **k):
    arrs = [at1(x) for x in iterate(IP, arrs)]
    return A.concat(arrs, 0 if arrs[0].ndim == 1 else 1)


def vstack(arrs, **k):
    arrs = [toarr(x) for x in iterate(IP, arrs)]
    arrs = [A.newaxis(at1(x), 0) if x.ndim < 2 else x for x in arrs]
    return A.concat(arrs, 0)


def dstack(arrs):
    arrs = [toarr(x) for x in iterate(IP, arrs)]
    out = []
    for x in arrs:
        if x.ndim == 1:
            x = A.newaxis(A.newaxis(x, 0), 2)
        elif x.ndim == 2:
            x = A.newaxis(x, 2)
        out.append(x)
    return A.concat(out, 2)


def column_stack(arrs):
    arrs = [toarr(x) for x in iterate(IP, arrs)]
    arrs = [A.newaxis(x, 1) if x.ndim == 1 else x for x in arrs]
    return A.concat(arrs, 1)


def where(c, a=None, b=None):
    if a is None and b is None:
        return nonzero(c)
    if isinstance(c, (bool, E)) and not isinstance(a, Arr) and not isinstance(b, Arr):
        return T.ite(IP.cond(c), scalar(a), scalar(b))
    lib = _lib([c, a, b])
    dt = rdtype("arith", [x for x in (a, b)], lib) if (isinstance(a, Arr) or isinstance(b, Arr)) else A.infer_dtype(T.ite(T.sym("?c", "b"), a, b), lib)
    return ew("arith", lambda q, x, y: T.ite(q if T.kind(q) == "b" else T.ne(q, 0), x, y), c, a, b, dtype=dt)


def nonzero(m, as_tuple=False):
    m = toarr(m)
    rd = m.snap()
    n = m.size()
    v = T.fresh("sel", "i", 0)
    body = rd(A.flat_to_idx(v, m.shape)) if m.ndim != 1 else rd((v,))
    if T.kind(body) != "b":
        body = T.ne(body, 0)
    c = T.cnt(v, n, body)
    out = []
    for d in range(m.ndim):
        def init(idx, d=d):
            k = T.nth(v, n, body, idx[0])
            return k if m.ndim == 1 else A.flat_to_idx(k, m.shape)[d]

        x = A.fresh_array((c,), "int64", init, "nonzero", m.lib, device=m.device)
        x.attrs["maskof"] = m
        out.append(x)
    return tuple(out)


def tnonzero(m, as_tuple=False):
    r = nonzero(m)
    if as_tuple:
        return r
    return A.stack(list(r), 1)


def flatnonzero(m):
    return nonzero(ravel(m))[0]


def ravel(a, order="C"):
    if order == "F":
        return A.copy(reshape_m(A.transpose(a, tuple(range(a.ndim))[::-1]), -1))
    if order not in ("C", "K", "A"):
        raise Unresolved("ravel order")
    return reshape_m(a, -1)


def reshape_m(a, *s, order="C", copy=None, **k):
    if "shape" in k:
        s = (k["shape"],)
    if order not in ("C", "A"):
        if order == "F":
            return A.transpose(A.reshape(A.transpose(a, tuple(range(a.ndim))[::-1]), tuple(_tsize(s))[::-1]), tuple(range(len(_tsize(s))))[::-1])
        raise Unresolved("reshape order")
    shape = _tsize(s)
    c = a.contig
    if isinstance(c, E):
        kn = ctx().known(c)
        if kn is None and len(shape) != a.ndim:
            kn = ctx().decide(c)
        if kn is not None:
            a = A.Arr(a.buf, a.shape, a.dtype, a.fwd, a.inv, a.lib, kn, a.device)
    r = A.reshape(a, shape)
    r.device = a.device
    if a.attrs.get("raw") is not None:
        r.attrs["raw"] = a.attrs["raw"]
    return r


def tview(a, *s, **k):
    if "dtype" in k:
        s = (k["dtype"],)
    if len(s) == 1 and (isinstance(s[0], (DT, str)) or s[0] in (float, int, bool)):
        return view_dtype(a, dtn(s[0], a.lib))
    if a.lib == "torch":
        if a.contig is False:
            r = A.reshape(a, _tsize(s))
            if r.buf is not a.buf:
                err(RuntimeError("view size is not compatible with input tensor's size and stride"))
            return r
        return A.reshape(a, _tsize(s))
    if not s:
        return A.Arr(a.buf, a.shape, a.dtype, a.fwd, a.inv, a.lib, a.contig, a.device)
    raise Unresolved("view")


def view_dtype(a, dt):
    if dt == a.dtype:
        return A.Arr(a.buf, a.shape, a.dtype, a.fwd, a.inv, a.lib, a.contig, a.device)
    raw = a.attrs.get("raw")
    if raw is not None and a.buf.log:
        raw = None
    if raw is None:
        if ISZ.get(a.dtype) == ISZ.get(dt) and {a.dtype, dt} <= {"uint8", "int8", "uint16", "int16", "uint32", "int32", "int64", "uint64"}:
            rd = a.snap()
            return A.fresh_array(a.shape, dt, lambda idx: A.coerce(dt, rd(idx)), "view", a.lib, device=a.device)
        if a.dtype == "bool" and dt in ("uint8", "int8") or dt == "bool" and a.dtype in ("uint8", "int8"):
            rd = a.snap()
            return A.fresh_array(a.shape, dt, lambda idx: A.coerce(dt, rd(idx)), "view", a.lib, device=a.device)
        raw = B.of_array(a)
        lead = a.shape[:-1]
        x = B.interpret(raw, dt, None, 0)
        x.lib, x.device = a.lib, a.device
        if len(a.shape) > 1:
            last = T.fdiv(T.mul(a.shape[-1], isz(a.dtype)), isz(dt))
            x = A.reshape(x, (*lead, last))
        x.attrs["raw"] = raw
        return x
    if a.ndim != 1:
        raise Unresolved("view of bytes in several dimensions")
    x = B.interpret(raw, dt, None, 0)
    x.lib, x.device = a.lib, a.device
    return x


def transpose_np(a, *axes):
    a = toarr(a)
    if len(axes) == 1 and (isinstance(axes[0], (tuple, list)) or axes[0] is None):
        axes = axes[0] or ()
    if a.lib == "torch" and len(axes) == 2:
        p = list(range(a.ndim))
        i, j = axes[0] % a.ndim, axes[1] % a.ndim
        p[i], p[j] = p[j], p[i]
        return A.transpose(a, tuple(p))
    if not axes:
        axes = tuple(range(a.ndim))[::-1]
    return A.transpose(a, tuple(axes))


def swapaxes(a, i, j):
    p = list(range(a.ndim))
    i, j = i % a.ndim, j % a.ndim
    p[i], p[j] = p[j], p[i]
    return A.transpose(a, tuple(p))


def moveaxis(a, s, d):
    s = [x % a.ndim for x in (s if isinstance(s, (tuple, list)) else (s,))]
    d = [x % a.ndim for x in (d if isinstance(d, (tuple, list)) else (d,))]
    order = [k for k in range(a.ndim) if k not in s]
    for x, y in sorted(zip(d, s)):
        order.insert(x, y)
    return A.transpose(a, tuple(order))


def permute(a, *p):
    return A.transpose(a, _tsize(p))


def expand_dims(a, axis=None, dim=None):
    ax = _ax(axis, dim)
    if isinstance(ax, (tuple, list)):
        for x in sorted(ax):
            a = A.newaxis(a, x)
        return a
    return A.newaxis(toarr(a), scalar(ax))


def squeeze(a, axis=None, dim=None):
    ax = _ax(axis, dim)
    if ax is None:
        return A.squeeze(a)
    if isinstance(ax, (tuple, list)):
        raise Unresolved("squeeze of several axes")
    d = a.shape[ax]
    if isinstance(d, E) or d != 1:
        if a.lib == "torch":
            return a
        if isinstance(d, E):
            raise Unresolved("squeeze of a symbolic axis")
        err(ValueError("cannot select an axis to squeeze out which has size not equal to one"))
    return A.squeeze(a, ax)


def clip(a, lo=None, hi=None, out=None, min=None, max=None, a_min=None, a_max=None, **k):
    lo = next((x for x in (lo, min, a_min) if x is not None), None)
    hi = next((x for x in (hi, max, a_max) if x is not None), None)
    args, ks = [a], []
    if lo is not None:
        args.append(lo)
        ks.append("lo")
    if hi is not None:
        args.append(hi)
        ks.append("hi")

    def f(x, *b):
        for q, v in zip(ks, b):
            x = T.mx(x, v) if q == "lo" else T.mn(x, v)
        return x

    if isinstance(a, (list, tuple)):
        args[0] = toarr(a)
    if isinstance(a, Arr) and not any(isinstance(x, Arr) and x.ndim for x in args[1:]):
        dt = a.dtype
        if not is_float(dt) and any(T.kind(scalar(x)) == "f" for x in args[1:]):
            dt = "float64" if a.lib == "np" else "float32"
        return ew("arith", f, *args, dtype=dt, out=out)
    return ew("arith", f, *args, out=out)


def un(name, kind="float"):
    def f(x, *a, out=None, where=None, dtype=None, **k):
        if isinstance(x, E) or isinstance(x, (int, float)):
            if isinstance(x, E):
                return T.fn1(name, x)
            return T.ev_fn1(name, x)
        return ew(kind, lambda v: T.fn1(name, v), x, out=out if out is not None else (a[0] if a else None))

    return f


def boolfn(name):
    def g(v):
        if not isinstance(v, E):
            if name == "isinf":
                return math.isinf(v)
            return T.ev_fn1(name, v) if T.kind(v) == "f" else name == "isfinite"
        if T.isint(v):
            return name == "isfinite"
        return T._mk(name, (v,), "b")

    def f(x, out=None, where=None):
        return ew("cmp", g, x, out=out)

    return f


OPNAME = {"logical_and": "and", "logical_or": "or", "add": "+", "multiply": "*", "minimum": "min", "maximum": "max", "fmin": "min", "fmax": "max",
          "bitwise_and": "and", "bitwise_or": "or"}


def bi(op, f, kind="arith"):
    from . import lib2

    g = lib2.masked_ufunc(op, kind, lambda a, b: f(a, b))

    def red(a, axis=0, out=None, keepdims=False, **k):
        op2 = OPNAME.get(op)
        if op2 is None or k.get("initial") is not None or k.get("where") is not None:
            raise Unresolved(op + ".reduce")
        r = reduce(toarr(a), op2, axis, None, keepdims)
        if out is not None:
            assign_into(out, r)
            return out
        return r

    o2 = OPNAME.get(op)
    at = {"reduce": red, "at": lib2.add_at(op), "accumulate": lib2.accumulate(op), "outer": lib2.outer_of(g)}
    if o2:
        at["reduceat"] = lib2.reduceat(o2)
    return Builtin(op, g, {k: Builtin(f"{op}.{k}", v) for k, v in at.items()})


def tb(x):
    return x if T.kind(x) == "b" else T.ne(x, 0)


def logit_t(x, eps=None, out=None):
    def f(v):
        if eps is not None:
            v = T.mn(T.mx(v, eps), 1.0 - eps)
        return T.fn1("log", T.div(v, T.sub(1.0, v)))

    return ew("float", f, x, out=out)


def take(a, ind, axis=None, dim=None, out=None, mode=None):
    ax = _ax(axis, dim)
    a = toarr(a)
    if ax is None:
        a, ax = ravel(a), 0
    ind = toarr(ind) if not is_scalar(ind) else ind
    if is_scalar(ind):
        items = [slice(None)] * a.ndim
        items[ax] = ind
        return A.getitem(a, tuple(items))
    return A.take(a, ind, ax % a.ndim)


def index_select(a, dim, index):
    return A.take(a, index, dim % a.ndim)


def compress(c, a, axis=None, out=None):
    c = toarr(c)
    if axis is None:
        a, axis = ravel(a), 0
    return A.compress(c, a, axis % a.ndim)


def masked_select(a, m):
    return A.select_rows(a, m)


def gather(a, dim, index=None, **k):
    dim = dim % a.ndim
    ar, ir = a.snap(), index.snap()
    d = a.shape[dim]

    def init(idx):
        k = A._pos(ir(idx), d)
        if not isinstance(d, E) and d <= 16 and isinstance(k, E):
            out = ar((*idx[:dim], d - 1, *idx[dim + 1:]))
            for q in range(d - 2, -1, -1):
                out = T.ite(T.eq(k, q), ar((*idx[:dim], q, *idx[dim + 1:])), out)
            return out
        return ar((*idx[:dim], k, *idx[dim + 1:]))

    return A.fresh_array(index.shape, a.dtype, init, "gather", a.lib, device=a.device)


def scatter_(a, dim, index, src=None, value=None, **k):
    src = src if src is not None else value
    dim = dim % a.ndim
    n = index.shape[dim]
    if isinstance(n, E) or n > 16:
        raise Unresolved("scatter along a symbolic axis")
    ir = index.snap()
    sr = src.snap() if isinstance(src, Arr) else None
    old = a.snap()

    def f(v):
        out = old(v)
        for q in range(n):
            iv = (*v[:dim], q, *v[dim + 1:])
            val = sr(iv) if sr else src
            out = T.ite(T.eq(ir(iv), v[dim]), A.coerce(a.dtype, val), out)
        return out

    a.write_region(f)
    return a


def repeat(a, reps, axis=None, dim=None, **k):
    a = toarr(a)
    ax = _ax(axis, dim)
    if a.lib == "torch" and False:
        pass
    if isinstance(reps, (list, tuple)) or isinstance(reps, Arr) and reps.ndim:
        from . import lib2

        return lib2.repeat_by(a if ax is not None else ravel(a), reps, ax or 0)
    reps = scalar(reps)
    if ax is None:
        a, ax = ravel(a), 0
    ax = ax % a.ndim
    rd = a.snap()
    shape = list(a.shape)
    shape[ax] = T.mul(shape[ax], reps)
    return A.fresh_array(tuple(shape), a.dtype, lambda idx: rd((*idx[:ax], T.fdiv(idx[ax], reps), *idx[ax + 1:])), "repeat", a.lib, device=a.device)


def tile(a, reps):
    a = toarr(a)
    reps = shp(reps)
    while a.ndim < len(reps):
        a = A.newaxis(a, 0)
    reps = (1,) * (a.ndim - len(reps)) + tuple(reps)
    rd, sh = a.snap(), a.shape
    return A.fresh_array(tuple(T.mul(d, r) for d, r in zip(sh, reps)), a.dtype,
                         lambda idx: rd(tuple(x if (not isinstance(r, E) and r == 1) else T.mod(x, d) for x, d, r in zip(idx, sh, reps))), "tile", a.lib, device=a.device)


def trepeat(a, *reps):
    if len(reps) == 1 and isinstance(reps[0], (tuple, list)):
        reps = reps[0]
    return tile(a, reps)


def split(a, k, axis=0, dim=None):
    ax = (dim if dim is not None else axis) % a.ndim
    n = a.shape[ax]
    if isinstance(k, (list, tuple)):
        if a.lib == "torch":
            cuts = list(itertools.accumulate(k, T.add))[:-1]
        else:
            cuts = list(k)
    else:
        if isinstance(n, E):
            if a.lib == "np" and not isinstance(k, E) and k <= 64:
                if not ctx().decide(T.eq(T.mod(n, k), 0)):
                    err(ValueError("array split does not result in an equal division"))
                from . import lib2

                return lib2._cuts(a, [T.mul(T.fdiv(n, k), j) for j in range(1, k)], ax)
            raise Unresolved("split of a symbolic axis")
        step = k if a.lib == "torch" else n // k
        if a.lib == "np" and n % k:
            err(ValueError("array split does not result in an equal division"))
        cuts = list(range(step, n, step))
    out, prev = [], None
    for c in [*cuts, None]:
        items = [slice(None)] * a.ndim
        items[ax] = slice(prev, c)
        out.append(A.getitem(a, tuple(items)))
        prev = c
    return out if a.lib == "np" else tuple(out)


def unbind(a, dim=0):
    n = a.shape[dim]
    if isinstance(n, E):
        raise Unresolved("unbind of a symbolic axis")
    out = []
    for k in range(n):
        items = [slice(None)] * a.ndim
        items[dim % a.ndim] = k
        out.append(A.getitem(a, tuple(items)))
    return tuple(out)


def broadcast_to(a, shape, **k):
    a = toarr(a)
    s = shp(shape)
    A.check_broadcast(a.shape, s)
    return A.expand(a, s)


def copyto(dst, src, where=None, casting=None):
    if where is not None and where is not True:
        old = dst.snap()
        m = A.bread(toarr(where), dst.shape)
        s = A.bread(src, dst.shape) if isinstance(src, Arr) else (lambda v: src)
        dst.write_region(s, lambda v: m(v))
        return
    A.assign(dst, src)


def flip(a, axis=None, dims=None, dim=None):
    ax = next((x for x in (axis, dims, dim) if x is not None), None)
    axs = range(a.ndim) if ax is None else ([ax] if isinstance(ax, int) else ax)
    items = [slice(None)] * a.ndim
    for x in axs:
        items[x % a.ndim] = slice(None, None, -1)
    return A.getitem(a, tuple(items))


def array_equal(a, b, **k):
    a, b = toarr(a), toarr(b)
    if a.ndim != b.ndim:
        return False
    c = True
    for x, y in zip(a.shape, b.shape):
        c = T.and_(c, T.eq(x, y))
    if c is False:
        return False
    if isinstance(c, E) and not ctx().decide(c):
        return False
    return reduce(ew("cmp", T.eq, a, b), "and")


def allclose(*a, **k):
    return T.fresh("allclose", "b")


def count_nonzero(a, axis=None, dim=None, **k):
    a = toarr(a)
    if a.ndim == 1 and _ax(axis, dim) is None:
        rd = a.snap()
        v = T.fresh("sel", "i", 0)
        b = rd((v,))
        r = T.cnt(v, a.shape[0], tb(b))
        return r if a.lib == "np" else A.fresh_array((), "int64", lambda i: r, "count", "torch")
    return reduce(ew("arith", lambda x: T._b2i(tb(x)) if isinstance(x, E) else int(bool(x)), a, dtype="int64"), "+", axis, dim)


def summ(a, axis=None, dim=None, dtype=None, out=None, keepdims=False, keepdim=False, **k):
    a = toarr(a)
    if a.dtype == "bool" and _ax(axis, dim) is None:
        r = count_nonzero(a)
    else:
        if dtype is not None and is_float(dtn(dtype)) and not is_float(a.dtype):
            a = A.copy(a, dtn(dtype))
        r = reduce(a, "+", axis, dim, keepdims, keepdim)
    if dtype is not None and isinstance(r, Arr) and r.dtype != dtn(dtype):
        r = A.copy(r, dtn(dtype))
    if out is not None:
        assign_into(out, r)
        return out
    return r


def matmul(a, b):
    a, b = toarr(a), toarr(b)
    if a.ndim == 2 and b.ndim in (1, 2) and not isinstance(a.shape[1], E) and a.shape[1] <= 16:
        ar, br = a.snap(), b.snap()
        n = a.shape[1]

        def init(idx):
            out = 0.0
            for k in range(n):
                out = T.add(out, T.mul(ar((idx[0], k)), br((k, *idx[1:]))))
            return out

        return A.fresh_array((a.shape[0], *b.shape[1:]), A.promote(a.dtype, b.dtype), init, "matmul", a.lib)
    raise Unresolved("matrix product")


def fromfile(file, dtype=float, count=-1, sep="", offset=0, **k):
    if sep:
        raise Unresolved("text fromfile")
    dt = dtn(dtype)
    count, offset = scalar(count), scalar(offset)
    f = file if isinstance(file, FileObj) else B.opened(ctx(), path_str(file), "rb", True)
    return f.fromfile(dt, count, offset)


def frombuffer(buf, dtype=float, count=-1, offset=0, **k):
    dt = dtn(dtype)
    count, offset = scalar(count), scalar(offset)
    if isinstance(buf, Arr):
        buf = B.of_array(buf)
    if isinstance(buf, (bytes, bytearray)):
        buf = ABytes([bytes(buf)])
    if not isinstance(buf, ABytes):
        raise TypeError("buffer")
    x = B.interpret(buf, dt, None if (not isinstance(count, E) and count < 0) else count, offset, strict=True)
    if dt in ("uint8", "int8", "bool"):
        n = x.shape[0]
        x.attrs["raw"] = B.slice_(buf, offset, T.add(offset, T.mul(n, isz(dt))))
    return x


def memmap(filename, dtype="uint8", mode="r+", offset=0, shape=None, order="C"):
    f = filename if isinstance(filename, FileObj) else B.opened(ctx(), path_str(filename), "rb", True)
    if shape is None:
        return f.fromfile(dtn(dtype), -1, offset)
    s = shp(shape)
    n = 1
    for d in s:
        n = T.mul(n, d)
    f.pos = 0
    return A.reshape(f.fromfile(dtn(dtype), n, offset), s)


def isscalar(x):
    return is_scalar(x) or isinstance(x, (str, bytes))


def issubdtype(a, b):
    n = dtn(a) if not isinstance(a, TypeObj) else None
    if n is None:
        raise Unresolved("issubdtype")
    if isinstance(b, LibObj):
        k = b.name.rpartition(".")[2]
        return {"floating": is_float(n), "integer": n.startswith(("int", "uint")), "unsignedinteger": n.startswith("uint"),
                "signedinteger": n.startswith("int"), "number": n != "bool", "inexact": is_float(n), "bool_": n == "bool"}[k]
    return n == dtn(b)


def poison(*vals):
    for v in vals:
        if isinstance(v, Arr):
            v.buf.poison = "passed to a function without a model"
        elif isinstance(v, (list, tuple)):
            poison(*v)
        elif isinstance(v, dict):
            poison(*v.values())
        elif isinstance(v, Obj):
            poison(*[x for x in v.d.values() if isinstance(x, Arr)])


def common(lib):
    d = {}
    for k in ("zeros", "ones", "empty", "full"):
        f, g = maker(k, lib)
        d[k], d[k + "_like"] = f, g
    d.update(
        arange=lambda *a, **k: arange_(lib, *a, **k), concatenate=concat, concat=concat, cat=concat, stack=stack, hstack=hstack, vstack=vstack,
        dstack=dstack, column_stack=column_stack, where=where, clip=clip, clamp=clip, take=take, nonzero=nonzero, flatnonzero=flatnonzero,
        argwhere=lambda m: A.stack(list(nonzero(m)), 1),
        reshape=lambda a, shape=None, *r, **k: reshape_m(toarr(a), shape if shape is not None else k.pop("newshape"), *r, **k), ravel=lambda a, order="C": ravel(toarr(a), order), transpose=transpose_np, swapaxes=swapaxes, moveaxis=moveaxis, movedim=moveaxis, permute=permute,
        expand_dims=expand_dims, unsqueeze=expand_dims, squeeze=squeeze, flip=flip, flatten=lambda a, *r: ravel(a), t=lambda a: transpose_np(a),
        sum=summ, min=lambda a, *r, **k: minmax_method("min")(toarr(a), *r, **k), max=lambda a, *r, **k: minmax_method("max")(toarr(a), *r, **k),
        amin=lambda a, axis=None, dim=None, keepdims=False, keepdim=False, **k: reduce(a, "min", axis, dim, keepdims, keepdim),
        amax=lambda a, axis=None, dim=None, keepdims=False, keepdim=False, **k: reduce(a, "max", axis, dim, keepdims, keepdim),
        any=lambda a, axis=None, **k: reduce(a, "or", axis, **k), all=lambda a, axis=None, **k: reduce(a, "and", axis, **k),
        prod=lambda a, axis=None, **k: reduce(a, "*", axis, **k), mean=mean, argmax=lambda a, axis=None, **k: reduce(a, "argmax", axis, **k),
        argmin=lambda a, axis=None, **k: reduce(a, "argmin", axis, **k), count_nonzero=count_nonzero, norm=norm, repeat=repeat, tile=tile,
        split=split, broadcast_to=broadcast_to, array_equal=array_equal, equal=bi("equal", T.eq, "cmp"), allclose=allclose, isclose=lambda *a, **k: Unk("isclose"),
        matmul=matmul, gather=gather, compress=compress, index_select=index_select, masked_select=masked_select, unbind=unbind,
        logical_not=lambda x, out=None, **k: ew("cmp", lambda v: T.not_(tb(v)), x, out=out),
        square=lambda x, out=None, dtype=None: ew("arith", lambda v: T.mul(v, v), x, out=out),
        reciprocal=lambda x, out=None: ew("div", lambda v: T.div(1.0, v), x, out=out),
        rsqrt=lambda x: ew("float", lambda v: T.div(1.0, T.fn1("sqrt", v)), x),
        negative=lambda x, out=None: ew("arith", lambda v: T.mul(-1, v), x, out=out), neg=lambda x, out=None: ew("arith", lambda v: T.mul(-1, v), x, out=out),
        invert=lambda x, out=None: ew("arith", T.invert, x, out=out), bitwise_not=lambda x, out=None: ew("arith", T.invert, x, out=out),
        logit=logit_t, isnan=boolfn("isnan"), isfinite=boolfn("isfinite"), isinf=boolfn("isinf"), pi=math.pi, e=math.e, inf=math.inf, nan=math.nan,
        newaxis=None, lerp=lambda a, b, w: ew("arith", lambda x, y, z: T.add(x, T.mul(z, T.sub(y, x))), a, b, w),
    )
    for n in ("exp", "log", "sqrt", "floor", "ceil", "trunc", "tanh", "expm1", "log1p", "sin", "cos", "log2", "log10", "exp2", "sigmoid"):
        d[n] = un(n)
    for n in ("abs", "sign", "round"):
        d[n] = un(n, "arith")
    d["absolute"] = d["fabs"] = d["abs"]
    d["rint"] = d["around"] = d["round"]
    for n, f in (("add", T.add), ("subtract", T.sub), ("sub", T.sub), ("multiply", T.mul), ("mul", T.mul), ("power", T.power), ("pow", T.power),
                 ("floor_divide", T.fdiv), ("mod", T.mod), ("remainder", T.mod), ("minimum", T.mn), ("maximum", T.mx), ("fmin", T.mn), ("fmax", T.mx),
                 ("left_shift", T.shl), ("right_shift", T.shr), ("bitwise_and", T.band), ("bitwise_or", T.bor), ("bitwise_xor", T.bxor),
                 ("bitwise_left_shift", T.shl), ("bitwise_right_shift", T.shr)):
        d[n] = bi(n, f)
    d["divide"] = d["true_divide"] = d["div"] = bi("divide", T.div, "div")
    d["divmod"] = Builtin("divmod", lambda a, b: (d["floor_divide"].fn(a, b), d["mod"].fn(a, b)))
    for n, f in (("less", T.lt), ("lt", T.lt), ("less_equal", T.le), ("le", T.le), ("greater", lambda a, b: T.lt(b, a)), ("gt", lambda a, b: T.lt(b, a)),
                 ("greater_equal", lambda a, b: T.le(b, a)), ("ge", lambda a, b: T.le(b, a)), ("not_equal", T.ne), ("ne", T.ne), ("eq", T.eq),
                 ("logical_and", lambda a, b: T.and_(tb(a), tb(b))), ("logical_or", lambda a, b: T.or_(tb(a), tb(b))),
                 ("logical_xor", lambda a, b: T.bxor(tb(a), tb(b)))):
        d[n] = bi(n, f, "cmp")
    return d


NDARRAY = TypeObj("numpy.ndarray", lambda x: isinstance(x, Arr) and x.lib == "np", None)
TENSOR = TypeObj("torch.Tensor", lambda x: isinstance(x, Arr) and x.lib == "torch", None)


def _np_table():
    d = common("np")
    d["transpose"] = lambda a, axes=None: transpose_np(toarr(a), *((axes,) if axes is not None else ()))
    d.update(
        array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=lambda a, dtype=None, **k: contiguous(np_asarray(a), dtype),
        asfortranarray=lambda a, **k: _bad("fortran order"), copy=lambda a, **k: A.copy(toarr(a)), isscalar=isscalar, issubdtype=issubdtype,
        dtype=TypeObj("numpy.dtype", lambda x: isinstance(x, DT), lambda x, **k: DT(dtn(x).replace("big_", ""), dtn(x).startswith("big_")) if not isinstance(x, list) else _bad("structured dtype")),
        fromfile=fromfile, frombuffer=frombuffer, memmap=memmap, copyto=copyto, ndarray=NDARRAY, astype=astype,
        require=lambda a, dtype=None, requirements=None, **k: contiguous(np_asarray(a, dtype)), atleast_1d=at1,
        result_type=lambda *a: DT(rdtype("arith", [x if isinstance(x, Arr) else A.full((1,), dtn(x), 0) if isinstance(x, DT) else x for x in a], "np")),
        shape=lambda a: toarr(a).shape, ndim=lambda a: toarr(a).ndim, size=lambda a: toarr(a).size(), nan_to_num=lambda *a, **k: Unk("nan_to_num"),
        errstate=lambda **k: LibObj("errstate"), shares_memory=lambda a, b: a.buf is b.buf, may_share_memory=lambda a, b: a.buf is b.buf,
        finfo=lambda d: LibObj("finfo", max=3.4028235e38, min=-3.4028235e38, eps=1.1920929e-07, tiny=1.1754944e-38, dtype=DT(dtn(d))),
        iinfo=lambda d: LibObj("iinfo", max=T.DT_RANGE[dtn(d)][1], min=T.DT_RANGE[dtn(d)][0], bits=8 * isz(dtn(d))),
        sort=lambda *a, **k: Unk("sort"),
    )
    d["r_"], d["c_"] = LibObj("numpy.r_"), LibObj("numpy.c_")
    for n in ("generic", "number", "integer", "floating", "unsignedinteger", "signedinteger", "inexact"):
        d[n] = LibObj("numpy." + n)
    d["integer"] = TypeObj("numpy.integer", lambda x: isinstance(x, E) and x.kind == "i", None)
    d["floating"] = TypeObj("numpy.floating", lambda x: isinstance(x, E) and x.kind == "f", None)
    d["generic"] = TypeObj("numpy.generic", lambda x: isinstance(x, E), None)
    d["number"] = TypeObj("numpy.number", lambda x: isinstance(x, E), None)
    d["bool_"] = DT("bool")
    for n in _DTS:
        d[n] = DT(n)
    for n in ("intp", "single", "double", "half", "uint", "int_", "byte", "ubyte", "short", "ushort", "intc", "uintc", "longlong"):
        d[n] = DT(_DTN[n])
    return d


def t_to(a, *args, dtype=None, device=None, non_blocking=False, copy=False, **k):
    for x in args:
        if isinstance(x, DT):
            dtype = x
        elif isinstance(x, (Device, str, int)) and not isinstance(x, bool):
            device = x
        elif isinstance(x, Arr):
            dtype, device = DT(x.dtype), x.device
        elif isinstance(x, bool):
            continue
        elif x is None:
            continue
        else:
            raise Unresolved("Tensor.to argument")
    dt = dtn(dtype, "torch") if dtype is not None else a.dtype
    dv = dev(device) if device is not None else a.device
    if dt == a.dtype and dv == a.device and not copy:
        return a
    r = A.copy(a, dt, "torch", dv)
    if a.attrs.get("raw") is not None and dt == a.dtype:
        r.attrs["raw"] = a.attrs["raw"]
    return r


def from_numpy(x):
    r = x.relib("torch")
    if x.attrs.get("raw") is not None:
        r.attrs["raw"] = x.attrs["raw"]
    r.attrs["np_src"] = x
    return r


def to_numpy(a, force=False, **k):
    if a.device != "cpu" and not force:
        err(TypeError("can't convert cuda device type tensor to numpy"))
    if a.attrs.get("requires_grad") and not force:
        err(RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead."))
    r = a.relib("np")
    r.device = "cpu"
    return r


def t_tensor(x, dtype=None, device=None, requires_grad=False, **k):
    dt = dtn(dtype, "torch") if dtype is not None else None
    if isinstance(x, Arr):
        return A.copy(x, dt, "torch", dev(device) or "cpu")
    r = toarr(x, "torch", dt)
    r.device = dev(device) or "cpu"
    return r


def t_as_tensor(x, dtype=None, device=None, **k):
    if isinstance(x, Arr):
        return t_to(x.relib("torch") if x.lib == "np" else x, dtype=dtype, device=device)
    return t_tensor(x, dtype, device)


def _torch_table():
    d = common("torch")
    d["nonzero"] = tnonzero
    d.update(
        Tensor=TENSOR, from_numpy=from_numpy, tensor=t_tensor, as_tensor=t_as_tensor, asarray=t_as_tensor,
        device=TypeObj("torch.device", lambda x: isinstance(x, Device), lambda t, i=None: t if isinstance(t, Device) else Device(t.split(":")[0], int(t.split(":")[1]) if ":" in t else i)),
        compile=lambda fn=None, **k: fn if fn is not None else Builtin("compile", lambda f: f), no_grad=grad_guard("no_grad"), enable_grad=grad_guard("enable_grad", False), set_grad_enabled=grad_guard("set_grad_enabled"),
        is_grad_enabled=lambda: not ctx().nograd, inference_mode=grad_guard("inference_mode"), frombuffer=lambda buf, dtype=None, count=-1, offset=0, **k: frombuffer(buf, dtype, count, offset).relib("torch"),
        is_tensor=lambda x: isinstance(x, Arr) and x.lib == "torch", Size=TypeObj("torch.Size", lambda x: isinstance(x, tuple), lambda x=(): tuple(x)),
        dtype=TypeObj("torch.dtype", lambda x: isinstance(x, DT), None), float=DT("float32"), double=DT("float64"), half=DT("float16"), long=DT("int64"),
        int=DT("int32"), short=DT("int16"), bool=DT("bool"), clone=lambda a, **k: A.copy(a), repeat_interleave=repeat, 
        numel=lambda a: a.size(), is_floating_point=lambda a: is_float(a.dtype), manual_seed=lambda *a: None, broadcast_to=lambda a, s: A.expand(a, shp(s)),
        zeros=d["zeros"], finfo=lambda dt: LibObj("finfo", max=3.4028235e38, min=-3.4028235e38, eps=1.1920929e-07, tiny=1.1754944e-38),
    )
    for n in _DTS:
        d[n] = DT(n)
    d["bool"] = DT("bool")
    return d


# ------------------------------------------------------------------ array methods
def inplace(fn):
    def g(a, *args, **k):
        r = fn(a, *args, **k)
        if isinstance(r, Arr):
            A.assign(a, r)
        else:
            a.write_region(lambda v: r)
        return a

    return g


def np_copy(a, *r, **k):
    return A.copy(a)


def t_contig(a, **k):
    return contiguous(a)


def fill(a, v):
    v = scalar(v)
    a.write_region(lambda i: v)
    return a


def copy_(a, src, **k):
    if a.buf is not src.buf:
        A.assign(a, src)
    else:
        A.assign(a, A.copy(src))
    return a


def item(a, *k):
    if k:
        return A.getitem(a, k if len(k) > 1 else k[0])
    return scalar(a)


def tolist(a):
    if a.ndim == 0:
        return a.read(())
    n = a.shape[0]
    if isinstance(n, E) or n > 4096:
        return Unk("tolist of a symbolic array")
    return [tolist(x) if isinstance(x, Arr) else x for x in (A.getitem(a, k) for k in range(n))]


def masked_fill(a, m, v):
    mr = A.bread(m, a.shape)
    rd = a.snap()
    v = scalar(v)
    return A.fresh_array(a.shape, a.dtype, lambda i: T.ite(mr(i), v, rd(i)), "masked_fill", a.lib, device=a.device)


def requires_grad_(a, v=True):
    v = bool(v)
    if v and not is_float(a.dtype):
        err(RuntimeError("only Tensors of floating point dtype can require gradients"))
    if not v and a.attrs.get("requires_grad") and not a.attrs.get("leaf"):
        err(RuntimeError("you can only change requires_grad flags of leaf variables."))
    if v:
        ctx().grads = True
        if not a.attrs.get("requires_grad"):
            a.attrs["leaf"] = True
    a.attrs["requires_grad"] = v
    return a


# ------------------------------------------------------------------ gradient tracking
UNTRACKED = {"detach", "numpy", "requires_grad_", "tensor", "zeros_like", "ones_like", "empty_like", "full_like", "new_zeros", "new_ones", "new_empty", "new_full", "new_tensor",
             "item", "tolist", "rand_like", "randn_like", "copy_", "detach_", "set_", "data"}


def tracked(x, depth=2):
    if isinstance(x, Arr):
        return x.lib == "torch" and bool(x.attrs.get("requires_grad"))
    if depth and isinstance(x, (list, tuple)) and len(x) < 65:
        return any(tracked(y, depth - 1) for y in x)
    return False


def graded(r, *ins):
    c = ctx()
    return track(r) if c.grads and not c.nograd and any(tracked(x) for x in ins) else r


def track(r, src=()):
    """results of an operation on tracked tensors are tracked"""
    if isinstance(r, Arr):
        if r.lib == "torch" and is_float(r.dtype) and not any(r is s for s in src):
            r.attrs["requires_grad"] = True
    elif isinstance(r, (list, tuple)) and len(r) < 65:
        for x in r:
            track(x, src)
    return r


def in_place(a, v=None):
    """an in-place change of a tensor, under the rules of gradient tracking"""
    c = ctx()
    if not c.grads or c.nograd or a.lib != "torch":
        return
    if a.attrs.get("requires_grad") and a.attrs.get("leaf"):
        err(RuntimeError("a view of a leaf Variable that requires grad is being used in an in-place operation."))
    if v is not None and tracked(v) and is_float(a.dtype):
        a.attrs["requires_grad"] = True


def under_tracking(fn, args, kw):
    c = ctx()
    n = fn.name.rsplit(".", 1)[-1]
    ins = (*([fn.recv] if fn.recv is not None else ()), *args, *kw.values())
    on = any(tracked(x) for x in ins)
    if on and fn.name.startswith(("numpy.", "np.")) and fn.recv is None and n not in ("shape", "ndim", "size"):
        err(RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead."))
    if fn.recv is not None and n.endswith("_") and not n.endswith("__") and n not in ("requires_grad_", "detach_"):
        in_place(fn.recv, list(ins[1:]))
    if isinstance(kw.get("out"), Arr) and on and not c.nograd:
        err(RuntimeError("functions with out=... arguments don't support automatic differentiation"))
    r = fn.fn(*args, **kw)
    if n == "detach_" and fn.recv is not None:
        fn.recv.attrs.pop("requires_grad", None)
    if on and n not in UNTRACKED:
        if c.nograd:
            return untrack(r, ins)
        leaf = next((x for x in ins if isinstance(x, Arr) and x.attrs.get("leaf")), None)
        track(r, ins)
        if leaf is not None and isinstance(r, Arr) and r.buf is leaf.buf:
            r.attrs["leaf"] = True
    elif isinstance(r, Arr) and n in UNTRACKED and n not in ("requires_grad_", "copy_", "set_") and not any(r is x for x in ins) and not kw.get("requires_grad"):
        r.attrs.pop("requires_grad", None)
        r.attrs.pop("leaf", None)
    return r


def untrack(r, ins):
    if isinstance(r, Arr):
        if not any(r is x for x in ins):
            r.attrs.pop("requires_grad", None)
            r.attrs.pop("leaf", None)
    elif isinstance(r, (list, tuple)) and len(r) < 65:
        for x in r:
            untrack(x, ins)
    return r


class NoGrad:
    """torch.no_grad() and its relatives: context manager and decorator"""

    def __init__(self, name, off=True):
        self.name, self.off, self.saved = name, off, []

    def on(self):
        c = ctx()
        self.saved.append(c.nograd)
        c.nograd = self.off

    def done(self):
        ctx().nograd = self.saved.pop()


def grad_guard(name, off=True):
    def make(fn=None, mode=None):
        if isinstance(fn, (Fn, Builtin)):
            return guarded(NoGrad(name, off), fn)
        return NoGrad(name, off if not isinstance(fn, bool) else (fn if name == "inference_mode" else not fn))

    return make


def guarded(g, fn):
    def run(*a, **k):
        g.on()
        try:
            return IP.call(fn, list(a), k)
        finally:
            g.done()

    r = Builtin(getattr(fn, "name", "guarded"), run)
    r.wraps = fn
    return r


def size_m(a, dim=None):
    return a.shape if dim is None else a.shape[dim]


def tofile(a, f, sep="", format=""):
    data = B.of_array(a)
    if isinstance(f, FileObj):
        f.write(data)
    else:
        g = B.open_file(ctx(), path_str(f), "wb")
        g.write(data)
        g.closed = True


def split_dims(a, *s):
    raise Unresolved("unflatten")


def flatten_m(a, start_dim=0, end_dim=-1, **k):
    if a.lib == "np":
        if isinstance(start_dim, str) and start_dim != "C":
            raise Unresolved("flatten order")
        return A.copy(ravel(a))
    s, e = start_dim % max(a.ndim, 1), end_dim % max(a.ndim, 1)
    n = 1
    for d in a.shape[s:e + 1]:
        n = T.mul(n, d)
    return reshape_m(a, (*a.shape[:s], n, *a.shape[e + 1:]))


METHODS = {
    "astype": astype, "copy": np_copy, "clone": np_copy, "reshape": reshape_m, "ravel": ravel, "flatten": flatten_m, "view": tview,
    "transpose": transpose_np, "swapaxes": swapaxes, "permute": permute, "squeeze": squeeze, "unsqueeze": expand_dims, "contiguous": t_contig,
    "sum": summ, "mean": mean, "min": minmax_method("min"), "max": minmax_method("max"), "any": lambda a, axis=None, **k: reduce(a, "or", axis, **k),
    "all": lambda a, axis=None, **k: reduce(a, "and", axis, **k), "prod": lambda a, axis=None, **k: reduce(a, "*", axis, **k), "norm": norm,
    "amin": lambda a, dim=None, keepdim=False: reduce(a, "min", dim, None, keepdim), "amax": lambda a, dim=None, keepdim=False: reduce(a, "max", dim, None, keepdim),
    "argmax": lambda a, axis=None, **k: reduce(a, "argmax", axis, **k), "argmin": lambda a, axis=None, **k: reduce(a, "argmin", axis, **k),
    "to": t_to, "cpu": lambda a, **k: t_to(a, device="cpu"), "cuda": lambda a, *r, **k: t_to(a, device="cuda"), "numpy": to_numpy, "detach": lambda a: a.relib("torch"),
    "float": lambda a: t_to(a, dtype=DT("float32")), "double": lambda a: t_to(a, dtype=DT("float64")), "half": lambda a: t_to(a, dtype=DT("float16")),
    "long": lambda a: t_to(a, dtype=DT("int64")), "int": lambda a: t_to(a, dtype=DT("int32")), "bool": lambda a: t_to(a, dtype=DT("bool")),
    "byte": lambda a: t_to(a, dtype=DT("uint8")), "type": lambda a, d=None, **k: t_to(a, dtype=d), "expand": lambda a, *s: A.expand(a, _tsize(s)),
    "expand_as": lambda a, o: A.expand(a, o.shape), "view_as": lambda a, o: tview(a, *o.shape), "reshape_as": lambda a, o: reshape_m(a, *o.shape),
    "fill": fill, "fill_": fill, "zero_": lambda a: fill(a, 0), "copy_": copy_, "item": item, "tolist": tolist, "masked_fill": masked_fill,
    "masked_fill_": inplace(masked_fill), "requires_grad_": requires_grad_, "size": size_m, "dim": lambda a: a.ndim, "numel": lambda a: a.size(), "nelement": lambda a: a.size(),
    "is_contiguous": lambda a, **k: a.contig, "tofile": tofile, "tobytes": lambda a, order="C": B.of_array(a), "pin_memory": lambda a, *r: np_like(a), "is_pinned": lambda a: False,
    "take": take, "compress": lambda a, c, axis=None, **k: compress(c, a, axis), "nonzero": lambda a, **k: nonzero(a, **k) if a.lib == "np" else tnonzero(a, **k),
    "clip": clip, "clamp": clip, "clamp_": inplace(clip), "clip_": inplace(clip), "clamp_min": lambda a, m: clip(a, m), "clamp_max": lambda a, m: clip(a, None, m),
    "gather": gather, "scatter_": scatter_, "scatter": lambda a, *r, **k: scatter_(A.copy(a), *r, **k), "index_select": index_select, "masked_select": masked_select,
    "repeat": lambda a, *r, **k: repeat(a, *r, **k) if a.lib == "np" else trepeat(a, *r), "repeat_interleave": repeat, "tile": lambda a, *r: trepeat(a, *r), "split": split,
    "unbind": unbind, "flip": flip, "t": lambda a: transpose_np(a), "fill_diagonal_": lambda *a: _bad("fill_diagonal_"), "item_size": None,
    "element_size": lambda a: isz(a.dtype), "is_floating_point": lambda a: is_float(a.dtype), "storage": lambda a: a, "untyped_storage": lambda a: a,
    "data_ptr": lambda a: T.sym(f"id(buffer {a.buf.id})", "i", 1), "newbyteorder": lambda a, *k: _bad("byte order"), "byteswap": lambda a, *k: _bad("byte swap"),
    "round": lambda a, *r, **k: un("round", "arith")(a), "setflags": lambda a, **k: None, "new_zeros": lambda a, *s, **k: maker("zeros", "torch")[0](*s, **{"dtype": DT(a.dtype), "device": a.device, **k}),
    "new_ones": lambda a, *s, **k: maker("ones", "torch")[0](*s, **{"dtype": DT(a.dtype), "device": a.device, **k}),
    "new_empty": lambda a, *s, **k: maker("empty", "torch")[0](*s, **{"dtype": DT(a.dtype), "device": a.device, **k}),
    "new_full": lambda a, s, v, **k: maker("full", "torch")[0](s, v, **{"dtype": DT(a.dtype), "device": a.device, **k}),
    "__len__": len_, "get_device": lambda a: -1 if a.device == "cpu" else 0, "record_stream": lambda a, *k: None,
}


def np_like(a):
    r = A.copy(a)
    if a.attrs.get("raw") is not None:
        r.attrs["raw"] = a.attrs["raw"]
    return r


_INPLACE = ("exp", "log", "sqrt", "abs", "sigmoid", "add", "sub", "mul", "div", "pow", "clamp", "logit", "neg", "floor", "round", "ceil", "tanh",
            "logical_and", "logical_or", "logical_not", "minimum", "maximum", "square", "reciprocal", "rsqrt", "bitwise_and", "bitwise_or", "bitwise_not",
            "trunc", "expm1", "log1p", "eq", "ne", "lt", "le", "gt", "ge", "subtract", "multiply", "divide", "remainder", "isnan", "isfinite", "isinf", "sign",
            "logical_xor", "bitwise_xor", "lerp", "count_nonzero", "sin", "cos", "absolute", "true_divide", "matmul", "bitwise_left_shift", "bitwise_right_shift")

_tables = {}


def tables():
    if not _tables:
        _tables["np"], _tables["torch"] = _np_table(), _torch_table()
        from . import lib2

        lib2.update(_tables["np"], _tables["torch"], METHODS)
        for n in _INPLACE:
            f = _tables["torch"].get(n)
            if f is None:
                continue
            f = f.fn if isinstance(f, Builtin) else f
            METHODS.setdefault(n, f)
            METHODS.setdefault(n + "_", inplace(f))
    return _tables


def arr_attr(ip, a, n):
    tables()
    if n == "shape":
        return a.shape
    if n == "ndim":
        return a.ndim
    if n == "dtype":
        return DT(a.dtype.replace("big_", ""), a.dtype.startswith("big_"))
    if n == "size" and a.lib == "np":
        return a.size()
    if n in ("T", "mT", "mH", "H"):
        return A.transpose(a, tuple(range(a.ndim))[::-1] if n == "T" else (*range(a.ndim - 2), a.ndim - 1, a.ndim - 2))
    if n == "is_leaf":
        return True
    if n in ("is_sparse", "is_quantized", "is_complex", "is_nested", "is_meta"):
        return False if n != "is_complex" else Builtin(n, lambda: False)
    if n == "flat":
        return FlatView(a)
    if n == "nbytes":
        return T.mul(a.size(), isz(a.dtype))
    if n == "itemsize":
        return isz(a.dtype)
    if n == "base":
        return None if a.buf.root is a else a.buf.root
    if n == "flags":
        return LibObj("flags", c_contiguous=a.contig, contiguous=a.contig, writeable=a.attrs.get("writeable", True), owndata=a.buf.root is a, aligned=True,
                      f_contiguous=a.contig if a.ndim <= 1 else False, C_CONTIGUOUS=a.contig, WRITEABLE=True, F_CONTIGUOUS=a.contig if a.ndim <= 1 else False, OWNDATA=a.buf.root is a, ALIGNED=True)
    if n == "device":
        return Device(a.device)
    if n == "is_cuda":
        return a.device == "cuda"
    if n == "requires_grad":
        return a.attrs.get("requires_grad", False)
    if n == "data":
        return a.relib(a.lib) if a.lib == "torch" else a
    if n == "grad":
        return None
    if n in ("real",):
        return a
    f = METHODS.get(n)
    if f is not None:
        if n.startswith(("requires_grad",)) or True:
            return Builtin(f"{a.lib}.{n}", lambda *r, **k: f(a, *r, **k), recv=a)
    if n.startswith("__"):
        raise Raised(AttributeError(n), ctx().loc())
    if n in (names.TENSOR if a.lib == "torch" else names.NDARRAY):
        g = _tables[a.lib].get(n)
        if callable(g) or isinstance(g, Builtin):
            g = g.fn if isinstance(g, Builtin) else g
            return Builtin(f"{a.lib}.{n}", lambda *r, **k: g(a, *r, **k), recv=a)
        def unmodelled(*r, **k):
            if n.endswith("_") or n in ("put", "partition", "resize", "setfield", "itemset", "byteswap", "sort"):
                poison(a)
            poison(*r, *k.values())
            return Unk("array method " + n)

        return Builtin(f"{a.lib}.{n}", unmodelled)
    if a.lib == "np" and n in ("cast", "release", "toreadonly", "obj"):  # memoryview(a), a.data
        if n == "obj":
            return a
        return Builtin(n, (lambda fmt, *r: B.of_array(a) if fmt in ("B", "b", "c") and not r else Unk("memoryview.cast")) if n == "cast" else (lambda: None) if n == "release" else lambda: a)
    raise Raised(AttributeError(f"array has no attribute {n!r}"), ctx().loc())


# ------------------------------------------------------------------ attributes of native values
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard"}


def native_method(ip, o, n):
    if isinstance(o, dict) and n == "__getitem__":
        return Builtin(n, lambda k: getitem(ip, o, k))
    f = getattr(o, n, NOTHING)
    if f is NOTHING or n.startswith("_") and n not in ("__len__", "__contains__", "__iter__"):
        raise Raised(AttributeError(f"{type(o).__name__!r} object has no attribute {n!r}"), ctx().loc())
    if not callable(f):
        return f

    def g(*a, **k):
        a = [x.items() if isinstance(x, LazyGen) else x for x in a]
        if n in MUTATORS and isinstance(o, (list, dict, set, bytearray)):
            _mutable(o)
            ctx().events.append(("mutate", o, n, a, ctx().loc()))
            if ctx().watch is not None:
                ctx().watch.mutated("mutate", o, n, a)
        if isinstance(o, dict) and n in ("get", "pop", "setdefault") and a and isinstance(a[0], E):
            for q in o:
                if is_scalar(q) and ip.truth(T.eq(a[0], q)):
                    return f(q, *a[1:])
            return a[1] if len(a) > 1 else None
        if isinstance(o, (bytes, bytearray)) and n == "join":
            return B.join(list(a[0]), o) if any(isinstance(x, ABytes) for x in a[0]) else f(*a, **k)
        if isinstance(o, str):
            if n == "join":
                return f([x if isinstance(x, str) else err(TypeError("sequence item: expected str")) for x in iterate(ip, a[0])])
            if n == "format":
                return f(*[x if isinstance(x, (int, float, str)) and not isinstance(x, E) else str_of(x) for x in a],
                         **{q: (x if isinstance(x, (int, float, str)) else str_of(x)) for q, x in k.items()}) if not any(isinstance(x, E) for x in (*a, *k.values())) else _fmt_sym(o, a, k)
            if n in ("isdigit", "isdecimal", "isnumeric", "isalnum") and "\x01" in o:
                return bool(_TOK.fullmatch(o))
        if n == "sort":
            key = k.get("key")
            o[:] = sorted_(o, key, k.get("reverse", False))
            return None
        if isinstance(o, list) and n in ("index", "count", "remove") and (isinstance(a[0], E) or any(isinstance(x, (E, Arr)) for x in o)):
            raise Unresolved("search for a symbolic value")
        if n in ("extend", "update", "union", "intersection", "difference", "isdisjoint", "issubset", "issuperset") and a:
            a = [x if isinstance(x, (list, tuple, dict, set, str)) else list(iterate(ip, x)) for x in a]
        if any(isinstance(x, Unk) for x in a) and isinstance(o, (str, bytes)):
            return Unk(next(x for x in a if isinstance(x, Unk)).why)
        try:
            return f(*a, **k)
        except TypeError as e:
            if isinstance(o, (str, bytes)):
                err(e)
            raise

    return Builtin(f"{type(o).__name__}.{n}", g)


def _fmt_sym(o, a, k):
    o2 = re.sub(r"\{(\w*)(:[^}]*)\}", r"{\1}", o)
    return o2.format(*[str_of(x) for x in a], **{q: str_of(x) for q, x in k.items()})


def scalar_attr(ip, o, n):
    tbl = {
        "item": lambda *k: o, "astype": lambda d, **k: A.coerce(dtn(d), o), "copy": lambda: o, "tolist": lambda: o, "bit_length": lambda: _bad("bit_length") if isinstance(o, E) else o.bit_length(),
        "min": lambda *a, **k: o, "max": lambda *a, **k: o, "any": lambda *a, **k: tb(o), "all": lambda *a, **k: tb(o), "sum": lambda *a, **k: o, "is_integer": lambda: float(o).is_integer() if not isinstance(o, E) else _bad("is_integer"),
        "to_bytes": lambda *a, **k: Unk("to_bytes") if isinstance(o, E) else int(o).to_bytes(*a, **k), "mean": lambda *a, **k: o, "clip": lambda lo=None, hi=None, **k: clip(o, lo, hi),
        "tobytes": lambda: Unk("bytes of a scalar"), "reshape": lambda *s, **k: reshape_m(toarr(o), *s), "__index__": lambda: o, "get_": None,
    }
    if n in tbl and tbl[n] is not None:
        return Builtin("scalar." + n, tbl[n])
    if n == "shape":
        return ()
    if n == "ndim":
        return 0
    if n == "size":
        return 1
    if n == "dtype":
        return Unk("dtype of a scalar")
    if n in ("real",):
        return o
    if isinstance(o, E) and n in names.SCALAR:
        return Unk("number attribute " + n)
    raise Raised(AttributeError(f"number has no attribute {n!r}"), ctx().loc())


def getattr_(ip, o, n):
    if isinstance(o, Arr):
        return arr_attr(ip, o, n)
    if isinstance(o, LibMod):
        return libmod_attr(ip, o, n)
    if isinstance(o, (E, int, float)) and not isinstance(o, type):
        return scalar_attr(ip, o, n)
    if isinstance(o, Builtin):
        if n in o.attrs:
            return o.attrs[n]
        if n == "__name__":
            return o.name
        if n in names.UFUNC or n.startswith("__"):
            return Unk(f"{o.name}.{n}")
        raise Raised(AttributeError(n), ctx().loc())
    if isinstance(o, Bound):
        return ip.getattr(o.fn, n)
    if isinstance(o, (LibObj,)):
        if n in o.attrs:
            return o.attrs[n]
        return LibObj(o.name + "." + n)
    if isinstance(o, TypeObj):
        if n in o.attrs:
            return o.attrs[n]
        if n == "__name__":
            return o.name.rpartition(".")[2]
        if o is NDARRAY or o is TENSOR:
            f = METHODS.get(n)
            if f is not None:
                return Builtin(n, f)
        if o.name == "Path":
            return B.path_static(n)
        return LibObj(o.name + "." + n)
    if isinstance(o, DT):
        big = o.big
        if n == "itemsize":
            return isz(o.name)
        if n in ("name", "__name__"):
            return o.name
        if n == "kind":
            return "f" if is_float(o.name) else "b" if o.name == "bool" else "u" if o.name.startswith("u") else "i"
        if n == "str":
            return (">" if big else "<") + ("f" if is_float(o.name) else "u" if o.name.startswith("u") else "i") + str(isz(o.name))
        if n == "byteorder":
            return ">" if big else "="
        if n == "is_floating_point":
            return is_float(o.name)
        if n == "newbyteorder":
            return Builtin(n, lambda c="S": DT(o.name, c in (">", "B", "big")))
        if n in ("type", "base"):
            return o
        if n == "char":
            return {"float32": "f", "float64": "d"}.get(o.name, "?")
        if n == "fields" or n == "names":
            return None
        raise Raised(AttributeError(n), ctx().loc())
    if isinstance(o, Device):
        if n == "type":
            return o.type
        if n == "index":
            return o.index
        raise Raised(AttributeError(n), ctx().loc())
    if isinstance(o, APath):
        return B.path_attr(ip, o, n)
    if isinstance(o, (ABytes, FileObj, AZip)):
        f = getattr(o, "m_" + n, None)
        if f is None:
            if n in ("name", "mode", "closed") and isinstance(o, FileObj):
                return getattr(o, n)
            if n in ("size", "nbytes") and isinstance(o, ABytes):
                return o.length()
            raise Unresolved(f"{type(o).__name__}.{n}")
        return Builtin(n, f)
    if isinstance(o, BaseException):
        if n == "args":
            return o.args
        if n in ("__class__",):
            return LibObj(type(o).__name__, __name__=type(o).__name__)
        if n in ("filename", "errno", "strerror"):
            return getattr(o, n)
        if n == "with_traceback":
            return Builtin(n, lambda *a: o)
        raise Raised(AttributeError(n), ctx().loc())
    if isinstance(o, slice):
        if n in ("start", "stop", "step"):
            return getattr(o, n)
        if n == "indices":
            return Builtin(n, lambda k: slice_indices(o, k))
    if isinstance(o, type):
        if n == "__name__":
            return o.__name__
        if o is object and n == "__setattr__":
            return Builtin("object.__setattr__", lambda s, k, v: ip.raw_setattr(s, k, v))
        if o is object and n == "__new__":
            return Builtin("object.__new__", lambda c, *a, **k: Obj(c))
        if o is dict and n == "fromkeys":
            return Builtin(n, lambda ks, v=None: dict.fromkeys(list(iterate(ip, ks)), v))
        if o is int and n == "from_bytes":
            return Builtin(n, lambda b, order="big", signed=False: int.from_bytes(b, order, signed=signed) if isinstance(b, bytes) else T.unk("from_bytes"))
        if o in (str, dict, list, bytes, float):
            f = getattr(o, n)
            return Builtin(n, lambda s, *a, **k: ip.call(native_method(ip, s, n), list(a), k))
        raise Raised(AttributeError(n), ctx().loc())
    if isinstance(o, SRange):
        if n in ("start", "stop", "step"):
            return {"start": o.lo, "stop": o.hi, "step": o.step}[n]
    if isinstance(o, Prop):
        return Builtin(n, lambda f: Prop(o.fget, f) if n == "setter" else o)
    if o is None:
        raise Raised(AttributeError(f"'NoneType' object has no attribute {n!r}"), ctx().loc())
    if isinstance(o, (str, bytes, bytearray, list, tuple, dict, set, frozenset)) or hasattr(o, "mapping"):
        return native_method(ip, o, n)
    raise Unresolved(f"attribute {n} of {type(o).__name__}")


def slice_indices(sl, n):
    s = {None: 1}.get(sl.step, sl.step)
    if not any(isinstance(x, E) for x in (sl.start, sl.stop, sl.step, n)):
        return sl.indices(n)
    if s < 0:
        a = T.sub(n, 1) if sl.start is None else T.mx(T.mn(A._bound(sl.start, n), T.sub(n, 1)), -1)
        b = -1 if sl.stop is None else T.mx(T.mn(A._bound(sl.stop, n), T.sub(n, 1)), -1)
        return (a, b, s)
    a = 0 if sl.start is None else A._clampmin(A._bound(sl.start, n), n)
    b = n if sl.stop is None else A._clampmin(A._bound(sl.stop, n), n)
    return (a, b, s)


def setattr_(ip, o, n, v):
    if isinstance(o, Arr):
        if n == "shape":
            r = A.reshape(o, shp(v))
            o.shape, o.fwd, o.inv = r.shape, r.fwd, r.inv
            return
        if n == "requires_grad":
            requires_grad_(o, v)
            return
        if n == "data":
            A.assign(o, v)
            return
        if n == "dtype":
            raise Unresolved("dtype assignment")
        return
    if isinstance(o, (LibObj, LibMod, Builtin, Unk)):
        return
    if isinstance(o, BaseException):
        return
    raise Raised(AttributeError(f"can't set {n!r}"), ctx().loc())


# ------------------------------------------------------------------ calls
EXC = (ValueError, KeyError, IndexError, UnicodeError, ZeroDivisionError, StopIteration, OverflowError, OSError, EOFError)


def call_native(ip, fn, args, kw):
    if isinstance(fn, Unk):
        poison(*args, *kw.values())
        return Unk(fn.why + "()")
    if isinstance(fn, Builtin):
        try:
            return fn.fn(*args, **kw) if not ctx().grads else under_tracking(fn, args, kw)
        except (Raised, Unresolved):
            raise
        except EXC as e:
            raise Raised(e, ctx().loc()) from None
        except (TypeError, AttributeError, NotImplementedError) as e:
            raise Unresolved(f"{fn.name}: {e}") from None
    if isinstance(fn, type):
        if issubclass(fn, BaseException):
            try:
                return fn(*args)
            except TypeError as e:
                raise Unresolved(str(e)) from None
        f = PYTYPES.get(fn)
        if f is None:
            raise Unresolved(f"call of {fn.__name__}")
        try:
            return f(*args, **kw)
        except (Raised, Unresolved):
            raise
        except EXC as e:
            raise Raised(e, ctx().loc()) from None
        except TypeError as e:
            raise Raised(e, ctx().loc()) from None
    if isinstance(fn, DT):
        if not args:
            return 0
        x = args[0]
        if isinstance(x, Arr) and x.ndim:
            return A.copy(x, fn.name)
        if isinstance(x, (list, tuple)):
            return np_array(x, fn)
        if isinstance(x, str):
            x = conv_float(x)
        return A.coerce(fn.name, scalar(x))
    if isinstance(fn, TypeObj):
        if fn.ctor is None:
            raise Unresolved(f"construction of {fn.name}")
        try:
            return fn.ctor(*args, **kw)
        except EXC as e:
            raise Raised(e, ctx().loc()) from None
        except (TypeError, AttributeError) as e:
            raise Unresolved(f"{fn.name}: {e}") from None
    if isinstance(fn, NoGrad):
        if len(args) == 1 and isinstance(args[0], (Fn, Builtin)):
            return guarded(fn, args[0])
        raise Unresolved(fn.name + " called")
    if isinstance(fn, LibObj):
        poison(*args, *kw.values())
        if args and len(args) == 1 and isinstance(args[0], (Fn, Cls)):
            return args[0]
        return LibObj(fn.name + "()")
    if isinstance(fn, (LibMod, Mod)):
        raise Raised(TypeError("'module' object is not callable"), ctx().loc())
    if callable(fn) and getattr(fn, "__self__", None) is not None:
        return fn(*args, **kw)
    raise Raised(TypeError(f"{type(fn).__name__!r} object is not callable"), ctx().loc())


# ------------------------------------------------------------------ modules
def jit_decorator(*a, **k):
    def deco(fn):
        if isinstance(fn, Fn):
            fn.jit = dict(k)
        return fn

    if a and isinstance(a[0], Fn):
        return deco(a[0])
    return Builtin("jit", deco)


def dataclass_(c=None, **k):
    def deco(c):
        fields = {}
        for b in reversed(c.mro()[1:]):
            if b.fields:
                fields.update(b.fields)
        for name, ann in c.d.get("__annotations__", {}).items():
            if ann.startswith(("ClassVar", "typing.ClassVar")):
                continue
            v = c.d.get(name, NOTHING)
            if isinstance(v, Field):
                c.d.pop(name)
                if v.factory is NOTHING:
                    v = NOTHING
            fields[name] = v
        c.fields = fields
        c.frozen = k.get("frozen", False)
        return c

    return deco(c) if isinstance(c, Cls) else Builtin("dataclass", deco)


def field_(default=NOTHING, default_factory=NOTHING, **k):
    if default_factory is not NOTHING:
        return Field(default_factory)
    if default is not NOTHING:
        return default
    return Field(NOTHING)


def replace_(o, **kw):
    vals = {n: o.d[n] for n in o.cls.fields}
    vals.update(kw)
    return IP.call(o.cls, [], vals)


def deepcopy_(x, memo=None):
    if isinstance(x, Arr):
        return A.copy(x)
    if isinstance(x, dict):
        return {k: deepcopy_(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(deepcopy_(v) for v in x)
    if isinstance(x, Obj):
        if x.cls.enum:
            return x
        f = x.cls.find("__deepcopy__")
        if f is not NOTHING:
            return IP.call(f, [x, {}], {})
        o = Obj(x.cls)
        o.d = {k: deepcopy_(v) for k, v in x.d.items()}
        return o
    return x


def copy_copy(x):
    if isinstance(x, Arr):
        return A.copy(x)
    if isinstance(x, (dict, list, set)):
        return x.copy()
    if isinstance(x, Obj) and not x.cls.enum:
        f = x.cls.find("__copy__")
        if f is not NOTHING:
            return IP.call(f, [x], {})
        o = Obj(x.cls)
        o.d = dict(x.d)
        return o
    return x


def cache_(*a, **k):
    def deco(f):
        if isinstance(f, Fn):
            f.memo = {}
        return f

    return deco(a[0]) if a and isinstance(a[0], (Fn, Builtin)) else Builtin("lru_cache", deco)


def partial_(f, *a, **k):
    return Builtin("partial", lambda *b, **q: IP.call(f, [*a, *b], {**k, **q}))


def freduce(f, it, *init):
    items = list(init) + list(iterate(IP, it))
    if not items:
        err(TypeError("reduce() of empty iterable with no initial value"))
    acc = items[0]
    for x in items[1:]:
        acc = IP.call(f, [acc, x], {})
    return acc


def json_loads(s, **k):
    if isinstance(s, ABytes):
        obj = s.attached()
        if obj is not None:
            return _copy.deepcopy(obj) if not _has_terms(obj) else _dc(obj)
        raise Unresolved("json of unknown bytes")
    if isinstance(s, (str, bytes)):
        if isinstance(s, str) and s.startswith("\x03json:"):
            return _dc(ctx().attached[s])
        return _json.loads(s)
    raise TypeError("json")


def _has_terms(o):
    return True


def _dc(o):
    if isinstance(o, dict):
        return {k: _dc(v) for k, v in o.items()}
    if isinstance(o, list):
        return [_dc(v) for v in o]
    return o


def op_mod():
    d = {}
    for n, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"), ("floordiv", "FloorDiv"), ("mod", "Mod"), ("and_", "BitAnd"), ("or_", "BitOr")):
        d[n] = lambda a, b, op=op: binop(IP, op, a, b)
    for n, op in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE")):
        d[n] = lambda a, b, op=op: compare(IP, op, a, b)
    d["attrgetter"] = lambda *ns: Builtin("attrgetter", lambda o: IP.getattr(o, ns[0]) if len(ns) == 1 else tuple(IP.getattr(o, n) for n in ns))
    d["itemgetter"] = lambda *ks: Builtin("itemgetter", lambda o: getitem(IP, o, ks[0]) if len(ks) == 1 else tuple(getitem(IP, o, k) for k in ks))
    return d


def product_(*its, repeat=1):
    return iter(list(itertools.product(*[list(iterate(IP, i)) for i in its], repeat=repeat)))


def mathfn(n):
    def f(*a):
        a = [scalar(x) for x in a]
        if any(isinstance(x, E) for x in a):
            if n in ("exp", "log", "sqrt", "floor", "ceil", "trunc", "fabs", "log1p", "expm1"):
                if len(a) == 1:
                    r = T.fn1("abs" if n == "fabs" else n, a[0])
                    return T.cast("int64", r) if n in ("floor", "ceil", "trunc") and not T.isint(r) else r
            if n == "prod":
                pass
            if n in ("isnan", "isfinite", "isinf"):
                return boolfn(n)(a[0])
            return T.unk("math." + n)
        return getattr(math, n)(*a)

    return f


def ceil_div_math(x):
    return mathfn("ceil")(x)


class BadZipFile(Exception):
    pass


class WebpError(RuntimeError):
    pass


def make_lock():
    from .watch import Lock

    k = Lock()
    return LibObj("lock", lock=k, acquire=Builtin("acquire", lambda *a, **q: k.enter(ctx().watch) or True), release=Builtin("release", lambda: k.leave(ctx().watch)), locked=Builtin("locked", lambda: k.depth > 0))


def thread_local():
    """an attribute bag each thread has its own of"""
    return Obj(Cls("local", [], {}))


def lib_module_table(name):
    t = tables()
    if name == "numpy":
        return t["np"]
    if name == "torch":
        return t["torch"]
    if name in ("numba", "numba.core.decorators"):
        return {"jit": jit_decorator, "njit": jit_decorator, "prange": lambda *a: range_(*a, par=True), "set_num_threads": lambda n: None,
                "get_num_threads": lambda: T.fresh("threads", "i", 1), "vectorize": lambda *a, **k: Unk("numba.vectorize"),
                "guvectorize": lambda *a, **k: Unk("numba.guvectorize")}
    if name == "pathlib":
        return {"Path": PATH, "PurePath": PATH, "PosixPath": PATH}
    if name == "json":
        return {"loads": json_loads, "load": lambda f, **k: json_loads(f.m_read()), "dumps": lambda *a, **k: Unk("json.dumps"), "JSONDecodeError": _json.JSONDecodeError}
    if name == "threading":
        return {"Lock": make_lock, "RLock": make_lock, "local": thread_local, "get_ident": lambda: T.fresh("thread", "i", 0)}
    if name == "zipfile":
        return {"ZipFile": lambda f, mode="r", **k: B.open_zip(ctx(), f), "BadZipFile": BadZipFile, "BadZipfile": BadZipFile, "is_zipfile": lambda f: True}
    if name == "io":
        return {"BytesIO": lambda b=b"": B.bytesio(b), "SEEK_SET": 0, "SEEK_CUR": 1, "SEEK_END": 2, "BufferedReader": lambda f, *a: f}
    if name == "logging":
        return {"getLogger": lambda *a: LOGGER, **{n: (lambda *a, **k: None) for n in ("debug", "info", "warning", "error", "basicConfig")}}
    if name == "warnings":
        return {"warn": lambda *a, **k: None, "catch_warnings": lambda **k: LibObj("catch_warnings"), "simplefilter": lambda *a, **k: None, "filterwarnings": lambda *a, **k: None}
    if name == "functools":
        return {"lru_cache": cache_, "cache": cache_, "wraps": lambda f: Builtin("wraps", lambda g: g), "partial": partial_, "reduce": freduce,
                "cached_property": lambda f: Prop(f), "total_ordering": lambda c: c, "singledispatch": lambda f: _bad("singledispatch")}
    if name == "dataclasses":
        return {"dataclass": dataclass_, "field": field_, "replace": replace_, "fields": lambda o: [LibObj("field", name=n) for n in (o.fields if isinstance(o, Cls) else o.cls.fields)],
                "asdict": lambda o: {n: o.d[n] for n in o.cls.fields}, "astuple": lambda o: tuple(o.d[n] for n in o.cls.fields), "is_dataclass": lambda o: getattr(o if isinstance(o, Cls) else getattr(o, "cls", None), "fields", None) is not None}
    if name == "enum":
        return {"Enum": EnumBase(), "IntEnum": EnumBase(), "auto": lambda: T.fresh("auto"), "unique": lambda c: c, "Flag": EnumBase(), "StrEnum": EnumBase()}
    if name == "copy":
        return {"deepcopy": deepcopy_, "copy": copy_copy}
    if name in ("typing", "typing_extensions"):
        return {"TYPE_CHECKING": False, "cast": lambda t, x: x, "overload": lambda f: f, "final": lambda f: f, "runtime_checkable": lambda c: c, "no_type_check": lambda f: f,
                "TypeVar": lambda *a, **k: LibObj("TypeVar"), "NewType": lambda n, t: Builtin(n, lambda x: x)}
    if name == "operator":
        return op_mod()
    if name == "itertools":
        return {"chain": Builtin("chain", lambda *its: iter([x for i in its for x in iterate(IP, i)]), {"from_iterable": Builtin("from_iterable", lambda it: iter([x for i in iterate(IP, it) for x in iterate(IP, i)]))}),
                "product": product_, "count": lambda a=0, s=1: itertools.count(a, s), "islice": lambda it, *a: itertools.islice(iterate(IP, it), *a), "repeat": itertools.repeat,
                "accumulate": lambda it, f=None: iter(list(itertools.accumulate(list(iterate(IP, it)), (lambda a, b: IP.call(f, [a, b], {})) if f else (lambda a, b: binop(IP, "Add", a, b))))),
                "zip_longest": lambda *its, fillvalue=None: iter(list(itertools.zip_longest(*[list(iterate(IP, i)) for i in its], fillvalue=fillvalue))),
                "takewhile": lambda f, it: itertools.takewhile(lambda x: IP.truth(IP.call(f, [x], {})), iterate(IP, it)), "pairwise": lambda it: iter(list(itertools.pairwise(list(iterate(IP, it)))))}
    if name == "math":
        d = {n: mathfn(n) for n in dir(math) if callable(getattr(math, n)) and not n.startswith("_")}
        d.update(pi=math.pi, e=math.e, inf=math.inf, nan=math.nan)
        d["prod"] = lambda it, start=1: freduce(Builtin("mul", lambda a, b: binop(IP, "Mult", a, b)), it, start)
        return d
    if name == "time":
        return {n: (lambda: T.fresh("time", "f")) for n in ("time", "perf_counter", "monotonic")}
    if name == "os":
        return {"environ": {}, "fspath": lambda p: path_str(p), "getenv": lambda k, d=None: d, "cpu_count": lambda: T.fresh("cpus", "i", 1), "SEEK_SET": 0, "SEEK_CUR": 1, "SEEK_END": 2,
                "path": LibMod("os.path"), "PathLike": TypeObj("os.PathLike", lambda x: isinstance(x, APath)), "linesep": "\n", "fstat": lambda f: Unk("fstat"), "stat": lambda p: B.path_attr(IP, APath(path_str(p)), "stat").fn(), "remove": lambda p: ctx().fs.pop(path_str(p), None), "replace": lambda a, b: B.rename(ctx(), path_str(a), path_str(b)), "rename": lambda a, b: B.rename(ctx(), path_str(a), path_str(b)), "unlink": lambda p: ctx().fs.pop(path_str(p), None), "fsync": lambda *a: None}
    if name == "os.path":
        return {"exists": lambda p: path_str(p) in ctx().fs, "isfile": lambda p: path_str(p) in ctx().fs, "join": lambda *a: posixpath.join(*[path_str(x) for x in a]), "basename": lambda p: posixpath.basename(path_str(p)),
                "dirname": lambda p: posixpath.dirname(path_str(p)), "splitext": lambda p: posixpath.splitext(path_str(p)), "getsize": lambda p: B.file_size(ctx(), path_str(p)), "isdir": lambda p: B.is_dir(ctx(), path_str(p))}
    if name == "contextlib":
        return {"nullcontext": lambda x=None: LibObj("nullcontext", value=x), "suppress": lambda *e: Suppress(e), "contextmanager": lambda f: Unk("contextmanager"), "closing": lambda x: x, "ExitStack": lambda: _bad("ExitStack")}
    if name == "collections":
        return {"namedtuple": namedtuple_, "OrderedDict": dict, "defaultdict": lambda f=None, *a: _defaultdict(f), "deque": lambda it=(), maxlen=None: list(iterate(IP, it)) if maxlen is None else _bad("deque with maxlen"), "Counter": lambda *a: _bad("Counter")}
    if name == "struct":
        return {"pack": struct_pack, "unpack": struct_unpack, "unpack_from": lambda f, b, offset=0: struct_unpack(f, B.slice_(b if isinstance(b, ABytes) else ABytes([bytes(b)]), offset, T.add(offset, _struct.calcsize(f)))), "calcsize": _struct.calcsize, "error": ValueError, "Struct": lambda f: LibObj("Struct", pack=Builtin("pack", lambda *a: struct_pack(f, *a)), unpack=Builtin("unpack", lambda b: struct_unpack(f, b)), size=_struct.calcsize(f))}
    if name == "sys":
        return {"byteorder": "little", "maxsize": 2**63 - 1, "modules": {}, "version_info": (3, 12, 0), "platform": "linux", "stderr": LibObj("stderr"), "stdout": LibObj("stdout")}
    if name == "imagecodecs":
        return {"webp_decode": lambda b, **k: B.image_of(ctx(), b), "WebpError": WebpError}
    if name == "torch.nn.functional":
        from . import lib2

        return {"normalize": lib2.fnormalize, "pad": fpad, "sigmoid": t["torch"]["sigmoid"], "relu": lib2.relu, "softplus": lib2.softplus, "logsigmoid": lib2.logsigmoid, "softmax": lib2.softmax, "tanh": t["torch"]["tanh"]}
    if name == "torch.cuda":
        return {"is_available": lambda: getattr(ctx(), "cuda", False), "synchronize": lambda *a: None, "device_count": lambda: 0, "empty_cache": lambda: None}
    if name in ("numpy.linalg", "torch.linalg"):
        return {"norm": lambda a, ord=None, axis=None, keepdims=False, dim=None, keepdim=False: norm(a, None, axis, dim, keepdims, keepdim, ord), "vector_norm": lambda a, ord=None, axis=None, dim=None, keepdims=False, keepdim=False: norm(a, None, axis, dim, keepdims, keepdim)}
    if name == "torch.special":
        return {"logit": logit_t, "expit": t["torch"]["sigmoid"], "softmax": t["torch"]["softmax"], "log1p": t["torch"]["log1p"], "expm1": t["torch"]["expm1"]}
    if name in ("scipy.special",):
        return {"expit": t["np"]["sigmoid"], "logit": logit_t}
    return None


def fpad(a, pad, mode="constant", value=0):
    pad = list(pad)
    for k in range(len(pad) // 2):
        d = a.ndim - 1 - k
        lo, hi = pad[2 * k], pad[2 * k + 1]
        if mode != "constant":
            raise Unresolved("pad mode")
        parts = []
        for n in (lo,):
            if isinstance(n, E) or n > 0:
                parts.append(A.full((*a.shape[:d], n, *a.shape[d + 1:]), a.dtype, value or 0, a.lib, a.device))
        parts.append(a)
        if isinstance(hi, E) or hi > 0:
            parts.append(A.full((*a.shape[:d], hi, *a.shape[d + 1:]), a.dtype, value or 0, a.lib, a.device))
        if len(parts) > 1:
            a = A.concat(parts, d)
    return a


def struct_pack(f, *a):
    if any(isinstance(x, (E, Arr)) for x in a):
        codes = re.fullmatch(r"[<=@]?(?:(\d*)([fIBHid]))", f)
        if codes:
            dt = _DTN.get(codes.group(2), None)
            return B.of_array(A.from_list([scalar(x) for x in a], dt))
        raise Unresolved("struct.pack of symbolic values")
    return _struct.pack(f, *a)


def struct_unpack(f, b):
    if isinstance(b, bytes):
        try:
            return _struct.unpack(f, b)
        except _struct.error as e:
            err(ValueError(str(e)))
    codes = re.fullmatch(r"[<=@]?(\d*)([fIBHid])", f)
    if codes and isinstance(b, ABytes):
        n = int(codes.group(1) or 1)
        x = B.interpret(b, _DTN[codes.group(2)], n, 0)
        return tuple(x.read((k,)) for k in range(n))
    raise Unresolved("struct.unpack")


class _DD(dict):
    pass


def _defaultdict(f):
    d = _DD()
    d.default_factory = f
    return d


def namedtuple_(name, fields, **k):
    fs = fields.replace(",", " ").split() if isinstance(fields, str) else list(fields)
    c = Cls(name, [LibObj("NamedTuple")], {"__annotations__": dict.fromkeys(fs, "")})
    return c


class Suppress:
    def __init__(self, excs):
        self.excs = excs


LOGGER = LibObj("logger", **{n: Builtin(n, lambda *a, **k: None) for n in ("debug", "info", "warning", "error", "exception", "critical", "log", "setLevel", "addHandler")},
                isEnabledFor=Builtin("isEnabledFor", lambda *a: False), level=0)
PATH = TypeObj("Path", lambda x: isinstance(x, APath), lambda *a: APath(posixpath.join(*[path_str(x) for x in a])) if a else APath("."))

_modtabs = {}
SUBMODS = {"numpy": ("linalg", "typing", "random", "lib", "core", "testing"), "torch": ("cuda", "nn", "linalg", "special", "jit", "_dynamo", "utils", "backends", "autograd"),
           "torch.nn": ("functional",), "os": ("path",), "numba": ("types", "typed", "config", "core")}
CONSTS = {"logging": {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40}}


def libmod_attr(ip, m, n):
    if n in SUBMODS.get(m.name, ()):
        return LibMod(m.name + "." + n)
    t = _modtabs.get(m.name, NOTHING)
    if t is NOTHING:
        t = _modtabs[m.name] = lib_module_table(m.name)
    if t is not None and n in t:
        v = t[n]
        if callable(v) and not isinstance(v, (type, Builtin, DT, TypeObj, LibObj)):
            v = t[n] = Builtin(f"{m.name}.{n}", v)
        return v
    if n in CONSTS.get(m.name, {}):
        return CONSTS[m.name][n]
    if n == "__version__":
        return "0"
    if n == "__name__":
        return m.name
    top = m.name.split(".")[0]
    if top in ("typing", "typing_extensions", "collections", "abc", "types", "numbers") or m.name == "numpy.typing":
        return LibObj(m.name + "." + n)
    if m.name == "torch" and n in names.TORCH and METHODS.get(n) is not None:
        f = METHODS[n]
        return Builtin(f"torch.{n}", lambda *r, **k: f(*r, **k))
    if m.name in ("numpy", "torch") and n not in (names.NUMPY if m.name == "numpy" else names.TORCH) and not n.startswith("_"):
        raise Raised(AttributeError(f"module {m.name!r} has no attribute {n!r}"), ctx().loc())
    return Unk(f"{m.name}.{n}")


# ------------------------------------------------------------------ with
def enter(ip, cm):
    if isinstance(cm, (Arr, ABytes)):  # with memoryview(...) as v
        return cm
    if isinstance(cm, (FileObj, AZip)):
        return cm
    if isinstance(cm, LibObj) and "lock" in cm.attrs:
        cm.attrs["lock"].enter(ctx().watch)
        return True
    if isinstance(cm, Obj):
        f = cm.cls.find("__enter__")
        if f is NOTHING:
            err(TypeError("object does not support the context manager protocol"))
        return ip.call(f, [cm], {})
    if isinstance(cm, LibObj):
        return cm.attrs.get("value")
    if isinstance(cm, Suppress):
        return None
    if isinstance(cm, NoGrad):
        cm.on()
        return None
    if isinstance(cm, Unk):
        raise Unresolved("with " + cm.why)
    raise Unresolved("context manager")


def leave(ip, cm, r):
    if isinstance(cm, Suppress):
        return any(isinstance(e, type) and isinstance(r.exc, e) for e in cm.excs)
    return False


def close(ip, cm):
    if isinstance(cm, (FileObj, AZip)):
        cm.closed = True
    elif isinstance(cm, NoGrad):
        cm.done()
    elif isinstance(cm, LibObj) and "lock" in cm.attrs:
        cm.attrs["lock"].leave(ctx().watch)
    elif isinstance(cm, Obj):
        f = cm.cls.find("__exit__")
        if f is not NOTHING:
            ip.call(f, [cm, None, None, None], {})


def state_key(ip, fr):
    return None
