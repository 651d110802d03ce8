"""Abstract byte strings, files, paths and archives.

A byte string is a sequence of segments: literal bytes (header text, possibly
with tokens standing for symbolic numbers) and blobs, the memory image of an
array.  A slice is a view with a symbolic offset and length.
"""
from __future__ import annotations

import itertools
import posixpath

from . import arrays as A
from . import evalr
from . import terms as T
from .arrays import Unresolved
from .terms import E

_n = itertools.count()
INTS = {"uint8", "int8", "uint16", "int16", "uint32", "int32", "int64", "uint64"}


def L():
    from . import lib

    return lib


def ctx():
    return A.CTX


class Blob:
    __slots__ = ("read", "n", "dtype", "src")

    def __init__(self, read, n, dtype, src=None):
        self.read, self.n, self.dtype, self.src = read, n, dtype, src

    def __repr__(self):
        return f"<{T.show(self.n) if isinstance(self.n, E) else self.n} x {self.dtype}>"


def seg_len(s):
    if isinstance(s, Blob):
        return T.mul(s.n, L().isz(s.dtype))
    return len(s)


def _le(a, b):
    c = T.le(a, b)
    return c if isinstance(c, bool) else A.CTX.known(c)


class ABytes:
    def __init__(self, segs, off=0, n=None, payload=None):
        out = []
        for s in segs:
            if isinstance(s, (bytes, bytearray)):
                s = bytes(s)
                if not s:
                    continue
                if out and isinstance(out[-1], bytes):
                    out[-1] += s
                    continue
            out.append(s)
        self.segs, self.off, self.payload = out, off, payload
        self._n = n

    def __repr__(self):
        return "bytes" + repr(self.segs)

    def total(self):
        n = 0
        for s in self.segs:
            n = T.add(n, seg_len(s))
        return n

    def length(self):
        if self._n is None:
            return T.sub(self.total(), self.off)
        return self._n

    def native(self):
        """the literal bytes, or None"""
        if self.payload is not None:
            return None
        n = self.length()
        if not isinstance(n, E) and n <= 0:
            return b""
        if isinstance(self.off, E) or isinstance(n, E):
            return None
        out = b""
        pos = 0
        for s in self.segs:
            if isinstance(s, Blob):
                break
            out += s
            pos += len(s)
        if self.off + n <= pos:
            return out[self.off: self.off + n]
        return None

    def prefix(self):
        """literal bytes the string starts with, and whether that is all of it"""
        b = self.native()
        if b is not None:
            return b, True
        if isinstance(self.off, E):
            return b"", False
        out = b""
        for s in self.segs:
            if isinstance(s, Blob):
                break
            out += s
        return out[self.off:], False

    def attached(self):
        return self.payload[1] if self.payload is not None and self.payload[0] == "json" else None

    def need(self):
        b = self.native()
        if b is None:
            raise Unresolved("text operation on binary data")
        return b

    # ---- methods seen by the program
    def m_find(self, needle, start=0, end=None):
        return find(self, needle, start)

    def m_index(self, needle, start=0, end=None):
        k = find(self, needle, start)
        if not isinstance(k, E) and k < 0:
            L().err(ValueError("subsection not found"))
        return k

    def m_rfind(self, needle):
        return self.need().rfind(needle)

    def m_startswith(self, p):
        b, full = self.prefix()
        if full or len(b) >= max(len(x) for x in (p if isinstance(p, tuple) else (p,))):
            return b.startswith(p)
        raise Unresolved("startswith on binary data")

    def m_endswith(self, p):
        return self.need().endswith(p)

    def m_decode(self, enc="utf-8", errors="strict"):
        if self.payload is not None and self.payload[0] == "json":
            key = f"\x03json:{next(_n)}"
            ctx().attached[key] = self.payload[1]
            return key
        try:
            return self.need().decode(enc, errors)
        except UnicodeDecodeError as e:
            L().err(e)

    def m_split(self, *a, **k):
        # the literal part split, with the binary tail as the last piece
        b, full = self.prefix()
        if full:
            return b.split(*a, **k)
        sep = a[0] if a else k.get("sep")
        mx = a[1] if len(a) > 1 else k.get("maxsplit", -1)
        if sep is not None and mx >= 0:
            parts = b.split(sep, mx)
            if len(parts) == mx + 1:
                head = sum(len(p) + len(sep) for p in parts[:-1])
                return [*parts[:-1], slice_(self, head, None)]
        raise Unresolved("split of binary data")

    def m_partition(self, sep):
        k = find(self, sep)
        if isinstance(k, E):
            raise Unresolved("partition")
        if k < 0:
            return (self, b"", b"")
        return (slice_(self, 0, k), sep, slice_(self, k + len(sep), None))

    def m_splitlines(self, *a):
        return self.need().splitlines(*a)

    def m_strip(self, *a):
        return self.need().strip(*a)

    def m_rstrip(self, *a):
        return self.need().rstrip(*a)

    def m_count(self, x):
        return self.need().count(x)

    def m_tobytes(self):
        return self

    def m_cast(self, *a):
        return self

    def m_hex(self):
        return self.need().hex()

    def m_release(self):
        return None


def simp(b):
    """the native value where it is literal"""
    x = b.native()
    return x if x is not None else b


def tob(x):
    if isinstance(x, ABytes):
        return x
    if isinstance(x, (bytes, bytearray, memoryview)):
        return ABytes([bytes(x)])
    if isinstance(x, A.Arr):
        return of_array(x)
    L().err(TypeError(f"a bytes-like object is required, not {type(x).__name__!r}"))


def whole(b):
    """segments of a byte string, materialising a view"""
    if not isinstance(b.off, E) and b.off == 0 and (b._n is None or T.eq(b._n, b.total()) is True):
        return b.segs
    out = []
    pos = 0
    end = T.add(b.off, b.length())
    for s in b.segs:
        n = seg_len(s)
        st, en = pos, T.add(pos, n)
        pos = en
        if _le(en, b.off) is True or _le(end, st) is True:
            continue
        lo_in, hi_in = _le(b.off, st), _le(en, end)
        if lo_in is True and hi_in is True:
            out.append(s)
            continue
        if isinstance(s, bytes):
            lo = T.sub(b.off, st) if lo_in is not True else 0
            hi = T.sub(end, st) if hi_in is not True else len(s)
            if isinstance(lo, E) or isinstance(hi, E):
                raise Unresolved("byte slice")
            out.append(s[max(lo, 0): hi])
            continue
        isz = L().isz(s.dtype)
        lo = 0 if lo_in is True else T.sub(b.off, st)
        hi = n if hi_in is True else T.sub(end, st)
        if lo_in is None or hi_in is None or T.eq(T.mod(lo, isz), 0) is not True or T.eq(T.mod(hi, isz), 0) is not True:
            raise Unresolved("byte slice")
        k0 = T.fdiv(lo, isz)
        out.append(Blob((lambda s, k0: lambda k: s.read(T.add(k0, k)))(s, k0), T.sub(T.fdiv(hi, isz), k0), s.dtype, s.src))
    return out


def join(items, sep=b""):
    segs = []
    payload = None
    items = list(items)
    if not sep:
        rest = [x for x in items if not (isinstance(x, (bytes, bytearray)) and not x)]
        if len(rest) == 1:
            return rest[0] if isinstance(rest[0], (bytes, ABytes)) else simp(tob(rest[0]))
        items = rest
    for j, x in enumerate(items):
        if j and sep:
            segs.append(sep)
        b = tob(x)
        if b.payload is not None:
            if len(items) == 1:
                payload = b.payload
            else:
                raise Unresolved("concatenation of a document")
        segs += whole(b)
    return simp(ABytes(segs, payload=payload))


def _norm(k, n):
    if isinstance(k, E):
        return k
    if k < 0:
        r = T.add(n, k)
        return r if isinstance(r, E) else max(r, 0)
    return k


def slice_(b, start, stop):
    start, stop = L().scalar(start), L().scalar(stop)
    b = tob(b)
    if b.payload is not None:
        raise Unresolved("slice of a document")
    n = b.length()
    start = 0 if start is None else _norm(start, n)
    if stop is None:
        stop = n
    else:
        stop = _norm(stop, n)
        if _le(stop, n) is not True:
            c = T.le(stop, n)
            stop = stop if ctx().decide(c) else n
    if _le(start, n) is not True and not ctx().decide(T.le(start, n)):
        return b""
    if _le(start, stop) is not True and not ctx().decide(T.le(start, stop)):
        return b""
    return simp(ABytes(b.segs, T.add(b.off, start), T.sub(stop, start)))


def byte_at(b, k):
    x = b.native()
    if x is not None and not isinstance(k, E):
        if -len(x) <= k < len(x):
            return x[k]
        L().err(IndexError("index out of range"))
    p, _ = b.prefix()
    if not isinstance(k, E) and 0 <= k < len(p):
        return p[k]
    return interpret(b, "uint8", None, 0).read((k,))


def find(hay, needle, start=0):
    hay = tob(hay)
    if isinstance(needle, ABytes):
        needle = needle.need()
    if isinstance(start, E):
        raise Unresolved("search from a symbolic offset")
    b, full = hay.prefix()
    k = b.find(needle, start)
    if k >= 0 or full:
        return k
    raise Unresolved("search in binary data")


def bytes_equal(a, b):
    a, b = tob(a), tob(b)
    x, y = a.native(), b.native()
    if x is not None and y is not None:
        return x == y
    n = T.eq(a.length(), b.length())
    if n is False:
        return False
    p, _ = a.prefix()
    q, _ = b.prefix()
    k = min(len(p), len(q))
    if p[:k] != q[:k]:
        return False
    if isinstance(n, E) and ctx().known(n) is False:
        return False
    raise Unresolved("comparison of binary data")


def is_empty(b):
    if isinstance(b, ABytes):
        n = b.length()
        return ctx().decide(T.le(n, 0)) if isinstance(n, E) else n <= 0
    return not b


def of_array(a):
    raw = a.attrs.get("raw")
    if raw is not None and not a.buf.log:
        return raw if isinstance(raw, ABytes) else ABytes([raw])
    rd = a.snap()
    shape = a.shape
    n = a.size()
    if len(shape) == 1:
        f = lambda k: rd((k,))
    else:
        f = lambda k: rd(A.flat_to_idx(k, shape))
    return ABytes([Blob(f, n, a.dtype, a)])


def _garbage(dt):
    nm = f"misread{next(_n)}"
    return lambda k: T.elem(nm, dt, (k,))


def _reader(s, st, dt):
    """f(byte position) -> value of type dt stored there in segment s starting at st"""
    isz = L().isz(dt)
    if isinstance(s, bytes):
        import struct

        codes = {"float32": "f", "float64": "d", "uint8": "B", "int8": "b", "uint32": "I", "int32": "i", "uint16": "H", "int16": "h", "int64": "q", "uint64": "Q"}
        g = _garbage(dt)

        def f(p):
            o = T.sub(p, st)
            if not isinstance(o, E) and 0 <= o and o + isz <= len(s) and dt in codes:
                return struct.unpack_from("<" + codes[dt], s, o)[0]
            return g(o)

        return f
    sz = L().isz(s.dtype)
    g = _garbage(dt)
    same = s.dtype == dt
    cast = not same and sz == isz and s.dtype in INTS | {"bool"} and dt in INTS | {"bool"}

    def f(p):
        o = T.sub(p, st)
        if (same or cast) and T.eq(T.mod(o, isz), 0) is True:
            v = s.read(T.fdiv(o, isz))
            return v if same else A.coerce(dt, v)
        if dt == "uint8" and sz > 1 and s.dtype in T._CODES:
            return T.byteof(s.read(T.fdiv(o, sz)), T.mod(o, sz), s.dtype)
        if s.dtype in ("uint8", "int8") and isz > 1 and dt in T._CODES:
            bs = tuple(s.read(T.add(o, k)) for k in range(isz))
            if s.dtype == "uint8":
                return T.frombytes(bs, dt)
        if s.dtype in T._CODES and dt in T._CODES and (sz % isz == 0 or isz % sz == 0) and T.eq(T.mod(o, isz), 0) is True:
            return T.frombytes(tuple(T.byteof(s.read(T.fdiv(T.add(o, k), sz)), T.mod(T.add(o, k), sz), s.dtype) for k in range(isz)), dt)
        return g(o)

    return f


def interpret(b, dt, count, offset, strict=False):
    if b.payload is not None:
        raise Unresolved("document read as an array")
    isz = L().isz(dt)
    n = T.sub(b.length(), offset)
    if strict and not ctx().decide(T.le(0, n)):
        L().err(ValueError("offset must be non-negative and no greater than buffer length"))
    if count is None:
        if strict and not ctx().decide(T.eq(T.mod(n, isz), 0)):
            L().err(ValueError("buffer size must be a multiple of element size"))
        count = T.fdiv(n, isz)
    elif strict and not ctx().decide(T.le(T.mul(count, isz), n)):
        L().err(ValueError("buffer is smaller than requested size"))
    lo = T.add(b.off, offset)
    hi = T.add(lo, T.mul(count, isz))
    cands = []
    pos = 0
    for s in b.segs:
        st, en = pos, T.add(pos, seg_len(s))
        pos = en
        if _le(en, lo) is True or _le(hi, st) is True:
            continue
        cands.append((en, _reader(s, st, dt)))
    if not cands:
        g = _garbage(dt)
        cands = [(hi, lambda p: g(T.sub(p, lo)))]

    def init(idx):
        p = T.add(lo, T.mul(idx[0], isz))
        out = cands[-1][1](p)
        for en, rd in reversed(cands[:-1]):
            c = T.lt(p, en)
            k = ctx().known(c) if isinstance(c, E) else c
            if k is True:
                out = rd(p)
            elif k is None:
                out = T.ite(c, rd(p), out)
        return out

    x = A.fresh_array((count,), dt, init, "file data")
    if dt in ("uint8", "int8", "bool"):
        x.attrs["raw"] = ABytes(b.segs, lo, T.mul(count, isz))
    return x


def iteration_segment(segs):
    """what one iteration of a loop appends: (dtype, count, reader)"""
    dts = {s.dtype if isinstance(s, Blob) else "uint8" for s in segs}
    if len(dts) != 1 or len(segs) > 8 or any(isinstance(s, bytes) and len(s) > 64 for s in segs):
        raise Unresolved("mixed content written in a symbolic loop")
    n, parts = 0, []
    for s in segs:
        if isinstance(s, bytes):
            def rd(j, s=s):
                v = s[-1]
                for q in range(len(s) - 2, -1, -1):
                    v = T.ite(T.eq(j, q), s[q], v)
                return v
        else:
            rd = s.read
        parts.append((n, rd))
        n = T.add(n, seg_len(s) if isinstance(s, bytes) else s.n)

    def read(k):
        out = parts[-1][1](T.sub(k, parts[-1][0]))
        for j in range(len(parts) - 2, -1, -1):
            out = T.ite(T.lt(k, parts[j + 1][0]), parts[j][1](T.sub(k, parts[j][0])), out)
        return out

    return dts.pop(), n, read


def loop_blob(i, lo, hi, piece, facts, step, dist):
    """everything the iterations lo <= i < hi append, as one segment"""
    dt, n, k, val = piece
    c = n
    if isinstance(n, E) and i in n.syms:
        # all pieces but the last have one size
        first = T.subst(n, {i: lo})
        cands = [first]
        if not isinstance(step, E) and T.num(step):
            for t in _leaves(first):
                cands.append(t)
            cands += [step * m for m in (1, 3, 4, 14, 16, 24, 45, 56, 59)]
        c = next((g for g in cands if not (isinstance(g, E) and i in g.syms) and _agree(n, g, i, lo, T.sub(hi, 1), facts)), None)
        if c is None:
            raise Unresolved("pieces of varying size written in a symbolic loop")
    last = T.sub(hi, 1)
    total = T.ite(T.lt(lo, hi), T.add(T.mul(c, T.sub(last, lo)), T.subst(n, {i: last})), 0)
    if T.num(c) and T.num(step) and c % step == 0:
        g = T.mul(c // step, dist)
        if _agree(total, g, T.fresh("once", "i", 0), 0, 1, facts):
            total = g
    elif c is n:
        total = T.mul(c, T.mx(T.sub(hi, lo), 0))
    return Blob(lambda q: T.subst(val, {i: T.add(lo, T.fdiv(q, c)), k: T.mod(q, c)}), total, dt)


def _leaves(t):
    """the operands of minima and maxima in a count"""
    if isinstance(t, E):
        for x in T._flat(t.args):
            if isinstance(x, E) or T.num(x):
                yield x


def _agree(a, b, i, lo, hi, facts):
    """a = b for every lo <= i < hi, on every draw"""
    seen = 0
    more = [*facts, T.lt(lo, hi)] if isinstance(T.lt(lo, hi), E) else facts
    for s in evalr.samples(more, 24, seed=3):
        try:
            x, y = int(s.ev(lo)), int(s.ev(hi))
            for v in sorted({x, x + 1, (x + y) // 2, y - 1}):
                if x <= v < y:
                    s.memo.clear()
                    s.vals[i] = v
                    if s.ev(a) != s.ev(b):
                        return False
                    seen += 1
        except evalr.Skip:
            continue
    return seen > 3 or None


# ------------------------------------------------------------------ files
class AFile:
    """content of a file; documents, images and archives carry a payload"""

    def __init__(self, segs=(), payload=None):
        self.segs, self.payload = list(segs), payload
        self.writes = []

    def bytes(self):
        return ABytes(self.segs, payload=self.payload)


class APath:
    def __init__(self, s):
        self.s = posixpath.normpath(s) if s else "."

    def __repr__(self):
        return self.s

    def __hash__(self):
        return hash(self.s)

    def __eq__(self, o):
        return isinstance(o, APath) and o.s == self.s


class FileObj:
    def __init__(self, file, name, mode):
        self.file, self.name, self.mode = file, name, mode
        self.pos = 0
        self.closed = False
        self.brief = False
        self.text = "b" not in mode
        self.depth = len(ctx().loops)

    def data(self):
        self._settled()
        return self.file.bytes()

    def _settled(self):
        """content and position are those before the symbolic loops the file is written in"""
        for lp in ctx().loops[self.depth:]:
            if self in lp.appended:
                raise Unresolved("a file inspected and written in a symbolic loop")
            lp.inspected.add(self)

    def _check(self):
        if self.closed:
            L().err(ValueError("I/O operation on closed file"))

    def _progress(self, n):
        if isinstance(n, E) or n:
            ctx().io_progress += 1
        else:
            ctx().io_eof += 1

    def m_read(self, n=-1):
        self._check()
        n = L().scalar(n)
        if self.file.payload is not None:
            self.pos = 1
            return self.data()
        d = self.data()
        tot = d.length()
        if n is None or not isinstance(n, E) and n < 0:
            stop = tot
        else:
            stop = T.add(self.pos, n)
            k = _le(stop, tot)
            if k is None:
                # where the literal header lies within reach, the extent of the tail is left open
                if not isinstance(stop, E) and not isinstance(self.pos, E):
                    p = ABytes(d.segs).prefix()[0]
                    if len(p) <= stop:
                        stop = T.mn(stop, tot)
                    else:
                        pass
                elif not ctx().decide(T.le(stop, tot)):
                    stop = tot
            elif k is False:
                stop = tot
        if _le(self.pos, tot) is not True and not ctx().decide(T.le(self.pos, tot)):
            self._progress(0)
            return "" if self.text else b""
        r = simp(ABytes(d.segs, self.pos, T.sub(stop, self.pos)))
        self._progress(T.sub(stop, self.pos))
        self.pos = stop
        if self.text:
            return r.decode("utf-8", "replace") if isinstance(r, bytes) else r.m_decode()
        return r

    def m_readline(self, *a):
        self._check()
        d = self.data()
        if isinstance(self.pos, E):
            raise Unresolved("line read at a symbolic position")
        p = b""
        full = True
        for s in d.segs:
            if isinstance(s, Blob):
                full = False
                break
            p += s
        if self.pos >= len(p) and full:
            self._progress(0)
            return "" if self.text else b""
        k = p.find(b"\n", self.pos)
        if k < 0:
            if not full:
                raise Unresolved("line read in binary data")
            k = len(p) - 1
        r = p[self.pos: k + 1]
        self.pos = k + 1
        self._progress(len(r))
        return r.decode("utf-8", "replace") if self.text else r

    def readline(self):
        return self.m_readline()

    def lines(self):
        while True:
            x = self.m_readline()
            if not x:
                return
            yield x

    def m_readlines(self, *a):
        return list(self.lines())

    def m_seek(self, off, whence=0):
        self._check()
        off = L().scalar(off)
        self._settled()
        if len(ctx().loops) > self.depth:
            raise Unresolved("file position changed in a symbolic loop")
        if whence == 1:
            off = T.add(self.pos, off)
        elif whence == 2:
            off = T.add(self.data().length(), off)
        self.pos = off
        return off

    def m_tell(self):
        self._settled()
        return self.pos

    def m_write(self, x):
        return self.write(x)

    def write(self, x):
        self._check()
        if isinstance(x, str):
            if not self.text:
                L().err(TypeError("a bytes-like object is required, not 'str'"))
            x = x.encode()
        b = tob(x)
        if not any(m in self.mode for m in "wax+"):
            L().err(OSError("not writable"))
        end = ABytes(self.file.segs).length()
        if T.eq(self.pos, end) is not True:
            raise Unresolved("write inside a file")
        if ctx().guards:
            raise Unresolved("write under a guard")
        if len(ctx().loops) > self.depth:
            # the content an iteration adds; put together when the loop is left
            ctx().loops[-1].appended.setdefault(self, []).extend(whole(b))
            return b.length()
        self.append(b)
        return b.length()

    def append(self, b):
        end = ABytes(self.file.segs).length()
        self.file.segs = ABytes([*self.file.segs, *whole(b)]).segs
        n = b.length()
        self.pos = T.add(end, n)
        ctx().events.append(("write", self.name, b, ctx().loc()))

    def m_writelines(self, xs):
        for x in L().iterate(ctx().ip, xs):
            self.write(x)

    def fromfile(self, dt, count, offset):
        self._check()
        isz = L().isz(dt)
        if isinstance(offset, E) or offset:
            self.pos = T.add(self.pos, offset)
        d = self.data()
        left = T.sub(d.length(), self.pos)
        if _le(0, left) is not True and not ctx().decide(T.le(0, left)):
            left = 0
        avail = T.fdiv(left, isz)
        if not isinstance(count, E) and count < 0:
            n = avail
        else:
            n = count if ctx().decide(T.le(count, avail)) else avail
        x = interpret(d, dt, n, self.pos)
        self.pos = T.add(self.pos, T.mul(n, isz))
        self._progress(n)
        return x

    def m_readinto(self, a):
        if not isinstance(a, A.Arr):
            raise Unresolved("readinto")
        n = a.size()
        d = self.data()
        x = interpret(d, a.dtype, n, self.pos)
        got = T.mul(n, L().isz(a.dtype))
        left = T.sub(d.length(), self.pos)
        if not ctx().decide(T.le(got, left)):
            raise Unresolved("short readinto")
        A.setitem(a, Ellipsis, A.reshape(x, a.shape))
        self.pos = T.add(self.pos, got)
        return got

    def m_close(self):
        self.closed = True

    def m_flush(self):
        return None

    def m_fileno(self):
        return 3

    def m_truncate(self, *a):
        raise Unresolved("truncate")

    def m_getvalue(self):
        return simp(self.data())

    def m_getbuffer(self):
        return simp(self.data())

    def m_readable(self):
        return True

    def m_seekable(self):
        return True

    def m_peek(self, n=0):
        p = self.pos
        r = self.m_read(n or 8192)
        self.pos = p
        return r


def lookup(c, path):
    p = posixpath.normpath(path)
    return c.fs.get(p)


def opened(c, path, mode, brief=False):
    """a file opened by a library call that closes it itself"""
    o = open_file(c, path, mode)
    if brief:
        o.brief = True
    return o


def open_file(c, path, mode):
    o = _open_file(c, path, mode)
    c.handles.append(o)
    return o


def _open_file(c, path, mode):
    p = posixpath.normpath(path)
    if any(m in mode for m in "wxa+") and c.loops:
        raise Unresolved("file opened for writing in a symbolic loop")
    if "w" in mode or "x" in mode:
        if is_dir(c, p):
            L().err(IsADirectoryError(p))
        f = c.fs[p] = AFile()
        c.events.append(("create", p, None, c.loc()))
        return FileObj(f, p, mode)
    f = c.fs.get(p)
    if f is None:
        if "a" in mode:
            f = c.fs[p] = AFile()
        elif is_dir(c, p):
            L().err(IsADirectoryError(p))
        else:
            L().err(FileNotFoundError(p))
    o = FileObj(f, p, mode)
    if "a" in mode:
        o.pos = ABytes(f.segs).length()
    return o


def bytesio(b):
    b = tob(b)
    f = AFile(whole(b) if b.payload is None else b.segs, b.payload)
    return FileObj(f, "<bytes>", "rb+")


class AZip:
    def __init__(self, members, name=None):
        self.members, self.name, self.closed, self.brief = members, name, False, False

    def names(self):
        return list(self.members)

    def m_namelist(self):
        return list(self.members)

    def member(self, name):
        if isinstance(name, L().LibObj):
            name = name.attrs.get("filename")
        f = self.members.get(name)
        if f is None:
            L().err(KeyError(f"There is no item named {name!r} in the archive"))
        return name, f

    def m_read(self, name, *a):
        return simp(self.member(name)[1].bytes())

    def m_open(self, name, mode="r", **k):
        name, f = self.member(name)
        o = FileObj(f, name, "rb")
        ctx().handles.append(o)
        return o

    def info(self, n):
        return L().LibObj("ZipInfo", filename=n, file_size=self.members[n].bytes().length(), is_dir=L().Builtin("is_dir", lambda n=n: n.endswith("/")))

    def m_getinfo(self, name):
        return self.info(self.member(name)[0])

    def m_infolist(self):
        return [self.info(n) for n in self.members]

    def m_close(self):
        self.closed = True


def open_zip(c, f):
    if isinstance(f, FileObj):
        file = f.file
    elif isinstance(f, (bytes, ABytes)):
        L().err(FileNotFoundError("an archive's content is not its name"))
    else:
        p = posixpath.normpath(L().path_str(f))
        file = c.fs.get(p)
        if file is None:
            L().err(FileNotFoundError(p))
    if file.payload is None or file.payload[0] != "zip":
        L().err(L().BadZipFile("File is not a zip file"))
    z = AZip(file.payload[1], L().path_str(f) if not isinstance(f, FileObj) else None)
    if z.name is not None:
        c.handles.append(z)
    return z


def image_of(c, b):
    if isinstance(b, ABytes) and b.payload is not None and b.payload[0] == "image":
        _, name, h, w, ch = b.payload
        return A.input_array(name, (h, w, ch), "uint8")
    raise Unresolved("image of unknown bytes")


# ------------------------------------------------------------------ paths
def is_dir(c, p):
    p = posixpath.normpath(p)
    return any(k.startswith(p.rstrip("/") + "/") for k in c.fs) or p in (".", "/", "/tmp")


def file_size(c, p):
    f = lookup(c, p)
    if f is None:
        L().err(FileNotFoundError(p))
    return f.bytes().length()


def rename(c, a, b):
    a, b = posixpath.normpath(a), posixpath.normpath(b)
    if a not in c.fs:
        L().err(FileNotFoundError(a))
    c.fs[b] = c.fs.pop(a)


def _children(c, p):
    pre = p.rstrip("/") + "/"
    return sorted({k[len(pre):].split("/")[0] for k in c.fs if k.startswith(pre)})


def path_attr(ip, o, name):
    lib = L()
    c = ctx()
    s = o.s
    P = APath
    if name == "suffix":
        b = posixpath.basename(s)
        k = b.rfind(".")
        return b[k:] if 0 < k < len(b) - 1 else ""
    if name == "suffixes":
        b = posixpath.basename(s)
        return ["." + x for x in b.lstrip(".").split(".")[1:]]
    if name == "name":
        return posixpath.basename(s)
    if name == "stem":
        b = posixpath.basename(s)
        k = b.rfind(".")
        return b[:k] if k > 0 else b
    if name == "parent":
        return P(posixpath.dirname(s) or ".")
    if name == "parts":
        return tuple(x for x in s.split("/") if x)

    def text(x):
        return x.m_decode() if isinstance(x, ABytes) else x.decode()

    def unlink(missing_ok=False):
        if s not in c.fs and not missing_ok:
            lib.err(FileNotFoundError(s))
        c.fs.pop(s, None)

    def wr(d, *a, **k):
        f = opened(c, s, "wb", True)
        return f.write(d.encode() if isinstance(d, str) else d)

    methods = {
        "exists": lambda **k: s in c.fs or is_dir(c, s),
        "is_file": lambda: s in c.fs,
        "is_dir": lambda: is_dir(c, s),
        "open": lambda mode="r", *a, **k: open_file(c, s, mode),
        "read_bytes": lambda: simp(opened(c, s, "rb", True).data()),
        "read_text": lambda *a, **k: text(simp(opened(c, s, "rb", True).data())),
        "write_bytes": wr, "write_text": wr,
        "with_suffix": lambda x: P(s[: len(s) - len(path_attr(ip, o, "suffix"))] + x),
        "with_name": lambda x: P(posixpath.join(posixpath.dirname(s), x)),
        "resolve": lambda **k: o, "absolute": lambda: o, "expanduser": lambda: o,
        "as_posix": lambda: s, "__str__": lambda: s, "__fspath__": lambda: s,
        "stat": lambda **k: lib.LibObj("stat_result", st_size=file_size(c, s), st_mtime=0.0),
        "unlink": unlink,
        "mkdir": lambda **k: None,
        "rename": lambda t: rename(c, s, lib.path_str(t)), "replace": lambda t: rename(c, s, lib.path_str(t)),
        "joinpath": lambda *a: P(posixpath.join(s, *[lib.path_str(x) for x in a])),
        "iterdir": lambda: iter([P(posixpath.join(s, x)) for x in _children(c, s)]),
        "glob": lambda pat: iter([P(posixpath.join(s, x)) for x in _children(c, s) if __import__("fnmatch").fnmatch(x, pat)]),
    }
    f = methods.get(name)
    if f is None:
        raise Unresolved("path attribute " + name)
    return lib.Builtin("Path." + name, f)


def path_static(name):
    lib = L()
    if name == "cwd":
        return lib.Builtin("cwd", lambda: APath("/tmp"))
    return lib.Builtin("Path." + name, lambda p, *a, **k: path_attr(None, p, name).fn(*a, **k))
