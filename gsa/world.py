"""Abstract datasets, files and the specification they are compared with."""
from __future__ import annotations

from . import arrays as A
from . import bytesfs as B
from . import evalr
from . import interp as I
from . import lib
from . import scen as S
from . import terms as T
from .arrays import Arr
from .terms import E

FIELDS = ("means", "scales", "quats", "opacities", "sh0", "shN")
DEGREES = (0, 1, 2, 3)
BANDS = S.BANDS
SH_C0 = 0.28209479177387814

# ---- the published 3DGS vertex layout (the specification, not read from the code)


def columns(deg):
    """(property name, field, index within the field)"""
    K = BANDS[deg]
    out = [("x", "means", (0,)), ("y", "means", (1,)), ("z", "means", (2,))]
    out += [(f"f_dc_{k}", "sh0", (k,)) for k in range(3)]
    out += [(f"f_rest_{ch * K + k}", "shN", (k, ch)) for ch in range(3) for k in range(K)]
    out += [("opacity", "opacities", ())]
    out += [(f"scale_{k}", "scales", (k,)) for k in range(3)]
    out += [(f"rot_{k}", "quats", (k,)) for k in range(4)]
    return out


def nprops(deg):
    return 14 + 3 * BANDS[deg]


CHUNK_COLS = [f"{m}_{a}" for g in (("x", "y", "z"), ("scale_x", "scale_y", "scale_z"), ("r", "g", "b")) for m in ("min", "max") for a in g]
CHUNK = 256


def uncompressed_header(deg, n, names=None, fmt="binary_little_endian 1.0", types=None, comments=()):
    n = lib.str_of(n) if isinstance(n, E) else str(n)
    names = names or [c[0] for c in columns(deg)]
    types = types or ["float"] * len(names)
    lines = ["ply", f"format {fmt}", *[f"comment {c}" for c in comments], f"element vertex {n}", *[f"property {t} {p}" for t, p in zip(types, names)], "end_header"]
    return ("\n".join(lines) + "\n").encode()


def compressed_header(n, chunks, ncoef, comments=(), fmt="binary_little_endian 1.0", **over):
    st = lambda v: lib.str_of(v) if isinstance(v, E) else str(v)
    cc = over.get("chunk_names", CHUNK_COLS)
    vn = over.get("vertex_names", ["packed_position", "packed_rotation", "packed_scale", "packed_color"])
    ct, vt, sht = over.get("chunk_type", "float"), over.get("vertex_type", "uint"), over.get("sh_type", "uchar")
    sec = {
        "chunk": [f"element chunk {st(chunks)}", *[f"property {ct} {x}" for x in cc]],
        "vertex": [f"element vertex {st(n)}", *[f"property {vt} {x}" for x in vn]],
        "sh": [f"element sh {st(over.get('sh_count', n))}", *[f"property {sht} f_rest_{k}" for k in range(ncoef)]] if ncoef else [],
    }
    order = over.get("order", ("chunk", "vertex", "sh"))
    lines = ["ply", f"format {fmt}", *[f"comment {c}" for c in comments]]
    for s in order:
        lines += sec[s]
    lines.append("end_header")
    return ("\n".join(lines) + "\n").encode()


def parse_header(b):
    """text header -> (format, [(element, count text, [(type, name)])], length)"""
    k = b.find(b"end_header\n")
    if k < 0:
        return None
    n = k + len(b"end_header\n")
    lines = b[:n].decode("latin1").split("\n")
    if lines[0] != "ply":
        return None
    fmt = None
    els = []
    for ln in lines[1:]:
        p = ln.split()
        if not p or p[0] in ("comment", "obj_info", "end_header"):
            continue
        if p[0] == "format":
            fmt = " ".join(p[1:])
        elif p[0] == "element":
            els.append((p[1], p[2], []))
        elif p[0] == "property":
            els[-1][2].append((p[1], p[2]))
        else:
            return None
    return fmt, els, n


def count_is(c, text, n):
    """header count text equals n"""
    t = c.tokens.get(text)
    if t is None:
        try:
            t = int(text)
        except ValueError:
            return f"count {text!r}"
    e = T.eq(t, n)
    if e is True or c.known(e) is True:
        return None
    d = S.term_diff(c.path(), t, n)
    return d and f"element count {d}"


# ---- datasets
PLY = {"scales": "SCALES_PLY", "opacities": "OPACITIES_PLY", "sh0": "SH0_SH", "means": "MEANS_RAW", "quats": "QUATS_RAW"}


def fmt_member(ip, name):
    return ip.getattr(ip.get("gsply.gsdata.DataFormat"), name)


def fmt_dict(ip, deg, linear=(), rgb=False):
    d = dict(PLY)
    for f in linear:
        d[f] = f.upper() + "_LINEAR"
    if rgb:
        d["sh0"] = "SH0_RGB"
    d["sh_order"] = f"SH_ORDER_{deg}"
    return {k: fmt_member(ip, v) for k, v in d.items()}


def fmt_names(d):
    if not isinstance(d, dict):
        return None
    return {k: (v.d["name"] if isinstance(v, I.Obj) else v) for k, v in d.items()}


def inputs(n, deg, tag="", dtype="float32", lib_="np", contig=True, device="cpu", opac2=False):
    K = BANDS[deg]
    sh = {"means": (n, 3), "scales": (n, 3), "quats": (n, 4), "opacities": (n, 1) if opac2 else (n,), "sh0": (n, 3), "shN": (n, K, 3)}
    return {f: S.arr(tag + f, sh[f], dtype, lib_, contig=contig, device=device) for f in FIELDS}


def set_masks(ip, d, n, masks, names, lib_="np", tag="", device="cpu"):
    """masks: None, 1 (one-dimensional) or ('2d', k)"""
    if masks is None:
        ip.setattr(d, "masks", None)
        ip.setattr(d, "mask_names", None)
        return
    k = masks
    a = S.arr(tag + "masks", (n,) if k == "1d" else (n, k), "bool", lib_)
    a.device = device
    ip.setattr(d, "masks", a)
    ip.setattr(d, "mask_names", list(names) if names is not None else None)


def gsdata(ip, c, n, deg, base=False, masks=None, names=None, linear=(), rgb=False, tag="", dtype="float32", none_shn=False, contig=True):
    cls = ip.get("gsply.GSData")
    if base:
        d = from_file(ip, c, n, deg, tag)
        f = fmt_dict(ip, deg, linear, rgb)
        if linear or rgb:
            d = ip.call(ip.getattr(d, "with_format"), [], {k: f[k] for k in ("scales", "opacities", "sh0")})
    else:
        kw = inputs(n, deg, tag, dtype, contig=contig)
        if none_shn:
            kw["shN"] = None
        d = ip.call(cls, [], {**kw, "_format": fmt_dict(ip, deg, linear, rgb)})
    set_masks(ip, d, n, masks, names, tag=tag)
    return d


def uncompressed_file(n, deg, tag="", **k):
    """file whose rows hold the fields of an abstract dataset"""
    src = {f: tag + f for f in FIELDS}
    cols = columns(deg)
    W = len(cols)

    def read(flat):
        i, k = T.fdiv(flat, W), T.mod(flat, W)
        if not isinstance(k, E):
            _, f, ix = cols[k]
            return T.elem(src[f], "float32", (i, *ix))
        out = None
        for j, (_, f, ix) in reversed(list(enumerate(cols))):
            v = T.elem(src[f], "float32", (i, *ix))
            out = v if out is None else T.ite(T.eq(k, j), v, out)
        return out

    K = BANDS[deg]
    for f, sh in (("means", (n, 3)), ("scales", (n, 3)), ("quats", (n, 4)), ("opacities", (n,)), ("sh0", (n, 3)), ("shN", (n, K, 3))):
        evalr.SHAPES[src[f]] = sh
    return B.AFile([uncompressed_header(deg, n, **k), B.Blob(read, T.mul(n, W), "float32")])


def from_file(ip, c, n, deg, tag="", cls=None):
    path = f"/in/{tag or 'a'}.ply"
    c.fs[path] = uncompressed_file(n, deg, tag)
    return ip.call(ip.get("gsply.plyread"), [path], {})


def gstensor(ip, c, n, deg, base=False, masks=None, names=None, linear=(), rgb=False, tag="", dtype="float32", none_shn=False, device="cpu"):
    if base:
        d = from_file(ip, c, n, deg, tag)
        g = ip.call(ip.getattr(ip.get("gsply.torch.gstensor.GSTensor"), "from_gsdata"), [d], {"device": device})
        if linear or rgb:
            f = fmt_dict(ip, deg, linear, rgb)
            g = ip.call(ip.getattr(g, "with_format"), [], {k: f[k] for k in ("scales", "opacities", "sh0")})
    else:
        kw = inputs(n, deg, tag, dtype, "torch", device=device)
        if none_shn or deg == 0:
            kw["shN"] = None
        g = ip.call(ip.get("gsply.torch.gstensor.GSTensor"), [], {**kw, "_format": fmt_dict(ip, deg, linear, rgb)})
    set_masks(ip, g, n, masks, names, "torch", tag=tag, device=device)
    return g


def make(kind, *a, **k):
    return gsdata(*a, **k) if kind == "np" else gstensor(*a, **k)


# ---- observation
class Snap:
    """the logical content of a container at one moment"""

    def __init__(self, ip, d):
        self.f = {}
        for f in FIELDS:
            v = ip.getattr(d, f)
            self.f[f] = v if not isinstance(v, Arr) else View(v)
        m = ip.getattr(d, "masks")
        self.masks = View(m) if isinstance(m, Arr) else m
        self.names = ip.getattr(d, "mask_names")
        self.names = list(self.names) if self.names is not None else None
        self.format = fmt_names(ip.getattr(d, "format_state"))


class View:
    def __init__(self, a):
        self.shape, self.dtype, self.read, self.buf = a.shape, a.dtype, a.snap(), a.buf
        self.ndim = len(a.shape)
        self.device, self.lib = a.device, a.lib

    def __call__(self, idx):
        return self.read(idx)


def field(ip, d, f):
    return ip.getattr(d, f)


def bands_of(v):
    return 0 if v is None else v.shape[1]


def input_value(tag, f, idx, deg=3, dtype="float32"):
    return T.elem(tag + f, dtype, tuple(idx))


def field_diff(c, got, want, f, row=None, n=None, tol=1e-5, val=None, dtype=True):
    """got: Arr of the container under test; want: View; row: map of the row index; n: expected rows"""
    if f == "shN" and (got is None or want is None or not isinstance(got, Arr)):
        if not bands_of(got) and not bands_of(want):
            return None
    if got is None and want is None:
        return None
    if got is None or want is None:
        return f"{f} is {'missing' if got is None else 'present'}"
    if not isinstance(got, Arr):
        return f"{f} is {lib.str_of(got)}"
    n = want.shape[0] if n is None else n
    d = S.shape_diff(c, got.shape, (n, *want.shape[1:]))
    if d:
        return f"{f} has {d}"
    if dtype and got.dtype != (want.dtype if dtype is True else dtype):
        return f"{f} has dtype {got.dtype} instead of {want.dtype if dtype is True else dtype}"
    row = row or (lambda i: i)
    val = val or (lambda v, idx: v)
    return S.array_diff(c, got, lambda ix: val(want((row(ix[0]), *ix[1:])), ix), tol, what=f, dtype=False)


def same_content(c, ip, got, want, row=None, n=None, masks=True, fmt=True, only=None, dtype=True, tol=1e-5, vals=None):
    """first difference between a container and a snapshot (optionally with re-mapped rows)"""
    for f in only or FIELDS:
        d = field_diff(c, field(ip, got, f), want.f[f], f, row, n, tol, (vals or {}).get(f), dtype)
        if d:
            return d
    if masks:
        d = mask_diff(c, ip, got, want, row, n)
        if d:
            return d
    if fmt:
        g = fmt_names(ip.getattr(got, "format_state"))
        if g != want.format:
            return f"format record {g} instead of {want.format}"
    return None


def mask_diff(c, ip, got, want, row=None, n=None):
    m = ip.getattr(got, "masks")
    if (m is None) != (want.masks is None):
        return f"masks {'lost' if m is None else 'appeared'}"
    if m is not None:
        if m.ndim != want.masks.ndim:
            return f"masks have {m.ndim} dimensions instead of {want.masks.ndim}"
        d = field_diff(c, m, want.masks, "masks", row, n)
        if d:
            return d
    names = ip.getattr(got, "mask_names")
    names = list(names) if names is not None else None
    if names != want.names:
        return f"mask names {names} instead of {want.names}"
    return None


def shares_memory(a, b):
    return isinstance(a, Arr) and isinstance(b, (Arr, View)) and a.buf is b.buf


def where(fn):
    """source anchor of a public callable"""
    while not isinstance(fn, I.Fn) and (getattr(fn, "wraps", None) or isinstance(fn, I.Bound)):
        fn = fn.fn if isinstance(fn, I.Bound) else fn.wraps
    if isinstance(fn, I.Fn):
        return f"{fn.mod.path}:{fn.qual}"
    return str(fn)


def method_where(ip, kind, name):
    cls = ip.get("gsply.GSData" if kind == "np" else "gsply.torch.gstensor.GSTensor")
    v = cls.find(name)
    return where(v if getattr(v, "wraps", None) else getattr(v, "fn", v)) if v is not I.NOTHING else f"{cls.name}.{name}"
