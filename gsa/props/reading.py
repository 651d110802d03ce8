"""Uncompressed reading, header scanning and the error contract of the readers."""
from __future__ import annotations

from . import prop
from .common import *
from .files import vertex_file

READERS = {
    "plyread": lambda ip, p: call(ip, "gsply.plyread", p),
    "read_uncompressed": lambda ip, p: call(ip, "gsply.reader.read_uncompressed", p),
    "GSData.load": lambda ip, p: ip.call(ip.getattr(ip.get("gsply.GSData"), "load"), [p], {}),
    "GSTensor.load": lambda ip, p: ip.call(ip.getattr(ip.get("gsply.torch.gstensor.GSTensor"), "load"), [p], {"device": "cpu"}),
}
RKIND = {"GSTensor.load": "torch"}


def stored(tag, fld, ix):
    return T.elem(tag + fld, F32, tuple(ix))


def field_shapes(n, deg):
    K = W.BANDS[deg]
    return {"means": (n, 3), "scales": (n, 3), "quats": (n, 4), "opacities": (n,), "sh0": (n, 3), "shN": (n, K, 3)}


def dataset_diff(c, ip, d, n, deg, value, kind="np", tol=1e-5, dtype=F32):
    """difference between a container and the dataset given by value(field, idx)"""
    if not is_cls(ip, d, kind):
        return f"result is {lib.str_of(d)}"
    for fld, sh in field_shapes(n, deg).items():
        v = ip.getattr(d, fld)
        if fld == "shN" and v is None and deg == 0:
            continue
        if not isinstance(v, Arr):
            return f"{fld} is {lib.str_of(v)}"
        x = S.shape_diff(c, v.shape, sh)
        if x:
            return f"{fld} has {x}"
        if dtype and v.dtype != dtype:
            return f"{fld} has dtype {v.dtype}"
        x = S.array_diff(c, v, lambda ix: value(fld, ix), tol, what=fld)
        if x:
            return x
    if T.eq(ip.call(ip.lib_len if hasattr(ip, "lib_len") else ip.getattr(d, "__len__"), [], {}), n) is not True:
        return "len() is not the number of rows"
    return None


def format_diff(ip, d, deg, **over):
    want = {"scales": "SCALES_PLY", "opacities": "OPACITIES_PLY", "sh0": "SH0_SH", "sh_order": f"SH_ORDER_{deg}", "means": "MEANS_RAW", "quats": "QUATS_RAW", **over}
    got = W.fmt_names(ip.getattr(d, "format_state"))
    return None if got == want else f"format record {got} instead of {want}"


def masks_all_true(c, ip, d, n):
    m = ip.getattr(d, "masks")
    if m is None:
        return None
    if m.dtype != "bool":
        return f"masks have dtype {m.dtype}"
    x = S.shape_diff(c, m.shape, (n,))
    if x:
        return f"masks have {x}"
    return S.array_diff(c, m, lambda ix: True, what="masks")


def base_diff(c, ip, d, deg, n):
    """_base, where present, holds the fields in the standard layout"""
    b = ip.getattr(d, "_base")
    if b is None:
        return None
    cols = W.columns(deg)
    x = S.shape_diff(c, b.shape, (n, len(cols)))
    if x:
        return f"base has {x}"
    rd = b.snap()
    fr = {f: ip.getattr(d, f) for f in W.FIELDS}
    fr = {f: v.snap() if isinstance(v, Arr) else None for f, v in fr.items()}
    with scope(c):
        i = generic(c, n)
        for k, (nm, fld, ix) in enumerate(cols):
            x = S.term_diff(c.path(), fr[fld]((i, *ix)), rd((i, k)), 8, seed=k)
            if x:
                return f"{fld}{list(ix)} is {x} (base column {nm})"
    return None


def read_scen(entry, deg, comments=(), lo=1, long=False, device=None):
    def fn(c, ip, o):
        n = S.count(lo=lo, pool=[0, 1, 2, 3, 257] if lo == 0 else None)
        p = "/in/a.ply"
        cm = comments if not long else ["x" * 200] * 60
        c.fs[p] = W.uncompressed_file(n, deg, comments=cm)
        d = READERS[entry](ip, p)
        kind = RKIND.get(entry, "np")
        w = W.where(ip.get("gsply.reader.read_uncompressed"))
        if long and entry == "read_uncompressed" and d is None:
            return
        o("fields", w, lambda: dataset_diff(c, ip, d, n, deg, lambda f, ix: stored("", f, ix), kind))
        o("format", w, lambda: format_diff(ip, d, deg))
        o("masks", w, lambda: masks_all_true(c, ip, d, n))
        o("base", w, lambda: base_diff(c, ip, d, deg, n))

    return Scenario(f"read:{entry}@deg{deg},{len(comments)}c{',long' if long else ''}{',maybe-empty' if lo == 0 else ''}", fn)


@prop("C02", "Every uncompressed reader entry point is interpreted on an abstract file in the standard layout with a symbolic row count; each field of "
      "the container is compared with the property it must hold, with shapes, dtype, format record, masks and base buffer.",
      assumptions=["library models in gsa/lib.py describe numpy/numba/torch"])
def c02(tier):
    out = []
    for deg in DEGS:
        for e in READERS:
            out.append(read_scen(e, deg))
        out.append(read_scen("plyread", deg, comments=("made by hand", "element of surprise")))
        out.append(read_scen("read_uncompressed", deg, lo=0))
    out.append(read_scen("read_uncompressed", 0, long=True))
    out.append(read_scen("read_uncompressed", 3, long=True))
    return out


# ---------------------------------------------------------------- outcome of a reader
class Outcome:
    def __init__(self, kind, val=None):
        self.kind, self.val = kind, val

    def __str__(self):
        return self.kind if self.kind != "raised" else f"raised {self.val}"


def outcome(ip, f):
    try:
        r = f()
    except I.Raised as e:
        x = e.exc
        nm = x.cls.name if isinstance(x, I.Obj) else type(x).__name__
        return Outcome("raised", nm)
    return Outcome("none" if r is None else "data", r)


def raw_blob(tag, n, dtype=F32):
    return B.Blob(lambda k: T.elem(tag, dtype, (k,)), n, dtype)


CLEAN = {"plyread": ("ValueError",), "GSData.load": ("ValueError",), "GSTensor.load": ("ValueError",), "read_uncompressed": None, "read_compressed": None,
         "decompress_from_bytes": ("ValueError",), "plyread_gpu": ("ValueError",)}


def clean(entry, r):
    """the documented way to refuse a file"""
    if CLEAN[entry] is None:
        return None if r.kind == "none" else f"{r} instead of None"
    return None if r.kind == "raised" and r.val in CLEAN[entry] else f"{r} instead of {'/'.join(CLEAN[entry])}"


def bad_layouts(deg):
    names = [x[0] for x in W.columns(deg)]
    sw = lambda a, b: [names[b] if k == a else names[a] if k == b else x for k, x in enumerate(names)]
    yield "swapped-scale-columns", dict(names=sw(names.index("scale_0"), names.index("scale_1")))
    yield "swapped-rot-columns", dict(names=sw(names.index("rot_0"), names.index("rot_3")))
    yield "opacity-last", dict(names=[x for x in names if x != "opacity"] + ["opacity"])
    yield "position-swapped", dict(names=sw(0, 1))
    yield "dc-swapped", dict(names=sw(3, 5))
    if deg:
        yield "rest-swapped", dict(names=sw(6, 7))
        yield "rest-renamed", dict(names=[x if x != "f_rest_0" else "f_rest_00" for x in names])
    yield "unknown-name", dict(names=[x if x != "rot_1" else "nx" for x in names])
    yield "missing-property", dict(names=names[:-1])
    yield "extra-property", dict(names=names + ["nx"])
    yield "normals", dict(names=names[:3] + ["nx", "ny", "nz"] + names[3:])
    yield "double-first", dict(types=["double"] + ["float"] * (len(names) - 1))
    yield "double-last", dict(types=["float"] * (len(names) - 1) + ["double"])
    yield "uchar-middle", dict(types=["float"] * 4 + ["uchar"] + ["float"] * (len(names) - 5))
    yield "all-double", dict(types=["double"] * len(names))
    yield "big-endian", dict(fmt="binary_big_endian 1.0")
    yield "ascii", dict(fmt="ascii 1.0")


def reject_scen(entry, deg, label, kw):
    def fn(c, ip, o):
        n = S.count()
        h = W.uncompressed_header(deg, n, **kw)
        nm = kw.get("names") or W.columns(deg)
        c.fs["/in/a.ply"] = B.AFile([h, raw_blob("payload", T.mul(n, 2 * len(nm) + 4))])
        r = outcome(ip, lambda: READERS[entry](ip, "/in/a.ply"))
        o("rejects", W.where(ip.get("gsply.reader.read_uncompressed")), lambda: clean(entry, r))

    return Scenario(f"reject:{entry}:{label}@deg{deg}", fn)


def misplaced_scen(entry, label):
    """vertex data that does not directly follow the header"""

    def fn(c, ip, o):
        n = S.count()
        m = S.count("M")
        st = lib.str_of
        names = [x[0] for x in W.columns(0)]
        vert = [f"element vertex {st(n)}", *[f"property float {x}" for x in names]]
        cam = [f"element camera {st(m)}", "property float fov", "property float near"]
        lines = ["ply", "format binary_little_endian 1.0", *(cam + vert if label == "before" else vert + cam if label == "after" else vert[:8] + cam), "end_header"]
        h = ("\n".join(lines) + "\n").encode()
        vb = W.uncompressed_file(n, 0).segs[1]
        cb = raw_blob("camera", T.mul(m, 2))
        c.fs["/in/a.ply"] = B.AFile([h] + ([cb, vb] if label == "before" else [vb, cb]))
        r = outcome(ip, lambda: READERS[entry](ip, "/in/a.ply"))
        w = W.where(ip.get("gsply.reader.read_uncompressed"))
        if r.kind == "data":
            o("no-misread", w, lambda: dataset_diff(c, ip, r.val, n, 0, lambda f, ix: stored("", f, ix), RKIND.get(entry, "np")))
        else:
            o("no-misread", w, lambda: clean(entry, r))

    return Scenario(f"misplaced:{entry}:{label}", fn)


@prop("C07", "Uncompressed readers are interpreted on headers that differ from the standard layout in one respect (permuted, renamed, missing or extra properties, "
      "non-float types, other encodings, data that does not follow the header): every path must end in the documented refusal, or in fields that hold the right values.")
def c07(tier):
    out = []
    for deg in (0, 1, 3):
        for label, kw in bad_layouts(deg):
            out.append(reject_scen("plyread", deg, label, kw))
            if deg != 1:
                out.append(reject_scen("read_uncompressed", deg, label, kw))
    for e in ("plyread", "read_uncompressed", "GSTensor.load"):
        for lab in ("before", "after", "split"):
            out.append(misplaced_scen(e, lab))
    return out


# ---------------------------------------------------------------- headers
ALL_READERS = {
    **READERS,
    "read_compressed": lambda ip, p: call(ip, "gsply.reader.read_compressed", p),
    "plyread_gpu": lambda ip, p: call(ip, "gsply.plyread_gpu", p, device="cpu"),
    "decompress_from_bytes": lambda ip, p: call(ip, "gsply.decompress_from_bytes", A.CTX.fs[p].bytes() if True else None),
    "detect_format": lambda ip, p: call(ip, "gsply.detect_format", p),
}

VALUE_ERRORS = ("ValueError", "UnicodeDecodeError", "UnicodeError")


def refused(entry, r):
    if entry == "detect_format":
        return None if r.kind == "data" and tuple(r.val) == (False, None) else f"{lib.str_of(r.val) if r.kind == 'data' else r} instead of (False, None)"
    if entry in ("read_uncompressed", "read_compressed"):
        return None if r.kind == "none" else f"{r} instead of None"
    return None if r.kind == "raised" and r.val in VALUE_ERRORS else f"{r} instead of ValueError"


def bad_headers():
    ok = W.uncompressed_header(0, 4).decode()
    lines = ok.split("\n")
    comp = W.compressed_header(4, 1, 0).decode()
    yield "empty", b""
    yield "one-byte", b"p"
    yield "magic-only", b"ply\n"
    yield "no-newline", b"ply"
    yield "cut-in-format", ok[:20].encode()
    yield "cut-in-properties", ok[:150].encode()
    yield "cut-before-end", "\n".join(lines[:-2]).encode() + b"\n"
    yield "cut-in-end-marker", ok[:-5].encode()
    yield "end-marker-without-newline", ok[:-1].encode()
    yield "compressed-cut", comp[:300].encode()
    yield "compressed-cut-before-end", comp[:-11].encode()
    yield "long-no-end", ("ply\nformat binary_little_endian 1.0\n" + "comment " + "y" * 90 + "\n") .encode() + ("comment " + "z" * 91 + "\n").encode() * 120
    yield "very-long-no-end", b"ply\nformat binary_little_endian 1.0\n" + b"comment a\n" * 3000
    yield "one-long-line", b"ply\n" + b"c" * 20000
    yield "not-ply", b"solid ascii stl\nfacet normal\nend_header\n"
    yield "count-not-a-number", ok.replace("vertex 4", "vertex four").encode()
    yield "element-without-count", ok.replace("element vertex 4", "element vertex").encode()
    yield "bare-element", ok.replace("element vertex 4", "element ").encode()
    yield "property-without-name", ok.replace("property float x", "property float").encode()
    yield "negative-count", ok.replace("vertex 4", "vertex -4").encode() + bytes(56 * 8)
    yield "non-ascii", ok.replace("property float x", "comment \u00e9\u00e9\nproperty float x").encode("latin1")
    yield "no-elements", b"ply\nformat binary_little_endian 1.0\nend_header\n"
    yield "no-format", ok.replace("format binary_little_endian 1.0\n", "").encode() + bytes(56 * 4)
    yield "format-without-encoding", ok.replace("format binary_little_endian 1.0\n", "format \n").encode() + bytes(56 * 4)
    yield "garbage", bytes(range(128, 256)) * 80
    yield "zeros", bytes(9000)


def header_scen(entry, label, data):
    def fn(c, ip, o):
        c.fs["/in/a.ply"] = B.AFile([data])
        try:
            r = outcome(ip, lambda: ALL_READERS[entry](ip, "/in/a.ply"))
        except I.Diverges as e:
            o("terminates", WHERE(ip, entry), f"never returns: {e}")
            return
        o("terminates", WHERE(ip, entry), None)
        if entry == "detect_format" and label in ("negative-count", "no-format", "format-without-encoding", "end-marker-without-newline"):
            return
        o("refuses", WHERE(ip, entry), lambda: refused(entry, r))

    return Scenario(f"header:{entry}:{label}", fn)


def WHERE(ip, entry):
    t = {"plyread": "gsply.reader.read_uncompressed", "read_uncompressed": "gsply.reader.read_uncompressed", "GSData.load": "gsply.plyread", "GSTensor.load": "gsply.plyread",
         "read_compressed": "gsply.reader.read_compressed", "plyread_gpu": "gsply.torch.compression.read_compressed_gpu", "decompress_from_bytes": "gsply.decompress_from_bytes", "detect_format": "gsply.detect_format"}
    return W.where(ip.get(t[entry]))


@prop("C08", "Every reader entry point is interpreted on headers that are cut short, never end, or hold malformed lines; a loop that reads at end of file without an exit is a "
      "violation, as is any outcome but the documented refusal.")
def c08(tier):
    out = []
    for label, data in bad_headers():
        for e in ALL_READERS:
            out.append(header_scen(e, label, data))
    return out


# ---------------------------------------------------------------- payload shorter than announced
def short_scen(entry, deg, compressed, part):
    def fn(c, ip, o):
        n = S.count()
        m = T.fresh("have", "i", 0)
        p = "/in/a.compressed.ply" if compressed else "/in/a.ply"
        if not compressed:
            W_ = W.nprops(deg)
            need = T.mul(n, W_)
            evalr.DOMAIN[m] = (0, need)
            c.assume(T.le(0, m))
            c.assume(T.lt(m, need))
            src = W.uncompressed_file(n, deg)
            segs = [src.segs[0], B.Blob(src.segs[1].read, m, F32)]
            if part == "ragged":
                segs.append(raw_blob("tail", 3, "uint8"))
        else:
            K = W.BANDS[deg]
            ch = T.fdiv(T.add(n, 255), 256)
            secs = [raw_blob("cb", T.mul(ch, 18), F32), raw_blob("vx", T.mul(n, 4), "uint32")]
            if K:
                secs.append(raw_blob("sh", T.mul(n, 3 * K), "uint8"))
            k = {"chunk": 0, "vertex": 1, "sh": 2}[part]
            full = secs[k].n
            evalr.DOMAIN[m] = (0, full)
            c.assume(T.le(0, m))
            c.assume(T.lt(m, full))
            segs = [W.compressed_header(n, ch, 3 * K), *secs[:k], B.Blob(secs[k].read, m, secs[k].dtype)]
        c.fs[p] = B.AFile(segs)
        r = outcome(ip, lambda: ALL_READERS[entry](ip, p))
        o("refuses", WHERE(ip, entry), lambda: refused(entry, r))

    return Scenario(f"short:{entry}:{part}@deg{deg}", fn)


@prop("C09", "Every reader entry point is interpreted on files whose header is intact but whose payload holds a symbolic number of items smaller than announced, in each "
      "section; every path must end in the documented refusal and none may return a container.")
def c09(tier):
    out = []
    for deg in DEGS:
        for e in READERS:
            out.append(short_scen(e, deg, False, "short"))
        out.append(short_scen("plyread", deg, False, "ragged"))
        for e in ("plyread", "read_compressed", "decompress_from_bytes", "plyread_gpu", "GSTensor.load", "GSData.load"):
            for part in ("chunk", "vertex") + (("sh",) if deg else ()):
                out.append(short_scen(e, deg, True, part))
    return out
