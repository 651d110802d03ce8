"""Uncompressed files: layout written, layout read, what is rejected."""
from __future__ import annotations

from . import prop
from .common import *


def vertex_file(c, f, deg, n, value, tol=1e-5, dtype=F32):
    """difference between an abstract file and the standard layout of the given rows"""
    h = head(f)
    p = W.parse_header(h)
    if p is None:
        return f"the header is not a PLY header ({h[:40]!r}...)"
    fmt, els, hl = p
    if fmt != "binary_little_endian 1.0":
        return f"format line {fmt!r}"
    if [e[0] for e in els] != ["vertex"]:
        return f"elements {[e[0] for e in els]}"
    d = W.count_is(c, els[0][1], n)
    if d:
        return d
    want = [("float", x[0]) for x in W.columns(deg)]
    if els[0][2] != want:
        got = els[0][2]
        k = next((k for k, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        return f"property {k} is {got[k] if k < len(got) else 'missing'} instead of {want[k] if k < len(want) else 'none'} ({len(got)} properties)"
    ncol = len(want)
    b = f.bytes()
    tot = T.mul(T.mul(n, ncol), 4)
    d = None if T.eq(b.total(), T.add(hl, tot)) is True else S.term_diff(c.path(), b.total(), T.add(hl, tot))
    if d:
        return f"file length {d}"
    body = B.interpret(b, F32, T.mul(n, ncol), hl)
    rd = body.snap()
    with scope(c):
        i = generic(c, n)
        for k, (nm, fld, ix) in enumerate(W.columns(deg)):
            d = S.term_diff(c.path(), rd((T.add(T.mul(i, ncol), k),)), value(fld, (i, *ix)), 10, tol, seed=k)
            if d:
                return f"column {nm} is {d}"
    return None


def spec_rows(snap, conv=None, row=None):
    """value(field, idx) from a snapshot"""
    conv = conv or {}

    def value(fld, idx):
        i, *r = idx
        i = row(i) if row else i
        v = snap.f[fld]
        if v.ndim == 2 and fld == "opacities":
            r = [0]
        x = v((i, *r))
        if v.dtype != F32:
            x = T.cast(F32, x)
        return conv[fld](x) if fld in conv else x

    return value


ENTRY = {
    "write_uncompressed": lambda ip, p, d: call(ip, "gsply.writer.write_uncompressed", p, d),
    "plywrite": lambda ip, p, d: call(ip, "gsply.plywrite", p, d),
    "save": lambda ip, p, d: meth(ip, d, "save", p, compressed=False),
}


def unpack_arrays(ip, d):
    return [ip.getattr(d, f) for f in W.FIELDS]


def write_scen(entry, kind, deg, base=False, dtype=F32, contig=True, linear=(), rgb=False, masks=None, none_shn=False, step=None, label=None, big=False):
    name = f"write:{entry}:{kind}:{step or 'as-is'}@deg{deg},{'base' if base else 'arrays'},{dtype},{'' if contig else 'strided,'}{'+'.join(linear)}{'rgb' if rgb else ''}{',none' if none_shn else ''}"

    def fn(c, ip, o):
        n = S.count(pool=[1, 2, 3, 200, 257, 50000, 190000] if big else None)
        kw = dict(base=base, linear=linear, rgb=rgb, masks=masks)
        if dtype != F32:
            kw["dtype"] = dtype
        if none_shn:
            kw["none_shn"] = True
        if linear:
            linear_inputs()
        if kind == "np" and not contig:
            kw["contig"] = False
        d = W.make(kind, ip, c, n, deg, **kw)
        row, m = None, n
        snap = W.Snap(ip, d)
        if step:
            d, row, m = step_of(step)(c, ip, d, n)
        conv = to_ply(linear, rgb)
        p = "/out/x.ply"
        if entry == "arrays":
            ply_inputs()
            c.oracle = True
            call(ip, "gsply.plywrite", p, *unpack_arrays(ip, d))
        else:
            ENTRY[entry](ip, p, d)
        f = c.fs.get(p)
        w = W.where(ip.get("gsply.plywrite" if entry in ("arrays", "plywrite", "save") else "gsply.writer.write_uncompressed"))
        tol = 1e-5 if not conv else 2e-4
        o("layout", w, lambda: "no file was written" if f is None else vertex_file(c, f, deg, m, spec_rows(snap, conv, row), tol))

    return Scenario(name, fn)


def step_of(step):
    """an operation applied before writing: (c, ip, d, n) -> (d, row map, rows)"""

    def sl(c, ip, d, n):
        c.assume(T.le(5, n))
        return ip.getitem(d, slice(2, None, 1)), (lambda i: T.add(i, 2)), T.sub(n, 2)

    def strided(c, ip, d, n):
        return ip.getitem(d, slice(None, None, 2)), (lambda i: T.mul(i, 2)), T.fdiv(T.add(n, 1), 2)

    def cons(c, ip, d, n):
        return meth(ip, d, "consolidate"), None, n

    def cp(c, ip, d, n):
        return meth(ip, d, "copy"), None, n

    def slcons(c, ip, d, n):
        d, r, m = strided(c, ip, d, n)
        return meth(ip, d, "consolidate"), r, m

    return {"slice": sl, "strided": strided, "consolidate": cons, "copy": cp, "strided+consolidate": slcons}[step]


@prop("C01", "Every uncompressed writer entry point is interpreted over an abstract dataset of symbolic length; the bytes of the produced file "
      "are compared, column by column for a generic row, with the published 3DGS vertex layout (14/23/38/59 float properties).",
      assumptions=["library models in gsa/lib.py describe numpy/numba/torch", "rows are treated by one generic index; N is symbolic"])
def c01(tier):
    out = []
    for deg in DEGS:
        out.append(write_scen("write_uncompressed", "np", deg))
        out.append(write_scen("plywrite", "np", deg, base=True))
        out.append(write_scen("save", "np", deg, base=True, step="strided"))
        out.append(write_scen("save", "torch", deg))
        out.append(write_scen("plywrite", "torch", deg, base=True))
    for deg in (0, 3):
        out.append(write_scen("plywrite", "np", deg, contig=False))
        out.append(write_scen("save", "np", deg, step="strided"))
        out.append(write_scen("save", "np", deg, step="consolidate"))
        out.append(write_scen("write_uncompressed", "np", deg, base=True, big=True))
        out.append(write_scen("save", "np", deg, dtype="float64"))
        out.append(write_scen("save", "torch", deg, step="consolidate"))
        out.append(write_scen("arrays", "np", deg))
    out.append(write_scen("plywrite", "np", 0, none_shn=True))
    out.append(write_scen("arrays", "np", 1))
    out.append(write_scen("arrays", "np", 2))
    return out
