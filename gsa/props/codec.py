"""The compressed (PlayCanvas) format: container structure, chunk bounds, packed words, decoding."""
from __future__ import annotations

from . import prop
from .common import *
from .reading import ALL_READERS, WHERE, dataset_diff, format_diff, masks_all_true, outcome, raw_blob, refused

SQ2 = 2 ** 0.5


# ---------------------------------------------------------------- writers
def out_path(p):
    return p


def _arrays(ip, d):
    return [ip.getattr(d, f) for f in W.FIELDS]


class Out:
    """an emitted compressed stream: literal header and byte string"""

    def __init__(self, header, body, total):
        self.header, self.body, self.total = header, body, total


def of_file(c, p):
    f = c.fs.get(p)
    if f is None:
        return None
    h = head(f)
    b = f.bytes()
    ph = W.parse_header(h)
    n = ph[2] if ph else len(h)
    return Out(h[:n], (b, n), T.sub(b.total(), n))


def of_bytes(b):
    b = B.tob(b)
    p, _ = b.prefix()
    ph = W.parse_header(p)
    n = ph[2] if ph else len(p)
    return Out(p[:n], (b, n), T.sub(b.length(), n))


def of_parts(t):
    h, *rest = t
    hb = B.tob(h).need()
    segs = [B.of_array(x) for x in rest if x is not None]
    body = B.tob(B.join(segs)) if segs else B.ABytes([])
    return Out(hb, (body, 0), body.length())


def w_file(f, name="/out/x.ply", real="/out/x.compressed.ply"):
    def go(c, ip, d):
        f(ip, d, name)
        return of_file(c, real)

    return go


WRITERS = {
    "write_compressed": ("np", w_file(lambda ip, d, p: call(ip, "gsply.writer.write_compressed", p, *_arrays(ip, d)), "/out/x.compressed.ply"), "gsply.writer.write_compressed"),
    "plywrite": ("np", w_file(lambda ip, d, p: call(ip, "gsply.plywrite", p, d, compressed=True)), "gsply.plywrite"),
    "plywrite-ext": ("np", w_file(lambda ip, d, p: call(ip, "gsply.plywrite", p, d), "/out/x.compressed.ply"), "gsply.plywrite"),
    "save": ("np", w_file(lambda ip, d, p: meth(ip, d, "save", p, compressed=True)), "gsply.plywrite"),
    "compress_to_bytes": ("np", lambda c, ip, d: of_bytes(call(ip, "gsply.compress_to_bytes", d)), "gsply.compress_to_bytes"),
    "compress_to_bytes-arrays": ("np", lambda c, ip, d: of_bytes(call(ip, "gsply.compress_to_bytes", *_arrays(ip, d))), "gsply.compress_to_bytes"),
    "compress_to_arrays": ("np", lambda c, ip, d: of_parts(call(ip, "gsply.compress_to_arrays", d)), "gsply.compress_to_arrays"),
    "compress_to_arrays-arrays": ("np", lambda c, ip, d: of_parts(call(ip, "gsply.compress_to_arrays", *_arrays(ip, d))), "gsply.compress_to_arrays"),
    "plywrite-tensor": ("torch", w_file(lambda ip, d, p: call(ip, "gsply.plywrite", p, d, compressed=True)), "gsply.plywrite"),
    "plywrite_gpu": ("torch", w_file(lambda ip, d, p: call(ip, "gsply.plywrite_gpu", p, d), "/out/x.compressed.ply"), "gsply.torch.compression.compress_gpu"),
    "GSTensor.save": ("torch", w_file(lambda ip, d, p: meth(ip, d, "save", p), "/out/x.compressed.ply"), "gsply.torch.compression.compress_gpu"),
    "GSTensor.save_compressed": ("torch", w_file(lambda ip, d, p: meth(ip, d, "save_compressed", p), "/out/x.compressed.ply"), "gsply.torch.compression.compress_gpu"),
}


def chunks_of(n):
    return T.fdiv(T.add(n, 255), 256)


def structure_diff(c, out, n, deg):
    """None, or how the stream departs from the compressed container"""
    if out is None:
        return "no file was written"
    p = W.parse_header(out.header)
    if p is None:
        return f"the header is not a PLY header ({out.header[:40]!r})"
    fmt, els, hl = p
    K3 = 3 * W.BANDS[deg]
    if fmt != "binary_little_endian 1.0":
        return f"format line {fmt!r}"
    want = ["chunk", "vertex"] + (["sh"] if K3 else [])
    if [e[0] for e in els] != want:
        return f"elements {[e[0] for e in els]} instead of {want}"
    props = {"chunk": [("float", x) for x in W.CHUNK_COLS], "vertex": [("uint", x) for x in ("packed_position", "packed_rotation", "packed_scale", "packed_color")],
             "sh": [("uchar", f"f_rest_{k}") for k in range(K3)]}
    for nm, cnt, ps in els:
        if ps != props[nm]:
            k = next((k for k, (a, b) in enumerate(zip(ps, props[nm])) if a != b), min(len(ps), len(props[nm])))
            return f"element {nm}: property {k} is {ps[k] if k < len(ps) else 'missing'} instead of {props[nm][k] if k < len(props[nm]) else 'none'}"
        d = W.count_is(c, cnt, chunks_of(n) if nm == "chunk" else n)
        if d:
            return f"element {nm}: {d}"
    size = T.add(T.mul(chunks_of(n), 72), T.mul(n, 16 + K3))
    if T.eq(out.total, size) is not True:
        d = S.term_diff(c.path(), out.total, size)
        if d:
            return f"payload length {d}"
    return None


def sections(out, n, deg):
    b, h = out.body
    ch = chunks_of(n)
    cb = B.interpret(b, F32, T.mul(ch, 18), h).snap()
    vx = B.interpret(b, "uint32", T.mul(n, 4), T.add(h, T.mul(ch, 72))).snap()
    K3 = 3 * W.BANDS[deg]
    sh = B.interpret(b, "uint8", T.mul(n, K3), T.add(h, T.add(T.mul(ch, 72), T.mul(n, 16)))).snap() if K3 else None
    bound = lambda j, k: cb((T.add(T.mul(j, 18), k),))
    word = lambda i, k: vx((T.add(T.mul(i, 4), k),))
    byte = (lambda i, k: sh((T.add(T.mul(i, K3), k),))) if sh else None
    return bound, word, byte


GROUPS = (("means", 0, "position"), ("scales", 6, "scale"), ("sh0", 12, "colour"))


def chunk_value(snap, fld, i, a, conv):
    v = snap.f[fld]((i, a))
    if snap.f[fld].dtype != F32:
        v = T.cast(F32, v)
    if fld in conv:
        v = conv[fld](v)
    if fld == "sh0":
        v = T.add(T.mul(v, C0), 0.5)
    return v


def bounds_diff(c, out, n, deg, snap, conv, samples=6):
    bound, _, _ = sections(out, n, deg)
    with scope(c):
        j = generic(c, chunks_of(n), "j")
        lo = T.mul(j, 256)
        hi = T.mn(T.add(lo, 256), n)
        for fld, k0, nm in GROUPS:
            for a in range(3):
                for m, op in enumerate(("min", "max")):
                    v = T.fresh("r", "i")
                    body = chunk_value(snap, fld, v, a, conv)
                    want = T.reduce_(op, v, lo, hi, body)
                    if fld == "scales":
                        want = clip(want, -20.0, 20.0)
                    d = S.term_diff(c.path(), bound(j, k0 + 3 * m + a), want, samples, 1e-5, seed=k0 + a + m)
                    if d:
                        return f"{op} of {nm} axis {a} of a chunk is {d}"
    return None


def fieldbits(w, shift, bits):
    return T.band(T.shr(w, shift), (1 << bits) - 1)


def absle(x, e):
    return T.and_(T.le(x, e), T.le(T.neg(e) if isinstance(e, E) else -e, x))


def check_true(c, cond, what, n, seed):
    if cond is True:
        return None
    d = S.term_diff(c.path(), cond, True, n, seed=seed)
    return d and f"{what}: {d}"


def words_diff(c, out, n, deg, snap, conv, samples=8, only=None):
    """codes lie within half a quantisation step of the row's values, relative to the emitted bounds"""
    bound, word, byte = sections(out, n, deg)
    with scope(c):
        i = generic(c, n)
        j = T.fdiv(i, 256)
        lay = {"means": (0, ((21, 11), (11, 10), (0, 11))), "scales": (2, ((21, 11), (11, 10), (0, 11))), "sh0": (3, ((24, 8), (16, 8), (8, 8)))}
        for fld, k0, nm in GROUPS:
            if only and nm not in only:
                continue
            w = word(i, lay[fld][0])
            for a in range(3):
                s, bits = lay[fld][1][a]
                mx = float((1 << bits) - 1)
                lo, hi = bound(j, k0 + a), bound(j, k0 + 3 + a)
                rg = T.sub(hi, lo)
                dec = T.add(lo, T.mul(T.div(fieldbits(w, s, bits), mx), rg))
                v = chunk_value(snap, fld, i, a, conv)
                if fld == "scales":
                    v = clip(v, -20.0, 20.0)
                tol = T.add(T.mul(rg, 0.5 / mx + 2e-5), T.mul(T.add(T.fn1("abs", v), 1.0), 1e-5))
                d = check_true(c, absle(T.sub(dec, v), tol), f"{nm} axis {a} decodes further than half a step from the value", samples, k0 + a)
                if d:
                    return d
        if not only or "opacity" in only:
            v = snap.f["opacities"]((i,) if snap.f["opacities"].ndim == 1 else (i, 0))
            if snap.f["opacities"].dtype != F32:
                v = T.cast(F32, v)
            if "opacities" in conv:
                v = conv["opacities"](v)
            p = sigmoid(v)
            dec = T.div(fieldbits(word(i, 3), 0, 8), 255.0)
            d = check_true(c, absle(T.sub(dec, p), 0.5 / 255 + 1e-5), "opacity decodes further than half a step from the value", samples, 31)
            if d:
                return d
        if not only or "rotation" in only:
            q = [snap.f["quats"]((i, k)) for k in range(4)]
            if snap.f["quats"].dtype != F32:
                q = [T.cast(F32, x) for x in q]
            nrm = T.fn1("sqrt", T.add(T.add(T.mul(q[0], q[0]), T.mul(q[1], q[1])), T.add(T.mul(q[2], q[2]), T.mul(q[3], q[3]))))
            c.assume(T.lt(1e-3, nrm))
            u = [T.div(x, nrm) for x in q]
            w = word(i, 1)
            L = fieldbits(w, 30, 2)
            code = [fieldbits(w, s, 10) for s in (20, 10, 0)]
            comp = [T.mul(T.sub(T.div(x, 1023.0), 0.5), SQ2) for x in code]
            ul = T.ite(T.eq(L, 0), u[0], T.ite(T.eq(L, 1), u[1], T.ite(T.eq(L, 2), u[2], u[3])))
            big = T.fn1("abs", u[0])
            for x in u[1:]:
                big = T.mx(big, T.fn1("abs", x))
            d = check_true(c, T.le(T.sub(big, T.fn1("abs", ul)), 1e-5), "the dropped quaternion component is not the largest", samples, 41)
            if d:
                return d
            sg = T.ite(T.lt(ul, 0.0), -1.0, 1.0)
            for m in range(4):
                others = [k for k in range(4) if k != m]
                ok = True
                for t, k in enumerate(others):
                    ok = T.and_(ok, absle(T.sub(comp[t], T.mul(sg, u[k])), 0.5 * SQ2 / 1023 + 1e-5))
                d = check_true(c, T.or_(T.ne(L, m), ok), f"quaternion with component {m} dropped decodes further than half a step from the rotation", samples * 2, 50 + m)
                if d:
                    return d
        if byte and (not only or "sh" in only):
            K = W.BANDS[deg]
            vN = snap.f["shN"]
            for ch in range(3):
                for k in range(K):
                    v = vN((i, k, ch))
                    if vN.dtype != F32:
                        v = T.cast(F32, v)
                    x = byte(i, ch * K + k)
                    dec = T.div(T.sub(x, 127.5), 32.0)
                    tgt = clip(v, (0 - 127.5) / 32, (255 - 127.5) / 32)
                    d = check_true(c, absle(T.sub(dec, tgt), 1 / 64 + 1e-4), f"f_rest_{ch * K + k} (channel {ch}, band {k}) decodes further than half a step from the coefficient", samples, 60 + ch * K + k)
                    if d:
                        return d
    return None


def codec_inputs(tag="", linear=()):
    g = evalr.GENERATORS
    wide = lambda r: r.choice([r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-40, 40)])
    # nearly or exactly flat chunks too
    flat = lambda lo, hi: lambda q: (lambda v, w: lambda r: v + r.uniform(0, w))(q.uniform(lo, hi), q.choice([0.0, 1e-3, 0.02]))
    g[tag + "means"] = 4 * [lambda _: wide] + [flat(-1, 1)]
    if "scales" not in linear:
        g[tag + "scales"] = 4 * [lambda _: scale] + [flat(-3, 1)]
    scale = lambda r: r.uniform(-8, 2) if r.random() < 0.97 else r.choice([-35.0, 30.0, -20.5, 25.0])
    if "opacities" not in linear:
        g[tag + "opacities"] = lambda r: r.uniform(-8, 8)
    g[tag + "sh0"] = 4 * [lambda _: lambda r: r.uniform(-2, 2)] + [flat(-1, 1)]
    g[tag + "shN"] = 4 * [lambda _: lambda r: r.uniform(-3.5, 3.5) if r.random() < 0.85 else r.choice([-6.0, 6.0, -4.0, 3.99, 0.0])] + [
        # every coefficient at one end of the scale, or the same
        lambda _: lambda r: r.uniform(-9, -4.2),
        lambda _: lambda r: r.uniform(4.2, 9),
        lambda q: (lambda v: lambda r: v)(q.choice([0.0, -4.0, 1.5])),
    ]
    g[tag + "quats"] = 2 * [lambda _: lambda r: r.uniform(-2, 2)] + [lambda q: near_unit(q.choice([1.0, 1.04, 0.97, 1.01, q.uniform(0.8, 1.25)]))]


def near_unit(norm):
    return lambda r: r.choice([-0.5, 0.5]) * (norm + r.uniform(-0.002, 0.002))


def encode_scen(writer, deg, what, base=False, linear=(), rgb=False, dtype=F32, step=None, none_shn=False, pool=None, only=None, raw=False):
    kind, run, fnname = WRITERS[writer]

    def fn(c, ip, o):
        n = S.count(pool=pool or [1, 2, 3, 255, 256, 257, 300, 513])
        codec_inputs("", linear)
        if linear:
            linear_inputs()
        kw = dict(base=base, linear=linear, rgb=rgb)
        if dtype != F32:
            kw["dtype"] = dtype
        if none_shn:
            kw["none_shn"] = True
        d = W.make(kind, ip, c, n, deg, **kw)
        snap = W.Snap(ip, d)
        m = n
        out = run(c, ip, d)
        w = W.where(ip.get(fnname))
        conv = to_ply(linear, rgb)
        if "structure" in what:
            o("structure", w, lambda: structure_diff(c, out, m, deg))
        if structure_safe(c, out, m, deg):
            if raw and bounds_diff(c, out, m, deg, snap, conv) and not bounds_diff(c, out, m, deg, snap, {}) or raw and not words_diff(c, out, m, deg, snap, {}, only=only):
                # the activated values were stored as they are
                o("unconverted", w, lambda: "activated values are packed as if they were in stored format")
                return
            if "bounds" in what:
                o("bounds", w, lambda: bounds_diff(c, out, m, deg, snap, conv))
            if "words" in what:
                o("words", w, lambda: words_diff(c, out, m, deg, snap, conv, only=only))
        elif not ({"structure"} & set(what)):
            o("stream", w, lambda: structure_diff(c, out, m, deg) or False)

    tag = f"{'base' if base else 'arrays'}{',' + dtype if dtype != F32 else ''}{',' + '+'.join(linear) if linear else ''}{',rgb' if rgb else ''}{',none' if none_shn else ''}"
    return Scenario(f"encode:{writer}:{tag}@deg{deg}", fn)


def structure_safe(c, out, n, deg):
    try:
        return structure_diff(c, out, n, deg) is None
    except (S.Undecided, A.Unresolved):
        return False


@prop("C04", "Every compressed writer entry point is interpreted over a symbolic dataset; the emitted stream's header, section order, property names and types, element "
      "counts and total length are compared with the PlayCanvas container definition for every degree.")
def c04(tier):
    out = []
    for wname in WRITERS:
        for deg in DEGS:
            out.append(encode_scen(wname, deg, ("structure",)))
        out.append(encode_scen(wname, 3, ("structure",), base=True))
    out.append(encode_scen("plywrite", 0, ("structure",), none_shn=True))
    out.append(encode_scen("compress_to_bytes", 0, ("structure",), none_shn=True))
    return out


@prop("C05", "The chunk bounds of every compressed encoder are compared, for a generic chunk, with the minimum and maximum over exactly the rows 256j..256j+255 that exist "
      "(scales clamped to the format's range), so no padding row and no neighbouring row takes part.")
def c05(tier):
    out = []
    for wname in ("write_compressed", "compress_to_bytes", "compress_to_arrays", "plywrite_gpu", "GSTensor.save"):
        for deg in (0, 1) if tier == "quick" else DEGS:
            out.append(encode_scen(wname, deg, ("bounds",)))
    out.append(encode_scen("plywrite", 1, ("bounds",), base=True))
    out.append(encode_scen("plywrite-tensor", 1, ("bounds",), base=True))
    return out


@prop("C03", "For a generic row, the bit fields of the packed words emitted by every compressed encoder are decoded with the published layout (11/10/11, 2/10/10/10, 8/8/8/8 bits, "
      "channel-grouped SH bytes) and compared with the row's values within half a quantisation step of the emitted chunk bounds.")
def c03(tier):
    out = []
    for wname in ("write_compressed", "compress_to_bytes", "compress_to_arrays-arrays", "plywrite_gpu"):
        for deg in DEGS:
            out.append(encode_scen(wname, deg, ("words",)))
    for wname in ("plywrite", "save", "plywrite-tensor", "GSTensor.save"):
        out.append(encode_scen(wname, 1, ("words",)))
        out.append(encode_scen(wname, 3, ("words",), base=True))
    return out


COMBOS = [((), True), (("scales",), False), (("opacities",), False), (("scales", "opacities"), False), (("scales", "opacities"), True)]


@prop("C19", "Every writer entry point is interpreted over datasets whose format record says, for each of scales, opacities and colour separately, that the field is activated; the written values "
      "(vertex columns, or the packed codes relative to the chunk bounds) are compared with the stored-format conversion of exactly the fields the record marks.")
def c19(tier):
    from .files import write_scen

    out = []
    for wname in WRITERS:
        if wname.endswith("-arrays") or wname == "write_compressed":
            continue
        for lin, rgb in COMBOS:
            out.append(encode_scen(wname, 0, ("bounds", "words"), linear=lin, rgb=rgb, only=("scale", "opacity", "colour"), raw=wname in ("compress_to_bytes", "compress_to_arrays")))
    for entry, kind in (("plywrite", "np"), ("save", "np"), ("plywrite", "torch"), ("save", "torch")):
        for lin, rgb in COMBOS:
            for base in (False, True):
                out.append(write_scen(entry, kind, 1, base=base, linear=lin, rgb=rgb))
    return out


# ---------------------------------------------------------------- decoders
DEC = {
    "read_compressed": ("np", ALL_READERS["read_compressed"]),
    "plyread": ("np", ALL_READERS["plyread"]),
    "GSData.load": ("np", ALL_READERS["GSData.load"]),
    "decompress_from_bytes": ("np", ALL_READERS["decompress_from_bytes"]),
    "plyread_gpu": ("torch", ALL_READERS["plyread_gpu"]),
    "plyread_gpu-cuda": ("torch", lambda ip, p: call(ip, "gsply.plyread_gpu", p, device="cuda")),
    "GSTensor.load": ("torch", ALL_READERS["GSTensor.load"]),
    "from_compressed": ("torch", lambda ip, p: ip.call(ip.getattr(ip.get("gsply.torch.gstensor.GSTensor"), "from_compressed"), [p], {"device": "cpu"})),
}


def compressed_file(n, deg, comments=(), tag="", **over):
    K = W.BANDS[deg]
    ch = chunks_of(n)
    secs = [raw_blob(tag + "cb", T.mul(ch, 18), F32), raw_blob(tag + "vx", T.mul(n, 4), "uint32")]
    if K:
        secs.append(raw_blob(tag + "sh", T.mul(n, 3 * K), "uint8"))
    evalr.SHAPES[tag + "cb"] = (T.mul(ch, 18),)
    evalr.SHAPES[tag + "vx"] = (T.mul(n, 4),)
    evalr.SHAPES[tag + "sh"] = (T.mul(n, 3 * K),)
    evalr.GENERATORS[tag + "cb"] = lambda r: r.uniform(-4, 4)
    return B.AFile([W.compressed_header(n, ch, 3 * K, comments, **over), *secs])


def decoded(deg, tag=""):
    """value(field, idx) the format defines, or a predicate for the opacity extremes"""
    K = W.BANDS[deg]
    cb = lambda j, k: T.elem(tag + "cb", F32, (T.add(T.mul(j, 18), k),))
    vx = lambda i, k: T.elem(tag + "vx", "uint32", (T.add(T.mul(i, 4), k),))

    def value(fld, ix):
        i, *r = ix
        j = T.fdiv(i, 256)
        lin = lambda k0, a, w, s, b: T.add(cb(j, k0 + a), T.mul(T.div(fieldbits(w, s, b), float((1 << b) - 1)), T.sub(cb(j, k0 + 3 + a), cb(j, k0 + a))))
        if fld in ("means", "scales"):
            k0, w = (0, vx(i, 0)) if fld == "means" else (6, vx(i, 2))
            return pick(r[0], [lin(k0, a, w, s, b) for a, (s, b) in enumerate(((21, 11), (11, 10), (0, 11)))])
        if fld == "sh0":
            return pick(r[0], [T.div(T.sub(lin(12, a, vx(i, 3), s, 8), 0.5), C0) for a, s in enumerate((24, 16, 8))])
        if fld == "opacities":
            o = T.div(fieldbits(vx(i, 3), 0, 8), 255.0)
            return log(T.div(o, T.sub(1.0, o)))
        if fld == "quats":
            w = vx(i, 1)
            L = fieldbits(w, 30, 2)
            a, b, d = [T.mul(T.sub(T.div(fieldbits(w, s, 10), 1023.0), 0.5), SQ2) for s in (20, 10, 0)]
            m = T.fn1("sqrt", T.mx(0.0, T.sub(1.0, T.add(T.add(T.mul(a, a), T.mul(b, b)), T.mul(d, d)))))
            rows = ((m, a, b, d), (a, m, b, d), (a, b, m, d), (a, b, d, m))
            out = rows[3][r[0]] if not isinstance(r[0], E) else None
            if out is None:
                raise S.Undecided("symbolic component")
            for q in (2, 1, 0):
                out = T.ite(T.eq(L, q), rows[q][r[0]], out)
            return out
        k, ch = r
        if isinstance(k, E) or isinstance(ch, E):
            raise S.Undecided("symbolic band")
        x = T.elem(tag + "sh", "uint8", (T.add(T.mul(i, 3 * K), ch * K + k),))
        return T.div(T.sub(x, 127.5), 32.0)

    return value


def pick(k, xs):
    if not isinstance(k, E):
        return xs[k]
    out = xs[-1]
    for q in range(len(xs) - 2, -1, -1):
        out = T.ite(T.eq(k, q), xs[q], out)
    return out


def decode_diff(c, ip, d, n, deg, kind, tag=""):
    val = decoded(deg, tag)
    op = ip.getattr(d, "opacities") if is_cls(ip, d, kind) else None
    if op is None:
        return f"result is {lib.str_of(d)}"
    code = lambda i: fieldbits(T.elem(tag + "vx", "uint32", (T.add(T.mul(i, 4), 3),)), 0, 8)

    def value(fld, ix):
        if fld != "opacities":
            return val(fld, ix)
        i = ix[0]
        # the two saturated codes have no logit; any value beyond the neighbouring code is accepted
        return T.ite(T.or_(T.eq(code(i), 0), T.eq(code(i), 255)), osnap((i,)), val(fld, ix))

    osnap = op.snap()
    x = dataset_diff(c, ip, d, n, deg, value, kind, tol=1e-4)
    if x:
        return x
    with scope(c):
        i = generic(c, n)
        v = osnap((i,))
        lo, hi = -5.5373342, 5.5373342
        ok = T.and_(T.or_(T.ne(code(i), 0), T.and_(T.le(v, lo), T.le(-1e6, v))), T.or_(T.ne(code(i), 255), T.and_(T.le(hi, v), T.le(v, 1e6))))
        evalr.GENERATORS[tag + "vx"] = lambda r: r.getrandbits(24) << 8 | r.choice([0, 255, r.getrandbits(8)])
        x = check_true(c, ok, "a saturated opacity is not finite and extreme", 12, 9)
        evalr.GENERATORS.pop(tag + "vx")
    return x


def decode_scen(entry, deg, lo=1, comments=()):
    kind, run = DEC[entry]

    def fn(c, ip, o):
        n = S.count(lo=lo, pool=[0, 1, 256] if not lo else [1, 2, 3, 255, 256, 257, 300, 513])
        p = "/in/a.compressed.ply"
        c.fs[p] = compressed_file(n, deg, comments)
        d = run(ip, p)
        w = W.where(ip.get("gsply.reader.read_compressed" if kind == "np" else "gsply.torch.compression.decompress_gpu"))
        o("decodes", w, lambda: decode_diff(c, ip, d, n, deg, kind))
        o("format", w, lambda: format_diff(ip, d, deg))
        o("masks", w, lambda: masks_all_true(c, ip, d, n))

    return Scenario(f"decode:{entry}@deg{deg}{',maybe-empty' if not lo else ''}{',comments' if comments else ''}", fn)


@prop("C06", "Every compressed reader entry point is interpreted on an abstract compressed file of symbolic length; for a generic row each decoded field is compared "
      "with the value the published format defines for that row's words and the bounds of chunk i div 256.")
def c06(tier):
    out = []
    for e in DEC:
        for deg in DEGS:
            out.append(decode_scen(e, deg))
    for e in ("read_compressed", "decompress_from_bytes", "plyread_gpu"):
        out.append(decode_scen(e, 1, comments=("Generated by PlayCanvas", "chunk of text")))
        out.append(decode_scen(e, 0, lo=0))
    return out
