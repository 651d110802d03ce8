"""Row access, views, construction and presets, choice of codec."""
from __future__ import annotations

from . import prop
from .common import *
from .containers import LIB, MASKS, M, OPS, V, content, mask_key, of, start, start_name
from .files import spec_rows, vertex_file
from .reading import base_diff, dataset_diff, format_diff, masks_all_true, outcome, stored

ROW = (*W.FIELDS, "masks")


def row_diff(c, ip, t, m, i):
    """difference between a row tuple and row i of the model"""
    if not isinstance(t, tuple) or len(t) != 7:
        return f"the row is {lib.str_of(t)}"
    want = [*(m.f[f] for f in W.FIELDS), m.masks]
    for f, x, v in zip(ROW, t, want):
        if v is None:
            if x is not None and not (isinstance(x, Arr) and 0 in x.shape):
                return f"{f} of the row is {lib.str_of(x)} where the dataset has none"
            continue
        if v.ndim == 1:
            if isinstance(x, Arr):
                if x.ndim != 0:
                    return f"{f} of the row has shape {S.dims(x.shape)}"
                x = x.snap()(())
            d = S.term_diff(c.path(), x, v((i,)))
            if d:
                return f"{f} of the row is {d}"
            continue
        if x is None and f == "shN" and v.shape[1] == 0:
            continue
        d = S.array_diff(c, x, lambda ix: v((i, *ix)), what=f"{f} of the row") if isinstance(x, Arr) else f"{f} of the row is {lib.str_of(x)}"
        if d is None:
            d = S.shape_diff(c, x.shape, v.shape[1:])
            d = d and f"{f} of the row has {d}"
        if d:
            return d
    return None


def row_scen(kind, deg, base, mk, key):
    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names)
        w = W.method_where(ip, kind, "__getitem__")
        if key == "i":
            i = generic(c, m.n)
            t = ip.getitem(d, i)
            o("row", w, lambda: row_diff(c, ip, t, m, i))
        elif key == "-i":
            i = generic(c, m.n)
            t = ip.getitem(d, T.sub(T.neg(i), 1))
            o("row", w, lambda: row_diff(c, ip, t, m, T.sub(T.sub(m.n, 1), i)))
        o("source", w, lambda: content(c, ip, d, m, kind))
        o("len", w, lambda: S.term_diff(c.path(), ip.call(ip.getattr(d, "__len__"), [], {}), m.n))

    return Scenario(f"row:[{key}]@{start_name(kind, deg, base, mk)}", fn)


def iter_scen(kind, deg, base, mk, n=3):
    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names, n=n)
        w = W.method_where(ip, kind, "__iter__" if kind == "np" else "__getitem__")
        rows = list(lib.iterate(ip, d))
        o("count", w, lambda: None if len(rows) == n else f"iteration yields {len(rows)} rows of {n}")
        for k, t in enumerate(rows[:n]):
            o("row", w, lambda: row_diff(c, ip, t, m, k))

    return Scenario(f"iterate@{start_name(kind, deg, base, mk)}", fn)


def raised(ip, f, *names):
    r = outcome(ip, f)
    if r.kind == "raised" and r.val in names:
        return None
    return f"the outcome is {r}, not {' or '.join(names)}"


BADKEY = {
    "[n]": ("IndexError", lambda c, ip, d, m, k: ip.getitem(d, m.n)),
    "[n+j]": ("IndexError", lambda c, ip, d, m, k: ip.getitem(d, T.add(m.n, T.fresh("j", "i", 0, 9)))),
    "[-n-1]": ("IndexError", lambda c, ip, d, m, k: ip.getitem(d, T.sub(T.neg(m.n), 1))),
    "get_gaussian(n)": ("IndexError", lambda c, ip, d, m, k: meth(ip, d, "get_gaussian", m.n)),
    "get_gaussian(-n-1)": ("IndexError", lambda c, ip, d, m, k: meth(ip, d, "get_gaussian", T.sub(T.neg(m.n), 1))),
    "['a']": ("TypeError", lambda c, ip, d, m, k: ip.getitem(d, "a")),
    "[None]": ("TypeError", lambda c, ip, d, m, k: ip.getitem(d, None)),
    "[1.5]": ("TypeError", lambda c, ip, d, m, k: ip.getitem(d, 1.5)),
    "[1, 2]": ("TypeError", lambda c, ip, d, m, k: ip.getitem(d, (1, 2))),
    "[mask of n+1]": ("ValueError", lambda c, ip, d, m, k: ip.getitem(d, S.arr("badmask", (T.add(m.n, 1),), "bool", LIB[k]))),
    "[mask of 1 row]": ("ValueError", lambda c, ip, d, m, k: (c.assume(T.le(2, m.n)), ip.getitem(d, S.arr("badmask1", (1,), "bool", LIB[k])))[1]),
    "[list of n]": ("IndexError", lambda c, ip, d, m, k: ip.getitem(d, [0, 7])),
    "[list of -n-1]": ("IndexError", lambda c, ip, d, m, k: ip.getitem(d, [1, -8])),
    "[index array]": ("IndexError", lambda c, ip, d, m, k: ip.getitem(d, lib.np_array([6, 7]))),
    "[bool list of n+1]": ("ValueError", lambda c, ip, d, m, k: ip.getitem(d, [True] * 8)),
}
SEVEN = ("[list of n]", "[list of -n-1]", "[index array]", "[bool list of n+1]")


def bad_key_scen(kind, label, deg, base, mk):
    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names, n=7 if label in SEVEN else None)
        exc, f = BADKEY[label]
        w = W.method_where(ip, kind, "get_gaussian" if "get_g" in label else "__getitem__")
        o("refused", w, lambda: raised(ip, lambda: f(c, ip, d, m, kind), exc))
        o("source", w, lambda: content(c, ip, d, m, kind))

    return Scenario(f"bad-key:{label}@{start_name(kind, deg, base, mk)}", fn)


@prop("C20", "Integer indexing is interpreted for a generic index counted from either end, on every arrangement of buffer, masks and degree; every element of the returned row is compared with that row of "
      "the dataset. Iteration is interpreted for a fixed small size; every kind of invalid key must end in the documented exception.")
def c20(tier):
    out = []
    for kind in ("np", "torch"):
        for j, (mk, deg) in enumerate((("none", 0), ("2", 1), ("1d", 3), ("1d-named", 2), ("3", 0))):
            for base in (False, True):
                for key in ("i", "-i"):
                    out.append(row_scen(kind, deg, base, mk, key))
                out.append(iter_scen(kind, deg, base, mk))
        for k, x in enumerate(BADKEY):
            if kind == "torch" and x in SEVEN[:3]:
                continue
            for base in (False, True):
                out.append(bad_key_scen(kind, x, (k + base) % 4, base, ("none", "2", "1d")[(k + base) % 3]))
    return out


# ---------------------------------------------------------------- views
MEMBER = {
    "slice[2:]": lambda m: lambda p: T.le(2, p),
    "slice[::2]": lambda m: lambda p: T.eq(T.mod(p, 2), 0),
    "slice[1:-1]": lambda m: lambda p: T.and_(T.le(1, p), T.lt(p, T.sub(m.n, 1))),
    "slice[-3:]": lambda m: lambda p: T.le(T.sub(m.n, 3), p),
    "slice[:]": lambda m: lambda p: True,
    "slice[::-1]": lambda m: lambda p: True,
}


def fill(ip, d, x=77.0):
    """overwrite every field and mask of a container in place"""
    for f in W.FIELDS:
        a = ip.getattr(d, f)
        if isinstance(a, Arr) and not (a.ndim == 3 and a.shape[1] == 0):
            ip.setitem(a, slice(None), x)
    a = ip.getattr(d, "masks")
    if isinstance(a, Arr):
        ip.setitem(a, slice(None), True)


def filled(m, inside=None):
    """the model after fill() on the rows given by inside"""
    def g(v, x):
        if v is None:
            return None
        return V(v.shape, v.dtype, lambda ix: x if inside is None else T.ite(inside(ix[0]), x, v(ix)))

    return m.but(f={k: g(v, 77.0) for k, v in m.f.items()}, masks=g(m.masks, True))


def view_scen(kind, x, deg, base, mk, way):
    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names)
        r, rm = OPS[x].fn(c, ip, d, m, kind)
        w = W.method_where(ip, kind, "__getitem__")
        if way == "through":
            fill(ip, r)
            o("seen-in-source", w, lambda: content(c, ip, d, filled(m, MEMBER[x](m)), kind))
            o("base", w, lambda: base_diff(c, ip, d, m.deg, m.n))
        else:
            fill(ip, d)
            o("seen-in-view", w, lambda: content(c, ip, r, filled(rm), kind))
            o("base", w, lambda: base_diff(c, ip, r, m.deg, rm.n))

    return Scenario(f"view:{x}:{way}@{start_name(kind, deg, base, mk)}", fn)


@prop("C21", "Every kind of slice is interpreted; the fields and masks of the slice are overwritten in place and the source is compared with the source overwritten in exactly those rows, and the other way round.")
def c21(tier):
    out = []
    for kind in ("np", "torch"):
        for k, x in enumerate(MEMBER):
            if kind not in OPS[x].kinds:
                continue
            for base in (False, True):
                for j, way in enumerate(("through", "back")):
                    for q in range(2):
                        out.append(view_scen(kind, x, (k + j + 2 * q + base) % 4, base, ("none", "2", "1d", "3")[(k + j + q) % 4], way))
    return out


# ---------------------------------------------------------------- construction
GST = "gsply.torch.gstensor.GSTensor"


def cls_of(ip, kind):
    return ip.get("gsply.GSData" if kind == "np" else GST)


def preset(deg, fmt, rgb=False):
    s, q = ("SCALES_LINEAR", "OPACITIES_LINEAR") if fmt == "linear" else ("SCALES_PLY", "OPACITIES_PLY")
    return {"scales": s, "opacities": q, "sh0": "SH0_RGB" if rgb else "SH0_SH", "sh_order": f"SH_ORDER_{deg}", "means": "MEANS_RAW", "quats": "QUATS_RAW"}


def fresh_arrays(c, kind, n, deg, dtype=F32, none_shn=False, device="cpu"):
    kw = W.inputs(n, deg, "", dtype, LIB[kind], device=device)
    if none_shn:
        kw["shN"] = None
    return kw


def build_scen(kind, how, deg, fmt, data="ply", rgb=False, explicit=False, none_shn=False, empty=False, device=None, dtype=None):
    """how: from_arrays | from_dict | positional | constructor"""
    name = f"build:{how}:{fmt}@{kind},deg{deg},{data}{',rgb' if rgb else ''}{',explicit' if explicit else ''}{',none' if none_shn else ''}{',empty' if empty else ''}{',' + device if device else ''}{',' + dtype if dtype else ''}"

    def fn(c, ip, o):
        n = 0 if empty else S.count(hi=SMALL, pool=[1, 2, 3, 5, 130])
        (linear_inputs if data == "linear" else ply_inputs)()
        c.oracle = True
        c.cuda = True
        kw = fresh_arrays(c, kind, n, deg, none_shn=none_shn)
        m = M(n, {k: of(W.View(v)) if v is not None else None for k, v in kw.items()}, None, None, preset(deg, {"ply": "ply", "linear": "linear", "rasterizer": "linear", "auto": "ply" if empty else data}[fmt], rgb))
        opt = {} if how == "constructor" else {"format": fmt}
        if rgb:
            opt["sh0_format"] = W.fmt_member(ip, "SH0_RGB")
        if explicit:
            opt["sh_degree"] = deg
        if kind == "torch" and how != "constructor":
            opt["device"] = device or "cpu"
            if dtype:
                opt["dtype"] = ip.getattr(ip.get("gsply.torch.gstensor.torch"), dtype)
        cls = cls_of(ip, kind)
        if how == "constructor":
            d = ip.call(cls, [], kw)
        elif how == "positional":
            d = ip.call(ip.getattr(cls, "from_arrays"), [kw[f] for f in W.FIELDS], opt)
        elif how == "from_arrays":
            d = ip.call(ip.getattr(cls, "from_arrays"), [], {**kw, **opt})
        else:
            if none_shn:
                kw.pop("shN")
            d = ip.call(ip.getattr(cls, "from_dict"), [dict(kw)], opt)
        w = W.method_where(ip, kind, "from_arrays" if how != "constructor" else "__post_init__")
        if dtype:
            m = m.but(f={k: v and v.map(lambda x: T.cast(dtype, x), dtype) for k, v in m.f.items()})
        o("content", w, lambda: content(c, ip, d, m, kind, tol=2e-3 if dtype == "float16" else 1e-5))
        o("degree", w, lambda: None if ip.call(ip.getattr(d, "get_sh_degree"), [], {}) == deg else f"get_sh_degree() is {ip.call(ip.getattr(d, 'get_sh_degree'), [], {})} instead of {deg}")
        o("unbuffered", w, lambda: None if ip.getattr(d, "_base") is None else base_diff(c, ip, d, deg, n))
        if kind == "torch":
            o("device", w, lambda: None if all(v is None or v.device.split(":")[0] == (device or "cpu") for v in (ip.getattr(d, f) for f in W.FIELDS)) else "a field is on another device")

    return Scenario(name, fn)


SMALL = 5000


def preset_scen(which, deg, rgb):
    def fn(c, ip, o):
        w = W.where(ip.get("gsply." + which))
        kw = {"sh0_format": W.fmt_member(ip, "SH0_RGB")} if rgb else {}
        f = call(ip, "gsply." + which, deg, **kw)
        want = preset(deg, "linear" if which == "create_rasterizer_format" else "ply", rgb)
        o("preset", w, lambda: None if W.fmt_names(f) == want else f"{W.fmt_names(f)} instead of {want}")
        g = call(ip, "gsply." + which, deg, **kw)
        o("fresh", w, lambda: "two calls return the same dict" if g is f else None)
        if deg == 0 and not rgb:
            o("default", w, lambda: None if W.fmt_names(call(ip, "gsply." + which)) == want else f"default {W.fmt_names(call(ip, 'gsply.' + which))}")

    return Scenario(f"preset:{which}@deg{deg}{',rgb' if rgb else ''}", fn)


def bad_build_scen(label, kind):
    def fn(c, ip, o):
        cls = cls_of(ip, kind)
        d, m = start(c, ip, kind, 1)
        kw = {f: ip.getattr(d, f) for f in W.FIELDS}
        w = W.method_where(ip, kind, "from_arrays")
        if label == "unknown preset":
            f, e = (lambda: ip.call(ip.getattr(cls, "from_arrays"), [], {**kw, "format": "srgb"})), "ValueError"
        elif label == "preset None":
            f, e = (lambda: ip.call(ip.getattr(cls, "from_arrays"), [], {**kw, "format": None})), "ValueError"
        elif label == "unknown preset, dict":
            f, e = (lambda: ip.call(ip.getattr(cls, "from_dict"), [kw], {"format": "PLY", **({"device": "cpu"} if kind == "torch" else {})})), "ValueError"
        elif label.startswith("degree"):
            g = int(label.split()[1])
            fmt = label.split()[2]
            f, e = (lambda: ip.call(ip.getattr(cls, "from_arrays"), [], {**kw, "format": fmt, "sh_degree": g})), "ValueError"
        elif label == "missing key":
            kw.pop("quats")
            f, e = (lambda: ip.call(ip.getattr(cls, "from_dict"), [kw], {"format": "ply"})), "KeyError"
        elif label == "format key":
            f, e = (lambda: meth(ip, d, "with_format", colour=W.fmt_member(ip, "SH0_RGB"))), "ValueError"
        elif label == "format key among valid ones":
            f, e = (lambda: meth(ip, d, "with_format", scales=W.fmt_member(ip, "SCALES_LINEAR"), opacity=W.fmt_member(ip, "OPACITIES_LINEAR"))), "ValueError"
        o("refused", w, lambda: raised(ip, f, e))
        o("source", w, lambda: content(c, ip, d, m, kind))

    return Scenario(f"bad-build:{label}@{kind}", fn)


def bad_preset_scen(which, g):
    def fn(c, ip, o):
        o("refused", W.where(ip.get("gsply." + which)), lambda: raised(ip, lambda: call(ip, "gsply." + which, g), "ValueError"))

    return Scenario(f"bad-preset:{which}@{g}", fn)


def pieces_scen(kind, deg, base, mk, linear, rgb, none_shn=False):
    """unpack, to_dict and back, format accessors"""

    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names, linear, rgb)
        if none_shn:
            ip.setattr(d, "shN", None)
            m = m.but(f={**m.f, "shN": None})
        w = lambda x: W.method_where(ip, kind, x)
        same = lambda x, f: (x is None or 0 in x.shape) and (m.f[f] is None or 0 in m.f[f].shape) and None or (S.array_diff(c, x, m.f[f], what=f) if isinstance(x, Arr) and m.f[f] is not None else None if x is None and m.f[f] is None else f"{f} is {lib.str_of(x)}")

        def parts(t, fs):
            if not isinstance(t, tuple) or len(t) != len(fs):
                return f"unpack gives {lib.str_of(t)}"
            for f, x in zip(fs, t):
                e = same(x, f)
                if e:
                    return e
                if x is not None:
                    e = S.shape_diff(c, x.shape, m.f[f].shape)
                    if e:
                        return f"{f} has {e}"
            return None

        o("unpack", w("unpack"), lambda: parts(meth(ip, d, "unpack"), W.FIELDS))
        o("unpack5", w("unpack"), lambda: parts(meth(ip, d, "unpack", include_shN=False), W.FIELDS[:5]))
        t = meth(ip, d, "to_dict")
        o("to_dict", w("to_dict"), lambda: parts(tuple(t.values()), W.FIELDS) if isinstance(t, dict) and tuple(sorted(t)) == tuple(sorted(W.FIELDS)) and list(t) == list(W.FIELDS) else
          (parts(tuple(t[f] for f in W.FIELDS), W.FIELDS) if isinstance(t, dict) and set(t) == set(W.FIELDS) else f"to_dict gives {lib.str_of(t)}"))
        kw = {"format": "linear" if linear else "ply", "sh0_format": W.fmt_member(ip, "SH0_RGB" if rgb else "SH0_SH")}
        if kind == "torch":
            kw["device"] = "cpu"
        back = ip.call(ip.getattr(cls_of(ip, kind), "from_dict"), [t], kw)
        o("round-trip", w("from_dict"), lambda: content(c, ip, back, m.but(masks=None, names=None), kind))
        if kind == "np" or True:
            again = ip.call(ip.getattr(cls_of(ip, kind), "from_arrays"), list(meth(ip, d, "unpack")), {k: v for k, v in kw.items()})
            o("round-trip-unpack", w("from_arrays"), lambda: content(c, ip, again, m.but(masks=None, names=None), kind))
        # format accessors
        fs = ip.getattr(d, "format_state")
        fs["scales"] = "spoiled"
        fs.pop("sh0", None)
        o("format_state", w("format_state"), lambda: content(c, ip, d, m, kind))
        e, em = start(c, ip, kind, deg, not base, None, None, not linear, not rgb, tag="other")
        meth(ip, e, "copy_format_from", d)
        o("copied", w("copy_format_from"), lambda: content(c, ip, e, em.but(format=dict(m.format)), kind))
        ip.getattr(e, "_format")["scales"] = W.fmt_member(ip, "SCALES_PLY" if linear else "SCALES_LINEAR")
        o("independent", w("copy_format_from"), lambda: content(c, ip, d, m, kind))
        sc = W.fmt_member(ip, "SCALES_PLY" if linear else "SCALES_LINEAR")
        x = meth(ip, d, "with_format", scales=sc)
        o("with_format", w("with_format"), lambda: content(c, ip, x, m.fmt(scales=sc.d["name"]), kind))
        o("with_format-source", w("with_format"), lambda: content(c, ip, d, m, kind))
        x = meth(ip, d, "with_format", sh0=W.fmt_member(ip, "SH0_RGB"), opacities=W.fmt_member(ip, "OPACITIES_LINEAR"), sh_order=W.fmt_member(ip, "SH_ORDER_2"))
        o("with_format", w("with_format"), lambda: content(c, ip, x, m.fmt(sh0="SH0_RGB", opacities="OPACITIES_LINEAR", sh_order="SH_ORDER_2"), kind))

    return Scenario(f"pieces@{start_name(kind, deg, base, mk, linear, rgb)}{',none' if none_shn else ''}", fn)


def owned_scen(kind, deg):
    """the caller's record and list of names stay the caller's"""

    def fn(c, ip, o):
        n = S.count(hi=SMALL)
        kw = fresh_arrays(c, kind, n, deg)
        f = W.fmt_dict(ip, deg)
        names = ["a", "b"]
        mk = S.arr("masks", (n, 2), "bool", LIB[kind])
        d = ip.call(cls_of(ip, kind), [], {**kw, "_format": f, "masks": mk, "mask_names": names})
        m = M.snap(ip, d, n)
        f["scales"] = W.fmt_member(ip, "SCALES_LINEAR")
        names[0] = "z"
        names.append("y")
        w = W.method_where(ip, kind, "__post_init__")
        o("owned", w, lambda: content(c, ip, d, m.but(names=["a", "b"], format=preset(deg, "ply")), kind))
        g, _ = W.fmt_dict(ip, deg), None
        hs = ["a", "b"]
        e = ip.call(cls_of(ip, kind), [], {**kw, "_format": g, "masks": mk, "mask_names": hs})
        ip.getattr(e, "_format")["scales"] = "spoiled"
        ip.getattr(e, "mask_names").append("q")
        o("caller", w, lambda: None if hs == ["a", "b"] and W.fmt_names(g) == preset(deg, "ply") else f"the caller's names and record became {hs}, {W.fmt_names(g)}")

    return Scenario(f"owned@{kind},deg{deg}", fn)


@prop("C22", "Every way of building a container from arrays or a dictionary, every format preset and every accessor is interpreted for symbolic sizes and values; contents, record, degree, device and dtype of the "
      "result are compared with what was passed. Format detection is decided on value domains where its documented rule is unambiguous.")
def c22(tier):
    out = []
    for kind in ("np", "torch"):
        for deg in DEGS:
            for how in ("from_arrays", "from_dict", "positional"):
                for fmt in ("ply", "linear", "rasterizer", "auto"):
                    out.append(build_scen(kind, how, deg, fmt, "linear" if (deg + (fmt == "auto")) % 2 else "ply", rgb=deg == 1, explicit=deg == 2))
            for data in ("ply", "linear"):
                out.append(build_scen(kind, "constructor", deg, "auto", data))
            out.append(owned_scen(kind, deg))
        for how in ("from_arrays", "from_dict"):
            out.append(build_scen(kind, how, 0, "ply", none_shn=True))
            out.append(build_scen(kind, how, 0, "auto", "linear", none_shn=True))
        out.append(build_scen(kind, "constructor", 1, "auto", "linear", empty=True))
        out.append(build_scen(kind, "from_arrays", 0, "auto", "linear", empty=True))
        for x in ("unknown preset", "preset None", "unknown preset, dict", "degree 4 ply", "degree -1 linear", "degree 7 auto", "missing key", "format key", "format key among valid ones"):
            out.append(bad_build_scen(x, kind))
        for deg in DEGS:
            for base in (False, True):
                out.append(pieces_scen(kind, deg, base, ("none", "2", "1d", "1d-named")[deg], deg % 2 == 1, deg >= 2))
        out.append(pieces_scen(kind, 0, False, "2", False, False, none_shn=True))
    for deg in (0, 3):
        out.append(build_scen("torch", "from_arrays", deg, "ply", device="cuda"))
        out.append(build_scen("torch", "from_dict", deg, "auto", "linear", device="cuda"))
        out.append(build_scen("torch", "from_arrays", deg, "linear", "linear", dtype="float64"))
        out.append(build_scen("torch", "from_dict", deg, "ply", dtype="float16"))
    for which in ("create_ply_format", "create_rasterizer_format"):
        for deg in DEGS:
            for rgb in (False, True):
                out.append(preset_scen(which, deg, rgb))
        for g in (-1, 4, 15):
            out.append(bad_preset_scen(which, g))
    return out


# ---------------------------------------------------------------- choice of codec and destination
from .codec import COMBOS, DEC, bounds_diff, codec_inputs, compressed_file, decode_diff, of_file, structure_diff, words_diff  # noqa: E402
from .reading import ALL_READERS, READERS, RKIND  # noqa: E402

NAMES_IN = ("/in/a.ply", "/in/a.compressed.ply", "/in/a.ply_compressed", "/in/a", "/in/a.dat", "/in/dir.compressed.ply/b.ply")
CWHERE = "gsply.plyread"


def auto_read_scen(entry, content_, name, deg, aspath):
    def fn(c, ip, o):
        n = S.count(pool=[1, 2, 255, 256, 257])
        c.fs[name] = W.uncompressed_file(n, deg) if content_ == "plain" else compressed_file(n, deg)
        p = B.APath(name) if aspath else name
        d = ALL_READERS[entry](ip, p)
        w = W.where(ip.get(CWHERE))
        kind = RKIND.get(entry, "np")
        if content_ == "plain":
            o("plain", w, lambda: dataset_diff(c, ip, d, n, deg, lambda f, ix: stored("", f, ix), kind))
        else:
            o("decoded", w, lambda: decode_diff(c, ip, d, n, deg, kind))
        o("format", w, lambda: format_diff(ip, d, deg))

    return Scenario(f"auto-read:{entry}:{content_}:{name}@deg{deg}{',path' if aspath else ''}", fn)


def detect_scen(label, deg):
    def fn(c, ip, o):
        n = S.count()
        p = "/in/a.ply"
        w = W.where(ip.get("gsply.detect_format"))
        names = [x[0] for x in W.columns(deg)]
        if label.startswith("plain"):
            c.fs[p] = W.uncompressed_file(n, deg, comments=("one", "element vertex 3") if "comments" in label else ())
            want = (False, deg)
        elif label.startswith("compressed"):
            if "named" in label:
                p = "/in/a.compressed.ply"
            c.fs[p] = compressed_file(n, deg, comments=("Generated by hand",) if "comments" in label else ())
            want = (True, None)
        elif label == "missing":
            want = (False, None)
        elif label == "compressed-name-plain-content":
            want = (False, deg)
        else:
            kw = {"swapped": dict(names=[names[1], names[0], *names[2:]]), "extra": dict(names=names + ["nx"]), "fewer": dict(names=names[:-1]), "renamed": dict(names=[*names[:-1], "rot_4"])}[label]
            c.fs[p] = B.AFile([W.uncompressed_header(deg, n, **kw), W.uncompressed_file(n, deg).segs[1]])
            want = (False, None)
        r = outcome(ip, lambda: call(ip, "gsply.detect_format", p))
        o("detects", w, lambda: None if r.kind == "data" and tuple(r.val) == want else f"{lib.str_of(r.val) if r.kind == 'data' else r} instead of {want}")

    return Scenario(f"detect:{label}@deg{deg}", fn)


def dest(name, compressed):
    """path and codec the documentation promises"""
    if name.endswith((".compressed.ply", ".ply_compressed")):
        return name, True
    if not compressed:
        return name, False
    b = name.rpartition("/")[2]
    if b.endswith(".ply") and len(b) > 4:
        return name[:-4] + ".compressed.ply", True
    return name + ".compressed.ply", True


NAMES_OUT = ("/out/x.ply", "/out/x.compressed.ply", "/out/x.ply_compressed", "/out/x", "/out/x.dat", "/out/a.b.ply", "/out/v1.2", "/out/dir.ply/x", "/out/scenes.plydata/a.ply", "/out/a.ply.ply")
SAVERS = {
    "plywrite": ("np", lambda ip, d, p, z: call(ip, "gsply.plywrite", p, d, compressed=z)),
    "plywrite(arrays)": ("np", lambda ip, d, p, z: call(ip, "gsply.plywrite", p, *(ip.getattr(d, f) for f in W.FIELDS), compressed=z)),
    "save": ("np", lambda ip, d, p, z: meth(ip, d, "save", p, compressed=z)),
    "plywrite(tensor)": ("torch", lambda ip, d, p, z: call(ip, "gsply.plywrite", p, d, compressed=z)),
    "GSTensor.save": ("torch", lambda ip, d, p, z: meth(ip, d, "save", p, compressed=z)),
}


def dest_scen(entry, name, compressed, deg, aspath=False, existing=False, base=False):
    kind, run = SAVERS[entry]

    def fn(c, ip, o):
        codec_inputs()
        ply_inputs()
        c.oracle = True
        d, m = start(c, ip, kind, deg, base, pool=[1, 2, 255, 256, 257])
        want, comp = (name, True) if entry == "GSTensor.save" and compressed else dest(name, compressed)
        before = set(c.fs)
        if existing:
            c.fs[want] = B.AFile([b"x" * 7, raw_blob_old(T.mul(m.n, 400))])
        run(ip, d, B.APath(name) if aspath else name, compressed)
        w = W.where(ip.get("gsply.plywrite")) if entry != "GSTensor.save" else W.method_where(ip, "torch", "save")
        new = sorted(set(c.fs) - before)
        o("destination", w, lambda: None if new == [want] else f"writes {new} instead of {want}")
        f = c.fs.get(want)
        if comp:
            o("codec", w, lambda: structure_diff(c, of_file(c, want), m.n, deg))
        else:
            o("codec", w, lambda: "no file was written" if f is None else vertex_file(c, f, deg, m.n, spec_rows(m, {}), 1e-5))

    return Scenario(f"dest:{entry}:{name}:{compressed}@deg{deg}{',path' if aspath else ''}{',existing' if existing else ''}{',base' if base else ''}", fn)


def raw_blob_old(n):
    return B.Blob(lambda k: T.elem("old", "uint8", (k,)), n, "uint8")


def refuse_write_scen(label):
    def fn(c, ip, o):
        kind = "torch" if "gpu" in label else "np"
        d, m = start(c, ip, kind, 1)
        before = set(c.fs)
        a = [ip.getattr(d, f) for f in W.FIELDS]
        w = W.where(ip.get("gsply.plywrite" if kind == "np" else "gsply.plywrite_gpu"))
        if kind == "torch":
            f = lambda: call(ip, "gsply.plywrite_gpu", "/out/x.ply", d, compressed=False)
        else:
            k = W.FIELDS.index(label.split()[1])
            kw = {f: x for j, (f, x) in enumerate(zip(W.FIELDS, a)) if j and j != k}
            f = lambda: call(ip, "gsply.plywrite", "/out/x.ply", a[0], **kw)
        o("refused", w, lambda: raised(ip, f, "ValueError"))
        o("nothing-written", w, lambda: None if set(c.fs) == before else f"wrote {sorted(set(c.fs) - before)}")

    return Scenario(f"refuse-write:{label}", fn)


def missing_scen(entry):
    def fn(c, ip, o):
        if entry == "decompress_from_bytes":
            return
        r = outcome(ip, lambda: ALL_READERS[entry](ip, "/in/none.ply"))
        o("refused", W.where(ip.get("gsply.plyread")), lambda: None if r.kind in ("raised", "none") else f"{r} for a file that does not exist")

    return Scenario(f"missing:{entry}", fn)


def agree_scen(entry, name, deg):
    """what was written under a name is what reading that name returns"""
    kind, run = SAVERS[entry]

    def fn(c, ip, o):
        ply_inputs()
        c.oracle = True
        d, m = start(c, ip, kind, deg)
        run(ip, d, name, False)
        back = call(ip, "gsply.plyread", name)
        w = W.where(ip.get("gsply.plyread"))
        o("back", w, lambda: dataset_diff(c, ip, back, m.n, deg, lambda f, ix: m.f[f](ix) if m.f[f].ndim == len(ix) else m.f[f]((*ix, 0)), "np", tol=1e-5))
        o("format", w, lambda: format_diff(ip, back, deg))
        two = call(ip, "gsply.plywrite", "/out/again.ply", back)
        o("rewrite", w, lambda: vertex_file(c, c.fs["/out/again.ply"], deg, m.n, spec_rows(m, {}), 1e-5))

    return Scenario(f"agree:{entry}:{name}@deg{deg}", fn)


@prop("C23", "Every saving entry point is interpreted for every kind of file name and both values of the compressed flag: exactly the promised path is written, with the promised codec, replacing what was there. "
      "Every reading entry point is interpreted for both kinds of content under every kind of name; detect_format must tell the same.")
def c23(tier):
    out = []
    for k, nm in enumerate(NAMES_IN):
        for e in ("plyread", "GSData.load", "GSTensor.load"):
            for ct in ("plain", "packed"):
                if e == "GSTensor.load" and ct == "plain" and nm.endswith((".compressed.ply", ".ply_compressed")):
                    continue
                out.append(auto_read_scen(e, ct, nm, k % 4, k % 2 == 1))
    for deg in DEGS:
        for lab in ("plain", "plain-comments", "compressed", "compressed-comments", "compressed-named", "swapped", "extra", "fewer", "renamed"):
            out.append(detect_scen(lab, deg))
    out.append(detect_scen("missing", 0))
    for k, nm in enumerate(NAMES_OUT):
        for j, e in enumerate(SAVERS):
            for z in (False, True):
                out.append(dest_scen(e, nm, z, (k + j) % 4, aspath=(k + j) % 2 == 0, existing=k < 3, base=j % 2 == 0 and not (k % 3)))
    for f in W.FIELDS[1:5]:
        out.append(refuse_write_scen(f"without {f}"))
    out.append(refuse_write_scen("gpu uncompressed"))
    for e in ALL_READERS:
        if e != "detect_format":
            out.append(missing_scen(e))
    for deg in DEGS:
        for e in SAVERS:
            out.append(agree_scen(e, "/out/x.ply", deg))
    return out
