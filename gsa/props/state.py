"""Contiguity, gradient tracking, independence of calls, file handles, and what a dataset says about itself."""
from __future__ import annotations

from . import prop
from .api import Vacuous, no_rows, of
from .codec import WRITERS, bounds_diff, codec_inputs, compressed_file, decode_diff, structure_diff, words_diff
from .common import *
from .containers import COMBINE, CONV, LIB, MASKS, OPS, SELECT, SMALL, USES, M, applicable, bandless, cat, content, kind_after, other, predicates, scribble, start, start_name
from .containers import _from, five
from .files import spec_rows, vertex_file
from .misc import GST, cls_of, preset
from .reading import ALL_READERS, outcome, RKIND, dataset_diff, format_diff, masks_all_true, stored
from .sog import Bundle, sog_diff

TRAIN = {f for f in W.FIELDS}


# ---------------------------------------------------------------- contiguity
def present(ip, d):
    for f in (*W.FIELDS, "masks"):
        a = ip.getattr(d, f)
        if isinstance(a, Arr):
            yield f, a


def is_contig(c, a):
    v = a.contig
    if isinstance(v, E):
        k = c.known(v)
        return v if k is None else k
    return bool(v)


def says(c, ip, d):
    """is_contiguous() against the arrays themselves"""
    r = meth(ip, d, "is_contiguous")
    want = True
    for f, a in present(ip, d):
        want = T.and_(want, is_contig(c, a))
    if isinstance(r, E) or isinstance(want, E):
        x = S.term_diff(c.path(), T.ite(r, 1, 0), T.ite(want, 1, 0))
        return x and f"is_contiguous() is {x} (1 for contiguous)"
    return None if r is want else f"is_contiguous() is {r} where {', '.join(f for f, a in present(ip, d) if is_contig(c, a) is not True) or 'no array'} is not contiguous"


def all_contig(c, ip, d):
    for f, a in present(ip, d):
        v = is_contig(c, a)
        if v is not True and (not isinstance(v, E) or S.term_diff(c.path(), T.ite(v, 1, 0), 1)):
            return f"{f} is not contiguous"
    r = meth(ip, d, "is_contiguous")
    return None if r is True or isinstance(r, E) and S.term_diff(c.path(), T.ite(r, 1, 0), 1) is None else f"is_contiguous() is {r}"


LOOSE = ("none", "all", "masks", *W.FIELDS)


def contiguous_scen(ops, deg, base, mk, loose, how):
    """loose: which arrays are strided views to begin with"""

    def fn(c, ip, o):
        masks, names = MASKS[mk]
        d, m = start(c, ip, "np", deg, base, masks, names, contig=loose != "all")
        a = ip.getattr(d, loose) if loose not in ("none", "all") else None
        if isinstance(a, Arr):
            a.contig = False
        if loose == "all" and masks:
            ip.getattr(d, "masks").contig = False
        for x in ops:
            if OPS[x].needs and not OPS[x].needs(m):
                return
            d, m = OPS[x].fn(c, ip, d, m, "np")
        w = W.method_where(ip, "np", "is_contiguous")
        o("says", w, lambda: says(c, ip, d))
        if how is None:
            return
        r = meth(ip, d, "make_contiguous", **how)
        w = W.method_where(ip, "np", "make_contiguous")
        o("contiguous", w, lambda: all_contig(c, ip, r))
        o("content", w, lambda: content(c, ip, r, m, "np"))
        inplace = how.get("inplace", True)
        o("identity", w, lambda: None if (r is d) == inplace else "returns " + ("another object" if inplace else "the same object"))
        if not inplace:
            o("source", w, lambda: content(c, ip, d, m, "np"))
            o("says-source", W.method_where(ip, "np", "is_contiguous"), lambda: says(c, ip, d))

    h = "ask" if how is None else f"make_contiguous({', '.join(f'{k}={v}' for k, v in how.items())})"
    return Scenario(f"contiguous:{'; '.join((*ops, h))}@{start_name('np', deg, base, mk)},loose-{loose}", fn)


@prop("C33", "make_contiguous and is_contiguous are interpreted on datasets whose arrays are, in turn, strided, and after selections and edits; the answer is compared with the layout of every array present, and "
      "afterwards every array must be contiguous and hold what it held.")
def c33(tier):
    out = []
    for how in (None, {}, {"inplace": True}, {"inplace": False}):
        for deg, mk in ((0, "none"), (1, "2"), (2, "1d"), (3, "3")):
            for loose in LOOSE:
                if loose == "shN" and not deg or loose == "masks" and mk == "none":
                    continue
                out.append(contiguous_scen((), deg, False, mk, loose, how))
            out.append(contiguous_scen((), deg, True, mk, "none", how))
            out.append(contiguous_scen((), deg, True, mk, "masks", how))
    for x in ("slice[2:]", "slice[::2]", "slice[::-1]", "mask", "index", "copy", "consolidate", "copy_slice[2:]", "denormalize", "to_rgb(False)", "assign opacities", "assign shN", "add_mask_layer", "add", "apply_masks(inplace)"):
        for base in (False, True):
            if applicable([x], "np", "2", deg=1):
                for how in ({}, {"inplace": False}):
                    out.append(contiguous_scen((x,), 1, base, "2", "none", how))
    return bandless(out)


# ---------------------------------------------------------------- gradient tracking
def trains(ip, d):
    return [a for a in (ip.getattr(d, f) for f in W.FIELDS) if isinstance(a, Arr) and not (a.ndim == 3 and a.shape[1] == 0)]


def all_tracked(ip, d, yes=True):
    for f in W.FIELDS:
        a = ip.getattr(d, f)
        if isinstance(a, Arr) and not (a.ndim == 3 and a.shape[1] == 0) and bool(a.attrs.get("requires_grad")) is not yes:
            return f"{f} {'no longer tracks' if yes else 'tracks'} gradients"
    return None


def learning(c, ip, deg, base, mk, linear, rgb, how):
    """a tensor dataset whose fields track gradients"""
    masks, names = MASKS[mk]
    if how == "from_gsdata":
        d, m = start(c, ip, "np", deg, base, masks, names, linear, rgb)
        d = _from(ip, d, device="cpu", requires_grad=True)
    else:
        d, m = start(c, ip, "torch", deg, base, masks, names, linear, rgb)
        for a in trains(ip, d):
            meth(ip, a, "requires_grad_", True)
    return d, m


def grad_scen(x, deg, base, mk, linear, rgb, how):
    def fn(c, ip, o):
        if x in ("bool-list",):
            S.FORCED["N"] = 6
        d, m = learning(c, ip, deg, base, mk, linear, rgb, how)
        p = OPS[x]
        if p.needs and not p.needs(m):
            return
        r, rm = p.fn(c, ip, d, m, "torch")
        k = kind_after(rm, "torch")
        w = W.method_where(ip, "torch", p.where)
        o("content", w, lambda: content(c, ip, r, rm, k, tol=2e-4))
        if k == "torch":
            o("tracked", w, lambda: all_tracked(ip, r))
        if not p.inplace:
            o("source", w, lambda: all_tracked(ip, d))
            o("source-content", w, lambda: content(c, ip, d, m, "torch"))

    return Scenario(f"grad:{x}:{how}@{start_name('torch', deg, base, mk, linear, rgb)}", fn)


def grad_use_scen(use, deg, base, mk, linear, rgb, how):
    def fn(c, ip, o):
        d, m = learning(c, ip, deg, base, mk, linear, rgb, how)
        r = USES[use][1](ip, d)
        w = W.method_where(ip, "torch", "to_gsdata")
        o("source", w, lambda: all_tracked(ip, d))
        o("content", w, lambda: content(c, ip, d, m, "torch"))
        if isinstance(r, I.Obj) and r.cls is cls_of(ip, "torch"):
            o("tracked", w, lambda: all_tracked(ip, r))

    return Scenario(f"grad-use:{use}:{how}@{start_name('torch', deg, base, mk, linear, rgb)}", fn)


def grad_save_scen(writer, deg, base, how):
    def fn(c, ip, o):
        codec_inputs()
        d, m = learning(c, ip, deg, base, "none", False, False, how)
        codec_inputs()
        snap = W.Snap(ip, d)
        out = WRITERS[writer][1](c, ip, d)
        w = W.where(ip.get(WRITERS[writer][2]))
        o("structure", w, lambda: structure_diff(c, out, m.n, deg))
        o("bounds", w, lambda: bounds_diff(c, out, m.n, deg, snap, {}))
        o("words", w, lambda: words_diff(c, out, m.n, deg, snap, {}))

    return Scenario(f"grad-save:{writer}:{how}@torch,deg{deg},{'base' if base else 'arrays'}", fn)


def grad_add_scen(deg, base, mk, which):
    def fn(c, ip, o):
        c.cuda = True
        masks, names = MASKS[mk]
        n1, n2 = S.count("N1", pool=[1, 2, 3], hi=SMALL), S.count("N2", pool=[1, 2, 3], hi=SMALL)
        d1, m1 = start(c, ip, "torch", deg, base, masks, names, n=n1, tag="p_")
        d2, m2 = start(c, ip, "torch", deg, base, masks, names, n=n2, tag="q_")
        for d, k in ((d1, "first"), (d2, "second")):
            if which in (k, "both"):
                for a in [*trains(ip, d), ip.getattr(d, "_base")]:
                    if isinstance(a, Arr):
                        meth(ip, a, "requires_grad_", True)
        r = meth(ip, d1, "add", d2)
        w = W.method_where(ip, "torch", "add")
        o("content", w, lambda: content(c, ip, r, cat(m1, m2, "torch"), "torch", masks=False))
        o("tracked", w, lambda: all_tracked(ip, r, which != "neither"))
        o("first", w, lambda: all_tracked(ip, d1, which in ("first", "both")))
        o("second", w, lambda: all_tracked(ip, d2, which in ("second", "both")))

    return Scenario(f"grad-add:{which}@torch,deg{deg},{'base' if base else 'arrays'},masks-{mk}", fn)


GRAD_OPS = [x for x in OPS if "torch" in OPS[x].kinds and not x.startswith(("edit ", "assign"))]


@prop("C34", "Every operation and writer of the device container is interpreted on datasets whose tensors track gradients, with torch's rules for tracking (numpy conversion and in-place change of leaves are errors, "
      "results of tracked operands are tracked); results must be right and tracked, sources must stay tracked.")
def c34(tier):
    out = []
    starts = ((0, True, "none", False, False), (1, False, "2", False, False), (2, True, "2", True, True), (3, False, "1d-named", True, True))
    for how in ("from_gsdata", "leaves"):
        for x in GRAD_OPS:
            for deg, base, mk, linear, rgb in starts:
                if x == "add" and how == "leaves" or how == "leaves" and base:
                    continue
                if applicable([x], "torch", mk, linear, rgb, deg):
                    out.append(grad_scen(x, deg, base, mk, linear, rgb, how))
        for u in USES:
            if USES[u][0] == "torch":
                for deg, base, mk, linear, rgb in starts:
                    if u == "to_ply_data" and not linear or how == "leaves" and base:
                        continue
                    out.append(grad_use_scen(u, deg, base, mk, linear, rgb, how))
        for wr in WRITERS:
            if WRITERS[wr][0] == "torch":
                out += [grad_save_scen(wr, deg, base, how) for deg, base in ((0, False), (1, True)) if how != "leaves" or not base]
    for which in ("first", "second", "both", "neither"):
        out += [grad_add_scen(deg, base, mk, which) for deg, base, mk in ((0, False, "none"), (1, True, "2"), (3, False, "2"))]
    return out


# ---------------------------------------------------------------- calls do not affect each other
def scribbled(ip, d):
    if isinstance(d, I.Obj):
        scribble(ip, d)
    elif isinstance(d, Arr):
        ip.setitem(d, slice(None), 77.0 if d.dtype.startswith("float") else 7)
    elif isinstance(d, dict):
        k = next(iter(d), None)
        d.clear()
        d["scales"] = "scribbled"


READ2 = {"plain": lambda n, deg, tag: W.uncompressed_file(n, deg, tag), "compressed": lambda n, deg, tag: compressed_file(n, deg, tag=tag)}
PLAIN_READERS = ("plyread", "read_uncompressed", "GSData.load", "GSTensor.load")
PACKED_READERS = ("plyread", "read_compressed", "GSData.load", "decompress_from_bytes", "plyread_gpu", "GSTensor.load")


def reread_scen(entry, first_, second, path2):
    """two files read in turn, under one name or two; the first result is scribbled on in between; then the first again"""
    (k1, d1), (k2, d2) = first_, second

    def fn(c, ip, o):
        n1, n2 = S.count("N1", pool=[1, 2, 3, 256, 257], hi=SMALL), S.count("N2", pool=[1, 2, 3, 256, 257], hi=SMALL)
        if path2 == "same size":
            n2 = n1
        p1 = "/in/a.ply"
        p2 = "/in/b.ply" if path2 == "other name" else p1
        kind = "torch" if entry == "plyread_gpu" else RKIND.get(entry, "np")
        read = ALL_READERS[entry]
        w = W.where(ip.get("gsply.plyread"))
        diff = lambda r, k, n, deg, tag: dataset_diff(c, ip, r, n, deg, lambda f, ix: stored(tag, f, ix), kind) if k == "plain" else decode_diff(c, ip, r, n, deg, kind, tag)
        c.fs[p1] = READ2[k1](n1, d1, "p_")
        a = read(ip, p1)
        c.fs[p2] = READ2[k2](n2, d2, "q_")
        b = read(ip, p2)
        o("first", w, lambda: diff(a, k1, n1, d1, "p_"))
        o("second", w, lambda: diff(b, k2, n2, d2, "q_"))
        scribbled(ip, a)
        o("second-untouched", w, lambda: diff(b, k2, n2, d2, "q_") or format_diff(ip, b, d2) or masks_all_true(c, ip, b, n2))
        c.fs[p1] = READ2[k1](n1, d1, "p_")
        a = read(ip, p1)
        o("again", w, lambda: diff(a, k1, n1, d1, "p_") or format_diff(ip, a, d1) or masks_all_true(c, ip, a, n1))

    return Scenario(f"reread:{entry}:{k1}{d1},{k2}{d2}:{path2}", fn)


def resog_scen(v1, v2, deg1, deg2, form):
    def fn(c, ip, o):
        w = W.where(ip.get("gsply.sog_reader.sogread"))
        read = lambda b: call(ip, "gsply.sog_reader.sogread", b.place(c, form))
        b1, b2 = Bundle(c, v1, deg1, tag="p_"), Bundle(c, v2, deg2, tag="q_")
        a = read(b1)
        b = read(b2)
        o("first", w, lambda: sog_diff(c, ip, a, b1))
        o("second", w, lambda: sog_diff(c, ip, b, b2))
        scribbled(ip, a)
        o("second-untouched", w, lambda: sog_diff(c, ip, b, b2) or format_diff(ip, b, deg2))
        a = read(b1)
        o("again", w, lambda: sog_diff(c, ip, a, b1) or format_diff(ip, a, deg1))

    return Scenario(f"reread:sogread:{v1}:{deg1},{v2}:{deg2}:{form}", fn)


def rewrite_scen(writer, deg1, deg2):
    """two datasets written in turn, to one name; then the first again"""
    kind, run, fnname = WRITERS[writer]

    def fn(c, ip, o):
        codec_inputs("p_")
        codec_inputs("q_")
        ds = []
        for tag, deg in (("p_", deg1), ("q_", deg2)):
            n = S.count("N" + tag, pool=[1, 2, 3, 256, 257], hi=SMALL)
            d = W.make(kind, ip, c, n, deg, tag=tag)
            ds.append((d, W.Snap(ip, d), n, deg))
        w = W.where(ip.get(fnname))
        outs = [(run(c, ip, d), s, n, deg) for d, s, n, deg in (*ds, ds[0])]
        for nm, (out, s, n, deg) in zip(("first", "second", "again"), outs):
            o(nm, w, lambda: structure_diff(c, out, n, deg) or bounds_diff(c, out, n, deg, s, {}, samples=3) or words_diff(c, out, n, deg, s, {}, samples=3))

    return Scenario(f"rewrite:{writer}@deg{deg1},deg{deg2}", fn)


def replain_scen(entry, kind, deg1, deg2, base):
    def fn(c, ip, o):
        run = {"plywrite": lambda d, p: call(ip, "gsply.plywrite", p, d), "save": lambda d, p: meth(ip, d, "save", p, compressed=False)}[entry]
        ds = []
        for tag, deg in (("p_", deg1), ("q_", deg2)):
            ds.append(start(c, ip, kind, deg, base, tag=tag, n=S.count("N" + tag, pool=[1, 2, 3, 257], hi=SMALL)))
        w = W.where(ip.get("gsply.plywrite"))
        for k, (d, m) in (("first", ds[0]), ("second", ds[1]), ("again", ds[0])):
            run(d, "/out/x.ply")
            f = c.fs.get("/out/x.ply")
            o(k, w, lambda: "no file was written" if f is None else vertex_file(c, f, m.deg, m.n, spec_rows(m, {}), 1e-5))

    return Scenario(f"rewrite:{entry}:{kind}@deg{deg1},deg{deg2},{'base' if base else 'arrays'}", fn)


def rebuild_scen(kind, how, deg1, deg2, fmt):
    """datasets built in turn; the first is changed in place in between"""

    def fn(c, ip, o):
        ply_inputs("p_")
        ply_inputs("q_")
        c.oracle = c.cuda = True
        cls = cls_of(ip, kind)
        ds = []
        opt = {"format": fmt, **({"device": "cpu"} if kind == "torch" else {})}
        for tag, deg in (("p_", deg1), ("q_", deg2), ("r_", deg1)):
            n = S.count("N" + tag, pool=[1, 2, 3, 130], hi=SMALL)
            kw = W.inputs(n, deg, tag, F32, "np" if kind == "np" else "torch")
            if how == "constructor":
                d = ip.call(cls, [], {**kw, "_format": call(ip, "gsply.create_ply_format", deg)})
            elif how == "from_arrays":
                d = ip.call(ip.getattr(cls, "from_arrays"), [], {**kw, **opt})
            else:
                d = ip.call(ip.getattr(cls, "from_dict"), [kw], opt)
            m = M.snap(ip, d, n).but(format=preset(deg, fmt if how != "constructor" else "ply"))
            ds.append((d, m))
            if tag == "q_":
                meth(ip, ds[0][0], "add_mask_layer", "extra", S.arr("p_extra", (ds[0][1].n,), "bool", "np" if kind == "np" else "torch"))
                scribbled(ip, ds[0][0])
        w = W.method_where(ip, kind, "from_arrays" if how != "constructor" else "__post_init__")
        for k, (d, m) in (("second", ds[1]), ("third", ds[2])):
            o(k, w, lambda: content(c, ip, d, m, kind))

    return Scenario(f"rebuild:{kind}:{how}:{fmt}@deg{deg1},deg{deg2}", fn)


def represet_scen(which, d1, d2):
    def fn(c, ip, o):
        w = W.where(ip.get("gsply." + which))
        want = lambda g: preset(g, "linear" if which == "create_rasterizer_format" else "ply")
        a, b = call(ip, "gsply." + which, d1), call(ip, "gsply." + which, d2)
        scribbled(ip, a)
        o("second", w, lambda: None if W.fmt_names(b) == want(d2) else f"{W.fmt_names(b)} instead of {want(d2)}")
        a = call(ip, "gsply." + which, d1)
        o("again", w, lambda: None if W.fmt_names(a) == want(d1) else f"{W.fmt_names(a)} instead of {want(d1)}")

    return Scenario(f"represet:{which}@deg{d1},deg{d2}", fn)


def reop_scen(kind, x, deg, base, mk, linear, rgb):
    """the same operation on two datasets in turn, the first result scribbled on"""

    def fn(c, ip, o):
        masks, names = MASKS[mk]
        k = 6 if x == "bool-list" else None
        d1, m1 = start(c, ip, kind, deg, base, masks, names, linear, rgb, tag="p_", n=k or S.count("N1", pool=[5, 6, 130], hi=SMALL))
        d2, m2 = start(c, ip, kind, deg, base, masks, names, linear, rgb, tag="q_", n=k or S.count("N2", pool=[5, 6, 130], hi=SMALL))
        p = OPS[x]
        r1, w1 = p.fn(c, ip, d1, m1, kind)
        r2, w2 = p.fn(c, ip, d2, m2, kind)
        k1 = kind_after(w1, kind)
        w = W.method_where(ip, k1, p.where)
        o("first", w, lambda: content(c, ip, r1, w1, k1, tol=2e-4))
        scribbled(ip, r1)
        o("second", w, lambda: content(c, ip, r2, w2, k1, tol=2e-4))

    return Scenario(f"reop:{x}@{start_name(kind, deg, base, mk, linear, rgb)}", fn)


@prop("C35", "Calls are interpreted in sequence with the interpreter's module, class and default-argument state kept between them: two inputs (under one file name or two), the first result overwritten in place, "
      "then the first input again; every result must be what its own input alone determines.")
def c35(tier):
    out = []
    for e in PLAIN_READERS:
        for path2 in ("same name", "other name", "same size"):
            out.append(reread_scen(e, ("plain", 1), ("plain", 1), path2))
            out.append(reread_scen(e, ("plain", 3), ("plain", 0), path2))
    for e in PACKED_READERS:
        for path2 in ("same name", "same size"):
            out.append(reread_scen(e, ("compressed", 1), ("compressed", 1), path2))
            out.append(reread_scen(e, ("compressed", 0), ("compressed", 2), path2))
    for e in ("plyread", "GSTensor.load"):
        out.append(reread_scen(e, ("plain", 1), ("compressed", 1), "same name"))
        out.append(reread_scen(e, ("compressed", 2), ("plain", 0), "same name"))
    for form in ("folder", "zip", "bytes"):
        for a, b, g, h in ((2, 2, 1, 1), (2, 3, 0, 2), (3, 2, 1, 0)):
            out.append(resog_scen(a, b, g, h, form))
    for wr in WRITERS:
        if "arrays" not in wr or wr == "compress_to_arrays":
            for g, h in ((0, 0), (1, 1), (2, 0)):
                out.append(rewrite_scen(wr, g, h))
    for e in ("plywrite", "save"):
        for kind in ("np", "torch"):
            for base in (False, True):
                for g, h in ((1, 1), (3, 0)):
                    out.append(replain_scen(e, kind, g, h, base))
    for kind in ("np", "torch"):
        for how in ("from_arrays", "from_dict", "constructor"):
            for fmt in ("ply",) if how == "constructor" else ("ply", "linear", "auto"):
                for g, h in ((0, 0), (2, 1)):
                    out.append(rebuild_scen(kind, how, g, h, fmt if fmt != "auto" else "ply"))
        for x in OPS:
            if kind in OPS[x].kinds and x not in ("add",) and not x.startswith(("edit", "assign")):
                for deg, base, mk, linear, rgb in ((1, False, "2", False, False), (2, True, "2", True, True)):
                    if applicable([x], kind, mk, linear, rgb, deg):
                        out.append(reop_scen(kind, x, deg, base, mk, linear, rgb))
    for which in ("create_ply_format", "create_rasterizer_format"):
        for g, h in ((0, 0), (1, 3)):
            out.append(represet_scen(which, g, h))
    return out


# ---------------------------------------------------------------- file handles
def tidy(sc, what):
    """the same scenario, judged by what it leaves open and what it touches"""

    def fn(c, ip, o):
        inputs = {}
        quiet = lambda *a, **k: None
        try:
            sc.fn(c, ip, quiet)
        except (I.Raised, I.Unresolved) as e:
            if isinstance(e, I.Unresolved):
                raise
        hs = [h for h in c.handles if not h.brief]
        w = W.where(ip.get("gsply.plyread" if what == "read" else "gsply.plywrite"))
        left = [h for h in hs if not h.closed]
        o("closed", w, lambda: f"{left[0].name} is left open" if left else None)
        if what == "read":
            made = sorted({p for k, p, *_ in c.events if k == "create"})
            o("untouched", w, lambda: f"reading writes {', '.join(made)}" if made else None)
        c.handles = []

    return Scenario(f"tidy:{sc.name}", fn, "ignore", sc.maxpaths)


@prop("C36", "Every scenario of the reading, refusing and writing properties is interpreted again with the files it opens recorded; on every path - result, refusal or exception - each must have been closed, "
      "and readers must not have created or written any.")
def c36(tier):
    out = []
    for pid in ("C02", "C06", "C07", "C08", "C09"):
        out += [tidy(s, "read") for s in of(pid)]
    out += [tidy(s, "read") for s in of("C24", "folder", "zip")[:12] + of("C25", "folder", "zip")[:12] + of("C26")]
    out += [tidy(s, "write") for s in of("C01")[::2] + of("C04") + of("C31")]
    return out


# ---------------------------------------------------------------- what a dataset says about itself
def self_description(c, ip, d, m, kind, device="cpu", dtype=F32):
    k = ip.call(ip.getattr(d, "__len__"), [], {})
    if T.eq(k, m.n) is not True and S.term_diff(c.path(), k, m.n):
        return f"len() is {S.term_diff(c.path(), k, m.n)}"
    g = meth(ip, d, "get_sh_degree")
    if g != m.deg:
        return f"get_sh_degree() is {lib.str_of(g)} instead of {m.deg}"
    if kind == "torch":
        h = meth(ip, d, "has_high_order_sh") if not isinstance(ip.getattr(d, "has_high_order_sh"), bool) else ip.getattr(d, "has_high_order_sh")
        if bool(h) is not (m.deg > 0):
            return f"has_high_order_sh() is {h} at degree {m.deg}"
        dv, dt = ip.getattr(d, "device"), ip.getattr(d, "dtype")
        if dv.type != device:
            return f"device is {dv.type} instead of {device}"
        if lib.dtn(dt) != dtype:
            return f"dtype is {lib.str_of(dt)} instead of {dtype}"
    return predicates(ip, d, m)


def describe_scen(kind, x, deg, base, mk, linear, rgb, device="cpu"):
    def fn(c, ip, o):
        c.cuda = True
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names, linear, rgb, n=6 if x == "bool-list" else None, device=device)
        p = OPS.get(x)
        if p:
            if p.needs and not p.needs(m):
                return
            src, sm = d, m
            d, m = p.fn(c, ip, d, m, kind)
        k = kind_after(m, kind)
        w = W.method_where(ip, k, "get_sh_degree")
        o("describes", w, lambda: self_description(c, ip, d, m, k, device if k == "torch" else "cpu"))
        if p and not p.inplace:
            o("source-describes", w, lambda: self_description(c, ip, src, sm, kind, device))
        fs = ip.getattr(d, "format_state")
        want = W.fmt_names(fs)
        if isinstance(fs, dict):
            fs["scales"] = W.fmt_member(ip, "SCALES_LINEAR" if want["scales"] == "SCALES_PLY" else "SCALES_PLY")
            fs.pop("means", None)
            o("format-state", w, lambda: None if W.fmt_names(ip.getattr(d, "format_state")) == want == W.fmt_names(ip.getattr(d, "_format")) else "changing format_state changes the dataset")
        else:
            o("format-state", w, lambda: f"format_state is {lib.str_of(fs)}")

    return Scenario(f"describe:{x or 'start'}@{start_name(kind, deg, base, mk, linear, rgb)},{device}", fn)


def replaced_scen(kind, deg, new, base, fewer):
    """ask, replace the arrays by hand (another degree, another number of rows), ask again"""

    def fn(c, ip, o):
        d, m = start(c, ip, kind, deg, base)
        e, em = start(c, ip, kind, new, False, tag="new_", n=S.count("N2", pool=[1, 2, 3]) if fewer else m.n)
        w = W.method_where(ip, kind, "get_sh_degree")
        o("describes", w, lambda: self_description(c, ip, d, m, kind))
        for f in W.FIELDS if fewer else ("shN",):
            ip.setattr(d, f, ip.getattr(e, f))
        want = em.but(format=m.format)
        o("replaced-describes", w, lambda: self_description(c, ip, d, want, kind))
        if kind == "torch" and not base:
            h = meth(ip, d, "half")
            o("narrow-describes", w, lambda: self_description(c, ip, h, want, kind, dtype="float16"))

    return Scenario(f"describe:degree-{deg}-to-{new}@{kind},{'base' if base else 'arrays'}{',rows' if fewer else ''}", fn)


@prop("C37", "After every operation, the length, SH degree, format predicates and, on the device, has_high_order_sh, device and dtype are compared with the contents the operation must have produced; format_state must be a copy.")
def c37(tier):
    out = []
    for kind in ("np", "torch"):
        for x in (None, *OPS):
            if x and kind not in OPS[x].kinds:
                continue
            for k, (deg, base, mk, linear, rgb) in enumerate(((0, False, "2", False, False), (0, True, "none", True, True), (1, True, "2", False, True), (2, False, "1d-named", True, False), (3, True, "2", False, False), (3, False, "2", True, True))):
                if x is None or applicable([x], kind, mk, linear, rgb, deg):
                    out.append(describe_scen(kind, x, deg, base, mk, linear, rgb, "cuda" if kind == "torch" and not base and k % 2 else "cpu"))
    out = bandless(out)
    out += [under(s, "empty", no_rows, wrap=Vacuous) for s in out]
    return out + [replaced_scen(k, a, b, base, fewer) for k in ("np", "torch") for a in range(4) for b in range(4) for base in (False, True) for fewer in (False, True) if a != b or fewer]


# ---------------------------------------------------------------- a refused operation has no effect
def torn(kind, n, f, how):
    """an array of field f that does not fit the others"""
    n0 = {"rows-1": T.sub(n, 1), "rows+1": T.add(n, 1)}.get(how, n)
    tail = {"means": (3,), "scales": (3,), "quats": (4,), "opacities": (), "sh0": (3,), "shN": (3, 3), "masks": (2,)}[f]
    if how.startswith("columns"):
        tail = (*tail[:-1], tail[-1] + (1 if how[-2] == "+" else -1)) if tail else (2,)
    elif how == "flat":
        return S.arr("torn_" + f, (n0,), F32, LIB[kind])
    return S.arr("torn_" + f, (n0, *tail), "bool" if f == "masks" else F32, LIB[kind])


def whole(ip, d):
    s = W.Snap(ip, d)
    b = ip.getattr(d, "_base")
    return s, W.View(b) if isinstance(b, Arr) else b, {f: ip.getattr(d, f) for f in (*W.FIELDS, "masks", "_base")}


def untouched(c, ip, d, was):
    s, b, refs = was
    x = W.same_content(c, ip, d, s)
    if x:
        return x
    now = ip.getattr(d, "_base")
    if (now is None) != (b is None):
        return f"_base {'lost' if now is None else 'appeared'}"
    return None if b is None else W.field_diff(c, now, b, "_base")


def torn_scen(kind, x, deg, base, mk, linear, rgb, f, how, other_dtype=F32):
    def fn(c, ip, o):
        c.cuda = True
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names, linear, rgb, n=6 if x == "bool-list" else S.count(pool=[3, 5, 7, 130], hi=SMALL), dtype=other_dtype)
        c.assume(T.le(3, m.n))
        p = OPS[x]
        ip.setattr(d, f, None if how == "none" else torn(kind, m.n, f, how))
        was = whole(ip, d)
        r = outcome(ip, lambda: p.fn(c, ip, d, m, kind))
        if r.kind == "raised":
            o("unchanged", W.method_where(ip, kind, p.where), lambda: untouched(c, ip, d, was))

    return Scenario(f"torn:{x}:{f}:{how}@{start_name(kind, deg, base, mk, linear, rgb)}{'' if other_dtype == F32 else ',' + other_dtype}", fn, maxpaths=100)


ACTIVATE = {
    # call: fields whose shape it documents as checked
    "apply_pre_activations": ("np", {}, ("scales", "quats", "opacities"), False), "apply_pre_activations(False)": ("np", {"inplace": False}, ("scales", "quats", "opacities"), False),
    "denormalize": ("np", {}, ("scales", "quats", "opacities"), False), "apply_pre_deactivations": ("np", {}, ("scales", "opacities"), True),
    "apply_pre_deactivations(False)": ("np", {"inplace": False}, ("scales", "opacities"), True), "normalize": ("np", {}, ("scales", "opacities"), True),
}


def activate_scen(x, f, how, base, dtype=F32, contig=True):
    kind, kw, fields, linear = ACTIVATE[x]

    def fn(c, ip, o):
        d, m = start(c, ip, kind, 1, base, None, None, linear, n=S.count(pool=[3, 5, 7, 130], hi=SMALL), dtype=dtype, contig=contig)
        c.assume(T.le(3, m.n))
        ip.setattr(d, f, None if how == "none" else torn(kind, m.n, f, how))
        was = whole(ip, d)
        r = outcome(ip, lambda: call(ip, f"gsply.{x.split('(')[0]}", d, **kw) if x.startswith("apply") else meth(ip, d, x))
        w = W.where(ip.get("gsply." + x.split("(")[0])) if x.startswith("apply") else W.method_where(ip, kind, x)
        o("refused", w, lambda: None if r.kind == "raised" and (r.val == "ValueError" or how == "none") else f"{r} instead of ValueError for {f} {how}")
        o("unchanged", w, lambda: untouched(c, ip, d, was))

    return Scenario(f"unfit:{x}:{f}:{how}@{'base' if base else 'arrays'}{'' if dtype == F32 else ',' + dtype}{'' if contig else ',strided'}", fn, maxpaths=100)


def _arrays(ip, kind, d, **k):
    return ip.call(ip.getattr(cls_of(ip, kind), "from_arrays"), [], {**{f: ip.getattr(d, f) for f in W.FIELDS}, **({"device": "cpu"} if kind == "torch" else {}), **k})


def _dict(ip, kind, d, *drop, **k):
    return ip.call(ip.getattr(cls_of(ip, kind), "from_dict"), [{f: ip.getattr(d, f) for f in W.FIELDS if f not in drop}], {**({"device": "cpu"} if kind == "torch" else {}), **k})


REFUSED = {
    # what: (kinds, exception, call)
    "with_format(bogus)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "with_format", scales=W.fmt_member(ip, "SCALES_LINEAR"), bogus=1)),
    "from_arrays(bogus)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: _arrays(ip, k, d, format="bogus")),
    "from_dict(bogus)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: _dict(ip, k, d, format="bogus")),
    "from_arrays(degree 4)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: _arrays(ip, k, d, format="ply", sh_degree=4)),
    "from_dict(without means)": (("np", "torch"), ("KeyError", "ValueError"), lambda c, ip, d, k: _dict(ip, k, d, "means")),
    "combine_masks(xor)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "combine_masks", mode="xor")),
    "apply_masks(xor)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "apply_masks", mode="xor")),
    "apply_masks(xor,inplace)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "apply_masks", mode="xor", inplace=True)),
    "apply_masks(unknown)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "apply_masks", layers=["nope"], inplace=True)),
    "apply_masks(one unknown)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "apply_masks", layers=["a", "nope"], inplace=True)),
    "remove_mask_layer(unknown)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "remove_mask_layer", "nope")),
    "add_mask_layer(taken)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "add_mask_layer", ip.getattr(d, "mask_names")[0], S.arr("okmask", (ip.call(ip.getattr(d, "__len__"), [], {}),), "bool", k))),
    "add_mask_layer(short)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "add_mask_layer", "q", S.arr("badmask", (T.add(ip.call(ip.getattr(d, "__len__"), [], {}), 1),), "bool", k))),
    "add_mask_layer(column)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "add_mask_layer", "q", S.arr("badmask", (ip.call(ip.getattr(d, "__len__"), [], {}), 1), "bool", k))),
    "apply_masks(twice)": (("np", "torch"), ("ValueError",), lambda c, ip, d, k: meth(ip, d, "apply_masks", layers=["keep", "keep"], inplace=True)),
    "add_mask_layer(scalar)": (("np", "torch"), None, lambda c, ip, d, k: meth(ip, d, "add_mask_layer", "q", True)),
    "add(None)": (("np", "torch"), None, lambda c, ip, d, k: meth(ip, d, "add", None)),
    "+ 1": (("np", "torch"), None, lambda c, ip, d, k: ip.op("Add", d, 1)),
    "concatenate([])": (("np",), ("ValueError",), lambda c, ip, d, k: ip.call(ip.getattr(cls_of(ip, k), "concatenate"), [[]], {})),
    "plywrite_gpu(uncompressed)": (("torch",), ("ValueError",), lambda c, ip, d, k: call(ip, "gsply.plywrite_gpu", "/out/x.ply", d, compressed=False)),
    "plywrite(nowhere)": (("np", "torch"), None, lambda c, ip, d, k: call(ip, "gsply.plywrite", None, d)),
    "from_gsdata(short mask)": (("np",), ("ValueError",), lambda c, ip, d, k: _from(ip, d, device="cpu", mask=S.arr("badmask", (T.add(ip.call(ip.getattr(d, "__len__"), [], {}), 1),), "bool", "np"))),
    "copy_slice(x)": (("np", "torch"), None, lambda c, ip, d, k: meth(ip, d, "copy_slice", "x")),
    "unpack(extra)": (("np", "torch"), ("TypeError",), lambda c, ip, d, k: meth(ip, d, "unpack", 1, 2, 3, 4)),
    "make_contiguous(extra)": (("np",), ("TypeError",), lambda c, ip, d, k: meth(ip, d, "make_contiguous", True, True, True)),
}


NEEDS = {"add_mask_layer(taken)": ("1d-named", "2", "3"), "apply_masks(twice)": ("1d-named",), "combine_masks(xor)": ("1d", "1d-named", "2", "3", "2-unnamed", "none")}


def refused_scen(kind, x, deg, base, mk):
    def fn(c, ip, o):
        c.cuda = False
        masks, names = MASKS[mk]
        d, m = start(c, ip, kind, deg, base, masks, names)
        was = whole(ip, d)
        fs = dict(c.fs)
        r = outcome(ip, lambda: REFUSED[x][2](c, ip, d, kind))
        names = REFUSED[x][1]
        w = W.method_where(ip, kind, x.split("(")[0]) if "(" in x and not x.startswith("ply") else W.where(ip.get("gsply.plywrite"))
        o("refused", w, lambda: None if r.kind == "raised" and (names is None or r.val in names) else f"{r} instead of {' or '.join(names or ('an exception',))}")
        o("unchanged", w, lambda: untouched(c, ip, d, was))
        o("nothing-written", w, lambda: None if dict(c.fs) == fs else "a file was written")

    return Scenario(f"refused:{x}@{start_name(kind, deg, base, mk)}", fn)


def third_scen(how, lab, base):
    """a list whose last part does not fit the others"""

    def fn(c, ip, o):
        kind = "np"
        ds = []
        for tag in ("p_", "q_", "r_"):
            last = tag == "r_"
            ds.append(start(c, ip, kind, 2 if last and lab == "degree" else 1, base, *MASKS["2" if tag != "q_" else "none"], last and lab == "format", tag=tag, n=S.count("N" + tag, pool=[1, 2, 3], hi=SMALL)))
        was = [whole(ip, d) for d, _ in ds]
        r = outcome(ip, lambda: ip.call(ip.getattr(cls_of(ip, kind), "concatenate"), [[d for d, _ in ds]], {}) if how == "concatenate" else COMBINE["sum"](ip, [d for d, _ in ds]))
        w = W.method_where(ip, kind, "concatenate" if how == "concatenate" else "add")
        o("refused", w, lambda: None if r.kind == "raised" and r.val == "ValueError" else f"{r} instead of ValueError")
        for k, (d, _) in enumerate(ds):
            o(f"part-{k}", w, lambda: untouched(c, ip, d, was[k]))

    return Scenario(f"refused:{how}:third {lab}@np,{'base' if base else 'arrays'}", fn)


@prop("C38", "Operations are interpreted on datasets one of whose arrays does not fit (each field and the masks, with a row or column more or less, flat or missing), with invalid arguments and with unfit partners; "
      "on every path that ends in an exception the operands, their shared buffers, masks, names and format record must be as before, documented refusals must happen, and nothing may have been written.")
def c38(tier):
    out = []
    for x in ACTIVATE:
        fields = ACTIVATE[x][2]
        for f in fields:
            for how in ("rows-1", "rows+1", "columns-1", "columns+1", "flat", "none"):
                if f == "opacities" and how in ("flat", "columns-1"):
                    continue
                out.append(activate_scen(x, f, how, False))
                out.append(activate_scen(x, f, how, True))
                if how in ("rows-1", "columns+1"):
                    out.append(activate_scen(x, f, how, False, "float64"))
                    out.append(activate_scen(x, f, how, False, contig=False))
    for kind in ("np", "torch"):
        for x in OPS:
            if kind not in OPS[x].kinds or x.startswith(("edit", "assign")):
                continue
            for deg, base, mk, linear, rgb in ((1, False, "2", False, False), (1, False, "2", True, True), (1, True, "2", False, False)):
                if not applicable([x], kind, mk, linear, rgb, deg):
                    continue
                for f in (*W.FIELDS, "masks"):
                    for how in ("rows-1", "rows+1"):
                        if f != "means" and (OPS[x].inplace or tier == "thorough" or f in ("opacities", "shN", "masks")):
                            out.append(torn_scen(kind, x, deg, base, mk, linear, rgb, f, how))
        for x in REFUSED:
            if kind in REFUSED[x][0]:
                for deg, base, mk in ((0, False, "2"), (1, True, "2"), (3, False, "2"), (1, False, "1d-named"), (2, True, "1d-named"), (0, False, "3"), (0, True, "1d"), (1, False, "2-unnamed"), (1, False, "none")):
                    if x in NEEDS and mk not in NEEDS[x]:
                        continue
                    out.append(refused_scen(kind, x, deg, base, mk))
    for how in ("concatenate", "sum"):
        for lab in ("degree", "format"):
            out += [third_scen(how, lab, base) for base in (False, True)]
    return out


# ---------------------------------------------------------------- calls made at the same time
def apart(sc):
    """the same calls, judged by the lasting state they overwrite"""

    def fn(c, ip, o):
        from ..watch import Watch

        ip.module("gsply")
        c.watch = Watch(ip)
        try:
            sc.fn(c, ip, lambda *a, **k: None)
        except I.Raised:
            pass
        w, c.watch = c.watch, None
        if not w.calls:
            return
        bad = w.races()
        o("lasting-state", W.where(ip.get("gsply.plyread")), lambda: None)
        for name, what, loc in bad:
            o("lasting-state", f"{loc[0]}:{loc[1]}", lambda: f"{name} outlives the call and is shared by all: {loc[1]} {what} (line {loc[2]}) without a lock")

    return Scenario(f"apart:{sc.name}", fn, "ignore", sc.maxpaths)


SAVERS = {
    "plywrite": (("np", "torch"), lambda c, ip, d, p: call(ip, "gsply.plywrite", p, d)),
    "plywrite(compressed)": (("np", "torch"), lambda c, ip, d, p: call(ip, "gsply.plywrite", p, d, compressed=True)),
    "save": (("np", "torch"), lambda c, ip, d, p: meth(ip, d, "save", p, compressed=False)),
    "save(compressed)": (("np", "torch"), lambda c, ip, d, p: meth(ip, d, "save", p, compressed=True)),
    "plywrite_gpu": (("torch",), lambda c, ip, d, p: call(ip, "gsply.plywrite_gpu", p, d)),
}


def own_files_scen(x, kind, deg, base):
    def fn(c, ip, o):
        codec_inputs("p_")
        codec_inputs("q_")
        made = []
        for tag, name in (("p_", "a"), ("q_", "b")):
            d, m = start(c, ip, kind, deg, base, tag=tag, n=S.count("N" + tag, pool=[1, 2, 3, 257], hi=SMALL))
            k, before = len(c.events), set(c.fs)
            SAVERS[x][1](c, ip, d, f"/out/{name}.ply")
            made.append({p for kind_, p, *_ in c.events[k:] if kind_ == "create"} | (set(c.fs) - before))
        w = W.where(ip.get("gsply.plywrite"))
        both = made[0] & made[1]
        o("own-files", w, lambda: f"{sorted(both)[0]} is written for either of two files of other names" if both else None)

    return Scenario(f"own-files:{x}@{kind},deg{deg},{'base' if base else 'arrays'}", fn, "ignore")


@prop("C39", "The call sequences of C35 are interpreted with every store recorded: what is reachable from module globals, classes, default arguments, closures and remembered results when a call begins is shared; "
      "a call may fill empty slots of it, but overwriting or removing a value, or writing into an array of it, needs a lock held by all who do and all who look. Writers of two files must not touch a common third.")
def c39(tier):
    out = [apart(s) for s in of("C35")]
    out += [apart(s) for s in of("C24")[:20] + of("C34", "grad-save") + of("C29")[:20] + of("C22")[:20] + of("C23")]
    for x in SAVERS:
        for kind in SAVERS[x][0]:
            for deg, base in ((0, False), (2, True)):
                out.append(own_files_scen(x, kind, deg, base))
    return out
