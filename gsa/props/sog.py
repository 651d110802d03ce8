"""SOG bundles: decoding of both versions, and what is refused."""
from __future__ import annotations

from . import prop
from .common import *
from .reading import dataset_diff, format_diff, masks_all_true, outcome

SQ2 = 2 ** 0.5
ATTR = {"means_l": "means_l.webp", "means_u": "means_u.webp", "quats": "quats.webp", "scales": "scales.webp", "sh0": "sh0.webp", "shN_centroids": "shN_centroids.webp", "shN_labels": "shN_labels.webp"}


class Bundle:
    """an abstract SOG bundle with symbolic size, textures and metadata"""

    def __init__(self, c, version, deg, ch=4, names=None, palette=None, extra=None, flat_axis=None, book=256, small=None, labels=None, loose=False, tag=""):
        self.tag, self.im = tag, tag + "img:"
        self.version, self.deg, self.K = version, deg, W.BANDS[deg]
        self.ch = ch
        self.n = n = S.count(pool=[1, 2, 3, 5, 16, 70] if small is None else [2, 3, 5, 16, 70])
        self.names = {**ATTR, **(names or {})}
        self.images = {}
        self.size = {}
        for a in ("means_l", "means_u", "quats", "scales", "sh0", *(("shN_labels",) if self.K else ())):
            w = S.count("w_" + a, pool=[1, 3, 4, 8, 9] + [200, 600, 1000] * (a == "shN_labels"))
            h = S.count("h_" + a, pool=[1, 2, 3, 16, 24, 70])
            c.assume(T.lt(T.mul(w, h), n) if a == small else T.le(n, T.mul(w, h)))
            self.image(a, h, w, 4 if a in ("quats", "sh0") or ch == 4 else 3)
        evalr.GENERATORS[self.im + "quats"] = lambda r: r.choice([252, 253, 254, 255, 255, 254, 253, 252, r.randint(0, 255)])
        for a in ("means_l", "means_u", "scales", "sh0", "shN_labels", "shN_centroids"):
            evalr.GENERATORS[self.im + a] = lambda r: r.choice([0, 255, 128]) if r.random() < 0.2 else r.randint(0, 255)
        if labels:
            for a in ("scales", "sh0"):
                evalr.GENERATORS[self.im + a] = lambda r: r.randint(0, labels - 1)
        evalr.GENERATORS[self.im + "shN_labels"] = lambda r: r.choice([0, 1, 1, 2, 63, 64, 100, 255])
        if self.K:
            # version 3 derives the number of palette entries from the texture
            self.rows = S.count("palette_rows", pool=[1, 2, 5, 12])
            self.palette = T.mul(self.rows, 64) if version == 3 else (palette or S.count("palette", pool=[1, 64, 65, 130, 300, 700]))
            if version == 2 and not loose:
                c.assume(T.le(self.palette, T.mul(self.rows, 64)))
            self.image("shN_centroids", self.rows, S.count("palette_cols", pool=[1, 3, 64, 200, 960]) if loose else 64 * self.K, 4 if ch == 4 else 3)
        self.meta = self.make_meta(flat_axis, book)
        if extra:
            extra(self)

    def image(self, a, h, w, ch):
        self.size[a] = (h, w, ch)
        self.images[a] = B.AFile([], ("image", self.im + a, h, w, ch))
        evalr.SHAPES[self.im + a] = (h, w, ch)

    def px(self, a, i, k):
        h, w, ch = self.size[a]
        if k == 3 and ch == 3:
            return 255
        return T.elem(self.im + a, "uint8", (T.fdiv(i, w), T.mod(i, w), k))

    def num(self, name, k):
        return T.elem(self.tag + name, "float64", (k,))

    def nums(self, name, n):
        evalr.SHAPES[self.tag + name] = (n,)
        # bounds of both signs, both positive, both negative
        spans = [(-4, -0.5, 0.5, 4), (-4, -0.5, 0.5, 4), (0.1, 0.45, 0.5, 4), (-4, -2, -1.9, -0.1)]
        at = 0 if "mins" in name else 2
        evalr.GENERATORS[self.tag + name] = [(lambda lo, hi: lambda _: lambda r: r.uniform(lo, hi))(x[at], x[at + 1]) for x in spans]
        return [self.num(name, k) for k in range(n)]

    def book(self, name, k=256):
        name = self.tag + name
        evalr.GENERATORS[name] = lambda r: r.uniform(-3, 3)
        a = A.input_array(name, (k,), "float64")
        a.aslist = True
        return a

    def make_meta(self, flat_axis, book):
        nm = self.names
        m = {"means": {"mins": self.nums("means.mins", 3), "maxs": self.nums("means.maxs", 3), "files": [nm["means_l"], nm["means_u"]]},
             "scales": {"files": [nm["scales"]]}, "quats": {"files": [nm["quats"]]}, "sh0": {"files": [nm["sh0"]]}}
        if flat_axis is not None:
            m["means"]["maxs"][flat_axis] = m["means"]["mins"][flat_axis]
        if self.version == 3:
            for a, k in (("means", 3), ("scales", 3), ("quats", 4), ("sh0", 4)):
                m[a]["shape"] = [self.n, k] if a != "sh0" else [self.n, 1, 4]
                m[a]["dtype"] = "float32"
            for a, k in (("scales", 3), ("sh0", 4)):
                m[a]["mins"], m[a]["maxs"] = self.nums(a + ".mins", k), self.nums(a + ".maxs", k)
            if self.K:
                m["shN"] = {"shape": [self.n, self.K], "mins": self.nums("shN.mins", 1)[0], "maxs": self.nums("shN.maxs", 1)[0], "files": [nm["shN_centroids"], nm["shN_labels"]], "quantization": 8}
        else:
            m = {"version": 2, "count": self.n, **m}
            m["scales"]["codebook"], m["sh0"]["codebook"] = self.book("scales.book", book), self.book("sh0.book", book)
            if self.K:
                m["shN"] = {"bands": self.deg, "count": self.palette, "codebook": self.book("shN.book"), "files": [nm["shN_centroids"], nm["shN_labels"]]}
        return m

    # ---- placing it somewhere
    def members(self, drop=()):
        d = {"meta.json": B.AFile([], ("json", self.meta))}
        for a, f in self.images.items():
            d[self.names[a]] = f
        return {k: v for k, v in d.items() if k not in drop}

    def place(self, c, form, drop=()):
        ms = self.members(drop)
        if form == "folder":
            for k, f in ms.items():
                c.fs["/in/scene/" + k] = f
            return "/in/scene"
        z = B.AFile([], ("zip", ms))
        if form == "bytes":
            return z.bytes()
        p = "/in/scene.SOG" if form == "zip-upper" else "/in/scene.sog"
        c.fs[p] = z
        return B.APath(p) if form == "zip-path" else p

    # ---- what the format defines
    def value(self, fld, ix):
        i, *r = ix
        px = lambda a, k: self.px(a, i, k)
        lin = lambda a, k: T.add(self.num(a + ".mins", k), T.mul(T.div(px(a, k), 255.0), T.sub(self.num(a + ".maxs", k), self.num(a + ".mins", k))))
        look = lambda a, k: T.elem(self.tag + a + ".book", "float64", (px(a, k),))
        if fld == "means":
            k = r[0]
            lo, hi = self.meta["means"]["mins"][k], self.meta["means"]["maxs"][k]
            rg = T.sub(hi, lo)
            rg = T.ite(T.eq(rg, 0.0), 1.0, rg)
            q = T.div(T.add(px("means_l", k), T.mul(px("means_u", k), 256)), 65535.0)
            v = T.add(lo, T.mul(rg, q))
            e = T.sub(T.fn1("exp", T.fn1("abs", v)), 1.0)
            return T.ite(T.lt(v, 0.0), T.neg(e), e)
        if fld == "scales":
            return lin("scales", r[0]) if self.version == 3 else look("scales", r[0])
        if fld == "sh0":
            return lin("sh0", r[0]) if self.version == 3 else look("sh0", r[0])
        if fld == "opacities":
            if self.version == 3:
                return lin("sh0", 3)
            y = clip(T.div(px("sh0", 3), 255.0), 1e-6, 1 - 1e-6)
            return log(T.div(y, T.sub(1.0, y)))
        if fld == "quats":
            tag = px("quats", 3)
            a, b, d = [T.div(T.sub(T.mul(T.div(px("quats", k), 255.0), 2.0), 1.0), SQ2) for k in range(3)]
            m = T.fn1("sqrt", T.mx(0.0, T.sub(1.0, T.add(T.add(T.mul(a, a), T.mul(b, b)), T.mul(d, d)))))
            rows = ((m, a, b, d), (a, m, b, d), (a, b, m, d), (a, b, d, m))
            out = 1.0 if r[0] == 3 else 0.0
            for q in range(4):
                out = T.ite(T.eq(tag, 252 + q), rows[q][r[0]], out)
            return out
        j, ch = r
        label = T.add(px("shN_labels", 0), T.mul(px("shN_labels", 1), 256))
        row, col = T.fdiv(label, 64), T.add(T.mul(T.mod(label, 64), self.K), j)
        q = T.elem(self.im + "shN_centroids", "uint8", (row, col, ch))
        v = T.add(self.num("shN.mins", 0), T.mul(T.div(q, 255.0), T.sub(self.num("shN.maxs", 0), self.num("shN.mins", 0)))) if self.version == 3 else T.elem(self.tag + "shN.book", "float64", (q,))
        return T.ite(T.lt(label, self.palette), v, 0.0)


def sog_diff(c, ip, d, b):
    return dataset_diff(c, ip, d, b.n, b.deg, b.value, "np", tol=1e-4)


def decode_scen(version, deg, form="folder", label="", **kw):
    def fn(c, ip, o):
        c.oracle = bool(kw.get("labels"))
        b = Bundle(c, version, deg, **kw)
        w = W.where(ip.get("gsply.sog_reader.sogread"))
        d = call(ip, "gsply.sog_reader.sogread", b.place(c, form))
        o("decodes", w, lambda: sog_diff(c, ip, d, b))
        o("format", w, lambda: format_diff(ip, d, deg))
        o("masks", w, lambda: masks_all_true(c, ip, d, b.n))

    return Scenario(f"sog{version}:{form}{':' + label if label else ''}@deg{deg}", fn)


OTHER = {"means_l": "m0.webp", "means_u": "m1.webp", "quats": "q.webp", "scales": "s.webp", "sh0": "c.webp", "shN_centroids": "sh_a.webp", "shN_labels": "sh_b.webp"}
SWAPPED = {"means_l": "means_u.webp", "means_u": "means_l.webp", "shN_centroids": "shN_labels.webp", "shN_labels": "shN_centroids.webp"}
FORMS = ("folder", "zip", "zip-path", "zip-upper", "bytes")


def family(version):
    out = []
    for deg in DEGS:
        for form in FORMS:
            out.append(decode_scen(version, deg, form))
        out.append(decode_scen(version, deg, "zip", "rgb-textures", ch=3))
        out.append(decode_scen(version, deg, "folder", "other-names", names=OTHER))
        out.append(decode_scen(version, deg, "bytes", "swapped-names", names=SWAPPED))
    for k in range(3):
        out.append(decode_scen(version, k, "folder", f"flat-axis-{k}", flat_axis=k))
    # an SH block that is there but declares nothing
    for form in ("folder", "bytes"):
        out.append(decode_scen(version, 0, form, "empty-sh-block", extra=empty_block))
    return out


def empty_block(b):
    b.meta["shN"] = {"bands": 0, "count": 0, "codebook": [], "files": []} if b.version == 2 else {"shape": [b.n, 0], "dtype": "float32", "mins": 0.0, "maxs": 0.0, "files": []}


@prop("C24", "sogread is interpreted on abstract version-2 bundles (folder, archive, bytes) with a symbolic number of rows, symbolic texture sizes, pixels, bounds and codebooks; every field of a generic row is "
      "compared with the value the format defines.")
def c24(tier):
    return family(2)


@prop("C25", "sogread is interpreted on abstract version-3 bundles (folder, archive, bytes) with a symbolic number of rows, symbolic texture sizes, pixels and bounds; every field of a generic row is compared with "
      "the value the format defines.")
def c25(tier):
    return family(3)


BAD = ("ValueError", "JSONDecodeError", "UnicodeDecodeError")


def refuse(label, version, deg, f, form="folder", excs=BAD, missing=(), **kw):
    def fn(c, ip, o):
        c.missing_modules = missing
        b = Bundle(c, version, deg, **kw)
        w = W.where(ip.get("gsply.sog_reader.sogread"))

        def judge():
            r = outcome(ip, lambda: call(ip, "gsply.sog_reader.sogread", f(c, b)))
            return None if r.kind == "raised" and r.val in excs else f"the outcome is {r}, not {excs[0]}"

        o("refused", w, judge)

    return Scenario(f"sog{version}:{form}:{label}@deg{deg}", fn)


def without(*path):
    def f(b):
        m = b.meta
        for k in path[:-1]:
            m = m[k]
        del m[path[-1]]

    return f


def with_(value, *path):
    def f(b):
        m = b.meta
        for k in path[:-1]:
            m = m[k]
        m[path[-1]] = value(b) if callable(value) else value

    return f


def shorter(*path):
    """one entry fewer than needed"""
    def f(b):
        m = b.meta
        for k in path[:-1]:
            m = m[k]
        m[path[-1]] = m[path[-1]][:-1]

    return f


def garbage(c, b, form):
    n = T.fresh("size", "i", 0, 10000)
    f = B.AFile([B.Blob(lambda k: T.elem("garbage", "uint8", (k,)), n, "uint8")])
    if form == "bytes":
        return f.bytes()
    c.fs["/in/scene.sog"] = f
    return "/in/scene.sog"


def broken_json(c, b):
    p = b.place(c, "folder")
    c.fs["/in/scene/meta.json"] = B.AFile([b'{"version": 2, '])
    return p


KEYS = {2: [("count",), ("means", "mins"), ("means", "maxs"), ("means", "files"), ("means",), ("scales", "codebook"), ("scales", "files"), ("scales",), ("quats", "files"), ("quats",), ("sh0", "codebook"), ("sh0", "files"), ("sh0",)],
        3: [("means", "shape"), ("means", "mins"), ("means", "maxs"), ("means", "files"), ("means",), ("scales", "mins"), ("scales", "maxs"), ("scales", "files"), ("scales",), ("quats", "files"), ("quats",), ("sh0", "mins"), ("sh0", "maxs"), ("sh0", "files"), ("sh0",)]}
KEYS_SH = {2: [("shN", "bands"), ("shN", "count"), ("shN", "codebook"), ("shN", "files")], 3: [("shN", "shape"), ("shN", "mins"), ("shN", "maxs"), ("shN", "files")]}
SHORT = {2: [("means", "mins"), ("means", "maxs"), ("means", "files")], 3: [("means", "mins"), ("means", "maxs"), ("means", "files"), ("scales", "mins"), ("scales", "maxs"), ("sh0", "mins"), ("sh0", "maxs")]}


def refusals(version):
    out = []
    for deg in (0, 2):
        place = lambda form, **k: lambda c, b: b.place(c, form, **k)
        out.append(refuse("absent", version, deg, lambda c, b: "/in/absent.sog"))
        out.append(refuse("absent-folder", version, deg, lambda c, b: B.APath("/in/absent")))
        attrs = [a for a in ATTR if deg or not a.startswith("shN")]
        for a in attrs:
            if a != "shN_centroids":
                out.append(refuse("small-" + a, version, deg, place("bytes"), "bytes", small=a))
        for form in ("folder", "zip", "bytes"):
            for m in ["meta.json", *(ATTR[a] for a in attrs)]:
                out.append(refuse("no-" + m, version, deg, place(form, drop=(m,)), form))
        for k in [*KEYS[version], *(KEYS_SH[version] if deg else ())]:
            out.append(refuse("without-" + ".".join(k), version, deg, place("folder"), extra=without(*k)))
        for k in [*SHORT[version], *([("shN", "files")] if deg else ())]:
            out.append(refuse("short-" + ".".join(k), version, deg, place("zip"), "zip", extra=shorter(*k)))
        out.append(refuse("not-an-object", version, deg, place("folder"), extra=lambda b: setattr(b, "meta", [b.meta])))
        out.append(refuse("no-imagecodecs", version, deg, place("folder"), excs=("ImportError", "ModuleNotFoundError"), missing=("imagecodecs",)))
        out.append(refuse("bad-json", version, deg, broken_json))
        for form in ("bytes", "zip"):
            out.append(refuse("not-an-archive", version, deg, lambda c, b, form=form: garbage(c, b, form), form))
    if version == 2:
        for k in (-1, 4):
            out.append(refuse(f"bands {k}", 2, 2, lambda c, b: b.place(c, "folder"), extra=with_(k, "shN", "bands")))
        for a in ("scales", "sh0", "shN"):
            out.append(refuse(f"empty-codebook-{a}", 2, 2, lambda c, b: b.place(c, "folder"), extra=with_([], a, "codebook")))
        for deg in (0, 2):
            out.append(decode_scen(2, deg, "folder", "short-codebooks", book=40, labels=40))
            out.append(label_scen(deg))
    else:
        for k in (-3, 1, 9, 16, 24):
            out.append(refuse(f"coefficients {k}", 3, 2, lambda c, b: b.place(c, "folder"), extra=with_(lambda b, k=k: [b.n, k], "shN", "shape")))
    return out


def label_scen(deg):
    """labels that may lie outside a short codebook: refused, or none does and the result is right"""
    def fn(c, ip, o):
        b = Bundle(c, 2, deg, book=40, labels=41)
        w = W.where(ip.get("gsply.sog_reader.sogread"))
        r = outcome(ip, lambda: call(ip, "gsply.sog_reader.sogread", b.place(c, "folder")))
        if r.kind == "raised":
            o("refused", w, lambda: None if r.val in BAD else f"the outcome is {r}")
            return
        i = T.fresh("row", "i", 0)
        c.assume(T.lt(i, b.n))
        for a in ("scales", "sh0"):
            for k in range(3):
                o("labels", w, lambda a=a, k=k: S.term_diff(c.facts, T.ite(T.lt(b.px(a, i, k), 40), 1, 0), 1))

    return Scenario(f"sog2:folder:labels-checked@deg{deg}", fn)


@prop("C26", "sogread is interpreted on abstract bundles with one thing wrong at a time (absent, incomplete, not an archive, metadata incomplete, textures too small, labels outside a codebook); the outcome must be the "
      "documented exception.")
def c26(tier):
    return refusals(2) + refusals(3)
