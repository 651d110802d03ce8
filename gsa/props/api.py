"""The package surface: public helper functions, optional parts, refused and empty data."""
from __future__ import annotations

from . import prop
from .common import *
from .reading import outcome

# ------------------------------------------------------------------ helper functions
LAYOUT = {
    "vector": (("n",), lambda ip, a: a, lambda ix: ix),
    "matrix": (("n", 3), lambda ip, a: a, lambda ix: ix),
    "cube": (("n", 2, 3), lambda ip, a: a, lambda ix: ix),
    "every second row": (("n", 3), lambda ip, a: ip.getitem(a, slice(None, None, 2)), lambda ix: (T.mul(2, ix[0]), *ix[1:])),
    "reversed": (("n",), lambda ip, a: ip.getitem(a, slice(None, None, -1)), None),
    "a column": (("n", 3), lambda ip, a: ip.getitem(a, (slice(None), 1)), lambda ix: (*ix, 1)),
    "transposed": (("n", 3), lambda ip, a: ip.getattr(a, "T"), lambda ix: (ix[1], ix[0])),
}


def exact_sigmoid(x):
    return T.div(1.0, T.add(1.0, T.fn1("exp", T.neg(x))))


def exact_logit(x, eps=1e-6):
    v = clip(x, eps, T.sub(1.0, eps))
    return T.fn1("log", T.div(v, T.sub(1.0, v)))


FUNCS = {"sigmoid": exact_sigmoid, "logit": exact_logit, "sh2rgb": lambda x: T.add(T.mul(x, C0), 0.5), "rgb2sh": lambda x: T.div(T.sub(x, 0.5), C0)}


def inputs_of(fn):
    if fn == "logit":
        return lambda r: r.choice([0.0, 1.0, 1e-7, 1 - 1e-8, -0.5, 1.5, r.random(), r.random(), 10 ** -r.uniform(1, 5)])
    if fn == "sigmoid":
        return lambda r: r.choice([0.0, r.uniform(-8, 8), r.uniform(-1, 1), r.uniform(-40, 40)])
    return lambda r: r.uniform(-3, 3)


def func_scen(fn, layout, dtype, eps=False):
    def f(c, ip, o):
        n = S.count()
        shape, view, inv = LAYOUT[layout]
        shape = tuple(n if d == "n" else d for d in shape)
        if dtype.startswith("float"):
            evalr.GENERATORS["x"] = inputs_of(fn)
        else:
            evalr.GENERATORS["x"] = lambda r: r.randint(0, 1) if dtype in ("bool", "uint8") else r.randint(-3, 3)
        a = S.arr("x", shape, dtype)
        x = view(ip, a)
        kw, e = {}, 1e-6
        if eps:
            evalr.SHAPES["eps"] = ()
            evalr.GENERATORS["eps"] = lambda r: 10 ** -r.uniform(0.5, 4)
            e = T.elem("eps", "float64", ())
            kw["eps"] = e
        w = W.where(ip.get("gsply." + fn))
        y = call(ip, "gsply." + fn, x, **kw)
        get = inv or (lambda ix: (T.sub(T.sub(n, 1), ix[0]),))

        def judge():
            if not isinstance(y, Arr):
                return f"the result is {y!r}, not an array"
            if not y.dtype.startswith("float") or dtype.startswith("float") and y.dtype != dtype:
                return f"the result is {y.dtype} for {dtype} data"
            d = S.shape_diff(c, y.shape, x.shape)
            if d:
                return d
            ix = tuple(generic(c, d, "ix") for d in y.shape)
            v = T.elem("x", dtype, get(ix))
            want = FUNCS[fn](v) if fn != "logit" else exact_logit(v, e)
            return S.term_diff(c.path(), y.read(ix), want, 40, 1e-5)

        o("values", w, judge)

        def untouched():
            ix = tuple(generic(c, d, "ix") for d in a.shape)
            return S.term_diff(c.path(), a.read(ix), T.elem("x", dtype, ix), 8)

        o("argument-kept", w, untouched)

    return Scenario(f"fn:{fn}:{layout}:{dtype}{':eps' if eps else ''}", f)


def scalar_scen(fn, kind):
    def f(c, ip, o):
        w = W.where(ip.get("gsply." + fn))
        if kind == "float":
            x = T.elem("s", "float64", ())
            evalr.SHAPES["s"] = ()
            evalr.GENERATORS["s"] = inputs_of(fn)
            vals = [x]
        else:
            vals = [0, 1, 2, -3]
        for x in vals:
            y = call(ip, "gsply." + fn, x)
            o("values", w, lambda: S.term_diff(c.path(), y if not isinstance(y, Arr) else y.read(()), FUNCS[fn](float(x) if T.num(x) else x), 40, 1e-5))

    return Scenario(f"fn:{fn}:scalar:{kind}", f)


@prop("C29", "The four public conversion functions are interpreted on symbolic arrays of several layouts and types and on scalars; a generic element of the result is compared with the documented formula.")
def c29(tier):
    out = []
    for fn in FUNCS:
        for layout in LAYOUT:
            for dt in ("float32", "float64") + (("int64", "uint8", "bool") if fn in ("sigmoid", "logit") and layout in ("vector", "matrix", "every second row") else ()):
                out.append(func_scen(fn, layout, dt))
        if fn == "logit":
            out += [func_scen(fn, layout, "float32", eps=True) for layout in ("vector", "matrix")]
        for k in ("float", "int"):
            out.append(scalar_scen(fn, k))
    return out


# ------------------------------------------------------------------ scenarios of other properties under another condition
def of(pid, *subs):
    from . import REG

    sc = [s for s in REG[pid].build("quick") if s.tier == "quick"]
    return [s for s in sc if not subs or any(x in s.name for x in subs)]


# ------------------------------------------------------------------ optional parts
NAMES = ("plyread", "GSData", "plywrite", "compress_to_bytes", "compress_to_arrays", "decompress_from_bytes", "detect_format", "create_ply_format", "create_rasterizer_format",
         "sh2rgb", "rgb2sh", "logit", "sigmoid", "apply_pre_activations", "apply_pre_deactivations", "SH_C0", "__version__")
LACKS = {"complete": ((), ()), "no-torch": (("torch",), ()), "no-imagecodecs": (("imagecodecs",), ()), "neither": (("torch", "imagecodecs"), ()), "broken-torch": ((), ("torch",))}


def lacking(which):
    def setup(c):
        c.missing_modules, c.broken_modules = LACKS[which]

    return setup


def names_scen(which):
    def fn(c, ip, o):
        lacking(which)(c)
        w = "src/gsply/__init__.py:__all__"
        m = ip.module("gsply")

        def named():
            miss = [x for x in NAMES if x not in m.g]
            if miss:
                return f"gsply.{miss[0]} is missing"
            allv = list(m.g.get("__all__", ()))
            miss = [x for x in NAMES if x not in allv] or [x for x in allv if outcome(ip, lambda: ip.getattr(m, x)).kind == "raised"]
            return f"{miss[0]} of __all__ is missing" if miss else None

        o("public-names", w, named)

        def unknown():
            r = outcome(ip, lambda: ip.getattr(m, "no_such_name"))
            return None if r.kind == "raised" and r.val == "AttributeError" else f"an unknown attribute gives {r} instead of AttributeError"

        o("unknown-name", w, unknown)
        for x in ("GSTensor", "plyread_gpu", "plywrite_gpu"):
            if which == "broken-torch":
                continue

            def lazy(x=x):
                try:
                    v = ip.getattr(m, x)
                except I.Raised as e:
                    t = e.exc.d.get("args") if isinstance(e.exc, I.Obj) else e.exc.args
                    if not isinstance(e.exc, ImportError) and obj_kind(e.exc) != "ImportError":
                        return f"gsply.{x} raises {obj_kind(e.exc)}"
                    if "torch" not in LACKS[which][0]:
                        return f"gsply.{x} raises ImportError although torch is there"
                    return None if any("torch" in str(y).lower() for y in t) else f"the ImportError of gsply.{x} does not name torch: {t}"
                return None if "torch" not in LACKS[which][0] and v is not None else f"gsply.{x} is {v!r} without torch"

            o("lazy-names", w, lazy)

        def sog():
            from .sog import Bundle

            p = Bundle(c, 2, 0).place(c, "folder")
            r = outcome(ip, lambda: call(ip, "gsply.sogread", p))
            if "imagecodecs" in LACKS[which][0]:
                return None if r.kind == "raised" and r.val in ("ImportError", "ModuleNotFoundError") else f"sogread without imagecodecs gives {r}"
            return None if r.kind == "data" else f"sogread of a valid bundle gives {r}"

        o("sogread", w, sog)

        def flag():
            t = ip.module("gsply.torch").g.get("TORCH_AVAILABLE")
            want = "torch" not in LACKS[which][0] + LACKS[which][1]
            return None if t is want else f"gsply.torch.TORCH_AVAILABLE is {t!r}"

        o("flag", "src/gsply/torch/__init__.py", flag)

    return Scenario(f"optional:{which}", fn)


def obj_kind(x):
    return x.cls.name if isinstance(x, I.Obj) else type(x).__name__


@prop("C30", "The package is interpreted with the optional modules absent (or failing to import): every public name is resolved, and every host-side scenario of the "
      "file, codec, conversion and container properties is decided again in that condition.")
def c30(tier):
    out = [names_scen(w) for w in LACKS]
    host = []
    host += [s for s in of("C01") if ":torch:" not in s.name]
    host += [s for s in of("C02") if "GSTensor" not in s.name]
    host += [s for s in of("C04") if not any(x in s.name for x in ("tensor", "gpu", "GSTensor"))]
    host += [s for s in of("C06") if not any(x in s.name for x in ("gpu", "GSTensor", "from_compressed"))]
    host += [s for p in ("C10", "C15", "C16", "C17") for s in of(p, "np,", ":np:") if "torch" not in s.name and "empty" not in s.name]
    host += of("C22", "np") + of("C29", "vector:float32")
    out += [under(s, "no-torch", lacking("no-torch")) for s in host]
    out += [under(s, "no-imagecodecs", lacking("no-imagecodecs")) for s in host[:40:5]]
    out += [under(s, "broken-torch", lacking("broken-torch")) for s in of("C01", "write:arrays:np", "plywrite:np") + of("C04", "plywrite@") + of("C02", "plyread")]
    out += [under(s, "no-torch", lacking("no-torch")) for p in ("C24", "C25") for s in of(p)[:4]]
    return out


# ------------------------------------------------------------------ ill-shaped data
def _np_writers():
    from .codec import WRITERS

    W_ = {k: (w, v) for k, (kd, v, w) in WRITERS.items() if kd == "np"}
    u = "gsply.writer.write_uncompressed"
    W_["write_uncompressed"] = (u, lambda c, ip, d: call(ip, u, "/out/x.ply", d))
    W_["plywrite-uncompressed"] = (u, lambda c, ip, d: call(ip, "gsply.plywrite", "/out/x.ply", d))
    W_["plywrite-arrays"] = (u, lambda c, ip, d: call(ip, "gsply.plywrite", "/out/x.ply", *[ip.getattr(d, f) for f in W.FIELDS]))
    W_["plywrite-arrays-compressed"] = ("gsply.plywrite", lambda c, ip, d: call(ip, "gsply.plywrite", "/out/x.ply", *[ip.getattr(d, f) for f in W.FIELDS], compressed=True))
    W_["save-uncompressed"] = (u, lambda c, ip, d: meth(ip, d, "save", "/out/x.ply", compressed=False))
    return W_


def _torch_writers():
    from .codec import WRITERS

    W_ = {k: (w, v) for k, (kd, v, w) in WRITERS.items() if kd == "torch"}
    W_["save-uncompressed"] = ("gsply.writer.write_uncompressed", lambda c, ip, d: meth(ip, d, "save", "/out/x.ply", compressed=False))
    return W_


COLS = {"means": 3, "scales": 3, "quats": 4, "sh0": 3}


def wrong_shapes(kind):
    out = []
    for f in W.FIELDS:
        out.append((f, "rows"))
        for k in ("one-row", "no-row") if f in ("opacities", "means", "shN") else ():
            out.append((f, k))
        if f in COLS:
            out += [(f, "column-less"), (f, "column-more")]
            if kind == "np":
                out.append((f, "flat"))
    if kind == "np":
        out.append(("opacities", "2d"))
    return [*out, ("shN", "two-channels")]


def ill_scen(kind, writer, deg, fld, how):
    where, run = (_np_writers() if kind == "np" else _torch_writers())[writer]

    def fn(c, ip, o):
        n = S.count(pool=[3, 5, 130, 256, 257, 300, 512], lo=3)
        ply_inputs()
        c.oracle = deg == 0
        kw = W.inputs(n, deg, lib_="np" if kind == "np" else "torch")
        if kind == "torch" and deg == 0:
            kw["shN"] = None
        a = kw[fld]
        sh = a.shape
        if how == "rows":
            m = S.count("M", pool=[1, 2, 3, 4, 6, 129, 131, 255, 257, 299, 301, 511, 513])
            c.assume(T.ne(m, n))
            sh = (m, *sh[1:])
        elif how == "one-row":
            sh = (1, *sh[1:])
        elif how == "no-row":
            sh = (0, *sh[1:])
        elif how == "column-less":
            sh = (sh[0], sh[1] - 1)
        elif how == "column-more":
            sh = (sh[0], sh[1] + 1)
        elif how == "flat":
            sh = (T.mul(sh[0], sh[1]),)
        elif how == "2d":
            sh = (sh[0], 1)
        elif how == "two-channels":
            sh = (*sh[:2], 2)
        kw[fld] = S.arr(fld, sh, F32, "np" if kind == "np" else "torch")
        d = ip.call(ip.get("gsply.GSData" if kind == "np" else "gsply.torch.gstensor.GSTensor"), [], {**kw, "_format": W.fmt_dict(ip, deg)})
        old = {p: B.AFile([b"previous content"]) for p in ("/out/x.ply", "/out/x.compressed.ply")}
        c.fs.update(old)
        w = W.where(ip.get(where))
        r = outcome(ip, lambda: run(c, ip, d))
        shown = "x".join(map(lib.str_of, sh))
        o("refused", w, lambda: None if r.kind == "raised" else f"{fld} of shape ({shown}) with {lib.str_of(n)} rows elsewhere is accepted")

        def kept():
            for p, f in old.items():
                if c.fs.get(p) is not f or f.segs != [b"previous content"]:
                    return f"{p} was changed although the data is refused"
            new = [p for p in c.fs if p.startswith("/out/") and p not in old]
            return f"{new[0]} was left behind" if new else None

        o("nothing-written", w, kept)

    return Scenario(f"ill-shaped:{kind}:{writer}:{fld}:{how}@deg{deg}", fn)


@prop("C31", "Every writer is interpreted on datasets in which one array has another number of rows (symbolic) or columns than it must have; "
      "each path must end in an exception, with the file system of the model unchanged.")
def c31(tier):
    out = []
    for kind, ws in (("np", _np_writers()), ("torch", _torch_writers())):
        for w in ws:
            for deg in (0, 1) + ((3,) if w in ("write_uncompressed", "write_compressed") else ()):
                for fld, how in wrong_shapes(kind):
                    if fld == "shN" and deg == 0:
                        continue
                    out.append(ill_scen(kind, w, deg, fld, how))
    return out


# ------------------------------------------------------------------ no rows at all
class Vacuous:
    """an obligation sink for datasets without rows: a claim about a generic row holds vacuously"""

    def __init__(self, c, o):
        self.c, self.o = c, o

    def __call__(self, rule, where, f):
        def g():
            c = self.c
            n, st = len(c.facts), c.stamp
            try:
                return f() if callable(f) else f
            except I.Infeasible:
                return None
            finally:
                c._pop_facts(n, st)

        return self.o(rule, where, g)


def no_rows(c):
    S.FORCED["N"] = 0


@prop("C32", "The scenarios of the file, codec, container, conversion, mask and transfer properties are decided again with the number of rows fixed to zero: "
      "every path must complete, with shapes, layer names, headers and format record as for any other count.")
def c32(tier):
    base = []
    base += of("C01") + of("C02") + of("C04") + of("C06") + of("C19")
    for p in ("C10", "C13", "C15", "C16", "C17", "C18", "C20", "C22"):
        base += [s for s in of(p) if p != "C16" or "empty" in s.name]
    base = [s for s in base if not (":auto@" in s.name and "linear" in s.name)]  # without values the automatic format is the stored one (C22)
    return [under(s, "empty", no_rows, wrap=Vacuous) for s in base]
