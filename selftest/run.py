#!/usr/bin/env python3
"""Self-test of the library models (tests the analyser, not the package; no check uses it).

Every function of src/gsply/snip_np.py and src/gsply/snip_torch.py is run for real on small
arrays and interpreted by the analyser; the two results are compared.
usage: run.py [substr]     (real values are computed by /opt/venv/bin/python)
"""
import json
import math
import os
import random
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

INPUTS = {  # name -> (shape, dtype); 'N' is a symbolic extent in the analyser
    "x": (("N", 3), "float32"), "y": (("N", 3), "float32"), "v": (("N",), "float32"), "w": (("N",), "float32"), "q": (("N", 4), "float32"), "t3": (("N", 2, 3), "float32"),
    "m": (("N",), "bool"), "m2": (("N", 3), "bool"), "k": (("N",), "int64"), "u": (("N",), "uint32"), "b": (("N", 3), "uint8"), "d": (("N", 3), "float64"), "s": ((4,), "float32"),
    "ix": ((3,), "int64"), "z": ((0, 3), "float32"), "c4": ((4, 4), "float32"), "i32": (("N",), "int32"),
}
N = 6


def values(seed=5):
    r = random.Random(seed)
    out = {}
    for nm, (sh, dt) in INPUTS.items():
        sh = [N if d == "N" else d for d in sh]
        n = math.prod(sh)
        if dt == "bool":
            xs = [r.random() < 0.5 for _ in range(n)]
        elif dt.startswith("uint8"):
            xs = [r.randrange(256) for _ in range(n)]
        elif dt == "uint32":
            xs = [r.randrange(2**32) for _ in range(n)]
        elif dt == "int32":
            xs = [r.randrange(-2**31, 2**31) for _ in range(n)]
        elif dt.startswith("int"):
            xs = [r.randrange(0, N) if nm == "k" else r.randrange(0, 4) for _ in range(n)]
        else:
            xs = [round(r.uniform(-2, 2), 3) for _ in range(n)]
        out[nm] = (sh, dt, xs)
    return out


REAL = r'''
import sys, json, inspect, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, sys.argv[1])
import numpy as np, torch
vals = json.load(sys.stdin)
def dump(r):
    if isinstance(r, torch.Tensor):
        return {"k": "arr", "lib": "torch", "shape": list(r.shape), "dtype": str(r.dtype).replace("torch.", ""), "v": r.detach().to(torch.float64).reshape(-1).tolist() if r.dtype != torch.bool else r.reshape(-1).tolist()}
    if isinstance(r, np.ndarray):
        return {"k": "arr", "lib": "np", "shape": list(r.shape), "dtype": str(r.dtype), "v": r.reshape(-1).tolist()}
    if isinstance(r, np.generic):
        return {"k": "val", "v": r.item()}
    if isinstance(r, (tuple, list)):
        return {"k": "seq", "v": [dump(x) for x in r]}
    if isinstance(r, dict):
        return {"k": "seq", "v": [dump(x) for x in r.values()]}
    if isinstance(r, (bool, int, float, str, type(None))):
        return {"k": "val", "v": r}
    if isinstance(r, bytes):
        return {"k": "bytes", "v": list(r)}
    return {"k": "other", "v": str(type(r))}
out = {}
for mod in ("snip_np", "snip_torch"):
    import importlib; m = importlib.import_module("gsply."+mod)
    for n, f in list(vars(m).items()):
        if not n.startswith("f_"): continue
        args = []
        for p in inspect.signature(getattr(f, "py_func", f)).parameters:
            sh, dt, xs = vals[p]
            a = np.array(xs, dtype=dt).reshape(sh)
            if mod == "snip_torch":
                a = torch.from_numpy(a.astype(np.int64) if dt == "uint32" else a)
            args.append(a)
        try:
            r = dump(f(*args))
        except Exception as e:
            r = {"k": "exc", "v": type(e).__name__, "m": str(e)[:80]}
        out[mod + "." + n] = r
print(json.dumps(out))
'''


def main():
    vals = values()
    p = subprocess.run(["/opt/venv/bin/python", "-c", REAL, os.path.join(HERE, "src")], input=json.dumps(vals), capture_output=True, text=True, env=dict(os.environ, NUMBA_DISABLE_JIT="1"))
    if p.returncode:
        print(p.stderr[-2000:])
        return 2
    real = json.loads(p.stdout)
    from gsa import arrays as A, bytesfs as B, evalr, interp as I, lib, terms as T
    from gsa.arrays import Arr

    sys.setrecursionlimit(20000)
    want = sys.argv[1] if len(sys.argv) > 1 else ""
    cnt = {}
    for name, r in real.items():
        if want not in name:
            continue
        mod, fn = name.split(".")
        ip = I.Interp(HERE)
        res = []

        def go(c):
            n = T.fresh("N", "i", 1)
            evalr.POOL[n] = [N]
            f = ip.get("gsply." + name)
            args = []
            for pname in f.params() if hasattr(f, "params") else [a.arg for a in f.node.args.args]:
                sh, dt = INPUTS[pname]
                tl = "torch" if mod == "snip_torch" else "np"
                if tl == "torch" and dt == "uint32":
                    dt = "int64"
                args.append(A.input_array(pname, tuple(n if d == "N" else d for d in sh), dt, tl))
            return ip.call(f, args, {})

        def sample(c):
            for s in evalr.samples([], 1, (), 3):
                for nm, (sh, dt, xs) in vals.items():
                    for flat, x in enumerate(xs):
                        idx, rest = [], flat
                        for d in reversed(sh):
                            idx.append(rest % d)
                            rest //= d
                        if dt == "float32":
                            import struct
                            x = struct.unpack("f", struct.pack("f", x))[0]
                        s.elems[(nm, tuple(reversed(idx)))] = x
                return s

        def dump(s, x, want):
            if isinstance(x, Arr):
                sh = [s.ev(d) for d in x.shape]
                rd = x.snap()
                n = math.prod(sh)
                vs = []
                for flat in range(min(n, 200)):
                    idx, rest = [], flat
                    for d in reversed(sh):
                        idx.append(rest % d)
                        rest //= d
                    try:
                        vs.append(s.ev(rd(tuple(reversed(idx)))))
                    except evalr.Uninit:
                        vs.append("uninit")
                return {"k": "arr", "lib": x.lib, "shape": sh, "dtype": x.dtype, "v": vs}
            if isinstance(x, (tuple, list)):
                return {"k": "seq", "v": [dump(s, y, None) for y in x]}
            if isinstance(x, dict):
                return {"k": "seq", "v": [dump(s, y, None) for y in x.values()]}
            if isinstance(x, T.E):
                return {"k": "val", "v": s.ev(x)}
            if isinstance(x, (bool, int, float, str, type(None))):
                return {"k": "val", "v": x}
            if isinstance(x, I.Unk):
                raise A.Unresolved("unknown " + x.why)
            return {"k": "other", "v": str(x)}

        status, info = "?", ""
        try:
            matched = False
            for c, (kind, val) in ip.paths(go, 60):
                s = sample(c)
                if kind == "infeasible":
                    continue
                if not all(s.ev(f) for f in c.path()):
                    continue
                matched = True
                if kind == "raised":
                    e = lib.str_of(val.exc) if not isinstance(val.exc, BaseException) else val.exc
                    nm = type(val.exc).__name__ if isinstance(val.exc, BaseException) else val.exc.cls.name
                    status, info = ("ok", "") if r["k"] == "exc" and r["v"] == nm else ("MISMATCH", f"raises {nm} {e}; real {str(r)[:120]}")
                elif kind == "ok":
                    g = dump(s, val, r)
                    d = differ(g, r)
                    status, info = ("ok", "") if d is None else ("MISMATCH", d)
                else:
                    status, info = "unresolved", str(val)[:150]
                break
            if not matched:
                status, info = "unresolved", "no path matches"
        except (A.Unresolved, evalr.Skip, evalr.OutOfBounds) as e:
            status, info = "unresolved", f"{type(e).__name__} {e}"
        except Exception as e:
            import traceback
            status, info = "INTERNAL", repr(e)[:200] + " " + " <- ".join(f"{f.name}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-4:])
        cnt[status] = cnt.get(status, 0) + 1
        if status != "ok":
            print(status, name, info)
    print(cnt)


def differ(g, r):
    if r["k"] == "exc":
        return f"no error; real raises {r['v']} {r.get('m')}"
    if g["k"] != r["k"]:
        return f"{g} vs {str(r)[:120]}"
    if g["k"] == "seq":
        if len(g["v"]) != len(r["v"]):
            return f"length {len(g['v'])} vs {len(r['v'])}"
        for a, b in zip(g["v"], r["v"]):
            d = differ(a, b)
            if d:
                return d
        return None
    if g["k"] == "arr":
        for k in ("shape", "dtype", "lib"):
            if g[k] != r[k]:
                return f"{k} {g[k]} vs {r[k]}"
        for n, (a, b) in enumerate(zip(g["v"], r["v"])):
            if not same(a, b):
                return f"flat {n}: {a} vs {b}"
        return None
    if g["k"] == "val":
        return None if same(g["v"], r["v"]) else f"{g['v']} vs {r['v']}"
    return None if g["k"] == "other" else f"{g} {r}"


def same(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= 2e-5 * (1 + abs(a) + abs(b))


sys.exit(main())
