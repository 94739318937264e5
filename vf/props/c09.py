"""TVIPS series of files (spec: TvipsSeries*.tla)."""
import datetime
import os
import shutil

import numpy as np

from ..pmap import observe, pmap
from ..synth import tvips
from .c10 import judge

LEVEL = "model_checking"


def milli(v):
    n = round(float(v) * 1000)
    return n if abs(float(v) * 1000 - n) < 0.01 else -77777


def quarter(v):
    n = round(float(v) * 4)
    return n if abs(float(v) * 4 - n) < 1e-6 else -77777


def options(e):
    kw = {"lazy": e["lazy"]}
    if e["auto"]:
        kw["scan_shape"] = "auto"
    elif e["shape"]:
        kw["scan_shape"] = (tuple if e["astuple"] else list)(e["shape"])
    if e["start"]:
        kw["scan_start_frame"] = e["start"]
    if e["wind"]:
        kw["winding_scan_axis"] = e["wind"] if not e["windnum"] or e["wind"] not in "xy" else "xy".index(e["wind"])
    if e["lag"]:
        kw["hysteresis"] = e["lag"]
    if e["rechunk"] != "auto":
        kw["rechunking"] = False if e["rechunk"] == "no" else {0: 1}
    return kw


def read(e, d):
    from rsciio import tvips as t

    fn = tvips.build(d, e)
    kw = options(e)
    L = t.file_reader(fn, **kw)
    assert len(L) == 1
    D = L[0]
    a = D["data"]
    chunks = []
    assert type(a).__module__.startswith("dask") == e["lazy"]
    if e["lazy"]:
        chunks = [list(c) for c in a.chunks]
        sh, dt = a.shape, a.dtype
        a = a.compute()
        assert a.shape == sh and a.dtype == dt, "announced"
    g = D["metadata"]["General"]
    m = D["metadata"]["Acquisition_instrument"]["TEM"]
    when = datetime.datetime.fromisoformat(g["date"] + "T" + g["time"] + "+00:00").timestamp()
    h = D["original_metadata"]["tvips_header"]
    ax = sorted(D["axes"], key=lambda x: x["index_in_array"])
    # the offset of the time axis, from the start of the film
    off = [x["offset"] - (e["t0"] if x["name"] == "time" else 0) for x in ax]
    return {
        "shape": list(a.shape), "flat": [int(x) for x in np.ravel(a)], "dtype": a.dtype.newbyteorder("=").name,
        "axes": [{"size": int(x["size"]), "name": x["name"], "units": x["units"], "scale": milli(x["scale"]), "off": milli(o),
                  "nav": bool(x["navigate"])} for x, o in zip(ax, off)],
        "chunks": chunks,
        "md": {"zone": g["time_zone"], "sec": int(when - e["t0"]), "file": g["original_filename"], "ht": int(m["beam_energy"]), "mag": int(m["magnification"]),
               "current": quarter(m["beam_current"]), "focus": quarter(m["defocus"]), "x": quarter(m["Stage"]["x"]),
               "y": quarter(m["Stage"]["y"]), "z": quarter(m["Stage"]["z"]), "a": quarter(m["Stage"]["tilt_alpha"]),
               "b": quarter(m["Stage"]["tilt_beta"]), "type": D["metadata"].get("Signal", {}).get("signal_type", "")},
        "head": {k: int(np.ravel(h[k])[0]) for k in ("size", "version", "dimx", "dimy", "bitsperpixel", "frameheaderbytes")},
    }


def rotator(r, side, lead):
    """Numbers of the positions of a scan in which frames were dropped or doubled."""
    n = side * side
    mode = r.choice(["plain", "plain", "rough"])
    s = []
    for p in range(1, n + 1):
        k = 1 if mode == "plain" or p in (1, n) else r.choice([0, 1, 1, 1, 2, 3])
        s += [p] * k
    return [0] * lead + s + [0] * r.choice([0, 0, 2, 3])


def gen(r):
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 9, 12, 16])
    e = {"h": r.choice([1, 2, 3]), "w": r.choice([1, 2, 4]), "bits": r.choice([8, 16, 16, 32]), "extra": r.choice([0, 0, 4, 20]),
         "base": r.choice([0, 200, 1000]), "mode": r.choice([1, 2]), "pixel": r.choice([1, 7, 100000]),
         "offx": r.choice([0, 3]), "offy": r.choice([0, 0, 5]), "t0": r.choice([0, 1000000000, 1600000001])}
    e["dtype"] = f"uint{e['bits']}"
    e["auto"] = r.random() < 0.3
    if e["auto"]:
        e["rot"] = rotator(r, r.choice([2, 3, 4]), r.choice([0, 1, 3]))
        if r.random() < 0.15:
            e["rot"] = r.choice([[0] * n, list(range(n + 1)), [0, 1, 2, 3], [0, 0, 1, 1, 2]])
        n = len(e["rot"])
    else:
        e["rot"] = r.choice([list(range(1, n + 1)), [0] * n])
    cuts = sorted(r.sample(range(1, n), r.randrange(0, min(n, 4)))) if n > 1 else []
    e["counts"] = [b - a for a, b in zip([0] + cuts, cuts + [n])]
    e["present"] = list(range(len(e["counts"])))
    if len(e["counts"]) > 2 and r.random() < 0.25:  # a part is missing
        e["present"].remove(r.randrange(1, len(e["counts"]) - 1))
    e["times"] = [i * r.choice([10, 1500]) for i in range(n)]
    # frames that are read
    have = 0
    for k, c in enumerate(e["counts"]):
        if k not in e["present"]:
            break
        have += c
    e["shape"] = []
    e["start"] = 0
    if not e["auto"] and r.random() < 0.7:
        k = r.random()
        y = r.randrange(1, 5)
        if k < 0.2:
            e["shape"] = [r.randrange(1, have + 1)]
        elif k < 0.8:
            e["shape"] = [y, max(1, have // y)]
        else:
            e["shape"] = [r.choice([1, 2]), y, max(1, have // (2 * y))]
        if r.random() < 0.15:
            e["shape"][-1] += 1
        rest = have - int(np.prod(e["shape"]))
        e["start"] = r.choice([0, max(0, rest), r.randrange(0, max(1, rest + 1))]) if rest >= 0 else 0
        if r.random() < 0.1:
            e["start"] = max(0, rest) + 1
    e["wind"], e["lag"], e["windnum"] = "", 0, False
    if (e["auto"] or len(e["shape"]) > 1) and r.random() < 0.6:
        e["wind"] = r.choice(["x", "x", "x", "y", "y", "y", "y", "z"])
        e["lag"] = r.choice([0, 0, 1, -1, 2, 5])
        e["windnum"] = r.random() < 0.2
    e["astuple"] = r.random() < 0.7
    e["lazy"] = r.random() < 0.5
    e["rechunk"] = r.choice(["auto", "auto", "no", "dict"])
    e["stem"] = r.choice(["film", "film", "a_001", "x.tvips_000", "f_000"])
    e["ext"] = r.choice(["tvips", "tvips", "TVIPS"])
    e["open"] = "000"
    e["goodname"] = True
    if len(e["present"]) > 1 and 1 in e["present"] and r.random() < 0.06:
        e["open"], e["goodname"] = "001", False
    e["md"] = {"zone": "UTC", "sec": 0, "file": f"{e['stem']}_{e['open']}.{e['ext']}", "ht": r.choice([0, 200, 300]), "mag": r.choice([0, 80, 20000]),
               "current": r.randrange(0, 9), "focus": r.randrange(-8, 9), "x": r.randrange(-9, 9), "y": r.randrange(-9, 9), "z": r.randrange(-9, 9),
               "a": r.randrange(-40, 40), "b": r.randrange(-40, 40), "type": "diffraction" if e["mode"] == 2 else ""}
    e["head"] = {"size": r.choice([256, 256, 300]), "version": 2, "dimx": e["w"], "dimy": e["h"], "bitsperpixel": e["bits"], "frameheaderbytes": 60 + e["extra"]}
    return e


def run(ctx):
    for side, before in [(2, "{0, 1}")] if ctx.quick else [(2, "{0, 1, 2}"), (3, "{0, 1}")]:
        ctx.model_check(
            "TvipsSeriesMC",
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OwnFrames OfTheScan InOrder Placed Everything WholeLag\n"
            f"CONSTANTS Side={side} Before={before}\n",
        )
    es = [gen(ctx.rng) for _ in range(500 if ctx.quick else 5000)]
    d = ctx.dir()

    def one(k):
        dd = os.path.join(d, str(k))
        os.makedirs(dd)
        o = observe(read, es[k], dd)
        shutil.rmtree(dd, ignore_errors=True)
        return o

    obs = pmap(one, range(len(es)), procs=8, timeout=60)
    tr = [dict(e, obs=o) for e, o in zip(es, obs)]
    judge(ctx, "TvipsSeriesTrace", tr, lambda e: f"tvips-{'lazy' if e['lazy'] else 'eager'}{'-auto' if e['auto'] else ''}", chunk=10**6)
