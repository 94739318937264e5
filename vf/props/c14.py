"""Merlin .mib files (spec: MibFrames*.tla)."""
import os

import numpy as np

from ..pmap import observe, pmap
from ..synth import mib
from .c10 import judge

LEVEL = "model_checking"
NONE = -1000


def us(s):
    s = s.rstrip("Z")
    t = np.datetime64(s) - np.datetime64("2021-05-07T16:51:10")
    return int(t / np.timedelta64(1, "us"))


def read(e, d):
    from rsciio import quantumdetector as q

    kw = {"lazy": e["lazy"]}
    if e["nav"]:
        kw["navigation_shape"] = tuple(e["nav"])
    if e["first"] != NONE:
        kw["first_frame"] = e["first"]
    if e["last"] != NONE:
        kw["last_frame"] = e["last"]
    if e["chunks"]:
        kw["chunks"] = tuple(e["chunks"])
    ids, exps, stamps = [], [], []
    fn = os.path.join(d, e["name"])
    if e["api"] != "buffer":
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        mib.build(fn, e)
    if e["api"] == "file_reader":
        L = q.file_reader(fn, **kw)
        assert len(L) == 1
        D = L[0]
        a = D["data"]
        assert type(a).__module__.startswith("dask") == e["lazy"]
    else:
        src = mib.build_bytes(e) if e["api"] == "buffer" else fn
        kw.pop("lazy")
        if e["api"] == "buffer":
            kw.pop("chunks", None)
        a, h = q.load_mib_data(src, return_headers=True, **kw)
        h = np.asarray(h).ravel()
        ids = [int(x.decode().split(",")[1]) for x in h]
        exps = [int(round(x)) for x in q.parse_exposures(list(h), max_index=e["mi"])]
        stamps = [us(x) for x in q.parse_timestamps(list(h), max_index=e["mi"])]
    dt = a.dtype
    if hasattr(a, "compute"):
        a = a.compute()
    if a.dtype != dt:
        dt = np.dtype("S9")
    o = {
        "shape": list(a.shape), "flat": [int(x) for x in np.ravel(a)], "dtype": dt.newbyteorder("=").name,
        "ids": ids, "exps": exps, "stamps": stamps,
    }
    if e["api"] == "file_reader":
        o["axes"] = [int(x["size"]) for x in D["axes"]]
        o["cal"] = all(x["scale"] == 1 and x["offset"] == 0 for x in D["axes"])
        o["nav"] = [bool(x["navigate"]) for x in D["axes"]]
        o["dwell"] = int(round(D["metadata"]["Acquisition_instrument"]["dwell_time"] * 1000))
        g = D["metadata"]["General"]
        o["date"] = g["date"] + "T" + g["time"] + g.get("time_zone", "")
        o["hdr"] = len(D["original_metadata"].get("hdr_file", {}))
    return o


def gen(r):
    n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 12])
    e = {"n": n, "h": r.choice([2, 3]), "w": r.choice([2, 4]), "code": r.choice(["U08", "U16", "U32"]),
         "quad": r.random() < 0.25, "junk": r.choice([0, 0, 0, 100]), "exposure": r.choice([1, 5, 20])}
    e["dtype"] = {"U08": "uint8", "U16": "uint16", "U32": "uint32"}[e["code"]]
    e["base"] = r.choice([0, 7]) if e["code"] == "U08" else r.choice([0, 1000, 40000])
    e["api"] = r.choice(["file_reader", "file_reader", "file_reader", "load", "buffer"])
    e["nav"] = []
    if r.random() < 0.5:
        a = r.randrange(1, 5)
        e["nav"] = r.choice([[a, max(1, n // a)], [a, n // a + 1], [n], [r.randrange(1, n + 1)], [1, n], [n, 1]])
        if r.random() < 0.1 and n % 4 == 0:
            e["nav"] = [2, n // 4, 2]
    e["first"] = r.choice([NONE, NONE, NONE, 0, 1, r.randrange(-n - 1, n + 1)])
    e["last"] = r.choice([NONE, NONE, NONE, n, n + 3, r.randrange(-n, n + 1)])
    lo, hi, _ = slice(*[None if x == NONE else x for x in (e["first"], e["last"])]).indices(n)
    if hi <= lo:
        e["first"] = e["last"] = NONE
        lo, hi = 0, n
    L = r.choice([0, 0, 2, 3, 4])
    e["times"] = [i * 1000 + ((i // L) * r.choice([400]) if L else 0) for i in range(n)]
    e["hdr"] = e["api"] == "file_reader" and r.random() < 0.5
    e["hdrfpt"] = r.choice([1, 1, 2, 3])
    e["hdrframes"] = r.choice([n, n, n + 1, n + 3, 0])
    if e["hdrframes"] // e["hdrfpt"] == 0:
        e["hdrframes"] = r.choice([0, n if n >= e["hdrfpt"] else 0])
    e["hdrkeys"] = mib.HDR_KEYS if e["hdr"] else 0
    e["lazy"] = e["api"] == "file_reader" and r.random() < 0.5
    e["squeezed"] = e["api"] == "file_reader"
    e["date"] = mib.stamp(e["times"][0])[:-1] + "UTC"
    e["name"] = r.choice(["a.mib", "a.mib", "dir.mib/b.c.mib", "x.mib.mib"])
    e["chunks"] = []
    e["mi"] = r.choice([-1, -1, 0, 1, 2, 5, 20])
    # an interrupted scan without a complete line has nothing to return
    nav = e["nav"]
    if not nav and e["api"] == "file_reader":
        e["guess"] = True
    return e


def complete_line(e):
    """At least one complete line to return (as the reader sees the scan shape)."""
    lo, hi, _ = slice(*[None if x == NONE else x for x in (e["first"], e["last"])]).indices(e["n"])
    x = [e["nav"][0]] if e["nav"] else [e["hdrfpt"]] if e["hdr"] and e["hdrfpt"] != 1 else [1, 2, 3, 4]
    return all(hi - lo >= v for v in x) or lo != 0


def run(ctx):
    for n, m in [(5, 3)] if ctx.quick else [(9, 5)]:
        ctx.model_check(
            "MibFramesMC",
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OnlyRequested Consecutive NothingLost FullScan Guess NoGuess\n"
            f"CONSTANTS MaxN={n} MaxNav={m}\n",
        )
    es = []
    while len(es) < (600 if ctx.quick else 6000):
        e = gen(ctx.rng)
        if complete_line(e):
            es.append(e)
    d = ctx.dir()

    def one(k):
        import shutil

        dd = os.path.join(d, str(k))
        os.makedirs(dd)
        o = observe(read, es[k], dd)
        shutil.rmtree(dd, ignore_errors=True)
        return o

    obs = pmap(one, range(len(es)), procs=8, timeout=60)
    tr = [dict(e, obs=o) for e, o in zip(es, obs)]
    judge(ctx, "MibFramesTrace", tr, lambda e: f"mib-{e['api']}{'-lazy' if e['lazy'] else ''}", chunk=10**6)
