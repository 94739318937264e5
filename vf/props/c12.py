"""Bruker composite files are decoded exactly (spec: Bcf*.tla)."""
import copy
import os
import random
import struct
from datetime import datetime

import numpy as np

from .. import cyext
from ..pmap import observe, pmap
from ..synth import bcf
from .c10 import judge

LEVEL = "model_checking"


def k(v):
    """Exactly, in 1024ths."""
    return int(round(float(v) * 1024)) if float(v) * 1024 == round(float(v) * 1024) else -1


def describe(h):
    dt = datetime.strptime(h["date"] + " " + h["time"], "%d.%m.%Y %H:%M:%S")
    return {"eoff": k(h["eoff"]), "elin": k(h["elin"]), "hv": h["hv"], "amp": h["amp"], "dx": 0 if h["dx"] is None else k(h["dx"]),
            "dy": k(h["dy"]), "name": h["name"], "elements": [e for e, _ in h["elements"]], "isodate": dt.date().isoformat(), "isotime": dt.time().isoformat()}


def axes(s):
    return [{"name": a["name"], "scale": k(a["scale"]), "units": a["units"], "size": a["size"], "offset": k(a["offset"])} for a in s["axes"]]


def instrument(s):
    a = s["metadata"]["Acquisition_instrument"]
    m = list(a)[0] if len(a) == 1 else ""
    e = a[m]["Detector"]["EDS"]
    return {"mode": m, "stype": s["metadata"]["Signal"]["signal_type"], "beam": a[m]["beam_energy"], "elevation": e["elevation_angle"],
            "live": int(round(e["live_time"] * 1000)), "real": e["real_time"]}


def one_map(s):
    import dask

    d = s["data"]
    declared = str(d.dtype)
    if type(d).__module__.startswith("dask"):
        d = d.compute(scheduler="synchronous")
    md = s["metadata"]
    o = {"shape": list(d.shape), "dtype": str(d.dtype), "declared": declared, "kind": d.dtype.kind, "axes": axes(s), "cube": np.where(d > 2**31 - 1, -1, d.astype("i8")).reshape(-1, d.shape[-1]).tolist(),
         "title": md["General"]["title"], "date": md["General"]["date"], "time": md["General"]["time"], "sample": md["Sample"]["name"],
         "elements": md["Sample"]["elements"], "lines": md["Sample"]["xray_lines"], **instrument(s)}
    o["real"] = int(round(o["real"] * 1e6))
    return o


def read(e, fn):
    from rsciio.bruker import _api

    _api.fast_unbcf, keep = e["fast"] and _api.fast_unbcf, _api.fast_unbcf
    try:
        cut = {"none": None, "kv": e["kvf"]}.get(e["cut"], e["cut"])
        kw = {"index": {-1: None, -2: "all"}.get(e["index"], e["index"]), "downsample": e["ds"], "cutoff_at_kV": cut}
        if e["select"] != "all":
            kw["select_type"] = e["select"]
        if e["instrument"]:
            kw["instrument"] = e["instrument"]
        ss = _api.file_reader(fn, lazy=e["lazy"], **kw)
        out = {"images": [], "maps": []}
        for s in ss:
            if len(s["axes"]) == 3:
                out["maps"].append(one_map(s))
            else:
                d = s["data"]
                out["images"].append({"flat": d.ravel().tolist(), "shape": list(d.shape), "dtype": str(d.dtype), "axes": axes(s),
                                      "title": s["metadata"]["General"].get("title", "")})
        return out
    finally:
        _api.fast_unbcf = keep


def container(r, d):
    """Items in a container, one of them read as a whole and in pieces."""
    from rsciio.bruker._api import SFS_reader

    chunk = r.choice([576, 1056, 4096])
    usable = chunk - 32
    n = r.randrange(1, 4)

    def content(i, size):
        p = np.arange(size, dtype=np.int64)
        return (((p % 251) * (1 + (p // 251) % 250) + p // 62750 + i) % 251).astype("u1").tobytes()

    sizes = [r.choice([1, usable - 1, usable, usable + 1, 2 * usable, r.randrange(1, 6 * usable), usable * (usable // 4), usable * (usable // 4) + 5 * usable + 3])
             if chunk < 4000 else r.randrange(1, 9 * usable) for _ in range(n)]
    tree = [("a", -1, None), ("b", 0, None)][: r.choice([1, 2])]
    nd = len(tree)
    tree += [(f"f{i}", r.choice([-1] + list(range(nd))), content(i, s)) for i, s in enumerate(sizes)]
    raw = bcf.sfs(r, tree, chunk)
    if raw is None:
        return None
    fn = os.path.join(d, "c.bcf")
    with open(fn, "wb") as f:
        f.write(raw)
    it = r.randrange(n)
    # the disk as it lies there: chunk numbers in order of the file
    path, q = [tree[nd + it][0]], tree[nd + it][1]
    while q >= 0:
        path.insert(0, tree[q][0])
        q = tree[q][1]
    total = (len(raw) - 0x118) // chunk
    word = lambda a: struct.unpack("<I", raw[a : a + 4])[0]
    item = None
    # (the table of this item is found by its entry in the tree)
    pos = raw.find(struct.pack("256s", tree[nd + it][0].encode()))
    entry = raw[pos - 224 : pos + 288]
    table = struct.unpack("<i", entry[:4])[0]
    nch = -(-sizes[it] // usable)
    want = {}
    for t in range(total):
        nxt = word(t * chunk + 0x118)
        want[t] = {"next": nxt if nxt < total else 0, "table": [], "tag": t}
    q = table
    for _ in range(max(1, -(-nch // (usable // 4)))):
        tb = np.frombuffer(raw[q * chunk + 0x138 : q * chunk + 0x138 + usable], "<u4")
        want[q]["table"] = [int(x) if x < total else 0 for x in tb[:nch]]
        q = want[q]["next"]
    ev = {"ev": "sfs", "item": it, "size": sizes[it], "n": nch, "per": usable // 4, "table": table + 1,
          "disk": [dict(want[t], next=want[t]["next"] + 1, table=[x + 1 for x in want[t]["table"]]) for t in range(total)]}

    def go():
        f = SFS_reader(fn).get_file("/".join(path))
        got = f.get_as_BytesIO_string().getvalue()
        body = {raw[t * chunk + 0x138 : (t + 1) * chunk + 0x118]: t for t in range(total)}
        tags = []
        for j in range(0, len(got), usable):
            c = got[j : j + usable]
            hit = [t for b, t in body.items() if b[: len(c)] == c]
            # (the last one, cut, may look like several)
            tags.append(hit)
        pieces = []
        for _ in range(6):
            o = r.choice([r.randrange(sizes[it]), (r.randrange(nch) * usable)])
            ln = min(sizes[it] - o, r.choice([1, 16, usable, usable + 1, 2 * usable, r.randrange(1, 4 * usable)]))
            p = f.read_piece(o, ln)
            at = sorted({0, len(p) // 2, max(len(p) - 1, 0)} | {max(0, min(len(p) - 1, usable - o % usable + x)) for x in (-1, 0, 1)}) if p else []
            pieces.append({"offset": o, "length": ln, "size": len(p), "at": at, "byte": [p[x] for x in at]})
        return {"chunks": tags, "size": len(got), "pieces": pieces}

    ev["out"] = observe(go)
    return ev


def spx(r, d):
    from rsciio.bruker._api import file_reader

    g, _ = bcf.gen(r)
    h = dict(g["head"], comma=False)
    counts = [r.randrange(0, 1000) for _ in range(g["nch"])]
    body = bcf.spectrum(h, counts).replace('Type="TRTSpectrum"', f'Type="TRTSpectrum" Name="{h["name"]}"')
    fn = os.path.join(d, "s.spx")
    with open(fn, "w") as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?><TRTDatabase>' + body + "</TRTDatabase>")

    def go():
        (s,) = file_reader(fn)
        md = s["metadata"]
        o = {"flat": s["data"].tolist(), "axes": axes(s), "date": md["General"]["date"], "time": md["General"]["time"], "sample": md["Sample"]["name"], **instrument(s)}
        o["real"] = int(round(o["real"] * 1000))
        return o

    return {"ev": "spx", "sum": counts, "head": describe(h), "out": observe(go)}


def run(ctx):
    cyext.inject(ctx.dir())
    ctx.model_check(
        "BcfMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS InPlace Within\nPROPERTY Ends\nCONSTANTS\n"
        f"BlockSizes = {{1, 2, 3, 5}}\nLengths = {{1, 2, 3, 7}}\nRecords = {3 if ctx.quick else 5}\nVals = {{0, 1, 255, 4095}}\n",
    )
    n = 260 if ctx.quick else 4000
    seeds = [ctx.rng.randrange(2**40) for _ in range(n)]
    d = ctx.dir()

    def one(i):
        r = random.Random(seeds[i])
        dd = os.path.join(d, str(i))
        os.makedirs(dd)
        if i % 8 == 6:
            return [spx(r, dd)]
        if i % 8 == 7:
            return [e for e in [container(r, dd)] if e]
        g, raw = bcf.gen(r)
        fn = os.path.join(dd, "x.bcf")
        with open(fn, "wb") as f:
            f.write(raw)
        base = {"ev": "file", "w": g["w"], "h": g["h"], "nch": g["nch"], "maps": g["maps"], "sums": g["sums"], "head": describe(g["head"]), "comp": g["comp"],
                "images": [{"title": t, "flat": im.ravel().tolist(), "dtype": str(im.dtype)} for t, im in g["images"]]}
        out = []
        for _ in range(2):
            kv = g["head"]["eoff"] + g["head"]["elin"] * (r.randrange(1, 2 * min(g["nch"], 80)) + r.choice([-0.25, 0, 0, 0.25]))
            e = dict(base, ds=r.choice([1, 1, 2, 3]), cut=r.choice(["none", "none", "kv", "zealous", "auto"]), kv=k(kv), kvf=kv,
                     index=r.choice([-1, -2, r.randrange(len(g["maps"]))]), select=r.choice(["all", "all", "image", "spectrum_image"]),
                     instrument=r.choice(["", "", "TEM", "SEM"]), lazy=r.random() < 0.4, fast=r.random() < 0.6)
            e["out"] = observe(read, e, fn)
            e["kvf"] = str(kv)
            out.append(e)
        return out

    tr = []
    for i, es in enumerate(pmap(one, range(n), procs=8, timeout=120)):
        if isinstance(es, dict):
            es = [dict({"ev": "machine", "seed": seeds[i]}, out=es)]
        tr += es
    judge(ctx, "BcfTrace", tr, lambda e: e["ev"] + (("-fast" if e["fast"] else "-python") if "fast" in e else ""), chunk=130)
