"""Chunked memory-mapped reading (spec: Blocks*.tla)."""
import hashlib
import itertools
import os

import numpy as np

from .. import corpus
from ..pmap import observe, pmap
from .c10 import judge

LEVEL = "model_checking"


def gen(r):
    nd = r.choice([1, 2, 2, 3, 3, 4, 5])
    shape = [r.choice([1, 2, 3, 4, 5, 7]) for _ in range(nd)]
    while int(np.prod(shape)) > 240:
        shape[r.randrange(nd)] = 1
    e = {"ev": "map", "shape": shape, "positions": [], "order": "C", "sub": 0, "key": "none"}
    if nd >= 3 and r.random() < 0.4:
        nav = shape[:-2]
        allp = [list(t) for t in itertools.product(*[range(n) for n in nav])]
        r.shuffle(allp)
        k = r.randrange(1, len(allp) + 1) if r.random() < 0.6 else len(allp)
        pos = allp[:k]
        if r.random() < 0.3:
            pos += [r.choice(pos) for _ in range(r.randrange(1, 3))]
        e["positions"] = pos
    elif r.random() < 0.3:
        e["order"] = "F"
    elif r.random() < 0.5 and nd >= 2:
        e["sub"] = r.randrange(1, nd)  # trailing dimensions in a structured dtype
        e["key"] = r.choice(["data", "z"])
    asked = []
    for n in shape:
        k = r.choice(["auto", "whole", "size", "size", "list"])
        a = {"kind": k}
        if k == "size":
            a["n"] = r.randrange(1, n + 1)
        if k == "list":
            left, li = n, []
            while left:
                c = r.randrange(1, left + 1)
                li.append(c)
                left -= c
            a["list"] = li
        asked.append(a)
    if e["positions"]:
        asked[-2:] = [{"kind": "whole"}] * 2
    e["allauto"] = r.random() < 0.2
    if e["allauto"]:
        asked = [{"kind": "auto"} for _ in shape]
        if e["positions"]:
            asked[-2:] = [{"kind": "whole"}] * 2
    e["asked"] = asked
    e["dtype"] = r.choice(["<u2", ">u2", "<i4", ">i4", "<f4", ">f8", "<u8", "<i2"])
    e["offset"] = r.choice([0, 0, 7, 512])
    e["limit"] = r.choice([None, None, 1, 64, 2**20])
    e["noshape"] = nd == 1 and e["order"] == "C" and r.random() < 0.5
    e["base"] = r.choice([0, 1, 3])
    e["tail"] = 0 if e["noshape"] else r.choice([0, 13])
    return e


def chunks_arg(e):
    if e["allauto"]:
        return "auto"
    m = {"auto": lambda a: "auto", "whole": lambda a: -1, "size": lambda a: a["n"], "list": lambda a: tuple(a["list"])}
    return tuple(m[a["kind"]](a) for a in e["asked"])


def observe_array(a):
    r = a.compute()
    by = np.empty(a.shape, r.dtype)
    st = [np.cumsum((0,) + c) for c in a.chunks]
    for ix in np.ndindex(*a.numblocks):
        sl = tuple(slice(int(s[i]), int(s[i + 1])) for s, i in zip(st, ix))
        by[sl] = a.blocks[ix].compute()
    return r, by


def run_map(e, fn):
    from rsciio.utils.file import memmap_distributed

    n = int(np.prod(e["shape"]))
    dt = np.dtype(e["dtype"])
    shape = tuple(e["shape"])
    nfr = n
    if e["positions"]:
        nfr = len(e["positions"]) * shape[-1] * shape[-2]
    v = (np.arange(nfr) + e["base"]).astype(dt)
    kw = {}
    dtype = dt
    if e["sub"]:
        lead, sub = shape[: -e["sub"]], shape[-e["sub"]:]
        fields = [("id", "<u4"), ("data", dt, sub), ("z", dt, sub), ("pad", "S3")]
        dtype = np.dtype(fields)
        rec = np.zeros(lead, dtype)
        rec["id"] = 77
        rec["data"] = 99
        rec["z"] = 99
        rec[e["key"]] = v.reshape(shape)
        raw = rec.tobytes()
        kw["key"] = e["key"]
        shape = lead
    else:
        raw = v.tobytes()
    with open(fn, "wb") as f:
        f.write(b"\x5a" * e["offset"] + raw + b"\x5a" * e["tail"])
    if e["positions"]:
        kw["positions"] = e["positions"] if len(e["positions"]) % 2 else np.array(e["positions"])
    a = memmap_distributed(
        fn, dtype=dtype, offset=e["offset"], shape=None if e["noshape"] else shape, order=e["order"],
        chunks=chunks_arg(e), block_size_limit=e["limit"], **kw,
    )
    r, by = observe_array(a)
    return {
        "shape": list(a.shape), "cshape": list(r.shape), "dtype": a.dtype.str, "cdtype": r.dtype.str,
        "chunks": [list(c) for c in a.chunks], "flat": [int(x) for x in r.ravel()], "byblock": [int(x) for x in by.ravel()],
    }


def run_slices(e):
    from rsciio.utils._distributed import get_chunk_slice

    s, ch = get_chunk_slice(tuple(e["shape"]), chunks=chunks_arg(e), block_size_limit=e["limit"], dtype=np.dtype(e["dtype"]))
    a = s.compute().reshape(-1, len(e["shape"]), 2)
    return {"chunks": [list(c) for c in ch], "slices": [[[int(x) for x in p] for p in b] for b in a]}


READERS = ("edax", "quantumdetector", "digitalmicrograph", "mrc", "numpy", "blockfile", "ripple", "pantarhei")


def sigs(L):
    out = []
    for d in L:
        a = d["data"]
        s = {"shape": [int(i) for i in a.shape], "dtype": a.dtype.str, "chunks": []}
        if hasattr(a, "chunks"):
            s["chunks"] = [list(c) for c in a.chunks]
            a, by = observe_array(a)
            if not np.array_equal(a, by, equal_nan=a.dtype.kind in "fc"):
                s["dtype"] = "blocks differ"
        b = np.ascontiguousarray(a)
        s["h"] = hashlib.sha1(b.tobytes()).hexdigest()[:16]
        s["dtype"] = b.dtype.newbyteorder("=").str if s["dtype"] != "blocks differ" else s["dtype"]
        s["h"] = hashlib.sha1(b.astype(b.dtype.newbyteorder("=")).tobytes()).hexdigest()[:16]
        out.append(s)
    return {"sig": out}


def run_reader(k):
    import importlib

    p, f, asked = k
    m = importlib.import_module(f"rsciio.{p}")
    kw = {}
    if p == "digitalmicrograph":
        kw["optimize"] = False
    ref = m.file_reader(f, lazy=False, **kw)
    nd = ref[0]["data"].ndim
    asked = [a if a["kind"] != "size" else {"kind": "size", "n": min(a["n"], n)} for a, n in zip(asked[:nd], ref[0]["data"].shape)]
    if len(ref) > 1 or any(d["data"].dtype.names or 0 in d["data"].shape for d in ref):
        return {"skip": 1}
    e = {"asked": asked, "allauto": False}
    if p == "mrc" and nd < 3:  # the file holds a stack of one image
        e["allauto"], asked = True, [{"kind": "auto"}] * nd
    try:
        L = m.file_reader(f, lazy=True, chunks=chunks_arg(e), **kw)
    except NotImplementedError:
        return {"skip": 1}
    return {"ref": sigs(ref), "obs": sigs(L), "asked": asked}


def run(ctx):
    for dim, size in [(2, 3), (3, 2)] if ctx.quick else [(2, 4), (3, 2), (1, 6)]:
        ctx.model_check(
            "BlocksMC",
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS CutCovers NoOverlap Whole EveryElement UnflatInverse\n"
            f"CONSTANTS MaxDim={dim} MaxSize={size}\n",
        )
    n = 500 if ctx.quick else 6000
    es = [gen(ctx.rng) for _ in range(n)]
    for e in es:
        if ctx.rng.random() < 0.25 and not e["positions"]:
            e["ev"] = "slices"
    d = ctx.dir()

    def one(k):
        e = es[k]
        if e["ev"] == "slices":
            return observe(run_slices, e)
        fn = os.path.join(d, f"f{k}.bin")
        o = observe(run_map, e, fn)
        os.unlink(fn)
        return o

    obs = pmap(one, range(len(es)), procs=8, timeout=60)
    tr = [dict(e, obs=o) for e, o in zip(es, obs)]
    judge(ctx, "BlocksTrace", tr, lambda e: f"{e['ev']}{'-positions' if e['positions'] else ''}", chunk=10**6)
    keys = []
    for p, f in corpus.files():
        if p in READERS:
            for _ in range(1 if ctx.quick else 4):
                asked = []
                for _ in range(6):
                    a = ctx.rng.choice([{"kind": "whole"}, {"kind": "size", "n": ctx.rng.choice([1, 2, 3, 5, 64])}, {"kind": "auto"}])
                    asked.append(a)
                # not too many blocks
                asked = [dict(a, n=max(a["n"], 3)) if a["kind"] == "size" and i < 2 else a for i, a in enumerate(asked)]
                for i in (2, 3, 4, 5):
                    if asked[i]["kind"] == "size":
                        asked[i]["n"] = max(64, asked[i]["n"])
                keys.append((p, f, asked))
    res = pmap(lambda k: observe(run_reader, k), keys, procs=8, timeout=200)
    tr = []
    for k, o in zip(keys, res):
        if "skip" in o:
            continue
        base = {"ev": "reader", "plugin": k[0], "f": os.path.basename(k[1]), "positions": []}
        if "err" in o:
            # unreadable files are not of interest here
            import importlib

            try:
                importlib.import_module(f"rsciio.{k[0]}").file_reader(k[1])
            except Exception:
                continue
            tr.append(dict(base, asked=k[2], obs=o))
        else:
            tr.append(dict(base, **o))
    ctx.count("reader_cases", len(tr))
    judge(ctx, "BlocksTrace", tr, lambda e: f"chunks|{e['plugin']}|{e['f']}", chunk=10**6)
