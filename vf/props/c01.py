"""hspy/zspy round trip (specs: Tree, HierStore*, RoundTripTrace)."""
import os
import random
import string

import numpy as np

from ..pmap import pmap
from ..terms import term
from .c10 import judge

LEVEL = "model_checking"
STR = ["", "a", "é∆", "long " * 30, "1", "None", "x y", "[1, 2]", "µm", "a\nb", "true", "日本"]


def rkey(r):
    return r.choice(["a", "b", "key", "Ünit", "k.dot", "k 1", "0", "10", "2", "A", "list", "x_y", "_p"]) + r.choice(
        ["", "", "1", "_2"]
    )


def leaf(r, hspy):
    c = r.randrange(12)
    if c == 0:
        return None
    if c == 1:
        return r.choice([True, False])
    if c in (2, 3):
        return r.choice([0, 1, -1, 7, 255, -(2**31), 2**53 + 1, 2**63 - 1, np.int16(-3), np.uint8(200)])
    if c in (4, 5):
        return r.choice([0.0, -0.0, 1.5, 1e-300, 0.1, -1 / 3, 1e22, float("inf"), np.float32(0.1), np.float64(2.5)])
    if c == 6 and hspy:  # attributes of zarr groups are JSON: no complex scalar
        return r.choice([1 + 2j, -0.5j, 3.25 + 0j])
    if c in (7, 8):
        return r.choice(STR)
    return arr(r)


def arr(r):
    dt = r.choice(["u1", "<i2", "<i4", "<i8", "<f4", "<f8", "<c16", "?", "U", ">f4", "<u8"])
    sh = r.choice([(3,), (1,), (2, 3), (2, 1, 2), (12,), (0,)] if dt != "U" else [(3,), (1,), (2, 2), (11,)])
    n = int(np.prod(sh))
    if dt == "U":
        return np.array([r.choice(["a", "bc", "x y", "Fe", "µm", "Å", ""]) + str(i) for i in range(n)]).reshape(sh)
    a = (np.arange(n) * r.choice([1, 3, 7]) + r.randrange(5)).reshape(sh)
    a = a % 2 == 0 if dt == "?" else a.astype(dt)
    if a.ndim > 1 and r.random() < 0.4:
        a = a.T
    if a.size > 2 and r.random() < 0.2:
        a = a[::-1]
    return a


def seq(r, depth, hspy):
    n = r.choice([0, 1, 2, 3, 4, 9, 10, 11, 12, 25])
    c = r.randrange(9)
    if c == 0:
        v = [r.randrange(-50, 1000) for _ in range(n)]
    elif c == 1:
        v = [r.choice([0.5, 1e10, -3.25, r.random()]) for _ in range(n)]
    elif c == 2:
        v = [r.choice(STR) for _ in range(n)]
    elif c == 3:
        v = [r.choice([True, False]) for _ in range(n)]
    elif c == 4:
        v = [r.choice([1, 2.5, True, -3]) for _ in range(n)]
    elif c == 5:
        v = [{"i": i, "s": f"e{i}"} for i in range(n)]
    elif c == 6:
        v = [[i, i + 1] for i in range(n)] if r.random() < 0.5 else [tuple(range(i % 3)) for i in range(n)]
    else:
        n = min(n, 12)
        v = [tree(r, depth - 1, hspy) for _ in range(n)]
    if not hspy:
        v = [x for x in v if not isinstance(x, complex)]
    return tuple(v) if r.random() < 0.4 else v


def tree(r, depth, hspy):
    p = r.random()
    if depth <= 0 or p < 0.35:
        return leaf(r, hspy)
    if p < 0.7:
        return seq(r, depth, hspy)
    return mapping(r, depth, hspy)


def mapping(r, depth, hspy):
    d = {}
    for _ in range(r.choice([0, 1, 2, 3, 5])):
        d[rkey(r)] = tree(r, depth - 1, hspy)
    return d


def ragged(r):
    sh = r.choice([(4,), (1,), (2, 3), (12,)])
    o = np.empty(sh, dtype=object)
    kind = r.choice(["f8", "i4", "U", "2d", "u1"])
    for i in np.ndindex(sh):
        n = r.choice([0, 1, 2, 5])
        if kind == "U":
            o[i] = np.array(["s%d" % k for k in range(max(n, 1))])
        elif kind == "2d":
            o[i] = np.arange(n * 2, dtype="f8").reshape(n, 2)
            if r.random() < 0.4:
                o[i] = np.asfortranarray(o[i]) if r.random() < 0.5 else o[i].T
        else:
            o[i] = (np.arange(n) + r.randrange(9)).astype(kind)
    return o


BIG = [(1100, 1000), (7, 300, 600), (300, 300, 3, 5), (11, 13, 17, 23, 20), (2000, 3, 200), (5, 40, 60, 100)]


def data(r, big):
    if big:
        sh = r.choice(BIG)
        a = (np.arange(int(np.prod(sh)), dtype="i8") * 2654435761 % 251).astype("u1").reshape(sh)
        return a, r.randrange(0, len(sh))
    p = r.random()
    if p < 0.15:
        a = ragged(r)
        return a, a.ndim
    dt = r.choice(["u1", "i1", "<u2", ">u2", "<i4", "<i8", "<f2", "<f4", ">f8", "<f8", "<c8", "<c16", "?", "rgb", "<u8"])
    sh = r.choice([(1,), (5,), (2, 3), (3, 2, 4), (1, 4), (2, 1, 3, 2), (4, 1)])
    n = int(np.prod(sh))
    if dt == "rgb":
        a = np.zeros(sh, dtype=[("R", "u1"), ("G", "u1"), ("B", "u1")])
        a["R"] = np.arange(n).reshape(sh)
        a["B"] = 9
    else:
        a = np.arange(n).reshape(sh) * 3 - 1
        a = a > 2 if dt == "?" else (a % 256 if dt == "u1" else a).astype(dt)
        if dt in ("<f4", "<f8", ">f8") and n > 2:
            a = a * dt_one(a)
            a.flat[1] = np.nan
            a.flat[2] = np.inf
    if r.random() < 0.3:
        a = np.asfortranarray(a)
    if r.random() < 0.2:
        a = a[::-1]
    return a, r.randrange(0, len(sh))


def dt_one(a):
    return a.dtype.type(1)


def axis(r, i, n, nav):
    c = r.random()
    ax = {"name": r.choice(["x", "y", "Énergie", f"axis{i}", ""]), "navigate": nav, "is_binned": r.choice([True, False])}
    if c < 0.7:
        ax.update(
            _type="UniformDataAxis",
            scale=r.choice([1.0, 0.1, -2.5, 1e-9]),
            offset=r.choice([0.0, -3.75, 1e6]),
            size=n,
            units=r.choice([None, "nm", "µm", "1/Å", ""]),
        )
    elif c < 0.9:
        ax.update(_type="DataAxis", axis=np.sort(np.array([r.random() * 100 for _ in range(n)])), units=r.choice([None, "eV"]))
    else:
        ax.update(
            _type="FunctionalDataAxis",
            expression="a * x + b",
            a=r.choice([1, 2.5]),
            b=r.choice([0, -1.5]),
            size=n,
            units="eV",
            x={"_type": "UniformDataAxis", "scale": 0.5, "offset": 1.0, "size": n, "name": "", "units": None, "navigate": nav, "is_binned": False},
        )
    return ax


def signal(seed, hspy, big=False):
    r = random.Random(seed)
    a, nnav = data(r, big)
    axes = [axis(r, i, n, i < nnav) for i, n in enumerate(a.shape)]
    if a.dtype == object:
        for ax in axes:
            ax["navigate"] = True
    md = {
        "General": {"title": r.choice(["", "t", "a/b", "Title é"]), "extra": tree(r, 3, hspy)},
        "Signal": {"signal_type": ""},
        "Tree": mapping(r, 3, hspy),
    }
    om = mapping(r, 4, hspy)
    om["long"] = [f"item {i}" if i % 2 else i for i in range(r.choice([2, 11, 13, 101]))]
    return {
        "data": a,
        "axes": axes,
        "metadata": md,
        "original_metadata": om,
        "attributes": {"_lazy": False, "ragged": a.dtype == object},
        "learning_results": mapping(r, 2, hspy) if r.random() < 0.5 else {},
        "package_info": {"package": "p", "package_version": "1.2"},
        "tmp_parameters": {},
        "models": {},
    }


def plain(v):
    """What the tree looks like without laziness."""
    if type(v).__module__.startswith("dask"):
        return v.compute()
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v)
    return v


def parts(d, lr, title=None):
    md = d["metadata"]
    return {
        "data": term(d["data"]) if not type(d["data"]).__module__.startswith("dask") else term(d["data"].compute()),
        "axes": term([{k: v for k, v in a.items()} for a in d["axes"]]),
        "metadata": term(plain(md)),
        "original_metadata": term(plain(d["original_metadata"])),
        "learning_results": term(plain(lr)),
    }


def one(e):
    import dask
    import dask.array as da

    import rsciio.hspy
    import rsciio.zspy

    from ..slowstore import SlowStore

    mod = {"hspy": rsciio.hspy, "zspy": rsciio.zspy}[e["fmt"]]
    sig = signal(e["seed"], e["fmt"] == "hspy", e["big"])
    t_in = parts(sig, sig["learning_results"])
    fn = os.path.join(e["dir"], "s." + e["fmt"])
    if e["fromdask"]:
        r = random.Random(e["seed"] + 1)
        ch = tuple(split(r, n) for n in sig["data"].shape)
        sig["data"] = da.from_array(sig["data"], chunks=ch)
        sig["attributes"]["_lazy"] = True
    kw = dict(e["kw"])
    if kw.get("chunks"):
        kw["chunks"] = tuple(min(c, n) for c, n in zip([2, 3, 1, 2, 4], sig["data"].shape))
    store = None
    if e["slow"]:
        store = SlowStore()
        with dask.config.set(scheduler="threads", num_workers=6):
            mod.file_writer(store, sig, show_progressbar=False, **kw)
        store.slow = False
        L = mod.file_reader(store, lazy=e["lazy"])
    else:
        mod.file_writer(fn, sig, show_progressbar=False, **kw)
        L = mod.file_reader(fn, lazy=e["lazy"])
    assert len(L) == 1
    d = L[0]
    lz = type(d["data"]).__module__.startswith("dask")
    assert lz == e["lazy"], "laziness of the data"
    out = parts(d, d["attributes"].get("learning_results", {}))
    for a in d["axes"]:
        for k in ("navigate", "is_binned"):
            assert type(a[k]) is bool
    return {"in": t_in, "out": out}


def split(r, n):
    """An irregular dask chunking of n elements."""
    out = []
    while n:
        k = r.randrange(1, n + 1)
        out.append(k)
        n -= k
    return tuple(out)


def inputs(e):
    sig = signal(e["seed"], e["fmt"] == "hspy", e["big"])
    return parts(sig, sig["learning_results"])


def run(ctx):
    ctx.model_check(
        "HierStoreMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Drop = TRUE\n"
        "INVARIANTS ReadsLastWritten OneRepresentation Injective\n",
    )
    es = []
    n = 260 if ctx.quick else 2500
    for i in range(n):
        fmt = ("hspy", "zspy")[i % 2]
        big = i % 9 == 0
        kw = {}
        if ctx.rng.random() < 0.3 and not big:
            kw["chunks"] = True
        if fmt == "hspy":
            if ctx.rng.random() < 0.3:
                kw["compression"] = ctx.rng.choice([None, "lzf", "gzip"])
        elif ctx.rng.random() < 0.3:
            kw["store_type"] = ctx.rng.choice(["local", "zip"])
        es.append(
            dict(
                fmt=fmt, big=big, seed=ctx.rng.randrange(1 << 30), lazy=ctx.rng.random() < 0.4,
                fromdask=ctx.rng.random() < 0.35, kw=kw,
                slow=fmt == "zspy" and "store_type" not in kw and not big and i % 5 == 1,
            )
        )
    for e in es:
        e["dir"] = ctx.dir()
        if e["slow"]:
            e["fromdask"] = True
        if e["fromdask"]:
            d = signal(e["seed"], e["fmt"] == "hspy", e["big"])["data"]
            if d.dtype == object and (d.ndim == 1 or e["fmt"] == "zspy"):
                e["fromdask"] = e["slow"] = False  # documented as unsupported for 1-D hspy
            if 0 in d.shape:
                e["fromdask"] = False
    res = pmap(one, es, timeout=120)
    tr = []
    for e, r in zip(es, res):
        e["dir"] = ""
        if "err" in r:
            r = {"in": {}, "out": r}
        tr.append(dict(e, **r))
    judge(ctx, "RoundTripTrace", tr, lambda e: e["fmt"])
