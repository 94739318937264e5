"""JEOL .pts word streams (spec: JeolStream*.tla)."""
import os

import numpy as np

from ..pmap import observe, pmap
from ..synth import jeol
from .c10 import judge

LEVEL = "model_checking"


def r6(x):
    return int(round(float(x) * 1e6))


def arr(a):
    if type(a).__module__.startswith("dask"):
        a = a.compute()
    if hasattr(a, "todense"):
        a = a.todense()
    return np.asarray(a)


def sig(d):
    dt = str(d["data"].dtype)
    a = arr(d["data"])
    if str(a.dtype) != dt:
        dt = f"{dt}!={a.dtype}"
    nz = np.flatnonzero(a)
    return {
        "shape": [int(i) for i in a.shape],
        "dtype": dt,
        "nz": [[int(i), int(a.flat[i])] for i in nz],
        "ax": [
            {"size": int(x["size"]), "name": x["name"], "navigate": bool(x["navigate"]),
             "scale": r6(x["scale"]), "offset": r6(x["offset"]), "units": str(x["units"])}
            for x in d["axes"]
        ],
    }


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return [repr(float(x)) for x in v]
    if isinstance(v, str):
        return v
    return repr(float(v))


def read(e):
    from rsciio.jeol import file_reader

    c = e["c"]
    kw = dict(lazy=e["lazy"], sum_frames=c["sumf"], rebin_energy=c["rebin"], only_valid_data=c["valid"],
              read_em_image=e["em"])
    kw["downsample"] = c["dsx"] if c["dsx"] == c["dsy"] and e["scalar"] else [c["dsx"], c["dsy"]]
    if e["dtype"] != "uint8" or e["dtarg"]:
        kw["SI_dtype"] = np.dtype(e["dtype"]).type if e["dtarg"] else e["dtype"]
    if e["cutkv"] is not None:
        kw["cutoff_at_kV"] = e["cutkv"]
    if c["flist"]:
        kw["frame_list"] = list(c["flist"])
    if c["shifts"]:
        sh = [s[: e["shn"]] for s in c["shifts"]]
        kw["frame_shifts"] = np.array(sh) if e["sharr"] else [list(s) for s in sh]
    if e["index"] == "again":  # the index found by an earlier read
        first = file_reader(e["fn"], sum_frames=True, SI_dtype="uint16", rebin_energy=4096,
                            frame_list=[e["idxat"]], only_valid_data=False)
        ix = first[0]["original_metadata"]["jeol_pts_frame_start_index"]
        kw["frame_start_index"] = ix if e["sharr"] else [int(i) for i in ix]
    before = {k: repr(v) for k, v in kw.items()}
    L = file_reader(e["fn"], **kw)
    si = sig(L[0])
    md = L[0]["metadata"]["Acquisition_instrument"]
    si["mode"] = next(iter(md))
    si["kv"] = int(md[si["mode"]]["beam_energy"])
    om = L[0]["original_metadata"]["PTTD Data"]["AnalyzableMap MeasData"]
    si["orig"] = {k: plain(om[k]) for k in e["extra"] if k in om}
    return {"si": si, "em": [sig(d) for d in L[1:]], "args": before == {k: repr(v) for k, v in kw.items()}}


def gen_frame(r, c, em, complete):
    w = []
    sx, sy = 4096 // c["w"], 4096 // c["h"]
    ys = list(range(c["h"]))
    if not complete:
        ys = ys[: r.randrange(1, c["h"])] if c["h"] > 1 and r.random() < 0.7 else ys
    for y in ys:
        w.append((9, y * sy + (r.randrange(sy) if r.random() < 0.2 else 0)))
        xs = list(range(c["w"]))
        if not em and r.random() < 0.5:
            xs = sorted(r.sample(xs, r.randrange(0, len(xs) + 1)))
        if not complete and y == ys[-1] and len(ys) == c["h"]:
            xs = xs[: len(xs) // 2]
        for x in xs:
            w.append((8, x * sx + (r.randrange(sx) if r.random() < 0.2 else 0)))
            if em:
                w.append((10, r.choice([0, 1, 7, 4095, r.randrange(4096)])))
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                z = r.choice([0, 4095, 5, 6, 1000, r.randrange(4096)])
                w += [(11, z)] * r.choice([1, 1, 1, 2])
    if complete and em is False and (9, (c["h"] - 1) * sy) not in w and not any(
        k == 9 and v >= 4096 - sy for k, v in w
    ):
        w.append((9, 4095))
    return w


def extra(r, depth=0):
    d = {}
    for k in range(r.randrange(0, 4)):
        n = f"K{depth}{k}"
        t = r.randrange(6 if depth < 2 else 5)
        d[n] = [
            lambda: r.randrange(-9, 9), lambda: r.random(), lambda: r.choice(["", "a", "some text"]),
            lambda: np.arange(r.randrange(2, 5)).astype("i4"), lambda: np.array([1.5, 2.5]).astype("f4"),
            lambda: extra(r, depth + 1),
        ][t]()
    return d


def gen(r):
    c = {"N": 4096}
    c["w"], c["h"] = r.choice([(1, 1), (2, 2), (2, 4), (4, 2), (4, 4), (1, 4), (4, 1), (8, 2), (2, 8)])
    em = r.random() < 0.6
    nf = r.choice([1, 1, 2, 3, 4])
    stopped = r.random() < 0.15  # an interrupted last frame that is moved
    if stopped:
        c["w"], c["h"] = r.choice([(2, 4), (4, 2), (4, 4), (2, 2)])
    tail = (stopped or r.random() < 0.4) and c["h"] * c["w"] > 1
    words = []
    for k in range(nf + tail):
        complete = k < nf
        f = gen_frame(r, c, em, complete)
        words += f
    if r.random() < 0.2:  # words of other kinds are not data
        words.insert(r.randrange(len(words)), (r.choice([6, 12, 15]), r.randrange(4096)))
    c["sweep"] = r.choice([nf, nf, nf, nf + 1, max(1, nf - 1), 16])
    c["rebin"] = r.choice([1, 2, 4, 256, 4096, 1024, 3 if r.random() < 0.1 else 512])
    c["dsx"] = r.choice([1, 1, 1, 2, 4])
    c["dsy"] = r.choice([c["dsx"], c["dsx"], 1, 2, 4])
    c["sumf"] = r.random() < 0.5
    c["valid"] = r.random() < 0.7
    c["flist"], c["shifts"] = [], []
    # frames the stream really holds
    n = nf + tail
    if r.random() < 0.4:
        c["flist"] = r.sample(range(n), r.randrange(1, n + 1))
        if r.random() < 0.2:
            c["flist"].insert(0, r.choice([-1, c["sweep"] + 3]))
        if not any(0 <= i <= c["sweep"] for i in c["flist"]):
            c["flist"] = [0]
    if stopped:
        c.update(sumf=r.random() < 0.8, valid=r.random() < 0.9, sweep=nf, flist=[], dsx=1, dsy=1)
    wd, hd = c["w"] // c["dsx"], c["h"] // c["dsy"]
    if (stopped or r.random() < 0.4) and min(wd, hd) >= 2 and c["w"] % c["dsx"] == 0 and c["h"] % c["dsy"] == 0:
        m = r.choice([n, n, n, n + 1, c["sweep"] + 1])
        k = min(wd, hd) - 1
        c["shifts"] = [[r.randrange(-k, 1), r.randrange(0, k + 1), r.choice([0, 0, 1, -2])] for _ in range(m)]
        if r.random() < 0.5:
            c["shifts"] = [[0, 0, 0] if r.random() < 0.5 else s for s in c["shifts"]]
        if not any(0 <= i < min(m, c["sweep"] + 1) for i in (c["flist"] or [0])):
            c["shifts"] = []
    e = {"c": c}
    e["shn"] = 3
    if c["shifts"] and r.random() < 0.5:
        e["shn"] = 2
        c["shifts"] = [s[:2] + [0] for s in c["shifts"]]
    e["words"] = [k * 4096 + v for k, v in words]
    e["em"] = r.random() < 0.6
    e["dtype"] = r.choice(["uint8", "uint8", "uint16", "uint32", "int16", "int8"])
    e["dtarg"] = r.random() < 0.3
    e["maxval"] = min(int(np.iinfo(e["dtype"]).max), 2**31 - 1)
    if e["maxval"] < 256 and r.random() < 0.15:  # many counts at one place
        i = r.randrange(1, len(e["words"]) + 1)
        e["words"][i:i] = [11 * 4096 + 9] * (e["maxval"] + r.choice([-1, 0, 0, 1]))
    e["coefa"], e["coefb"], e["digz"] = r.choice([10000, 20000]), r.choice([0, -1500]), r.choice([0, 3, 96])
    c["cut"], e["cutkv"] = -1, None
    if r.random() < 0.3 and 4096 % c["rebin"] == 0:
        ch = r.randrange(1, 4096 // c["rebin"] + 1)
        c["cut"] = ch
        e["cutkv"] = (e["coefb"] - e["coefa"] * e["digz"] + ch * e["coefa"] * c["rebin"]) * 1e-6
    e["mag"], e["kv"] = r.choice([100, 5000]), r.choice([15, 30, 31, 200])
    e["field"] = r.choice([64000000, 32000])
    e["dwell"] = r.choice([1, 5])
    e["extra"] = extra(r)
    e["scalar"] = r.random() < 0.5
    e["sharr"] = r.random() < 0.5
    e["index"] = "again" if r.random() < 0.25 else "none"
    e["idxat"] = r.randrange(min(n, c["sweep"] + 1))
    return e


def run(ctx):
    for n, w, h, m in [(2, 2, 1, 3), (2, 1, 2, 4), (4, 2, 2, 3)] if ctx.quick else [(2, 2, 2, 5), (4, 2, 2, 4), (2, 1, 1, 5)]:
        ctx.model_check(
            "JeolStreamMC",
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS MachineIsFold EventsConserved ImageConserved "
            f"InBounds SumOfFrames Blocks Selection ValidIsSubset\nCONSTANTS N={n} W={w} H={h} MaxLen={m}\n",
        )
    es = [gen(ctx.rng) for _ in range(250 if ctx.quick else 3000)]
    es = [dict(e, lazy=z) for e in es for z in (False, True)]
    d = ctx.dir()

    def one(k):
        e = es[k]
        e = dict(e, fn=os.path.join(d, f"f{k}.pts"))
        jeol.build(e["fn"], e)
        o = observe(read, e)
        os.unlink(e["fn"])
        return o

    obs = pmap(one, range(len(es)), procs=8, timeout=120)
    tr = []
    for e, o in zip(es, obs):
        t = {k: e[k] for k in ("c", "words", "em", "dtype", "maxval", "coefa", "coefb", "digz", "field", "dwell", "kv", "lazy", "index")}
        t["tags"] = {k: plain(v) for k, v in e["extra"].items()}
        t["obs"] = o
        tr.append(t)
    judge(ctx, "JeolStreamTrace", tr, lambda e: f"jeol-{'lazy' if e['lazy'] else 'eager'}")
