"""TIA .ser/.emi files (spec: SerFile*.tla)."""
import os
import shutil

import numpy as np

from ..pmap import observe, pmap
from ..synth import ser
from .c10 import judge

LEVEL = "model_checking"


def num(v):
    """One calibration value in units of 1e-9, for each possible rescaling."""
    v = float(v)

    def r(x):
        x = round(x)
        return int(x) if abs(x) < 2**31 else -(2**31) + 1

    return {"n9": r(v), "n0": r(v * 1e9), "p9": r(v * 1e18)}


def sig(d, lazy):
    a = d["data"]
    assert type(a).__module__.startswith("dask") == lazy, "laziness"
    dt, sh = a.dtype, a.shape
    if lazy:
        a = a.compute()
    if a.dtype != dt or a.shape != sh:
        dt = np.dtype("S9")
    fl = [-999 if np.isnan(x) else int(x.real) for x in a.ravel()]
    om = d["original_metadata"]
    oi = om.get("ObjectInfo", {})
    g = d["metadata"]["General"]
    st = oi.get("ExperimentalDescription", {}).get("Stage A_deg", -1)
    return {
        "shape": [int(i) for i in a.shape], "flat": fl, "dtype": dt.name,
        "axes": [
            {"size": int(x["size"]), "name": "null" if x["name"] is None else x["name"],
             "units": "null" if x["units"] is None else x["units"],
             "scale": num(x["scale"]), "offset": num(x["offset"]), "navigate": bool(x["navigate"])}
            for x in d["axes"]
        ],
        "om_valid": int(om["ser_header_parameters"]["ValidNumberElements"]),
        "uuid": str(oi.get("Uuid", "")), "stage": int(float(st)), "date": g.get("date", "") + "T" + g.get("time", ""),
    }


def read(e, d):
    from rsciio.tia import file_reader

    kw = {"lazy": e["lazy"], "only_valid_data": e["onlyvalid"]}
    if e["ev"] != "emi":
        fn = os.path.join(d, "a.ser")
        ser.build(fn, e["c"])
        return {"sigs": [sig(s, e["lazy"]) for s in file_reader(fn, **kw)]}
    p = os.path.join(d, e["name"])
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p + ".emi", "wb") as f:
        f.write(b"\x00\xffjunk")
        for c in e["cs"]:
            f.write(b"\x01\x02" + ser.emi_object(c).encode() + b"\r\nrest")
    for i, c in enumerate(e["cs"]):
        ser.build(f"{p}_{i + 1}.ser", c)
    # files of another .emi file with a similar name
    ser.build(f"{p}_b_1.ser", e["cs"][0])
    return {"sigs": [sig(s, e["lazy"]) for s in file_reader(p + ".emi", **kw)]}


def dim(r, size, units=("meters", "", "s", "1/meters")):
    u = r.choice(units)
    m = {"meters": 1, "1/meters": 10**9 // 10**9}.get(u, 1)
    return {"size": size, "off": r.choice([0, 0, 3, -7]) * m, "delta": r.choice([1, 2, 5]) * m, "elem": r.choice([0, 0, 0, 4]),
            "units": u, "desc": r.choice(["", "Position", "Number"])}


def gen(r, onlyvalid):
    c = {"kind": r.choice(["spectrum", "image"]), "h": r.choice([1, 2, 3, 4]), "w": r.choice([1, 2, 3, 5])}
    nd = r.choice([1, 1, 2])
    c["dims"] = [dim(r, r.choice([1, 1, 2, 3, 4])) for _ in range(nd)]
    c["total"] = int(np.prod([d["size"] for d in c["dims"]]))
    c["valid"] = c["total"] if r.random() < 0.55 else r.randrange(0 if r.random() < 0.1 else 1, c["total"] + 1)
    c["dtype"] = r.choice(list(ser.TYPES))
    c["float"] = c["dtype"] in ("float32", "float64")
    c["mod"] = 127 if c["dtype"] in ("uint8", "int8") else 30000
    c["base"] = r.choice([0, 1, 90, 500])
    c["tag"] = r.choice(["xy", "xy", "time"])
    fast = r.random() < 0.6
    n = c["total"]
    x0 = c["dims"][0]["size"]
    if fast:
        c["xpos"], c["ypos"] = [k % x0 for k in range(n)], [k // x0 for k in range(n)]
    else:
        x1 = c["dims"][-1]["size"]
        c["ypos"], c["xpos"] = [k % x1 for k in range(n)], [k // x1 for k in range(n)]
    c["sx"], c["sy"] = dim(r, 0), dim(r, 0)
    c["version"] = r.choice([528, 544])
    c["gap"] = r.choice([0, 0, 5])
    c["arrayfirst"] = r.random() < 0.4
    c["mode"], c["camera"], c["uuid"], c["stage"], c["date"] = "none", False, "", -1, "T"
    c["onlyvalid"] = onlyvalid
    return c


def gen_emi(r):
    ov = r.random() < 0.7
    n = r.choice([1, 1, 2, 3, 11])
    cs = [gen(r, ov) for _ in range(n)]
    for c in cs:
        # descriptions of stacks: no units for the first dimension
        c["sx"]["off"], c["sy"]["off"] = 0, 0
    mode, cam = r.choice(["STEM", "Diffraction", "TEM", "none"]), r.random() < 0.5
    for i, c in enumerate(cs):
        c["uuid"] = f"u{i}"
        c["stage"] = 10 + i
        c["date"] = f"Fri Oct 0{1 + i % 8} 15:57:06 2010"
        # the first object describes how all of them were acquired
        c["mode"], c["camera"] = mode, cam
    return {"ev": "emi", "cs": cs, "lazy": r.random() < 0.5, "onlyvalid": ov, "date": "2010-10-01T15:57:06",
            "name": r.choice(["a", "b c", "s[1]", "x.y", "d1/q*"])}


def run(ctx):
    ctx.model_check(
        "SerFileMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS AllRecorded NoFill Complete Rows AxisPerDim\n"
        f"CONSTANTS MaxSize={4 if ctx.quick else 7}\n",
    )
    r = ctx.rng
    es = []
    for k in range(500 if ctx.quick else 5000):
        ov = r.random() < 0.6
        es.append({"ev": "ser", "c": gen(r, ov), "lazy": r.random() < 0.5, "onlyvalid": ov})
    es += [gen_emi(r) for _ in range(80 if ctx.quick else 800)]
    # the dimensions are not recorded: they are those of the positions
    for k in range(3):
        c = gen(r, True)
        c.update(kind="spectrum", tag="xy", valid=6, total=6, dims=[], xpos=[[0, 1, 2, 0, 1, 2], list(range(6)), [0] * 6][k],
                 ypos=[[0, 0, 0, 1, 1, 1], [0] * 6, list(range(6))][k])
        es.append({"ev": "nodims", "c": c, "lazy": False, "onlyvalid": True})
    d = ctx.dir()

    def one(k):
        dd = os.path.join(d, str(k))
        os.makedirs(dd)
        o = observe(read, es[k], dd)
        shutil.rmtree(dd, ignore_errors=True)
        return o

    obs = pmap(one, range(len(es)), procs=8, timeout=60)
    tr = [dict(e, obs=o) for e, o in zip(es, obs)]
    judge(ctx, "SerFileTrace", tr, lambda e: f"tia-{e['ev']}{'-lazy' if e['lazy'] else ''}", chunk=10**6)
