"""Gatan DM3/DM4 files (spec: DmTags*.tla)."""
import os

import numpy as np

from ..pmap import observe, pmap
from ..synth import dm
from .c10 import judge

LEVEL = "model_checking"
NAMES = ["a", "Exposure (s)", "x.y", "Meta", "Name", "Voltage", "é", "Data", "Tags at creation", "p.q.r", "TagGroupX", "m n"]
ELEM = {1: "i2", 2: "f4", 6: "c", 7: "i4", 8: "i4", 9: "i1", 10: "u2", 11: "u4", 12: "f8", 14: "b", 23: "i4", 27: "f4",
        28: "f8", 5: "f4", 3: "f4,f4", 13: "f8,f8"}
NPT = {1: "i2", 2: "f4", 6: "u1", 7: "i4", 9: "i1", 10: "u2", 11: "u4", 12: "f8", 14: "u1", 5: "f4"}


def enc(x):
    if isinstance(x, (bool, np.bool_)):
        return f"b:{int(x)}"
    if isinstance(x, (int, np.integer)):
        return f"i:{int(x)}"
    if isinstance(x, (float, np.floating)):
        return f"f:{float(x)!r}"
    if isinstance(x, bytes):
        return "y:" + x.hex()
    if isinstance(x, str):
        return "s:" + x
    if isinstance(x, tuple):
        return "t(" + ",".join(map(enc, x)) + ")"
    if isinstance(x, list):
        return "l(" + ",".join(map(enc, x)) + ")"
    return "?" + type(x).__name__


def want(k, v):
    """What the value of a tag of type k is in the metadata."""
    k, _, arg = k.partition(":")
    if k in ("i2", "i4", "u2", "u4", "i1", "i8", "u8", "b"):
        return f"i:{v}"
    if k in ("f4", "f8"):
        return f"f:{float(v)!r}"
    if k == "c":
        return "y:" + v.hex()
    if k == "str":
        return "s:" + v
    if k == "arr":
        if arg == "u2":
            return "s:" + v if v else "l()"
        return "l(" + ",".join(want(arg, x) for x in v) + ")"
    if k == "struct":
        return "t(" + ",".join(want(t, x) for t, x in zip(arg.split(","), v)) + ")"
    if k == "astruct":
        return "l(" + ",".join(want("struct:" + arg, x) for x in v) + ")"
    if k == "astr":
        return "l(" + ",".join("s:" + x for x in v) + ")"
    if k == "aarr":
        return "l(" + ",".join(want("arr:" + arg, x) for x in v) + ")"
    raise ValueError(k)


def flat(d, path=()):
    out = []
    for k, v in d.items():
        p = path + (k,)
        if isinstance(v, dict):
            out += flat(v, p) if v else [{"p": list(p), "v": "{}"}]
        else:
            out.append({"p": list(p), "v": enc(v)})
    return out


def nodes(e, tags, d=0, parent=""):
    """The tags in the order of the file, with the depth of each."""
    out = []
    for n in tags:
        m = {"d": d, "nm": n["name"].split("."), "k": n["k"] if n["k"] == "g" else "l", "v": "", "n": 0}
        out.append(m)
        if n["k"] == "g":
            out += nodes(e, n["c"], d + 1, n["name"])
            continue
        if n["name"] == "Data" and parent == "ImageData":  # its description only
            m["k"] = "g"
            for a, b in (("size", n["n"]), ("endian", "little" if e["little"] else "big"), ("size_bytes", n["nbytes"]),
                         ("offset", n["offset"])):
                out.append({"d": d + 1, "nm": [a], "k": "l", "v": enc(b), "n": 0})
            continue
        m["v"] = want(n["k"], n["v"])
        if n["k"] in ("f4", "f8"):
            m["n"] = int(n["v"] * 8)
        elif n["k"] in ("i4", "u4", "u2", "i2"):
            m["n"] = int(n["v"])
    return out


def num(x, f):
    x = float(x) * f
    return int(x) if x == int(x) and abs(x) < 2**31 else -(2**31) + 1


def elems(a):
    if a.dtype.names:
        return [int(x["R"]) + 64 * int(x["G"]) + 4096 * int(x["B"]) + 262144 * int(x["A"]) for x in a.ravel()]
    if a.dtype.kind == "c":
        return [int(x.real) * 1000 + int(x.imag) for x in a.ravel()]
    return [int(x) for x in a.ravel()]


def read(e, fn):
    from rsciio.digitalmicrograph import file_reader

    kw = {"lazy": e["lazy"]}
    if e["order"]:
        kw["order"] = e["order"]
    if e["chunks"]:
        kw["chunks"] = e["chunks"]
    out = []
    for s in file_reader(fn, **kw):
        a = s["data"]
        assert type(a).__module__.startswith("dask") == e["lazy"], "laziness"
        dt, sh = a.dtype, a.shape
        if e["lazy"]:
            a = np.asarray(a.compute())
        if a.dtype != dt or a.shape != sh:
            dt = np.dtype("S9")
        md = s["metadata"]
        out.append({
            "shape": [int(i) for i in a.shape], "elems": elems(a), "dtype": "rgba" if dt.names else dt.name,
            "om": flat(s["original_metadata"]),
            "title": md["General"]["title"], "signal": md["Signal"]["signal_type"], "filename": md["General"]["original_filename"],
            "to_spectrum": len(s["post_process"]),
            "axes": [{"name": "null" if x["name"] is None else x["name"], "units": x["units"], "size": int(x["size"]),
                      "index": int(x["index_in_array"]), "navigate": bool(x["navigate"]), "scale8": num(x["scale"], 8),
                      "offset64": num(x["offset"], 64)} for x in s["axes"]],
        })
    return {"sigs": out}


def leaf(r, name, deep=True):
    k = r.choice(["i2", "i4", "u2", "u4", "f4", "f8", "b", "c", "i1", "i8", "u8", "str", "arr:u2", "arr:u2", "arr:i4", "arr:f8",
                  "struct:i4,f4", "struct:u2", "astruct:i2,f8", "arr:i1", "arr:u2", "astr", "aarr:i4", "arr:u8"])
    ar = k.partition(":")[2]

    def one(t):
        if t in ("f4", "f8"):
            return r.choice([0.0, 0.125, -2.5, 1e6, 3.0])
        if t == "c":
            return bytes([r.randrange(1, 255)])
        if t == "b":
            return r.randrange(2)
        lo, hi = {"i1": (-128, 127), "i2": (-(2**15), 2**15 - 1), "u2": (0, 2**16 - 1), "i4": (-(2**31), 2**31 - 1),
                  "u4": (0, 2**32 - 1), "i8": (-(2**63), 2**63 - 1), "u8": (0, 2**64 - 1)}[t]
        return r.choice([lo, hi, 0, 1, 5, r.randint(lo, hi)])

    if k in dm.CODE:
        v = one(k)
    elif k == "str":
        v = r.choice(["", "abc", "a b", "%%%%"])
    elif k == "arr:u2":
        v = r.choice(["", "x", "eV", "Hello world", "µm", "日本"])
    elif k.startswith("arr:"):
        v = [one(ar) for _ in range(r.choice([0, 1, 3, 5]))]
    elif k.startswith("struct:"):
        v = [one(t) for t in ar.split(",")]
    elif k.startswith("astruct:"):
        v = [[one(t) for t in ar.split(",")] for _ in range(r.choice([0, 1, 3]))]
    elif k == "astr":
        v = r.choice([["ab", "cd"], ["x"]])
    else:
        n = r.choice([1, 2, 3])
        v = [[one(ar) for _ in range(n)] for _ in range(r.choice([1, 2, 4]))]
    n = {"name": name, "k": k, "v": v}
    if name == "é" and r.random() < 0.5:
        n["enc"] = "latin-1"
    return n


def group(r, depth):
    c, used = [], set()
    for _ in range(r.choice([0, 1, 2, 4])):
        name = r.choice(NAMES + [""] * 6)
        if name and name.replace(".", "") in used:
            continue
        used.add(name.replace(".", ""))
        if depth and r.random() < 0.4:
            c.append({"name": name, "k": "g", "c": group(r, depth - 1)})
        else:
            c.append(leaf(r, name))
    return c


def G(name, c):
    return {"name": name, "k": "g", "c": c}


def S(name, v):
    return {"name": name, "k": "arr:u2", "v": v}


def image(r, e, kind=None):
    dt = kind or r.choice(list(ELEM))
    shape = [r.choice([1, 2, 3, 4]) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))]
    if dt in (27, 28):
        shape = [r.choice([1, 2, 3]), r.choice([2, 3, 4, 5])]
    if dt == 5:
        shape = [r.choice([2, 4, 6])] * 2
    bo = "<" if e["little"] else ">"
    base = r.randrange(50)
    n = int(np.prod(shape))
    if dt in (27, 28):
        n = shape[0] * (shape[1] // 2 + 1)
    v = (np.arange(n) + base) % 60
    if dt in (3, 13):
        data = np.stack([v, v + 1], 1).astype(bo + ("f4" if dt == 3 else "f8"))
        d = {"name": "Data", "k": "astruct:" + ELEM[dt], "v": data.tobytes(), "n": n}
    elif dt in (27, 28):
        data = np.stack([v, v + 1], 1).astype(bo + ("f4" if dt == 27 else "f8"))
        d = {"name": "Data", "k": "arr:" + ELEM[dt], "v": data.tobytes(), "n": 2 * n}
    elif dt in (8, 23):
        data = np.stack([v, (v + 1) % 60, (v + 2) % 60, (v + 3) % 60], 1).astype("u1")
        d = {"name": "Data", "k": "arr:i4", "v": data.tobytes(), "n": n}
    else:
        if dt == 14:
            v = v % 2
        d = {"name": "Data", "k": "arr:" + ELEM[dt], "v": v.astype(bo + NPT[dt][0] + NPT[dt][1]).tobytes(), "n": n}
    sig = r.choice(["", "", "EELS", "X-ray", "CL", "Other"])
    ft = r.choice(["", "", "Spectrum image", "Spectrum", "Image"])
    tags = group(r, 2)
    tags = [t for t in tags if t["name"] not in ("Meta", "Data")]
    md = []
    if ft:
        md.append(S("Format", ft))
    if sig:
        md.append(S("Signal", sig))
    if md or r.random() < 0.3:
        tags.append(G("Meta Data", md))
    if r.random() < 0.15:
        tags.append(G("spim", [G("eels", [leaf(r, "a")])] if r.random() < 0.5 else [leaf(r, "b")]))
    if r.random() < 0.1:
        tags.append(G("Acquisition", [G("Monarc Spectrometer", [leaf(r, "PMT HV")])]))
    r.shuffle(tags)
    cal = []
    for _ in shape[: len(shape) if r.random() < 0.8 else r.randrange(len(shape)) + 1]:
        cal.append(G("", [{"name": "Origin", "k": "f4", "v": r.choice([0.0, 1.0, -2.5, 16.0])},
                          {"name": "Scale", "k": "f4", "v": r.choice([1.0, 0.125, -0.5, 3.0])},
                          S("Units", r.choice(["", "eV", "keV", "nm", "µm", "1/nm"]))]))
    idata = [
        G("Calibrations", [G("Brightness", [{"name": "Origin", "k": "f4", "v": 0.0}, {"name": "Scale", "k": "f4", "v": 1.0},
                                            S("Units", r.choice(["", "e-"]))]), G("Dimension", cal)]),
        d,
        {"name": "DataType", "k": "u4", "v": dt},
        G("Dimensions", [{"name": "", "k": "u4", "v": s} for s in shape[::-1]]),
        {"name": "PixelDepth", "k": "u4", "v": 4},
    ]
    if r.random() < 0.3:
        idata = idata[::-1]
    c = [G("ImageData", idata), G("ImageTags", tags)]
    if r.random() < 0.8:
        c.append(S("Name", r.choice(["", "Image A", "été"])))
    if r.random() < 0.4:
        c += [leaf(r, "Extra"), G("UniqueID", [{"name": "", "k": "u4", "v": 7}, {"name": "", "k": "u4", "v": 8}])]
    r.shuffle(c)
    return {"tag": G("", c), "img": {"dt": dt, "base": base, "stored": n}}


def gen(r):
    e = {"ev": "dm", "version": r.choice([3, 4]), "little": r.random() < 0.75, "lazy": r.random() < 0.4,
         "order": r.choice(["", "", "", "C", "F"]), "chunks": ""}
    ims = [image(r, e) for _ in range(r.choice([1, 1, 2, 2, 3, 12]))]
    n = len(ims)
    if e["lazy"]:
        ims = [i if i["img"]["dt"] not in (8, 23) else image(r, e, 10) for i in ims]
    th = r.sample(range(n), r.choice([0, 0, 1, 1, 2]) if n > 2 else r.choice([0, 1]) if n > 1 else 0)
    tags = group(r, 2)
    tags = [t for t in tags if t["name"] not in ("ImageList", "Thumbnails", "root")]
    tags.append(G("ImageList", [i["tag"] for i in ims]))
    if th or r.random() < 0.3:
        tags.append(G("Thumbnails", [G("", [{"name": "ImageIndex", "k": "u4", "v": k}, {"name": "SourceSize", "k": "u4", "v": 1}])
                                     for k in th]))
    r.shuffle(tags)
    e["tags"], e["imgs"] = tags, [i["img"] for i in ims]
    return e


def run(ctx):
    ctx.model_check(
        "DmTagsMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Agree NamesUnique\n"
        f"CONSTANTS MaxTags={4 if ctx.quick else 5}\n",
    )
    r = ctx.rng
    es = [gen(r) for _ in range(400 if ctx.quick else 5000)]
    d = ctx.dir()
    for k, e in enumerate(es):
        e["fn"] = os.path.join(d, f"f{k}.dm{e['version']}")
        e["name"] = os.path.basename(e["fn"])
        dm.build(e["fn"], e)
        e["nodes"] = nodes(e, e["tags"])

    def one(k):
        o = observe(read, es[k], es[k]["fn"])
        os.remove(es[k]["fn"])
        return o

    obs = pmap(one, range(len(es)), procs=8, timeout=60)
    tr = [dict({k: v for k, v in e.items() if k not in ("tags", "fn")}, obs=o) for e, o in zip(es, obs)]
    judge(ctx, "DmTagsTrace", tr, lambda e: f"dm{'-lazy' if e['lazy'] else ''}", chunk=10**6)
