"""JEOL images, spectra and workspaces (spec: JeolFiles*.tla)."""
import datetime as D
import os
import shutil

import numpy as np

from ..pmap import observe, pmap
from ..synth import jeolfiles as J
from .c10 import judge
from .c16 import when
from .c19 import milli

LEVEL = "model_checking"
NAMES = ["Mode", "State", "x", "SEM", "a b", "Doc", "EDXRF", "Memo", "Calib"]


def text(x):
    if isinstance(x, bytes):
        x = x.decode()
    if isinstance(x, str):
        return x
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    return repr(float(x)) if isinstance(x, (float, np.floating)) else str(int(x))


def val(v):
    if isinstance(v, (list, np.ndarray)):
        return "|".join(text(x) for x in (v if isinstance(v, list) else v.ravel().tolist()))
    return text(v)


def entries(d, p=()):
    out = []
    for k, v in d.items():
        q = [*p, k]
        if q == ["Image", "Bits"]:
            continue
        if isinstance(v, dict):
            out.append({"p": q, "v": "{}"})
            out += entries(v, q)
        else:
            out.append({"p": q, "v": val(v)})
    return out


def leaf(name, type, v):
    return {"name": name, "type": type, "k": "leaf", "v": v if isinstance(v, list) else [v], "kids": []}


def node(name, kids):
    return {"name": name, "type": 0, "k": "node", "v": [], "kids": kids}


def some(r, depth, used=()):
    out = []
    for _ in range(r.randrange(0, 5)):
        k = r.random()
        name = r.choice(NAMES)
        if name in used:
            continue
        if k < 0.1:
            n = dict(leaf(r.choice(["PARAMPAGE", "SAMPLEPAGE"]) + r.choice("01"), 12, r.choice(["SEM", "EDXRF", "x"])), k="page")
        elif k < 0.2:
            t = r.choice([3, 5])
            n = dict(leaf(r.choice(["CountRate", "DeadTime"]), t, (int if t == 3 else float)(r.randrange(100))), k="count")
        elif k < 0.28:
            n = dict(leaf(name, 14, r.randrange(100)), k="index")
        elif k < 0.34:
            n = dict(leaf("Limits", r.choice([3, 4]), [1, 2, 3]), k="limits")
        elif k < 0.5 and depth:
            n = node(name, [])
        else:
            t = r.choice([x for x in J.TYPES if x != 14])
            m = r.choice([1, 1, 1, 2, 5])
            y = J.TYPES[t]
            v = ([r.choice(["a", "b c", "é", "1.5", "Sample\\x"]) for _ in range(m)] if y == "c" else [r.random() < 0.5 for _ in range(m)] if y == "?"
                 else [r.randrange(-800, 800) / 8 for _ in range(m)] if y[0] == "f" else [r.randrange(2 ** {"u1": 8, "u2": 16, "i4": 31}[y]) for _ in range(m)])
            n = leaf(name, t, v)
        if n["k"] in ("node", "page", "count", "index") and depth:
            n["kids"] = some(r, depth - 1)
        out.append(n)
    return out


def spec_tree(ns):
    return [{"name": n["name"], "k": n["k"], "v": [text(x) for x in n["v"]] or ["-"], "kids": spec_tree(n["kids"])} for n in ns]


def days(t):
    return (D.datetime(t["y"], t["m"], t["d"], t["h"], t["mi"], t["s"]) - D.datetime(1899, 12, 30)) / D.timedelta(days=1)


def stamp(t):
    return f"{t['y']:04d}-{t['m']:02d}-{t['d']:02d}T{t['h']:02d}:{t['mi']:02d}:{t['s']:02d}"


def seen(g):
    x = D.datetime.fromisoformat(g["date"] + "T" + g["time"]) + D.timedelta(milliseconds=1)
    return x.replace(microsecond=0).isoformat()


# ------------------------------------------------------------------ images
def gen_img(r, id=None):
    t = when(r, 1950, 2060)
    e = {"kind": "img", "fname": r.choice(["View000_0000000.img", "a b.map", "X.IMG"]), "bad": "", "w": r.randrange(1, 6), "h": r.randrange(2, 6), "kv": r.choice([5, 15, 30, 30.5, 200]),
         "mag": r.choice([100, 2000, 50000]), "title": r.choice(["IMG1", "", "my image"]), "when": stamp(t)}
    e["field"] = r.choice([60, 600, 2400, 120000])  # thousandths of a µm
    y = r.choice([1, 2, 3, 5])
    n = e["w"] * e["h"]
    n = max(2, n + (r.choice([-1, 3]) if r.random() < 0.15 else 0))
    e["bits"] = [r.randrange(200) for _ in range(n)]
    if id is not None:
        e["bits"][0] = id
    im = [leaf("Size", 3, [e["w"], e["h"]]), leaf("Bits", y, e["bits"]), leaf("Created", 5, days(t)), leaf("Title", 12, e["title"])]
    ins = [leaf("AccV", 5, float(e["kv"])), leaf("Mag", r.choice([3, 5]), e["mag"]), leaf("ScanSize", 5, e["field"] / 1000 * e["mag"] / 1000)]
    for L in (im, ins):
        L += some(r, 1, ("Size", "Bits"))
        r.shuffle(L)
    nodes = some(r, 2, ("Image", "Instrument")) + [node("Image", im), node("Instrument", ins)] + some(r, 2, ("Image", "Instrument"))
    b = bytearray(J.img(nodes, r.choice([0, 8, 100])))
    for q in nodes:
        if q["name"] == "Instrument":
            for x in q["kids"]:
                if x["name"] == "Mag":
                    x["v"] = [float(e["mag"]) if x["type"] == 5 else e["mag"]]
    if id is None and r.random() < 0.05:
        b[0], e["bad"] = 51, "empty"
    e["tree"] = spec_tree(nodes)
    e["kv"] = round(e["kv"] * 1000)
    e["w"], e["h"] = int(e["w"]), int(e["h"])
    return e, bytes(b)


def axes(D_):
    return [{"name": x["name"], "size": int(x["size"]), "scale": milli(x["scale"]), "off": milli(x["offset"]), "units": x["units"], "nav": bool(x["navigate"])} for x in D_["axes"]]


def obs_img(L):
    if len(L) == 0:
        return {"n": 0}
    (d,) = L
    m = d["metadata"]
    (mode,) = m["Acquisition_instrument"]
    s, g = m["Acquisition_instrument"][mode], m["General"]
    return {"shape": list(d["data"].shape), "flat": [int(x) for x in d["data"].ravel()], "axes": axes(d), "tree": entries(d["original_metadata"]),
            "md": {"mode": mode, "kv": round(float(s["beam_energy"]) * 1000), "mag": int(s["magnification"]), "title": g["title"], "file": g["original_filename"], "when": seen(g)}}


# ------------------------------------------------------------------ spectra
def gen_eds(r, id=None):
    t = when(r, 1950, 2060)
    e = {"kind": "eds", "fname": r.choice(["View000_0000000.eds", "a b.eds"]), "bad": "", "when": stamp(t)}
    e["counts"] = [r.randrange(2**30) for _ in range(r.choice([1, 2, 16, 40]))]
    if id is not None:
        e["counts"][0] = id
    kh = {"filedate": days(t), "NumCH": len(e["counts"]), "CoefA": r.choice([10, 5, 1250]) / 1000, "CoefB": r.choice([0, -250, 500]) / 1000}
    kp = {"AccKV": r.choice([5.0, 30.0, 30.5, 200.0])}
    e["excluded"] = [r.randrange(90) for _ in range(r.choice([0, 0, 3]))]
    els = []
    for i in range(r.choice([0, 1, 3])):
        z = r.randrange(1, 90)
        els.append({"name": ["O", "Si", "Al"][i], "Z": z, "Roi_min": r.randrange(4000), "Roi_max": r.randrange(4000), "Energy": r.randrange(80) / 8,
                    "lines": [{"e": ["O", "Si", "Al"][i], "l": x, "energy": r.randrange(80) / 8, "Z": z, "detection": r.randrange(9)} for x in ["K", "L", "M"][: r.choice([0, 1, 1, 3])]]})
    q = [{"name": ["SiO2", "Al2O3", "C"][i], "Z": r.randrange(1, 90), **{k: r.randrange(800) / 8 for k in ("Energy", "Mass1 (%)", "Error", "Atom (%)", "Mass2 (%)", "Counts")}}
         for i in range(r.choice([0, 0, 1, 3]))]
    b, h, p = J.eds(r, kh, kp, e["counts"], els, q, e["excluded"])
    h.pop("filedate")
    e["head"], e["par"] = {k: val(v) for k, v in h.items()}, {k: val(v) for k, v in p.items()}
    e["elements"] = [{"name": x["name"], **{k: val(x[k]) for k in ("Z", "Roi_min", "Roi_max", "Energy")},
                      "lines": [{"name": f"{y['e']}_{y['l']}", **{k: val(y[k]) for k in ("energy", "Z", "detection")}} for y in x["lines"]]} for x in els]
    e["quanti"] = [{k: val(v) for k, v in x.items()} for x in q]
    e.update(coefa=milli(kh["CoefA"]), coefb=milli(kh["CoefB"]), kv=milli(kp["AccKV"]), az=milli(p["DirAng"]), el=milli(p["ElevAng"]), det=p["DetT"], res=milli(p["MnKaRES"]), live=milli(h["live time"]))
    return e, b


def obs_eds(L):
    (d,) = L
    m, g = d["metadata"], d["metadata"]["General"]
    (mode,) = m["Acquisition_instrument"]
    s = m["Acquisition_instrument"][mode]
    x = s["Detector"]["EDS"]
    H, F = d["original_metadata"]["Header"], d["original_metadata"]["Footer"]
    return {"shape": list(d["data"].shape), "flat": [int(v) for v in d["data"].ravel()], "axes": axes(d),
            "md": {"mode": mode, "kv": milli(s["beam_energy"]), "az": milli(x["azimuth_angle"]), "el": milli(x["elevation_angle"]), "det": x["detector_type"], "res": milli(x["energy_resolution_MnKa"]),
                   "live": milli(x["live_time"]), "title": g["title"], "file": g["original_filename"], "when": seen(g), "stype": m["Signal"]["signal_type"]},
            "head": {k: val(v) for k, v in H.items() if k != "filedate"}, "par": {k: val(v) for k, v in F["Parameters"].items()},
            "excluded": [int(v) for v in F.get("Excluded elements", [])],
            "elements": [{"name": n, **{k: val(v[k]) for k in ("Z", "Roi_min", "Roi_max", "Energy")}, "lines": [{"name": a, **{k: val(w[k]) for k in w}} for a, w in v["Lines"].items()]}
                         for n, v in F.get("Selected elements", {}).items()],
            "quanti": [{"name": n, **{k: val(w) for k, w in v.items()}} for n, v in F.get("Quanti", {}).items()]}


# ------------------------------------------------------------------ workspaces
def gen_asw(r):
    e = {"kind": "asw", "fname": "proj.asw", "bad": "", "samples": []}
    files, sn, idn = [], [], 0
    for i in range(r.randrange(0, 3)):
        views, vn = [], []
        for j in range(r.randrange(0, 3)):
            fs, fn = [], []
            for k in range(r.randrange(0, 4)):
                ext = r.choice(["img", "eds", "map", "txt", "jpg"])
                parts = [f"Sample{i}", f"0{j}_View", f"View_{k}.{ext}"]
                kids = [leaf("Filename", 12, "\\".join(parts)), leaf("Keyword", 12, "x")] + some(r, 0, ("Filename",))
                if ext in ("img", "map", "eds"):
                    _, b = gen_eds(r, idn) if ext == "eds" else gen_img(r, idn)
                else:
                    b = b"text"
                files.append((parts, b))
                fs.append({"ext": ext, "id": idn, "node": spec_tree(kids)})
                fn.append(node(str(k), kids))
                idn += 1
            views.append(fs)
            vk = [leaf("Memo", 12, "m")]
            if fs or r.random() < 0.5:
                vk.append(node("ViewData", fn))
            vn.append(node(str(j), vk))
        e["samples"].append(views)
        sk = [leaf("Memo", 12, "s")]
        if views or r.random() < 0.5:
            sk.append(node("ViewInfo", vn))
        sn.append(node(str(i), sk))
    nodes = [leaf("Version", 3, 7)]
    if sn or r.random() < 0.5:
        nodes.append(node("SampleInfo", sn))
    nodes += some(r, 1, ("SampleInfo",))
    b = bytearray(J.asw(nodes))
    if r.random() < 0.05:
        b[0], e["bad"] = 1, "ValueError"
    e["tree"] = spec_tree(nodes)
    return e, (bytes(b), files)


def obs_asw(L):
    out = []
    for d in L:
        om = d["original_metadata"]
        out.append({"id": int(d["data"].ravel()[0]), "tree": entries(om["asw"]), "view": entries(om["asw_viewdata"])})
    return {"files": out}


GEN = {"img": gen_img, "eds": gen_eds, "asw": gen_asw}
OBS = {"img": obs_img, "eds": obs_eds, "asw": obs_asw}


def run(ctx):
    ctx.model_check(
        "JeolFilesMC",
        f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Unique Rooted Latest Every NoLimits\nCONSTANTS N={2 if ctx.quick else 3}\n",
    )
    k = 1 if ctx.quick else 10
    es = [GEN[f](ctx.rng) for f, n in (("img", 250), ("eds", 250), ("asw", 120)) for _ in range(n * k)]
    d = ctx.dir()

    def one(i):
        from rsciio.jeol import file_reader

        e, b = es[i]
        dd = os.path.join(d, str(i))
        os.makedirs(dd)
        fn = os.path.join(dd, e["fname"])
        if e["kind"] == "asw":
            b, files = b
            for parts, c in files:
                q = os.path.join(dd, *parts)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as f:
                    f.write(c)
        with open(fn, "wb") as f:
            f.write(b)
        try:
            return observe(lambda: OBS[e["kind"]](file_reader(fn)))
        finally:
            shutil.rmtree(dd, ignore_errors=True)

    obs = pmap(one, range(len(es)), procs=8, timeout=60)
    judge(ctx, "JeolFilesTrace", [dict(e, obs=o) for (e, _), o in zip(es, obs)], lambda e: f"jeol-{e['kind']}", chunk=10**6)
