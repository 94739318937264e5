"""Spectra of optical instruments: LabSpec, HPD-TA, TriVista (spec: Spectra*.tla)."""
import os
import struct
from xml.sax.saxutils import escape, quoteattr

import numpy as np

from ..pmap import observe, pmap
from .c10 import judge

LEVEL = "model_checking"


def milli(x):
    return int(round(float(x) * 1000))


def dec(n):
    """thousandths as a decimal number"""
    s = f"{abs(n) // 1000}.{abs(n) % 1000:03d}".rstrip("0").rstrip(".")
    return ("-" if n < 0 else "") + s


def tagged(v):
    if isinstance(v, (bool, np.bool_)):
        return f"b:{bool(v)}"
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (tuple, list)):
        return "t:" + ",".join(tagged(x) for x in v)
    return f"n:{milli(v)}"


def leaves(d, p=()):
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out += leaves(v, (*p, k))
        else:
            out.append({"p": [*p, k], "v": tagged(v)})
    return out


def axes(D):
    out = []
    for i, a in enumerate(D["axes"]):
        assert a["index_in_array"] == i or len(D["axes"]) == 1, a
        x = {"name": a["name"], "units": a["units"], "nav": bool(a["navigate"]), "axis": []}
        if "axis" in a:
            x.update(size=len(a["axis"]), off=0, scale=0, axis=[milli(v) for v in a["axis"]])
        else:
            x.update(size=int(a["size"]), off=milli(a["offset"]), scale=milli(a["scale"]))
        out.append(x)
    return out


def data(D):
    return {"shape": list(D["data"].shape), "flat": [int(round(float(v))) for v in D["data"].ravel()]}


def ramp(r, n, uniform, least=1):
    """n increasing numbers"""
    if uniform:
        a, b = r.randrange(100, 500) * 1000, r.choice([125, 500, 1000])
        return [a + i * b for i in range(n)]
    out = [r.randrange(100, 500) * 1000]
    while len(out) < n:
        out.append(out[-1] + r.randrange(1, 20) * 125)
    return out


# ------------------------------------------------------------------ LabSpec
TEXTS = ["Range", "Autofocus", "SWIFT", "AutoExposure", "Spike filter", "Readout mode", "DeNoise", "ICS correction", "Dark correction", "Inst. Process", "Instrument", "Detector", "Laser. Pol.", "Raman. Pol.", "StageXY", "extra"]
NUMS = ["Acq. time (s)", "Accumulations", "Delay time (s)", "Binning", "Detector temperature (°C)", "Hole", "Laser Pol. (°)", "Raman Pol. (°)", "X (µm)", "Y (µm)", "Z (µm)", "Full time(s)", "Windows"]
SECOND = ["Objective", "Grating", "ND Filter", "Laser (nm)", "Spectro (nm)"]


def el(id, text, kids=""):
    return f'<LSX Format="7" ID="{id}">{escape(text)}{kids}</LSX>'


def gen_lab(r):
    e = {"kind": "labspec", "bad": "", "fname": r.choice(["a b.xml", "spec.xml"]), "uniform": r.random() < 0.3}
    n2, n1 = r.choice([(1, 1), (1, 1), (1, r.randrange(2, 5)), (r.randrange(2, 5), 1), (r.randrange(2, 5), r.randrange(2, 5))])
    m = r.choice([2, 3, 5, 8]) if e["uniform"] else r.choice([1, 2, 3, 5, 8])
    e["w"] = ramp(r, m, e["uniform"])
    if r.random() < 0.5:
        e["w"].reverse()
    e["rows"] = [[r.randrange(10000) for _ in range(m)] for _ in range(n1 * n2)]
    names = r.choice([["X", "Y"], ["Y", "X"]])
    for k, n, name in (("nav1", n1, names[0]), ("nav2", n2, names[1])):
        a, b = r.randrange(-50, 50) * 100, r.choice([-500, 250, 1000, 1])
        e[k] = {"name": name, "units": "µm", "a": [a + i * b for i in range(n)]}
    e["units"] = r.choice(["nm", "1/cm", "1/cm/abs", "eV"])
    e["qtype"], e["qunits"] = r.choice(["Intens", "Phase"]), r.choice(["Cnt", "Cnt/sec", "a.u."])
    e["title"], e["angle"] = r.choice(["ev21738_1", "é"]), r.choice([-1, -1, 0, 785, 1571])
    e["date"], e["time"] = "27.06.2022", "16:36:48"
    e["notes"], e["sample"] = r.choice(["", "PL"]), r.choice(["", "test", "a & b"])
    e["set"] = []
    for k in r.sample(TEXTS + NUMS + SECOND, r.randrange(0, 35)):
        s = {"k": k, "t": "", "n": 0, "n2": 0}
        if k in TEXTS:
            s["t"] = r.choice(["Off", "Visible", "10", "a < b"])
        elif k in NUMS:
            s["n"] = r.choice([-1000, 1500, 30000, 100000, 0]) if k != "Hole" else r.choice([100000, 50000])
            if k in ("Accumulations", "Windows"):
                s["n"] = r.randrange(1, 9) * 1000
            if k == "Acq. time (s)":
                s["n"] = r.choice([500, 1000, 30000])
            s["t"] = dec(s["n"])
        else:
            s["n2"] = r.choice([100000, 1800000, 632800, 10000, 100])
            s["t"] = r.choice(["x100", dec(s["n2"]) + " gr/mm", "633 "])
        e["set"].append(s)
    for k in ("Hole", "ND Filter"):
        if r.random() < 0.6 and all(s["k"] != k for s in e["set"]):
            e["set"].append({"k": k, "t": "100", "n": 100000, "n2": 10000})
    e["info"] = [{"k": k, "v": "s:" + v} for k, v in (("Sample", e["sample"]), ("Remark", e["notes"]), ("Project", "A")) if v]
    body = "".join(el("0x1", "", el("0x6D6D616E", s["k"]) + el("0x7D6C61DB", s["t"]) + (el("0x8736F70", dec(s["n2"]) if s["k"] in SECOND else "7") if s["k"] in SECOND or r.random() < 0.3 else "")) for s in e["set"])
    info = "".join(el("0x2", "", el("0x6D6D616E", s["k"]) + el("0x7D6C61DB", s["v"][2:])) for s in e["info"])
    lst = lambda a: "\n" + " ".join(dec(x) for x in a) + " \n"  # noqa: E731
    nav = lambda i, n: el(i, "", el("0x7D6CD4DB", lst(n["a"])) + el("0x6D707974", n["name"]) + el("0x7C696E75", n["units"]))  # noqa: E731
    ax = el("0x0", "", el("0x6D707974", e["qtype"]) + el("0x7C696E75", e["qunits"])) + el("0x1", "", el("0x7D6CD4DB", lst(e["w"])) + el("0x6D707974", "Spectr") + el("0x7C696E75", e["units"]))
    if n1 > 1 or n2 > 1 or r.random() < 0.5:
        ax += nav("0x2", e["nav1"])
        if n2 > 1 or r.random() < 0.6:
            ax += nav("0x3", e["nav2"])
    parts = [el("0x6D707974", "SpIm"), el("0x6C7469D9", e["title"]), el("0x7A74D9D6", "", el("0x7B697861", "", ax)),
             el("0x6C62D4D9", "", el("0x8716361", "", body) + el("0x7C73E2D2", "", info) + el("0x7CECDBD7", "", el("0x0", "", el("0x6D6D616E", "Acquired") + el("0x7D6C61DB", e["date"] + " " + e["time"])))),
             el("0x6DD6C7D0", "65728")]
    if e["angle"] >= 0:
        parts.append(el("0x6C676EC6", "", el("0x0", dec(e["angle"]))))
    r.shuffle(parts)
    rows = "".join(f'<LSX_Row Format="6" Index="{i}" Size="{m}">\n' + " ".join(str(v) for v in q) + " \n</LSX_Row>" for i, q in enumerate(e["rows"]))
    return e, ('<?xml version="1.0" encoding="UTF-8"?><LSX_Data><LSX_Tree Format="9" ID="0x69746164">' + "".join(parts) + f"</LSX_Tree><LSX_Matrix>{rows}</LSX_Matrix></LSX_Data>").encode()


def obs_lab(L, e):
    (D,) = L
    m, om = D["metadata"], D["original_metadata"]
    g, a = m["General"], m["Acquisition_instrument"]
    ang = a.get("Spectral_image", {}).pop("rotation_angle", None)
    if ang is not None:
        assert a["Spectral_image"].pop("rotation_angle_units") == "°"
    return {**data(D), "axes": axes(D), "settings": [{"k": k, "v": tagged(v)} for k, v in om["experimental_setup"].items()], "info": [{"k": k, "v": tagged(v)} for k, v in om["file_information"].items()],
            "instrument": leaves(a), "angle": -1 if ang is None else milli(ang), "quantity": m["Signal"]["quantity"],
            "general": {"title": g["title"], "file": g["original_filename"], "date": g["date"], "time": g["time"], "notes": g.get("notes", ""), "sample": m["Sample"].get("description", "")}}


# ------------------------------------------------------------------ HPD-TA
def gen_ham(r):
    e = {"kind": "hamamatsu", "bad": "", "fname": r.choice(["focus.img", "a b.img"]), "uniform": r.random() < 0.3, "h": r.randrange(2, 6), "w": r.randrange(2, 6)}
    t = r.choice([0, 2, 3])
    e["rows"] = [[r.randrange({0: 2**8, 2: 2**16, 3: 2**31}[t]) for _ in range(e["w"])] for _ in range(e["h"])]
    e["wcal"] = ramp(r, e["w"], e["uniform"]) if r.random() < 0.7 else []
    if r.random() < 0.4:
        e["wcal"].reverse()
    e["tcal"] = ramp(r, e["h"], e["uniform"]) if r.random() < 0.7 else []
    e["wunit"], e["tunit"] = r.choice(["nm", "1/cm"]), r.choice(["us", "ns", "ps"])
    if r.random() < 0.05:
        t, e["bad"] = r.choice([(1, "RuntimeError"), (9, "RuntimeError")])
    raw = np.array(e["rows"]).astype({0: "u1", 2: "<u2", 3: "<u4"}.get(t, "u1")).tobytes()
    n, acc = r.randrange(1, 100), r.choice([1, 2, 3, 4, 7])
    q = lambda v: f'"{v}"'  # noqa: E731
    date = r.choice([("20/01/2023", "2023-01-20"), ("05.11.2021", "2021-11-05")])
    e["title"], e["date"], e["time"] = e["fname"].split(".")[0], date[1], "11:34:55"
    ex = r.choice([("5 s", 5000), ("500 ms", 500), ("0.25 s", 250)])
    unit = r.choice(["Count", "Volt"])
    proc = {k: r.choice(["-1", "0"]) for k in ("CurveCorr", "DefectCorrection", "BacksubCorr", "ShadingCorr")}
    rng = r.choice([("20 us", 20000, "µs"), ("5 ns", 5000, "ns"), ("3", 3000, "")])
    gain = r.randrange(64)
    A = {"NrExposure": str(n), "ExposureTime": ex[0], "AcqMode": str(acc), **proc, "pntBinning": q("2,4"), "ZAxisLabel": "Intensity", "ZAxisUnit": unit, "areSource": q("0,0,672,512")}
    S = {"UseDevice": "-1", "DeviceName": q("C5680"), "Time Range": q(rng[0]), "MCP Gain": q(gain), "Note": q(r.choice(["", "plain", "a, b", "k=v", "a=b, c=d"]))}
    gr = r.choice([("150 g/mm", 150000), ("1200 g/mm", 1200000)])
    G = {"DeviceName": q("Andor SG"), "Grating": q(gr[0]), "Blaze": q("500"), "Ruling": q("150"), "Side Ent. Slitw.": q("20"), "Wavelength": q("480.5")}
    C = {"ScalingXType": "2" if e["wcal"] else "1", "ScalingXUnit": q(e["wunit"]), "ScalingYType": "2" if e["tcal"] else "1", "ScalingYUnit": q(e["tunit"])}
    if not e["bad"] and r.random() < 0.05:
        C[r.choice(["ScalingXType", "ScalingYType"])], e["bad"] = "3", "ValueError"
    e["instrument"] = leaves({"Detector": {"frames": n, "integration_time": ex[1] * n / 1000, "binning": (2, 4), "processing": {"shading_correction": proc["ShadingCorr"] == "-1", "background_correction": proc["BacksubCorr"] == "-1",
        "curvature_correction": proc["CurveCorr"] == "-1", "defect_correction": proc["DefectCorrection"] == "-1"}, "detector_type": "StreakCamera", "model": "C5680", "mcp_gain": gain, "time_range": rng[1] / 1000,
        **({"time_range_units": rng[2]} if rng[2] else {}), "acquisition_mode": {1: "live", 2: "acquire", 3: "photon_counting", 4: "analog_integration"}.get(acc, "Unknown")},
        "Spectrometer": {"Grating": {"blazing_wavelength": 500, "groove_density": gr[1] / 1000}, "model": "Andor SG", "entrance_slit_width": 20, "central_wavelength": 480.5}})
    e["quantity"] = "Intensity (Counts)" if unit == "Count" else "Intensity (Volt)"
    secs = {"Application": {"Enconding": "UTF-8", "Date": q(date[0]), "Time": q("11:34:55.147"), "Software": q("HPD-TA")}, "Acquisition": A, "Streak camera": S, "Spectrograph": G, "Scaling": C,
            "Comment": r.choice([{}, {"UserComment": q("")}, {"UserComment": q("my = comment, really")}])}
    order = list(secs)
    r.shuffle(order)
    for k in order:
        kv = list(secs[k].items())
        r.shuffle(kv)
        secs[k] = dict(kv)

    def comment(pos):
        C["ScalingXScalingFile"] = secs["Scaling"]["ScalingXScalingFile"] = q(f"#{pos[0]:08d},{e['w']:04d}" if e["wcal"] else "No calibration")
        C["ScalingYScalingFile"] = secs["Scaling"]["ScalingYScalingFile"] = q(f"#{pos[1]:08d},{e['h']:04d}" if e["tcal"] else "Focus mode")
        return sep.join(f"[{k}]," + ",".join(f"{a}={b}" for a, b in secs[k].items()) for k in order).encode()

    sep = r.choice(["\r\n", "", "\r\n"])
    pad = r.choice([0, 4, 13])
    n0 = len(comment((0, 0)))
    p0 = 64 + n0 + len(raw) + pad
    first = r.choice([0, 1])
    pos = (p0, p0 + 4 * e["w"]) if first else (p0 + 4 * e["h"], p0)
    c = comment(pos)
    assert len(c) == n0
    e["sections"] = [{"k": k, "v": [{"k": a, "v": b.strip('"')} for a, b in sorted(secs[k].items())]} for k in order]
    e["head"] = {"offset_x": r.randrange(100), "offset_y": r.randrange(100), "num_images_in_channel": r.randrange(2**30), "num_additional_channels": r.randrange(100), "channel_number": r.randrange(100), "timestamp": r.randrange(10**6),
                 "image_width_px": e["w"], "image_height_lines": e["h"], "comment_length": n0, "character_im": "IM"}
    h = e["head"]
    b = b"IM" + struct.pack("<hhhhhhihhd", n0, e["w"], e["h"], h["offset_x"], h["offset_y"], t, h["num_images_in_channel"], h["num_additional_channels"], h["channel_number"], h["timestamp"] / 1000) + b"\0" * 34
    assert len(b) == 64, len(b)
    wb, tb = (np.array([x / 1000 for x in e[k]] or [0] * e[s], "<f4").tobytes() for k, s in (("wcal", "w"), ("tcal", "h")))
    return e, b + c + raw + b"\x55" * pad + (wb + tb if first else tb + wb)


def obs_ham(L, e):
    (D,) = L
    m, om = D["metadata"], D["original_metadata"]
    g = m["General"]
    secs = [{"k": k, "v": [{"k": a, "v": b} for a, b in sorted(v.items())] if isinstance(v, dict) else []} for k, v in om["Comment"].items()]
    h = {k: (v if isinstance(v, str) else milli(v) if k == "timestamp" else int(v)) for k, v in om.items() if k in e["head"]}
    return {**data(D), "axes": axes(D), "sections": secs, "head": h, "instrument": leaves(m["Acquisition_instrument"]), "quantity": m["Signal"]["quantity"],
            "general": {"title": g["title"], "file": g["original_filename"], "date": g["date"], "time": g["time"]}}


# ------------------------------------------------------------------ TriVista
def group(name, items, groups=""):
    it = "".join(f"<Item><Name>{escape(k)}</Name><Value>{escape(str(v))}</Value><IsVisible>true</IsVisible></Item>" for k, v in items)
    return f"<Group><Name>{escape(name)}</Name>" + (f"<Items>{it}</Items>" if it else "<Items />") + (f"<Groups>{groups}</Groups>" if groups else "<Groups />") + "<IsVisible>true</IsVisible></Group>"


def tag(name, attrs, kids=""):
    return f"<{name} " + " ".join(f"{k}={quoteattr(str(v))}" for k, v in attrs.items()) + f">{kids}</{name}>"


def gen_tri(r):
    e = {"kind": "trivista", "bad": "", "fname": r.choice(["map.tvf", "a b.tvf"]), "uniform": r.random() < 0.3, "stack": r.random() < 0.5, "times": [], "children": []}
    mode = r.choice(["spec", "spec", "time", "x", "y", "xy", "xy", "glue", "glue"])
    e["x"], e["y"] = ({"n": r.randrange(1, 5) if c in mode and mode in ("x", "y", "xy") else 0, "from": r.randrange(-500, 500), "step": r.choice([25, 100, -50])} for c in "xy")
    m = r.choice([2, 3, 6])
    e["w"] = ramp(r, m, e["uniform"])
    n = max(1, e["x"]["n"]) * max(1, e["y"]["n"])
    if mode == "time":
        n, dt = r.randrange(2, 6), r.choice([250, 1000, 4000])
        e["times"] = [i * dt for i in range(n)]
    frame = lambda m: [r.randrange(5000) for _ in range(m)]  # noqa: E731
    e["rows"] = [frame(m) for _ in range(n)]
    e["overlap"] = -1
    if mode == "glue":
        e["overlap"] = r.choice([15000, 10500])
        k = r.choice([2, 3])
        e["children"] = [{"w": ramp(r, mm, e["uniform"]), "rows": [frame(mm)]} for mm in [r.choice([2, 4])] * k]
    e["temp"], e["exposure"], e["acc"], e["average"] = r.choice([-25000, -100000]), r.choice([1000, 250, 10000]), r.randrange(1, 4), r.random() < 0.5
    e["center"], e["laser"] = -1, 0
    cal = r.random() < 0.6
    if cal:
        e["center"], e["laser"] = r.choice([820000, 950500]), r.choice([0, 790000, 532100])
    e["label"], e["datalabel"] = r.choice(["Intensity", "I"]), r.choice(["Counts", "a.u."])
    e["title"], e["date"], e["time"] = e["fname"].split(".")[0], "2016-09-29", "12:51:30"
    # hardware
    nspec = r.randrange(1, 4)
    specs = []
    for i in range(nspec):
        gs = [(1800000, "H-VIS"), (900000, "550NM"), (750000, "H-NIR"), (600000, "1000NM")]
        r.shuffle(gs)
        specs.append({"serial": 25580419 + i, "model": r.choice(["SP-2-500i", "SP-2-750i"]), "gratings": gs[: r.randrange(1, 4)]})
    used = r.sample(range(nspec), r.randrange(1, nspec + 1))
    e["used"] = []
    for i in used:
        g = r.choice(specs[i]["gratings"])
        e["used"].append({"model": specs[i]["model"], "groove": g[0], "blaze": int(g[1][:-2]) * 1000 if g[1].endswith("NM") else 0, "blazetext": g[1], "slits": [r.choice([0, 20, 200, 6000, 12000]) for _ in range(4)] if r.random() < 0.8 else []})
    mics = []
    e["magnification"] = -1
    nm = r.choice([1, 2, 2, 2])
    on = r.randrange(nm)
    for i in range(nm):
        obs = [r.choice([100000, 50000, 20500]) for _ in range(r.randrange(1, 4))]
        j = r.randrange(len(obs)) if i == on else -1
        if i == on:
            e["magnification"] = obs[j]
        mics.append(tag("Microscope", {"GUID": i, "Name": f"M{i}"}, tag("Objectives", {"Count": len(obs)}, "".join(tag("Objective", {"IsEnabled": str(q == j), "Name": "o", "Magnification": f"{x / 1000:.3f}"}) for q, x in enumerate(obs)))))
    if r.random() < 0.1:
        mics, e["magnification"] = [], -1
    ndet, nlight = r.randrange(1, 4), r.randrange(0, 4)
    hard = tag("Spectrometers", {"Count": nspec}, "".join(tag("Spectrometer", {"GUID": "g", "Model": s["model"], "Serialnumber": s["serial"]}, tag("Gratings", {"Count": len(s["gratings"])}, "".join(tag("Grating", {"GrooveDensity": f"{g // 1000} g/mm", "Blaze": b}) for g, b in s["gratings"]))) for s in specs))
    hard += tag("Detectors", {"Count": ndet}, "".join(tag("Detector", {"Name": f"Camera{i}", "Size": "1024;1"}) for i in range(ndet)))
    hard += tag("LightSources", {"Count": nlight}, "".join(tag("LightSource", {"Name": f"L{i}"}, tag("Wavelengths", {"Count": 1, "Value_0": r.choice(["0.000", "790.000", "532.100"])} if r.random() < 0.7 else {"Count": 0})) for i in range(nlight)))
    hard += tag("Microscopes", {"Count": len(mics)}, "".join(mics))
    exp = [("Used Setup", "PL")] + ([("Overlap (%)", dec(e["overlap"]))] if mode == "glue" else [])
    info = group("Document", [("Record Time", "x")]) if r.random() < 0.5 else ""
    info += group("Experiment", exp)
    ax = [group(c.upper() + "-Axis", [("From", dec(e[c]["from"])), ("To", "9"), ("Step", dec(e[c]["step"])), ("Points", e[c]["n"])]) for c in "xy" if e[c]["n"]]
    r.shuffle(ax)
    info += "".join(ax)
    sl = ["Slit_Entrance-Front", "Slit_Entrance-Side", "Slit_Exit-Front", "Slit_Exit-Side"]
    info += group("Spectrometers", [], "".join(group("Spectrometer", [("Serialnumber", specs[i]["serial"]), ("Model", u["model"]), ("Groove_Density", f"{u['groove'] // 1000} g/mm")] + list(zip(sl, u["slits"]))) for i, u in zip(used, e["used"])))
    info += group("Detector", [("Name", f"Camera{r.randrange(ndet)}"), ("Detector_Temperature", dec(e["temp"])), ("Exposure_Time_(ms)", e["exposure"]), ("No_of_Accumulations", e["acc"]), ("Calc_Average", str(e["average"])), ("No_of_Frames", n)])
    if cal:
        info += group("Calibration", [("Center_Wavelength", f"{e['center'] / 1000:.3f}"), ("Laser_Wavelength", f"{e['laser'] / 1000:.3f}")])
    if mode == "time":
        info += group("Experiment", [("Mode:", "Intensity Versus Time")])
    info = '<?xml version="1.0" encoding="utf-16"?><Info><Groups>' + info + "</Groups></Info>"
    t0 = 636107505792305679

    def doc(w, rows, kids, more):
        m = len(w)
        a = {"Version": 2, "Label": e["label"], "DataLabel": e["datalabel"], "RecordTime": r.choice(["09/29/2016 12:51:30.867", "09/29/2016 12:51:30"]), **more}
        frames = "".join(f'<Frame xDim="{m}" yDim="1" TimeStamp="{t0 + (e["times"][i] * 10000 if e["times"] else i * 12345)}" Type="Position">' + ";".join(str(v) for v in q) + "</Frame>" for i, q in enumerate(rows))
        return tag("Document", a, '<Comments Count="0" /><Experiment />' + tag("xDim", {"Length": m}, tag("Calibration", {"Unit": "Nanometer", "ValueArray": "|".join([str(m), *(f"{x / 1000:.3f}" for x in w)])}))
                   + tag("yDim", {"Length": 1}) + tag("Data", {"DataType": "Double"}, frames) + tag("Childs", {"Count": len(kids)}, "".join(kids)))

    kids = [doc(c["w"], c["rows"], [], {}) for c in e["children"]]
    x = tag("XmlMain", {"Version": "1.0.1", "FileInfoSerialized": '<?xml version="1.0" encoding="utf-16"?><Info><Groups /></Info>'}, tag("Hardware", {"Version": 2}, hard) + tag("Documents", {"Count": 1}, doc(e["w"], e["rows"], kids, {"InfoSerialized": info})))
    return e, ("<!--TriVista-File.-->\n" + x).encode("utf-8-sig")


def obs_tri(L, e):
    out = []
    for D in L:
        m = D["metadata"]
        g = m["General"]
        out.append({**data(D), "axes": axes(D), "instrument": leaves(m["Acquisition_instrument"]), "quantity": m["Signal"]["quantity"], "general": {"title": g["title"], "file": g["original_filename"], "date": g["date"], "time": g["time"]}})
    return {"signals": out}


GEN = {"labspec": gen_lab, "hamamatsu": gen_ham, "trivista": gen_tri}
OBS = {"labspec": obs_lab, "hamamatsu": obs_ham, "trivista": obs_tri}


def run(ctx):
    ctx.model_check("SpectraMC", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS InPlace Ascends Shape\nCONSTANTS N={3 if ctx.quick else 5}\n")
    k = 1 if ctx.quick else 10
    es = [GEN[f](ctx.rng) for f, n in (("labspec", 300), ("hamamatsu", 300), ("trivista", 300)) for _ in range(n * k)]
    d = ctx.dir()

    def one(i):
        import warnings

        from rsciio.hamamatsu import file_reader as ham
        from rsciio.jobinyvon import file_reader as lab
        from rsciio.trivista import file_reader as tri

        warnings.simplefilter("ignore")
        e, b = es[i]
        dd = os.path.join(d, str(i))
        os.makedirs(dd)
        fn = os.path.join(dd, e["fname"])
        with open(fn, "wb") as f:
            f.write(b)
        try:
            if e["kind"] == "labspec":
                return observe(lambda: obs_lab(lab(fn, use_uniform_signal_axis=e["uniform"]), e))
            if e["kind"] == "hamamatsu":
                return observe(lambda: obs_ham(ham(fn, use_uniform_signal_axes=e["uniform"]), e))
            return observe(lambda: obs_tri(tri(fn, use_uniform_signal_axis=e["uniform"], glued_data_as_stack=e["stack"]), e))
        finally:
            os.remove(fn)
            os.rmdir(dd)

    obs = pmap(one, range(len(es)), procs=8, timeout=60)
    judge(ctx, "SpectraTrace", [dict(e, obs=o) for (e, _), o in zip(es, obs)], lambda e: f"spectra-{e['kind']}", chunk=10**6)
