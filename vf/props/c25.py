"""Renishaw WiRE files (spec: Wdf*.tla)."""
import datetime
import io
import os
import struct

import numpy as np

from ..pmap import observe, pmap
from .c10 import judge
from .c24 import leaves, milli, ramp, tagged

LEVEL = "model_checking"
DTYPES = {"Arbitrary": 0, "X": 3, "Y": 4, "Z": 5, "Temperature": 9, "Time": 11, "FocusTrack_Z": 14, "SpectrumDataChecksum": 16, "BitFlags": 17}
QUANT = {6: "Counts", 7: "Electrons", 17: "Intensity", 0: "Arbitrary"}
SCAN = {0: "Unspecified", 1: "Static", 2: "Continuous", 3: "StepRepeat", 6: "StreamLine", 7: "StreamLineHR", 99: "Unknown"}
MEAS = {0: "Unspecified", 1: "Single", 2: "Series", 3: "Mapping"}


def ticks(s):
    d = datetime.datetime.fromisoformat(s) - datetime.datetime(1601, 1, 1)
    return (d.days * 86400 + d.seconds) * 10**7


# ------------------------------------------------------------------ sets of named values
def nm(r, used):
    while True:
        k = r.randrange(1, 60000)
        if k not in used:
            used.add(k)
            return k


def value(r, key, t=None, v=None):
    """[entry of the model, bytes]"""
    t = t or r.choice("uuisrqw?cbtSRI")
    E = lambda v: {"t": "v", "key": key, "v": v, "sub": []}  # noqa: E731
    if t == "u":
        v = r.choice(["", "abc", "µm", "a b"]) if v is None else v
        b = v.encode()
        if r.random() < 0.3:
            b += b"\0"
        return E("s:" + v), b"u\0" + struct.pack("<HI", key, len(b)) + b
    if t == "b":
        b = r.randbytes(r.randrange(0, 5))
        return E("s:binary: " + b.hex().upper()), b"b\0" + struct.pack("<HI", key, len(b)) + b
    if t == "t":
        s = r.choice(["2020-02-29T23:59:59", "1999-01-01T00:00:00"])
        return E("s:" + s.replace("T", "#")), b"t\0" + struct.pack("<HQ", key, ticks(s))
    if t in "SRI":  # arrays
        a = [r.randrange(-100, 100) for _ in range(r.randrange(2, 5))]
        f = {"S": "h", "R": "f", "I": "i"}[t]
        return E("t:" + ",".join(f"n:{x * 1000}" for x in a)), t.replace("R", "r").replace("S", "s").replace("I", "i").encode() + b"\x80" + struct.pack(f"<HI{len(a)}{f}", key, len(a), *a)
    f = {"i": "i", "s": "h", "r": "f", "q": "d", "w": "q", "?": "B", "c": "b"}[t]
    if v is None:
        v = r.randrange(0, 100) if t in "?c" else r.randrange(-10000, 10000)
        v = v * 125 if t in "rq" else v * 1000
    return E(f"n:{v}"), t.encode() + b"\0" + struct.pack("<H" + f, key, v / 1000 if t in "rq" else v // 1000)


def name(key, s):
    b = s.encode()
    return {"t": "k", "key": key, "v": s, "sub": []}, b"k\0" + struct.pack("<HI", key, len(b)) + b


def nested(key, parts):
    b = b"".join(p[1] for p in parts)
    return {"t": "p", "key": key, "v": "", "sub": [p[0] for p in parts]}, b"p\0" + struct.pack("<HI", key, len(b)) + b


NAMES = ["Laser", "Gain", "Slit", "Mode", "é", "A b", "x", "Wavelen", "Offset", "Time", "Unit", "Z"]


def pset(r, depth=0, given=(), loose=()):
    """given: [(name, t, value or parts)]; loose: [(key, t, value)]"""
    used = {k for k, _, _ in loose}
    out = []
    names = r.sample(NAMES, r.randrange(0, 5))
    for n in names:
        k = nm(r, used)
        if depth < 3 and r.random() < 0.25:
            out.append([name(k, n), nested(k, pset(r, depth + 1))])
        elif r.random() < 0.04:  # compressed: no value
            continue
        else:
            out.append([name(k, n), value(r, k)])
    for n, t, v in given:
        k = nm(r, used)
        out.append([name(k, n), nested(k, v) if t == "p" else value(r, k, t, v)])
    flat = []
    for a in out:
        if r.random() < 0.5:
            a.reverse()
        flat += a
    for k, t, v in loose:
        flat.insert(r.randrange(len(flat) + 1), value(r, k, t, v))
    if r.random() < 0.7:
        r.shuffle(flat)
    return flat


def block(nm, uid, body):
    return nm.encode() + struct.pack("<IQ", uid, 16 + len(body)) + body


def psetblock(nm, uid, parts, tail=b""):
    b = b"".join(p[1] for p in parts)
    return block(nm, uid, b"PSET" + struct.pack("<I", len(b)) + b + tail)


def gen(r):
    e = {"bad": "", "uniform": r.random() < 0.3, "unmatched": r.random() < 0.3}
    pts = r.choice([2, 3, 5, 8])
    e["w"] = ramp(r, pts, e["uniform"])
    if r.random() < 0.6:
        e["w"].reverse()
    e["xunit"] = r.choice([1, 1, 2, 3, 4, 5, 0])
    e["mtype"] = r.choice([0, 1, 1, 2, 2, 3, 3, 3])
    e["map"] = {"flag": r.choice([0, 0, 128, 2]), "off": [r.randrange(-500, 500) * 125 for _ in range(3)], "scale": [1000, 1000, 1000], "size": [1, 1, 1]}
    m = e["map"]
    e["hyp"] = 0
    if e["mtype"] == 3:
        if m["flag"] == 128:
            m["size"] = [r.randrange(1, 6), 1, 1]
            a, b, c = r.choice([(3, 4, 5), (0, 2, 2), (2, 0, 2), (5, 12, 13)])
            k = r.choice([125, 1000, 500])
            m["scale"], e["hyp"] = [a * k, r.choice([-1, 1]) * b * k, 1000], c * k
        else:
            m["size"] = [r.randrange(1, 5), r.randrange(1, 5), 1]
            m["scale"] = [r.choice([-1, 1]) * r.randrange(1, 50) * 125 for _ in range(3)]
        e["cap"] = m["size"][0] * m["size"][1]
    else:
        e["cap"] = r.randrange(1, 6) if e["mtype"] == 2 else 1 if e["mtype"] == 1 else r.choice([1, 1, 2, 4])
    e["num"] = e["cap"]
    if e["mtype"] in (2, 3) and r.random() < 0.35:
        e["num"] = r.randrange(1, e["cap"] + 1)
    cap, num = e["cap"], e["num"]
    e["rows"] = [[r.randrange(0, 2000) * 4 for _ in range(pts)] for _ in range(num)]
    raw = np.zeros((cap, pts), "<f4")
    raw[:num] = e["rows"]
    # positions
    e["origins"] = []
    kinds = {3: ["X", "Y", "Time", "BitFlags", "SpectrumDataChecksum"], 2: r.choice([["Time", "BitFlags", "SpectrumDataChecksum"], ["Z", "Time", "BitFlags"], ["Time", "FocusTrack_Z", "SpectrumDataChecksum"], ["X", "Time"], ["Temperature"], ["BitFlags", "Z"]]),
             1: ["Time", "BitFlags", "SpectrumDataChecksum"], 0: ["Time", "BitFlags"]}[e["mtype"]]
    has_origin = e["mtype"] >= 2 or r.random() < 0.6
    ob = struct.pack("<I", len(kinds) if has_origin else 0)
    for k in kinds if has_origin else []:
        unit = {"Time": 24, "BitFlags": 0, "SpectrumDataChecksum": 0, "Temperature": 10}.get(k, r.choice([5, 8, 3]))
        if e["mtype"] == 3 and k == "Y":
            unit = e["origins"][0]["unit"]
        a0, st = r.randrange(-100, 100) * 125, r.choice([0, 125, 500, -1000, 25000])
        if k == "Time":
            a0, st = r.randrange(100) * 1000, r.choice([1000, 31000, 5000])
        a = [a0 + i * st for i in range(cap)]
        if k in ("FocusTrack_Z", "BitFlags", "SpectrumDataChecksum") or (e["mtype"] == 3 and k != "Time"):
            a = [r.randrange(0, 1000) * 125 for _ in range(cap)]
        note = r.choice([k[:16], "", "a b"])
        e["origins"].append({"type": k, "unit": unit, "note": note, "a": a[:num]})
        ob += struct.pack("<II", DTYPES[k] | (r.choice([0, 1]) << 31), unit) + note.encode().ljust(16, b"\0")
        a = a[:num] + [0] * (cap - num)
        ob += struct.pack(f"<{cap}Q", *[10**15 + x // 1000 for x in a]) if k == "Time" else struct.pack(f"<{cap}d", *[x / 1000 for x in a])
    blocks = [block("DATA", 0, raw.tobytes()), block("XLST", 0, struct.pack("<II", 1, e["xunit"]) + np.array([x / 1000 for x in e["w"]], "<f4").tobytes())]
    if has_origin:
        blocks.append(block("ORGN", 0, ob))
    if r.random() < 0.5:
        blocks.append(block("YLST", 0, struct.pack("<IIf", 2, 0, 0)))
    if e["mtype"] == 3:
        blocks.append(block("WMAP", 0, struct.pack("<II3f3f4I", m["flag"], 0, *[x / 1000 for x in m["off"]], *[x / 1000 for x in m["scale"]], *m["size"], 0)))
    # named values
    e["psets"] = []
    for b, u in (("WXIS", 0), ("WXDA", 0), ("ZLDC", 0), ("WARP", 0), ("WARP", 1)):
        if r.random() < 0.5:
            s = pset(r)
            if not s:
                continue
            e["psets"].append({"id": f"{b}_{u}", "s": [x[0] for x in s]})
            blocks.append(psetblock(b, u, s, b"\n" + b"\0" * 1024 if b == "WXDA" else b""))
    given = []
    e["wavelength"] = ""
    if r.random() < 0.6:
        wl, wn = r.choice([(500000, 20000000), (800000, 12500000), (625000, 16000000)])
        e["wavelength"] = f"n:{wl}"
        inner = pset(r, 9, [("Wavenumber", "q", wn)])
        given.append(("Lasers", "p", inner if r.random() < 0.3 else pset(r, 9, [("Laser 1", "p", inner)])))
    if r.random() < 0.6:
        given.append(("Gratings", "p", pset(r, 9, [("Grating1", "p", pset(r, 9, [("Groove Density (lines/mm)", "r", r.choice([1200000, 600000]))]))])))
    if r.random() < 0.7:
        given.append(("CCD", "p", pset(r, 9, [("CCD", "u", "Centrus")] + ([("Target temperature", "r", -70000)] if r.random() < 0.7 else []))))
    s = pset(r, 2, given) if given or r.random() < 0.5 else []
    e["wxcs"] = [x[0] for x in s]
    if s:
        blocks.append(psetblock("WXCS", 0, s))
    s, e["integration"] = [], ""
    if r.random() < 0.7:
        used = set()
        spare = [(nm(r, used), n) for n in r.sample(NAMES, r.randrange(0, 4))]
        special = []
        ex, acc = r.choice([500, 1000, 30000]), r.randrange(1, 20)
        if r.random() < 0.7:
            special.append(("Accumulations", "i", acc * 1000))
        if r.random() < 0.7:
            special.append(("Exposure Time", "r", ex * 1000))
        if len(special) == 2:
            e["integration"] = f"n:{ex * acc}"
        if r.random() < 0.5:
            special.append(("Use Cosmic Ray Remove", "?", r.choice([0, 1]) * 1000))
        keys = [(nm(r, used), *x) for x in special]

        def within(depth, specials):
            nsub = r.randrange(0, 4 if depth else 5)
            subs = []
            for i in range(nsub):
                mine = [specials.pop() for _ in range(r.randrange(0, len(specials) + 1))] if specials and r.random() < 0.7 else []
                loose = [(k, t, v) for k, _, t, v in mine] + [(k, None, None) for k, _ in spare if r.random() < 0.5]
                deeper = within(depth + 1, specials) if depth < 2 and loose and r.random() < 0.5 else []
                subs.append((f"s{i}", "p", pset(r, 9, deeper, loose)))
            return subs

        sub = within(0, list(keys))
        s = pset(r, 9, sub)
        own = {x[0]["key"] for x in s}
        if own & used:
            return gen(r)
        s += [name(k, n) for k, n in spare] + [name(k, n) for k, n, _, _ in keys]
        if s:
            blocks.append(psetblock("WXDM", 0, s))
    e["wxdm"] = [x[0] for x in s]
    # spare names that a set's own number also uses would be ambiguous
    tops = {x["key"] for x in e["wxdm"] if x["t"] == "k"}

    def clash(xs):
        own = {x["key"] for x in xs if x["t"] == "k"}
        return bool(own & tops) or any(clash(x["sub"]) for x in xs if x["t"] == "p")

    if any(clash(x["sub"]) for x in e["wxdm"] if x["t"] == "p"):
        return gen(r)
    e["maps"] = []
    for u in (0, 1):
        if r.random() < 0.3:
            s = [p for p in pset(r, 9)]
            a = [r.randrange(100) * 125 for _ in range(r.choice([2, 3, num + 1]))]
            e["maps"].append({"id": f"MAP_{u}", "n": len(a), "a": a})
            b = b"".join(p[1] for p in s)
            blocks.append(block("MAP ", u, b"PSET" + struct.pack("<I", len(b)) + b + struct.pack("<Q", len(a)) + np.array([x / 1000 for x in a], "<f4").tobytes()))
    e["text"] = ""
    if r.random() < 0.4:
        e["text"] = "a µ\nb"
        blocks.append(block("TEXT", 0, e["text"].encode() + b"\0"))
    e["image"] = []
    if r.random() < 0.3:
        from PIL import Image

        h, w = r.randrange(2, 9), r.randrange(2, 9)
        f = io.BytesIO()
        Image.new("RGB", (w, h), (10, 200, 30)).save(f, "JPEG")
        blocks.append(block("WHTL", 0, f.getvalue()))
        mk = []
        if e["mtype"] == 3:
            W, H = m["scale"][0] * m["size"][0], m["scale"][1] * m["size"][1]
            mk = [m["off"][0] * 2 + W, m["off"][1] * 2 + H, W * 2, H * 2]  # doubled: halves
        e["image"] = [{"shape": [h, w], "marker": mk}]
    for i in range(r.randrange(0, 3)):
        blocks.append(block(r.choice(["BKXL", "NEWB"]), i, r.randbytes(r.randrange(0, 40))))
    r.shuffle(blocks)
    # header
    t0, t1 = r.choice(["2023-05-17T10:11:12", "2019-12-31T23:59:59"]), "2024-02-29T00:00:01"
    e["date"], e["time"] = t0.split("T")
    e["title"], user = r.choice(["Simple mapping", "é"]), r.choice(["Raman", ""])
    q, scan = r.choice(list(QUANT)), r.choice(list(SCAN))
    e["quantity"] = f"Intensity ({QUANT[q]})"
    flags, acc = r.randrange(2**30), r.randrange(1, 100)
    uuid, ver = [r.randrange(2**32) for _ in range(4)], [r.randrange(2**16) for _ in range(4)]
    xl = pts
    if r.random() < 0.04:
        xl, e["bad"] = pts + 1, "RuntimeError"
    H = struct.pack("<Q4I3III", flags, *uuid, 0, 0, 0, 3, 5) + struct.pack("<IQQIIII", pts, cap, num, acc, 1, xl, len(kinds) if has_origin else 0)
    H += b"WiRE".ljust(24, b"\0") + struct.pack("<4HIIQQIf", *ver, scan, e["mtype"], ticks(t0), ticks(t1), q, 18796.5) + b"\0" * 48 + user.encode().ljust(32, b"\0") + e["title"].encode().ljust(160, b"\0")
    head = {"flags": flags, "uuid": "-".join(map(str, uuid)), "ntracks": 3, "file_status_error_code": 5, "points_per_spectrum": pts, "capacity": cap, "num_spectra": num, "accumulations_per_spectrum": acc, "YLST_length": 1, "XLST_length": xl,
            "num_ORGN": len(kinds) if has_origin else 0, "app_name": "WiRE", "app_version": "-".join(map(str, ver)), "scan_type": SCAN[scan], "measurement_type": MEAS[e["mtype"]], "time_start": t0.replace("T", "#"), "time_end": t1.replace("T", "#"),
            "laser_wavenumber": 18796.5, "username": user, "title": e["title"]}
    e["header"] = [{"k": k, "v": tagged(v) if isinstance(v, (str, float)) else str(v)} for k, v in head.items()]
    b = block("WDF1", 1, H.ljust(496, b"\0")) + b"".join(blocks)
    if e["bad"] == "" and r.random() < 0.03:
        gone = r.choice([b"DATA", b"XLST"])
        b, e["bad"] = b.replace(gone + b"\0\0\0\0", b"GONE\0\0\0\0", 1), "RuntimeError"
    return e, b


def axes(D):
    out = []
    for i, a in enumerate(D["axes"]):
        assert a["index_in_array"] == i, a
        x = {"name": a["name"], "units": a.get("units", "none"), "nav": bool(a["navigate"]), "size": int(a["size"]), "axis": []}
        if "axis" in a:
            x.update(off=0, scale=0, axis=[milli(v) for v in a["axis"]])
        else:
            x.update(off=milli(a["offset"]) if "offset" in a else -1, scale=milli(a["scale"]) if "scale" in a else -1)
        out.append(x)
    return out


def obs(L, e):
    D = L[0]
    m, om = D["metadata"], D["original_metadata"]
    g = m["General"]
    ids = {"WXIS_0", "WXDA_0", "ZLDC_0", "WARP_0", "WARP_1", "WXCS_0", "WXDM_0"}
    clean = lambda v: {k: clean(x) for k, x in v.items()} if isinstance(v, dict) else [x for x in v] if isinstance(v, (list, np.ndarray)) else v  # noqa: E731
    img = []
    for I in L[1:]:
        mk = I["metadata"].get("Markers", {}).get("Map", {}).get("kwargs")
        img.append({"shape": list(I["data"].shape), "marker": [] if mk is None else [milli(v * 2) for v in (*mk["offsets"], mk["widths"], mk["heights"])]})
    return {"shape": list(D["data"].shape), "flat": [int(round(float(v))) for v in D["data"].ravel()], "axes": axes(D),
            "header": [{"k": k, "v": tagged(v) if isinstance(v, (str, float, np.floating)) else str(int(v))} for k, v in om["WDF1_1"].items() if k != "quantity_unit"],
            "general": {"title": g["title"], "file": g["original_filename"], "date": g["date"], "time": g["time"]}, "quantity": m["Signal"]["quantity"],
            "psets": leaves({k: clean(v) for k, v in om.items() if k in ids}), "instrument": leaves(m["Acquisition_instrument"]),
            "origins": [{"k": k, "unit": v["units"], "note": v["annotation"], "a": [milli(x) for x in v["data"]]} for k, v in om.get("ORGN_0", {}).items()],
            "maps": [{"id": k, "n": int(v["npoints"]), "a": [milli(x) for x in v["data"]]} for k, v in om.items() if k.startswith("MAP_")],
            "text": om.get("TEXT_0", ""), "unmatched": "UNMATCHED" in om, "image": img}


def run(ctx):
    n, p, k = (4, 2, 2) if ctx.quick else (8, 3, 3)
    ctx.model_check("WdfMC", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Found Shapes\nCONSTANTS N={n} P={p} K={k}\n")
    es = [gen(ctx.rng) for _ in range(700 * (1 if ctx.quick else 10))]
    d = ctx.dir()

    def one(i):
        import warnings

        from rsciio.renishaw import file_reader

        warnings.simplefilter("ignore")
        e, b = es[i]
        dd = os.path.join(d, str(i))
        os.makedirs(dd)
        fn = os.path.join(dd, "a b.wdf")
        with open(fn, "wb") as f:
            f.write(b)
        try:
            return observe(lambda: obs(file_reader(fn, use_uniform_signal_axis=e["uniform"], load_unmatched_metadata=e["unmatched"]), e))
        finally:
            os.remove(fn)
            os.rmdir(dd)

    res = pmap(one, range(len(es)), procs=8, timeout=60)
    judge(ctx, "WdfTrace", [dict(e, obs=o) for (e, _), o in zip(es, res)], lambda e: f"wdf-{MEAS[e['mtype']].lower()}{'-interrupted' if e['num'] < e['cap'] else ''}", chunk=10**6)
