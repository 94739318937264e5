"""EDAX, EMPAD and EELSLab files (spec: LabMaps*.tla)."""
import os
import shutil

import numpy as np

from ..pmap import observe, pmap
from ..synth import edax
from .c10 import judge
from .c19 import milli

LEVEL = "model_checking"
SYMBOL = dict(zip([5, 6, 7, 8, 13, 14, 20, 26, 28, 29, 38, 47, 79, 92], ["B", "C", "N", "O", "Al", "Si", "Ca", "Fe", "Ni", "Cu", "Sr", "Ag", "Au", "U"]))


def words(v):
    return " ".join(x if isinstance(x, str) else repr(float(x)) for x in v)


def axes(D, f=None):
    L = D["axes"]
    nd = D["data"].ndim
    assert [x["index_in_array"] % nd for x in L] == list(range(nd)), "order of the axes"
    return [{"size": int(x["size"]), "name": x["name"], "scale": milli(x["scale"]), "off": milli(x["offset"]), "units": "-" if x["units"] is None else x["units"],
             "nav": bool(x["navigate"])} for x in L]


def lazily(a, e):
    assert type(a).__module__.startswith("dask") == e["lazy"], "lazy"
    if e["lazy"]:
        sh, dt = a.shape, a.dtype
        a = a.compute()
        assert a.shape == sh and a.dtype == dt, "announced"
    return a


# ------------------------------------------------------------------ EDAX
def gen_edax(r):
    e = {"fmt": "edax", "ext": r.choice(["spd", "spd", "lsd", "lsd", "spc"]), "lazy": r.random() < 0.5, "end": "<" if r.random() < 0.8 else ">"}
    e["ny"], e["nx"], e["nz"] = r.randrange(1, 5), r.randrange(1, 6), r.choice([1, 2, 5, 16])
    lsd = e["ext"] == "lsd"
    if lsd:
        e["ny"], e["nx"] = 1, r.randrange(1, 9)
    n = e["ny"] * e["nx"]
    e["ns"] = n if not lsd or r.random() < 0.5 else r.randrange(1, n + 1)
    e["bytes"] = r.choice([1, 2, 4])
    if e["ext"] == "spc":
        e["bytes"], e["ny"], e["nx"], e["ns"] = 4, 1, 1, 1
    e["mod"] = {1: 256, 2: 65536, 4: 2**30}[e["bytes"]]
    e["base"] = r.randrange(e["mod"])
    e["dtype"] = f"uint{8 * e['bytes']}"
    e["spc"] = e["ext"] == "spc" or r.random() < 0.7
    e["version"] = r.choice([0.61, 0.7])
    e["all"] = r.random() < 0.4
    e["named"] = r.random() < 0.3  # names of the other files given
    e["offset"] = r.choice([1084, 1200, 2000])
    e["evpch"] = r.choice([5, 10, 20, 40])
    e["start"] = r.choice([0, 125, -250, 1000])
    e["ipr"], e["csv"] = e["ext"] == "spd" and r.random() < 0.7, lsd and r.random() < 0.7
    e["iprv"] = r.choice([333, 334])
    e["mppx"], e["mppy"] = r.choice([250, 1125, 40000]), r.choice([250, 500, 125])
    e["dstart"], e["dstep"] = r.choice([0, 0, 1500]), r.choice([250, 1302, 12000])
    e["seed"] = r.randrange(2**30)
    e["fname"] = r.choice(["map", "a b", "x.y"]) + "." + r.choice([e["ext"], e["ext"].upper()])
    return e


def write_edax(e, d):
    import random

    r = random.Random(e["seed"])
    end = e["end"]
    stem = os.path.splitext(e["fname"])[0]
    fn = os.path.join(d, e["fname"])
    kw = {"lazy": e["lazy"]}
    if end == ">":
        kw["endianness"] = ">"
    if e["all"]:
        kw["load_all_spc"] = True
    n = e["nz"] if e["ext"] == "spc" else e["ny"] * e["nx"] * e["nz"]
    counts = ((e["base"] + np.arange(n)) % e["mod"]).astype(f"{end}u{e['bytes']}").tobytes()
    head, md = {}, {"type": "EDS_SEM", "file": e["fname"], "title": {"spc": "EDS Spectrum", "spd": "EDS Spectrum Image", "lsd": "EDS Line Scan"}[e["ext"]]}
    if e["spc"]:
        els = r.sample(sorted(SYMBOL), r.choice([0, 1, 3, 5]))
        known = {"fVersion": [float(np.float32(e["version"]))], "evPerChan": [e["evpch"]], "startEnergy": [e["start"] / 1000], "numElem": [len(els)],
                 "at": els + [0] * (48 - len(els)), "numPts": [e["nz"] if e["ext"] == "spc" else 4096]}
        size = 20740 if e["version"] < 0.7 else 20994
        at = r.choice([3840, 3840, size, size + 12])
        known["dataStart"] = [at if e["ext"] == "spc" else 3840]
        buf, vals = edax.header(r, edax.SPC_FIELDS, end, known, size)
        if e["ext"] == "spc":
            buf = buf + bytes(max(0, at + len(counts) - len(buf)))
            buf[at : at + len(counts)] = counts
        sname = fn if e["ext"] == "spc" else os.path.join(d, "other.spc" if e["named"] else stem + ".spc")
        with open(sname, "wb") as f:
            f.write(buf)
        if e["named"] and e["ext"] != "spc":
            kw["spc_fname"] = sname
        keys = edax.FEW if not e["all"] else [k for k in vals if k != "s" and k not in edax.TEXT and (e["version"] >= 0.7 or k != "ADCTimeConstantNew")]
        head["spc_header"] = {k: words(vals[k]) for k in keys}
        md.update(azimuth=milli(vals["azimuth"][0]), elevation=milli(vals["elevation"][0]), reso=milli(vals["detReso"][0]), live=milli(vals["liveTime"][0]),
                  kV=milli(vals["kV"][0]), tilt=milli(vals["tilt"][0]), elements=sorted(SYMBOL[z] for z in els))
    if e["ext"] != "spc":
        h = bytearray(r.randbytes(max(e["offset"], 1084)))
        vals = {"version": 1, "nSpectra": e["ns"], "nPoints": e["nx"], "nLines": e["ny"], "nChannels": e["nz"], "countBytes": e["bytes"], "dataOffset": e["offset"],
                "nFrames": r.randrange(1, 100)}
        h[0:16] = b"MAPSPECTRA_DATA\0"
        for i, v in enumerate(vals.values()):
            edax.put(h, 16 + 4 * i, "i4", v, end)
        img = f"{stem}_Img.bmp"
        h[48:168] = img.encode().ljust(120, b"\0")
        with open(fn, "wb") as f:
            f.write(h + counts)
        head["spd_header"] = {k: words([v]) for k, v in vals.items()}
        head["spd_header"]["tag"], head["spd_header"]["fName"] = "MAPSPECTRA_DATA", img
    if e["ipr"]:
        known = {"version": [e["iprv"]], "mppX": [e["mppx"] / 1000], "mppY": [e["mppy"] / 1000], "charText": ["a b", "", "text", "x" * 31]}
        buf, vals = edax.header(r, edax.IPR_FIELDS, end, known, 252 if e["iprv"] == 333 else 264)
        iname = os.path.join(d, "other.ipr" if e["named"] else f"{stem}_Img.ipr")
        with open(iname, "wb") as f:
            f.write(buf)
        if e["named"]:
            kw["ipr_fname"] = iname
        head["ipr_header"] = {k: words(v) for k, v in vals.items()}
    if e["csv"]:
        cname = os.path.join(d, "other.csv" if e["named"] else stem + ".csv")
        if e["named"]:
            kw["csv_fname"] = cname
        labels = [("kV", "20"), ("Mag", "40000.0"), ("Amp Time", "7.68"), ("Note", "a, b")]
        L = [f"{k}, {v}" for k, v in labels] + [""] * 10
        L.append("Point, Distance (nm), O K, Si K")
        L += [f"{i}, {(e['dstart'] + i * e['dstep']) / 1000:.3f}, {i * 3}, 7" for i in range(e["ns"] if e["ns"] > 1 else 2)]
        with open(cname, "w", encoding=r.choice(["utf-8", "utf-8-sig"])) as f:
            f.write("\n".join(L) + "\n")
        head["csv_header"] = dict(labels)
    return fn, kw, head, md


def run_edax(e, d):
    from rsciio.edax import file_reader

    fn, kw, e["head"], e["md"] = write_edax(e, d)
    (D,) = file_reader(fn, **kw)
    a = lazily(D["data"], e)
    om, m = D["original_metadata"], D["metadata"]
    md = {"type": m["Signal"]["signal_type"], "file": m["General"]["original_filename"], "title": m["General"]["title"]}
    if "Acquisition_instrument" in m:
        s = m["Acquisition_instrument"]["SEM"]
        x = s["Detector"]["EDS"]
        md.update(azimuth=milli(x["azimuth_angle"]), elevation=milli(x["elevation_angle"]), reso=milli(x["energy_resolution_MnKa"]), live=milli(x["live_time"]),
                  kV=milli(s["beam_energy"]), tilt=milli(s["Stage"]["tilt_alpha"]), elements=[str(x) for x in m.get("Sample", {}).get("elements", [])])
    head = {}
    for h, vals in om.items():
        head[h] = {}
        for k, v in vals.items():
            if (h == "spc_header" and k in edax.TEXT) or k == "s" or k.startswith("filler"):
                continue
            if isinstance(v, bytes):
                v = v.decode("latin1")
            head[h][k] = v if isinstance(v, str) else words([x.decode() if isinstance(x, bytes) else x for x in np.ravel(v).tolist()])
    return {"o": {"shape": list(a.shape), "flat": [int(x) for x in a.ravel()], "dtype": a.dtype.newbyteorder("=").name, "axes": axes(D), "md": md, "head": head},
            "head": e["head"], "md": e["md"]}


# ------------------------------------------------------------------ EMPAD
def gen_empad(r):
    e = {"fmt": "empad", "lazy": r.random() < 0.5, "series": r.random() < 0.3, "bad": False}
    e["n"], e["sx"], e["sy"] = r.randrange(1, 6), r.randrange(1, 4), r.randrange(1, 4)
    e["old"] = r.random() < 0.5
    if e["old"]:
        e["fov"] = r.choice([0, 6 * r.choice([10, 100, 500, 300000])])
    else:
        e["fov"] = r.choice([0, 6 * r.choice([10, 500, 300000])])
    e["fov"] *= 1000  # a thousandth of a pm
    if e["series"]:
        e["fov"] = 0
    e["factor"] = r.choice([0.5, 0.25, 1, 0.8])
    k = r.random()
    e["qarg"] = r.choice([0.5, 0.25]) if k < 0.3 else 0
    e["qxml"] = r.choice([125, 250]) if k > 0.6 else 0
    e["q"] = round(e["qarg"] * 1000) or e["qxml"] or 1000
    e["qunits"] = "1/nm" if e["qarg"] or e["qxml"] else "-"
    e["nan"] = r.choice(["", "", "keep", "zero"])
    e["fname"] = r.choice(["a.xml", "scan b.xml", "v1.2.2.xml"])
    e["md"] = {"file": e["fname"], "title": os.path.splitext(e["fname"])[0], "type": "electron_diffraction", "date": "", "time": ""}
    if r.random() < 0.8:
        e["md"]["date"], e["md"]["time"] = f"20{r.randrange(10, 30)}-06-{r.randrange(10, 31)}", f"13:30:{r.randrange(10, 60)}.164675"
    e["raw"] = f"scan_x{e['sx']}_y{e['sy']}.raw" if not e["old"] or r.random() < 0.5 else "acq_7.raw"
    if e["series"]:
        e["raw"] = f"series_x{e['n']}.raw"
    if not e["series"] and not e["old"] and r.random() < 0.15:
        e["bad"], e["raw"] = True, r.choice(["scan_4x4.raw", "scan.raw", "data.raw"])
    e["indent"] = r.random() < 0.5
    return e


def write_empad(e, d):
    n = e["n"] if e["series"] else e["sx"] * e["sy"]
    a = np.arange(n * 130 * 128, dtype="<f4").reshape(n, 130, 128)
    if e["nan"]:
        a[:, 5, 7] = np.nan
    a.tofile(os.path.join(d, e["raw"]))
    x = ['<root name="acq">']
    if e["md"]["date"]:
        x.append(f'<timestamp timestamp="1.5" isoformat="{e["md"]["date"]}T{e["md"]["time"]}"/>')
    x.append("<software_version>0.51 211118</software_version>")
    if e["old"] and not e["series"]:
        x.append(f"<pix_x>{e['sx']}</pix_x><pix_y>{e['sy']}</pix_y>")
    x.append(f'<raw_file filename="{e["raw"]}"/>')
    if e["series"]:
        x.append(f'<scan_parameters mode="acquire"><series_count>{e["n"]}</series_count></scan_parameters>')
    else:
        x.append('<scan_parameters mode="search"><scan_size>0.55</scan_size></scan_parameters><scan_parameters mode="acquire"><scan_size>0.5</scan_size></scan_parameters>')
    x.append("<iom_measurements>")
    m = e["fov"] * 1e-15
    if e["fov"] and e["old"]:
        x.append(f"<optics.get_full_scan_field_of_view>[{m!r}, {m!r}]</optics.get_full_scan_field_of_view>")
    elif e["fov"]:
        x.append(f"<full_scan_field_of_view><scale_factor>{e['factor']}</scale_factor><x>{m * e['factor']!r}</x></full_scan_field_of_view>")
    if e["qxml"]:
        x.append(f"<calibrated_pixelsize>{e['qxml'] / 1000 * 1e-9!r}</calibrated_pixelsize>")
    x.append("<high_voltage>200000</high_voltage></iom_measurements></root>")
    s = "".join(x)
    if e["indent"]:
        import xml.dom.minidom as dom

        s = dom.parseString(s).toprettyxml(indent="  ")
    fn = os.path.join(d, e["fname"])
    with open(fn, "w") as f:
        f.write(s)
    kw = {"lazy": e["lazy"]}
    if e["qarg"]:
        kw["q_calibration"] = e["qarg"]
    if e["nan"] == "zero":
        kw["remove_nans"] = True
    return fn, kw, n, a


def run_empad(e, d):
    from rsciio.empad import file_reader

    fn, kw, n, a = write_empad(e, d)
    (D,) = file_reader(fn, **kw)
    b = lazily(D["data"], e)
    ax = axes(D)
    for k, (u, v) in enumerate(zip(ax, D["axes"])):
        f = {"m": 1e12, "mm": 1e9, "µm": 1e6, "nm": 1e3, "pm": 1, "fm": 1e-3}.get(u["units"])
        if f:
            u["units"], u["scale"], u["off"] = "pm", milli(v["scale"] * f), milli(v["offset"] * f)
    want = a[:, :128]
    if e["nan"] == "zero":
        want = np.nan_to_num(want)
    got = b.reshape(-1, 128, 128)
    assert b.dtype == np.dtype("<f4")
    frames = []
    for g in got:
        k = int(round(float(g[0, 0]) / (130 * 128)))
        frames.append(k if 0 <= k < n and np.array_equal(g, want[k], equal_nan=True) else -1)
    g = D["metadata"]["General"]
    return {"shape": list(b.shape), "frames": frames, "axes": ax,
            "md": {"file": g["original_filename"], "title": g["title"], "type": D["metadata"]["Signal"]["signal_type"], "date": g.get("date", ""), "time": g.get("time", "")}}


# ------------------------------------------------------------------ EELSLab
NCD = {"int16": "h", "int32": "i", "float32": "f", "float64": "d", "int8": "b"}


def gen_nc(r):
    nd = r.randrange(1, 4)
    e = {"fmt": "nc", "rec": "image" if nd > 1 and r.random() < 0.5 else "spectrum", "vs": [r.randrange(1, 5) for _ in range(nd)], "bad": r.random() < 0.08}
    e["dtype"] = r.choice(list(NCD))
    e["mod"] = 100 if e["dtype"] == "int8" else 30000
    e["base"] = r.randrange(e["mod"])
    e["hasscale"], e["hasorigin"], e["hasunits"] = (r.random() < 0.8 for _ in range(3))
    e["scales"] = [r.choice([250, 1000, 3125, -500]) for _ in range(nd)]
    e["origins"] = [r.choice([0, 500, -1250, 40000]) for _ in range(nd)]
    e["units"] = [r.choice(["nm", "eV", "um"]) for _ in range(nd)]
    e["fname"] = r.choice(["a.nc", "b c.nc"])
    e["md"] = {"file": e["fname"], "exposure": r.choice([0, 500, 2000]), "binning": r.choice([1, 2, 4]), "title": r.choice(["", "EELS map"]), "dark": r.choice(["", "Yes"])}
    e["asarray"] = r.random() < 0.3
    return e


def run_nc(e, d):
    from scipy.io import netcdf_file

    from rsciio.netcdf import file_reader

    fn = os.path.join(d, e["fname"])
    nd = len(e["vs"])
    with netcdf_file(fn, "w") as f:
        if not e["bad"]:
            f.file_format_version = "EELSLab 0.1"
        else:
            f.file_format_version = "EELSLab 2"
        f.type = e["rec"]
        for i, n in enumerate(e["vs"]):
            f.createDimension(f"d{i}", n)
        v = f.createVariable("data_cube", NCD[e["dtype"]], tuple(f"d{i}" for i in range(nd)))
        v[:] = ((e["base"] + np.arange(int(np.prod(e["vs"])))) % e["mod"]).reshape(e["vs"]).astype(e["dtype"])
        names = (["z", "y", "x"] if e["rec"] == "image" else ["y", "x", "energy"])[3 - nd :]

        def put(k, x):
            setattr(v, k, np.array([x], "i4" if isinstance(x, int) else "f8") if e["asarray"] and not isinstance(x, str) else x)

        for i, n in enumerate(names):
            if e["hasscale"]:
                put(n + "_scale", e["scales"][i] / 1000)
            if e["hasorigin"]:
                put(n + "_origin", e["origins"][i] / 1000)
            if e["hasunits"]:
                put(n + "_units", e["units"][i])
        put("exposure", e["md"]["exposure"] / 1000)
        put("binning", e["md"]["binning"])
        if e["md"]["title"]:
            v.title = e["md"]["title"]
        if e["md"]["dark"]:
            v.dark_current = e["md"]["dark"]
    (D,) = file_reader(fn)
    a = D["data"]
    om = D["original_metadata"]
    assert om["record_by"] == e["rec"]
    md = {"file": D["metadata"]["General"]["original_filename"], "exposure": milli(om["acquisition"]["exposure"]), "binning": int(om["acquisition"]["binning"]),
          "title": om["calibration"].get("title", ""), "dark": om["treatments"].get("dark_current", "")}
    return {"shape": list(a.shape), "flat": [milli(x, 1) for x in a.ravel()], "dtype": a.dtype.newbyteorder("=").name, "axes": axes(D), "md": md}


GEN = {"edax": gen_edax, "empad": gen_empad, "nc": gen_nc}
RUN = {"edax": run_edax, "empad": run_empad, "nc": run_nc}


def run(ctx):
    ctx.model_check(
        "LabMapsMC",
        f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS MapRight LineRight FortranRight NoFooter Kept\nCONSTANTS Side={3 if ctx.quick else 4}\n",
    )
    k = 1 if ctx.quick else 10
    es = [GEN[f](ctx.rng) for f, n in (("edax", 500), ("empad", 200), ("nc", 250)) for _ in range(n * k)]
    d = ctx.dir()

    def one(i):
        dd = os.path.join(d, str(i))
        os.makedirs(dd)
        o = observe(RUN[es[i]["fmt"]], es[i], dd)
        shutil.rmtree(dd, ignore_errors=True)
        return o

    obs = pmap(one, range(len(es)), procs=8, timeout=60)
    tr = []
    for e, o in zip(es, obs):
        if "o" in o:  # what was written comes along
            e.update(head=o["head"], md=o["md"])
            o = o["o"]
        tr.append(dict(e, obs=o))
    judge(ctx, "LabMapsTrace", tr, lambda e: f"labmap-{e['fmt']}{'-' + e['ext'] if e['fmt'] == 'edax' else ''}", chunk=10**6)
