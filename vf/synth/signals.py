"""Signals that each writer accepts (or has to reject), and what came back."""
import copy
import importlib
import os
import random
import zlib

import numpy as np

BAD = -(2**31) + 1
#: file extension, (navigation, signal) dimensions, dtypes
FORMATS = {
    "blockfile": (".blo", [(2, 2), (1, 2), (0, 2)], ["u1", "u1", "u2", "f4"]),
    "emd": (".emd", [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2), (0, 3)],
            ["u1", "i2", "<i4", ">f4", "f8", "c8", "?", "U"]),
    "msa": (".msa", [(0, 1)], ["u1", "i4", "f4", "f8"]),
    "ripple": (".rpl", [(0, 1), (1, 1), (2, 1), (0, 2), (1, 2)], ["u1", "<u2", "<i4", ">i4", "i8", ">f4", "f4", "f8", "i2"]),
    "mrcz": (".mrcz", [(1, 2)], ["i1", "i2", "u2", "f4", "c8", "f8"]),
    "tiff": (".tif", [(0, 2), (1, 2)], ["u1", "u2", "i2", "i4", "f4", "f8", "rgb", "rgba", ">u2"]),
    "tvips": (".tvips", [(0, 2), (1, 2), (2, 2), (3, 2)], ["u1", "u2", "u4"]),
    "pantarhei": (".prz", [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2)], ["u1", "i2", "f4", "f8", ">u2"]),
    "nexus": (".nxs", [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 2)], ["u1", "i2", "i4", "f4", "f8", "c16", "?", ">i4"]),
    "numpy": (".npy", [(0, 1), (0, 2), (1, 1), (1, 2), (2, 2)], ["u1", "i4", ">i4", "f4", "f8", "c8", "?"]),
    "image": (".png", [(0, 2), (2, 0)], ["u1", "u2", "rgb", "rgba"]),
    "digitalsurf": (".sur", [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1), (2, 0), (1, 0)], ["i2", "i4", "u1", "?", "rgb", "f8"]),
    "semper": (".unf", [(0, 1), (0, 2), (1, 1), (1, 2), (2, 1)], ["i1", "i2", ">i2", "i4", "f4", ">f4", "f2", "c8"]),
}
UNITS = {
    "blockfile": (["nm", "nm"], ["cm", "cm"]),
}
NAMES = ["x", "y", "Energy", "depth", "time", "kx", "ky", "Wavelength", "z"]


#: those that keep every number
FINE = ("emd", "msa", "ripple", "tiff", "pantarhei", "nexus", "numpy", "semper")


def data(r, dt, sh, fine=False):
    n = int(np.prod(sh))
    b = r.randrange(1, 40)
    v = np.arange(n) * r.choice([1, 1, 3]) + b
    if dt == "?":
        a = np.array([r.random() < 0.5 for _ in range(n)])
    elif dt == "U":
        a = np.array([f"s{int(i)}" for i in v])
    elif dt in ("rgb", "rgba"):
        a = np.zeros(n, dtype=[(c, "u1") for c in dt.upper()])
        for k, c in enumerate(dt.upper()):
            a[c] = (v + 7 * k) % 250
    elif np.dtype(dt).kind == "c":
        a = ((v % 100) + 1j * ((v + 3) % 100)).astype(dt)
    elif np.dtype(dt).kind == "f":
        a = ((v - 2 * b) / 4).astype(dt)
        if fine and r.random() < 0.4:
            a = ((v - b) / 7 * 10.0 ** r.randrange(-5, 4)).astype(dt)
    elif np.dtype(dt).kind == "i":
        a = ((v % 120) * np.where(np.arange(n) % 3, 1, -1)).astype(dt)
    else:
        a = (v % (250 if np.dtype(dt).itemsize == 1 else 60000)).astype(dt)
    if r.random() < 0.08:
        a[:] = a[-1]
    a = a.reshape(sh)
    if a.ndim > 1 and r.random() < 0.3:
        a = np.asfortranarray(a)
    return a


def gen(r, fmt):
    ext, dims, dts = FORMATS[fmt]
    nav, sig = r.choice(dims)
    dt = r.choice(dts)
    nd = nav + sig
    sizes = [1, 2, 3, 4, 5] if r.random() < 0.3 else [2, 3, 4, 5]
    sh = [r.choice(sizes) for _ in range(nd)]
    if fmt == "mrcz":  # (mrcz can't read other ones)
        sh = [max(2, n) for n in sh]
    if fmt == "blockfile":
        sh[-1] = sh[-2] if r.random() < 0.95 else sh[-2] + 1
    used = list(NAMES)
    r.shuffle(used)
    axes = []
    for i in range(nd):
        if fmt == "blockfile":
            u = r.choice(["nm", "nm", "µm"]) if i < nav else "cm"
        elif fmt == "tvips":
            u = r.choice(["", "ms", "s"]) if i < nav else ""
        elif fmt == "emd":
            u = r.choice(["nm", "eV", "s", None])
        else:
            u = r.choice(["nm", "eV", "s", "µm" if fmt != "msa" else "keV", None])
        axes.append({"_type": "UniformDataAxis", "name": used[i], "units": u, "navigate": i < nav, "is_binned": False,
                     "size": sh[i], "scale": r.choice([0.5, 1.0, 2.0, 0.25, 4.0]), "offset": r.choice([0.0, 0.0, 1.0, -2.5, 16.0])})
    if fmt in ("tvips", "tiff"):
        u = r.choice(["nm", "1/nm", "nm"])
        for a in axes[nav:]:
            a["units"] = u
            if fmt == "tvips":
                a["scale"], a["offset"] = 2.0, r.choice([0.0, 5.0, 3.0])
    long = "".join(r.choice("ab c") for _ in range(r.randrange(60, 200))).strip()
    md = {"General": {"title": long if fmt in ("msa", "emd", "nexus") and r.random() < 0.25 else r.choice(["", "t1", "A title", "some longer title: 1"])}, "Signal": {"signal_type": ""}}
    if r.random() < 0.5:
        md["General"]["date"] = r.choice(["2020-02-29", "1999-12-31"])
        md["General"]["time"] = r.choice(["12:34:56", "01:02:03", "12:34:56.250000"])
    if r.random() < 0.3:
        md["Signal"]["signal_type"] = r.choice(["EELS", "EDS_TEM", "diffraction"])
    if md["Signal"]["signal_type"] == "EDS_TEM" or r.random() < 0.3:
        md["Acquisition_instrument"] = {"TEM": {"beam_energy": 200.0, "Stage": {"tilt_alpha": 2.0},
                                                "Detector": {"EDS": {"live_time": 2.5}}}}
    om = r.choice([{}, {}, {"a": {"b": 1}, "c": "text"}])
    s = {"data": data(r, dt, sh, fmt in FINE), "axes": axes, "metadata": md, "original_metadata": om, "learning_results": {}, "models": {},
         "attributes": {"_lazy": False}, "tmp_parameters": {}, "package_info": {"package": "x", "package_version": "1"}}
    kw = options(r, fmt, s)
    return {"fmt": fmt, "ext": ext, "nav": nav, "sig": sig, "dt": dt, "signal": s, "kw": kw, "lazywrite": can_lazy(fmt) and r.random() < 0.3}


def can_lazy(fmt):
    return fmt in ("blockfile", "emd", "nexus", "tvips")


def options(r, fmt, s):
    kw = {}
    if fmt == "blockfile":
        kw["show_progressbar"] = False
        if s["data"].dtype != "u1" or r.random() < 0.2:
            kw["intensity_scaling"] = r.choice(["crop", "minmax", (0, 200)])
        if r.random() < 0.3:
            kw["navigator"] = None
    elif fmt == "emd":
        if r.random() < 0.3:
            kw["compression"] = "gzip"
        if r.random() < 0.3:
            kw["chunks"] = r.choice([True, tuple(max(1, n // 2) for n in s["data"].shape)])
    elif fmt == "msa":
        kw["format"] = r.choice(["Y", "XY", "Y"])
        if r.random() < 0.2:
            kw["encoding"] = "utf8"
    elif fmt == "mrcz":
        kw["endianness"] = "<"
    elif fmt == "tvips":
        kw["show_progressbar"] = False
        if r.random() < 0.5:
            kw["frame_header_extra_bytes"] = r.choice([4, 20])
        if r.random() < 0.5:
            kw["max_file_size"] = r.choice([700, 1000, 300])
        if r.random() < 0.3:
            kw["mode"] = r.choice([1, 2])
    elif fmt == "tiff":
        if r.random() < 0.2:
            kw["export_scale"] = False
        if r.random() < 0.2:
            kw["extratags"] = [(65000, "s", 1, "Random metadata", False)]
    elif fmt == "nexus":
        if r.random() < 0.3:
            kw["use_default"] = True
        if r.random() < 0.3:
            kw["save_original_metadata"] = False
        if r.random() < 0.3:
            kw["compression"] = None
    elif fmt == "digitalsurf":
        if r.random() < 0.3:
            kw["compressed"] = False
        if r.random() < 0.3:
            kw["is_special"] = True
        if r.random() < 0.3:
            kw.update(set_comments="custom", comments={"k": "v"})
    elif fmt == "semper":
        pass
    return kw


def complete(d):
    """A signal that was read, completed for a writer as HyperSpy does."""
    axes = [dict(a) for a in d["axes"]]
    if all("index_in_array" in a for a in axes):
        axes.sort(key=lambda a: a["index_in_array"])
    for i, a in enumerate(axes):
        a.pop("index_in_array", None)
        axes[i] = {"_type": "UniformDataAxis", "name": None, "units": None, "navigate": False, "is_binned": False,
                   "scale": 1.0, "offset": 0.0, **a}
    lazy = type(d["data"]).__module__.startswith("dask")
    return {"data": d["data"], "axes": axes, "metadata": copy.deepcopy(d["metadata"]),
            "original_metadata": copy.deepcopy(d.get("original_metadata", {})), "learning_results": {}, "models": {},
            "attributes": {"_lazy": lazy}, "tmp_parameters": {}, "package_info": {"package": "x", "package_version": "1"}}


def path_of(e, folder):
    return os.path.join(folder, "f" + e["ext"])


def write(e, fn):
    m = importlib.import_module("rsciio." + e["fmt"])
    s = e["signal"]
    if e["lazywrite"]:
        import dask.array as da

        s = dict(s, data=da.from_array(s["data"], chunks=tuple(max(1, n // 2) for n in s["data"].shape)),
                 attributes={"_lazy": True})
    m.file_writer(fn, s, **e["kw"])


def read_path(e, fn):
    if e["fmt"] == "tvips":
        return fn[: -len(e["ext"])] + "_000" + e["ext"]
    return fn


def read(e, fn, lazy=None):
    m = importlib.import_module("rsciio." + e["fmt"])
    kw = {}
    if lazy is not None:
        kw["lazy"] = lazy
    if e["fmt"] == "pantarhei":
        kw["allow_restricted_pickle"] = True
    return m.file_reader(read_path(e, fn), **kw)


def num(x, f=1024):
    try:
        x = float(x) * f
    except Exception:
        return BAD
    return int(x) if x == int(x) and abs(x) < 2**31 else BAD


def elems(a):
    if a.dtype.names:
        return [sum(int(x[c]) * 256**k for k, c in enumerate(a.dtype.names[:3])) for x in a.ravel()]
    if a.dtype.kind in "US":
        return [int((x.decode() if isinstance(x, bytes) else x)[1:]) for x in a.ravel()]
    if a.dtype.kind == "O":
        return [int(str(x if not isinstance(x, bytes) else x.decode())[1:]) for x in a.ravel()]
    if a.dtype.kind == "c":
        return [int(x.real) * 1000 + int(x.imag) if x.real == int(x.real) and x.imag == int(x.imag) else BAD for x in a.ravel()]
    # (some formats store floats with 32 bits)
    out = []
    for x in a.ravel().tolist():
        q = num(round(x * 64) / 64 if x == 0 or (not 1e-6 < abs(x) < 1e-2 and abs(x * 64 - round(x * 64)) < 1e-4) else x, 64)
        out.append(2**30 + zlib.crc32(repr(float(x)).encode()) % 2**30 if q == BAD else q)
    return out


def milli(x):
    x = float(x) * 1000
    return round(x) if abs(x) < 2**31 and abs(x - round(x)) < 0.02 else BAD


def s(x):
    return "null" if x is None else str(x)


def obs(d):
    a = d["data"]
    lazy = type(a).__module__.startswith("dask")
    dt = a.dtype
    a = np.asarray(a.compute() if lazy else a)
    # (the byte order of what is computed may differ)
    if a.dtype != dt and a.dtype.newbyteorder("=") != dt.newbyteorder("="):
        dt = np.dtype("S7")
    md = d["metadata"] if isinstance(d.get("metadata"), dict) else {}
    tem = md.get("Acquisition_instrument", {}).get("TEM", {})
    opt = {"beam": tem.get("beam_energy"), "tilt": tem.get("Stage", {}).get("tilt_alpha"),
           "live": tem.get("Detector", {}).get("EDS", {}).get("live_time")}
    g = d.get("metadata", {}).get("General", {}) if isinstance(d.get("metadata"), dict) else {}
    return {
        "lazy": lazy, "shape": [int(n) for n in a.shape], "flat": elems(a),
        "dtype": "".join(dt.names).lower() if dt.names else ("str" if dt.kind in "USO" else dt.newbyteorder("=").name),
        "axes": [{"name": s(x.get("name")), "units": s(x.get("units")), "size": int(x["size"]) if "size" in x else len(x["axis"]),
                  "scale": num(x.get("scale", 1.0)), "offset": num(x.get("offset", 0.0)),
                  "scalem": milli(x.get("scale", 1.0)), "navigate": bool(x.get("navigate"))} for x in d.get("axes", [])],
        "title": s(g.get("title")), "date": s(g.get("date")), "time": s(g.get("time")),
        "stype": s(md.get("Signal", {}).get("signal_type")),
        "extra": s(next((v for k, v in dict(d.get("original_metadata") or {}).items() if str(k).endswith("65000")), None)),
        **{k: -1 if v is None else num(v) for k, v in opt.items()},
    }
