"""HyperSpy files of every version (spec: Migration*.tla)."""
import datetime as D
import os
import shutil

import numpy as np

from ..pmap import observe, pmap
from .c10 import judge

LEVEL = "model_checking"
VERSIONS = [(1, 0), (1, 0), (1, 1), (1, 1), (1, 2), (1, 3), (2, 0), (2, 1), (2, 2), (3, 0), (3, 1), (3, 3), (4, 0), (1, 10)]


def tagged(v):
    if hasattr(v, "compute"):
        v = v.compute()
    if v is None:
        return "n"
    if isinstance(v, (bool, np.bool_)):
        return f"b:{bool(v)}"
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (int, np.integer)):
        return f"i:{int(v)}"
    if isinstance(v, (float, np.floating)):
        return f"f:{float(v)!r}"
    if isinstance(v, (list, tuple)):
        return ("l" if isinstance(v, list) else "t") + "[" + ",".join(tagged(x) for x in v) + "]"
    if isinstance(v, np.ndarray):
        return f"a{list(v.shape)}[" + ",".join(tagged(x) for x in v.ravel().tolist()) + "]"
    return f"{type(v).__name__}:{v!r}"


def leaves(d, p=()):
    out = []
    for k, v in d.items():
        if isinstance(v, dict):
            out += leaves(v, (*p, k))
        else:
            out.append({"p": [*p, k], "v": tagged(v)})
    return out


# ------------------------------------------------------------------ making files
def value(r):
    k = r.randrange(10)
    return [lambda: r.choice(["", "abc", "é", "10", "None"]), lambda: r.randrange(-1000, 1000), lambda: r.randrange(-800, 800) / 8, lambda: r.random() < 0.5, lambda: None,
            lambda: [r.randrange(9) for _ in range(r.randrange(0, 4))], lambda: tuple(r.randrange(9) for _ in range(r.randrange(0, 3))),
            lambda: np.arange(r.randrange(1, 6)) * 1.5, lambda: [r.choice(["a", "é", ""]) for _ in range(r.randrange(1, 13))], lambda: r.choice(["_x", "2014"])][k]()


def put(d, path, v):
    for q in path[:-1]:
        d = d.setdefault(q, {})
        if not isinstance(d, dict):
            return
    if path[-1] not in d:
        d[path[-1]] = v


OLD = [("signal",), ("name",), ("_internal_parameters", "stacking_history", "axis"), ("_internal_parameters", "folding", "unfolded"), ("_internal_parameters", "x"), ("Variance_estimation", "gain_factor"),
       ("Variance_estimation", "gain_offset"), ("TEM", "EELS", "collection_angle"), ("TEM", "EELS", "spectrometer"), ("TEM", "EDS", "live_time"), ("TEM", "EDS", "azimuth_angle"),
       ("TEM", "dwell_time"), ("TEM", "dwell_time_units"), ("TEM", "exposure"), ("TEM", "exposure_units"), ("TEM", "exposure_time"), ("TEM", "tilt_stage"), ("TEM", "beam_energy"), ("TEM", "Detector", "Camera", "name"),
       ("TEM", "Stage", "x"), ("TEM", "Detector", "Diode", "gain"), ("SEM", "EDS", "live_time"), ("SEM", "tilt_stage"), ("SEM", "beam_energy"), ("SEM", "Stage", "y"), ("Sample", "Xray_lines"), ("Sample", "elements"), ("title",), ("date",),
       ("time",), ("original_filename",), ("record_by",), ("signal_origin",), ("signal_type",), ("General", "notes"), ("Signal", "quantity"), ("Noise_properties", "v"),
       ("Acquisition_instrument", "x")]
MID = [("General", "title"), ("General", "date"), ("Signal", "signal_type"), ("Acquisition_instrument", "TEM", "exposure"), ("Acquisition_instrument", "TEM", "exposure_time"), ("Acquisition_instrument", "TEM", "tilt_stage"),
       ("Acquisition_instrument", "TEM", "Detector", "EELS", "exposure"), ("Acquisition_instrument", "TEM", "Detector", "Camera", "name"), ("Acquisition_instrument", "TEM", "Stage", "x"), ("Acquisition_instrument", "SEM", "tilt_stage"),
       ("Acquisition_instrument", "SEM", "Stage", "y"), ("Acquisition_instrument", "SEM", "Detector", "EDS", "live_time"), ("Sample", "xray_lines"), ("Sample", "Xray_lines"), ("title",), ("record_by",), ("TEM", "exposure"), ("signal",), ("name",), ("a", "b", "c")]


def metadata(r, ver):
    d = {}
    old = ver < (1, 2)
    for q in r.sample(OLD if old else MID, r.randrange(0, 14)):
        if ver == (1, 1) and q in (("signal",), ("name",)) and r.random() < 0.5:
            continue
        v = value(r)
        if q[-1] == "date":
            v = D.date(2014, 7, r.randrange(1, 29)) if r.random() < 0.5 else "2014-07-08"
        if q[-1] == "time":
            v = D.time(*r.choice([(13, 14), (13, 14, 15), (1, 2, 3, 4)])) if r.random() < 0.5 else "01:02:03"
        if q[-1] in ("title", "name"):
            v = r.choice(["", "my title", "é"])
        put(d, q, v)
    if old:  # a name is not there twice
        if "title" in d and ver < (1, 1):
            d.pop("name", None)
        if "signal_type" in d and ver < (1, 1):
            d.pop("signal", None)
    return d


def plain(d):
    return {k: plain(v) if isinstance(v, dict) else v.isoformat() if isinstance(v, (D.date, D.time)) else v for k, v in d.items()}


def dset(g, name, a, string=False):
    if g.__class__.__module__.startswith("h5py"):
        import h5py

        if string:
            g.create_dataset(name, data=np.array(a, object), dtype=h5py.string_dtype(), chunks=True)
        else:
            g.create_dataset(name, data=a, chunks=True, compression="gzip")
    else:
        import zarr

        if string:
            from numcodecs import VLenUTF8

            x = np.array(a, object)
            g.create_dataset(name, data=x, shape=x.shape, dtype=object, object_codec=VLenUTF8(), chunks=x.shape)
        else:
            g.create_dataset(name, data=a, shape=a.shape, dtype=a.dtype, chunks=a.shape)
        del zarr


def store(r, g, d):
    hdf = g.__class__.__module__.startswith("h5py")
    for k, v in d.items():
        if isinstance(v, dict):
            store(r, g.create_group(k), v)
        elif v is None:
            g.attrs[k] = "_None_"
        elif isinstance(v, (D.date, D.time)):
            g.attrs["_datetime_date" if isinstance(v, D.date) else "_datetime_time"] = repr(v)
        elif isinstance(v, (list, tuple)):
            n = "list" if isinstance(v, list) else "tuple"
            if not v:
                g.attrs[f"_{n}_empty_{k}"] = "_None_"
            elif isinstance(v[0], str) and len(v) > 3:
                # one by one
                h = g.create_group(f"_{n}_{len(v)}_{k}")
                for i, x in enumerate(v):
                    h.attrs[f"_{i}"] = x
            elif isinstance(v[0], str):
                dset(g, f"_{n}_{k}", v, string=True)
            else:
                dset(g, f"_{n}_{k}", np.array(v))
        elif isinstance(v, np.ndarray):
            dset(g, k, v)
        elif isinstance(v, str) and hdf and v and r.random() < 0.3:
            g.attrs[k] = np.bytes_(v.encode())
        else:
            g.attrs[k] = v


def gen(r):
    e = {"lazy": r.random() < 0.3, "zarr": False}
    ver = r.choice(VERSIONS)
    how = r.choice(["str", "str", "str", "bytes", "float", "none"])
    e["zarr"] = ver >= (3, 0) and r.random() < 0.2
    if how == "none":
        e["hasexp"] = r.random() < 0.6
        e["hasana"] = r.random() < 0.7
        ver = (1, 0) if e["hasexp"] else (2, 0)
        e["said"] = []
    else:
        e["hasexp"], e["hasana"] = r.random() < 0.95, r.random() < 0.4
        if ver == (1, 10) and how == "float":
            how = "str"
        e["said"] = list(ver)
    e["how"] = "str" if e["zarr"] and how == "bytes" else how
    e["exps"], e["models"] = [], []
    raw = {"exps": [], "models": []}
    for name in r.sample(["sig", "sig0", "sig01", "a b", "é", "__unnamed__"], r.choice([0, 1, 1, 2, 3, 4]) if e["hasexp"] else 0):
        nd = r.choice([1, 2, 3])
        shape = [r.randrange(1, 4) for _ in range(nd)]
        data = np.array([r.randrange(1000) for _ in range(int(np.prod(shape)))]).reshape(shape)
        x = {"name": name, "whole": r.random() < 0.93, "valid": True, "shape": shape, "flat": data.ravel().tolist()}
        md, om = metadata(r, ver), {k: value(r) for k in r.sample(["k", "date", "TEM", "x y", "signal", "title"], r.randrange(0, 4))}
        om["g"] = {"h": {"i": 5}}
        at = {k: value(r) for k in r.sample(["ragged", "_lazy_", "models_"], r.randrange(0, 3))} if r.random() < 0.4 else None
        res = {n: {"number": 3, "scree": np.arange(3) / 4, "g": {"x": None}} for n in r.sample(["learning_results", "peak_learning_results"] if ver >= (1, 1) or r.random() < 0.3 else ["mva_results", "peak_mva_results"], r.randrange(0, 3))}
        for n in ("mva_results",) if ver >= (1, 1) and r.random() < 0.2 else ():
            res[n] = {"number": 1}
        axes = [{"name": f"ax{j}", "size": shape[j], "scale": 0.5, "offset": r.randrange(8) / 4, "units": r.choice(["nm", "é", None]), "navigate": r.random() < 0.5} for j in range(nd)]
        ax = r.choice(["groups", "groups", "list", "short"])
        if ax == "short":
            ax = r.choice(["groups", "groups", "groups", "short"])
        x["valid"] = ax != "short"
        pk = r.choice([["", ""], ["hyperspy", "1.5"]])
        x.update(md=leaves(plain(md)), om=leaves(om), attributes=leaves(at or {}), package=pk, axes=[{k: tagged(v) for k, v in q.items()} for q in axes],
                 results=[{"n": n, "tree": leaves(t)} for n, t in res.items() if not (ver >= (1, 1) and n == "mva_results")])
        e["exps"].append(x)
        raw["exps"].append((x, data, md, om, at, res, axes, ax, pk))
    e["exps"].sort(key=lambda x: x["name"].encode())
    if e["hasana"]:
        for i in range(r.randrange(0, 4)):
            of = r.choice(["", *[x["name"] for x in e["exps"]], "s", "sig", "sig0"])
            t = {"components": {"x": {"v": value(r)}}, "v": 2}
            e["models"].append({"n": f"m{i}", "of": of, "tree": leaves(t)})
            raw["models"].append((f"m{i}", of, t))
    return e, raw


def build(r, fn, e, raw):
    if e["zarr"]:
        import zarr

        f = zarr.open_group(zarr.NestedDirectoryStore(fn), mode="w") if hasattr(zarr, "NestedDirectoryStore") else zarr.open_group(fn, mode="w")
    else:
        import h5py

        f = h5py.File(fn, "w")
    v = e["said"]
    if v:
        f.attrs["file_format_version"] = {"str": f"{v[0]}.{v[1]}", "bytes": np.bytes_(f"{v[0]}.{v[1]}"), "float": float(f"{v[0]}.{v[1]}")}[e["how"]]
    f.attrs["file_format"] = "HyperSpy"
    old = tuple(v or ((1, 0) if e["hasexp"] else (2, 0))) < (1, 2)
    if e["hasexp"]:
        g = f.create_group("Experiments")
        if r.random() < 0.2:
            dset(g, "loose", np.arange(3))
        for x, data, md, om, at, res, axes, ax, pk in raw["exps"]:
            h = g.create_group(x["name"])
            if x["whole"]:
                dset(h, "data", data)
            store(r, h.create_group("mapped_parameters" if old else "metadata"), md)
            store(r, h.create_group("original_parameters" if old else "original_metadata"), om)
            if at is not None:
                store(r, h.create_group("attributes"), at)
            for n, t in res.items():
                store(r, h.create_group(n), t)
            if pk[0]:
                h.attrs["package"], h.attrs["package_version"] = pk
            q = h.create_group(f"_list_{len(axes)}_axes") if ax == "list" else h
            for j, a in enumerate(axes):
                if ax == "short" and j == len(axes) - 1:
                    continue
                store(r, q.create_group(str(j) if ax == "list" else f"axis-{j}"), a)
    if e["hasana"]:
        g = f.create_group("Analysis")
        if raw["models"] or r.random() < 0.5:
            g = g.create_group("models")
        for n, of, t in raw["models"]:
            h = g.create_group(n)
            store(r, h, t)
            if of:
                h.attrs["_signal"] = "/Experiments/" + of
    if not e["zarr"]:
        f.close()


def seen(L):
    out = {"signals": [], "alone": []}
    for d in L:
        if "data" not in d:
            out["alone"] += [{"n": n, "tree": leaves(t)} for n, t in d.items()]
            continue
        x = d["data"]
        x = np.asarray(x.compute() if hasattr(x, "compute") else x)
        out["signals"].append({"shape": list(x.shape), "flat": [int(v) for v in x.ravel()], "md": leaves(d["metadata"]), "om": leaves(d["original_metadata"]), "attributes": leaves(d["attributes"]),
                               "package": [str(d["package"]), str(d["package_version"])], "axes": [{k: tagged(v) for k, v in a.items()} for a in d["axes"]],
                               "models": [{"n": n, "tree": leaves(t)} for n, t in d["models"].items()]})
    return out


def run(ctx):
    ctx.model_check("MigrationMC", f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Kept Direct Fixed\nPROPERTY Ends\nCONSTANTS N={2 if ctx.quick else 4}\n")
    n = 900 if ctx.quick else 12000
    es = [gen(ctx.rng) for _ in range(n)]
    seeds = [ctx.rng.randrange(2**30) for _ in es]
    d = ctx.dir()

    def one(i):
        import random
        import warnings

        from rsciio.hspy import file_reader
        from rsciio.zspy import file_reader as zread

        warnings.simplefilter("ignore")
        e, raw = es[i]
        fn = os.path.join(d, f"{i}." + ("zspy" if e["zarr"] else "hspy"))
        build(random.Random(seeds[i]), fn, e, raw)
        try:
            return observe(lambda: seen((zread if e["zarr"] else file_reader)(fn, lazy=e["lazy"])))
        finally:
            shutil.rmtree(fn) if os.path.isdir(fn) else os.remove(fn)

    obs = pmap(one, range(len(es)), procs=8, timeout=60)
    judge(ctx, "MigrationTrace", [dict(e, obs=o) for (e, _), o in zip(es, obs)], lambda e: "hspy-" + ("zarr" if e["zarr"] else "hdf"), chunk=10**6)
