"""Files of all kinds to read: made by the writers, built after the
specifications of the formats, and damaged copies of those."""
import os
import random
import shutil
import tempfile
from types import SimpleNamespace

from ..pmap import pmap
from . import dm, jeol, mib, ser, signals

WRITERS = sorted(signals.FORMATS) + ["hspy", "zspy"]
BUILT = ["velox", "jeol", "mib", "ser", "dm"]
#: (each in a folder of its own, under a name of its own)
MORE = ["labspec", "hamamatsu", "trivista", "renishaw", "jeolfile", "tvips", "bcf", "edax", "empad", "oldhspy"]
#: kinds whose readers are never lazy
EAGER = {"labspec", "trivista", "renishaw"}


def plan(r, kind):
    """Something to make a file of, with the options to read it with."""
    if kind in signals.FORMATS:
        e = signals.gen(r, kind)
        kw = {"allow_restricted_pickle": True} if kind == "pantarhei" else {}
        return {"kind": kind, "plugin": kind, "e": e, "kw": kw, "ext": e["ext"]}
    if kind in ("hspy", "zspy"):
        return {"kind": kind, "plugin": kind, "e": r.randrange(10**9), "kw": {}, "ext": "." + kind}
    if kind == "velox":
        from ..props import c10

        e = r.choice(c10.cases(SimpleNamespace(rng=r, quick=True))[:20])
        kw = dict(first_frame=e["first"], last_frame=None if e["last"] < 0 else e["last"], sum_frames=e["sumf"],
                  sum_EDS_detectors=e["sumd"], rebin_energy=e["rebin"], load_SI_image_stack=e["stack"])
        if not e["imgs"]:
            kw["select_type"] = "spectrum_image"
        return {"kind": kind, "plugin": "emd", "e": e, "kw": kw, "ext": ".emd"}
    if kind == "jeol":
        from ..props import c11

        e = c11.gen(r)
        c = e["c"]
        kw = dict(sum_frames=c["sumf"], rebin_energy=c["rebin"], only_valid_data=c["valid"], read_em_image=e["em"],
                  downsample=[c["dsx"], c["dsy"]], SI_dtype="uint16")
        if c["flist"]:
            kw["frame_list"] = list(c["flist"])
        if c["shifts"]:
            kw["frame_shifts"] = [list(s[: e["shn"]]) for s in c["shifts"]]
        return {"kind": kind, "plugin": "jeol", "e": e, "kw": kw, "ext": ".pts"}
    if kind == "mib":
        from ..props import c14

        while True:
            e = c14.gen(r)
            e["name"] = "file.mib"
            if c14.complete_line(e) and e["hdrframes"] == e["n"]:
                break
        kw = {}
        if e["nav"]:
            kw["navigation_shape"] = tuple(e["nav"])
        return {"kind": kind, "plugin": "quantumdetector", "e": e, "kw": kw, "ext": ".mib"}
    if kind == "ser":
        from ..props import c15

        e = c15.gen(r, r.random() < 0.5)
        return {"kind": kind, "plugin": "tia", "e": e, "kw": {"only_valid_data": e["onlyvalid"]}, "ext": ".ser"}
    if kind == "dm":
        from ..props import c13

        e = dict(c13.gen(r), order="", lazy=False)
        return {"kind": kind, "plugin": "digitalmicrograph", "e": e, "kw": {}, "ext": f".dm{e['version']}"}
    if kind in MORE:
        return more(r, kind)
    raise KeyError(kind)


def more(r, kind):
    """(kinds that say themselves how they're written: a function of the folder)"""
    def put(fname, b, files=()):
        def go(d):
            for parts, c in (*files, ((fname,), b)):
                q = os.path.join(d, *parts)
                os.makedirs(os.path.dirname(q), exist_ok=True)
                with open(q, "wb") as f:
                    f.write(c)
            return os.path.join(d, fname)

        return go

    if kind in ("labspec", "hamamatsu", "trivista"):
        from ..props import c24

        e, b = c24.GEN[kind](r)
        while e["bad"]:
            e, b = c24.GEN[kind](r)
        plugin = {"labspec": "jobinyvon"}.get(kind, kind)
        kw = {"use_uniform_signal_axes" if kind == "hamamatsu" else "use_uniform_signal_axis": e["uniform"]}
        if kind == "trivista":
            kw["glued_data_as_stack"] = e["stack"]
        return {"kind": kind, "plugin": plugin, "kw": kw, "make": put(e["fname"], b)}
    if kind == "renishaw":
        from ..props import c25

        e, b = c25.gen(r)
        while e["bad"]:
            e, b = c25.gen(r)
        return {"kind": kind, "plugin": kind, "kw": {"use_uniform_signal_axis": e["uniform"], "load_unmatched_metadata": e["unmatched"]}, "make": put("a b.wdf", b)}
    if kind == "jeolfile":
        from ..props import c22

        t = r.choice(["img", "eds", "asw"])
        e, b = c22.GEN[t](r)
        b, files = b if t == "asw" else (b, ())
        return {"kind": kind, "plugin": "jeol", "kw": {}, "make": put(e["fname"], b, files)}
    if kind == "tvips":
        from ..props import c09
        from . import tvips

        e = c09.gen(r)
        kw = c09.options(e)
        del kw["lazy"]
        return {"kind": kind, "plugin": kind, "kw": kw, "make": lambda d: tvips.build(d, e)}
    if kind == "bcf":
        from . import bcf

        g, raw = bcf.gen(r)
        kw = {"index": r.choice([None, "all", r.randrange(len(g["maps"]))]), "downsample": r.choice([1, 1, 2, 3]),
              "cutoff_at_kV": r.choice([None, "zealous", "auto", g["head"]["eoff"] + g["head"]["elin"] * r.randrange(1, 2 * min(g["nch"], 80))])}
        return {"kind": kind, "plugin": "bruker", "kw": kw, "make": put("x.bcf", raw)}
    if kind == "edax":
        from ..props import c20

        e = c20.gen_edax(r)
        with tempfile.TemporaryDirectory() as t:  # (only to know the options)
            kw = c20.write_edax(e, t)[1]
        del kw["lazy"]
        return {"kind": kind, "plugin": kind, "kw": kw, "make": lambda d: c20.write_edax(e, d)[0]}
    if kind == "empad":
        from ..props import c20

        e = c20.gen_empad(r)
        with tempfile.TemporaryDirectory() as t:
            kw = c20.write_empad(e, t)[1]
        del kw["lazy"]
        return {"kind": kind, "plugin": kind, "kw": kw, "make": lambda d: c20.write_empad(e, d)[0]}
    from ..props import c23

    e, raw = c23.gen(r)
    seed = r.randrange(2**30)

    def old(d):
        fn = os.path.join(d, "file." + ("zspy" if e["zarr"] else "hspy"))
        c23.build(random.Random(seed), fn, e, raw)
        return fn

    return {"kind": kind, "plugin": "zspy" if e["zarr"] else "hspy", "kw": {}, "make": old}


def make(p, folder):
    """Make the file; the path to give to the reader."""
    os.makedirs(folder, exist_ok=True)
    if "make" in p:
        return p["make"](folder)
    fn = os.path.join(folder, "file" + p["ext"])
    e = p["e"]
    if p["kind"] in signals.FORMATS:
        signals.write(e, fn)
        return signals.read_path(e, fn)
    if p["kind"] in ("hspy", "zspy"):
        import importlib

        from ..props import c01

        s = c01.signal(e, p["kind"] == "hspy")
        importlib.import_module("rsciio." + p["kind"]).file_writer(fn, s)
    elif p["kind"] == "velox":
        from ..props import c10

        c10.build(fn, e)
    elif p["kind"] == "jeol":
        jeol.build(fn, e)
    elif p["kind"] == "mib":
        mib.build(fn, e)
    elif p["kind"] == "ser":
        ser.build(fn, e)
    elif p["kind"] == "dm":
        dm.build(fn, e)
    return fn


def files(ctx, n, kinds=None, r=None):
    """``n`` files of every kind: [(plugin, path, options, kind)]."""
    r = r or ctx.rng
    d = ctx.dir()
    ps = [plan(random.Random(r.randrange(10**9)), k) for k in (kinds or WRITERS + BUILT) for _ in range(n)]
    res = pmap(lambda i: make(ps[i], os.path.join(d, str(i))), range(len(ps)), procs=8, timeout=60)
    return [(p["plugin"], f, p["kw"], p["kind"]) for p, f in zip(ps, res) if isinstance(f, str)]


def damage(r, item, folder):
    """A damaged copy of the files of ``item``, in ``folder``."""
    plugin, f, kw, kind = item
    src = os.path.dirname(f)
    dst = os.path.join(folder, "d")
    shutil.copytree(src, dst)
    g = os.path.join(dst, os.path.basename(f))
    if os.path.isdir(g):
        fs = sorted(os.path.join(a, x) for a, _, b in os.walk(g) for x in b)
        v = r.choice(fs)
        if r.random() < 0.5:
            os.unlink(v)
            return plugin, g, kw, kind
        g2 = v
    else:
        g2 = g
    hdf = False
    with open(g2, "rb") as h:
        hdf = h.read(8) == b"\x89HDF\r\n\x1a\n"
    if hdf and r.random() < 0.8:
        import h5py

        with h5py.File(g2, "a") as h:
            names, atts = [], []
            h.visititems(lambda k, v: (names.append(k), atts.extend((k, a) for a in v.attrs)) and None)
            atts += [("/", a) for a in h.attrs]
            if atts and r.random() < 0.5:
                k, a = r.choice(sorted(atts))
                del h[k].attrs[a]
            else:
                k = r.choice(sorted(names))
                new = r.random() < 0.3
                del h[k]
                if new:
                    h[k] = 5
    else:
        n = os.path.getsize(g2)
        b = bytearray(open(g2, "rb").read())
        w = r.random()
        if w < 0.5:
            b = b[: r.randrange(n) if n else 0]
        elif w < 0.9 and n:
            for _ in range(r.choice([1, 2, 8])):
                b[min(n - 1, int(n * r.random() ** 3))] = r.choice([0, 255, 1, 32, 128])
        else:
            b = bytearray()
        with open(g2, "wb") as h:
            h.write(b)
    return plugin, g, kw, kind


def edits(item):
    """Every single removal from (or replacement in) a file in HDF5."""
    import h5py

    f = item[1]
    if os.path.isdir(f) or not h5py.is_hdf5(f):
        return []
    out = []
    with h5py.File(f, "r") as h:
        def see(k, v):
            out.append(("del", k, ""))
            out.append(("new", k, ""))
            out.extend(("attr", k, a) for a in v.attrs)

        h.visititems(see)
        out += [("attr", "/", a) for a in h.attrs]
    return sorted(out)


def edit(item, what, folder):
    import h5py

    plugin, f, kw, kind = item
    dst = os.path.join(folder, "d")
    shutil.copytree(os.path.dirname(f), dst)
    g = os.path.join(dst, os.path.basename(f))
    op, k, a = what
    with h5py.File(g, "a") as h:
        if op == "attr":
            del h[k].attrs[a]
        else:
            del h[k]
            if op == "new":
                h[k] = 5
    return plugin, g, kw, kind
