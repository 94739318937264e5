"""Velox EDS event streams (spec: EventStream*.tla)."""
import json
import os

import numpy as np

from ..pmap import pmap

LEVEL = "model_checking"
MARK = 65535


def col(d):
    b = json.dumps(d).encode()
    a = np.frombuffer(b, np.uint8)
    return np.concatenate([a, np.zeros(8, np.uint8)])[:, None]


def meta(e, det=0):
    return {
        "BinaryResult": {
            "PixelSize": {"width": "2e-9", "height": "3e-9"},
            "Offset": {"x": "1e-9", "y": "4e-9"},
            "PixelUnitX": "m",
            "PixelUnitY": "m",
            "Detector": "SuperXG1",
            "DetectorIndex": str(det),
        },
        "Detectors": {
            "Detector-0": {
                "DetectorName": "SuperXG11",
                "DetectorType": "AnalyticalDetector",
                "Dispersion": str(e["disp"]),
                "OffsetEnergy": str(e["eoff"]),
            },
            "Detector-1": {"DetectorName": "HAADF", "DetectorType": "ScanningDetector"},
        },
        "Acquisition": {"AcquisitionStartDatetime": {"DateTime": "1500000000"}},
        "Scan": {"FrameTime": "0.5"},
        "CustomProperties": {},
        "Instrument": {"InstrumentClass": "Talos"},
        "Optics": {"AccelerationVoltage": "200000"},
        "Stage": {"Position": {"x": "0", "y": "0", "z": "0"}},
    }


def build(fn, e):
    import h5py

    with h5py.File(fn, "w") as f:
        dt = h5py.string_dtype("ascii")

        def js(path, d):
            f.create_dataset(path, data=np.array([json.dumps(d)], dtype="S"))

        del dt
        js("Version", {"format": "Velox", "version": str(e["version"])})
        iu = "aaaa"
        n = e["nimg"]
        fr, r, x = np.mgrid[0:n, 0 : e["h"], 0 : e["w"]]
        img = (1000 * fr + 10 * r + x).astype("uint16").transpose(1, 2, 0)
        f.create_dataset(f"Data/Image/{iu}/Data", data=img, chunks=(e["h"], e["w"], 1))
        f.create_dataset(f"Data/Image/{iu}/Metadata", data=col(meta(e, 1)))
        js(
            "Data/SpectrumImage/ssss/SpectrumImageSettings",
            {"endFramePosition": str(e["endpos"])} if e["endpos"] >= 0 else {"x": "1"},
        )
        for k, s in enumerate(e["streams"]):
            g = f"Data/SpectrumStream/st{k}"
            f.create_dataset(g + "/Data", data=np.array(s, "uint16")[:, None])
            js(
                g + "/AcquisitionSettings",
                {"bincount": str(e["bins"]), "StreamEncoding": "uint16"},
            )
            f.create_dataset(g + "/Metadata", data=col(meta(e)))
        if e["version"] < 11:
            js(
                "Presentation/Displays/ImageDisplay/d0",
                {"dataPath": f"/Data/Image/{iu}", "display": {"label": "HAADF"}},
            )
            js(
                "Operations/StemInputOperation/o0",
                {"dataPath": f"/Data/Image/{iu}", "detector": "HAADF"},
            )
        else:
            js("SharedProperties/ImageSeriesDataReference/r0", {"dataPath": f"/Data/Image/{iu}"})
            js(
                "Displays/ImageDisplay/d0",
                {"data": "/SharedProperties/ImageSeriesDataReference/r0", "id": "HAADF"},
            )


def read(e):
    from rsciio.emd import file_reader

    fn = e["fn"]
    kw = {}
    if e["dtarg"]:
        kw["SI_dtype"] = e["dtype"]
    L = file_reader(
        fn,
        lazy=e["lazy"],
        first_frame=e["first"],
        last_frame=None if e["last"] < 0 else e["last"],
        sum_frames=e["sumf"],
        sum_EDS_detectors=e["sumd"],
        rebin_energy=e["rebin"],
        load_SI_image_stack=e["stack"],
        select_type=None if e["imgs"] else "spectrum_image",
        **kw,
    )
    si, im = [], []
    for d in L:
        a = d["data"]
        lz = type(a).__module__.startswith("dask")
        assert lz == e["lazy"], "laziness"
        dtp = str(a.dtype)
        if lz:
            a = a.compute()
            if hasattr(a, "todense"):
                a = a.todense()
        a = np.asarray(a)
        if d["axes"][-1]["name"] == "X-ray energy":
            nz = np.flatnonzero(a)
            ip = d["original_metadata"]["ImportedDataParameter"]
            si.append(
                {
                    "shape": list(a.shape),
                    "nz": [[int(i), int(a.flat[i])] for i in nz],
                    "axsizes": [int(x["size"]) for x in d["axes"]],
                    "esc": int(round(d["axes"][-1]["scale"] * 1000)),
                    "eoff": int(round(d["axes"][-1]["offset"] * 1000)),
                    "dtype": dtp,
                    "meta": [
                        int(ip["First_frame"]),
                        int(ip["Last_frame"]),
                        int(ip["Number_of_channels"]),
                        int(ip["Rebin_energy"]),
                    ],
                    "nframes": -1 if ip["Number_of_frames"] is None else int(ip["Number_of_frames"]),
                }
            )
        else:
            im.append({"shape": list(a.shape), "flat": [int(v) for v in a.ravel()]})
    return {"si": si, "img": im}


def gen_stream(rng, h, w, bins, frames, tail):
    s = []
    for k in range(frames * h * w):
        n = rng.choice([0, 0, 1, 1, 2, 3, 5])
        p = [rng.randrange(bins) for _ in range(n)]
        if n and rng.random() < 0.5:
            p += [p[-1]] * rng.randrange(3)  # repeats, adjacent
        if n > 1 and rng.random() < 0.5:
            p.append(p[0])  # repeat, not adjacent
        if rng.random() < 0.2:
            p.append(rng.choice([0, bins - 1]))
        s += p + [MARK]
    if tail == "nomark":
        s = s[:-1]
    elif tail == "partial":  # an interrupted last frame
        cut = rng.randrange(1, max(2, len(s)))
        s = s[:cut]
    return s or [0]


def cases(ctx):
    rng = ctx.rng
    out = []
    n = 150 if ctx.quick else 1500
    for i in range(n):
        h, w = rng.choice([(1, 1), (1, 3), (3, 1), (2, 3), (3, 2), (2, 2), (3, 4)])
        bins = rng.choice([1, 2, 4, 6, 8, 12])
        frames = rng.choice([1, 1, 2, 3, 4])
        divs = [d for d in range(1, bins + 1) if bins % d == 0]
        rebin = rng.choice(divs) if rng.random() < 0.93 else bins + 1
        nd = rng.choice([1, 1, 2, 3])
        tail = rng.choice(["mark", "nomark", "nomark", "partial"])
        streams = [
            gen_stream(rng, h, w, bins, frames, tail if k == 0 else rng.choice(["mark", "nomark"]))
            for k in range(nd)
        ]
        endpos = rng.choice([-1, frames, frames, frames, max(1, frames - 1)])
        avail = endpos if endpos >= 0 else frames
        last = rng.choice([-1, -1, avail, rng.randrange(1, avail + 1)])
        if endpos < 0 and tail == "partial" and last < 0:
            real = -(-sum(v == MARK for v in streams[0]) // (h * w))
            avail = real
        hi = last if last >= 0 else avail
        if hi < 1:
            continue
        first = rng.choice([0, 0, rng.randrange(0, hi)])
        if endpos >= 0 and rng.random() < 0.04:
            last = endpos + 1
        dtarg = rng.random() < 0.3
        out.append(
            dict(
                h=h, w=w, bins=bins, rebin=rebin, streams=streams, endpos=endpos,
                first=first, last=last, sumf=rng.random() < 0.5, sumd=rng.random() < 0.6,
                lazy=i % 2 == 1, dtarg=dtarg,
                dtype=rng.choice(["uint8", "uint32", "float32", "uint16"]) if dtarg else "uint16",
                version=rng.choice([7, 11]), nimg=rng.choice([1, 2, 3]),
                stack=rng.random() < 0.4, imgs=rng.random() < 0.7,
                disp=rng.choice([5, 10, 20]), eoff=rng.choice([0, -50, 100]),
            )
        )
    return out


def run(ctx):
    mcs = [(1, 2, 2, 1, 6 if ctx.quick else 8), (2, 1, 2, 2, 5 if ctx.quick else 7), (1, 1, 2, 1, 6 if ctx.quick else 8)]
    if not ctx.quick:
        mcs += [(2, 2, 1, 1, 11), (1, 3, 3, 3, 7)]
    for h, w, b, r, n in mcs:
        ctx.model_check(
            "EventStreamMC",
            "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
            "INVARIANTS MachineMeetsDeclaration PixelInFrame CountsConserved SumOfFrames "
            "WindowsPartition DeducedFramesCover\n"
            f"CONSTANTS H={h} W={w} Bins={b} Rebin={r} MaxLen={n}\n",
        )
    es = cases(ctx)
    # a pair: the same file read lazily and eagerly
    es = [dict(e, lazy=z) for e in es for z in ((False, True) if ctx.quick else (e["lazy"], not e["lazy"]))]
    d = ctx.dir()
    for i, e in enumerate(es):
        e["fn"] = os.path.join(d, f"f{i}.emd")

    def one(e):
        build(e["fn"], e)
        r = read(e)
        os.unlink(e["fn"])
        return r

    obs = pmap(one, es)
    tr = []
    for e, o in zip(es, obs):
        t = {k: v for k, v in e.items() if k != "fn"}
        t["obs"] = o
        tr.append(t)
    judge(ctx, "EventStreamTrace", tr, lambda e: f"velox-{'lazy' if e['lazy'] else 'eager'}")


def judge(ctx, module, tr, keyf, chunk=400):
    for k in range(0, len(tr), chunk):
        part = tr[k : k + chunk]
        for f in ctx.validate(module, part, name=f"-{k}"):
            e = part[f["line"] - 1]
            for cl in f["clauses"]:
                ctx.violation(f"{keyf(e)}:{cl}", f"specification clause '{cl}' rejected: {str(e)[:600]}", e)
    ctx.count("traces_validated_against_impl", len(tr))
    for e in tr[:2]:
        ctx.sample(json.loads(json.dumps(e, default=str)))
