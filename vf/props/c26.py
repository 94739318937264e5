"""NeXus files of others (spec: NexusFile*.tla)."""
import os

import numpy as np

from ..pmap import observe, pmap
from .c10 import judge
from .c24 import leaves, tagged

LEVEL = "model_checking"
NAMES = ["entry", "entry1", "entry2", "data", "data2", "Fe", "Fe_K", "Ca", "instrument", "detector", "sample", "sub", "lnk", "keys", "keystone", "x", "y", "energy", "errors", "z_axis"]
RESERVED = ["keys", "keystone"]
STEP = {"nano": 1e-9, "quarter": 0.25}  # (in the order in which they are tried)


def values(a, n, k):
    """of axis k"""
    u = STEP[a["unit"]]
    if a["kind"] == "even":
        return (np.arange(n) * a["step"] + a["off"]) * u
    if a["kind"] == "uneven":
        return (np.arange(n) ** 2 * a["step"] + a["off"]) * u
    return np.array([f"t{k}_{i}" for i in range(n)], dtype=object)


class Gen:
    def __init__(self, r):
        self.r = r
        self.nodes = []
        self.raw = {}
        self.id = 0

    def has(self, p):
        return any(n["path"] == p for n in self.nodes)

    def attrs(self, cls, deep=True):
        r = self.r
        at = {}
        if deep and r.random() < 0.4:
            at[r.choice(["version", "keys", "note"])] = r.choice(["abc", "1.5 µm", 3, 250])
        if cls:
            at["NX_class"] = cls
        return at

    def group(self, p, cls="", **kw):
        at = self.attrs(cls)
        n = dict({"path": p, "t": "group", "cls": cls, "signal": "", "hasaxes": False, "axes": [], "interp": "", "default": ""}, **kw)
        if n["default"]:
            at["default"] = n["default"]
        if n["signal"]:
            at["signal"] = n["signal"] if n["signal"] != "#" else 1
        n["at"] = [{"k": k, "v": tagged(v)} for k, v in at.items()]
        self.nodes.append(n)
        self.raw[tuple(p)] = at
        return n

    def array(self, p, shape, at=None, vals=None):
        r = self.r
        self.id += 1
        if vals is None:
            vals = (np.arange(int(np.prod(shape))) + 64 * self.id).reshape(shape).astype(r.choice(["i4", ">i4", "f4", "f8", "u2"]))
        at = at if at is not None else ({"units": "mm"} if r.random() < 0.3 else {})
        one = vals.size == 1
        self.nodes.append({"path": p, "t": "data", "kind": "num" if vals.dtype.kind != "O" else "text", "shape": list(shape), "id": self.id,
                           "v": tagged(vals.ravel()[0]) if one and vals.dtype.kind != "O" else "a:%d" % self.id, "at": [{"k": k, "v": tagged(v)} for k, v in at.items()]})
        self.raw[tuple(p)] = (vals, at)

    def scalar(self, p):
        r = self.r
        v = r.choice(["text", "", "Å b", 12, 1.5, -7])
        at = {"units": "s"} if r.random() < 0.4 else {}
        self.nodes.append({"path": p, "t": "data", "kind": "text" if isinstance(v, str) else "num", "shape": [], "id": 0, "v": tagged(v), "at": [{"k": k, "v": tagged(x)} for k, x in at.items()]})
        self.raw[tuple(p)] = (v, at)

    def link(self, p, to):
        self.nodes.append({"path": p, "t": "link", "to": to})
        self.raw[tuple(p)] = to

    def free(self, p, pool=NAMES):
        c = [n for n in pool if not self.has([*p, n])]
        return [*p, self.r.choice(c)] if c else None

    def nxdata(self, p):
        r = self.r
        while True:
            shape = [r.choice([1, 2, 3, 4]) for _ in range(r.choice([1, 2, 2, 3]))]
            if np.prod(shape) <= 24:
                break
        sig = r.choice(["data", "data", "data2", "Fe", "#"])
        if sig == "#":
            self.old = True
        axes = []
        names = ["x", "y", "energy", "z_axis"]
        r.shuffle(names)
        for n in shape:
            a = {"name": names.pop(), "kind": r.choice(["even", "even", "even", "uneven", "text", "."]), "unit": r.choice(["quarter", "nano"]), "off": r.randrange(-40, 40), "step": r.choice([-3, -1, 1, 2, 8]),
                 "units": r.choice(["", "nm", "keV"])}
            if n < 3 and a["kind"] == "uneven" or n == 1 and a["kind"] == "text":
                a["kind"] = "even"
            if a["kind"] == ".":
                a["name"] = "."
            axes.append(a)
        hasaxes = r.random() < 0.85
        if not hasaxes:
            axes = []
        while axes and axes[-1]["kind"] == "." and r.random() < 0.5:
            axes.pop()
        hasaxes = bool(axes)
        interp = r.choice(["", "", "spectrum", "scalar"] + (["image"] * 2 if len(shape) > 1 else []))
        g = self.group(p, "NXdata", signal=sig, hasaxes=hasaxes, axes=axes, interp=interp)
        at = self.raw[tuple(p)]
        if interp:
            at["interpretation"] = interp
        if hasaxes:
            names = [a["name"] for a in axes]
            if r.random() < 0.35:
                at["axes"] = ",".join(names)
            elif r.random() < 0.5:
                at["axes"] = np.array([n.encode() for n in names])
            else:
                at["axes"] = np.array(names, dtype=object)
            for i, a in enumerate(axes):
                if a["kind"] != ".":
                    if r.random() < 0.5:
                        at[a["name"] + "_indices"] = np.array([i]) if r.random() < 0.5 else i
                    v = values(a, shape[i], self.id)
                    while any(isinstance(w, tuple) and isinstance(w[0], np.ndarray) and np.array_equal(w[0], v) for w in self.raw.values()):
                        a["off"] += 1
                        v = values(a, shape[i], self.id)
                    self.array([*p, a["name"]], [shape[i]], {"units": a["units"]} if a["units"] or r.random() < 0.5 else {}, v)
        self.array([*p, "data" if sig == "#" else sig], shape)
        if r.random() < 0.2 and not self.has([*p, "errors"]):
            self.array([*p, "errors"], shape)
        if r.random() < 0.15 and not self.has([*p, "detector"]):
            self.array([*p, "detector"], [r.choice([2, 3])])
        if r.random() < 0.15:
            self.scalar([*p, "sample"])
        return g

    def some(self, p, depth):
        r = self.r
        for _ in range(r.choice([0, 1, 1, 2])):
            q = self.free(p)
            k = r.random()
            if k < 0.35:
                self.scalar(q)
            elif k < 0.6:
                self.array(q, [r.choice([1, 2, 5])] if r.random() < 0.6 else [2, 3])
            elif depth < 3:
                self.group(q, r.choice(["", "NXinstrument", "NXcollection"]))
                self.some(q, depth + 1)
                if r.random() < 0.3 and (x := self.free(q)):
                    self.nxdata(x)

    def file(self):
        r = self.r
        self.old = False
        tops = r.sample(["entry", "entry1", "entry2", "Fe"], r.choice([1, 1, 2, 3]))
        root = self.group([], "NXroot" if r.random() < 0.5 else "", default=r.choice(["", "", *tops]))
        for t in tops:
            nx = [[t, n] for n in r.sample(["data", "data2", "Fe", "Fe_K", "Ca", "sub"], r.choice([0, 1, 1, 2, 3]))]
            self.group([t], r.choice(["", "NXentry", "NXentry"]), default=r.choice(["", nx[0][1]]) if nx else "")
            for p in nx:
                self.nxdata(p)
            self.some([t], 1)
        if r.random() < 0.15:
            self.nxdata(["data"])
        root["attrs"] = bool(root["at"])
        for n in [n for n in self.nodes if n["t"] == "group"]:
            n.setdefault("attrs", bool(n["at"]))
        # links
        ext = False
        groups = [n for n in self.nodes if n["t"] == "group" and n["cls"] != "NXdata" and n["path"]]
        simple = [n for n in self.nodes if n["t"] == "data" or n["t"] == "group" and n["cls"] == "NXdata"]
        for _ in range(r.choice([0, 0, 1, 2]) if simple else 0):
            g = r.choice(groups)["path"]
            q = self.free(g, ["lnk", "Ca", "x", "data2", "keys"])
            if q is None:
                continue
            k = r.random()
            if k < 0.6:
                self.link(q, r.choice(simple)["path"])
            elif k < 0.8:
                ext = True
                self.link(q, ["@", "data"] if r.random() < 0.5 else ["@", "x"])
            else:
                self.link(q, [*g, "nothing"])
        if ext:
            self.group(["@"], "")
            self.nxdata(["@", "data"])
            self.array(["@", "x"], [4])
            for n in self.nodes:
                if n["t"] == "group":
                    n.setdefault("attrs", bool(n["at"]))

def key(r, g):
    n = [n for n in g.nodes if n["path"] and n["path"][0] != "@"]
    p = r.choice(n)["path"]
    k = r.random()
    if k < 0.5:
        w = r.choice(p)
        return [r.choice([w, w[:2], w[-2:]])]
    i = r.randrange(len(p))
    q = p[i:]
    if len(q) == 1:
        return ["", *q] if i == 0 else [p[i - 1], *q]
    return q


def gen(r):
    g = Gen(r)
    g.file()
    keys = [key(r, g) for _ in range(r.choice([0, 0, 1, 2, 3]))]
    data = [n["path"] for n in g.nodes if n["path"] and n["path"][0] != "@"]
    paths = [r.choice(data) if r.random() < 0.9 else ["entry", "nowhere"] for _ in range(r.choice([0, 0, 0, 1, 2]))]
    mkeys = [key(r, g) for _ in range(r.choice([0, 0, 0, 1, 2]))]
    mkeys = [k for k in mkeys if k[0] != ""]  # (paths of metadata begin with no slash)
    names = sorted({x for n in g.nodes for x in n["path"]} - {"@"}, key=lambda s: s.encode())
    words = sorted(set(names) | {"attrs", "value", "units", "version", "note", "NX_class", "default", "", *("fix_" + k for k in RESERVED), "signal"})
    tab = []
    for k in keys + mkeys:
        if len(k) == 1:
            tab.append({"how": "in", "part": k[0], "names": [w for w in words if k[0] in w]})
        else:
            tab.append({"how": "ends", "part": k[0], "names": [w for w in words if w.endswith(k[0])]})
            tab.append({"how": "starts", "part": k[-1], "names": [w for w in words if w.startswith(k[-1])]})
    e = {"nodes": g.nodes, "names": names, "reserved": RESERVED, "keys": keys, "paths": paths, "mkeys": mkeys, "tab": tab, "hard": r.random() < 0.3, "nxonly": g.old or r.random() < 0.3,
         "usedefault": r.random() < 0.4, "skiparrays": r.random() < 0.2, "lazy": r.random() < 0.3, "str": r.random() < 0.3}
    return e, g.raw


def build(fn, raw):
    import h5py

    ext = None
    if ("@",) in raw:
        ext = h5py.File(fn[:-4] + "_ext.h5", "w")
    with h5py.File(fn, "w") as f:
        for p, v in raw.items():
            h = f
            if p and p[0] == "@":
                h, p = ext, p[1:]
            name = "/" + "/".join(p)
            if isinstance(v, dict):
                o = h.require_group(name)
                at = v
            elif isinstance(v, tuple):
                o = h.create_dataset(name, data=v[0])
                at = v[1]
            else:
                h[name] = h5py.ExternalLink(os.path.basename(ext.filename), "/" + "/".join(v[1:])) if v[0] == "@" else h5py.SoftLink("/" + "/".join(v))
                continue
            for k, x in at.items():
                o.attrs[k] = x
    if ext:
        ext.close()


def obs(L, e):
    kinds = {}
    for n in e["nodes"]:
        for a in n.get("axes", []):
            kinds[n["path"] and n["path"][-1], a["name"]] = a["unit"]
    ids = {n["id"]: n for n in e["nodes"] if n["t"] == "data" and n["id"]}
    vals = e["vals"]
    out = []

    def ident(a):
        a = np.asarray(a)
        for i, v in vals.items():
            if v.shape == a.shape and (v.dtype.kind == "O") == (a.dtype.kind in "SO") and (np.array_equal(v, a) if v.dtype.kind != "O" else [x.encode() for x in v] == [x if isinstance(x, bytes) else str(x).encode() for x in a.ravel()]):
                return i
        return -1

    def exact(v):
        for u in STEP.values():
            q = float(v) / u
            if abs(q - round(q)) < 1e-4 and abs(q) < 10**6:
                return int(round(q))
        return 10**8

    def meta(v):
        if isinstance(v, dict):
            return {k: meta(x) for k, x in v.items()}
        if hasattr(v, "compute"):
            v = v.compute()
        if isinstance(v, np.ndarray):
            return f"#{ident(v)}"
        return v

    for D in L:
        b = D["data"]
        lz = hasattr(b, "compute")
        if lz:
            b = b.compute()
        ax = []
        for a in D["axes"]:
            ax.append({"i": int(a["index_in_array"]), "n": int(a["size"]), "name": a.get("name", ""), "off": exact(a["offset"]) if a["offset"] else 0,
                       "scale": "one" if isinstance(a["scale"], int) else str(exact(a["scale"])), "units": a.get("units", "none"), "nav": bool(a["navigate"])})
        md = D["metadata"]["General"]
        t = md["title"]
        om = leaves(meta(D["original_metadata"]))
        for q in om:
            if q["v"].startswith("s:#"):
                q["v"] = "a:" + q["v"][3:]
        out.append({"id": ident(b), "shape": list(b.shape), "title": t, "axes": ax, "lazy": lz, "md": sorted(D["metadata"]), "file": md.get("original_filename", ""), "om": om})
    return {"sigs": out}


def read(e, fn):
    from rsciio.nexus import file_reader

    text = lambda k: "/".join(k)  # noqa: E731
    few = lambda v: None if not v else v[0] if len(v) == 1 and e["str"] else v  # noqa: E731
    return file_reader(fn, lazy=e["lazy"], dataset_key=few([text(k) for k in e["keys"]]), dataset_path=few(["/" + text(k) for k in e["paths"]]), metadata_key=few([text(k) for k in e["mkeys"]]),
                       skip_array_metadata=e["skiparrays"], nxdata_only=e["nxonly"], hardlinks_only=e["hard"], use_default=e["usedefault"])


def run(ctx):
    ctx.model_check("NexusFileMC", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NothingLost Selects AxesFit OneDefault\nCONSTANTS Depth = %d Most = %d\n" % ((2, 3) if ctx.quick else (3, 4)))
    es = [gen(ctx.rng) for _ in range(500 * (1 if ctx.quick else 10))]
    d = ctx.dir()

    def one(i):
        e, raw = es[i]
        fn = os.path.join(d, f"{i}.nxs")
        build(fn, raw)
        ids = {tuple(n["path"]): n["id"] for n in e["nodes"] if n["t"] == "data"}
        vals = {ids[p]: v[0] for p, v in raw.items() if isinstance(v, tuple) and isinstance(v[0], np.ndarray) and ids[p]}
        try:
            return observe(lambda: obs(read(e, fn), dict(e, vals=vals)))
        finally:
            os.remove(fn)
            if os.path.exists(fn[:-4] + "_ext.h5"):
                os.remove(fn[:-4] + "_ext.h5")

    res = pmap(one, range(len(es)), procs=8, timeout=60)
    judge(ctx, "NexusFileTrace", [dict(e, obs=o, file=f"{i}.nxs") for i, ((e, _), o) in enumerate(zip(es, res))], lambda e: "nexus-default" if e["usedefault"] else "nexus-keys" if e["keys"] or e["paths"] else "nexus-all", chunk=60)
