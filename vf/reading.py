"""Read one file through the public API and describe what came back."""
import gc
import hashlib
import importlib
import json
import os

import numpy as np

from .terms import digest, dts, term

#: time stamps of the reading itself
VOLATILE = {"timestamp"}


def tdigest(v):
    return hashlib.sha1(json.dumps(term(v), sort_keys=True).encode()).hexdigest()[:12]


def plain(v):
    if type(v).__module__.startswith("dask"):
        return v.compute(scheduler="synchronous")
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items() if k not in VOLATILE}
    if isinstance(v, (list, tuple)):
        return type(v)(plain(x) for x in v)
    return v


def is_lazy(a):
    return type(a).__module__.startswith("dask")


def slab(shape):
    """Some part of an array, given by its shape only."""
    return tuple(slice(n // 3, n // 3 + max(1, n // 2)) if n > 1 else slice(None) for n in shape)


def dense(a):
    if hasattr(a, "todense"):
        a = a.todense()
    return np.asarray(a)


def array_obs(a, sched="synchronous"):
    lz = is_lazy(a)
    o = {"lazy": lz, "dt": dts(a.dtype), "sh": [int(n) for n in a.shape]}
    if lz:
        o["sl"] = digest(dense(a[slab(a.shape)].compute(scheduler=sched)))
        c = dense(a.compute(scheduler=sched))
        if dts(c.dtype) != o["dt"] or [int(n) for n in c.shape] != o["sh"]:
            o["meta"] = f"computed {dts(c.dtype)}{c.shape}"
    else:
        c = dense(a)
        o["sl"] = digest(c[slab(c.shape)])
    if c.dtype == object:
        o["h"] = tdigest(c)
        o["sl"] = ""
    else:
        o["h"] = digest(c)
        if c.dtype.kind in "iuf" and c.size < 2e6:
            o["h8"] = digest(c.astype("<f8"))
    return o


def number(v):
    try:
        f = float(v)
    except Exception:
        return False
    return bool(np.isfinite(f))


def axis_obs(x):
    n = x["axis"].size if hasattr(x.get("axis"), "size") else (len(x["axis"]) if "axis" in x else x.get("size", -1))
    return {
        "n": int(n),
        "i": int(x["index_in_array"]) if "index_in_array" in x else -99,
        "cal": all(number(x[k]) for k in ("scale", "offset") if k in x),
        "name": isinstance(x.get("name"), (str, type(None))) or "Undefined" in str(x.get("name")),
        "units": isinstance(x.get("units"), (str, type(None))) or "Undefined" in str(x.get("units")),
        "known": all(isinstance(k, str) for k in x),
    }


def signal_obs(s, sched="synchronous"):
    att = {k: v for k, v in s.get("attributes", {}).items() if k != "_lazy"}
    lr = att.pop("learning_results", {})
    rest = {
        k: v
        for k, v in s.items()
        if k not in ("data", "axes", "metadata", "original_metadata", "attributes", "mapping", "post_process")
    }
    keys = [k for k in ("data", "axes", "metadata", "original_metadata") if k in s]
    o = {"keys": keys}
    if "data" in s:
        o["data"] = array_obs(s["data"], sched)
    if "axes" in s:
        o["axes"] = [axis_obs(x) for x in s["axes"]]
        o["axh"] = tdigest(plain(s["axes"]))
    o["md"] = tdigest(plain(s.get("metadata", {})))
    o["om"] = tdigest(plain(s.get("original_metadata", {})))
    o["rest"] = tdigest([plain(att), plain(lr), plain(rest), sorted(s.get("mapping", {}) or {})])
    return o


def load(key):
    plugin, path, kw, lazy = key
    m = importlib.import_module("rsciio." + plugin)
    return m.file_reader(path, lazy=lazy, **kw) if lazy is not None else m.file_reader(path, **kw)


def observe_read(key, sched="synchronous"):
    L = load(key)
    return {"sigs": [signal_obs(s, sched) for s in L]}


def under(path):
    """Where the files of a data set are: its folder."""
    return os.path.dirname(os.path.realpath(path))


def fds(root, mapped=True):
    """The files open under a folder; not those which are mapped to memory,
    as a map that is still referred to can't be closed (``mapped=False``)."""
    n = 0
    maps = {}
    if not mapped:
        with open("/proc/self/maps") as fh:
            for x in fh:
                t = x.rstrip("\n").split(None, 5)
                if len(t) > 5:
                    maps[t[5]] = maps.get(t[5], 0) + 1
    for x in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + x)
        except OSError:
            continue
        if t.startswith(root):
            if maps.get(t, 0):
                maps[t] -= 1
                continue
            n += 1
    return n


def file_hash(path):
    h = hashlib.sha1()
    if os.path.isdir(path):
        for r, ds, fs in sorted(os.walk(path)):
            ds.sort()
            for f in sorted(fs):
                h.update(f.encode())
                with open(os.path.join(r, f), "rb") as fh:
                    h.update(fh.read())
    else:
        with open(path, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:12]


def spoil(v, depth=0):
    """Change in place everything that can be."""
    if isinstance(v, dict):
        for k in list(v):
            if k == "mapping" and "data" in v:  # (of a signal in the metadata: a table of the reader)
                continue
            spoil(v[k], depth + 1)
            if isinstance(v[k], (str, int, float)) and not isinstance(v[k], bool):
                v[k] = "spoiled"
        v["__spoiled__"] = 1
    elif isinstance(v, list):
        for x in v:
            spoil(x, depth + 1)
        v.append("spoiled")
    elif isinstance(v, np.ndarray):
        if v.dtype == object:
            for x in v.ravel():
                spoil(x, depth + 1)
        try:
            v[...] = np.zeros((), v.dtype) if v.dtype.fields else (v + 1 if v.dtype.kind in "iufc" else v[::-1])
        except Exception:
            pass


def collect():
    gc.collect()
