"""Typed JSON terms for Python values (exchanged with the specifications)."""
import hashlib
import json

import numpy as np


def esc(s):
    return json.dumps(s)[1:-1]


def digest(a):
    a = np.ascontiguousarray(a)
    return hashlib.sha1(a.tobytes()).hexdigest()[:12]


def txt(v):
    """How numpy writes a number when it has to share an array with strings."""
    return esc(str(np.array([v, ""])[0]))


def num(v):
    return repr(complex(v))


def term(v, lz=False):
    """Python value -> term. numpy scalars are of the class of their Python
    counterparts; arrays carry dtype, shape and either items or a digest."""
    if v is None:
        return {"k": "none"}
    if isinstance(v, (bool, np.bool_)):
        return {"k": "bool", "v": str(bool(v)), "c": num(bool(v)), "s": txt(v)}
    if isinstance(v, (int, np.integer)):
        return {"k": "int", "v": str(int(v)), "c": num(v), "s": txt(v)}
    if isinstance(v, (float, np.floating)):
        return {"k": "float", "v": float(v).hex(), "c": num(v), "s": txt(v)}
    if isinstance(v, (complex, np.complexfloating)):
        return {"k": "cplx", "v": num(v), "c": num(v), "s": txt(v)}
    if isinstance(v, str):
        return {"k": "str", "v": esc(v)}
    if isinstance(v, bytes):
        return {"k": "bytes", "v": v.hex()}
    if isinstance(v, (list, tuple)):
        return {"k": "list" if isinstance(v, list) else "tuple", "x": [term(i) for i in v]}
    if isinstance(v, dict):
        ks = sorted(v, key=str)
        return {"k": "dict", "keys": [esc(str(i)) for i in ks], "x": [term(v[i]) for i in ks]}
    if type(v).__module__.startswith("dask"):
        t = term(v.compute(scheduler="synchronous"))
        t["lazy"] = True
        return t
    if isinstance(v, np.ndarray):
        if v.dtype == object:
            return {"k": "ragged", "sh": list(v.shape), "x": [term(np.asarray(i)) for i in v.ravel()]}
        if v.dtype.kind == "U":
            return {"k": "arr", "dt": "U", "sh": list(v.shape), "h": esc("|".join(v.ravel().tolist()))}
        return {"k": "arr", "dt": dts(v.dtype), "sh": list(v.shape), "h": digest(v)}
    if hasattr(v, "items"):  # mapping-like (e.g. DTBox)
        return term(dict(v.items()))
    return {"k": "other", "v": type(v).__name__}


def dts(dt):
    dt = np.dtype(dt)
    if dt.fields:
        return "{" + ",".join(f"{n}:{dts(f[0])}" for n, f in dt.fields.items()) + "}"
    return dt.str
