"""The public helpers: paths, dates, colours, trees of metadata (spec: Helpers*.tla)."""
import builtins
import datetime as D
import os
import shutil
import time
from fractions import Fraction

import numpy as np

from ..pmap import observe, pmap
from .c10 import judge

LEVEL = "model_checking"


# ------------------------------------------------------------------ files
def listing(root):
    out = []
    for d, ds, fs in os.walk(root):
        for k, names in (("dir", ds), ("file", fs)):
            out += [{"p": os.path.relpath(os.path.join(d, x), root), "kind": k} for x in names]
    return sorted(out, key=lambda x: x["p"])


def paths(r, root):
    from pathlib import Path

    from rsciio.utils import path as P

    ev = [{"sys": "path", "ev": "start", "fs": [], "obs": ""}]
    old = os.getcwd()
    os.chdir(root)
    try:
        stems, sufs, dirs = r.sample(["a", "b.c", "data 1", "a-1", "x-2"], 2), r.sample([".hspy", ".zspy", ".tif", ""], 2), ["", "d/", "d/e/"]
        for _ in range(r.randrange(8, 30)):
            e = {"sys": "path", "ev": r.choice(["inc"] * 4 + ["touch", "mkdir", "append", "ask", "ask", "ensure", "ensure"]), "dir": r.choice(dirs), "stem": r.choice(stems), "suf": r.choice(sufs), "i": r.choice([1, 1, 1, 2])}
            if e["suf"] == "" and "." in e["stem"]:
                e["stem"] = "a"
            p = e["dir"] + e["stem"] + e["suf"]
            if r.random() < 0.4:  # one of the names already given
                p2 = [x for x in ev if x["ev"] in ("inc", "touch")]
                if p2 and e["ev"] in ("touch", "mkdir", "ask"):
                    p, e["suf"] = r.choice([(x["obs"] if x["ev"] == "inc" else x["path"], x["suf"]) for x in p2])
            e["path"] = p
            arg = Path(p) if r.random() < 0.5 else p
            e["obs"] = ""
            if e["ev"] in ("touch", "mkdir"):
                d = os.path.dirname(p)
                if os.path.exists(p) or (d and not os.path.isdir(d)):
                    continue
                open(p, "w").close() if e["ev"] == "touch" else os.mkdir(p)
            elif e["ev"] == "inc":
                o = observe(P.incremental_filename, arg, *([e["i"]] if e["i"] != 1 else []))
                e["obs"] = str(o) if not isinstance(o, dict) else o["err"]
            elif e["ev"] == "append":
                e["add"] = r.choice(["_1", "-x", "é"])
                e["obs"] = str(P.append2pathname(arg, e["add"]))
            elif e["ev"] == "ensure":
                e["path"] = p = r.choice([p, "d", "d/e", "d/e/f", p + "/g"])
                parts = p.split("/")
                e["parents"] = ["/".join(parts[:k]) for k in range(1, len(parts))]
                o = observe(P.ensure_directory, Path(p) if r.random() < 0.5 else p)
                e["obs"] = {"ok": o is None}
            elif e["ev"] == "ask":
                e["answers"] = [r.choice(["y", "n", "Y", "N", "", "yes", "no", "x"]) for _ in range(r.randrange(0, 4))]
                L = list(e["answers"])
                asked = [0]

                def ask(msg="", L=L, asked=asked):
                    asked[0] += 1
                    if not L:
                        raise EOFError
                    return L.pop(0)

                keep, pr = builtins.input, builtins.print
                builtins.input, builtins.print = ask, lambda *a, **k: None
                try:
                    o = observe(P.overwrite, arg)
                finally:
                    builtins.input, builtins.print = keep, pr
                e["obs"] = {"yes": o is True, "asked": asked[0]}
            e["fs"] = listing(".")
            ev.append(e)
    finally:
        os.chdir(old)
    return ev


# ------------------------------------------------------------------ dates
ZONES = {"UTC": None, "Asia/Tokyo": None, "Asia/Kolkata": None, "America/New_York": None, "Europe/Paris": None}


def when(r, lo=1700, hi=2200):
    us = r.choice([0, 0, 250000, 1, 999999, r.randrange(10**6)])
    y = r.choice([1899, 1900, 1904, 1970, 2000, 2024, r.randrange(lo, hi), r.randrange(1980, 2035)])
    y = min(max(y, lo), hi)
    m = r.choice([1, 2, 3, 7, 12])
    d = r.choice([1, 15, 28, 30, 31] if m != 2 else [1, 28, 29 if (y % 4 == 0 and y % 100) or y % 400 == 0 else 28])
    return {"y": y, "m": m, "d": d, "h": r.choice([0, 12, 23, r.randrange(24)]), "mi": r.choice([0, 59, r.randrange(60)]), "s": r.choice([0, 59, r.randrange(60)]), "us": us, "off": 0}


def dt(t, tz=None):
    return D.datetime(t["y"], t["m"], t["d"], t["h"], t["mi"], t["s"], t["us"], tzinfo=tz)


def inst(x):
    """A serial number as day, second, microsecond."""
    f = Fraction(float(x))
    day = f.numerator // f.denominator
    us = round((f - day) * 86400 * 10**6)
    return {"day": day + us // (86400 * 10**6), "sec": us % (86400 * 10**6) // 10**6, "us": us % 10**6}


def fields(x):
    o = x.utcoffset()
    return {"y": x.year, "m": x.month, "d": x.day, "h": x.hour, "mi": x.minute, "s": x.second, "us": x.microsecond, "off": 0 if o is None else int(o.total_seconds() // 60)}


def off(t, zone):
    from zoneinfo import ZoneInfo

    return int(dt(t, ZoneInfo(zone)).utcoffset().total_seconds() // 60)


def iso(t):
    s = f"{t['h']:02d}:{t['mi']:02d}:{t['s']:02d}"
    return f"{t['y']:04d}-{t['m']:02d}-{t['d']:02d}", s + (f".{t['us']:06d}" if t["us"] else "")


def date(r):
    from dateutil import tz

    from rsciio.utils import _date_time as T

    k = r.choice(["toserial", "toserial", "iso", "iso", "fromserial", "local", "filetime", "meta", "meta", "meta"])
    e = {"sys": "date", "ev": k}
    t = e["t"] = when(r)
    if k == "toserial":
        t["off"] = r.choice([0, 0, 330, -300, 765])
        z = r.choice([None, tz.tzutc()]) if not t["off"] else D.timezone(D.timedelta(minutes=t["off"]))
        o = observe(T.datetime_to_serial_date, dt(t, z))
        e["obs"] = o if isinstance(o, dict) else inst(o)
    elif k == "iso":
        e["ev"] = "toserial"
        t.update(when(r, 1980, 2035), m=r.choice([1, 7]))
        zone = r.choice(["UTC", None, "", "Coordinated Universal Time", "+05:30", "-05:00", "Asia/Tokyo", "Europe/Paris", "America/New_York"])
        t["off"] = {"+05:30": 330, "-05:00": -300}.get(zone) or (off(t, zone) if zone and "/" in zone else 0)
        e["zone"] = str(zone)
        o = observe(T.ISO_format_to_serial_date, *iso(t), **({"timezone": zone} if zone != "" else {}))
        e["obs"] = o if isinstance(o, dict) else inst(o)
    elif k in ("fromserial", "local"):
        if k == "local":
            t.update(when(r, 1980, 2035), m=r.choice([1, 7]))
        x = (dt(t) - D.datetime(1899, 12, 30)) / D.timedelta(days=1)
        e["at"] = inst(x)
        if k == "fromserial":
            o = observe(T.serial_date_to_datetime, x)
            e["obs"] = o if isinstance(o, dict) else fields(o)
        else:
            e["zone"] = zone = r.choice(list(ZONES))
            os.environ["TZ"] = zone
            time.tzset()
            try:
                o = observe(T.serial_date_to_ISO_format, x)
                if not isinstance(o, dict):
                    b = observe(T.ISO_format_to_serial_date, o[0], o[1], o[2])
                    f = D.datetime.fromisoformat(f"{o[0]}T{o[1]}")
                    f = dict(fields(f), off=0)
                    f["off"] = off(f, zone)
                    o = {"t": f, "back": b if isinstance(b, dict) else inst(b)} if not isinstance(b, dict) else b
            finally:
                os.environ["TZ"] = "UTC"
                time.tzset()
            e["obs"] = o
    elif k == "filetime":
        n = (dt(dict(t, y=max(t["y"], 1601))) - D.datetime(1601, 1, 1)) // D.timedelta(microseconds=1)
        e["at"] = {"day": n // (86400 * 10**6), "sec": n // 10**6 % 86400, "us": n % 10**6}
        n = n * 10 + r.randrange(10)
        o = observe(T.msfiletime_to_unix, r.choice([int, int, np.int64, np.uint64])(n))
        e["obs"] = o if isinstance(o, dict) else fields(o)
    else:
        e["hasdate"], e["hastime"], e["form"] = r.random() < 0.85, r.random() < 0.85, r.choice(["ISO", "datetime", "datetime64", "ISO"])
        e["zone"] = ""
        if e["form"] == "datetime64" and not e["hasdate"]:
            e["form"] = "ISO"
        if e["hasdate"] and e["hastime"] and r.random() < 0.6:
            t.update(when(r, 1980, 2035), m=r.choice([1, 7]))
            e["zone"] = r.choice(["UTC", "+05:30", "-05:00", "Asia/Tokyo", "Europe/Paris"])
            t["off"] = {"+05:30": 330, "-05:00": -300, "UTC": 0}.get(e["zone"])
            if t["off"] is None:
                t["off"] = off(t, e["zone"])
        a, b = iso(t)
        g = {"title": "x"}
        if e["hasdate"]:
            g["date"] = a
        if e["hastime"]:
            g["time"] = b
        if e["zone"]:
            g["time_zone"] = e["zone"]
        o = observe(T.get_date_time_from_metadata, {"General": g}, *([e["form"]] if e["form"] != "ISO" else []))
        if not isinstance(o, dict):
            if o is None:
                o = "none"
            elif isinstance(o, np.datetime64):
                o = o.astype("M8[us]").item().isoformat()
            elif not isinstance(o, str):
                o = o.isoformat()
        e["obs"] = o if isinstance(o, dict) else {"text": o}
    return [e]


# ------------------------------------------------------------------ colours
def colour(r):
    import dask.array as da

    from rsciio.utils import rgb as R

    e = {"sys": "colour", "ev": "colour", "to": r.choice(["rgb", "plain"]), "ch": r.choice([3, 4]), "bits": r.choice([8, 16]), "plot": False, "lazy": r.random() < 0.3, "bad": "",
         "shape": [r.randrange(1, 5) for _ in range(r.randrange(1, 4))]}
    n = int(np.prod(e["shape"])) * e["ch"]
    m = 2 ** e["bits"]
    b = r.randrange(m)
    a = ((b + np.arange(n) * r.choice([1, 7])) % m).astype(f"u{e['bits'] // 8}").reshape(e["shape"] + [e["ch"]])
    if e["to"] == "rgb" and r.random() < 0.2:
        e["bad"] = r.choice(["channels", "type"])
        a = np.concatenate([a, a], -1)[..., : r.choice([1, 2, 5])] if e["bad"] == "channels" else a.astype(r.choice(["i1", "u4", "f4"]))
    if e["to"] == "plain":
        c = "RGBA"[: e["ch"]]
        s = np.zeros(e["shape"], dtype=[(k, a.dtype) for k in c])
        for i, k in enumerate(c):
            s[k] = a[..., i]
        e["plot"] = r.random() < 0.4
        a0, a = a, s
    else:
        a0 = a
    lay = r.choice(["C", "F", "step", "swap", "C"])
    if lay == "F":
        a = np.asfortranarray(a)
    elif lay == "step":
        a = np.repeat(a, 2, axis=0)[::2]
    elif lay == "swap":
        a = np.ascontiguousarray(np.swapaxes(a, 0, -1)).swapaxes(0, -1)
    e["flat"] = [int(x) for x in a0.ravel()]
    x = da.from_array(a, chunks=tuple(max(1, k // r.choice([1, 2])) for k in a.shape)) if e["lazy"] else a
    before = a.tobytes()

    def go():
        o = R.regular_array2rgbx(x) if e["to"] == "rgb" else R.rgbx2regular_array(x, plot_friendly=e["plot"], show_progressbar=False)
        lazy = type(o).__module__.startswith("dask")
        dt = o.dtype
        if lazy:
            o = o.compute()
            assert o.dtype == dt
        kind = o.dtype.name
        if o.dtype.names:
            kind = "".join(o.dtype.names).lower() + str(8 * o.dtype[0].itemsize)
            assert R.is_rgbx(o) and R.is_rgb(o) == (len(o.dtype.names) == 3) and R.is_rgba(o) == (len(o.dtype.names) == 4)
            assert R.RGB_DTYPES[kind] == o.dtype
            v = np.stack([o[k] for k in o.dtype.names], -1)
        else:
            assert not R.is_rgbx(o)
            v = o
        if v.dtype.kind == "f":
            assert v.min() >= 0 and v.max() <= 1
            v = np.round(v * 65535).astype(int)
        return {"shape": list(o.shape), "kind": kind, "flat": [int(q) for q in v.ravel()], "lazy": lazy, "same": a.tobytes() == before}

    e["obs"] = observe(go)
    return [e]


# ------------------------------------------------------------------ .npy headers
def npy(r):
    import io

    from rsciio.utils.file import inspect_npy_bytes

    a = np.zeros([r.randrange(0, 4) for _ in range(r.randrange(0, 4))], r.choice(["<u1", "<i4", ">f8", "<c8", "?", "<U3", "<M8[s]"]))
    if r.random() < 0.3:
        a = np.asfortranarray(a)
    f = io.BytesIO()
    np.lib.format.write_array(f, a, version=r.choice([(1, 0), (2, 0), (3, 0)]))
    f.seek(0)
    e = {"sys": "npy", "ev": "npy", "size": len(f.getvalue()), "nbytes": a.nbytes, "shape": list(a.shape), "dtype": a.dtype.str}

    def go():
        o, s, d = inspect_npy_bytes(f)
        return {"offset": int(o), "shape": list(s), "dtype": d, "pos": f.tell()}

    e["obs"] = observe(go)
    return [e]


# ------------------------------------------------------------------ trees of metadata
def flat(d, p=()):
    out = []
    for k, v in d.items():
        q = [*p, k]
        if isinstance(v, dict):
            out.append({"p": q, "v": -1})
            out += flat(v, q)
        else:
            out.append({"p": q, "v": -2 if v is None else v})
    return out


def tree(r):
    from rsciio.utils._dictionary import DTBox

    b = DTBox({}, box_dots=True)
    ref = {}  # what can be set

    def at(p):
        d = ref
        for k in p:
            if not isinstance(d, dict) or k not in d:
                return "-" if isinstance(d, dict) or d is None else "leaf"
            d = d[k]
        return d

    ev = [{"sys": "tree", "ev": "new", "p": [], "v": 0, "obs": {"tree": []}}]
    for _ in range(r.randrange(3, 15)):
        p = [r.choice("abc") for _ in range(r.randrange(1, 4))]
        if any(not isinstance(at(p[:k]), (dict, type(None), str)) or at(p[:k]) == "leaf" for k in range(1, len(p))):
            continue
        k = r.choice(["set", "set", "node", "has", "has"])
        if k == "node" and isinstance(at(p), int):
            continue
        e = {"sys": "tree", "ev": k, "p": p, "v": 0}
        path = ".".join(p)
        if k == "set":
            v = r.choice([0, 1, 7, 7, None])
            e["v"] = -2 if v is None else v
            o = observe(b.set_item, path, v)
        elif k == "node":
            o = observe(b.add_node, path)
        else:
            o = observe(b.has_item, path)
        if k != "has":
            d = ref
            for q in p[:-1]:
                if not isinstance(d.get(q), dict):
                    d[q] = {}
                d = d[q]
            if k == "set":
                d[p[-1]] = v
            elif not isinstance(d.get(p[-1]), dict):
                d[p[-1]] = {}
        e["obs"] = o if isinstance(o, dict) else {"has": o is True, "tree": flat(b.to_dict())}
        ev.append(e)
    return ev


def run(ctx):
    ctx.model_check(
        "HelpersMC",
        f"SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS NewName Asking Complete Tree Origins\nPROPERTIES Kept OneLater\nCONSTANTS Depth={4 if ctx.quick else 5} LastYear={2105 if ctx.quick else 2405}\n",
    )
    k = 1 if ctx.quick else 10
    d = ctx.dir()
    jobs = [(f, ctx.rng.randrange(2**30)) for f, n in (("path", 150), ("date", 900), ("colour", 300), ("npy", 60), ("tree", 150)) for _ in range(n * k)]

    def one(j):
        import random

        f, seed = jobs[j]
        r = random.Random(seed)
        if f != "path":
            return {"date": date, "colour": colour, "npy": npy, "tree": tree}[f](r)
        dd = os.path.join(d, str(j))
        os.makedirs(dd)
        try:
            return paths(r, dd)
        finally:
            shutil.rmtree(dd, ignore_errors=True)

    tr = []
    for (f, _), o in zip(jobs, pmap(one, range(len(jobs)), procs=8, timeout=60)):
        tr += o if isinstance(o, list) else [{"sys": "npy", "ev": f, "obs": o}]
    judge(ctx, "HelpersTrace", tr, lambda e: f"helper-{e['sys']}-{e['ev']}", chunk=10**6)
