"""Sessions of saving signals and reading them back (specs: WriteSession*)."""
import ast
import copy
import glob
import importlib
import os
import random
import shutil
import tempfile

import numpy as np

from ..pmap import observe, pmap
from ..reading import collect, file_hash, signal_obs, spoil, tdigest
from ..synth import signals as S
from .c04 import forked, preload
from .c10 import judge

LEVEL = "model_checking"
FMTS = sorted(S.FORMATS) + ["hspy", "zspy"]
WORDS = {}
NOLAZY = ("msa", "digitalsurf", "mrcz")


def signal_of(e):
    """The signal, its writer's options."""
    if e["fmt"] in ("hspy", "zspy"):
        from . import c01

        return c01.signal(e["seed"], e["fmt"] == "hspy"), {"show_progressbar": False}
    r = random.Random(e["seed"])
    g = S.gen(r, e["fmt"])
    while e.get("more") and g["signal"]["data"].dtype.kind not in "fc" and r.random() < 0.6:
        g = S.gen(r, e["fmt"])  # (floating point numbers are of more kinds)
    s, kw = g["signal"], g["kw"]
    if e.get("more"):
        more(r, e["fmt"], s, kw)
    if g["lazywrite"]:
        import dask.array as da

        s = dict(s, data=da.from_array(s["data"], chunks=tuple(max(1, n // 2) for n in s["data"].shape)),
                 attributes={"_lazy": True})
    if e["fmt"] == "semper":  # (the time of saving is stored)
        s["metadata"]["General"].setdefault("date", "2020-01-01")
        s["metadata"]["General"].setdefault("time", "01:01:01")
    if e.get("again"):
        s = reread(e, s, kw)
    return s, kw


def words(fmt):
    """Strings in the source of a writer: what it may look for."""
    m = importlib.import_module(f"rsciio.{fmt}")
    out = set()
    for p in sorted(glob.glob(os.path.join(os.path.dirname(m.__file__), "*.py"))):
        with open(p, encoding="utf8") as f:
            t = ast.parse(f.read())
        out |= {n.value for n in ast.walk(t) if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) < 30}
    return sorted(x for x in out if not set(x) & set("/\n%{}\0"))


def known(r, fmt, depth=1):
    """A dictionary with keys a writer knows, some of them related."""
    w, d = WORDS.setdefault(fmt, words(fmt)), {}
    for _ in range(r.choice([2, 4, 8])):
        k = r.choice(w)
        v = r.choice([2.5, 3, "text", [1, 2], None, "m/s"])
        if k[0] in "_-. " or r.random() < 0.2:
            d["speed"], d["speed" + k] = r.choice([2.5, 3, "fast"]), v
        else:
            d[k] = known(r, fmt, depth - 1) if depth and r.random() < 0.3 else v
    if r.random() < 0.5:
        d.update(speed=2.5, speed_units="m/s")
    return d


def more(r, fmt, s, kw):
    """What writers may have to convert, and options made of containers."""
    d = s["data"]
    if d.dtype.kind == "f" and r.random() < 0.8:
        for _ in range(r.choice([1, 1, 3])):
            d[tuple(r.randrange(n) for n in d.shape)] = r.choice([np.nan, np.nan, np.nan, np.inf])
    elif d.dtype.kind == "i" and r.random() < 0.5:
        d[tuple(r.randrange(n) for n in d.shape)] = np.iinfo(d.dtype).min
    elif d.dtype.kind == "u" and r.random() < 0.5:
        d[tuple(r.randrange(n) for n in d.shape)] = np.iinfo(d.dtype).max
    if r.random() < 0.4:
        from .c01 import mapping

        s["original_metadata"] = mapping(r, 2, fmt not in ("emd",)) if r.random() < 0.4 else known(r, fmt)
    if r.random() < 0.3:
        s["metadata"]["_HyperSpy"] = {"navigators": {}, "Folding": {"unfolded": False, "original_shape": None, "original_axes_manager": None}}
    if r.random() < 0.3:
        a = r.choice(s["axes"])
        a.update(r.choice([{"units": "mm"}, {"units": "m"}, {"scale": -a["scale"]}, {"name": None}, {"units": ""}]))
    pick = {
        "blockfile": [{"navigator": None}, {"intensity_scaling": [0, 100]}, {"intensity_scaling": "crop"}, {"endianness": ">"}],
        "digitalsurf": [{"is_special": True}, {"is_special": True, "compressed": False}, {"is_special": True}, {"is_special": True, "set_comments": "raw"}, {"set_comments": "raw"}, {"set_comments": "off"},
                        {"set_comments": "custom", "comments": {"a": {"b": 1, "c": [1, 2]}}}, {"object_name": "o", "operator_name": "p"},
                        {"private_zone": b"abc", "client_zone": b"d"}, {"absolute": 1}],
        "image": [{"output_size": [32, 16]}, {"imshow_kwds": {"vmin": 0}}, {"output_size": 20, "imshow_kwds": {"cmap": "gray"}}],
        "msa": [{"separator": "; "}, {"format": "XY"}],
        "nexus": [{"skip_metadata_key": ["a", "c"]}, {"skip_metadata_key": "a"}],
        "semper": [{"skip_header": True}],
        "emd": [{"chunks": [1] * d.ndim}, {"compression": "gzip", "shuffle": True}],
        "tiff": [{"extratags": [(65001, "s", 1, "x", False)]}, {"photometric": "minisblack"}, {"metadata": {"axes": "YX", "k": "v"}}],
        "mrcz": [{"compressor": None}, {"clevel": 2}],
        "ripple": [{"encoding": "utf8"}],
        "tvips": [{"mode": 2}, {"max_file_size": 900}],
    }.get(fmt)
    if pick and r.random() < 0.8:
        kw.update(copy.deepcopy(r.choice(pick)))
        if "comments" in kw:
            kw["comments"] = known(r, fmt)


def reread(e, s, kw):
    """The signal as it is after having been saved and read, if possible."""
    d = tempfile.mkdtemp(dir=e["dir"] if os.path.isdir(e["dir"]) else None)
    try:
        fn = path(e, d)
        save(e, s, kw, fn)
        return S.complete(load(e, fn, False)[0])
    except Exception:
        return s
    finally:
        shutil.rmtree(d)


def change(s):
    """A deterministic change in place."""
    d = s["data"]
    if isinstance(d, np.ndarray) and d.dtype != object and d.flags.writeable:
        d[...] = d[::-1].copy()
    g = s["metadata"].get("General") if isinstance(s["metadata"], dict) else None
    if isinstance(g, dict):
        g["title"] = str(g.get("title", "")) + "!"
    if isinstance(s.get("original_metadata"), dict):
        s["original_metadata"]["changed"] = [1, 2]


def ext(e):
    return S.FORMATS[e["fmt"]][0] if e["fmt"] in S.FORMATS else "." + e["fmt"]


def snap(v):
    import dask.array as da

    def f(x):
        if isinstance(x, da.Array):
            return np.asarray(x.compute(scheduler="synchronous"))
        if isinstance(x, dict):
            return {k: f(y) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return type(x)(f(y) for y in x)
        return x

    return tdigest(f(v))


def save(e, s, kw, fn):
    importlib.import_module("rsciio." + e["fmt"]).file_writer(fn, s, **kw)
    return {}


def path(e, folder):
    return os.path.join(folder, "f" + ext(e))


def load(e, fn, lazy):
    if e["fmt"] == "tvips":
        fn = fn[: -len(".tvips")] + "_000.tvips"
    kw = {"allow_restricted_pickle": True} if e["fmt"] == "pantarhei" else {}
    m = importlib.import_module("rsciio." + e["fmt"])
    return m.file_reader(fn, lazy=lazy, **kw) if e["fmt"] not in NOLAZY else m.file_reader(fn, **kw)


def look(L):
    return observe(lambda: {"sigs": [signal_obs(s) for s in L]}) if isinstance(L, list) else L


def alone(e, v, fn):
    """What saving in a process that does nothing else gives."""
    s, kw = signal_of(e)
    for _ in range(v):
        change(s)
    o = observe(save, e, s, kw, fn)
    if "err" in o:
        return {"saved": False, "err": o["err"], "obs": {"err": "none", "msg": ""}}
    return {"saved": True, "err": "", "obs": look(observe(load, e, fn, False))}


def session(e):
    d = e["dir"]
    folder = lambda p: os.path.join(d, f"p{p}")  # noqa: E731
    es = {int(k): v for k, v in e["sigs"].items()}
    ev = [{"ev": "new"}]
    # the references: at the same places, that they have the same names
    ver = {i: 0 for i in es}
    done = set()
    for o in e["hist"]:
        if o["op"] == "change":
            ver[o["i"]] += 1
        if o["op"] == "save":
            i, v, p = o["i"], ver[o["i"]], o["p"]
            k = f"{i}.{v}.{p}"
            if k in done:
                continue
            done.add(k)
            os.makedirs(folder(p))
            ev.append({"ev": "ref", "k": k, **forked(alone, es[i], v, path(es[i], folder(p)))})
            shutil.rmtree(folder(p))
    mem, kws = {}, {}
    for i in es:
        mem[i], kws[i] = signal_of(es[i])
    ver = {i: 0 for i in es}
    exp = {i: snap(mem[i]) for i in es}
    at = {}  # place: (signal, path), as far as saving worked
    kept, pend = [], []
    places = sorted({o["p"] for o in e["hist"] if o["p"]})
    for p in places:
        os.makedirs(folder(p))
    for o in e["hist"]:
        i, p = o["i"], o["p"]
        if o["op"] == "save":
            h = {q: file_hash(folder(q)) for q in places if q != p}
            if not e["over"] or (es[i]["fmt"] == "zspy"):
                # (what other formats left there isn't overwritten)
                shutil.rmtree(folder(p))
                os.makedirs(folder(p))
            fn = path(es[i], folder(p))
            a = snap(kws[i])
            r = observe(save, es[i], mem[i], kws[i], fn)
            at.pop(p, None)
            if "err" not in r:
                at[p] = (i, fn)
            ev.append({"ev": "save", "p": p, "k": f"{i}.{ver[i]}.{p}", "err": r.get("err", ""), "args": a == snap(kws[i]),
                       "sig": all(snap(mem[j]) == exp[j] for j in es), "where": r.get("where", ""), "msg": r.get("msg", ""),
                       "others": h == {q: file_hash(folder(q)) for q in places if q != p}})
        elif o["op"] == "change":
            change(mem[i])
            ver[i] += 1
            exp[i] = snap(mem[i])
        elif o["op"] in ("read", "compute"):
            h = {q: file_hash(folder(q)) for q in places}
            if o["op"] == "read":
                if p not in at:
                    continue
                L = observe(load, es[at[p][0]], at[p][1], False)
            else:
                p, L = pend.pop(0)
                if L is None:
                    continue
            obs = look(L)
            if isinstance(L, list):
                kept += [{q: x[q] for q in ("data", "axes", "metadata", "original_metadata") if q in x} for x in L]
            ev.append({"ev": "read", "p": p, "obs": obs, "sig": all(snap(mem[j]) == exp[j] for j in es)})
            ev.append({"ev": "file", "same": h == {q: file_hash(folder(q)) for q in places}})
        elif o["op"] == "lazy":
            # (the file of a lazy signal in HyperSpy's formats stays in use)
            j = es[at[p][0]] if p in at else None
            pend.append((p, None if j is None else observe(load, j, at[p][1], j["fmt"] not in ("hspy", "zspy"))))
        elif o["op"] == "spoil":
            h = {q: file_hash(folder(q)) for q in places}
            spoil(kept)
            kept = []
            collect()
            ev.append({"ev": "file", "same": h == {q: file_hash(folder(q)) for q in places}})
            if not all(snap(mem[j]) == exp[j] for j in es):
                ev.append({"ev": "save", "p": 0, "k": ev[1]["k"], "err": ev[1]["err"], "args": True, "sig": False, "others": True,
                           "where": "", "msg": ""})
    shutil.rmtree(d)
    return {"events": ev}


def overwrites(h):
    """Whether another signal is saved over one, and read."""
    for p in (1, 2):
        w = [o for o in h if o["p"] == p and o["op"] in ("save", "read", "compute")]
        if any(a["op"] == b["op"] == "save" and a["i"] != b["i"] and c["op"] != "save" for a, b, c in zip(w, w[1:], w[2:])):
            return True
    return False


def run(ctx):
    r = ctx.tlc(
        "WriteSessionGen",
        "SPECIFICATION WSpec\nINVARIANTS Faithful Untouched\nCONSTRAINT EmitCases\nCHECK_DEADLOCK FALSE\n"
        "CONSTANTS Signals = {1, 2} Places = {1, 2} MaxOps = %d Content <- Con\n" % (5 if ctx.quick else 6),
    )
    hists = ctx.emitted(r)
    rng = ctx.rng
    again = [h for h in hists if overwrites(h)]
    n = 560 if ctx.quick else 6000
    es = []
    for k in range(n):
        f1 = FMTS[k % len(FMTS)]
        f2 = f1 if rng.random() < 0.5 else rng.choice(FMTS)
        over = f1 == f2 and rng.random() < 0.7
        es.append({"hist": rng.choice(again if over else hists), "over": over, "dir": ctx.dir(),
                   "sigs": {k: {"fmt": f, "seed": rng.randrange(10**9), "again": rng.random() < 0.35, "more": rng.random() < 0.45} for k, f in (("1", f1), ("2", f2))}})
        for s in es[-1]["sigs"].values():
            s["dir"] = es[-1]["dir"]
    preload()
    res = pmap(session, es, procs=8, timeout=200, fresh=True)
    tr, part, chunks = [], [], []
    for e, o in zip(es, res):
        if "events" not in o:
            o = {"events": [{"ev": "new"}, {"ev": "ref", "k": "x", "saved": True, "err": "", "obs": {"sigs": []}},
                            {"ev": "save", "p": 1, "k": "x", "err": "crash", "args": True, "sig": True, "others": True,
                             "where": o.get("where", ""), "msg": o.get("msg", "")}]}
        for x in o["events"]:
            x["session"] = {"hist": e["hist"], "sigs": e["sigs"], "over": e["over"]}
        ctx.count("sessions")
        if len(part) > 1500:
            chunks.append(part)
            part = []
        part += o["events"]
    chunks.append(part)
    for c in chunks:
        slim = [{k: v for k, v in x.items() if k != "session"} for x in c]
        full = {id(s): x for s, x in zip(slim, c)}

        def keyf(e):
            s = full[id(e)]["session"]["sigs"]
            a, b = s["1"]["fmt"], s["2"]["fmt"]
            return a if a == b else a + "|" + b

        judge(ctx, "WriteSessionTrace", slim, keyf, chunk=10**6)
