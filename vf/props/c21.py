"""Files are released (specs: ReadSession, ReadSessionTrace)."""
import gc
import os

from .. import corpus
from ..pmap import observe, pmap
from ..reading import fds, load, plain, under
from ..synth import mix
from .c05 import name
from .c10 import judge

LEVEL = "model_checking"


def attempt(k):
    """What was read, or the error - which keeps alive what it refers to."""
    try:
        return load(k), None
    except BaseException as e:  # noqa: B902
        seen, x = [], e
        while x is not None and x not in seen:
            seen.append(x)
            tb = x.__traceback__
            while tb is not None:
                if "rsciio" not in tb.tb_frame.f_code.co_filename:
                    # what other libraries hold isn't of concern here
                    try:
                        tb.tb_frame.clear()
                    except RuntimeError:  # (is running: this function)
                        pass
                tb = tb.tb_next
            x = x.__cause__ or x.__context__
        return None, e


def one(key):
    """Files left open: after an eager read while its result is in use; after
    the results of a lazy read have been computed and dropped."""
    p, f, kw, _ = key
    root = corpus.DATA if f.startswith(corpus.DATA) else under(f)
    gc.collect()
    n0 = fds(root)
    ev = []
    gc.disable()
    L, exc = attempt((p, f, kw, False))
    ok = isinstance(L, list)
    # zspy: copies of the store made by dask are collected later;
    # image: imageio keeps references to what it failed to read
    if p == "zspy" or (p == "image" and not ok):
        gc.collect()
    ev.append({"ev": "open", "n": max(0, fds(root, ok) - n0), "when": "eager" if ok else "error", "err": not ok})
    gc.enable()
    del L, exc
    gc.collect()
    n0 = fds(root)
    if p not in corpus.EAGER_ONLY:
        gc.disable()
        exc = None
        L, exc = attempt((p, f, kw, True))
        if not isinstance(L, list):
            # (readers that aren't able to be lazy close their files later)
            if p == "zspy" or p == "image":
                gc.collect()
            ev.append({"ev": "open", "n": max(0, fds(root, False) - n0), "when": "lazyerror", "err": True})
        gc.enable()
        exc = None
        if isinstance(L, list):
            if p == "hspy":  # stays open
                L = None
                return {"ev": ev}
            try:
                for s in L:
                    plain(s.get("data"))
            except Exception:
                pass
            s = None
        L = None
        gc.collect()
        ev.append({"ev": "open", "n": max(0, fds(root) - n0), "when": "lazy", "err": False})
    return {"ev": ev}


def run(ctx):
    keys = [(p, f, kw, None) for p, f in corpus.files() for kw in corpus.variants(p, f)]
    names = [name(k) for k in keys]
    # files made by the writers and after the format specifications, and damaged ones
    n = 3 if ctx.quick else 40
    made = mix.files(ctx, n)
    dam = []
    for k in range(len(made) * 3):
        try:
            dam.append(mix.damage(ctx.rng, made[k % len(made)], ctx.dir()))
        except Exception:  # (this kind of damage isn't possible)
            continue
    # every single removal from files in HDF5
    cap = 40 if ctx.quick else 400
    for it in mix.files(ctx, 1, ["hspy", "emd", "nexus", "velox"]):
        ws = mix.edits(it)
        for w in ws if len(ws) <= cap else ctx.rng.sample(ws, cap):
            dam.append(mix.edit(it, w, ctx.dir()))
    for i, (p, f, kw, kind) in enumerate(made + dam):
        keys.append((p, f, kw, None))
        names.append(f"{p}|{'made' if i < len(made) else 'damaged'} {kind}|{sorted(kw.items())}")
    ctx.count("made", len(made))
    ctx.count("damaged", len(dam))
    res = pmap(one, keys, procs=8, timeout=200)
    tr = []
    for k, nm, o in zip(keys, names, res):
        for x in o.get("ev", [{"ev": "open", "n": 9, "when": "crash", "err": True}]):
            tr.append(dict(x, k=nm, plugin=k[0]))
    judge(ctx, "ReadSessionTrace", tr, lambda e: f"{e['plugin']}|{e['k'].split('|')[1]}|{e['when']}", chunk=10**6)
