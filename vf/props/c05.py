"""Reading lazily and eagerly gives the same (specs: ReadSession, ReadSessionTrace)."""
import os

from .. import corpus
from ..pmap import observe, pmap
from ..reading import observe_read
from ..synth import mix
from .c10 import judge

LEVEL = "model_checking"


def name(key):
    p, f, kw, _ = key
    return f"{p}|{os.path.relpath(f, corpus.DATA) if f.startswith(corpus.DATA) else os.path.basename(f)}|{sorted(kw.items())}"


def refused(e):
    """An error by which the reader says that it can't do this lazily."""
    m = e.get("msg", "").lower()
    return e.get("err") == "NotImplementedError" or (e.get("err") == "ValueError" and "lazy" in m)


def both(key):
    """Reference and lazy observation, the latter with two ways of computing."""
    p, f, kw, _ = key
    a = observe(observe_read, (p, f, kw, False))
    b = observe(observe_read, (p, f, kw, True))
    c = observe(observe_read, (p, f, kw, True), "threads")
    return {"a": a, "b": [b, c]}


def events(keys, res, names):
    tr = []
    for key, r, k in zip(keys, res, names):
        if "err" in r and "a" not in r:  # crash or hang of the worker
            tr += [{"ev": "ref", "k": k, "obs": {"sigs": []}},
                   {"ev": "read", "k": k, "lazy": True, "mustlazy": False, "obs": r, "plugin": key[0]}]
            continue
        tr.append({"ev": "ref", "k": k, "obs": r["a"], "plugin": key[0]})
        for o in r["b"]:
            if "err" in o:
                o = dict(o, refused=refused(o))
            tr.append({"ev": "read", "k": k, "lazy": True, "mustlazy": key[0] not in corpus.PARTLY_EAGER,
                       "floatimages": key[0] == "emd", "obs": o, "plugin": key[0]})
    return tr


def run(ctx):
    ctx.model_check(
        "ReadSessionGen",
        "SPECIFICATION RSpec\nINVARIANTS Functional PendingStable\nCHECK_DEADLOCK FALSE\n"
        "CONSTANTS Keys = {1, 2} MaxOps = %d Value <- Val\n" % (5 if ctx.quick else 6),
    )
    keys = [(p, f, kw, None) for p, f in corpus.files() if p not in corpus.EAGER_ONLY for kw in corpus.variants(p, f)]
    names = [name(k) for k in keys]
    # files made by the writers and after the specifications of the formats
    kinds = [k for k in mix.WRITERS + mix.BUILT + mix.MORE if k not in mix.EAGER]
    for i, (p, f, kw, kind) in enumerate(mix.files(ctx, 12 if ctx.quick else 120, kinds)):
        keys.append((p, f, kw, None))
        names.append(f"{p}|made {kind}|{i} {sorted(kw.items())}")
    res = pmap(both, keys, procs=8, timeout=200)
    tr = events(keys, res, names)
    judge(ctx, "ReadSessionTrace", tr, lambda e: f"{e['plugin']}|{e['k'].split('|')[1]}", chunk=10**6)
