"""What a read returns depends on the file only (specs: ReadSession*)."""
import importlib
import os
import shutil

from .. import corpus
from ..pmap import observe, pmap
from ..reading import collect, file_hash, load, observe_read, signal_obs, spoil
from ..synth import mix
from .c10 import judge

LEVEL = "model_checking"
#: formats whose data are in one file
SINGLE = {
    "blockfile", "bruker", "delmic", "dens", "digitalmicrograph", "digitalsurf", "emd", "hamamatsu", "hspy",
    "image", "jobinyvon", "mrc", "msa", "nexus", "pantarhei", "phenom", "protochips", "quadstar",
    "renishaw", "semper", "tiff", "trivista", "topspin", "edax",
}


def preload():
    """Import what the readers import, so that new processes start quickly."""
    for m in ["h5py", "zarr", "skimage", "PIL.Image", "imageio.v3", "tifffile", "dask.array", "sparse", "pint", "numba"]:
        try:
            importlib.import_module(m)
        except Exception:
            pass
    for p in sorted({p for p, _ in corpus.files()}):
        try:
            importlib.import_module("rsciio." + p + "._api")
        except Exception:
            pass
    import rsciio  # noqa


def forked(fn, *a):
    return pmap(lambda x: fn(*x), [a], procs=1, timeout=120)[0]


def look(L):
    return observe(lambda: {"sigs": [signal_obs(s) for s in L]}) if isinstance(L, list) else L


def session(e):
    """Replays a history; e["files"]: for each key the two files that may be there."""
    d = e["dir"]
    P, kw = {}, {}
    for k, v in e["files"].items():
        k = int(k)
        if e["copies"]:
            os.makedirs(os.path.join(d, str(k)))
            P[k] = os.path.join(d, str(k), "file" + os.path.splitext(v[0][1])[1])
        else:
            P[k] = v[0][1]
        kw[k] = v[0][2]
    cur = {}

    def put(k, v):
        if e["copies"]:
            tmp = P[k] + "~"
            shutil.copyfile(e["files"][str(k)][v - 1][1], tmp)
            os.replace(tmp, P[k])
        cur[k] = v

    ev = []
    used = sorted({(o["k"], o["v"]) for o in e["hist"] if o["op"] in ("eager", "compute")})
    plug = {k: e["files"][str(k)][0][0] for k in P}
    key = lambda k, z: (plug[k], P[k], kw[k], z)  # noqa: E731
    for k, v in used:
        put(k, v)
        # a process that does nothing else
        ev.append({"ev": "ref", "k": f"{k}.{v}", "obs": forked(observe_read, key(k, False))})
    for k in P:
        put(k, 1)
    kept, pend = [], []
    for o in e["hist"]:
        k, v = o["k"], o["v"]
        h = {j: file_hash(P[j]) for j in P}
        if o["op"] == "eager":
            L = observe(load, key(k, False))
            obs = look(L)
            if isinstance(L, list):
                kept += [{q: x[q] for q in ("data", "axes", "metadata", "original_metadata") if q in x} for x in L]
        elif o["op"] == "lazy":
            pend.append((k, observe(load, key(k, None if plug[k] in corpus.EAGER_ONLY else True))))
        elif o["op"] == "compute":
            k, L = pend.pop(0)
            obs = look(L)
            if isinstance(L, list):
                kept += [{q: x[q] for q in ("data", "axes", "metadata", "original_metadata") if q in x} for x in L]
        elif o["op"] == "spoil":
            spoil(kept)
        elif o["op"] == "drop":
            kept = []
            collect()
        elif o["op"] == "replace":
            put(k, v)
            h = None
        if o["op"] in ("eager", "compute"):
            if "err" in obs:
                obs["refused"] = "lazy" in obs["msg"].lower() or obs["err"] == "NotImplementedError"
            ev.append({"ev": "read", "k": f"{k}.{v}", "lazy": o["op"] == "compute", "mustlazy": False,
                       "floatimages": plug[k] == "emd", "obs": obs})
        if h is not None:
            ev.append({"ev": "file", "k": "", "same": h == {j: file_hash(P[j]) for j in P}})
    return {"events": ev}


def respoilt(h):
    """Whether the first file is read, what was read changed, and it is read again."""
    st = 0
    for o in h:
        if o["op"] in ("eager", "compute") and o["k"] == 1:
            if st == 2:
                return True
            st = 1
        elif o["op"] == "spoil" and st == 1:
            st = 2
        elif o["op"] == "drop" and st == 1:
            st = 0
    return False


def run(ctx):
    r = ctx.tlc(
        "ReadSessionGen",
        "SPECIFICATION RSpec\nINVARIANTS Functional PendingStable\nCONSTRAINT EmitCases\nCHECK_DEADLOCK FALSE\n"
        "CONSTANTS Keys = {1, 2} MaxOps = %d Value <- Val\n" % (5 if ctx.quick else 6),
    )
    hists = ctx.emitted(r)
    rng = ctx.rng
    # the interesting ones: read again after something else happened
    single, multi = {}, []
    for p, f in corpus.files():
        if os.path.isdir(f):
            continue
        if os.path.getsize(f) > 8e6:
            continue
        for kw in corpus.variants(p, f):
            it = (p, f, kw)
            multi.append(it)
            if p in SINGLE:
                single.setdefault((p, os.path.splitext(f)[1].lower(), str(sorted(kw.items()))), []).append(it)
    # files made by the writers and after the format specifications
    corp = list(multi)
    made = []
    for p, f, kw, kind in mix.files(ctx, 4 if ctx.quick else 12):
        if kind == "velox":
            kw = {} if ctx.rng.random() < 0.7 else {"sum_frames": False}
        it = (p, f, kw)
        multi.append(it)
        made.append(it)
        if kind not in ("tvips", "ripple", "zspy", "mib"):
            for q in ({kind} if kind in ("jeol", "ser", "image") else {kind, kind + "1"}):
                # (twice: more often)
                single.setdefault((p, os.path.splitext(f)[1].lower(), "made " + q), []).append(it)
    byplug = {}
    for it in multi:
        byplug.setdefault(it[0], []).append(it)
    groups = [g for g in single.values()]
    es = []
    with_rep = [h for h in hists if any(o["op"] == "replace" for o in h)]
    without = [h for h in hists if not any(o["op"] == "replace" for o in h)]
    n = 420 if ctx.quick else 4000
    plugs = sorted(byplug)
    for i in range(n):
        if i % 5 < 2:
            h = rng.choice(with_rep)
            g = groups[(i // 5) % len(groups)] if rng.random() < 0.5 else rng.choice(groups)
            a, b = rng.choice(g), rng.choice(g)
            g2 = rng.choice([x for x in groups if x[0][0] == g[0][0]])
            fl = {"1": [a, b], "2": [rng.choice(g2), rng.choice(g2)]}
            es.append(dict(hist=h, files=fl, copies=True))
        else:
            h = rng.choice(without)
            p = plugs[i % len(plugs)]
            a = rng.choice(byplug[p])
            b = rng.choice(byplug[p]) if rng.random() < 0.7 else rng.choice(multi)
            if rng.random() < 0.3:  # the same file with other options
                b = (a[0], a[1], rng.choice(corpus.variants(a[0], a[1])))
            es.append(dict(hist=h, files={"1": [a], "2": [b]}, copies=False))
    # what was read is changed, then the same is read again: for every file made
    again = [h for h in without if respoilt(h)]
    for a in made + rng.sample(corp, min(len(corp), 150 if ctx.quick else 10**6)):
        es.append(dict(hist=rng.choice(again), files={"1": [a], "2": [rng.choice(multi)]}, copies=False))
    for e in es:
        e["dir"] = ctx.dir()
    preload()
    res = pmap(session, es, procs=8, timeout=300, fresh=True)
    tr = []
    for i, (e, o) in enumerate(zip(es, res)):
        if "events" not in o:
            o = {"events": [{"ev": "ref", "k": "1.1", "obs": {"sigs": []}},
                            {"ev": "read", "k": "1.1", "lazy": False, "mustlazy": False, "obs": o}]}
        for x in o["events"]:
            x = dict(x, k=f"{i}:{x['k']}", session={"hist": e["hist"], "files": e["files"]})
            tr.append(x)
        ctx.count("sessions")

    def keyf(e):
        f = e["session"]["files"]
        return f["1"][0][0] + ("|" + f["2"][0][0] if f["2"][0][0] != f["1"][0][0] else "")

    # whole sessions per TLC run
    part, start = [], 0
    chunks = []
    for x in tr:
        if len(part) > 800 and x["ev"] == "ref" and part[-1]["ev"] != "ref":
            chunks.append(part)
            part = []
        part.append(x)
    chunks.append(part)
    for c in chunks:
        slim = [{k: v for k, v in x.items() if k != "session"} for x in c]
        full = {id(s): x for s, x in zip(slim, c)}
        judge(ctx, "ReadSessionTrace", slim, lambda e: keyf(full[id(e)]), chunk=10**6)
