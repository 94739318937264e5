"""Save histories of hspy/zspy files (specs: HierStore*, SaveHistory*)."""
import os

import numpy as np

from ..pmap import observe, pmap
from ..terms import term
from .c01 import plain
from .c10 import judge

LEVEL = "model_checking"


def kinds():
    return [
        None, 7, "txt", "", [], (), [1, 2], ["a", "b"], [[1, 2], [3, 4]], [1, None],
        [1, None, "a"], [{"a": 1}, {"b": 2}], (1, 2), (1, None), {"a": 1}, {"b": [1, {}]},
        np.arange(3), np.arange(4.0), np.array(["a", "é"]), ["b", None] * 6,
        [{"i": i} for i in range(11)], True, (), {"a": {"x": (1,)}, "b": "s"}, 2.5, [np.arange(2), np.arange(3)],
    ]


K = kinds()


def data(d, dt):
    return (np.arange(12).reshape(3, 4) + d).astype(dt)


def axes(ax):
    x = {"name": "x", "navigate": False, "is_binned": False, "units": "nm"}
    if ax % 2:
        a = dict(x, _type="DataAxis", axis=np.arange(4.0) ** 2 + ax)
    else:
        a = dict(x, _type="UniformDataAxis", scale=float(ax) + 0.5, offset=0.0, size=4)
    return [dict(x, _type="UniformDataAxis", scale=1.0, offset=float(ax), size=3, navigate=True), a]


def axcode(axs):
    """The integer the axes were made from, or -1."""
    a0, a1 = axs
    ax = int(a0["offset"])
    want = axes(ax)
    for w, g in zip(want, axs):
        g = plain(g)
        if term(w) != term(g):
            return -1
    return ax


def sigdict(title, arr, val, ax, lazy=False):
    return {
        "data": arr,
        "axes": axes(ax),
        "metadata": {"General": {"title": title}, "T": {"k": val, "list_k": 1}},
        "original_metadata": {"k": val, "keep": np.arange(5) + 1},
        "attributes": {"_lazy": lazy},
        "learning_results": {},
        "package_info": {"package": "p", "package_version": "1"},
        "tmp_parameters": {},
        "models": {},
    }


def read(mod, fn, lazy, pathlike):
    from pathlib import Path

    L = mod.file_reader(Path(fn) if pathlike else fn, lazy=lazy)
    out = []
    for d in L:
        a = plain(d["data"])
        om = plain(d["original_metadata"])
        assert np.array_equal(om.pop("keep"), np.arange(5) + 1), "untouched array"
        t = plain(d["metadata"]["T"])
        assert t.pop("list_k") == 1
        assert term(t["k"]) == term(om["k"]), "metadata and original_metadata"
        v0 = a.flat[0]
        out.append(
            {
                "title": d["metadata"]["General"]["title"],
                "data": int(v0),
                "dt": a.dtype.str,
                "ok": bool(a.shape == (3, 4) and np.array_equal(a, data(int(v0), a.dtype))),
                "ax": axcode(d["axes"]),
                "tree": term({"k": om["k"]}),
            }
        )
    return {"sigs": out}


def pick(L, title):
    return [d for d in L if d["metadata"]["General"]["title"] == title][0]


def do(mod, fn, fmt, h, i, keep_alive):
    val, ax, d = h["val_py"], h["ax"], h["d"]
    op = h["op"]
    folder, base = os.path.split(fn)
    tmp = dict(original_folder=folder, original_filename=base.split(".")[0], original_extension=fmt)
    if op == "w":
        s = sigdict(h["title"], data(d, h["dt"]), val, ax)
        if i % 2:
            s["tmp_parameters"] = tmp
        mod.file_writer(fn, s)
    elif op == "a":
        mod.file_writer(fn, sigdict(h["title"], data(d, h["dt"]), val, ax), mode="a")
    elif op == "u":
        s = sigdict(h["title"], data(99, "f8"), val, ax)
        mod.file_writer(fn, s, write_dataset=False)
    elif op in ("s", "r"):
        kw = {"mode": "a"} if (fmt == "hspy" and op == "s") else {}
        src = pick(mod.file_reader(fn, lazy=True, **kw), h["title"])
        keep_alive.append(src)
        arr = (src["data"] + d).astype(h["dt"])
        s = sigdict(h["title"], arr, val, ax, lazy=True)
        s["original_metadata"]["keep"] = src["original_metadata"]["keep"]
        if op == "r" and i % 2:
            s["metadata"]["General"]["title"] = "other"
        s["tmp_parameters"] = tmp
        try:
            mod.file_writer(fn, s, show_progressbar=False)
        finally:
            pass
    elif op == "c":
        src = pick(mod.file_reader(fn, lazy=True), h["title"])
        keep_alive.append(src)
        s = sigdict(h["title"], src["data"].compute(), val, ax)
        s["axes"] = src["axes"]
        s["original_metadata"]["keep"] = src["original_metadata"]["keep"]
        if h["keep"]:
            s["original_metadata"]["k"] = src["original_metadata"]["k"]
            s["metadata"]["T"]["k"] = src["metadata"]["T"]["k"]
        mod.file_writer(fn, s, show_progressbar=False)
    elif op == "l":
        L = mod.file_reader(fn, lazy=True)
        keep_alive.append(L)
        L[0]["data"].compute()
    return {"err": ""}


def one(e):
    import rsciio.hspy
    import rsciio.zspy

    mod = {"hspy": rsciio.hspy, "zspy": rsciio.zspy}[e["fmt"]]
    fn = os.path.join(e["dir"], "f." + e["fmt"])
    keep = []
    out = []
    for i, h in enumerate(e["hist"]):
        h = dict(h, val_py=K[h["kind"] - 1])
        s = observe(do, mod, fn, e["fmt"], h, i, keep)
        lz = (i + h["kind"]) % 7 == 0
        r = observe(read, mod, fn, lz, i % 2 == 1)
        out.append({"save": s, "read": r, "lazyread": lz})
        del h["val_py"]
    del keep
    import shutil

    shutil.rmtree(e["dir"])
    return out


def run(ctx):
    ctx.model_check(
        "HierStoreMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT Drop = TRUE\n"
        "INVARIANTS ReadsLastWritten OneRepresentation Injective\n",
    )
    hs = []
    n = len(K)
    for fmt in ("hspy", "zspy"):
        # every pair of kinds, updated in place
        r = ctx.tlc(
            "SaveHistoryGen",
            f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NKinds={n} Depth=2 Ops={{"u"}} Fmt="{fmt}"\n',
            name="pairs",
        )
        pairs = [h for h in ctx.emitted(r) if h[0]["title"] == "A" and h[1]["title"] == "A"]
        if ctx.quick:
            pairs = ctx.rng.sample(pairs, 260)
        hs += [(fmt, h) for h in pairs]
        ops = '{"w","u","s","r","c","l"' + (',"a"}' if fmt == "hspy" else "}")
        num = 60 if ctx.quick else 2500
        r = ctx.tlc(
            "SaveHistoryGen",
            f'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS NKinds={n} Depth=6 Ops={ops} Fmt="{fmt}"\n',
            name="random",
            extra=("-simulate", f"num={num}", "-depth", "8", "-seed", str(ctx.seed)),
        )
        em = ctx.emitted(r)
        hs += [(fmt, h) for h in em[:num]]
    es = []
    for j, (fmt, h) in enumerate(hs):
        for i, o in enumerate(h):
            o.update(
                fmt=fmt,
                d=(j * 7 + i * 13) % 50,
                dt=["<i4", "<f8", "<i4", "<u2"][(j + i) % 4],
                ax=(j + 3 * i) % 5,
                keep=(j + i) % 2 == 0,
                val=term({"k": K[o["kind"] - 1]}),
            )
        es.append({"fmt": fmt, "hist": h, "dir": ctx.dir()})
    ctx.count("histories", len(es))
    import time
    t0 = time.time()
    res = pmap(one, es, timeout=120, procs=8)
    if os.environ.get("VF_STDERR"):
        print("replay", time.time() - t0)
    tr = []
    for e, r in zip(es, res):
        tr.append({"op": "new"})
        if isinstance(r, dict):
            r = [{"save": r, "read": r, "lazyread": False}]
        for o, x in zip(e["hist"], r):
            tr.append(dict(o, **x))
    cuts = [i for i, t in enumerate(tr) if t["op"] == "new"]
    # judge in chunks that start at a new history
    bounds = [0]
    for c in cuts:
        if c - bounds[-1] > 1500:
            bounds.append(c)
    bounds.append(len(tr))
    for a, b in zip(bounds, bounds[1:]):
        part = tr[a:b]
        for f in ctx.validate("SaveHistoryTrace", part, name=f"-{a}"):
            ln = f["line"] - 1
            s0 = max(i for i in range(ln + 1) if part[i]["op"] == "new")
            for cl in f["clauses"]:
                e = part[ln]
                ctx.violation(
                    f"{e['fmt']}:{e['op']}:{cl}",
                    f"history {[(x['op'], x['title'], x['kind']) for x in part[s0+1:ln+1]]}: clause '{cl}' rejected; "
                    f"save={e['save']} read={str(e['read'])[:300]}",
                    part[s0 : ln + 1],
                )
    ctx.count("traces_validated_against_impl", len(es))
    ctx.sample(tr[1])
