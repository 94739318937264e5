"""Signals written and read back, every writer (specs: Formats*.tla)."""
import os
import shutil

from ..pmap import observe, pmap
from ..synth import signals as S
from .c10 import judge

LEVEL = "model_checking"
NOLAZY = ("msa", "digitalsurf", "mrcz")


def opts(e):
    kw = e["kw"]
    i = kw.get("intensity_scaling", "")
    return {
        "scaling": i if isinstance(i, str) else "range", "top": 255 if isinstance(i, str) else i[1],
        "noscale": kw.get("export_scale") is False, "mode": kw.get("mode", 0),
        "extra": kw["extratags"][0][3] if "extratags" in kw else "null",
    }


def roundtrip(e, d, keep=False):
    """What came back of the signal of ``e``."""
    fn = S.path_of(e, d)
    o = observe(S.write, e, fn)
    if o is not None:
        return dict(o, stage="write")
    return back(e, fn)


def back(e, fn):
    o = observe(S.read, e, fn, True if e["lazyread"] else None)
    if isinstance(o, dict):
        return dict(o, stage="read")
    if e["fmt"] == "nexus":
        t = e["signal"]["metadata"]["General"]["title"] or "unnamed__0"
        o = [x for x in o if x["metadata"]["General"]["title"] == t]
    if len(o) != 1:
        return {"err": f"{len(o)}-signals", "stage": "read"}
    o = observe(S.obs, o[0])
    return dict(o, stage="data") if "err" in o else o


def event(r, fmt):
    e = S.gen(r, fmt)
    e["lazyread"] = fmt not in NOLAZY and r.random() < 0.4
    return e


def run(ctx):
    ctx.model_check(
        "FormatsMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Elements Described Stable\nCONSTANTS\n"
        f"Sizes = {{1, 2{'' if ctx.quick else ', 3'}}}\n",
    )
    es = []
    n = 45 if ctx.quick else 500
    for fmt in S.FORMATS:
        es += [event(ctx.rng, fmt) for _ in range(n)]
    d = ctx.dir()

    def one(k):
        dd = os.path.join(d, str(k))
        os.makedirs(dd)
        try:
            e = es[k]
            o = {"in": S.obs(e["signal"]), "out": roundtrip(e, dd)}
            if "err" not in o["out"] and k % 2 and e["fmt"] != "nexus":
                # what was read is a signal as well
                e2 = dict(e, signal=S.complete(S.read(e, S.path_of(e, dd))[0]), lazywrite=False)
                e2["kw"] = {q: v for q, v in e["kw"].items() if q in ("show_progressbar", "max_file_size", "extratags")}
                d2 = os.path.join(dd, "again")
                os.makedirs(d2)
                o["again"] = {"o": opts(e2), "in": S.obs(e2["signal"]), "out": roundtrip(e2, d2)}
            return o
        finally:
            shutil.rmtree(dd, ignore_errors=True)

    res = pmap(one, range(len(es)), procs=8, timeout=90)
    tr = []
    for e, o in zip(es, res):
        if "err" in o:
            o = {"in": S.obs(e["signal"]), "out": dict(o, stage="machine")}
        again = o.pop("again", None)
        tr.append({"ev": "rt", "fmt": e["fmt"], "o": opts(e), "kw": str(e["kw"]), "lazywrite": e["lazywrite"], "lazyread": e["lazyread"], **o})
        if again:
            tr.append(dict(tr[-1], **again, kw="again"))
    judge(ctx, "FormatsTrace", tr, lambda e: e["fmt"], chunk=2000)
