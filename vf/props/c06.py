"""The axes describe the data (spec: OutputContract)."""
from .. import corpus
from ..pmap import observe, pmap
from ..reading import observe_read
from ..synth import mix
from .c05 import name
from .c10 import judge

LEVEL = "model_checking"
#: readers for which a signal without any axis means default axes
NOAXES = {"nexus"}


def one(k):
    return observe(observe_read, k)


def run(ctx):
    keys = []
    for p, f in corpus.files():
        for kw in corpus.variants(p, f):
            keys.append((p, f, kw, False))
            if p not in corpus.EAGER_ONLY:
                keys.append((p, f, kw, True))
    names = [name(k) for k in keys]
    for i, (p, f, kw, kind) in enumerate(mix.files(ctx, 12 if ctx.quick else 120, mix.WRITERS + mix.BUILT + mix.MORE)):
        for lazy in [False, True][: 1 if p in corpus.EAGER_ONLY else 2]:
            keys.append((p, f, kw, lazy))
            names.append(f"{p}|made {kind}|{i} {sorted(kw.items())}")
    res = pmap(one, keys, procs=8, timeout=200)
    tr = [
        {"k": n, "plugin": k[0], "lazy": k[3], "noaxes": k[0] in NOAXES, "obs": o} for k, n, o in zip(keys, names, res)
    ]
    ctx.count("readable", sum("err" not in o for o in res))
    judge(ctx, "OutputContract", tr, lambda e: f"{e['plugin']}|{e['k'].split('|')[1]}", chunk=10**6)
