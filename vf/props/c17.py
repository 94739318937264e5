"""Reading a file runs nothing the file holds (specs: Unpickler*.tla)."""
import builtins
import copyreg
import gzip
import io
import json
import os
import pickle
import re
import resource
import shutil
import signal
import struct
import sys
import time
import zipfile

import numpy as np

from .. import corpus
from ..pmap import observe, pmap
from ..synth import mix
from .c10 import judge

LEVEL = "model_checking"

ALLOWED = {("numpy._core.multiarray", "_reconstruct"), ("numpy._core.multiarray", "scalar"), ("numpy.core.multiarray", "_reconstruct"),
           ("numpy.core.multiarray", "scalar"), ("numpy", "ndarray"), ("numpy", "dtype"), ("_codecs", "encode")}
#: names which a file might give; everything here is harmless
OTHER = [("vfprobe", "call"), ("vfprobe", "Cls"), ("numpy_vfprobe", "ndarray"), ("numpy.vfprobe", "ndarray"), ("os", "getpid"),
         ("builtins", "len"), ("__builtin__", "len"), ("builtins", "getattr"), ("numpy", "ndarray.sort"), ("numpy", "dtype.type"),
         ("numpy", "zeros"), ("numpy.core.multiarray", "zeros"), ("numpy._core.multiarray", "_reconstruct.__call__"), ("_codecs", "lookup"),
         ("_codecs", "encode.__self__"), ("codecs", "encode"), ("os", "ndarray"), ("vfprobe", "encode"), ("vfprobe", "scalar"),
         ("numpy._core", "multiarray.scalar"), ("numpy", "core.multiarray.scalar"), ("collections", "OrderedDict"), ("copyreg", "_reconstructor"),
         ("numpy.dtypes", "Float64DType"), ("numpy.random._pickle", "__randomstate_ctor"), ("", ""), ("numpy", ""), ("numpy ", "ndarray"),
         ("numpy", "memmap"), ("numpy", "recarray"), ("_codecs", "decode"), ("numpy._core.multiarray", "scalars"), ("vfprobe.sub", "call")]

PROBE = """
import builtins
builtins.vf_ran.append("import " + __name__)
def call(*a, **k):
    builtins.vf_ran.append("call")
    return {}
encode = scalar = load = call
class Cls(dict):
    def __init__(self, *a, **k):
        builtins.vf_ran.append("init")
        dict.__init__(self)
    def __setstate__(self, s):
        builtins.vf_ran.append("setstate")
ndarray = Cls
class RunOnLoad:
    def __reduce__(self):
        return (call, ("x",))
"""


class Q:
    """What a file would use: `Q()`."""

    def __call__(self, *a):
        builtins.vf_ran.append("Q")
        return 1

    def __radd__(self, o):
        return o


def arm(d):
    """(In a process of its own.) Note what is reached."""
    builtins.vf_ran = []
    builtins.Q = Q()
    for p in ("vfprobe", "numpy_vfprobe"):
        with open(os.path.join(d, p + ".py"), "w") as f:
            f.write(PROBE)
    if d not in sys.path:
        sys.path.insert(0, d)


# ---------------------------------------------------------------- programs
SIMPLE = {"none": b"N", "mark": b"(", "elist": b"]", "edict": b"}", "etup": b")", "tup1": b"\x85", "tup2": b"\x86", "tup": b"t", "list": b"l",
          "dict": b"d", "append": b"a", "appends": b"e", "setitem": b"s", "setitems": b"u", "put": b"\x94", "dup": b"2", "pop": b"0",
          "popmark": b"1", "sglobal": b"\x93", "reduce": b"R", "newobj": b"\x81", "newobjex": b"\x92", "obj": b"o", "build": b"b",
          "persid": b"Pabc\n", "binpersid": b"Q", "stop": b"."}


def encode(prog, r):
    out = b"\x80" + bytes([r.choice([2, 4, 5])])
    for o in prog:
        k = o["o"]
        if k in SIMPLE:
            out += SIMPLE[k]
        elif k == "int":
            out += b"K" + bytes([o["i"]])
        elif k == "str":
            b = o["s"].encode()
            out += r.choice([b"X" + struct.pack("<I", len(b)), b"\x8c" + bytes([len(b)])]) + b
        elif k == "get":
            out += r.choice([b"h" + bytes([o["i"] - 1]), b"j" + struct.pack("<I", o["i"] - 1), b"g%d\n" % (o["i"] - 1)])
        elif k == "global":
            out += b"c" + f"{o['m']}\n{o['n']}\n".encode()
        elif k == "inst":
            out += b"i" + f"{o['m']}\n{o['n']}\n".encode()
        elif k == "ext":
            c = o["c"]
            out += r.choice([b"\x82" + bytes([c]), b"\x83" + struct.pack("<H", c), b"\x84" + struct.pack("<i", c)])
        else:
            raise KeyError(k)
    return out


EXT = {11: ("vfprobe", "call"), 12: ("os", "getpid"), 13: ("_codecs", "encode"), 14: ("numpy", "ndarray")}


def named(r):
    """Ask for a name, in one of the ways there are."""
    m, n = r.choice(sorted(ALLOWED)) if r.random() < 0.6 else r.choice(OTHER)
    k = r.random()
    if k < 0.4:
        if not (m and n):  # (there must be something)
            return [{"o": "none"}]
        return [{"o": "global", "m": m, "n": n}]
    if k < 0.75:
        return [{"o": "str", "s": m}, {"o": "str", "s": n}, {"o": "sglobal"}]
    if k < 0.85:
        c = r.choice(sorted(EXT) + [99])
        m, n = EXT.get(c, ("", ""))
        return [{"o": "ext", "c": c, "m": m, "n": n}]
    if not (m and n):
        return [{"o": "mark"}]
    return [{"o": "mark"}] + ([value(r)] if r.random() < 0.5 else []) + [{"o": "inst", "m": m, "n": n}]


def value(r):
    k = r.random()
    if k < 0.2:
        return {"o": "none"}
    if k < 0.45:
        return {"o": "int", "i": r.randrange(0, 4)}
    if k < 0.7:
        return {"o": "str", "s": r.choice(["a", "latin1", "f8", "x", "numpy", "vfprobe"])}
    return {"o": r.choice(["elist", "edict", "etup"])}


def args(r):
    if r.random() < 0.4:
        return [{"o": "etup"}]
    if r.random() < 0.5:
        return [value(r), {"o": "tup1"}]
    return [{"o": "mark"}] + [value(r) for _ in range(r.randrange(0, 3))] + [{"o": "tup"}]


def program(r):
    p = []
    for _ in range(r.randrange(1, 8)):
        k = r.random()
        if k < 0.25:
            p += [value(r)]
        elif k < 0.4:
            p += named(r)
        elif k < 0.55:
            p += named(r) + args(r) + [{"o": r.choice(["reduce", "reduce", "newobj"])}]
        elif k < 0.6:
            p += named(r) + args(r) + [{"o": "edict"}, {"o": "newobjex"}]
        elif k < 0.65:
            p += [{"o": "mark"}] + named(r) + [value(r) for _ in range(r.randrange(0, 2))] + [{"o": "obj"}]
        elif k < 0.72:
            p += [value(r), {"o": "build"}]
        elif k < 0.78:
            p += [{"o": "edict"}, value(r)] + named(r) + [{"o": "setitem"}]
        elif k < 0.83:
            p += [{"o": "put"}] + ([{"o": "pop"}] if r.random() < 0.5 else [])
        elif k < 0.88:
            p += [{"o": "get", "i": r.randrange(1, 3)}]
        else:
            p += [{"o": r.choice(sorted(SIMPLE))}]
    if r.random() < 0.1:
        p.insert(r.randrange(len(p) + 1), {"o": r.choice(sorted(SIMPLE))})
    return p + ([{"o": "stop"}] if r.random() < 0.95 else [])


def npy(payload):
    b = io.BytesIO()
    np.lib.format.write_array_header_1_0(b, {"descr": "|O", "fortran_order": False, "shape": (1,)})
    return b.getvalue() + payload


def run_programs(batch):
    d, seed, progs = batch
    import random

    from rsciio.pantarhei._restricted_unpickling import read_pickled_array

    r = random.Random(seed)
    arm(d)
    for c, (m, n) in EXT.items():
        copyreg._inverted_registry[c] = (m, n)
    seen = []

    def hook(ev, a):
        if ev == "pickle.find_class" and on and tuple(a) not in ALLOWED:
            seen.append(f"looked up {a[0]}.{a[1]}")

    on = False
    sys.addaudithook(hook)
    res = []
    for p in progs:
        del builtins.vf_ran[:], seen[:]
        b = encode(p, r)
        on = True
        try:
            read_pickled_array(io.BytesIO(npy(b)))
            got = "stop"
        except BaseException as e:  # noqa: B902
            got = "refused" if type(e).__name__ == "InvalidPickleError" else "error"
        on = False
        if len(res) % 20 == 0:  # as metadata of a file
            fn = os.path.join(d, "f.prz")
            with zipfile.ZipFile(fn, "w") as z:
                with z.open("data.npy", "w") as f:
                    np.save(f, np.zeros((2, 3)))
                z.writestr("meta_data.npy", npy(b))
            from rsciio.pantarhei import file_reader

            try:
                file_reader(fn, allow_restricted_pickle=True)
                if got == "refused":
                    got = "read"
            except BaseException as e:  # noqa: B902
                if (type(e).__name__ == "InvalidPickleError") != (got == "refused"):
                    got = f"file {type(e).__name__}"
        res.append({"got": got, "ran": list(builtins.vf_ran) + list(seen)})
    return res


# ---------------------------------------------------------- pickled arrays
def run_pickled(e):
    """A file whose arrays are pickles of something that notes being made."""
    d = e["dir"]
    os.makedirs(d, exist_ok=True)
    arm(d)
    import vfprobe

    del builtins.vf_ran[:]
    fn = os.path.join(d, "f" + e["ext"])
    bad = np.array([vfprobe.RunOnLoad(), 1][: e["n"]], dtype=object)
    if e["ext"] == ".npy":
        np.save(fn, bad, allow_pickle=True)
        from rsciio.numpy import file_reader
    else:
        a = {"data": np.zeros((2, 3)), "meta_data_json": json.dumps([{"type": "1D"}])}
        if e["which"] in ("meta_data", "both"):
            del a["meta_data_json"]
            a["meta_data"] = bad
        if e["which"] == "meta_data_json":
            a["meta_data_json"] = bad
        if e["which"] == "extra":
            a["data_model"] = bad
        if e["which"] in ("data", "both"):
            a["data"] = bad
        (np.savez_compressed if e["comp"] else np.savez)(open(fn, "wb"), **a)
        from rsciio.pantarhei import file_reader
    del builtins.vf_ran[:]
    kw = {"chunks": (1,) * (1 if e["ext"] == ".npy" or e["which"] in ("data", "both") else 2)} if e["lazy"] else {}
    if e["allow"]:
        kw["allow_restricted_pickle"] = True
    got = "stop"
    # (a fault in a child is an error of its own)
    pid = os.fork()
    r, w = 0, 0
    if pid == 0:
        try:
            L = file_reader(fn, lazy=e["lazy"], **kw)
            for s in L:
                str(s["data"].compute() if hasattr(s["data"], "compute") else s["data"])
        except BaseException:  # noqa: B902
            got = "error"
        os._exit((1 if got == "error" else 0) + (2 if builtins.vf_ran else 0))
    _, st = os.waitpid(pid, 0)
    if not os.WIFEXITED(st):
        return {"got": f"signal {os.WTERMSIG(st)}", "ran": []}
    c = os.WEXITSTATUS(st)
    shutil.rmtree(d)
    return {"got": "error" if c & 1 else "stop", "ran": ["call"] if c & 2 else []}


def content(r, depth=3):
    k = r.random()
    if depth and k < 0.3:
        return {r.choice("abcdef") + str(i): content(r, depth - 1) for i in range(r.randrange(0, 3))}
    if depth and k < 0.4:
        return [content(r, depth - 1) for _ in range(r.randrange(0, 3))]
    if depth and k < 0.45:
        return tuple(content(r, depth - 1) for _ in range(r.randrange(0, 3)))
    if k < 0.55:
        return r.choice([None, True, False, b"bytes", b""])
    if k < 0.7:
        return r.choice([0, -5, 10**12, 2.5, -1e300])
    if k < 0.8:
        return r.choice(["", "text", "µm é", "numpy"])
    if k < 0.9:
        return np.dtype(r.choice(["f8", "i2", ">u4", "f4"])).type(r.randrange(100))
    a = np.arange(r.choice([0, 1, 6])).astype(r.choice(["f8", "i4", "u1", "U5", "S3"]))
    return a.reshape((2, 3), order=r.choice("CF")) if a.size == 6 else a


def run_content(e):
    from rsciio.pantarhei._restricted_unpickling import read_pickled_array

    from ..terms import term

    arm(e["dir"])
    import random

    c = content(random.Random(e["seed"]))
    b = io.BytesIO()
    np.save(b, np.array([c, 0], dtype=object)[:1] if not isinstance(c, (list, tuple, np.ndarray)) else np.array([{"k": c}], dtype=object), allow_pickle=True)
    b.seek(0)
    try:
        v = read_pickled_array(b)[0]
    except BaseException as x:  # noqa: B902
        return {"got": f"{type(x).__name__}: {x}"[:200], "same": True, "ran": []}
    want = c if not isinstance(c, (list, tuple, np.ndarray)) else {"k": c}
    return {"got": "stop", "same": term(v) == term(want), "ran": list(builtins.vf_ran)}


# ------------------------------------------------------------------- files
RUNS = re.compile(rb"[\x09\x20-\x7e]{3,}")
RUNS16 = re.compile(rb"(?:[\x20-\x7e]\x00){3,}")
TEXTS = [rb'="([^"<>\r\n]{3,80})"', rb"='([^'<>\r\n]{3,80})'", rb">([^<>\r\n]{3,80})<", rb"[=:][ \t]*([^\r\n<>\"=:]{3,80})[\r\n\x00;]",
         rb'": ?"?([^"\r\n,{}\[\]]{3,80})"?[,}\r\n]', rb"[\t,;]([^\t\r\n,;]{3,80})(?=[\t\r\n,;])", rb"[\(\[]([^\(\)\[\]\r\n]{3,80})[\)\]]",
         rb"date([^\x00\r\n]{3,80})"]


def spots(b):
    """Where there are texts: [(from, to, is UTF-16)]."""
    s = set()
    for t in TEXTS:
        for m in re.finditer(t, b[: 1 << 20]):
            s.add((m.start(1), m.end(1), False))
    for m in RUNS.finditer(b[: 1 << 18]):
        if m.end() - m.start() < 200:
            s.add((m.start(), m.end(), False))
    for m in RUNS16.finditer(b[: 1 << 18]):
        if m.end() - m.start() < 400:
            s.add((m.start(), m.end(), True))
    return sorted(s)


PAYLOADS = ["Q()", "Q()", "(Q())", "(Q(),1)", "[Q()]", "Q()or 1", "1+Q()", "1,Q()"]


def payload(r, n):
    c = [p for p in PAYLOADS if len(p) <= n]
    return r.choice(c).ljust(n)


def inject(r, b, k, where=None):
    """Other texts in ``k`` places of the bytes ``b``."""
    s = spots(b) if where is None else where
    if not s:
        return b
    out = bytearray(b)
    for a, z, wide in r.sample(s, min(k, len(s))):
        if wide:
            out[a:z] = payload(r, (z - a) // 2).encode("utf-16-le")
        else:
            t = payload(r, z - a).encode()
            if b"(" in b[a:z] and z - a > 8 and r.random() < 0.5:  # keep what is in front of the bracket
                i = b.index(b"(", a, z)
                if z - i >= 6:
                    out[i:z] = b"(Q())".ljust(z - i)
                    continue
            out[a:z] = t
    return bytes(out)


def members(fn):
    """The files to change."""
    if os.path.isdir(fn):
        return [os.path.join(a, x) for a, _, c in os.walk(fn) for x in c]
    d, stem = os.path.dirname(fn), os.path.basename(fn)
    base = re.split(r"[._]", stem)[0]
    fs = [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.startswith(base) and os.path.isfile(os.path.join(d, x)) and x != stem]
    return [fn] * 3 + [x for x in fs if os.path.getsize(x) < 3e6][:4]


def change(r, fn, k):
    with open(fn, "rb") as f:
        b = f.read()
    if b[:2] == b"PK":
        out = io.BytesIO()
        with zipfile.ZipFile(io.BytesIO(b)) as z, zipfile.ZipFile(out, "w") as w:
            # (what isn't the array)
            ns = [n for n in z.infolist()]
            pick = {n.filename for n in r.sample(ns, min(len(ns), 3))}
            for n in ns:
                c = z.read(n)
                w.writestr(n, inject(r, c, k) if n.filename in pick else c, compress_type=n.compress_type)
        b = out.getvalue()
    elif b[:2] == b"\x1f\x8b":
        b = gzip.compress(inject(r, gzip.decompress(b), k), 1)
    else:
        b = inject(r, b, k)
    os.chmod(fn, 0o600)
    with open(fn, "wb") as f:
        f.write(b)


def read(plugin, fn, kw):
    import importlib

    from ..reading import plain

    signal.alarm(20)
    m = importlib.import_module("rsciio." + plugin)
    for lazy in (False, True):
        if lazy and plugin in corpus.EAGER_ONLY:
            break
        try:
            L = m.file_reader(fn, lazy=lazy, **kw)
            if lazy:
                for s in L:
                    plain(s.get("data"))
        except Exception:
            pass


def run_file(e):
    """Read a file with other texts put into it."""
    import random

    plugin, f, kw, k, seed, d = e["what"]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.alarm(40)
    t0 = time.time()
    r = random.Random(seed)
    os.makedirs(d)
    arm(d)
    n = os.path.join(d, "f")
    if plugin in ("arina", "hamamatsu", "phenom", "empad", "ripple", "tia", "edax", "tvips", "quantumdetector", "emd", "topspin", "mrc", "bruker", "jeol") or os.path.isdir(f):
        src = os.path.dirname(f)
        if sum(os.path.getsize(os.path.join(src, x)) for x in os.listdir(src) if os.path.isfile(os.path.join(src, x))) < 3e7:
            shutil.copytree(src, n, symlinks=True)
        else:
            os.makedirs(n)
            shutil.copy(f, n)
    else:
        os.makedirs(n)
        shutil.copy(f, n)
    g = os.path.join(n, os.path.basename(f))
    evals = []
    if k:
        ms = members(g)
        for x in {r.choice(ms)}:
            change(r, x, k)
    else:
        # which texts are evaluated?
        src = {}

        def hook(ev, a):
            if ev == "compile" and isinstance(a[0], (str, bytes)):
                t = a[0] if isinstance(a[0], str) else a[0].decode("latin1")
                if len(src) < 10000:
                    src[str(a[1])] = t
            elif ev == "exec":
                fn = getattr(a[0], "co_filename", "")
                if fn in src and not os.path.exists(fn):
                    evals.append(src[fn])

        sys.addaudithook(hook)
    ok = True
    import rsciio.utils.file  # noqa: F401

    try:
        read(plugin, g, kw)
    except BaseException:  # noqa: B902
        ok = False
    ran = list(builtins.vf_ran)
    # a text that was evaluated and is in the file: is it the file's?
    if evals and not ran:
        for t in {x.strip() for x in evals if 0 < len(x.strip()) <= 200}:
            for x in set(members(g)):
                with open(x, "rb") as h:
                    b = h.read()
                for c, new in others(b, t):
                    os.chmod(x, 0o600)
                    with open(x, "wb") as h:
                        h.write(c)
                    del evals[:]
                    try:
                        read(plugin, g, kw)
                    except BaseException:  # noqa: B902
                        pass
                    with open(x, "wb") as h:
                        h.write(b)
                    if builtins.vf_ran or any(new in y for y in evals):
                        ran = [f"evaluated {t[:60]}"]
                        break
    shutil.rmtree(d)
    return {"ran": ran[:3], "done": ok, "t": time.time() - t0}


def others(b, t):
    """The contents with another text of the same length for the text ``t``."""
    new = ("Q" * len(t)) if len(t) < 3 else "Q()".ljust(len(t))
    for enc in ("utf-8", "utf-16-le"):
        tb, nb = t.encode(enc, "replace"), new.encode(enc)
        if len(tb) != len(nb) or tb not in b:
            continue
        if len(t) >= 3:
            yield b.replace(tb, nb), new.strip()
            continue
        # one after the other, first those which look like values
        at = [m.start() for m in re.finditer(rb"(?<![\w.])" + re.escape(tb) + rb"(?![\w.])", b)]
        at.sort(key=lambda i: (b[i - 1 : i] not in (b">", b'"', b"=", b":", b" "), i))
        for i in at[:25]:
            yield b[:i] + nb + b[i + len(nb) :], new


def netcdf(fn, r):
    from scipy.io import netcdf_file

    with netcdf_file(fn, "w") as f:
        f.file_format_version = "EELSLab 0.1"
        f.type = r.choice(["image", "spectrum"])
        f.history = "Q()"
        f.createDimension("a", 2)
        f.createDimension("b", 3)
        v = f.createVariable("data_cube", "f4", ("a", "b"))
        v[:] = np.arange(6.0).reshape(2, 3)
        for n in ["energy_origin", "energy_scale", "energy_units", "x_origin", "x_scale", "x_units", "y_origin", "y_scale", "y_units", "exposure",
                  "title", "binning", "readout_frequency", "ccd_height", "blanking", "history", "dark_current", "readout", "gain", "pppc"]:
            if r.random() < 0.8:
                setattr(v, n, "Q()" if r.random() < 0.6 else 1.5)
    return fn


def hspy(fn, r):
    """Old metadata, bytes, texts that look like code or pickles."""
    import h5py

    arm(os.path.dirname(fn))
    import vfprobe

    p = pickle.dumps(vfprobe.RunOnLoad())
    with h5py.File(fn, "w") as f:
        f.attrs["file_format"] = "HyperSpy"
        f.attrs["file_format_version"] = r.choice(["3.1", "3.0", "2.2", "2.0", "1.3", "1.0"])
        g = f.create_group("Experiments/t")
        g.attrs["package"] = "vfprobe"
        g.attrs["package_version"] = "Q()"
        g["data"] = np.zeros((2, 3))
        for i, n in enumerate((2, 3)):
            x = g.create_group(f"axis-{i}")
            for k, v in dict(size=n, scale=1.0, offset=0.0, units="Q()", name="Q()", navigate=False, _type="Q()" if r.random() < 0.2 else "UniformDataAxis").items():
                x.attrs[k] = v
            if r.random() < 0.2:
                x.attrs["x"] = "Q()"
                x.attrs["expression"] = "Q()"
        for m in ("metadata", "original_metadata", "learning_results", "models"):
            h = g.create_group(m)
            for k, v in {"_datetime_date": "datetime.date(Q())", "_datetime_time": "time(Q())", "_datetime_date2": "(Q(), 1, 2)", "_bs_a": np.void(p),
                         "_bs_b": np.void(b"Q()"), "c": "Q()", "d": p.hex(), "_tuple_e": "(Q(),)", "_list_f": "[Q()]", "_dtype": "Q()", "_type": "vfprobe.Cls",
                         "_class_type": "vfprobe.Cls", "_module": "vfprobe"}.items():
                if r.random() < 0.6 and not k.startswith("_datetime") or r.random() < 0.2:
                    h.attrs[k] = v
            if r.random() < 0.5:
                h["_tuple_x"] = np.array([b"Q()", p[:5]], dtype="S5")
                h["y"] = np.array([b"Q()"], dtype="S3")
            if r.random() < 0.5:
                h["z"] = np.frombuffer(p, dtype="u1")
                h["w"] = np.void(p)
    return fn


def warm(plugins):
    """Import once what the processes for the files need."""
    import importlib

    for p in sorted(plugins):
        importlib.import_module("rsciio." + p + "._api")
    for m in ("h5py", "zarr", "tifffile", "imageio.v3", "skimage", "dask.array", "numba", "scipy.io", "sparse", "matplotlib", "rsciio.utils.file"):
        try:
            importlib.import_module(m)
        except Exception:
            pass


def made(ctx, k):
    d = ctx.dir()
    if k == "netcdf":
        return ("netcdf", netcdf(os.path.join(d, "file.nc"), ctx.rng), {}, "netcdf")
    return ("hspy", hspy(os.path.join(d, "file.hspy"), ctx.rng), {}, "texts")


def run(ctx):
    ctx.model_check(
        "UnpicklerMC",
        "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS OnlyListed NothingElseCalled CallsAreOfLooked RefusedBeforeCalled\n"
        f"CONSTANTS MaxLen={4 if ctx.quick else 5}\n",
    )
    r = ctx.rng
    q = ctx.quick
    tr = []
    # programs
    progs = [program(r) for _ in range(3000 if q else 60000)]
    batches = [(ctx.dir(), r.randrange(10**9), progs[i : i + 300]) for i in range(0, len(progs), 300)]
    for (_, _, ps), o in zip(batches, pmap(run_programs, batches, procs=8, timeout=120, fresh=True)):
        if isinstance(o, dict):
            # (which one?)
            for p in ps:
                x = pmap(run_programs, [(ctx.dir(), 1, [p])], procs=1, timeout=20, fresh=True)[0]
                tr.append({"ev": "program", "prog": p, "obs": {"got": str(x.get("err")), "ran": []} if isinstance(x, dict) else x[0]})
            continue
        for p, x in zip(ps, o):
            tr.append({"ev": "program", "prog": p, "obs": x})
    ctx.count("programs", len(progs))
    # arrays
    ev = []
    for lazy in (False, True):
        for n in (1, 2):
            ev.append(dict(ev="pickled", ext=".npy", which="data", n=n, lazy=lazy, comp=False, allow=False, expect="error"))
            for comp in (False, True):
                for which in ("data", "meta_data", "meta_data_json", "extra", "both"):
                    for allow in (False, True):
                        x = "stop" if which == "extra" or (which == "meta_data" and not allow) else "error"
                        ev.append(dict(ev="pickled", ext=".prz", which=which, n=n, lazy=lazy, comp=comp, allow=allow, expect=x))
    for e in ev:
        e["dir"] = ctx.dir()
    for e, o in zip(ev, pmap(run_pickled, ev, procs=8, timeout=60, fresh=True)):
        tr.append({k: v for k, v in dict(e, obs=o).items() if k != "dir"})
    ev = [{"ev": "content", "dir": ctx.dir(), "seed": r.randrange(10**9)} for _ in range(100 if q else 2000)]
    for e, o in zip(ev, pmap(run_content, ev, procs=8, timeout=60)):
        tr.append({k: v for k, v in dict(e, obs=o).items() if k != "dir"})
    # files
    fs = [(p, f, kw, "sample") for p, f in corpus.files() for kw in corpus.variants(p, f)[: 1 if q else 9]]
    fs = [x for x in fs if os.path.isdir(x[1]) or os.path.getsize(x[1]) < (2e6 if q else 2e7)]
    own = mix.files(ctx, 1 if q else 6) + [made(ctx, k) for k in ("netcdf", "hspy") for _ in range(12 if q else 100)]
    warm({p for p, _, _, _ in fs + own})
    ev = []
    for p, f, kw, kind in fs + own:
        if q and p == "jeol" and f.endswith((".pts", ".ASW")) and kind == "sample" and r.random() < 0.7:
            continue
        ks = [0] + [1 if q else r.choice([1, 1, 2, 5]) for _ in range((1 if kind == "sample" else 2) if q else 12)]
        if kind in ("netcdf", "texts"):
            ks = [0]
        for k in ks:
            ev.append({"ev": "file", "plugin": p, "what": [p, f, kw, k, r.randrange(10**9), os.path.join(ctx.dir(), "w")]})
    for e, o in zip(ev, pmap(run_file, ev, procs=8, timeout=100, fresh=True)):
        # (what damaged files do other than that is the matter of other checks)
        w = e["what"]
        tr.append({"ev": "file", "plugin": e["plugin"], "f": os.path.basename(w[1]), "k": w[3], "seed": w[4], "obs": {"ran": o.get("ran", [])}})
        if os.environ.get("VF_TIMES"):
            print(round(o.get("t", 99), 1), e["plugin"], os.path.basename(w[1]), w[3], str(o)[:100])
        ctx.count("unread" if not o.get("done") else "read")
    judge(ctx, "UnpicklerTrace", tr, lambda e: f"code-{e['ev']}" + (f"-{e['plugin']}" if e["ev"] == "file" else f"-{e['ext']}-{e['which']}" if e["ev"] == "pickled" else ""), chunk=20000)
