"""Makes JEOL .img/.map, .eds and .asw files from trees of tags and tables of fields."""
import struct

import numpy as np

#: type number -> numpy type ("c" is text)
TYPES = {1: "u1", 2: "u2", 3: "i4", 4: "f4", 5: "f8", 6: "u1", 7: "u2", 8: "i4", 9: "f4", 10: "f8", 11: "?", 12: "c", 13: "c", 14: "u2", 20: "c", 65553: "?", 65552: "?"}


def raw(n):
    """A tag: ``n`` has the keys name, type, v (list of numbers or texts) and kids."""
    name = n["name"].encode() + b"\0"
    if n["type"] == 0:
        v = b""
    elif TYPES[n["type"]] == "c":
        v = b"\0".join(t.encode() for t in n["v"]) + b"\0"
    else:
        t = TYPES[n["type"]]
        v = np.array(n["v"], "<" + t if t not in ("u1", "?") else t).tobytes()
    out = b"\x01" + struct.pack("<i", len(name)) + name + struct.pack("<ii", n["type"], len(v)) + v
    return out + b"".join(raw(k) for k in n["kids"]) + b"\xff"


def tree(nodes):
    return b"".join(raw(n) for n in nodes) + b"\xff\xff"


def img(nodes, pad):
    head = 4 + 32 + 12
    return struct.pack("<I", 52) + b"JEOL image".ljust(32, b"\0") + struct.pack("<3I", head, 8, head + pad) + b"\x07" * (pad + 12) + tree(nodes)


def asw(nodes):
    return struct.pack("<I", 0) + b"\x01\xff\x05\x09" * 2 + tree(nodes)


EDS_HEAD = """filedate d; sp_name S80; username S32; - i; arr 10d; - i; - d; Esc d; Fnano_F d; E_Noise d; CH_Res d; live_time d; real_time d; DeadTime d;
CountRate d; CountRate_n i; CountRate_sum 2d; CountRate_value d; - d; DeadTime_n i; DeadTime_sum 2d; DeadTime_value d; - d; CoefA d; CoefB d; State S32; - i; - d; Tpl S32; NumCH i"""
EDS_PAR = """DetT S16; SEM S16; Port S16; AccKV d; AccNA d; skip 38b; MnKaRES d; WorkD d; InsD d; XtiltAng d; TakeAng d; IncAng d; skip2 i; ScanSize d;
DT_64 H; DT_128 H; DT_256 H; DT_512 H; DT_1K H; DetH d; DirAng d; XtalAng d; ElevAng d; ValidSize d; WinCMat S4; WinCZ H; WinCThic d; WinChem S16;
WinChem_nelem H; WinChem_Z1 H; WinChem_Z2 H; WinChem_Z3 H; WinChem_Z4 H; WinChem_Z5 H; WinChem_m1 d; WinChem_m2 d; WinChem_m3 d; WinChem_m4 d; WinChem_m5 d;
WinThic d; WinDens d; SpatMat S4; SpatZ H; SpatThic d; SiDead d; SiThic d"""
UNDERSCORED = ("WinChem_", "DT_")


def value(r, kind):
    n = int(kind[:-1] or 1) if kind[0] != "S" else 1
    if kind[0] == "S":
        return r.choice(["", "T1", "ab c", "x"])[: int(kind[1:]) - 1]
    k = kind[-1]
    f = {"d": lambda: r.randrange(-4000, 4000) / 8, "i": lambda: r.randrange(2**31), "H": lambda: r.randrange(2**16), "b": lambda: r.randrange(-128, 128)}[k]
    v = [f() for _ in range(n)]
    return v if n > 1 else v[0]


def pack(kind, v):
    if kind[0] == "S":
        return v.encode().ljust(int(kind[1:]), b"\0")
    return struct.pack("<" + kind, *(v if isinstance(v, list) else [v]))


def table(r, spec, known):
    out, vals = b"", {}
    for x in spec.replace("\n", " ").split(";"):
        n, k = x.split()
        v = known.get(n, value(r, k))
        out += pack(k, v)
        if n != "-":
            vals[n if n.startswith(UNDERSCORED) else n.replace("_", " ") if n not in ("sp_name",) else n] = v
    return out, vals


def eds(r, known_head, known_par, counts, elements, quanti, excluded):
    h, hv = table(r, EDS_HEAD, known_head)
    out = struct.pack("<I", 1) + b"\0" * 6 + h + np.array(counts, "<i4").tobytes() + struct.pack("<i", 3)
    out += struct.pack("<i", len(excluded)) + np.array(excluded, "<u2").tobytes()
    out += struct.pack("<i", len(elements))
    for e in elements:
        out += struct.pack("<iHiiHH", 2, e["Z"], 1, 0, e["Roi_min"], e["Roi_max"]) + r.randbytes(14)
        out += struct.pack("<4d", e["Energy"], 1, 2, 3) + e["name"].encode().ljust(32, b"\0") + struct.pack("<ii", 4, len(e["lines"]))
        for q in e["lines"]:
            a, b = q["e"].encode() + b"\0", q["l"].encode() + b"\0"
            out += struct.pack("<idH", 1, q["energy"], q["Z"]) + struct.pack("<b", len(a)) + a + struct.pack("<b", len(b)) + b + struct.pack("<i", q["detection"])
    out += struct.pack("<i", len(quanti))
    if quanti:
        out += struct.pack("<iiidii", 1, 2, 3, 4.0, 5, 6)
    for q in quanti:
        out += struct.pack("<iHii", 2, q["Z"], 1, 0) + struct.pack("<5d", q["Energy"], 9, q["Mass1 (%)"], q["Error"], q["Atom (%)"])
        out += q["name"].encode().ljust(16, b"\0") + struct.pack("<5d", q["Mass2 (%)"], 7, q["Counts"], 8, 9) + struct.pack("<iid", 1, 2, 3.0)
    p, pv = table(r, EDS_PAR, known_par)
    return out + struct.pack("<i", 5) + p, hv, pv
