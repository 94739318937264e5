"""Writer of JEOL .pts files (the format as read by rsciio/jeol)."""
import struct

import numpy as np

TYPES = {"H": 2, "i": 3, "f": 4, "d": 5, "c": 12}


def tag(name, value):
    n = name.encode() + b"\0"
    out = b"\x01" + struct.pack("<i", len(n)) + n
    if isinstance(value, dict) or (isinstance(value, tuple) and value[0] == "page"):
        if isinstance(value, tuple):  # ("page", "SEM", {...})
            v = value[1].encode() + b"\0"
            out += struct.pack("<ii", 12, len(v)) + v
            value = value[2]
        else:
            out += struct.pack("<ii", 0, 0)
        for k, x in value.items():
            out += tag(k, x)
    else:
        if isinstance(value, str):
            v, t = value.encode() + b"\0", 12
        elif isinstance(value, np.ndarray):
            t = TYPES[value.dtype.char if value.dtype.char != "l" else "i"]
            v = value.astype(value.dtype.newbyteorder("<")).tobytes()
        elif isinstance(value, int):
            v, t = struct.pack("<i", value), 3
        else:
            v, t = struct.pack("<d", value), 5
        out += struct.pack("<ii", t, len(v)) + v
    return out + b"\xff"


def header(e):
    s = 1e-6
    return {
        "PTTD Data": {
            "AnalyzableMap MeasData": {
                "Meas Cond": {"Pixels": f"{e['c']['w']}x{e['c']['h']}", "Tpl": "T4"},
                "MeasCond": {"Mag": float(e["mag"]), "AccKV": float(e["kv"])},
                "Doc": {
                    "CoefA": e["coefa"] * s, "CoefB": e["coefb"] * s,
                    "DwellTime(msec)": float(e["dwell"]), "Sweep": e["c"]["sweep"], "RealTime": 12.5,
                },
                **e.get("extra", {}),
            }
        },
        "PTTD Param": {
            "Params": {
                "PARAMPAGE0": ("page", "SEM", {
                    "ScanSize": e["field"] * 1e-6 * e["mag"] / 1e3, "DirAng": 0.0, "DetT": "det",
                    "ElevAng": 29.0, "MnKaRES": 135.0,
                }),
                "PARAMPAGE1": ("page", "EDXRF", {"Tpl": {"T1": {"DigZ": 7777}, "T4": {"DigZ": e["digz"]}}}),
            }
        },
    }


def build(fn, e):
    h = b"".join(tag(k, v) for k, v in header(e).items()) + b"\xff\xff"
    pre = 4 + 8 + 24 + 128 + 132 + 8
    hp = pre + 4 - 12 + 12
    hp = pre  # the tags start 12 bytes after head_pos
    body = b"\0" * 12 + h
    dp = pre + len(body)
    data = np.array(e["words"], "<u2").tobytes()
    with open(fn, "wb") as f:
        f.write(struct.pack("<I", 304) + b"\0" * 8)
        f.write(struct.pack("<6I", 0, 0, hp, len(body), dp, len(data)))
        f.write(b"\0" * 260 + struct.pack("<d", 43000.25))
        f.write(body + data)
