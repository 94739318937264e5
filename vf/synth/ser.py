"""Writer of TIA .ser and .emi files (as read by rsciio/tia)."""
import struct

import numpy as np

TYPES = {"uint8": 1, "uint16": 2, "uint32": 3, "int8": 4, "int16": 5, "int32": 6, "float32": 7, "float64": 8,
         "complex64": 9, "complex128": 10}


def element(c, k):
    rows = 1 if c["kind"] == "spectrum" else c["h"]
    r, x = np.mgrid[0:rows, 0 : c["w"]]
    # images are stored bottom row first
    v = ((c["base"] + k * 17 + r * c["w"] + x) % c["mod"]).astype(c["dtype"])
    b = b""
    if c["kind"] == "spectrum":
        d = c["sx"]
        b += struct.pack("<ddIHI", d["off"] * 1e-9, d["delta"] * 1e-9, d["elem"], TYPES[c["dtype"]], c["w"])
    else:
        for d in (c["sx"], c["sy"]):
            b += struct.pack("<ddI", d["off"] * 1e-9, d["delta"] * 1e-9, d["elem"])
        b += struct.pack("<HII", TYPES[c["dtype"]], c["w"], c["h"])
    b += v.tobytes()
    if c["tag"] == "xy":
        b += struct.pack("<HHIdd", 16706, 0, 1500000000 + k, c["xpos"][k] * 1e-9, c["ypos"][k] * 1e-9)
    else:
        b += struct.pack("<HHI", 16722, 0, 1500000000 + k)
    return b


def tag_len(c):
    return 24 if c["tag"] == "xy" else 8


def build(fn, c):
    new = c["version"] > 528
    f = struct.pack(
        "<HHHIIII", 0x4949, 0x0197, c["version"], 16672 if c["kind"] == "spectrum" else 16674,
        16706 if c["tag"] == "xy" else 16722, c["total"], c["valid"],
    )
    dims = b""
    for d in c["dims"]:
        de, un = d["desc"].encode(), d["units"].encode()
        dims += struct.pack("<IddI", d["size"], d["off"] * 1e-9, d["delta"] * 1e-9, d["elem"])
        dims += struct.pack("<I", len(de)) + de + struct.pack("<I", len(un)) + un
    els = [element(c, k) for k in range(c["valid"])]
    hl = len(f) + (8 if new else 4) + 4 + len(dims)
    first = c["arrayfirst"]
    w = 8 if new else 4
    tables = 2 * w * c["total"]
    off_array = hl if first else hl + sum(map(len, els)) + c["gap"] * len(els)
    pos, p = [], hl + (tables if first else 0)
    body = b""
    for e in els:
        body += b"\xee" * c["gap"] + e
        p += c["gap"]
        pos.append(p)
        p += len(e)
    pos += [0] * (c["total"] - len(pos))
    tags = [q + 1 if q else 0 for q in pos]
    tab = struct.pack(f"<{2 * c['total']}{'Q' if new else 'I'}", *pos, *tags)
    out = f + struct.pack("<Q" if new else "<I", off_array) + struct.pack("<I", len(c["dims"])) + dims
    out += tab + body if first else body + tab
    with open(fn, "wb") as fh:
        fh.write(out)


def emi_object(c):
    exp = ""
    if c["mode"] != "none":
        label = {"STEM": "STEM nP SA Zoom", "Diffraction": "TEM uP SA Zoom Diffraction", "TEM": "TEM uP SA Zoom Image"}[c["mode"]]
        exp = f"<Data><Label>Mode</Label><Value>{label}</Value><Unit></Unit></Data>"
    cam = "<CameraNamePath>BM-UltraScan</CameraNamePath>" if c["camera"] else ""
    return (
        f"<ObjectInfo><Uuid>{c['uuid']}</Uuid><AcquireDate>{c['date']}</AcquireDate>"
        f"<AcquireInfo><DwellTimePath>1e-3</DwellTimePath>{cam}</AcquireInfo>"
        "<ExperimentalDescription><Root>"
        f"{exp}<Data><Label>Stage A</Label><Value>{c['stage']}</Value><Unit>deg</Unit></Data>"
        "<Data><Label>User</Label><Value>me</Value><Unit></Unit></Data>"
        "</Root></ExperimentalDescription></ObjectInfo>"
    )
