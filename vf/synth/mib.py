"""Writer of Merlin .mib files."""
import datetime

import numpy as np

DT = {"U08": ">u1", "U16": ">u2", "U32": ">u4"}


def stamp(us):
    t = datetime.datetime(2021, 5, 7, 16, 51, 10) + datetime.timedelta(microseconds=us)
    return t.strftime("%Y-%m-%dT%H:%M:%S.%f") + "000Z"


def frame_header(e, k):
    hs = 768 if e["quad"] else 384
    n = 4 if e["quad"] else 1
    s = (
        f"MQ1,{k + 1:06d},{hs:05d},{n:02d},{e['w']:04d},{e['h']:04d},{e['code']},{'   2x2' if e['quad'] else '   1x1'},01,"
        f"2021-05-07 16:51:10.905800,0.0000{k % 10}1,0,0,0,1.2E+2,5.1E+2," + "0," * (80 if e["quad"] else 12)
        + f"MQ1A,{stamp(e['times'][k])},{(e['exposure'] + k) * 1000000}ns,6,"
    )
    b = s.encode()
    assert len(b) < hs, len(b)
    return b + b"\0" * (hs - len(b))


def build_bytes(e):
    out = b""
    px = e["h"] * e["w"]
    for k in range(e["n"]):
        v = (np.arange(px) + k * px + e["base"]).astype(DT[e["code"]])
        out += frame_header(e, k) + v.tobytes()
    return out + b"\1" * e["junk"]


def hdr_text(e):
    return (
        "HDR,\t\nTime and Date Stamp (yr, mnth, day, hr, min, s):\t5/7/2021 4:51:10 PM\n"
        f"Frames in Acquisition (Number):\t{e['hdrframes']}\nFrames per Trigger (Number):\t{e['hdrfpt']}\n"
        "Sensor Bias (V):\t120 V\nEnd\t\n"
    )


HDR_KEYS = 4


def build(fn, e):
    with open(fn, "wb") as f:
        f.write(build_bytes(e))
    if e["hdr"]:
        with open(fn[:-4] + ".hdr", "w") as f:
            f.write(hdr_text(e))
