"""Writer of TVIPS series."""
import os
import struct


def num(e, f):
    return (e["t0"] * 1000 + e["times"][f])


def build(d, e):
    """One file per part, named stem_000.tvips and so on (the parts listed in present)."""
    b = e["bits"] // 8
    top = 256 if e["bits"] == 8 else 65536
    px = e["h"] * e["w"]
    f = 0
    for k, n in enumerate(e["counts"]):
        out = b""
        if k == 0:
            m = e["md"]
            out += struct.pack("<13I", e["head"]["size"], 2, e["w"], e["h"], e["bits"], e["offx"], e["offy"], 1, 2,
                               e["pixel"], m["ht"], m["mag"], 60 + e["extra"])
            out += (b"TVIPS " * 40)[:204]
            out += b"\xa5" * (e["head"]["size"] - len(out))
        for _ in range(n):
            t = num(e, f)
            m = e["md"]
            # the first frame's values are those of the film
            z = 0 if f == 0 else 1
            out += struct.pack("<4If2I5fI2f", f % 7, t // 1000, t % 1000, 3, m["current"] / 4 + z, 5, e["mode"],
                               m["x"] / 4 + z, m["y"] / 4 + z, m["z"] / 4 + z, m["a"] / 4 + z, m["b"] / 4 + z,
                               e["rot"][f], (f % 10) * 1.0, m["focus"] / 4 + z)
            out += b"\x5a" * e["extra"]
            for p in range(px):
                out += ((e["base"] + f * px + p) % top).to_bytes(b, "little")
            f += 1
        if k in e["present"]:
            with open(os.path.join(d, f"{e['stem']}_{k:03d}.{e['ext']}"), "wb") as fh:
                fh.write(out)
    return os.path.join(d, f"{e['stem']}_{e['open']}.{e['ext']}")
