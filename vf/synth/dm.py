"""Writer of Gatan DM3/DM4 files from a tree of tags.

A tag is {"name", "k": "g", "c": [tags]} or {"name", "k": <type>, "v": value}; the types are those of the format: i2 i4
u2 u4 f4 f8 b(oolean) c(har) i1 i8 u8, str, arr:<type>, struct:<types>, astruct:<types>, astr, aarr:<type>."""
import struct

CODE = {"i2": (2, "h"), "i4": (3, "i"), "u2": (4, "H"), "u4": (5, "I"), "f4": (6, "f"), "f8": (7, "d"), "b": (8, "B"),
        "c": (9, "c"), "i1": (10, "b"), "i8": (11, "q"), "u8": (12, "Q")}


class W:
    def __init__(self, e):
        self.v4 = e["version"] == 4
        self.e = "<" if e["little"] else ">"
        self.pos = 0

    def q(self, *x):
        return b"".join(struct.pack(">q" if self.v4 else ">i", i) for i in x)

    def val(self, t, v):
        return struct.pack(self.e + CODE[t][1], v)

    def sdef(self, ts):
        return self.q(0, len(ts)) + b"".join(self.q(0, CODE[t][0]) for t in ts)

    def leaf(self, n):
        """info array and data"""
        k, _, arg = n["k"].partition(":")
        v = n["v"]
        if k in CODE:
            return [self.q(1, CODE[k][0]), self.val(k, v)]
        if k == "str":
            return [self.q(2, 18, len(v)), v.encode("latin-1")]
        if k == "arr":
            if isinstance(v, bytes):  # elements already encoded
                return [self.q(3, 20, CODE[arg][0], n["n"]), v]
            if isinstance(v, str):
                v = [ord(c) for c in v]
            return [self.q(3, 20, CODE[arg][0], len(v)), b"".join(self.val(arg, x) for x in v)]
        if k == "struct":
            ts = arg.split(",")
            return [self.q(4 + 2 * len(ts), 15) + self.sdef(ts), b"".join(self.val(t, x) for t, x in zip(ts, v))]
        if k == "astruct":
            ts = arg.split(",")
            if isinstance(v, bytes):
                return [self.q(6 + 2 * len(ts), 20, 15) + self.sdef(ts) + self.q(n["n"]), v]
            return [self.q(6 + 2 * len(ts), 20, 15) + self.sdef(ts) + self.q(len(v)),
                    b"".join(self.val(t, x) for s in v for t, x in zip(ts, s))]
        if k == "astr":
            return [self.q(4, 20, 18, len(v[0]), len(v)), b"".join(x.encode("latin-1") for x in v)]
        if k == "aarr":
            return [self.q(5, 20, 20, CODE[arg][0], len(v[0]), len(v)), b"".join(self.val(arg, x) for s in v for x in s)]
        raise ValueError(k)

    def tag(self, n, pos):
        name = n["name"].encode(n.get("enc", "utf8"))
        h = struct.pack(">bh", 20 if n["k"] == "g" else 21, len(name)) + name
        if n["k"] == "g":
            h += b"\x01\x00" + (b"\0" * 8 if self.v4 else b"") + self.q(len(n["c"]))
            return h + self.tags(n["c"], pos + len(h))
        h += (b"\0" * 8 if self.v4 else b"") + b"%%%%"
        info, data = self.leaf(n)
        n["offset"] = pos + len(h) + len(info)
        n["nbytes"] = len(data)
        return h + info + data

    def tags(self, c, pos):
        out = b""
        for n in c:
            out += self.tag(n, pos + len(out))
        return out


def build(fn, e):
    w = W(e)
    h = struct.pack(">i", e["version"]) + w.q(0) + struct.pack(">i", 1 if e["little"] else 0) + b"\x01\x00" + w.q(len(e["tags"]))
    out = h + w.tags(e["tags"], len(h))
    with open(fn, "wb") as f:
        f.write(out + b"\0" * 8)
