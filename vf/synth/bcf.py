"""Bruker composite files: SFS containers with a map in them."""
import base64
import struct
import zlib

import numpy as np


# ---- the container
def compress(content, block):
    bl = [zlib.compress(content[i : i + block]) for i in range(0, len(content), block)]
    head = struct.pack("<IIII", 0x53434141, block, 0, len(bl)).ljust(0x80, b"\0")
    return head + b"".join(struct.pack("<IIII", len(b), block, 0, len(b) + 16) + b for b in bl)


def sfs(r, tree, chunk, version=2.6):
    """``tree``: list of (name, parent index, None or bytes)."""
    usable = chunk - 32
    per = usable // 4
    tick = 130000000000000000

    def nch(n, u=usable):
        return -(-n // u)

    need = []  # (kind, item, number)
    ntree = nch(len(tree) * 0x200)
    intree = usable // 0x200
    if ntree > 1:
        ntree = nch(len(tree), intree)
        if nch(len(tree) * 0x200) != ntree or usable % 4:
            return None  # (the reader's count of the chunks would be another)
    need += [("tree", 0, k) for k in range(ntree)]
    for i, (_, _, c) in enumerate(tree):
        if c is not None:
            need += [("table", i, k) for k in range(max(1, nch(nch(len(c)), per)))]
            need += [("data", i, k) for k in range(nch(len(c)))]
    where = list(range(1, len(need) + 1 + r.randrange(3)))
    if r.random() < 0.7:
        r.shuffle(where)
    at = {k: w for k, w in zip(need, where)}
    n = max(where) + 1
    out = bytearray(r.randbytes(0x118 + n * chunk)) if r.random() < 0.5 else bytearray(0x118 + n * chunk)

    def put(no, data, following=0xFFFFFFFF):
        out[no * chunk + 0x118 : no * chunk + 0x11C] = struct.pack("<I", following)
        out[no * chunk + 0x138 : no * chunk + 0x138 + len(data)] = data

    items = []
    for i, (name, parent, c) in enumerate(tree):
        items.append(struct.pack(
            "<iQQQQIi176s?3s256s32s", at.get(("table", i, 0), -1), 0 if c is None else len(c), tick, tick, tick, 0, parent,
            b"", c is None, b"", name.encode(), b""))
        if c is None:
            continue
        table = struct.pack(f"<{nch(len(c))}I", *[at["data", i, k] for k in range(nch(len(c)))])
        k = 0
        while ("table", i, k) in at:
            put(at["table", i, k], table[k * per * 4 : (k + 1) * per * 4], at.get(("table", i, k + 1), 0xFFFFFFFF))
            k += 1
        for k in range(nch(len(c))):
            put(at["data", i, k], c[k * usable : (k + 1) * usable])
    if ntree == 1:
        put(at["tree", 0, 0], b"".join(items))
    else:
        for k in range(ntree):
            put(at["tree", 0, k], b"".join(items[k * intree : (k + 1) * intree]), at.get(("tree", 0, k + 1), 0xFFFFFFFF))
    out[:8] = b"AAMVHFSS"
    out[0x124:0x12C] = struct.pack("<fI", version, chunk)
    out[0x140:0x14C] = struct.pack("<III", at["tree", 0, 0], len(tree), n)
    return bytes(out)


# ---- pixels
def pack12(v):
    out = bytearray(6 * -(-len(v) // 4))
    for i, c in enumerate(v):
        b, k = 6 * (i // 4), i % 4
        if k == 0:
            out[b + 1] = c >> 4
            out[b] |= (c & 15) << 4
        elif k == 1:
            out[b] |= c >> 8
            out[b + 3] = c & 255
        elif k == 2:
            out[b + 2] = c >> 4
            out[b + 5] |= (c & 15) << 4
        else:
            out[b + 5] |= c >> 8
            out[b + 4] = c & 255
    return bytes(out)


def bunches(r, nch, top):
    """Instructions for ``nch`` channels: bytes and values."""
    out, vals = bytearray(), []
    while len(vals) < nch:
        n = min(nch - len(vals), r.choice([1, 2, 3, 5, 8, 40] if nch < 100 else [40, 255]), 255)
        size = r.choice([0, 0, 1, 1, 2, 4, 8])
        out += bytes([size, n])
        if size == 0:
            vals += [0] * n
        else:
            width = 15 if size == 1 else min(2 ** (4 * size) - 1, top)
            gain = r.choice([0, 0, 1, r.randrange(1, max(2, min(top, 2 ** (8 * size) - 1) - 15))])
            v = [r.randrange(0, max(1, min(width, top - gain)) + 1) for _ in range(n)]
            out += gain.to_bytes(size, "little")
            if size == 1:
                for i in range(0, n, 2):
                    out.append(v[i] | ((v[i + 1] if i + 1 < n else 0) << 4))
            else:
                for x in v:
                    out += x.to_bytes(size // 2, "little")
            vals += [x + gain for x in v]
    return bytes(out), vals


def pixel(r, x, nch, top):
    """(bytes, values) of a pixel."""
    flag = r.choice([0, 1, 1, 2, 2, 2, 3])
    n = r.choice([0, 1, 2, 3, 4, 5, 9, 30])
    chan2 = nch
    if flag < 2:
        v = [r.randrange(nch) for _ in range(n)]
        pay = pack12(v) if flag else struct.pack(f"<{n}H", *v)
        size2 = len(pay)
        vals = []
    else:
        n = r.choice([0, 0, 1, 2, 7])
        v = [r.randrange(nch) for _ in range(n)]
        chan2 = r.choice([nch, nch, r.randrange(1, nch + 1)])
        ins, vals = bunches(r, chan2, top)
        size2 = len(ins) + 4
        pay = ins + struct.pack(f"<I{n}H", 2 * n, *v)
    head = struct.pack("<IHHIHHHI", x, nch, chan2, 1, flag, size2 & 0xFFFF, n, size2)
    vals = vals + [0] * (nch - len(vals))
    return {"x": x, "flag": flag, "n": n, "pay": list(pay)}, head + pay, max(c + v.count(i) for i, c in enumerate(vals))


def stream(r, w, h, nch, top):
    """(pixels per line, bytes) of a map."""
    out = bytearray(struct.pack("<ii", h, w)).ljust(0x1A0, b"\0")
    lines, most = [], 0
    for _ in range(h):
        xs = list(range(w)) if r.random() < 0.7 else sorted(r.sample(range(w), r.randrange(0, w + 1)))
        ps = [pixel(r, x, nch, top) for x in xs]
        out += struct.pack("<i", len(ps)) + b"".join(p[1] for p in ps)
        lines.append([p[0] for p in ps])
        most = max([most] + [p[2] for p in ps])
    return lines, bytes(out), most


def element(tag, d):
    return f"<{tag}>" + "".join(f"<{k}>{v}</{k}>" for k, v in d.items()) + f"</{tag}>"


def cls(typ, body, name=None):
    n = f' Name="{name}"' if name else ""
    return f'<ClassInstance Type="{typ}"{n}>{body}</ClassInstance>'


def fields(d):
    return "".join(f"<{k}>{v}</{k}>" for k, v in d.items())


def spectrum(h, counts):
    layers = base64.b64encode(zlib.compress(b"<DetLayers><Layer0 Atom='13'/></DetLayers>")).decode()
    head = cls("TRTSpectrumHardwareHeader", fields({"Amplification": h["amp"], "RealTime": 2000, "LifeTime": 1500})) + cls(
        "TRTDetectorHeader", fields({"Type": "XFlash", "DetLayers": layers})) + cls(
        "TRTESMAHeader", fields({"PrimaryEnergy": h["hv"], "ElevationAngle": 35}))
    return cls("TRTSpectrum", f"<TRTHeaderedClass>{head}</TRTHeaderedClass>" + cls(
        "TRTSpectrumHeader", fields({"Date": h["date"], "Time": h["time"], "ChannelCount": len(counts), "CalibAbs": h["eoff"], "CalibLin": h["elin"]})) +
        f"<Channels>{','.join(str(c) for c in counts)}</Channels>")


def header(h, images, sums):
    planes = "".join(
        f"<Plane{i}><Data>{base64.b64encode(im.tobytes()).decode()}</Data><Description>{t}</Description></Plane{i}>"
        for i, (t, im) in enumerate(images))
    im0 = images[0][1]
    sem = {"HV": h["hv"], "Mag": 100}
    if h["dx"] is not None:
        sem.update(DX=h["dx"], DY=h["dy"])
    body = "<Header>" + fields({"Date": h["date"], "Time": h["time"], "FileVersion": 1}) + "</Header>"
    body += cls("TRTSEMData", fields(sem)) + cls("TRTSEMStageData", fields({"X": 1, "Y": 2}))
    body += cls("TRTDSPConfiguration", fields({"LineAverage": 1, "PixelAverage": 1, "PixelTime": 64}))
    body += cls("TRTImageData", fields({"Width": im0.shape[1], "Height": im0.shape[0], "ItemSize": im0.dtype.itemsize, "PlaneCount": len(images)}) + planes)
    body += cls("TRTContainerClass", "<ChildClassInstances>" + cls("TRTElementInformationList", cls(
        "TRTSpectrumRegionList", "<ChildClassInstances>" + "".join(
            cls("TRTSpectrumRegion", fields({"Line": l, "Energy": 1}), e) for e, l in h["elements"]) + "</ChildClassInstances>")) + "</ChildClassInstances>")
    body += f"<LineCounter>{','.join('1' for _ in range(im0.shape[0]))}</LineCounter><ChCount>{len(sums[0])}</ChCount><DetectorCount>1</DetectorCount>"
    body += "".join(f"<SpectrumData{i}>{spectrum(h, s)}</SpectrumData{i}>" for i, s in enumerate(sums))
    x = '<?xml version="1.0" encoding="UTF-8"?><TRTDatabase>' + cls("TRTSpectrumDatabase", body, h["name"]) + "</TRTDatabase>"
    if h["comma"]:
        x = x.replace(f">{h['elin']}<", f">{str(h['elin']).replace('.', ',')}<").replace(f">{h['eoff']}<", f">{str(h['eoff']).replace('.', ',')}<")
    return x.encode()


def gen(r):
    """(description, bytes of a file)."""
    w, hgt, nch = r.randrange(1, 6), r.randrange(1, 5), r.choice([4, 11, 24, 60, 900])
    if nch == 900:
        w, hgt = min(w, 2), min(hgt, 2)
    top = r.choice([100, 200, 240, 400, 60000, 100000, 2**22])
    maps = [stream(r, w, hgt, nch, top) for _ in range(r.choice([1, 1, 2]))]
    # (the sum decides the type of the map)
    sums = []
    for m in maps:
        s = [r.randrange(0, 5) if r.random() < 0.7 else 0 for _ in range(nch)]
        # no pixel has more than twice the mean
        s[0] = max(4, -(-m[2] // 2) if r.random() < 0.7 else m[2] * r.randrange(1, 5)) * w * hgt
        sums.append(s)
    h = {"amp": r.choice([10000, 20000, 40000]), "hv": r.choice([5, 15, 30, 200]), "date": f"{r.randrange(1, 29):02d}.0{r.randrange(1, 10)}.20{r.randrange(10, 30)}",
         "time": f"{r.randrange(24)}:0{r.randrange(10)}:{r.randrange(10, 60)}", "eoff": r.choice([-0.5, 0.25, 0.5]), "elin": r.choice([0.5, 0.25, 0.125]),
         "dx": r.choice([None, 0.5, 0.25, 2.0]), "dy": r.choice([0.5, 1.0, 4.0]), "elements": r.choice([[], [("Cu", "KA1"), ("Au", "M")], [("Zn", "L")]]),
         "name": r.choice(["Map", "a map"]), "comma": r.random() < 0.3}
    dt = r.choice(["u1", "u2", "u4"])
    images = [(f"det{i}", np.array([r.randrange(1, 200) for _ in range(w * hgt)], dt).reshape(hgt, w)) for i in range(r.choice([1, 1, 2]))]
    files = [("HeaderData", header(h, images, sums))] + [(f"SpectrumData{i}", m[1]) for i, m in enumerate(maps)]
    if r.random() < 0.4:
        files.append(("SpectrumPositions0", r.randbytes(r.randrange(1, 2000))))
    comp = r.choice([0, 0, 430, 600, 4096, 524288])
    chunks = [576, 1056, 4096, 4096, 65536]
    size = len(maps[0][1])
    if r.random() < 0.25:
        # the end of the map is the end of a block
        k = r.choice([i for i in range(1, 30) if size % i == 0 and size // i >= 416])
        if comp:
            comp = size // k
        elif size // k >= 0x200:
            chunks = [size // k + 32]
    if comp:
        files = [(n, compress(c, comp)) for n, c in files]
    tree = [("EDSDatabase", -1, None)] + [(n, 0, c) for n, c in files]
    while True:
        raw = sfs(r, tree, r.choice(chunks))
        if raw:
            break
        chunks = [576, 1056, 4096, 4096, 65536]
    d = {"w": w, "h": hgt, "nch": nch, "maps": [m[0] for m in maps], "sums": sums, "head": h, "comp": comp, "chunk": 0,
         "images": [[t, im] for t, im in images], "top": top}
    return d, raw
